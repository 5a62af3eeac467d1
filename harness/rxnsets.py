"""Drivers for reaction sets: C08 (storage), C09 (duplicates), C10 (queries), C11 (conditions), C34 (tables)."""
from __future__ import annotations
import json
from fractions import Fraction
from .common import Check, rat, rng_for, scale, run_cases, exc_name
from .chem import *
from . import fakeray
from .fakes import LinEntry
from monty.json import MontyDecoder, MontyEncoder
from pymatgen.core import Element
from rxn_network.core import Composition
from rxn_network.entries.interpolated import InterpolatedEntry
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction
from rxn_network.reactions.reaction_set import ReactionSet
from rxn_network.costs.functions import WeightedSum

ELS = ["Li", "Mn", "O", "Cl", "Ba", "C", "Ti"]
GASF = ["O2", "CO2", "CO", "N2"]
TEMPS = [300, 700, 1200]

# ------------------------------------------------------------ parameters (pure data)
def universe(rng, mixed=False, kind="lin"):
    elems = ["O"] + rng.sample([e for e in ELS if e != "O"], rng.randint(1, 3))
    rng.shuffle(elems)
    ents = []; base = 0
    for _ in range(rng.randint(1, 3)):
        r = random_reaction(rng, elems, maxcoef=9, kmax=4)
        if not r: continue
        for c in r[0]:
            if any(x["c"] == c for x in ents): continue
            for _ in range(rng.choice([1, 1, 2, 3])):
                tab = [Fraction(rng.randint(-24, 4), 2) for _ in TEMPS]
                for t in (rng.sample(range(1, 4), rng.randint(1, 2)) if mixed else [1]):
                    ents.append(dict(c=c, b=base + 1, t=t, m=rng.choice([1, 1, 2, 3]), tab=[q(x) for x in tab]))
                base += 1
    rng.shuffle(ents)
    return dict(elems=elems, ents=ents, kind=kind, mixed=mixed, unit=rng.choice([1, 1, 0.1, 0.01, 0.37]), hulls=rng.random() < 0.6)

def rand_rx(rng, u, tag, mult=None):
    """a balanced reaction over entries of the universe"""
    comps = []
    for x in u["ents"]:
        if x["c"] not in comps: comps.append(x["c"])
    for _ in range(60):
        k = rng.randint(2, min(4, len(comps)))
        if len(comps) < 2: return None
        cs = rng.sample(comps, k)
        g = nullspace_guard(cs)
        if not g or g[0] != 1: continue
        v = g[1]
        if 0 in v or all(x > 0 for x in v) or all(x < 0 for x in v) or max(map(abs, v)) > 30: continue
        if rng.random() < 0.5: v = [-x for x in v]
        f = Fraction(1) if mult is None else mult
        es = [rng.choice([i + 1 for i, x in enumerate(u["ents"]) if x["c"] == c]) for c in cs]
        opn = u["elems"].index("O")
        if not any(x > 0 and any(a for j, a in enumerate(c) if j != opn) for c, x in zip(cs, v)): continue
        if not any(x < 0 and any(a for j, a in enumerate(c) if j != opn) for c, x in zip(cs, v)): continue
        return dict(e=es, co=[q(x * f) for x in v], d=tag)
    return None

def poly_rx(rng, u, tag):
    """polymorph transformation"""
    by = {}
    for i, x in enumerate(u["ents"]): by.setdefault(tuple(x["c"]), []).append(i + 1)
    opn = u["elems"].index("O")
    c = [v for k, v in by.items() if len(v) > 1 and any(a for j, a in enumerate(k) if j != opn)]
    if not c: return None
    a, b = rng.sample(rng.choice(c), 2)
    return dict(e=[a, b], co=[[-1, 1], [1, 1]], d=tag)

def variant(rng, rx, tag):
    """same reaction permuted / scaled / reversed"""
    idx = list(range(len(rx["e"]))); rng.shuffle(idx)
    f = rng.choice([Fraction(1), Fraction(2), Fraction(1, 2), Fraction(-1), Fraction(3), Fraction(-2), Fraction(1, 3)])
    return dict(e=[rx["e"][i] for i in idx], co=[q(fr(rx["co"][i]) * f) for i in idx], d=tag)

def rand_pool(rng, u, n):
    out = []
    for k in range(n):
        z = rng.random()
        if out and z < 0.45: r = variant(rng, rng.choice(out), len(out) + 1)
        elif z < 0.55: r = poly_rx(rng, u, len(out) + 1)
        else: r = rand_rx(rng, u, len(out) + 1, rng.choice([Fraction(1), Fraction(1), Fraction(1, 2), Fraction(3, 2)]))
        if r: out.append(r)
    return out

MUS = [[], [Fraction(-1, 2)], [Fraction(-3)], [Fraction(0)], [Fraction(1)]]
def gen(rng, focus):
    mixed = focus in ("C08", "C09", "C10") and rng.random() < 0.2
    kind = "interp" if (focus != "C11" and not mixed and rng.random() < 0.3) else "lin"
    u = universe(rng, mixed, kind)
    if kind == "interp":
        for x in u["ents"]: x["tab"] = [x["tab"][0]] * 3
    pool = rand_pool(rng, u, rng.randint(2, 14 if focus == "C09" else 9))
    if not pool: return None
    O = u["elems"].index("O") + 1
    def mu(): 
        m = rng.choice(MUS); return [O, q(m[0])] if m else []
    ops = []
    sub = lambda k: rng.sample(pool, min(len(pool), k))
    allents = list(range(1, len(u["ents"]) + 1))
    def new():
        rx = sub(rng.randint(1, len(pool))) if focus != "C09" else [rng.choice(pool) for _ in range(rng.randint(1, len(pool) + 3))]
        if rng.random() < 0.06: rx = []
        given = allents if (rng.random() < 0.5 or not rx) else []
        op = rng.random() < 0.35
        rmu = [mu() for _ in rx]
        if op:
            m = rng.choice(rmu) if rmu else []
            if rng.random() < 0.6: rmu = [m for _ in rmu]
        else: rmu = [[] for _ in rx]
        return dict(o="new", rx=rx, given=given, mu=mu() if rng.random() < 0.3 else [], rmu=rmu,
                    filter=focus in ("C08", "C09") and rng.random() < 0.15, elsym=rng.random() < 0.5)
    ops.append(new())
    nops = rng.randint(2, 7)
    w = {"C08": ["new", "add", "add", "addset", "addset", "json", "json", "filter", "product", "observe", "chempot", "reactants"],
         "C09": ["filter"] * 5 + ["add", "addset", "json", "chempot"],
         "C10": ["reactants"] * 3 + ["product"] * 3 + ["add", "filter", "json"],
         "C11": ["temp"] * 3 + ["chempot"] * 3 + ["temps", "rxntemp", "rxntemp", "product", "filter", "json", "add", "addset"],
         "C34": ["table"] * 4 + ["chempot", "temp", "filter", "add"]}[focus]
    for _ in range(nops):
        n = rng.choice(w)
        if mixed and n in ("temp", "temps", "rxntemp"): continue
        fs = [x["c"] for x in u["ents"]]
        o = dict(o=n, r=rng.random(), r2=rng.random(), hint=rng.random())
        if n == "new": o = new()
        if n == "add": o.update(rx=[rng.choice(pool) for _ in range(rng.randint(1, 3))])
        if n == "filter":
            o.update(nens=rng.choice([0, 0, 1, 1, 2, 3]), absent=rng.random() < 0.1, arx=rand_rx(rng, u, 99), par=rng.random() < 0.6, cpus=rng.choice([1, 2, 3, 5, 8]),
                     policy=rng.choice(["random", "fifo", "lifo"]), ss=rng.randrange(10**6))
        if n == "reactants": o.update(fs=[rng.choice(fs) for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))] if rng.random() < 0.9 else [reduce_vec(u["elems"], [1] + [0] * (len(u["elems"]) - 1))], fm=rng.choice([1, 1, 2]),
                                      frompool=rng.random() < 0.6)
        if n == "product": o.update(f=rng.choice(fs) if rng.random() < 0.9 else reduce_vec(u["elems"], [7] + [1] * (len(u["elems"]) - 1)), fm=rng.choice([1, 1, 3]))
        if n == "chempot": o.update(mu=mu())
        if n == "temp": o.update(T=rng.randint(1, 3))
        if n == "temps": o.update(Ts=rng.sample([1, 2, 3], rng.randint(1, 3)))
        if n == "rxntemp": o.update(T=rng.randint(1, 3))
        if n == "table": o.update(w=[q(rng.choice([1, 2, -1, Fraction(1, 20)])), q(rng.choice([0, Fraction(1, 4), 3]))], target=rng.choice(fs) if rng.random() < 0.7 else [])
        ops.append(o)
    return dict(u=u, ops=ops, focus=focus)

# ------------------------------------------------------------ execution
def ival(x): return int(x) if x is not None and x == x else -9
def mcol(row, k): return int(round(float(row[k]) * 1000)) if k in row else -1
def EH(b): return (b * 7 + 3) % 5 * 20   # meV
class Ctx:
    def __init__(self, u):
        self.u = u; self.elems = u["elems"]; self.E = []; self.key = {}; self.basekey = {}
        seen = {}
        for i, x in enumerate(u["ents"]):
            c = Composition({e: n * x["m"] for e, n in zip(self.elems, x["c"]) if n})
            tab = {T: float(fr(v) * x["m"]) * u["unit"] for T, v in zip(TEMPS, x["tab"])}
            # units of pure diatomics are stored as X2
            if u["kind"] == "interp": e = InterpolatedEntry(c, tab[TEMPS[0]], entry_id=f"id-{x['b']}")
            else: e = LinEntry(c, tab, TEMPS[x["t"] - 1], f"id-{x['b']}", data={"theoretical": bool(x["b"] % 2), **({"e_above_hull": EH(x["b"]) / 1000} if u["hulls"] else {})})
            self.E.append(e)
            self.key[(x["b"], x["t"])] = i + 1
            self.basekey.setdefault(x["b"], i + 1)
    def ids(self, e, T):
        b = int(str(e.entry_id).split("-")[1])
        t = self.tidx(e)
        if T == 0: return self.key.get((b, t), 0)
        return self.basekey.get(b, 0)
    def tidx(self, e):
        t = getattr(e, "temperature", None)
        return 1 if t is None else TEMPS.index(t) + 1
    def rxn(self, x, mu=()):
        es = [self.E[i - 1] for i in x["e"]]; co = [float(fr(k)) for k in x["co"]]
        if mu: return OpenComputedReaction(es, co, {Element(self.elems[mu[0] - 1]): float(fr(mu[1])) * self.u["unit"]}, {"tag": x["d"], "z": x["d"] % 3})
        return ComputedReaction(es, co, {"tag": x["d"], "z": x["d"] % 3})
    def obs1(self, r, T):
        kind = {"ComputedReaction": "computed", "OpenComputedReaction": "open"}.get(type(r).__name__, "?")
        mu = sorted([self.elems.index(str(el)) + 1, rat(m / self.u["unit"])] for el, m in r.chempots.items()) if hasattr(r, "chempots") else []
        return dict(e=[self.ids(x, T) for x in r.entries], t=[self.tidx(x) if self.u["kind"] == "lin" else (T or 1) for x in r.entries],
                    co=[rat(x) for x in r.coefficients], d=int(r.data.get("tag", -1)), en=rat(r.energy / self.u["unit"]), kind=kind, mu=mu)
    def obs(self, rs, T):
        rx = list(rs.get_rxns())
        if [self.obs1(r, T) for r in rs] != [self.obs1(r, T) for r in rx]: rx = rx + rx
        return dict(rx=[self.obs1(r, T) for r in rx], len=len(rs), ents=sorted(self.ids(e, T) for e in rs.entries))

NOOBS = dict(rx=[], len=0, ents=[])
def execute(p):
    u = p["u"]; cx = Ctx(u); fakeray.SCHED.reset(0, 4, "fifo")
    nb = max([x["b"] for x in u["ents"]])
    en = [[[0, 1]] * 3 for _ in range(nb)]
    for x in u["ents"]: en[x["b"] - 1] = x["tab"]
    ev = [dict(op="universe", ents=[dict(c=x["c"], b=x["b"], t=x["t"]) for x in u["ents"]], en=en)]
    regs = []   # (ReactionSet, model temperature, model entries, mu)
    def pick(r): return int(r * len(regs)) if r < 0.5 else len(regs) - 1
    for o in p["ops"]:
        if o["o"] == "new":
            rx = o["rx"]; allopen = all(o["rmu"]) if rx else False
            e = dict(op="new", name="new", rx=rx, given=o["given"], mu=o["mu"], rmu=o["rmu"], allopen=allopen, filter=o["filter"], exc="", obs=NOOBS)
            ev.append(e)
            if not rx and not o["given"]: ev.pop(); continue
            try:
                fakeray.SCHED.reset(len(ev), 3, "random")
                kw = {}
                if o["given"]: kw["entries"] = [cx.E[i - 1] for i in o["given"]]
                if o["mu"]:
                    s = cx.elems[o["mu"][0] - 1]
                    kw.update(open_elem=s if o["elsym"] else Element(s), chempot=float(fr(o["mu"][1])) * u["unit"])
                if o["filter"]: kw["filter_duplicates"] = True
                rs = ReactionSet.from_rxns([cx.rxn(x, m) for x, m in zip(rx, o["rmu"])], **kw)
                e["obs"] = cx.obs(rs, 0); regs.append((rs, 0))
            except Exception as ex:
                e["exc"] = exc_name(ex); break
            continue
        if not regs: break
        i = pick(o["r"]); rs, T = regs[i]
        n = o["o"]
        have = {cx.ids(x, T) for x in rs.entries}
        if n == "rxntemp":
            rx = list(rs)
            if not rx or u["kind"] != "lin": continue
            r = rx[int(o["r2"] * len(rx))]
            x = cx.obs1(r, T)
            e = dict(op="rxntemp", i=i + 1, T=o["T"], x={k: x[k] for k in ("e", "co", "d")}, rx=x, exc="")
            try:
                if o["hint"] < 0.4 and len({c for c in r.compositions}) == len(r.entries):
                    n2 = r.get_new_temperature(TEMPS[o["T"] - 1], entries_at_temp={z.composition: z.get_new_temperature(TEMPS[o["T"] - 1]) for z in r.entries})
                else: n2 = r.get_new_temperature(TEMPS[o["T"] - 1])
                e["rx"] = cx.obs1(n2, o["T"])
            except Exception as ex: e["exc"] = exc_name(ex)
            ev.append(e); continue
        if n == "table":
            e = dict(op="table", i=i + 1, w=o["w"], target=o["target"], seps=False, gases=[], rows=[], costs=[], iter=[], exc="", hulls=u["hulls"] and u["kind"] == "lin", lin=u["kind"] == "lin", eh=[EH(x["b"]) for x in u["ents"]])
            for g in GASF:
                c = Composition(g)
                if all(str(x) in cx.elems for x in c.elements): e["gases"].append(vec(c, cx.elems))
            if len(rs) == 0: continue
            try:
                cf = WeightedSum(params=["energy_per_atom", "tag"], weights=[float(fr(o["w"][0])) / u["unit"], float(fr(o["w"][1]))])
                tgt = Composition(formula(cx.elems, o["target"])) if o["target"] else None
                sep = e["seps"] = bool(tgt) and all(tgt.reduced_composition in r.compositions for r in rs)
                if o["r2"] < 0.4:   # a table is the caller's to change: the next one is not affected
                    d0 = rs.to_dataframe(cf, target=tgt, calculate_separable=sep, calculate_uncertainties=o["hint"] < 0.3)
                    d0["energy"] = -99.0; d0["tag"] = 77
                    if o["r2"] < 0.2: d0.drop(d0.index[:1], inplace=True)
                df = rs.to_dataframe(cf, target=tgt, calculate_separable=sep, calculate_uncertainties=o["hint"] < 0.3)
                for _, row in df.iterrows():
                    x = cx.obs1(row["rxn"], T)
                    e["rows"].append(dict(x={k: x[k] for k in ("e", "co", "d")}, en=rat(row["energy"] / u["unit"], 40000), cost=rat(row["cost"], 400000), uc=int(round(row["cost"] * 1e6)), tag=int(row["tag"]), z=ival(row["z"]),
                                          nel=int(row["max_num_precursor_elems"]), hr=mcol(row, "max_e_hull_reactants"), hp=mcol(row, "max_e_hull_products"),
                                          tr=ival(row.get("num_theoretical_reactants", -1)), tp=ival(row.get("num_theoretical_products", -1)), sep=bool(row["separable"]) if sep else False,
                                          added=[cx.elems.index(z) + 1 for z in row["added_elems"].split("-") if z] if tgt else []))
                e["costs"] = [rat(z, 400000) for z in rs.calculate_costs(cf)]
                e["iter"] = [{k: z[k] for k in ("e", "co", "d")} for z in cx.obs(rs, T)["rx"]]
            except Exception as ex: e["exc"] = exc_name(ex)
            ev.append(e); continue
        if n == "temps":
            if u["kind"] != "lin": continue
            try: res = rs.compute_at_temperatures([TEMPS[t - 1] for t in o["Ts"]]); exc = ""
            except Exception as ex: res = {}; exc = exc_name(ex)
            bad = False
            for t in o["Ts"]:
                e = dict(op="set", name="temp", i=i + 1, j=0, rx=[], ens=[], fs=[], f=[], mu=[], T=t, exc=exc, obs=NOOBS, src=NOOBS, lst=NOOBS)
                ev.append(e)
                if exc: bad = True; break
                if TEMPS[t - 1] not in res: e["exc"] = "missing"; bad = True; break
                e["obs"] = cx.obs(res[TEMPS[t - 1]], t); e["src"] = cx.obs(rs, T); regs.append((res[TEMPS[t - 1]], t))
            if bad: break
            continue
        e = dict(op="set", name=n, i=i + 1, j=0, rx=[], ens=[], fs=[], f=[], mu=[], T=0, exc="", obs=NOOBS, src=NOOBS, lst=NOOBS)
        nT = T
        try:
            if n == "observe": new = rs
            elif n == "json":
                if o["hint"] < 0.5: new = MontyDecoder().decode(MontyEncoder().encode(rs))
                else: new = ReactionSet.from_dict(rs.as_dict())
            elif n == "add":
                rx = [x for x in o["rx"] if set(x["e"]) <= have]
                if not rx: continue
                e["rx"] = rx
                if T: Es = {cx.ids(x, T): x for x in rs.entries}; new = rs.add_rxns([ComputedReaction([Es[k] for k in x["e"]], [float(fr(z)) for z in x["co"]], {"tag": x["d"], "z": x["d"] % 3}) for x in rx])
                else: new = rs.add_rxns([cx.rxn(x) for x in rx])
            elif n == "addset":
                j = int(o["r2"] * len(regs)); e["j"] = j + 1
                new = rs.add_rxn_set(regs[j][0])
            elif n == "filter":
                L = list(rs); ens = []
                for k in range(o["nens"]):
                    if L: ens.append(L[int((o["r2"] * 7919 * (k + 1)) % 1 * len(L))])
                if o["absent"] and o["arx"] and set(o["arx"]["e"]) <= have and not T: ens.append(cx.rxn(o["arx"]))
                e["ens"] = [{k: z[k] for k in ("e", "co", "d")} for z in (cx.obs1(r, T) for r in ens)]
                fakeray.SCHED.reset(o["ss"], o["cpus"], o["policy"])
                new = rs.filter_duplicates(ensure_rxns=ens or None, parallelize=o["par"])
            elif n in ("reactants", "product"):
                if n == "reactants":
                    fs = list(o["fs"])
                    if o["frompool"] and len(rs):
                        L = list(rs); x = cx.obs1(L[int(o["r2"] * len(L))], T)
                        fs = [u["ents"][k - 1]["c"] for k, z in zip(x["e"], x["co"]) if z[0] < 0] + fs[:1]
                    e["fs"] = fs
                    arg = [formula(cx.elems, [z * o["fm"] for z in f]) for f in fs]
                    fn = rs.get_rxns_by_reactants
                else:
                    e["f"] = o["f"]; arg = formula(cx.elems, [z * o["fm"] for z in o["f"]]); fn = rs.get_rxns_by_product
                lst = list(fn(arg)); e["lst"] = dict(rx=[cx.obs1(r, T) for r in lst], len=len(lst), ents=[])
                new = fn(arg, return_set=True)
            elif n == "chempot":
                e["mu"] = o["mu"]
                if o["mu"]:
                    s = cx.elems[o["mu"][0] - 1]; new = rs.set_chempot(s if o["hint"] < 0.5 else Element(s), float(fr(o["mu"][1])) * u["unit"])
                else: new = rs.set_chempot(None, None if o["hint"] < 0.5 else 0.0)
            elif n == "temp":
                if u["kind"] != "lin": continue
                e["T"] = o["T"]; nT = o["T"]; new = rs.set_new_temperature(TEMPS[o["T"] - 1])
            e["obs"] = cx.obs(new, nT); e["src"] = cx.obs(rs, T)
            regs.append((new, nT)); ev.append(e)
        except Exception as ex:
            e["exc"] = exc_name(ex); ev.append(e)
            if n == "addset" or n == "filter":
                e["src"] = cx.obs(rs, T); regs.append((rs, T))
            else: break
    return {"params": p, "ev": ev}

def params(focus, n):
    rng = rng_for(focus); out = []
    while len(out) < n:
        p = gen(rng, focus)
        if p: out.append(p)
    return out

def _run(prop, n, rule):
    ck = Check(prop)
    ck.mc("MCReactionSet", "MCReactionSet.cfg" if scale(1, 0) else "MCReactionSetDeep.cfg")
    ck.judge("TraceReactionSet", run_cases(execute, params(prop, n)))
    return ck.finish(rule)

BASE = ("random histories (2-8 operations over a growing pool of immutable sets) of reaction sets over 2-4 elements with polymorphs, "
        "entries of 1-3 formula units, closed and open reactions, reactions repeated, permuted, scaled and reversed; focus: ")
def c08(): return _run("C08", scale(700, 7000), BASE + "building, adding, combining, saving and loading")
def c09(): return _run("C09", scale(700, 7000), BASE + "duplicate filtering, serial and parallel with 1-8 CPUs and every completion order, with ensured and absent reactions")
def c10(): return _run("C10", scale(700, 7000), BASE + "queries by reactants and product, as lists and sets")
def c11(): return _run("C11", scale(700, 7000), BASE + "temperature and chemical potential changes")
def c34(): return _run("C34", scale(500, 5000), BASE + "tables of reaction data and costs")
