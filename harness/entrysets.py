"""Drivers for entry sets: C20 (answers depend only on contents), C21 (hull-related answers)."""
from __future__ import annotations
import copy
from fractions import Fraction
from monty.json import MontyDecoder, MontyEncoder
from pymatgen.entries.computed_entries import ConstantEnergyAdjustment
from .common import Check, rat, rng_for, scale, run_cases, exc_name
from .chem import *
from .fakes import ExactGibbs
from rxn_network.core import Composition
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.entries.interpolated import InterpolatedEntry

ELS = ["Li", "Mn", "O", "Cl", "Ba", "C", "Ti", "N"]
UNIT = 8; TMAX = 17
def temp(t): return 300 + 100 * t

def gen(rng, focus):
    elems = rng.sample(ELS, rng.choice([2, 2, 3, 3, 3, 4, 4, 5] if focus == "C20" else [2, 2, 3, 3, 3, 4]))
    n = len(elems); u = []
    def ph(c, lo, hi, fixed=None):
        fixed = rng.random() < 0.12 if fixed is None else fixed
        u.append(dict(c=c, m=rng.choice([1, 1, 2, 3]), e=rng.randint(lo, hi), s=0 if fixed else rng.randint(-2, 2), f=fixed))
    for i in range(n):
        v = reduce_vec(elems, [int(j == i) for j in range(n)])
        for _ in range(rng.choice([1, 1, 1, 2])): ph(v, -1, 2)
    for c in random_comps(rng, elems, rng.randint(2, 8 - n + (2 if n < 4 else 0)), 3, min(3 if rng.random() < 0.4 else 5, n)):
        if sum(1 for x in c if x) < 2: continue
        for _ in range(rng.choice([1, 1, 1, 2, 3])): ph(c, -16, 2)
    rng.shuffle(u)
    N = len(u); norefs = rng.random() < 0.25
    refs = [i + 1 for i, x in enumerate(u) if sum(1 for a in x["c"] if a) == 1]
    def ids(k=None):
        s = set(rng.sample(range(1, N + 1), rng.randint(1, N) if k is None else min(k, N)))
        if not norefs and rng.random() < 0.85: s |= set(refs)
        return sorted(s)
    ops = [dict(o="new", r=0.9, r2=0.0, hint=0.0, ids=ids(), t=rng.randint(0, 12), calc=rng.random() < 0.3)]
    mut = ["add", "add", "update", "discard", "discard", "remove", "pop", "ior", "isub", "iand", "clear"]
    new = ["copy", "json", "dict", "deepcopy", "or", "and", "sub", "temp", "temp", "subset", "subset", "filter", "filter", "new"]
    ask = ["list", "chemsys", "temperature", "min", "min", "mins", "hull", "hull", "indices"]
    hul = ["hull", "stabilized", "stabilized", "interpolated", "interpolated", "jitter", "adjusted"]
    for _ in range(rng.randint(6, 14) if focus == "C20" else rng.randint(4, 9)):
        z = rng.random()
        if focus == "C20": n_ = rng.choice(mut) if z < 0.35 else rng.choice(new) if z < 0.5 else rng.choice(ask)
        else: n_ = rng.choice(mut[:4]) if z < 0.15 else rng.choice(["filter"] * 4 + ["subset", "temp", "new"]) if z < 0.5 else rng.choice(hul)
        o = dict(o=n_, r=rng.random(), r2=rng.random(), hint=rng.random(), x=rng.randint(1, N), ids=ids(rng.randint(1, 3)) if n_ != "new" else ids(),
                 t=rng.choice([0, 1, 5, 10, 12, 17, 17, 20, -1]), calc=rng.random() < 0.3, tol=rng.choice([[0, 1], [0, 1], [1, 100], [3, 100], [1, 7], [3, 10], [9, 10]]),
                 poly=rng.random() < 0.5, force=rng.random() < 0.4, f=rng.choice([x["c"] for x in u]), k=rng.choice([1, 1, 2, 3]))
        if n_ == "new": o["t"] = rng.randint(0, 12)
        if n_ in ("discard", "remove", "isub") and rng.random() < 0.6: o["ids"] = [rng.randint(1, N)]
        if n_ == "interpolated" or (n_ == "min" and rng.random() < 0.2):
            o["f"] = reduce_vec(elems, random_comps(rng, elems, 1, 4, 3)[0])
        if n_ == "subset": o["els"] = sorted(rng.sample(range(1, n + 1), rng.randint(1, n)))
        if focus == "C20" and n_ in mut and rng.random() < 0.35:
            # the same question before and after a change of the set
            qs = [dict(o, o=x, r=0.9 if ops[-1]["o"] in new else o["r"], f=rng.choice([y["c"] for y in u])) for x in rng.sample(ask, 2)]
            if n_ in ("discard", "remove", "isub") and rng.random() < 0.5: o["ids"] = sorted(rng.sample(refs, 1))
            o["r"] = qs[0]["r"]; ops += qs + [o] + [dict(x) for x in qs]; continue
        ops.append(o)
    return dict(elems=elems, u=u, ops=ops, focus=focus)

class Ctx:
    def __init__(self, p):
        self.elems = p["elems"]; self.u = p["u"]; self.cache = {}
    def comp(self, x): return Composition({e: n * self.u[x - 1]["m"] for e, n in zip(self.elems, self.u[x - 1]["c"]) if n})
    def make(self, x, t):
        d = self.u[x - 1]; c = self.comp(x)
        if d["f"]: return InterpolatedEntry(c, d["e"] / UNIT * c.num_atoms, entry_id=f"id-{x}")
        return ExactGibbs(c, d["e"] / UNIT, 1 + d["s"] / UNIT, temp(t), entry_id=f"id-{x}", data={"theoretical": bool(x % 2), "deep": {"tag": x}})
    def ent(self, x, t):
        if (x, t) not in self.cache: self.cache[(x, t)] = self.make(x, t)
        return self.cache[(x, t)]
    def ok(self, x, t): return self.u[x - 1]["f"] or 0 <= t <= TMAX
    def id(self, e):
        try: return int(str(e.entry_id).split("-")[1])
        except Exception: return 0
    def obs(self, es, t):
        L = list(es)
        return dict(ids=[self.id(e) for e in L], len=len(es), isin=[x for x in range(1, len(self.u) + 1) if self.ok(x, t) and self.make(x, t) in es],
                    ts=[(getattr(e, "temperature", 300) - 300) // 100 if hasattr(e, "temperature") else -9 for e in L])
NOOBS = dict(ids=[], len=0, isin=[], ts=[])

def execute(p):
    cx = Ctx(p); els = cx.elems
    ev = [dict(op="universe", u=cx.u, tmax=TMAX, unit=UNIT)]
    regs = []  # [set, t]
    for o in p["ops"]:
        n = o["o"]
        if n != "new" and not regs: continue
        i = (int(o["r"] * 2 * len(regs)) if o["r"] < 0.5 else len(regs) - 1) if regs else 0
        es, t = regs[i] if regs else (None, 0)
        if n in ("new", "add", "update", "discard", "remove", "pop", "ior", "isub", "iand", "clear", "copy", "json", "dict", "deepcopy", "or", "and", "sub", "temp", "subset", "filter"):
            j = int(o["r2"] * len(regs)) if regs else 0
            e = dict(op="set", name=n, i=0 if n == "new" else i + 1, j=j + 1, ids=[], t=t, els=[], tol=[0, 1], poly=False, exc="", obs=NOOBS, src=NOOBS, calc=bool(es is not None and es.calculate_e_above_hulls))
            res = None; inplace = n in ("add", "update", "discard", "remove", "pop", "ior", "isub", "iand", "clear")
            ids = [x for x in o["ids"] if cx.ok(x, t)]
            E = [cx.ent(x, t) if o["hint"] < 0.5 else cx.make(x, t) for x in ids]
            calc = False
            try:
                if n == "new":
                    nt = o["t"]; e["ids"] = o["ids"]; e["t"] = nt
                    refs = {k for x in o["ids"] for k, a in enumerate(cx.u[x - 1]["c"]) if a}
                    have = {next(k for k, a in enumerate(cx.u[x - 1]["c"]) if a) for x in o["ids"] if sum(1 for a in cx.u[x - 1]["c"] if a) == 1}
                    calc = o["calc"] and refs <= have
                    es = GibbsEntrySet([cx.make(x, nt) if calc else cx.ent(x, nt) for x in o["ids"]], calculate_e_above_hulls=calc)
                    res = es; t = nt
                elif n == "add":
                    if not E: continue
                    e["ids"] = ids[:1]; es.add(E[0])
                elif n == "update": e["ids"] = ids; es.update(E)
                elif n == "ior": e["ids"] = ids; es |= set(E)
                elif n == "discard":
                    if not E: continue
                    e["ids"] = ids[:1]; es.discard(E[0])
                elif n == "remove":
                    if not E: continue
                    e["ids"] = ids[:1]; es.remove(E[0])
                elif n == "isub": e["ids"] = ids; es -= set(E)
                elif n == "iand":
                    ids = [x for x in ids + [x for x in range(1, len(cx.u) + 1) if x % 4] if cx.ok(x, t)]
                    e["ids"] = ids; es &= {cx.make(x, t) for x in ids}
                elif n == "pop":
                    r = es.pop(); e["ids"] = [cx.id(r)]
                elif n == "clear":
                    if o["hint"] < 0.7: continue
                    es.clear()
                elif n == "copy": res = es.copy()
                elif n == "deepcopy": res = copy.deepcopy(es)
                elif n == "json": res = MontyDecoder().decode(MontyEncoder().encode(es))
                elif n == "dict": res = GibbsEntrySet.from_dict(es.as_dict())
                elif n in ("or", "and", "sub"):
                    if regs[j][1] != t: continue
                    o2 = regs[j][0]
                    res = es | o2 if n == "or" else es & o2 if n == "and" else es - o2
                elif n == "temp":
                    e["t"] = o["t"]; res = es.get_entries_with_new_temperature(temp(o["t"]))
                    calc = es.calculate_e_above_hulls
                elif n == "subset":
                    e["els"] = o["els"]; a = [els[k - 1] for k in o["els"]]
                    res = es.get_subset_in_chemsys(a if o["hint"] < 0.5 else "-".join(a))
                elif n == "filter":
                    e["tol"] = o["tol"]; e["poly"] = o["poly"]
                    res = es.filter_by_stability(float(fr(o["tol"])), include_polymorphs=o["poly"])
            except Exception as ex:
                e["exc"] = exc_name(ex); ev.append(e)
                if n == "new": return {"params": p, "ev": ev}
                e["obs"] = cx.obs(es, t)
                if n not in ("remove", "pop", "subset", "filter"): break
                continue
            nt = e["t"]
            if inplace: regs[i] = (es, t); e["obs"] = cx.obs(es, t)
            else:
                e["obs"] = cx.obs(res, nt)
                if n != "new": e["src"] = cx.obs(es, t)
                regs.append((res, nt))
            ev.append(e)
            if calc:
                ev.append(dict(op="ask", name="hulldata", i=len(regs), exc="", ids=[cx.id(x) for x in res], vals=[rat(x.data.get("e_above_hull", "x"), 40000) for x in res]))
            continue
        e = dict(op="ask", name=n, i=i + 1, exc="")
        ev.append(e)
        e.update({"list": dict(ids=[], same=False), "chemsys": dict(els=[]), "temperature": dict(t=-2), "min": dict(f=o["f"], x=0), "mins": dict(ids=[]), "hull": dict(x=o["x"], val=[0, 0]),
                  "indices": dict(ids=[], idx=[]), "stabilized": dict(x=o["x"], given=[0, 0], zero=True, force=o["force"], tol=[1, 1000], energy=[0, 0], comp=[], idok=False, origok=False, sameobj=False),
                  "interpolated": dict(f=o["f"], tol=[1, 1000], energy=[0, 0], comp=[], kind=""), "jitter": dict(ids=[], ok=[]),
                  "adjusted": dict(x=o["x"], tol=[1, 4], energy=[0, 0], idok=False, origok=False)}[n])
        try:
            if n == "list": L = es.entries_list; e["ids"] = [cx.id(x) for x in L]; e["same"] = [cx.id(x) for x in GibbsEntrySet(list(L)[::-1]).entries_list] == e["ids"]
            elif n == "chemsys": e["els"] = sorted(els.index(z) + 1 for z in es.chemsys)
            elif n == "temperature": T = es.temperature; e["t"] = -1 if T == 0 else int((T - 300) // 100)
            elif n == "min": e["x"] = cx.id(es.get_min_entry_by_formula(formula(els, [a * o["k"] for a in o["f"]])))
            elif n == "mins": e["ids"] = sorted(cx.id(x) for x in es.min_entries_by_formula.values())
            elif n == "indices": es.build_indices(); e["ids"] = [cx.id(x) for x in es.entries_list]; e["idx"] = [x.data["idx"] for x in es.entries_list]
            elif n in ("hull", "stabilized", "adjusted"):
                x = o["x"]
                mine = [z for z in es if cx.id(z) == x]
                if mine: en = mine[0]
                elif n == "hull" and cx.ok(x, t): en = cx.make(x, t)
                else: ev.pop(); continue
                if n == "hull": e["val"] = rat(es.get_e_above_hull(en), 40000)
                else:
                    before = (en.energy, str(en.as_dict())); cont = [cx.id(z) for z in es]
                    if n == "stabilized":
                        g = en.data.get("e_above_hull"); e["given"] = [0, 0] if g is None else rat(g, 40000)
                        e["zero"] = bool((es.get_e_above_hull(en) if g is None else g) == 0.0) # phases on the hull can be off by round-off
                        new = es.get_stabilized_entry(en, tol=0.001, force=o["force"])
                    else: new = es.get_adjusted_entry(en, ConstantEnergyAdjustment(0.25))
                    e["energy"] = rat(new.energy, 40000); e["sameobj"] = new is en
                    if n == "stabilized": e["comp"] = vecx(new.composition, els)
                    e["idok"] = new.entry_id == en.entry_id and type(new) is type(en) and getattr(new, "temperature", 0) == getattr(en, "temperature", 0)
                    e["origok"] = (en.energy, str(en.as_dict())) == before and [cx.id(z) for z in es] == cont
            elif n == "interpolated":
                new = es.get_interpolated_entry(formula(els, [a * o["k"] for a in o["f"]]))
                e.update(energy=rat(new.energy, 40000), comp=vecx(new.composition, els), kind=type(new).__name__)
            elif n == "jitter":
                new = es.get_entries_with_jitter(); old = {cx.id(z): z for z in es}
                for z in new:
                    x = cx.id(z); e["ids"].append(x); d = abs(z.energy - old[x].energy) if x in old else 1e9
                    unc = 0 if cx.u[x - 1]["f"] else 0.05 * old[x].composition.num_atoms
                    e["ok"].append(bool(d <= 8 * unc + 1e-9))
        except Exception as ex: e["exc"] = exc_name(ex)
    return {"params": p, "ev": ev}

def params(focus, n):
    rng = rng_for(focus); out = []
    while len(out) < n:
        p = gen(rng, focus)
        if p: out.append(p)
    return out
def _run(prop, n, rule):
    ck = Check(prop)
    ck.mc("MCEntrySet", "MCEntrySet.cfg" if scale(1, 0) else "MCEntrySetDeep.cfg")
    ck.judge("TraceEntrySet", run_cases(execute, params(prop, n)), only=(prop,))
    return ck.finish(rule)
BASE = ("random histories over entry sets of 2-4 elements with polymorphs (also of elements), entries of 1-3 formula units, "
        "temperature-dependent and interpolated entries, shared and copied entry objects; ")
def c20(): return _run("C20", scale(1200, 9000), BASE + "7-15 mutations, derived sets and queries interleaved")
def c21(): return _run("C21", scale(1200, 9000), BASE + "stability filters, stabilized, interpolated, adjusted and jittered entries, stored energies above hull")
