"""Drivers for reaction enumeration: C04 (validity), C05 (completeness), C06 (schedules), C07 (minimization)."""
from __future__ import annotations
import itertools, logging, warnings
from fractions import Fraction
from .common import Check, rat, rng_for, scale, run_cases, exc_name
from .chem import *
from . import fakeray
from .fakes import LinEntry
from pymatgen.core import Element
from rxn_network.core import Composition
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.enumerators.basic import BasicEnumerator, BasicOpenEnumerator
from rxn_network.enumerators.minimize import MinimizeGibbsEnumerator, MinimizeGrandPotentialEnumerator
from rxn_network.enumerators.utils import run_enumerators
for _n in list(logging.root.manager.loggerDict):
    if _n.startswith("rxn_network"): logging.getLogger(_n).setLevel(logging.WARNING)
warnings.simplefilter("ignore")

ELS = ["Li", "Mn", "O", "Cl", "Ba", "C", "Ti", "N", "S"]
T0 = 300

# ------------------------------------------------------------ parameters
def gen_entries(rng, elems, nmax, kind):
    """list of dicts c (composition), b (entry number), e (energy per formula unit), m (formula units)"""
    comps = []
    if kind in ("gibbs", "grand") or rng.random() < 0.6:
        for i in range(len(elems)): comps.append(reduce_vec(elems, [int(j == i) for j in range(len(elems))]))
    for _ in range(rng.randint(1, 3)):
        r = random_reaction(rng, elems, maxcoef=9, kmax=4)
        if r: comps += r[0]
    comps += random_comps(rng, elems, rng.randint(0, 3))
    out = []
    for c in comps:
        if c not in out and len(out) < nmax: out.append(c)
    ents = []
    if rng.random() < 0.15:
        rng.shuffle(out)
    for c in out:
        for _ in range(rng.choice([1, 1, 1, 2]) if len(ents) < nmax else 1):
            single = sum(1 for x in c if x) == 1
            e = rng.randint(-3, 3) if single else rng.randint(-30, 2)
            if any(x["c"] == c and x["e"] == e for x in ents): e += 5
            ents.append(dict(c=c, e=e, b=0, m=rng.choice([1, 1, 2])))
    rng.shuffle(ents)
    ents = ents[:nmax + 2] if kind not in ("gibbs", "grand") else ents
    for i, x in enumerate(ents): x["b"] = i + 1
    return ents

def guard(ents, elems, kind, oel):
    """every coefficient the specification can meet is small"""
    cs = []
    for x in ents:
        if x["c"] not in cs: cs.append(x["c"])
    rows = [i for i in range(len(elems)) if i + 1 not in oel]
    for R in ([list(range(len(elems)))] + ([rows] if oel else [])):
        pr = [[c[i] for i in R] for c in cs if any(c[i] for i in R)]
        for k in range(2, min(len(R) + 2, len(pr)) + 1):
            for S in itertools.combinations(pr, k):
                g = nullspace_guard(list(S))
                if not g: return False
                if g[0] == 1 and max(map(abs, g[1])) > 100: return False
    return True

def gen(rng, focus):
    kind = rng.choice(["basic", "basic", "open", "gibbs", "grand"]) if focus in ("C04", "C06") else \
           rng.choice(["basic", "basic", "open"]) if focus == "C05" else rng.choice(["gibbs", "gibbs", "grand"])
    ne = rng.choice([2, 3, 3, 4]) if kind != "grand" else rng.choice([3, 3, 4])
    if focus == "C05" and kind == "basic" and rng.random() < 0.06: ne = rng.choice([8, 9])
    elems = rng.sample(ELS, ne)
    if kind in ("open", "grand") and "O" not in elems and rng.random() < 0.8: elems[rng.randrange(ne)] = "O"
    n = rng.choice([1, 2, 2, 2, 3])
    big = kind in ("basic", "open")
    ents = gen_entries(rng, elems, {1: 9, 2: 8, 3: 6}[n] if big else rng.randint(5, 9), kind)
    if kind == "open" and ne == 4 and n >= 2 and rng.random() < 0.4:
        # many phases on the side of the open ones
        n = 3; o = elems.index("O") if "O" in elems else 0
        rest = [i for i in range(ne) if i != o]; rng.shuffle(rest)
        part = [reduce_vec(elems, [int(j == i) for j in range(ne)]) for i in rest]
        if rng.random() < 0.5: part[0] = reduce_vec(elems, [x + y for x, y in zip(part[0], [rng.randint(1, 2) if j in (o, rest[1]) and rng.random() < 0.6 else 0 for j in range(ne)])])
        oc = reduce_vec(elems, [int(j == o) for j in range(ne)]); k = [rng.randint(1, 2) for _ in range(4)]
        tot = [sum(a * c[j] for a, c in zip(k, part + [oc])) for j in range(ne)]
        ents = [dict(c=c, e=rng.randint(-9, 3), b=0, m=1) for c in part + [oc, reduce_vec(elems, tot)]]
        extra_c = random_comps(rng, elems, 1)
        if extra_c and extra_c[0] not in [x["c"] for x in ents]: ents.append(dict(c=extra_c[0], e=-4, b=0, m=1))
        rng.shuffle(ents)
        for i, x in enumerate(ents): x["b"] = i + 1
    if kind == "basic" and ne >= 8:
        # a few phases spanning many elements
        n = 2; ents = []
        h = ne // 2
        base = [1 if i < h else 0 for i in range(ne)], [0 if i < h else 1 for i in range(ne)]
        a = [1] * ne; d = [2 if i < h else 1 for i in range(ne)]
        for i, c in enumerate([base[0], base[1], a, d]): ents.append(dict(c=c, e=-i * 3, b=i + 1, m=1))
    if len(ents) < 2: return None
    forms = []
    for x in ents:
        if x["c"] not in forms: forms.append(x["c"])
    O = elems.index("O") if "O" in elems else rng.randrange(ne)
    opens = []; oel = []
    if kind == "open":
        opens = [reduce_vec(elems, [int(j == O) for j in range(ne)])]
        if opens[0] not in forms: opens = [rng.choice(forms)]
        if rng.random() < 0.25 and len(forms) > 3: opens.append(rng.choice([f for f in forms if f not in opens]))
    if kind == "grand":
        opens = [reduce_vec(elems, [int(j == O) for j in range(ne)])]
    if opens:
        oel = sorted({i + 1 for c in opens for i, a in enumerate(c) if a})
        # open phases have a single polymorph
        seen = set(); keep = []
        for x in ents:
            t = tuple(x["c"])
            if x["c"] in opens and t in seen: continue
            seen.add(t); keep.append(x)
        ents = keep
        for i, x in enumerate(ents): x["b"] = i + 1
    if not guard(ents, elems, kind, oel if kind == "grand" else []): return None
    cand = [f for f in forms if f not in opens]
    if len(cand) < 2: return None
    extra = []
    haveel = all(reduce_vec(elems, [int(j == i) for j in range(ne)]) in forms for i in range(ne))
    def choose(k):
        out = rng.sample(cand, min(k, len(cand)))
        if big and haveel and focus in ("C04", "C05") and rng.random() < 0.12:
            f = random_comps(rng, elems, 1, 3, 3, True)[0]
            if f not in forms and len(extra) < 1 and sum(1 for x in f if x) > 1: extra.append(f); out.append(f)
        return out
    P = choose(rng.choice([1, 2, 2, 3, 4])) if rng.random() < (0.5 if focus != "C06" else 0.3) else []
    T = choose(rng.choice([1, 1, 2])) if rng.random() < 0.4 else []
    sysels = sorted(rng.sample(range(1, ne + 1), rng.randint(1, min(2, ne)))) if rng.random() < 0.12 else []
    if kind in ("gibbs", "grand") and focus == "C07" and rng.random() < 0.5: T = []
    return dict(kind=kind, elems=elems, ents=ents, opens=opens, oel=oel if kind in ("open", "grand") else [], P=P, T=T, extra=extra,
                pm=rng.choice([1, 1, 2]), xp=rng.random() < 0.6, xt=rng.random() < 0.4, n=n, sys=sysels,
                multi=rng.choice([[], [], [], [kind], [kind, "basic"], ["basic", kind, "basic"]]) if kind in ("open", "basic") or (kind == "gibbs" and len(ents) < 8) else [],
                maxcon=rng.choice([1] * 7 + [2]), filter=rng.random() < 0.25, mu=rng.randint(-3, 0), unit=rng.choice([1, 1, 0.25, 0.1, 0.13, 0.03]), chunk=rng.choice([1, 3, 10, 1000]),
                jobs=rng.choice([1, 3, 5000]), cpus=rng.choice([1, 2, 4]), policy=rng.choice(["random", "fifo", "lifo"]), ss=rng.randrange(10**6),
                runs=[dict(chunk=rng.choice([1, 2, 3, 5, 7, 11, 16, 50, 2500]), jobs=rng.choice([1, 2, 3, 7, 50, 5000]), cpus=rng.choice([1, 2, 3, 4, 8, 17]),
                           policy=rng.choice(["random", "random", "fifo", "lifo", "starve"]), ss=rng.randrange(10**6)) for _ in range(4)])

# ------------------------------------------------------------ execution
class Ctx:
    def __init__(self, p):
        self.p = p; self.elems = p["elems"]; self.E = []
        for x in p["ents"]:
            c = Composition({e: n * x["m"] for e, n in zip(self.elems, x["c"]) if n})
            self.E.append(LinEntry(c, {T0: float(x["e"] * x["m"] * p["unit"])}, T0, f"id-{x['b']}"))
        self.allc = [x["c"] for x in p["ents"]] + p["extra"]
        self.alle = [x["e"] for x in p["ents"]] + [-1000 for _ in p["extra"]]
    def id(self, e):
        s = str(e.entry_id)
        if s.startswith("id-"): return int(s[3:])
        v = vec(e.composition.reduced_composition, self.elems)
        if s.startswith("InterpolatedEntry") and v in self.p["extra"]: return len(self.p["ents"]) + 1 + self.p["extra"].index(v)
        return 0
    def ground(self, f):
        if f in self.p["extra"]: return len(self.p["ents"]) + 1 + self.p["extra"].index(f)
        c = [x for x in self.p["ents"] if x["c"] == f]
        return min(c, key=lambda x: x["e"])["b"]
    def ids(self, fs): return sorted(self.ground(f) for f in fs)
    def obs(self, rs):
        out = []
        for r in rs:
            a = sorted((self.id(e), k) for e, k in zip(r.entries, range(len(r.entries))) if r.coefficients[k] < 0)
            b = sorted((self.id(e), k) for e, k in zip(r.entries, range(len(r.entries))) if r.coefficients[k] >= 0)
            mu = sorted([self.elems.index(str(el)) + 1, rat(m / self.p["unit"])] for el, m in r.chempots.items()) if hasattr(r, "chempots") else []
            out.append(dict(r=[x for x, _ in a], p=[x for x, _ in b], co=[rat(r.coefficients[k]) for _, k in a + b],
                            kind="open" if hasattr(r, "chempots") else "computed", mu=mu))
        return out
    def enumerator(self, chunk, jobs, kind=None):
        p = self.p if kind is None else {**self.p, "kind": kind}; F = lambda fs: [formula(self.elems, [a * p["pm"] for a in f]) for f in fs] or None
        kw = dict(precursors=F(p["P"]), targets=F(p["T"]), exclusive_precursors=p["xp"], exclusive_targets=p["xt"], filter_duplicates=p["filter"],
                  filter_by_chemsys="-".join(self.elems[i - 1] for i in p["sys"]) or None, chunk_size=chunk, max_num_jobs=jobs,
                  max_num_constraints=p["maxcon"], quiet=True)
        op = [Composition(formula(self.elems, c)).reduced_formula for c in p["opens"]]
        if p["kind"] == "basic": return BasicEnumerator(n=p["n"], **kw)
        if p["kind"] == "open": return BasicOpenEnumerator(open_phases=op, n=p["n"], **kw)
        if p["kind"] == "gibbs": return MinimizeGibbsEnumerator(**kw)
        return MinimizeGrandPotentialEnumerator(open_elem=Element(self.elems[p["oel"][0] - 1]), mu=float(p["mu"] * p["unit"]), **kw)
    def snap(self, es): return sorted((self.id(e), e.energy, str(e.composition)) for e in es)

def execute(p):
    cx = Ctx(p); big = p["kind"] in ("basic", "open")
    opens = [x["b"] for x in p["ents"] if x["c"] in p["opens"]]
    e = dict(op="enum" if big else p["kind"], c=cx.allc, en=cx.alle, open=opens if p["kind"] != "basic" else [], P=cx.ids(p["P"]), T=cx.ids(p["T"]),
             hasP=bool(p["P"]), hasT=bool(p["T"]), xp=p["xp"], xt=p["xt"], n=p["n"], sys=p["sys"], oel=p["oel"], mu=p["mu"], maxcon=p["maxcon"],
             filter=p["filter"], exc="", rx=[], unchanged=True)
    def run(chunk, jobs, cpus, policy, ss):
        fakeray.SCHED.reset(ss, cpus, policy)
        es = GibbsEntrySet(cx.E); before = cx.snap(es)
        rs = cx.enumerator(chunk, jobs).enumerate(es)
        return cx.obs(rs), before == cx.snap(es), fakeray.SCHED.history()
    try: e["rx"], e["unchanged"], _ = run(p["chunk"], p["jobs"], p["cpus"], p["policy"], p["ss"])
    except Exception as ex: e["exc"] = exc_name(ex)
    ev = [e]
    if p["focus"] == "C04" and p["multi"] and not p["extra"] and not e["exc"]:
        m = dict(op="multi", exc="", lists=[], rx=[])
        ev.append(m)
        try:
            fakeray.SCHED.reset(p["ss"], p["cpus"], p["policy"])
            mk = lambda: [cx.enumerator(p["chunk"], p["jobs"], k) for k in p["multi"]]
            m["lists"] = [cx.obs(x.enumerate(GibbsEntrySet(cx.E))) for x in mk()]
            m["rx"] = cx.obs(run_enumerators(mk(), GibbsEntrySet(cx.E)))
        except Exception as ex: m["exc"] = exc_name(ex)
    if p["focus"] == "C06":
        e["op"] = "base"
        for r in p["runs"]:
            g = dict(op="run", exc="", rx=[], log=[], ntasks=0, njobs=0, maxjobs=r["jobs"])
            ev.append(g)
            try:
                g["rx"], _, log = run(r["chunk"], r["jobs"], r["cpus"], r["policy"], r["ss"])
                g["ntasks"], g["log"] = log; log = log[1]
                if big and not p["filter"]: g["njobs"] = sum(1 for x in log if x[0] == "submit")
            except Exception as ex: g["exc"] = exc_name(ex)
    return {"params": p, "ev": ev}

def params(focus, n):
    rng = rng_for(focus); out = []
    while len(out) < n:
        p = gen(rng, focus)
        if p: p["focus"] = focus; out.append(p)
    return out

def _run(prop, n, rule, mc):
    ck = Check(prop)
    for m in mc: ck.mc(*m)
    ck.judge("TraceEnumeration", run_cases(execute, params(prop, n)), only=(prop, ))
    return ck.finish(rule)
BASE = ("random entry sets of 2-11 phases over 2-9 elements (polymorphs, entries of several formula units, missing elements, interpolated requests), "
        "all four enumerators, n = 1-3, precursors / targets / exclusivity / chemical system / constraint options; focus: ")
MC = [("MCEnumeration", scale("MCEnumeration.cfg", "MCEnumerationDeep.cfg"))]
def c04(): return _run("C04", scale(450, 5000), BASE + "every returned reaction", MC)
def c05(): return _run("C05", scale(450, 5000), BASE + "combinatorial enumerators, exact set of admissible reactions", MC)
def c06(): return _run("C06", scale(130, 1500), BASE + "each request repeated under 5 schedules (chunk size 1-2500, job limit 1-5000, 1-17 CPUs, completion orders)", [("MCTaskPool", scale("MCTaskPool.cfg", "MCTaskPoolDeep.cfg"))])
def c07(): return _run("C07", scale(450, 5000), BASE + "energy-minimizing enumerators against the exact lower envelope", MC)
