"""Drivers for pathways: C16, C17, C18 (pathway solver), C19 (pathways and pathway sets)."""
from __future__ import annotations
import contextlib, io, itertools, logging, warnings
from copy import deepcopy
from fractions import Fraction
from math import gcd, lcm
from .common import Check, rat, rng_for, scale, run_cases, exc_name
from .chem import *
from . import fakeray
from .fakes import LinEntry
import numpy as np
from pymatgen.core import Element
from rxn_network.core import Composition
from rxn_network.costs.base import CostFunction
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.enumerators.basic import BasicEnumerator, BasicOpenEnumerator
from rxn_network.enumerators.minimize import MinimizeGibbsEnumerator, MinimizeGrandPotentialEnumerator
from rxn_network.pathways.balanced import BalancedPathway
from rxn_network.pathways.basic import BasicPathway
from rxn_network.pathways.pathway_set import PathwaySet
from rxn_network.pathways.solver import PathwaySolver
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction
from rxn_network.reactions.reaction_set import ReactionSet
for _n in list(logging.root.manager.loggerDict):
    if _n.startswith("rxn_network"): logging.getLogger(_n).setLevel(logging.WARNING)
warnings.simplefilter("ignore")
ELS = ["Li", "Mn", "O", "Cl", "Ba", "C", "Ti", "S"]
T0 = 300

class IntCost(CostFunction):
    """an integer multiple of a unit that depends on the phases only"""
    def __init__(self, u=1.0): self.u = u
    def evaluate(self, rxn):
        ids = sorted(int(str(e.entry_id)[3:]) * (1 if c > 0 else 3) for e, c in zip(rxn.entries, rxn.coefficients))
        return (1 + sum(i * i for i in ids) % 7) * self.u
    def evaluate_all(self, rxns): return [self.evaluate(r) for r in rxns]

# ------------------------------------------------------------ solver
def lin_key(v):
    g = vgcd(v)
    return tuple(x // g for x in v)

def all_reactions(cs, kmax, maxcoef):
    out = []
    for k in range(2, kmax + 1):
        for S in itertools.combinations(range(len(cs)), k):
            r = nullspace_guard([cs[i] for i in S])
            if not r or r[0] != 1: continue
            v = r[1]
            if 0 in v or max(map(abs, v)) > maxcoef or all(x > 0 for x in v) or all(x < 0 for x in v): continue
            w = [0] * len(cs)
            for i, x in zip(S, v): w[i] = x
            out.append(w)
    return out

def orderable(rs, pre):
    """whether the reactions can be run one after the other (only used to choose cases)"""
    av = set(pre); made = {j for r in rs for j, x in enumerate(r) if x > 0}; left = list(rs)
    while True:
        ok = [r for r in left if all(x >= 0 or j in av or j not in made for j, x in enumerate(r))]
        if not ok: return not left
        av |= {j for r in ok for j, x in enumerate(r) if x > 0}; left = [r for r in left if r not in ok]

def gen(rng, focus):
    ne = rng.choice([2, 3, 3, 3, 4])
    elems = rng.sample(ELS, ne)
    openel = rng.random() < 0.2
    if openel and "O" not in elems: elems[rng.randrange(ne)] = "O"
    inter = rng.random() < 0.3
    comps = random_comps(rng, elems, rng.randint(4, 7), 3, 3)
    if inter or openel or rng.random() < 0.4:
        for i in range(ne):
            c = reduce_vec(elems, [int(j == i) for j in range(ne)])
            if c not in comps: comps.append(c)
    if len(comps) < 4: return None
    ents = []
    for c in comps:
        single = sum(1 for x in c if x) == 1
        for _ in range(rng.choice([1, 1, 1, 1, 2])):
            e = 0 if single else rng.randint(-30, -1)
            while any(x["c"] == c and x["e"] == e for x in ents): e += 7
            ents.append(dict(c=c, e=e))
    rng.shuffle(ents)
    ents = ents[:10]
    for i, x in enumerate(ents): x["b"] = i + 1
    m = len(ents)
    # one polymorph of a phase per reaction
    pool = [v for v in all_reactions([x["c"] for x in ents], min(ne + 1, 5), 6)
            if len({tuple(ents[i]["c"]) for i, x in enumerate(v) if x}) == sum(1 for x in v if x)]
    if len(pool) < 2: return None
    ncand = rng.randint(1, 4) if inter else rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9])
    cand = []
    first = rng.choice(pool)
    cand.append([-x for x in first] if rng.random() < .5 else first)
    style = rng.choice(["any", "linked", "linked"])
    long = not inter and rng.random() < 0.25
    if long: ncand = rng.randint(4, 7); style = "linked"
    for _ in range(60):
        if len(cand) >= ncand: break
        v = rng.choice(pool)
        v = [-x for x in v] if rng.random() < 0.5 else list(v)
        if style == "linked" and rng.random() < 0.9:
            used = {i for w in cand for i, x in enumerate(w) if x}
            if not any(x and i in used for i, x in enumerate(v)): continue
        if v in cand: continue
        cand.append(v)
    want = focus == "C18" and rng.random() < 0.7      # prefer steps that need each other
    for att in range(400 if want else 30):
        k = min(len(cand), rng.choice([1, 1, 2, 2, 3, 3]) if not long else 4)
        S = rng.sample(range(len(cand)), k)
        ms = [rng.choice([Fraction(1), Fraction(1), Fraction(2), Fraction(1, 2), Fraction(3)]) for _ in S]
        net = [sum(a * cand[i][j] for a, i in zip(ms, S)) for j in range(m)]
        if any(x < 0 for x in net) and any(x > 0 for x in net):
            if not want or att > 370 or (k > 1 and not orderable([cand[i] for i in S], [j for j, x in enumerate(net) if x < 0])): break
    else: return None
    if rng.random() < 0.08:
        v = rng.choice(pool); net = [Fraction(x) for x in v]
    # one polymorph of a phase in the net reaction
    if len({tuple(ents[i]["c"]) for i, x in enumerate(net) if x}) < sum(1 for x in net if x): return None
    L = lcm(*[f.denominator for f in net]); neti = [int(f * L) for f in net]
    if max(map(abs, neti)) > 40: return None
    # pathways: sequences of (candidate, multiple)
    members = {}
    for i in range(len(cand)):
        members[i] = [Fraction(1)] if rng.random() < 0.75 else rng.sample([Fraction(1), Fraction(2), Fraction(1, 2), Fraction(3), Fraction(1, 8)], 2)
    paths = []
    todo = [(i, f) for i in members for f in members[i]]
    rng.shuffle(todo)
    while todo:
        k = rng.randint(1, 4)
        part, todo = todo[:k], todo[k:]
        if rng.random() < 0.4:
            i = rng.randrange(len(cand)); part = part + [(i, rng.choice(members[i]))]
        paths.append([[i, q(f)] for i, f in part])
    if rng.random() < 0.2: paths.append(rng.choice(paths))
    mx = rng.choice([1, 2, 2, 3, 3, 4]) if not inter else rng.choice([1, 2, 3])
    if len(cand) > 7: mx = min(mx, 3)
    if long: mx = 4
    haveel = all(any(x["c"] == reduce_vec(elems, [int(j == i) for j in range(ne)]) for x in ents) for i in range(ne))
    return dict(focus=focus, elems=elems, ents=ents, cand=cand, net=neti, netd=rng.choice([L, L, 1, 1, 20 * L, 200 * L]), paths=paths, max=mx, open=openel, mu=rng.randint(-3, 0),
                cost=[[rng.randint(0, 9) for _ in range(5)] for _ in cand], cu=rng.choice([1.0, 1.0, 0.0013]), inter=inter, basic=rng.random() < 0.8, mini=haveel and rng.random() < 0.4,
                cutoff=rng.choice([0.0, 0.0, -0.5, 0.6, 100.0]), idx=rng.choice(["built", "none", "other"]), samesolver=rng.random() < 0.5,
                runs=[dict(filter=f, chunk=rng.choice([1, 2, 3, 5, 10, 100000]), batch=rng.choice([None, None, 1, 2, 3, 100]), cpus=rng.choice([1, 2, 3, 8]),
                           policy=rng.choice(["random", "fifo", "lifo", "starve"]), ss=rng.randrange(10**6)) for f in rng.sample([True, False, rng.random() < 0.5], 3)])

class World:
    def __init__(self, p):
        self.p = p; self.m = len(p["ents"])
        self.E = [LinEntry(Composition({e: n for e, n in zip(p["elems"], x["c"]) if n}), {T0: float(x["e"])}, T0, f"id-{x['b']}") for x in p["ents"]]
        self.chem = {Element("O"): float(p["mu"])}
    def rxn(self, v):
        es, co = zip(*[(self.E[i], float(x)) for i, x in enumerate(v) if x])
        return OpenComputedReaction(list(es), list(co), chempots=self.chem) if self.p["open"] else ComputedReaction(list(es), list(co))
    def vec(self, r):
        """(integer vector, denominator, kind ok)"""
        out = [Fraction(0)] * self.m
        for e, c in zip(r.entries, r.coefficients):
            i = int(str(e.entry_id)[3:]) - 1; n, d = rat(c, 2000, 1e-9)
            if d == 0: return [0] * self.m, 0
            out[i] += Fraction(n, d)
        L = lcm(*[f.denominator for f in out])
        if L > 5000: return [0] * self.m, 0
        return [int(f * L) for f in out], L
    def is_open(self, r): return isinstance(r, OpenComputedReaction) and {str(k): float(v) for k, v in r.chempots.items()} == {"O": float(self.p["mu"])}

def small(cl, net, mx):
    """all numbers that the specification meets are small"""
    for k in range(1, min(mx, len(cl)) + 1):
        for S in itertools.combinations(cl, k):
            r = nullspace_guard(list(S) + [net])
            if r is None: return False
            if r[0] == 1 and max(map(abs, r[1])) > 400: return False
    return True

def quiet(): return contextlib.redirect_stdout(io.StringIO())

def intermediates(w, p, rxns, net):
    """reactions between the phases of the pathways, found by the enumerators themselves"""
    fakeray.SCHED.reset(seed=1, cpus=2)
    ents = {e for r in rxns for e in r.entries} | set(net.product_entries) | {e for e in w.E if e.is_element}
    es = GibbsEntrySet(list(ents))
    tf = [e.composition.reduced_formula for e in net.product_entries]
    found = []
    with quiet():
        if p["basic"]:
            found += list(BasicEnumerator(targets=tf).enumerate(es))
            if p["open"]: found += list(BasicOpenEnumerator(open_phases=["O2"], targets=tf).enumerate(es))
        if p["mini"]:
            found += list(MinimizeGibbsEnumerator(targets=tf).enumerate(es))
            if p["open"]: found += list(MinimizeGrandPotentialEnumerator(open_elem=Element("O"), mu=float(p["mu"]), targets=tf).enumerate(es))
    out = []
    for r in found:
        if p["open"]: r = OpenComputedReaction(r.entries, r.coefficients, chempots=w.chem)
        x = float(r.energy_per_atom)
        if abs(x - p["cutoff"]) < 1e-7: return None
        if x < p["cutoff"] and all(e in es for e in r.entries): out.append(r)
    return out

def execute(p):
    w = World(p); cu = p.get("cu", 1.0); cf = IntCost(cu)
    num = lambda x: int(round(x / cu)) if abs(x / cu - round(x / cu)) < 1e-7 else -1
    if p["inter"] and any(str(a.entry_id) == "" for a in w.E): return None
    paths = []; mem = []; rxns = []
    for path in p["paths"]:
        rs, cs = [], []
        for i, f in path:
            f = fr(f); v = [x * f for x in p["cand"][i]]
            k = {1: 0, 2: 1, Fraction(1, 2): 2, 3: 3, Fraction(1, 8): 4}[f]
            rs.append(w.rxn(v)); cs.append(p["cost"][i][k] * cu)
            if not any(a is b for a in rs[-1:] for b in rxns): rxns.append(rs[-1])
            mem.append((w.vec(rs[-1]), num(cs[-1]), False))
        paths.append(BasicPathway(rs, cs))
    nv = [Fraction(x, p["netd"]) for x in p["net"]]
    if p["inter"]:
        got = intermediates(w, p, rxns, w.rxn(nv))
        if got is None: return None
        for r in got:
            vd = w.vec(r)
            if vd[1] == 0: return None
            c = num(cf.evaluate(r))
            mem.append((vd, c, True))
    cl = []; rec = []
    for (v, d), c, anyd in mem:
        k = lin_key(v)
        if k not in cl: cl.append(k)
        x = dict(v=v, d=d, k=cl.index(k) + 1, w=c, any=anyd)
        if x not in rec: rec.append(x)
    if len(cl) > 14 or (len(cl) > 9 and p["max"] > 3): return None
    if not small([list(x) for x in cl], p["net"], p["max"]): return None
    forms = []
    for x in p["ents"]:
        if x["c"] not in forms: forms.append(x["c"])
    ev = [dict(op="problem", ph=[forms.index(x["c"]) + 1 for x in p["ents"]], cl=[list(x) for x in cl], mem=rec, net=p["net"], netd=p["netd"], netcl=list(lin_key(p["net"])),
               max=p["max"], open=p["open"])]
    def mksolver(r):
        if p["idx"] == "built": ents = GibbsEntrySet(w.E); ents.build_indices()
        elif p["idx"] == "other": ents = GibbsEntrySet([deepcopy(e) for e in w.E]); GibbsEntrySet(w.E[: max(2, len(w.E) - 2)]).build_indices()
        else: ents = GibbsEntrySet(w.E)
        return PathwaySolver(PathwaySet.from_paths(paths), ents, cf, open_elem=(Element("O") if p["ents"][0]["b"] % 2 else "O") if p["open"] else None,
                             chempot=float(p["mu"]) if p["open"] else 0.0, chunk_size=r["chunk"], batch_size=r["batch"])
    solver = None
    net = w.rxn(nv)
    def snap(): return repr([(q.reactions, [list(map(float, r.coefficients)) for r in q.reactions], q.costs) for q in paths] + [net, list(net.coefficients)])
    before = snap()
    for r in p["runs"]:
        e = dict(op="solve", exc="", filter=r["filter"], paths=[], ntasks=0, log=[], unchanged=True)
        fakeray.SCHED.reset(seed=r["ss"], cpus=r["cpus"], policy=r["policy"])
        try:
            if solver is None or not p["samesolver"]: solver = mksolver(r)
            solver.chunk_size, solver.batch_size = r["chunk"], r["batch"]
            with quiet():
                ps = solver.solve(net, max_num_combos=p["max"], find_intermediate_rxns=p["inter"], intermediate_rxn_energy_cutoff=p["cutoff"],
                                  use_basic_enumerator=p["basic"], use_minimize_enumerator=p["mini"], filter_interdependent=r["filter"])
                got = list(ps)
            for q in got:
                rx = []
                for x in q.reactions:
                    v, d = w.vec(x)
                    k = cl.index(lin_key(v)) + 1 if d and any(v) and lin_key(v) in cl else 0
                    rx.append(dict(v=v, d=d, k=k, open=w.is_open(x)))
                e["paths"].append(dict(rx=rx, ms=[rat(x * p["netd"], 40000, 1e-10) for x in getattr(q, "coefficients", [])], costs=[num(c) for c in q.costs],
                                       avg=rat(q.average_cost / cu, 40000, 1e-10), bal=bool(getattr(q, "balanced", False))))
        except Exception as x: e["exc"] = exc_name(x)
        if not p["inter"]: e["ntasks"], e["log"] = fakeray.SCHED.history()
        e["unchanged"] = before == snap()
        ev.append(e)
    return {"params": p, "ev": ev}

# ------------------------------------------------------------ C18: direct
def gen_dep(rng):
    n = rng.randint(3, 8)
    rx = []
    for _ in range(rng.randint(1, 6)):
        A = rng.sample(range(n), rng.choice([1, 1, 2, 2, 3]) if n > 3 else 1)
        B = [i for i in range(n) if i not in A]
        B = rng.sample(B, min(len(B), rng.choice([1, 1, 2])))
        if dict(r=sorted(A), p=sorted(B)) not in rx: rx.append(dict(r=sorted(A), p=sorted(B)))
    pre = rng.sample(range(n), rng.randint(0, min(3, n)))
    if rng.random() < 0.6: pre = sorted(set(pre) | set(rx[0]["r"]))
    return dict(focus="dep", n=n, rx=rx, pre=sorted(pre))

POOLF = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, 0, 1], [0, 1, 1], [1, 1, 1], [2, 1, 0], [1, 2, 1]]
def execute_dep(p):
    E = [LinEntry(Composition({e: a for e, a in zip(["Li", "Mn", "S"], POOLF[i]) if a}), {T0: -float(i)}, T0, f"id-{i + 1}") for i in range(p["n"])]
    rx = [ComputedReaction([E[i] for i in x["r"]] + [E[i] for i in x["p"]], [-1.0 - k / 8] * len(x["r"]) + [1.0 + k / 8] * len(x["p"])) for k, x in enumerate(p["rx"])]
    e = dict(op="interdep", exc="", rx=[dict(r=[i + 1 for i in x["r"]], p=[i + 1 for i in x["p"]]) for x in p["rx"]], pre=[i + 1 for i in p["pre"]], dep=False)
    try:
        q = BalancedPathway(rx, [1.0] * len(rx), [1.0] * len(rx), balanced=True)
        pre = [E[i].composition for i in p["pre"]]
        e["dep"] = bool(q.contains_interdependent_rxns(pre)); again = bool(q.contains_interdependent_rxns(pre))
        if again != e["dep"]: e["exc"] = "answer changes"
    except Exception as x: e["exc"] = exc_name(x)
    return {"params": p, "ev": [e]}

# ------------------------------------------------------------ C19
def gen_set(rng):
    n = rng.randint(4, 7)
    ents = []
    for i in range(n):
        for _ in range(rng.choice([1, 1, 2])): ents.append(dict(f=i, e=rng.randint(-20, 20)))
    for i, x in enumerate(ents):
        x["b"] = i + 1
        while any(y is not x and y["f"] == x["f"] and y["e"] == x["e"] for y in ents): x["e"] += 50
    rx = []
    for _ in range(rng.randint(1, 7)):
        k = rng.choice([2, 2, 3, 4])
        S = rng.sample(range(n), min(k, n)); a = rng.randint(1, len(S) - 1)
        pick = [rng.choice([x["b"] for x in ents if x["f"] == f]) for f in S]
        co = [-rng.randint(1, 3) for _ in S[:a]] + [rng.randint(1, 3) for _ in S[a:]]
        rx.append(dict(ids=pick, co=co))
        if rng.random() < 0.3: rx.append(dict(ids=[rng.choice([x["b"] for x in ents if x["f"] == f]) for f in S], co=co))
    key = lambda x: sorted(zip(x["ids"], x["co"]))
    rx = [x for i, x in enumerate(rx) if all(key(x) != key(y) for y in rx[:i])]
    # equality of reactions goes by formulas and energy: keep reactions that it tells apart
    fe = lambda x: (sorted(((ents[i - 1]["f"]), c) for i, c in zip(x["ids"], x["co"])), sum(ents[i - 1]["e"] * c for i, c in zip(x["ids"], x["co"])))
    rx = [x for i, x in enumerate(rx) if all(fe(x) != fe(y) for y in rx[:i])]
    def path():
        k = rng.randint(1, 4)
        ids = [rng.randrange(len(rx)) + 1 for _ in range(k)] if rng.random() < 0.2 else [i + 1 for i in rng.sample(range(len(rx)), min(k, len(rx)))]
        bal = rng.random() < 0.5
        return dict(k="balanced" if bal else "basic", ids=ids, cs=[rng.randint(0, 9) for _ in ids], ms=[q(rng.choice([Fraction(1), Fraction(2), Fraction(1, 2), Fraction(3, 4)])) for _ in ids] if bal else [], bal=bal and rng.random() < 0.6)
    ps = [path() for _ in range(rng.choice([0, 1, 2, 3, 5, 8]))]
    if ps and rng.random() < 0.3: ps.append(rng.choice(ps))
    eqs = []
    for _ in range(rng.randint(1, 4)):
        a = path(); b = {k: (list(v) if isinstance(v, list) else v) for k, v in a.items()}
        how = rng.choice(["same", "same", "same", "prefix", "prefix", "cost", "mult", "perm", "kind", "other", "rxn"])
        if how == "prefix" and len(a["ids"]) > 1:
            for f in ("ids", "cs", "ms"): b[f] = b[f][:-1]
        elif how == "cost": b["cs"][rng.randrange(len(b["cs"]))] += 1
        elif how == "mult" and b["ms"]: b["ms"][rng.randrange(len(b["ms"]))] = [5, 4]
        elif how == "perm": b["ids"] = b["ids"][::-1]
        elif how == "kind": b["k"] = "basic"; b["ms"] = []; b["bal"] = False
        elif how == "other": b = path()
        elif how == "rxn": b["ids"][-1] = rng.randrange(len(rx)) + 1
        if rng.random() < 0.5: a, b = b, a
        eqs.append([a, b])
    return dict(focus="C19", n=n, ents=ents, rx=rx, paths=ps, eqs=eqs, np=rng.random() < 0.5, twice=rng.random() < 0.3)

def execute_set(p):
    E = {x["b"]: LinEntry(Composition({e: a for e, a in zip(["Li", "Mn", "S"], POOLF[x["f"]]) if a}), {T0: float(x["e"])}, T0, f"id-{x['b']}") for x in p["ents"]}
    def mk(i, perm=False):
        x = p["rx"][i - 1]; z = list(zip(x["ids"], x["co"]))
        if perm:
            a = [t for t in z if t[1] < 0][::-1]; b = [t for t in z if t[1] > 0][::-1]; z = a + b
        return ComputedReaction([E[j] for j, _ in z], [float(c) for _, c in z])
    def path(a, perm=False):
        rs = [mk(i, perm) for i in a["ids"]]; cs = [float(c) for c in a["cs"]]
        if a["k"] == "basic": return BasicPathway(rs, cs)
        ms = [float(fr(m)) for m in a["ms"]]
        return BalancedPathway(rs, np.array(ms) if p["np"] else ms, cs, balanced=a["bal"])
    def rid(r):
        got = {int(str(e.entry_id)[3:]): float(c) for e, c in zip(r.entries, r.coefficients)}
        for k, x in enumerate(p["rx"]):
            if got == dict(zip(x["ids"], map(float, x["co"]))): return k + 1
        return 0
    polys = lambda i: sorted(p["rx"][i - 1]["ids"])
    def rec(q):
        k = type(q).__name__.replace("Pathway", "").lower(); ids = [rid(r) for r in q.reactions]
        return dict(k=k, ids=ids, cs=[int(c) for c in q.costs], ms=[rat(m) for m in q.coefficients] if k == "balanced" else [], bal=bool(getattr(q, "balanced", False)),
                    polys=[sorted(int(str(e.entry_id)[3:]) for e in r.entries) for r in q.reactions])
    f = {x["b"]: x["f"] + 1 for x in p["ents"]}; en = {x["b"]: x["e"] for x in p["ents"]}
    world = dict(op="world", rxn=[dict(r=sorted({f[i] for i, c in zip(x["ids"], x["co"]) if c < 0}), p=sorted({f[i] for i, c in zip(x["ids"], x["co"]) if c > 0}),
                                       e=[sum(en[i] * c for i, c in zip(x["ids"], x["co"])), 1]) for x in p["rx"]])
    ev = [world]
    want = [dict(a, polys=[polys(i) for i in a["ids"]]) for a in p["paths"]]
    e = dict(op="pset", exc="", want=want, got=[], eqs=[], len=-1, unchanged=True)
    try:
        orig = [path(a) for a in p["paths"]]
        s = PathwaySet.from_paths(orig)
        if p["twice"]: list(s); s = PathwaySet.from_paths(s.paths)
        e["len"] = len(s); got = list(s); e["got"] = [rec(q) for q in got]
        e["eqs"] = [bool(a == b) for a, b in zip(got, orig)] + [False] * (len(orig) - len(got))
        e["unchanged"] = [rec(q) for q in orig] == want if all(set(a) >= {"polys"} for a in want) else True
    except Exception as x: e["exc"] = exc_name(x)
    ev.append(e)
    comp = {}
    for x in p["ents"]: comp[E[x["b"]].composition] = f[x["b"]]
    for a in p["paths"][:3] + [x for pr in p["eqs"][:1] for x in pr]:
        o = dict(op="facts", exc="", path=a, total=[0, 0], avg=[0, 0], r=[], p=[], i=[], all=[], energy=[0, 0])
        try:
            pa = path(a)
            o.update(total=rat(pa.total_cost), r=sorted(comp[c] for c in pa.reactants), p=sorted(comp[c] for c in pa.products), i=sorted(comp[c] for c in pa.intermediates),
                     all=sorted(comp[c] for c in pa.compositions), energy=rat(pa.energy))
            if a["k"] == "balanced": o["avg"] = rat(pa.average_cost, 20000, 1e-10)
        except Exception as x: o["exc"] = exc_name(x)
        ev.append(o)
    for a, b in p["eqs"]:
        o = dict(op="eq", exc="", a=a, b=b, eq=False, eqr=False, hash=False, inset=False)
        try:
            x, y = path(a), path(b, True)
            o.update(eq=bool(x == y), eqr=bool(y == x), hash=hash(x) == hash(y), inset=y in {x})
        except Exception as z: o["exc"] = exc_name(z)
        ev.append(o)
    return {"params": p, "ev": ev}

def params(focus, n, mk):
    rng = rng_for("paths", focus); out = []
    while len(out) < n:
        p = mk(rng)
        if p: out.append(p)
    return out

RULE = ("random systems of 2-4 elements and up to 10 phases (polymorphs, elements), 1-9 distinct candidate reactions (several multiples of one reaction, shared between pathways), open systems, net reactions "
        "that one to three candidates add up to or none can, entries indexed in another order, reactions between intermediates found by the enumerators; chunk size 1-100000, batch size, 1-8 CPUs, four task orders; "
        "all solutions enumerated exactly by TLC")
MC = ("MCPathways", scale("MCPathways.cfg", "MCPathwaysDeep.cfg"))
def warm():
    rng = rng_for("paths", "warm")
    while True:
        p = gen(rng, "warm")
        if p and not p["inter"] and execute(p): return
def _solver(prop, n, dep=0):
    ck = Check(prop); ck.mc(*MC); warm()
    ck.judge("TracePathways", run_cases(execute, params(prop, n, lambda r: gen(r, prop))), only=(prop,))
    if dep: ck.judge("TracePathways", run_cases(execute_dep, params("dep", dep, gen_dep)), only=(prop,))
    return ck.finish(RULE)
def c16(): return _solver("C16", scale(350, 5000))
def c17(): return _solver("C17", scale(350, 5000))
def c18(): return _solver("C18", scale(250, 4000), scale(1500, 20000))
def c19():
    ck = Check("C19"); ck.mc(*MC)
    ck.judge("TracePathways", run_cases(execute_set, params("C19", scale(1200, 15000), gen_set)), only=("C19",))
    return ck.finish("random lists of 0-8 basic and balanced pathways over reactions with polymorphs and mixed sizes, stored in a pathway set and read back; pairs of pathways (equal, prefix, other cost, "
                     "multiplicity, order, kind) compared and hashed; derived quantities of each pathway")
def exec_for(focus): return {"C19": execute_set, "dep": execute_dep}.get(focus, execute)
