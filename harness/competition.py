"""Driver for competition calculations over whole reaction sets (C26)."""
from __future__ import annotations
import itertools, warnings
from fractions import Fraction
from math import lcm
from .common import Check, rng_for, scale, run_cases, exc_name
from .chem import *
from .fakes import LinEntry
from . import fakeray
from pymatgen.core import Element
from rxn_network.core import Composition
from rxn_network.costs.calculators import ChempotDistanceCalculator
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.jobs.core import CalculateCompetitionMaker
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction
from rxn_network.reactions.reaction_set import ReactionSet
ELS = ["Li", "Mn", "Y", "O", "Ba", "C", "Ti", "Cl"]
T0 = 300
def u(x): return int(round(float(x) * 1e5))

def gen(rng):
    for _ in range(200):
        p = gen1(rng)
        if p: return p
    raise RuntimeError("generator")
def gen1(rng):
    star = rng.random() < 0.12    # many chemical systems: two elements of the target, and several others never together
    elems = rng.sample(ELS, rng.choice([5, 6]) if star else rng.choice([2, 2, 3, 3, 4]))
    op = "O" if "O" in elems and len(elems) > 2 and not star and rng.random() < 0.55 else None
    oi = elems.index(op) if op else -1
    solid = lambda v: sum(x for k, x in enumerate(v) if k != oi)
    comps = [reduce_vec(elems, [int(j == i) for j in range(len(elems))]) for i in range(len(elems))]
    if star:
        comps.append(reduce_vec(elems, [rng.randint(1, 2), rng.randint(1, 2)] + [0] * (len(elems) - 2)))
        for k in range(2, len(elems)):
            for h in rng.sample([0, 1], rng.choice([1, 1, 2])):
                comps.append(reduce_vec(elems, [rng.randint(1, 2) if j in (h, k) else 0 for j in range(len(elems))]))
    else: comps += random_comps(rng, elems, rng.randint(4, 7), 3, 3, seen=comps)
    ents = []
    for c in comps:
        n = sum(c)
        for _ in range(2 if len([x for x in c if x]) > 1 and rng.random() < 0.12 else 1):
            ents.append(dict(c=c, e=rng.randint(-24 * n, 0) / 8 if sum(1 for x in c if x) > 1 else 0))
    for i, x in enumerate(ents):
        while any(y["c"] == x["c"] and y["e"] == x["e"] for y in ents[:i]): x["e"] -= 1
    opx = next((i for i, x in enumerate(ents) if x["c"] == comps[oi]), -1) if op else -1
    ids = [i for i in range(len(ents)) if i != opx]
    same = lambda s: len({tuple(ents[i]["c"]) for i in s}) < len(s)
    pool = []
    pres = [tuple(sorted(s)) for k in (1, 2) for s in itertools.combinations(ids, k) if not same(s)]
    rng.shuffle(pres)
    els = lambda s: {k for i in s for k, x in enumerate(ents[i]["c"]) if x}
    if star: pres = [s for s in pres if len(els(s) | {0, 1}) <= 3]
    for R in pres[:rng.randint(8, 24) if star else rng.randint(3, 14)]:
        prods = [s for k in (1, 2) for s in itertools.combinations([i for i in ids if i not in R], k)]
        rng.shuffle(prods); n = 0
        if star: prods.sort(key=lambda P: len(elems) not in P)
        for P in prods:
            for o in ([None] if not op else rng.sample([None, "l", "r"], 3)):
                L = list(R) + ([opx] if o == "l" else []); Q = list(P) + ([opx] if o == "r" else [])
                if same(L + Q): continue
                g = nullspace_guard([ents[i]["c"] for i in L + Q])
                if not g or g[0] != 1: continue
                v = g[1]
                if v[0] > 0: v = [-x for x in v]
                if any(x >= 0 for x in v[:len(L)]) or any(x <= 0 for x in v[len(L):]) or max(map(abs, v)) > 12: continue
                pool.append(dict(r=L, p=Q, v=v)); n += 1
                break
            if n >= 6: break
    if op and rng.random() < 0.3: pool = [x for x in pool if not (opx in x["r"] and rng.random() < 0.6)]
    if not pool: return None
    # energies
    for x in pool:
        at = sum(-k * solid(ents[i]["c"]) for i, k in zip(x["r"], x["v"]))
        if at == 0: return None
    mu = rng.choice([0, -1, -2, -0.5, -1.375]) if op else 0
    if rng.random() < 0.15:    # the same reaction given twice
        two = [x for x in pool if len({i for i in x["r"] if i != opx}) == 2]
        pool += [dict(x) for x in rng.sample(two, min(len(two), 2))]
    def y(x):
        at = sum(-k * solid(ents[i]["c"]) for i, k in zip(x["r"], x["v"]))
        E = sum(k * (ents[i]["e"] - (mu * ents[i]["c"][oi] if op and i != opx else 0)) for i, k in zip(x["r"] + x["p"], x["v"]))
        return Fraction(E) / at
    pool = [x for x in pool if y(x) != 0]
    rng.shuffle(pool); pool = pool[:30]
    F = lambda i: comps.index(ents[i]["c"]) + 1
    tg = [F(i) for x in pool for i in x["p"] if i != opx]
    if not tg: return None
    target = len(elems) + 1 if star else rng.choice(tg)
    # keep mixing ratios on a small grid
    def Dof(x):
        pre = {F(i) for i in x["r"] if i != opx}
        d = 1
        for z in pool:
            s = {F(i) for i in z["r"] if i != opx}
            if s <= pre:
                n = [-k * solid(ents[i]["c"]) for i, k in zip(z["r"], z["v"]) if i != opx]
                d = lcm(d, sum(n))
        return d
    while True:
        bad = [x for x in pool if target in [F(i) for i in x["p"]] and Dof(x) > 840]
        if not bad: break
        x = bad[0]; pre = {F(i) for i in x["r"]}
        cand = [z for z in pool if {F(i) for i in z["r"] if i != opx} <= pre]
        pool.remove(rng.choice(cand))
    if not any(target in [F(i) for i in x["p"]] for x in pool) and rng.random() < 0.9: return None
    runs = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        runs.append(dict(chunk=rng.choice([1, 1, 2, 3, 5, 100]), parts=rng.choice([1, 1, 2, 3, 4, 6]), seed=rng.randrange(10**6), policy=rng.choice(["random", "fifo", "lifo", "starve"]),
                         cpus=rng.choice([1, 2, 4]), mem=rng.choice([0, 0, 0, 1, 2, 3]), scores=rng.random() < 0.93))
    return dict(elems=elems, op=op, mu=mu, ents=ents, comps=comps, opx=opx, pool=pool, target=target, runs=runs, dist=star or rng.random() < 0.25, built=rng.random() < 0.5)

def alone_distances(p, E, gs, rows, rx):
    """of every target reaction: its distance in the diagram of its own chemical system, and in that of
    every other target reaction which covers it (empty: there is no such diagram)"""
    op, mu, target = p["op"], p["mu"], p["target"]
    T = [t for t, r in enumerate(rows, 1) if target in r["P"]]
    def system(t):
        r = rx[t - 1]; return tuple(sorted({str(e) for x in r.entries for e in x.composition.elements} - ({op} if op else set())))
    calcs = {}
    def value(t, sy):
        try:
            if sy not in calcs:
                es = gs.get_subset_in_chemsys([*sy, op] if op else list(sy))
                if op: es = [x.to_grand_entry({Element(op): mu}) for x in es if {str(q) for q in x.composition.elements} != {op}]
                calcs[sy] = None if len(sy) < 2 else ChempotDistanceCalculator.from_entries(list(es))
            if calcs[sy] is None: return []
            r = rx[t - 1]
            if op and not isinstance(r, OpenComputedReaction): r = OpenComputedReaction(r.entries, r.coefficients, {Element(op): mu}, data={})
            with warnings.catch_warnings():
                warnings.simplefilter("ignore"); return [u(calcs[sy].calculate(r))]
        except Exception as ex: return []
    out = []
    for t in T:
        own = system(t)
        out.append(dict(tag=t, own=value(t, own), any=sorted({v for z in T if set(system(z)) >= set(own) for v in value(t, system(z))})))
    return out

def execute(p):
    elems, op, ents, comps, pool, opx = p["elems"], p["op"], p["ents"], p["comps"], p["pool"], p["opx"]
    oi = elems.index(op) if op else -1
    solid = lambda v: sum(x for k, x in enumerate(v) if k != oi)
    F = lambda i: comps.index(ents[i]["c"]) + 1
    E = [LinEntry(Composition(formula(elems, x["c"])), {T0: float(x["e"])}, T0, f"e{i}") for i, x in enumerate(ents)]
    mu = p["mu"]
    rows, rx = [], []
    for t, x in enumerate(pool, 1):
        at = sum(-k * solid(ents[i]["c"]) for i, k in zip(x["r"], x["v"]))
        en = sum(k * (ents[i]["e"] - (mu * ents[i]["c"][oi] if op and i != opx else 0)) for i, k in zip(x["r"] + x["p"], x["v"]))
        rows.append(dict(R=[F(i) for i in x["r"]], n=[-k * solid(ents[i]["c"]) for i, k in zip(x["r"], x["v"])], P=[F(i) for i in x["p"]], y=u(Fraction(en) / at), D=1))
        es = [E[i] for i in x["r"] + x["p"]]; sc = (t % 3) + 1
        co = [k / sc for k in x["v"]]
        data = {"tag": t, "note": f"n{t}"}
        rx.append(OpenComputedReaction(es, co, {Element(op): mu}, data=data) if op and p["built"] else ComputedReaction(es, co, data=data))
    opf = F(opx) if op else 0
    for r in rows:
        pre = set(r["R"]) - {opf}
        for z in rows:
            if set(z["R"]) - {opf} <= pre: r["D"] = lcm(r["D"], sum(z["n"]))
    ev = [dict(op="world", rxns=rows, open=opf, target=p["target"])]
    gs = GibbsEntrySet(list(E))
    tf = formula(elems, comps[p["target"] - 1])
    want_el = set(elems) - {e for e, k in zip(elems, comps[p["target"] - 1]) if k}
    def sets(n):
        kw = dict(open_elem=op, chempot=mu) if op and p["built"] else {}
        k = max(1, min(n, len(rx)))
        return [ReactionSet.from_rxns(rx[i::k], entries=gs, **kw) for i in range(k)]
    snapset = lambda ss: [[(str(r.data.get("tag")), sorted(r.data), [round(float(c), 9) for c in r.coefficients]) for r in s.get_rxns()] for s in ss]
    def run(o, scores, dist):
        fakeray.SCHED.reset(seed=o["seed"], cpus=o["cpus"], policy=o["policy"], memory=(1 << 33) if not o["mem"] else int(250 * len(rx) * (o["mem"] + 0.5)))
        ss = sets(o["parts"]); s0 = snapset(ss)
        m = CalculateCompetitionMaker(open_elem=Element(op) if op else None, chempot=mu, calculate_competition=scores, calculate_chempot_distances=dist, chunk_size=o["chunk"])
        doc = CalculateCompetitionMaker.make.original(m, ss, gs, tf)
        return doc, snapset(ss) == s0
    for o in p["runs"]:
        e = dict(op="job", scores=o["scores"], got=[], mu=False, doc=False, input=False, exc=""); ev.append(e)
        try:
            doc, same = run(o, o["scores"], False)
            e["input"] = same
            e["doc"] = (doc.target_formula == Composition(tf).reduced_formula and {str(x) for x in doc.added_elements} == want_el and doc.added_chemsys == "-".join(sorted(want_el))
                        and doc.calculate_competition == o["scores"] and (doc.open_elem is None if not op else str(doc.open_elem) == op) and doc.chempot == mu)
            ok = True
            for r in doc.rxns.get_rxns():
                t = r.data.get("tag", 0); x = pool[t - 1] if 0 < t <= len(pool) else None
                sm = x is not None and [str(q.entry_id) for q in r.entries] == [f"e{i}" for i in x["r"] + x["p"]] and max(abs(a - b / ((t % 3) + 1)) for a, b in zip(r.coefficients, x["v"])) < 1e-8
                ok = ok and (isinstance(r, OpenComputedReaction) and {str(k): v for k, v in r.chempots.items()} == {op: mu} if op else not isinstance(r, OpenComputedReaction))
                has = "primary_competition" in r.data or "secondary_competition" in r.data
                e["got"].append(dict(tag=t, prim=u(r.data.get("primary_competition", 1e4)), sec=u(r.data.get("secondary_competition", 1e4)), same=bool(sm), kept=r.data.get("note") == f"n{t}", has=has))
            e["mu"] = bool(ok)
        except Exception as ex: e["exc"] = exc_name(ex)
    T = [r for r in rows if p["target"] in r["P"]]
    if p["dist"] and T:
        e = dict(op="dist", runs=[], vals=alone_distances(p, E, gs, rows, rx), exc=""); ev.append(e)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                for ch in [1] + sorted({o["chunk"] for o in p["runs"]} | {100}):
                    doc, _ = run(dict(p["runs"][0], chunk=ch), False, True)
                    e["runs"].append([[r.data["tag"], u(r.data["chempot_distance"])] for r in doc.rxns.get_rxns()])
        except Exception as ex: e["exc"] = exc_name(ex)
    return {"params": p, "ev": ev}
def params(focus, n):
    rng = rng_for(focus)
    return [gen(rng) for _ in range(n)]
def c26():
    ck = Check("C26")
    ck.mc("MCCompetition", scale("MCCompetition.cfg", "MCCompetitionDeep.cfg"))
    ck.judge("TraceCompetition", run_cases(execute, params("C26", scale(700, 6000))))
    return ck.finish("random chemistries with all balanced reactions between precursors (closed, and open to oxygen at several chemical potentials), split over one to three reaction sets, scored with every combination of chunk size, memory, CPUs and completion order")
