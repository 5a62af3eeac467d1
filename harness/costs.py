"""Driver for cost functions and calculators (C27)."""
from __future__ import annotations
import warnings
from fractions import Fraction
import numpy as np
from .common import Check, rng_for, scale, run_cases, exc_name
from .chem import *
from .fakes import LinEntry
from . import competition as comp
from pymatgen.core import Element
from rxn_network.core import Composition
from rxn_network.costs.calculators import (ChempotDistanceCalculator, PrimaryCompetitionCalculator, SecondaryCompetitionCalculator,
    SecondaryCompetitionWithEhullCalculator, SecondaryCompetitionMaxCalculator, SecondaryCompetitionAreaCalculator)
from rxn_network.costs.functions import Softplus, WeightedSum
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.hull import InterfaceReactionHull
from rxn_network.reactions.open import OpenComputedReaction
TEMPS = [50, 100, 200, 273, 300, 450, 600, 1000, 1500, 3000]
KEYS = ["cost_a", "cost_b", "energy_per_atom", "chempot_distance", "primary_competition", "c2"]
HULLS = {"primary": PrimaryCompetitionCalculator, "secondary": SecondaryCompetitionCalculator, "ehull": SecondaryCompetitionWithEhullCalculator,
         "max": SecondaryCompetitionMaxCalculator, "area": SecondaryCompetitionAreaCalculator}
def u(x): return int(round(float(x) * 1e5))

def gen(rng):
    p = comp.gen(rng)
    p["runs"] = []
    fns = []
    for _ in range(rng.randint(2, 4)):
        n = rng.choice([1, 1, 2, 2, 3, 4]); big = rng.random() < 0.2
        fns.append(dict(kind=rng.choice(["softplus", "softplus", "sum"]), t=rng.choice(TEMPS), default=rng.random() < 0.15,
                        p=[rng.choice(KEYS + ["energy_per_atom", "energy_per_atom", "energy", "nothing"][: rng.choice([2, 3, 3, 3, 4])]) for _ in range(n)],
                        w=[rng.choice([4, 4, 2, 1, -4, 6, 8]) * (4 if big else 1) for _ in range(n)]))
    calcs = []
    for _ in range(rng.randint(2, 4)):
        k = rng.choice(["pairs", "pairs", "primary", "secondary", "ehull", "max", "area"])
        calcs.append(dict(kind=k, agg=rng.choice(["sum", "max", "mean", "min"]), built=rng.random() < 0.4,
                          name=rng.choice(["", "", "", "cost_a", "c2"])))
    objs = []
    for _ in range(rng.randint(3, 5)):
        objs.append(dict(r=rng.randrange(len(p["pool"])), none=rng.random() < 0.15,
                         data=[[k, rng.choice([0, 25, -25, 100, -100, 3000, -5000]) * 1000] for k in rng.sample(KEYS, rng.choice([0, 1, 2, 3, 4]))]))
    ops = []
    for _ in range(rng.randint(6, 16)):
        ops.append(dict(op=rng.choice(["eval"] * 5 + ["calc", "calc", "deco", "deco", "set"]), a=rng.randrange(10**6), b=rng.randrange(10**6),
                        many=rng.random() < 0.35, n=rng.randint(0, 4), v=rng.choice([0, 13, -13, 4000, -7000]) * 1000, key=rng.choice(KEYS)))
    return dict(world=p, fns=fns, calcs=calcs, objs=objs, ops=ops)

def execute(q):
    p = q["world"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return run(q, p)
def run(q, p):
    elems, op, ents, comps, pool, opx, mu = p["elems"], p["op"], p["ents"], p["comps"], p["pool"], p["opx"], p["mu"]
    oi = elems.index(op) if op else -1
    solid = lambda v: sum(x for k, x in enumerate(v) if k != oi)
    E = [LinEntry(Composition(formula(elems, x["c"])), {comp.T0: float(x["e"])}, comp.T0, f"e{i}") for i, x in enumerate(ents)]
    def mk(t, data):
        x = pool[t]; es = [E[i] for i in x["r"] + x["p"]]; co = [k / ((t % 3) + 1) for k in x["v"]]
        return OpenComputedReaction(es, co, {Element(op): mu}, data=data) if op else ComputedReaction(es, co, data=data)
    # distances of the phases in the diagram of everything
    gs = lambda: [e.to_grand_entry({Element(op): mu}) for e in E if {str(z) for z in e.composition.elements} != {op}] if op else list(E)
    diagram = lambda: ChempotDistanceCalculator.from_entries(gs()).cpd
    used = sorted({o["r"] for o in q["objs"]})
    n = len(E); dist = [[0] * n for _ in range(n)]; off = [0] * n; usable = True
    pairs_needed = [c for c in q["calcs"] if c["kind"] == "pairs"]
    if pairs_needed:
        try:
            cpd = diagram()
            ge = {i: (E[i].to_grand_entry({Element(op): mu}) if op else E[i]) for i in range(n) if i != opx}
            ph = sorted({i for t in used for i in pool[t]["r"] + pool[t]["p"] if i != opx})
            for i in ph:
                off[i] = u(cpd.get_offset(ge[i]))
                for j in ph:
                    dist[i][j] = u(cpd.shortest_domain_distance(ge[i].composition.reduced_formula, ge[j].composition.reduced_formula))
        except Exception: usable = False
    # the interface hull with the most reactions
    pre = lambda x: tuple(sorted({str(E[i].composition.reduced_formula) for i in x["r"]} - ({E[opx].composition.reduced_formula} if op else set())))
    byp = {}
    for t, x in enumerate(pool):
        if len(pre(x)) == 2: byp.setdefault(pre(x), []).append(t)
    best = max(byp, key=lambda k: (len(byp[k]), k)) if byp else None
    if best:
        mem = [t for t, x in enumerate(pool) if set(pre(x)) <= set(best)]
    def hull(): return InterfaceReactionHull(Composition(best[0]), Composition(best[1]), [mk(t, {}) for t in mem])
    onhull = set(byp[best]) if best else set()
    calcs, keep = [], []
    for c in q["calcs"]:
        vals = [0] * len(pool); ok = set()
        if c["kind"] == "pairs":
            if not usable: continue
            agg = {"min": min}.get(c["agg"], c["agg"])
            kw = {"name": c["name"]} if c["name"] else {}
            calc = (ChempotDistanceCalculator.from_entries(gs(), **({} if agg == "sum" and c["built"] else {"mu_func": agg}), **kw) if c["built"] else ChempotDistanceCalculator(diagram(), agg, **kw))
            ok = set(range(len(pool)))
        else:
            if best is None: continue
            kw = {"name": c["name"]} if c["name"] else {}
            for t in mem:
                try:
                    v = float(HULLS[c["kind"]](hull()).calculate(mk(t, {})))
                    if abs(v) > 1e4 or v != v: continue
                    vals[t] = u(v); ok.add(t)
                except Exception: pass
            calc = HULLS[c["kind"]](hull(), **kw)
        calcs.append(dict(c, kind="pairs" if c["kind"] == "pairs" else "hull", name=calc.name, vals=vals)); keep.append((calc, ok))
    fns, F = [], []
    for f in q["fns"]:
        ps, w = (["energy_per_atom"], [4]) if f["default"] else (f["p"], f["w"])
        t = 300 if f["default"] else f["t"]
        kw = {} if f["default"] else dict(params=list(ps), weights=[x / 4 for x in w])
        F.append(Softplus(**({} if f["default"] else {"temp": t}), **kw) if f["kind"] == "softplus" else WeightedSum(**kw))
        fns.append(dict(kind=f["kind"], t=t, p=ps, w=w))
    rows = []
    for t, x in enumerate(pool):
        at = sum(-k * solid(ents[i]["c"]) for i, k in zip(x["r"], x["v"]))
        en = sum(k * (ents[i]["e"] - (mu * ents[i]["c"][oi] if op and i != opx else 0)) for i, k in zip(x["r"] + x["p"], x["v"]))
        rows.append(dict(R=[i + 1 for i in x["r"] if i != opx or not op], P=[i + 1 for i in x["p"] if i != opx or not op],
                         attrs=[["energy_per_atom", u(Fraction(en) / at)], ["energy", u(Fraction(en) / ((t % 3) + 1))]]))
    objs = [mk(o["r"], None if o["none"] else {k: v / 1e5 for k, v in o["data"]}) for o in q["objs"]]
    base = [o["r"] for o in q["objs"]]
    ev = [dict(op="world", rxns=rows, dist=dist, off=off, calcs=calcs, fns=fns, objs=[dict(r=o["r"] + 1, data=[] if o["none"] else o["data"]) for o in q["objs"]])]
    def same(o, t):
        x = pool[t]
        return bool([str(z.entry_id) for z in o.entries] == [f"e{i}" for i in x["r"] + x["p"]] and max(abs(a - b / ((t % 3) + 1)) for a, b in zip(o.coefficients, x["v"])) < 1e-9
                    and type(o) is (OpenComputedReaction if op else ComputedReaction) and (not op or {str(k): v for k, v in o.chempots.items()} == {op: mu}))
    def after(): return [dict(data=sorted([k, u(v)] for k, v in (o.data or {}).items()), same=same(o, t)) for o, t in zip(objs, base)]
    ranks = {}
    for o in q["ops"]:
        if o["op"] == "eval":
            fi = o["a"] % len(F); ob = o["b"] % len(objs)
            e = dict(op="eval", f=fi + 1, o=ob + 1, v=0, pos=False, rank=0, exc=""); ev.append(e)
            try:
                v = float(F[fi].evaluate(objs[ob]))
                e["v"] = u(v) if abs(v) < 2e4 else 2 * 10**9; e["pos"] = v > 0; ranks.setdefault(fi, []).append((v, e))
            except Exception as ex: e["exc"] = exc_name(ex)
        elif o["op"] == "set":
            ob = o["b"] % len(objs)
            if objs[ob].data is None: continue
            objs[ob].data[o["key"]] = o["v"] / 1e5
            e = dict(op="set", o=ob + 1, key=o["key"], v=o["v"]); ev.append(e)
        else:
            if not calcs: continue
            k = o["a"] % len(calcs); calc, ok = keep[k]
            cand = [i for i in range(len(objs)) if base[i] in ok]
            os = [cand[(o["b"] // 7**j) % len(cand)] for j in range(o["n"] if o["many"] else 1)] if cand else []
            if not o["many"] and not os: continue
            if o["op"] == "deco" and len(objs) + len(os) > 14: continue
            e = dict(op=o["op"], k=k + 1, os=[i + 1 for i in os], exc=""); ev.append(e)
            if o["op"] == "calc":
                e["vs"] = []
                try: e["vs"] = [u(v) for v in (calc.calculate_many([objs[i] for i in os]) if o["many"] else [calc.calculate(objs[os[0]])])]
                except Exception as ex: e["exc"] = exc_name(ex)
            else:
                e["fresh"] = False
                try:
                    new = calc.decorate_many([objs[i] for i in os]) if o["many"] else [calc.decorate(objs[os[0]])]
                    e["fresh"] = all(z is not y and (z.data is not y.data) for z in new for y in objs)
                    objs += new; base += [base[i] for i in os][:len(new)]
                except Exception as ex: e["exc"] = exc_name(ex)
        e["after"] = after()
    for fi, vs in ranks.items():
        lv = sorted({v for v, _ in vs})
        for v, e in vs: e["rank"] = lv.index(v)
    bad = q["ops"][0]["a"]
    e = dict(op="bad", exc=""); ev.append(e)
    try:
        if bad % 2 or not usable or not pairs_needed: Softplus(temp=[0, -5][bad % 3 % 2])
        else: ChempotDistanceCalculator(diagram(), "median")
    except Exception as ex: e["exc"] = exc_name(ex)
    return {"params": q, "ev": ev}
def params(focus, n):
    rng = rng_for(focus)
    return [gen(rng) for _ in range(n)]
def c27():
    ck = Check("C27")
    ck.mc("MCCosts", "MCCosts.cfg")
    ck.judge("TraceCosts", run_cases(execute, params("C27", scale(800, 8000))))
    return ck.finish("random chemistries (closed and open), cost functions with random parameters and weights, all calculators, and random sequences of evaluations, calculations, decorations and edits over a growing set of reaction objects")
