"""Drivers for interface reaction hulls (C24) and competition scores (C25)."""
from __future__ import annotations
import warnings
from fractions import Fraction
from math import lcm
from .common import Check, rng_for, scale, run_cases, exc_name
from .chem import *
from .fakes import LinEntry
from pymatgen.core import Element
from rxn_network.core import Composition
from rxn_network.costs.calculators import (PrimaryCompetitionCalculator, SecondaryCompetitionAreaCalculator, SecondaryCompetitionCalculator,
                                           SecondaryCompetitionMaxCalculator, SecondaryCompetitionWithEhullCalculator)
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.hull import InterfaceReactionHull
from rxn_network.reactions.open import OpenComputedReaction
ELS = ["Li", "Mn", "Y", "O", "Ba", "C", "Ti", "Cl", "Na"]
T0 = 300
NO = -999999999
def u(x): return int(round(float(x) * 1e5))

def gen(rng):
    elems = rng.sample(ELS, rng.randint(2, 4))
    op = rng.choice(elems) if rng.random() < 0.3 and len(elems) > 2 else None
    oi = elems.index(op) if op else -1
    solid = lambda v: sum(x for k, x in enumerate(v) if k != oi)
    for _ in range(100):
        c1, c2 = random_comps(rng, elems, 2, 3, 3)
        if solid(c1) and solid(c2) and len({e for v in (c1, c2) for e, x in zip(elems, v) if x}) > 1: break
    else: return gen(rng)
    n1, n2 = solid(c1), solid(c2)
    wide = rng.random() < 0.12
    style = "wide" if wide else rng.choice(["random", "random", "convex", "collinear", "ends"])
    D = 1; rx = []
    grid = []
    for _ in range(200):
        if len(rx) >= (rng.randint(12, 30) if wide else rng.randint(1, 9)): break
        a, b = (rng.randint(0, 14), rng.randint(0, 14)) if wide else (rng.randint(0, 4), rng.randint(0, 4))
        if rng.random() < (0.5 if style == "ends" else 0.1) and rx: a, b = rng.choice([(0, rng.randint(1, 3)), (rng.randint(1, 3), 0)])
        if not a and not b: continue
        x = Fraction(b * n2, a * n1 + b * n2)
        if wide and any(Fraction(*g) == x for g in grid): continue
        d = lcm(D, x.denominator)
        if d > 840: continue
        tot = [a * p + b * q for p, q in zip(c1, c2)]
        z = rng.choice([0, 0, 1, 2, -1]) if op else 0
        if op:
            if tot[oi] + 2 * z < 0 or (op not in DIATOMIC and z < 0 and tot[oi] + 2 * z < 0): z = 0
            tot[oi] += 2 * z
        if rng.random() < 0.35 and sum(tot) > 2:
            v = [rng.randint(0, t) for t in tot]; w = [t - s for t, s in zip(tot, v)]
            prods = [v, w]
        else: prods = [tot]
        prods = [dict(v=reduce_vec(elems, v), n=v) for v in prods if solid(v)]
        if not prods or sum(solid(p["n"]) for p in prods) != solid(tot): continue
        vs = [tuple(p["v"]) for p in prods]
        if len(set(vs)) < len(vs) or tuple(reduce_vec(elems, c1)) in vs or tuple(reduce_vec(elems, c2)) in vs: continue
        left = tot[oi] - sum(p["n"][oi] for p in prods) if op else 0
        D = d; grid.append((x.numerator, x.denominator))
        k = rng.randint(-1500, 150)
        f = float(x)
        if style == "convex": k = -int(4000 * f * (1 - f)) - rng.choice([0, 0, 0, 30, 100])
        if wide: k = -int(120 * f * (1 - f)) - 1 if rng.random() < 0.85 else -rng.randint(0, 20)
        if style == "collinear" and rng.random() < 0.7: k = -12 * int(round(min(f, 1 - f) * 60))
        if style == "random" and rng.random() < 0.15: k = rng.choice([0, 10, 300])
        rx.append(dict(a=a, b=b, z=z, left=left, prods=prods, y=k))
    if not any(r["a"] for r in rx) or not any(r["b"] for r in rx) or all(r["y"] == 0 for r in rx): return gen(rng)
    return dict(elems=elems, op=op, mu=rng.choice([0, -1, -2]) if op else 0, c1=c1, c2=c2, e1=rng.randint(-20, 0), e2=rng.randint(-20, 0), eo=rng.randint(-5, 0), rx=rx, D=D,
                swap=rng.random() < 0.3, mult=rng.choice([1, 1, 2]), wide=wide, seed=rng.randrange(10**6))

def build(p):
    """reactions with exactly known mixing ratio and energy (1/1000 eV per atom); returns entries and reactions"""
    elems, op = p["elems"], p["op"]; oi = elems.index(op) if op else -1
    solid = lambda v: sum(x for k, x in enumerate(v) if k != oi)
    mk = lambda v, e, i: LinEntry(Composition(formula(elems, v)), {T0: e}, T0, i)
    r1, r2 = reduce_vec(elems, p["c1"]), reduce_vec(elems, p["c2"])
    E1, E2 = mk(r1, float(p["e1"]), "c1"), mk(r2, float(p["e2"]), "c2")
    ov = reduce_vec(elems, [int(e == op) for e in elems]) if op else None
    EO = mk(ov, float(p["eo"] * sum(ov)), "open") if op else None
    mu = p["mu"]
    g1, g2 = E1.energy - (mu * r1[oi] if op else 0), E2.energy - (mu * r2[oi] if op else 0)
    out = []
    for n, r in enumerate(p["rx"]):
        f1, f2 = sum(p["c1"]) / sum(r1), sum(p["c2"]) / sum(r2)
        ents, co = [], []
        if r["a"]: ents.append(E1); co.append(-r["a"] * f1)
        if r["b"]: ents.append(E2); co.append(-r["b"] * f2)
        at = r["a"] * solid(p["c1"]) + r["b"] * solid(p["c2"])
        # energy of the products (grand potential when open) that gives the wanted reaction energy
        G = r["y"] / 1000 * at - sum(c * (g1 if e is E1 else g2) for e, c in zip(ents, co))
        zo = (2 * r["z"] - r["left"]) if op else 0     # atoms of the open element taken up
        if zo: G += zo / sum(ov) * EO.energy
        for i, q in enumerate(r["prods"]):
            cf = sum(q["n"]) / sum(q["v"])
            share = G if i == len(r["prods"]) - 1 else float(-(n % 5) - i)
            if i < len(r["prods"]) - 1: G -= share
            e = share / cf + (mu * q["v"][oi] if op else 0)
            ents.append(mk(q["v"], e, f"p{n}.{i}")); co.append(cf)
        if op:
            if zo: ents.append(EO); co.append(-zo / sum(ov))
            out.append(OpenComputedReaction(ents, co, {Element(op): mu}))
        else: out.append(ComputedReaction(ents, co))
    return E1, E2, out

def execute(p):
    import random
    rng = random.Random(p["seed"])
    elems, op, D = p["elems"], p["op"], p["D"]; oi = elems.index(op) if op else -1
    solid = lambda v: sum(x for k, x in enumerate(v) if k != oi)
    E1, E2, R = build(p)
    A, B = (E2, E1) if p["swap"] else (E1, E2)
    rows = []
    for r in p["rx"]:
        a1, a2 = r["a"] * solid(p["c1"]), r["b"] * solid(p["c2"])
        if p["swap"]: a1, a2 = a2, a1
        rows.append(dict(a1=a1, a2=a2, x=D * a2 // (a1 + a2), y=r["y"] * 100, gx=-1, eh=NO))
    h = dict(op="hull", D=D, rxns=rows, order=[], coords=[], stable=[], unstable=[], exc="")
    ev = [h]
    idx = lambda r: next((k for k, q in enumerate(R, 1) if q is r), 0 if r is H.endpoint_reactions[0] else -1 if r is H.endpoint_reactions[1] else -9)
    gx = lambda x: int(round(x * D)) if abs(x * D - round(x * D)) < 1e-6 else -1
    try:
        H = InterfaceReactionHull(A.composition * p["mult"], B.composition, list(R))
        h["order"] = [idx(r) for r in H.reactions]
        h["coords"] = [[gx(a), u(b)] for a, b in H.coords]
        h["stable"] = [idx(r) for r in H.stable_reactions]; h["unstable"] = [idx(r) for r in H.unstable_reactions]
        for row, r in zip(rows, R):
            row["gx"] = gx(H.get_coordinate(r)); e = H.get_energy_above_hull(r); row["eh"] = u(e) if e > -1e-9 else min(u(e), -1)
    except Exception as ex:
        h["exc"] = exc_name(ex); return {"params": p, "ev": ev}
    snap = lambda: (H.coords.tolist(), [idx(r) for r in H.reactions], [r.data for r in R], [float(c) for r in R for c in r.coefficients])
    s0 = snap()
    for x in rng.sample(range(D + 1), min(D + 1, 4)) + [rng.choice(rows)["x"]]:
        e = dict(op="at", x=x, y=0, mix=[], exc=""); ev.append(e)
        try:
            e["y"] = u(H.get_hull_energy(round(x / D, 12))); e["mix"] = [[idx(r), int(round(w * 10000))] for r, w in H.get_reactions_by_coordinate(round(x / D, 12)).items()]
        except Exception as ex: e["exc"] = exc_name(ex)
    for _ in range(3):
        x1, x2 = sorted(rng.sample(range(D + 1), 2)) if D > 1 and rng.random() < 0.6 else rng.choice([(0, D), (0, max(1, D // 2)), (D // 2, D)])
        if x1 == x2: continue
        e = dict(op="range", x1=x1, x2=x2, pts=[], mean=0, rec=NO, norec=NO, exc=""); ev.append(e)
        try:
            q = H.get_coords_in_range(round(x1 / D, 12), round(x2 / D, 12)); n = max(len(q) - 2, 0)
            e["pts"] = [[gx(a), u(b)] for a, b in q]; e["mean"] = u(H.get_decomposition_energy(round(x1 / D, 12), round(x2 / D, 12)) / H.count(n))
            if len(q) <= 11:
                v, m = H.get_decomposition_energy_and_num_paths_recursive(round(x1 / D, 12), round(x2 / D, 12)); e["rec"] = u(v / m)
        except Exception as ex: e["exc"] = exc_name(ex)
    ks = list(range(len(R))); rng.shuffle(ks)
    for k in ks[:8]:
        r = R[k]
        e = dict(op="comp", i=k + 1, prim=0, sec=0, eh=0, rec=NO, norec=NO, ratio=0, rratio=0, mx=0, area=NO, calcs=False, same=False, exc=""); ev.append(e)
        try:
            s = H.get_secondary_competition(r); p1 = H.get_primary_competition(r); eh = H.get_secondary_competition(r, include_e_hull=True); mx = H.get_secondary_competition_max_energy(r)
            e.update(prim=u(p1), sec=u(s), eh=u(eh), mx=u(mx))
            big = abs(s) > 1e-4
            rt = lambda v: max(-2000000000, min(2000000000, int(round(v / s)))) if big else 0
            e["ratio"] = rt(H.get_secondary_competition(r, normalize=False))
            x = round(rows[k]["x"] / D, 12)
            if max(len(H.get_coords_in_range(0, x)), len(H.get_coords_in_range(x, 1))) <= 10:
                e["rec"] = u(H.get_secondary_competition(r, recursive=True)); e["rratio"] = rt(H.get_secondary_competition(r, normalize=False, recursive=True))
            try: e["area"] = u(H.get_secondary_competition_area(r))
            except Exception: pass
            cs = [(PrimaryCompetitionCalculator, p1, "primary_competition"), (SecondaryCompetitionCalculator, s, "secondary_competition"), (SecondaryCompetitionWithEhullCalculator, eh, "secondary_competition_with_ehull"),
                  (SecondaryCompetitionMaxCalculator, mx, "secondary_competition_max")]
            ok = True
            for cl, v, nm in cs:
                ca = cl(H); d = ca.decorate(r)
                ok = ok and abs(ca.calculate(r) - v) < 1e-9 and abs(d.data[nm] - v) < 1e-9 and d is not r and d == r and ca.calculate_many([r, r]) == [v, v]
            e["calcs"] = bool(ok)
            e["same"] = snap() == s0
        except Exception as ex: e["exc"] = exc_name(ex)
    if p["wide"] or p["seed"] % 7 == 0:
        e = dict(op="count", mods=[], exc=""); ev.append(e)
        try: cts = [H.count(n) for n in range(0, 34)]; e["mods"] = [[m, [int(x) % m for x in cts]] for m in (46337, 46309)]
        except Exception as ex: e["exc"] = exc_name(ex)
    return {"params": p, "ev": ev}
def params(focus, n):
    rng = rng_for(focus)
    return [gen(rng) for _ in range(n)]
def _run(prop, n, rule):
    ck = Check(prop)
    ck.mc("MCInterfaceHull", "MCInterfaceHull.cfg" if scale(1, 0) else "MCInterfaceHullDeep.cfg")
    ck.judge("TraceInterfaceHull", run_cases(execute, params(prop, n)), only=(prop,))
    return ck.finish(rule)
RULE = "random interfaces of two precursors (closed and open), 1-30 reactions with exactly known mixing ratios and energies: random, convex, collinear, decompositions of the precursors, several reactions at one ratio; "
def c24(): return _run("C24", scale(1200, 8000), RULE + "hull vertices, energies above the hull, hull energies and reactions at any ratio")
def c25(): return _run("C25", scale(1200, 8000), RULE + "primary and secondary competition of every reaction in all variants, and the number of sequences for up to 33 vertices")
