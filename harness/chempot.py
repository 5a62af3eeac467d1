"""Driver for chemical potential diagrams (C29)."""
from __future__ import annotations
import warnings
import numpy as np
from .common import Check, rng_for, scale, run_cases, exc_name
from .chem import *
from .fakes import LinEntry
from pymatgen.core import Element
from rxn_network.core import Composition
from rxn_network.costs.calculators import ChempotDistanceCalculator
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction
from rxn_network.thermo.chempot_diagram import ChemicalPotentialDiagram
ELS = ["Li", "Mn", "Cl", "Ba", "Ti", "Y", "S"]
T0 = 300

def gen(rng):
    d = rng.choice([2, 2, 3, 3, 3]); elems = rng.sample(ELS, d); op = "O" if rng.random() < 0.35 else None
    full = elems + ([op] if op else []); u = []
    zero = rng.random() < 0.6
    for i in range(d):
        v = reduce_vec(full, [int(j == i) for j in range(len(full))])
        e = 0 if zero else -10 * rng.randint(0, 300) * sum(v)
        for k in range(rng.choice([1, 1, 1, 2])): u.append(dict(c=v, m=rng.choice([1, 1, 2]), e=e + 10 * k * rng.randint(0, 60)))
    if op: u.append(dict(c=[0] * d + [2], m=1, e=0))
    base = {i: min(x["e"] / sum(x["c"]) for x in u if x["c"][i] and sum(1 for a in x["c"] if a) == 1) for i in range(d)}
    for v in random_comps(rng, full, rng.randint(1, 7 - d + (1 if op else 0)), 3, min(3, len(full))):
        if sum(1 for x in v if x) < 2: continue
        ref = sum(v[i] * base[i] for i in range(d))
        for _ in range(rng.choice([1, 1, 1, 2])):
            f = rng.choice([-1, -1, -1, 0, 0.1]) * sum(v)
            # multiples of 10 meV; sometimes exactly that of a mixture of the elements
            u.append(dict(c=v, m=rng.choice([1, 1, 1, 2]), e=int(round((ref + f * rng.randint(1, 250) * 10) / 10) * 10) if f else int(ref)))
    mu = -10 * rng.randint(0, 250) if op else 0
    lims = []
    if rng.random() < 0.35:
        for el in rng.sample(elems, rng.randint(1, d)):
            lims.append([el, -1000 * rng.choice([20, 25, 40]), 0])
    ops = []
    for _ in range(rng.randint(5, 13)):
        ops.append(dict(op=rng.choice(["dist"] * 4 + ["offset", "offset", "metas", "meta", "domains", "fail", "odd", "calc"]), a=rng.randrange(10**6), b=rng.randrange(10**6), off=rng.choice([0, 0, 0, 125, 1000]),
                        agg=rng.choice(["sum", "max", "mean", "min"]), n=rng.choice([2, 3, 4, 4, 6]), s=rng.randrange(64)))
    return dict(elems=elems, op=op, mu=mu, u=u, lims=lims, lo=rng.choice([100, 100, 100, 50, 20]), stale=rng.random() < 0.15, hulls=rng.random() < 0.25, form=rng.choice(["list", "set", "gibbs"]), ops=ops)

def mev(x): return int(round(float(x) * 1000))
def u5(x): return int(round(float(x) * 1e5))
def pts(a): return [[mev(x) for x in r] for r in np.atleast_2d(a)]
def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape: return False
    k = lambda m: m[np.lexsort(np.round(m, 5).T)]
    return bool(np.allclose(k(np.atleast_2d(a)), k(np.atleast_2d(b)), rtol=0, atol=1e-6))

def execute(p):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return run(p)
def run(p):
    elems, op, mu = p["elems"], p["op"], p["mu"]; d = len(elems); full = elems + ([op] if op else [])
    order = sorted(range(d), key=lambda i: Element(elems[i]))  # the axes of the diagram
    E = [LinEntry(Composition({k: x * u["m"] for k, x in zip(full, u["c"]) if x}), {T0: u["e"] * u["m"] / 1000}, T0, f"e{i}", data={}) for i, u in enumerate(p["u"])]
    if p["hulls"] and not op: GibbsEntrySet(E, calculate_e_above_hulls=True)
    keep = [i for i, u in enumerate(p["u"]) if any(u["c"][:d])]
    G = {i: (E[i].to_grand_entry({Element(op): mu / 1000}) if op else E[i]) for i in keep}
    C = [[p["u"][i]["c"][k] for k in order] for i in keep]
    en = [p["u"][i]["e"] - (mu * p["u"][i]["c"][d] if op else 0) for i in keep]
    names = [G[i].composition.reduced_formula for i in keep]; forms = sorted(set(names)); num = {f: k + 1 for k, f in enumerate(forms)}
    at = [sum(c) for c in C]
    stale = []
    if p["stale"] and not op:
        for f in forms[::3]:
            if sum(1 for k in set(range(len(keep))) for c in [C[k]] if names[k] == f and sum(1 for x in c if x) > 1):
                stale.append(num[f])
                for k, i in enumerate(keep):
                    if names[k] == f: E[i].data["e_above_hull"] = [0.0, 0.02, 0.5][i % 3]
    lo = -float(p["lo"]); lims = {Element(a): (b / 1000, c / 1000) for a, b, c in p["lims"]}
    given = lims or None
    kw = {} if p["lo"] == 100 else {"default_min_limit": lo}
    if given: kw["limits"] = given
    L = [[-1000 * p["lo"], 0] for _ in range(d)]
    for a, b, c in p["lims"]: L[order.index(elems.index(a))] = [b, c]
    entries = [G[i] for i in keep]
    before = [(e.energy, e.composition, dict(getattr(e, "data", None) or {})) for e in entries]
    untouched = lambda: before == [(e.energy, e.composition, dict(getattr(e, "data", None) or {})) for e in entries] and len(entries) == len(before) and (not given or lims == {Element(a): (b / 1000, c / 1000) for a, b, c in p["lims"]})
    def new():
        a = entries if p["form"] == "list" else GibbsEntrySet(entries) if p["form"] == "gibbs" else set(entries)
        return ChemicalPotentialDiagram(a, **kw)
    ev = [dict(op="world", C=C, E=en, f=[num[n] for n in names], at=at, lims=L, free=not given, stale=stale)]
    memo = {}
    def fresh(key, q):
        if key not in memo:
            try: memo[key] = (q(new()), None)
            except Exception as ex: memo[key] = (None, type(ex))
        return memo[key]
    try: D = new()
    except Exception as ex:
        ev.append(dict(op="domains", dom=[], same=True, input=True, exc=exc_name(ex))); return {"params": p, "ev": ev}
    def ask(e, key, q, put, eq):
        """the answer of the diagram that has answered before, and of one made for this question"""
        e.update(same=False, input=False, exc=""); ev.append(e)
        want, wx = fresh(key, q)
        try:
            r = q(D); put(e, r); e["same"] = wx is None and eq(r, want)
        except Exception as ex: e["exc"] = exc_name(ex); e["same"] = wx is type(ex)
        e["input"] = untouched()
    domeq = lambda a, b: set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    table = lambda r: [dict(f=num[k], pts=pts(v)) for k, v in r.items()]
    def dom(cp, f): return cp.domains[f] if f in cp.domains else cp._get_metastable_domain(f)
    close = lambda a, b: abs(float(a) - float(b)) < 1e-6
    pairs = {}
    def dist(a, b):
        return fresh(("dist", a, b), lambda cp: cp.shortest_domain_distance(a, b))
    ask(dict(op="domains", dom=[]), ("domains",), lambda cp: cp.domains, lambda e, r: e.update(dom=table(r)), domeq)
    if ev[-1]["exc"]: return {"params": p, "ev": ev}
    has = sorted(x["f"] for x in ev[-1]["dom"])
    for o in p["ops"]:
        k = o["op"]; f1 = forms[o["a"] % len(forms)]; f2 = forms[o["b"] % len(forms)]
        if k == "domains": ask(dict(op=k, dom=[]), ("domains",), lambda cp: cp.domains, lambda e, r: e.update(dom=table(r)), domeq)
        elif k == "metas":
            if stale: continue
            ask(dict(op=k, dom=[], has=has), ("metas",), lambda cp: cp.metastable_domains, lambda e, r: e.update(dom=table(r)), domeq)
        elif k == "meta":
            m = [f for f in forms if num[f] not in has and num[f] not in stale]
            if not m: continue
            f = m[o["a"] % len(m)]
            ask(dict(op=k, f=num[f], pts=[]), ("meta", f), lambda cp: cp.metastable_domains[f] if not stale else dom(cp, f), lambda e, r: e.update(pts=pts(r)), same)
        elif k == "dist":
            off = o["off"] / 1000
            a, _ = fresh(("dom", f1), lambda cp: dom(cp, f1)); b, _ = fresh(("dom", f2), lambda cp: dom(cp, f2))
            r, _ = dist(f2, f1)
            e = dict(op=k, f1=num[f1], f2=num[f2], off=o["off"], a=[] if a is None else pts(a), b=[] if b is None else pts(b), got=0, rev=0, got5=0,
                     touch=a is not None and b is not None and bool({tuple(round(float(x), 5) + 0.0 for x in q) for q in a} & {tuple(round(float(x), 5) + 0.0 for x in q) for q in b}))
            ask(e, ("dist", f1, f2, off), lambda cp: cp.shortest_domain_distance(f1, f2, offset=off) if off else cp.shortest_domain_distance(f1, f2),
                lambda e, x: e.update(got=mev(x), got5=u5(x), rev=-10**6 if r is None else mev(r + off)), close)
        elif k == "offset":
            i = o["a"] % len(keep); x = G[keep[i]]
            ask(dict(op=k, i=i + 1, got=0, zero=False), ("offset", i), lambda cp: cp.get_offset(x), lambda e, r: e.update(got=mev(r), zero=bool(abs(r) < 1e-8)), close)
        elif k == "fail":
            e = dict(op=k, same=True, input=False, exc=""); ev.append(e)
            f = ["Xe2F", "PuO7", "", "Xe"][o["s"] % 4]
            try: [lambda: D.shortest_domain_distance(f1, f), lambda: D.shortest_domain_distance(f, f1), lambda: D.get_offset(LinEntry(Composition("PuI9"), {T0: 1.0}, T0, "z"))][o["a"] % 3]()
            except Exception as ex: e["exc"] = exc_name(ex)
            e["input"] = untouched()
        elif k == "odd":
            c = Composition(f1); f = Composition({x: 2 * y for x, y in c.items()}).formula.replace(" ", "")
            try: D.shortest_domain_distance(f, f2)
            except Exception: pass
        else:
            ix = sorted({(o["a"] + 7 * j * (o["b"] % 5 + 1)) % len(keep) for j in range(o["n"])})
            if len(ix) < 2 or any(num[names[i]] in stale for i in ix): continue
            sg = [(-1 if (o["s"] >> j) & 1 else 1) for j in range(len(ix))]
            if 1 not in sg: sg[0] = 1
            if -1 not in sg: sg[0] = -1
            R = [i for i, s in zip(ix, sg) if s < 0]; P = [i for i, s in zip(ix, sg) if s > 0]
            co = [(i, j) for i in R for j in P] + [(P[a], P[b]) for a in range(len(P)) for b in range(a + 1, len(P))]
            vals = []
            for i, j in co:
                x = dist(names[i], names[j]); y = fresh(("offset", i), lambda cp: cp.get_offset(G[keep[i]])); z = fresh(("offset", j), lambda cp: cp.get_offset(G[keep[j]]))
                vals.append(None if None in (x[0], y[0], z[0]) else x[0] + y[0] + z[0])
            if not vals or None in vals: continue
            es = [E[keep[i]] for i in ix]; co_ = [float(s) for s in sg]
            if op:
                es.append(E[[i for i, u in enumerate(p["u"]) if not any(u["c"][:d])][0]]); co_.append([-1.0, 1.0][o["s"] % 2])
                rx = OpenComputedReaction(es, co_, {Element(op): mu / 1000})
            else: rx = ComputedReaction(es, co_)
            agg = o["agg"]; fn = {"min": min}.get(agg, agg)
            ask(dict(op=k, agg=agg, pairs=[u5(v) for v in vals], got=0), ("calc", tuple(ix), tuple(sg), agg), lambda cp: ChempotDistanceCalculator(cp, fn).calculate(rx), lambda e, r: e.update(got=u5(r)), close)
    return {"params": p, "ev": ev}
def params(focus, n):
    rng = rng_for(focus)
    return [gen(rng) for _ in range(n)]
def c29():
    ck = Check("C29")
    ck.mc("MCChemPot", scale("MCChemPot.cfg", "MCChemPotDeep.cfg"))
    ck.judge("TraceChemPot", run_cases(execute, params("C29", scale(2000, 20000))))
    return ck.finish("random two- and three-element diagrams (with and without an open element, limits, polymorphs, phases exactly on the hull, stored energies above the hull) asked for domains, metastable domains, distances, offsets and reaction distances in random order, failing questions included")
