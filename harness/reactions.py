"""Drivers for C01 (balancing), C02 (transformations), C03 (thermodynamics)."""
from __future__ import annotations
import itertools, math
from fractions import Fraction
from .common import Check, rat, rng_for, scale, run_cases, exc_name
from .chem import *

from pymatgen.core import Element
from pymatgen.entries.computed_entries import ComputedEntry, ConstantEnergyAdjustment
from rxn_network.core import Composition
from rxn_network.reactions.basic import BasicReaction
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction
from rxn_network.entries.interpolated import InterpolatedEntry

ELS = ["Li", "Mn", "O", "Cl", "Ba", "C", "Ti", "H"]

def comp_of(elems, v, mult=1):
    return Composition({e: n * mult for e, n in zip(elems, v) if n})

def kind_of(r):
    return {"BasicReaction": "basic", "ComputedReaction": "computed", "OpenComputedReaction": "open"}.get(type(r).__name__, type(r).__name__)

def proj(r, elems, en=None, maxden=4000, unit=1):
    mu = []
    if hasattr(r, "chempots"):
        mu = sorted([[elems.index(str(el)) + 1 if str(el) in elems else 0, rat(m / unit)] for el, m in r.chempots.items()])
    return {"comps": [vecx(c, elems) for c in r.compositions], "co": [rat(x, maxden) for x in r.coefficients],
            "en": en if en is not None else [], "kind": kind_of(r), "mu": mu}

# ------------------------------------------------------------------ C01
def mk_entries(elems, comps, ens=None, mults=None, unc=None, cls="interp", tag="e"):
    out = []
    for i, v in enumerate(comps):
        m = mults[i] if mults else 1
        c = comp_of(elems, v, m)
        E = ens[i] if ens else -1
        if cls == "interp":
            out.append(InterpolatedEntry(c, E, entry_id=f"{tag}{i}"))
        else:
            adj = [ConstantEnergyAdjustment(unc[i][0], uncertainty=unc[i][1], name="a")] if unc and unc[i] else []
            out.append(ComputedEntry(c, E, energy_adjustments=adj, entry_id=f"{tag}{i}"))
    return out

def do_balance(p):
    elems, re, pr, kind = p["elems"], p["re"], p["pr"], p["kind"]
    ev = {"op": "balance", "name": kind, "re": re, "pr": pr, "exc": "", "bal": False, "err": 0, "nc": 0, "rct": 0, "prd": 0,
          "out": {"comps": [], "co": [], "en": [], "kind": kind, "mu": []}, "fx": [], "sgn": [], "comps": []}
    try:
        if kind == "basic":
            r = BasicReaction.balance([comp_of(elems, v) for v in re], [comp_of(elems, v) for v in pr])
        elif kind == "formulas":
            r = BasicReaction.from_formulas([formula(elems, v) for v in re], [formula(elems, v) for v in pr])
        else:
            ms = p["mults"]
            ents = mk_entries(elems, re + pr, mults=ms)
            a, b = ents[:len(re)], ents[len(re):]
            if kind == "computed": r = ComputedReaction.balance(a, b)
            elif kind == "open0": r = OpenComputedReaction.balance(a, b, {})
            else: r = OpenComputedReaction.balance(a, b, {Element("O"): -1.0})
        cs = [vecx(c, elems) for c in r.compositions]
        co = [float(x) for x in r.coefficients]
        ev["bal"] = bool(r.balanced)
        ev["err"] = -1 if r.lowest_num_errors == float("inf") else int(r.lowest_num_errors)
        ev["nc"] = int(r.data["num_constraints"])
        ev["comps"] = cs
        ev["out"] = {"comps": cs, "co": [rat(x) for x in co], "en": [], "kind": kind, "mu": []}
        ev["fx"] = [max(-10**7, min(10**7, round(x * 1e4))) if math.isfinite(x) else 10**7 for x in co]
        ev["sgn"] = [0 if abs(x) < 1e-6 else (1 if x > 0 else -1) for x in co]
        ev["rct"], ev["prd"] = len(r.reactants), len(r.products)
    except Exception as e:
        ev["exc"] = exc_name(e)
    return {"params": p, "ev": [ev]}

def do_build(p):
    elems, comps, co = p["elems"], p["comps"], [fr(x) for x in p["co"]]
    ev = {"op": "build", "name": p["kind"], "exc": "", "bal": False, "ident": False,
          "rxn": {"comps": comps, "co": p["co"], "en": [], "kind": p["kind"], "mu": []}}
    try:
        f = [float(x) for x in co] if not p["ints"] else [int(x) for x in co]
        if p["kind"] == "basic": r = BasicReaction([comp_of(elems, v) for v in comps], f)
        else: r = ComputedReaction(mk_entries(elems, comps), f)
        ev["bal"] = bool(r.balanced); ev["ident"] = bool(r.is_identity)
    except Exception as e:
        ev["exc"] = exc_name(e)
    return {"params": p, "ev": [ev]}

def c01_params():
    rng = rng_for("C01")
    out = []
    # exhaustive: all reactions with <= 2 phases a side over a small binary system
    el2 = ["Mn", "O"]
    small = [[1, 0], [0, 2], [1, 1], [2, 1], [1, 2], [2, 3]]
    subs = [list(s) for k in (1, 2) for s in itertools.combinations(small, k)]
    for a in subs:
        for b in subs:
            if not any(x in b for x in a):
                out.append(dict(do="balance", elems=el2, re=a, pr=b, kind="basic"))
    # every textbook-size shape, solvable by construction, sides scrambled or wrong
    kinds = ["basic", "formulas", "computed", "open", "open0"]
    def add(elems, re, pr):
        if nullspace_guard(re + pr) is None or not re or not pr: return
        k = rng.choice(kinds)
        if k == "formulas" and any(formula(elems, v) == "" for v in re + pr): k = "basic"
        out.append(dict(do="balance", elems=elems, re=re, pr=pr, kind=k, mults=[rng.choice([1, 1, 2, 3, 4]) for _ in re + pr]))
    for _ in range(scale(900, 6000)):
        ne = rng.randint(2, 5)
        elems = rng.sample(ELS, ne)
        r = random_reaction(rng, elems, maxcoef=60, maxamt=4, maxel=4, kmax=6)
        if not r: continue
        cs, v = r
        re = [c for c, x in zip(cs, v) if x < 0]; pr = [c for c, x in zip(cs, v) if x > 0]
        rng.shuffle(re); rng.shuffle(pr)
        add(elems, re, pr)
        # one phase on the wrong side
        if len(re) > 1 and rng.random() < 0.5:
            add(elems, re[1:], pr + re[:1])
        # a spectator that cannot take part
        if rng.random() < 0.4:
            ex = random_comps(rng, elems, 1, 4, 4, seen=cs)
            if ex: add(elems, re + ex, pr) if rng.random() < 0.5 else add(elems, re, pr + ex)
    for _ in range(scale(500, 4000)):  # arbitrary, usually unsolvable or under-determined
        elems = rng.sample(ELS, rng.randint(1, 5))
        cs = random_comps(rng, elems, rng.randint(2, 7), 4, 4)
        if len(cs) < 2: continue
        k = rng.randint(1, len(cs) - 1)
        add(elems, cs[:k], cs[k:])
    for _ in range(scale(300, 2000)):  # explicit coefficients
        elems = rng.sample(ELS, rng.randint(2, 5))
        r = random_reaction(rng, elems)
        if not r: continue
        cs, v = r
        den = rng.choice([1, 1, 2, 3, 4])
        co = [Fraction(x, den) for x in v]
        mode = rng.randrange(4)
        if mode == 0: co[rng.randrange(len(co))] += Fraction(rng.choice([-1, 1]), rng.choice([1, 2, 10, 100]))
        if mode == 1: co = [-x for x in co]
        if mode == 2 and rng.random() < 0.5:
            j = rng.randrange(len(co)); co[j] = -co[j]
        if any(x == 0 for x in co): continue
        out.append(dict(do="build", elems=elems, comps=cs, co=[q(x) for x in co], kind=rng.choice(["basic", "computed"]),
                        ints=all(x.denominator == 1 for x in co) and rng.random() < 0.7))
    for _ in range(scale(30, 100)):  # identities
        elems = rng.sample(ELS, 3)
        cs = random_comps(rng, elems, 2)
        if len(cs) == 2:
            out.append(dict(do="build", elems=elems, comps=cs + cs, co=[[-1, 1], [-2, 1], [1, 1], [2, 1]], kind="basic", ints=False))
    return out

def c01_exec(p): return do_balance(p) if p["do"] == "balance" else do_build(p)

def c01():
    ck = Check("C01")
    ck.mc("MCBalance", "MCBalance.cfg")
    ck.judge("TraceReaction", run_cases(c01_exec, c01_params()))
    return ck.finish("exhaustive <=2x2 reactions over 6 binary phases, plus random reactions over 2-5 elements and 2-7 phases "
                     "(solvable by construction, wrong-sided, with spectators, unsolvable, under-determined), for every way of "
                     "constructing a reaction; distinct = distinct recorded events")

# ------------------------------------------------------------------ C02
FACTORS = [Fraction(1), Fraction(2), Fraction(1, 2), Fraction(3), Fraction(5, 2)]
def build_reaction(p):
    elems, comps = p["elems"], p["comps"]
    co = [float(fr(x)) for x in p["co"]]
    if p.get("ints"): co = [int(x) for x in co]
    if p["kind"] == "basic":
        return BasicReaction([comp_of(elems, v) for v in comps], co), []
    U = p.get("unit", 1)
    ents = mk_entries(elems, comps, [x * U for x in p["ens"]], p["mults"], [[x * U for x in u] if u else None for u in p["unc"]] if p.get("unc") else None, p.get("ecls", "interp"))
    en = [q(Fraction(E + (u[0] if u else 0), m)) for E, m, u in zip(p["ens"], p["mults"], p.get("unc") or [None] * len(comps))]
    if p["kind"] == "computed":
        return ComputedReaction(ents, co), en
    return OpenComputedReaction(ents, co, {Element(elems[i - 1]): float(fr(m)) * U for i, m in p["mu"]}), en

def do_xform(p):
    elems = p["elems"]
    evs = []
    r, en = build_reaction(p)
    U = p.get("unit", 1)
    rec = proj(r, elems, en, unit=U); rec["comps"] = p["comps"]; rec["co"] = p["co"]; rec["kind"] = p["kind"]; rec["mu"] = p["mu"]
    evs.append({"op": "start", "rxn": rec})
    for o in p["ops"]:
        ev = {"op": "xform", "name": o["name"], "exc": "", "comp": o.get("comp", []), "factor": o.get("factor", [1, 1]), "el": o.get("el", 0),
              "out": rec, "after": rec, "bal": False, "energy": [0, 0]}
        try:
            f = fr(o["factor"]) if "factor" in o else None
            kw = {} if f is None or (f == 1 and o.get("dflt")) else {"factor": float(f)}
            if o["name"] == "copy": n = r.copy()
            elif o["name"] == "reverse": n = r.reverse()
            elif o["name"] == "normalize_to": n = r.normalize_to(comp_of(elems, o["comp"]), **kw)
            elif o["name"] == "normalize_to_element": n = r.normalize_to_element(Element(elems[o["el"] - 1]), **kw)
            elif o["name"] == "string": n = BasicReaction.from_string(str(r))
            ev["out"] = proj(n, elems, en, unit=U); ev["after"] = proj(r, elems, en, unit=U)
            ev["bal"] = bool(n.balanced)
            if p["kind"] != "basic": ev["energy"] = rat(n.energy / U)
            evs.append(ev)
            r = n
        except Exception as e:
            ev["exc"] = exc_name(e)
            evs.append(ev); break
    return {"params": p, "ev": evs}

def do_eq(p):
    elems = p["elems"]
    a, ena = build_reaction(p["a"]); b, enb = build_reaction(p["b"])
    pa = dict(comps=p["a"]["comps"], co=p["a"]["co"], en=ena, kind=p["a"]["kind"], mu=p["a"]["mu"])
    pb = dict(comps=p["b"]["comps"], co=p["b"]["co"], en=enb, kind=p["b"]["kind"], mu=p["b"]["mu"])
    ev = {"op": "eq", "name": p["what"], "a": pa, "b": pb, "exc": "", "eq": False, "qe": False, "hash": False}
    try:
        ev["eq"] = bool(a == b); ev["qe"] = bool(b == a); ev["hash"] = hash(a) == hash(b)
    except Exception as e:
        ev["exc"] = exc_name(e)
    return {"params": p, "ev": [ev]}

GASF = ["O2", "CO2", "H2O", "CO", "HCl", "H2", "H4C", "Ar", "BH3", "Br", "CS2", "H2C", "H2N", "H2S", "H3N", "H5C2", "H8C3", "N2", "N2O", "NO", "SO2", "SiH4", "SF6"]
def do_sep(p):
    elems = p["elems"]
    r, en = build_reaction(p)
    gases = []
    for g in GASF:
        c = Composition(g)
        if all(str(e) in elems for e in c.elements): gases.append(vec(c, elems))
    ev = {"op": "sep", "exc": "", "rxn": dict(comps=p["comps"], co=p["co"], en=en, kind=p["kind"], mu=p["mu"]), "target": p["target"],
          "gases": gases, "sep": False}
    try:
        t = comp_of(elems, [x * p["tm"] for x in p["target"]])
        ev["sep"] = bool(r.is_separable(t if p["tm"] > 1 else formula(elems, p["target"])))
    except Exception as e:
        ev["exc"] = exc_name(e)
    return {"params": p, "ev": [ev]}

def rand_params(rng, kind, elems=None, maxcoef=12, open_ok=True, **kw):
    elems = elems or rng.sample(ELS, rng.randint(2, 5))
    if kind == "open" and "O" not in elems: elems[0] = "O"
    r = random_reaction(rng, elems, maxcoef=maxcoef, **kw)
    if not r: return None
    cs, v = r
    perm = list(range(len(cs))); rng.shuffle(perm)
    if rng.random() < 0.5: cs = [cs[i] for i in perm]; v = [v[i] for i in perm]
    den = rng.choice([1, 1, 2, 3, 4])
    p = dict(elems=elems, comps=cs, co=[q(Fraction(x, den)) for x in v], kind=kind, ints=den == 1 and rng.random() < 0.3,
             unit=rng.choice([1, 1, 0.1, 0.01, 0.37]), ens=[rng.randint(-20, 5) for _ in cs], mults=[rng.choice([1, 1, 2, 3]) for _ in cs], mu=[], ecls="interp")
    if kind == "open":
        k = [elems.index("O") + 1]
        if len(elems) > 2 and rng.random() < 0.35: k.append(rng.choice([i + 1 for i in range(len(elems)) if elems[i] != "O"]))
        p["mu"] = sorted([i, q(Fraction(rng.randint(-12, 2), rng.choice([1, 2])))] for i in k)
        nonopen = [i for i in range(len(elems)) if i + 1 not in k]
        if not any(x > 0 and any(c[i] for i in nonopen) for c, x in zip(cs, v)): return None
    return p

def c02_params():
    rng = rng_for("C02"); out = []
    for _ in range(scale(700, 5000)):
        kind = rng.choice(["basic", "computed", "open"])
        p = rand_params(rng, kind)
        if not p: continue
        ops = []
        for _ in range(rng.randint(1, 5)):
            n = rng.choice(["copy", "reverse", "normalize_to", "normalize_to_element"] + (["string"] if kind == "basic" else []))
            o = dict(name=n)
            if n == "normalize_to": o.update(comp=rng.choice(p["comps"]), factor=q(rng.choice(FACTORS)), dflt=rng.random() < 0.5)
            if n == "normalize_to_element":
                present = [i + 1 for i in range(len(p["elems"])) if any(c[i] for c in p["comps"])]
                o.update(el=rng.choice(present), factor=q(rng.choice(FACTORS)), dflt=rng.random() < 0.5)
            ops.append(o)
        # strings carry four significant digits: only use them on integer coefficients
        if any(o["name"] == "string" for o in ops):
            big = rng.choice([1, 1, 7, 100, 1000, 10000])
            if any(o["name"].startswith("norm") for o in ops): ops = [o for o in ops if not o["name"].startswith("norm")]
            p["co"] = [q(fr(x) * 12 * big) for x in p["co"]]
            if any(abs(x[0]) > 9999 and abs(x[0]) % 10000 or abs(x[0]) > 10**6 for x in p["co"]): continue
            p["ints"] = False
        if kind == "basic" and rng.random() < 0.25 and not any(o["name"] == "string" for o in ops):
            j = rng.randrange(len(p["co"])); p["co"][j] = q(fr(p["co"][j]) * rng.choice([Fraction(3, 2), 2, Fraction(1, 4)])); p["ints"] = False   # not balanced
        p.update(do="xform", ops=ops); out.append(p)
    for _ in range(scale(500, 4000)):
        kind = rng.choice(["basic", "computed", "open"])
        a = rand_params(rng, kind)
        if not a: continue
        b = {k: (list(v) if isinstance(v, list) else v) for k, v in a.items()}
        a["ints"] = b["ints"] = False
        n = len(a["comps"])
        what = rng.choice(["same", "perm", "scale", "swapco", "energy", "reverse", "drop", "tweak", "replace"])
        if what == "perm":
            idx = list(range(n)); rng.shuffle(idx)
            for k in ("comps", "co", "ens", "mults"): b[k] = [a[k][i] for i in idx]
        elif what == "scale": b["co"] = [q(fr(x) * 2) for x in a["co"]]
        elif what == "swapco":
            same = [(i, j) for i in range(n) for j in range(n) if i < j and (a["co"][i][0] < 0) == (a["co"][j][0] < 0) and a["co"][i] != a["co"][j]]
            if not same: continue
            i, j = rng.choice(same); co = list(a["co"]); co[i], co[j] = co[j], co[i]; b["co"] = co
        elif what == "energy": b["ens"] = [x + 1 if i == 0 else x for i, x in enumerate(a["ens"])]
        elif what == "reverse": b["co"] = [[-x[0], x[1]] for x in a["co"]]
        elif what == "drop":
            for k in ("comps", "co", "ens", "mults"): b[k] = a[k][:-1]
            if not any(x[0] > 0 for x in b["co"]): continue
        elif what == "tweak": b["co"] = [q(fr(x) + Fraction(1, 8)) if i == 0 else x for i, x in enumerate(a["co"])]
        elif what == "replace":
            ex = random_comps(rng, a["elems"], 1, seen=a["comps"])
            if not ex: continue
            b["comps"] = ex + a["comps"][1:]
        nonopen = [i for i in range(len(a["elems"])) if i + 1 not in [m[0] for m in a["mu"]]]
        if any(x[0] == 0 for x in b["co"]) or not all(any(x[0] > 0 and any(c[i] for i in nonopen) for c, x in zip(z["comps"], z["co"])) for z in (a, b)):
            continue
        out.append(dict(do="eq", elems=a["elems"], a=a, b=b, what=what))
    for _ in range(scale(250, 1500)):
        elems = rng.sample(["Ba", "Ti", "Li"], rng.randint(1, 3)) + ["C", "O", "H", "Cl"][: rng.randint(2, 4)]
        pool = [v for v in ([vec(Composition(g), elems) if all(str(e) in elems for e in Composition(g).elements) else None for g in GASF]) if v]
        cs = random_comps(rng, elems, rng.randint(1, 3), seen=pool) + rng.sample(pool, min(len(pool), rng.randint(0, 2)))
        if len(cs) < 2: continue
        rng.shuffle(cs)
        co = [q(rng.choice([-2, -1, 1, 1, 2])) for _ in cs]
        if not any(x[0] > 0 for x in co) or not any(x[0] < 0 for x in co): continue
        out.append(dict(do="sep", elems=elems, comps=cs, co=co, kind=(sk := rng.choice(["basic", "computed", "open"])),
                        mu=[[elems.index("O") + 1, [-1, 1]]] if sk == "open" else [], ens=[-1] * len(cs),
                        mults=[1] * len(cs), target=rng.choice(cs), tm=rng.choice([1, 1, 2])))
    return out

def c02_exec(p): return {"xform": do_xform, "eq": do_eq, "sep": do_sep}[p["do"]](p)

def c02():
    ck = Check("C02")
    ck.mc("MCReaction", "MCReaction.cfg")
    ck.judge("TraceReaction", run_cases(c02_exec, c02_params()))
    return ck.finish("random reactions (basic, computed, open to one or two elements) under sequences of up to 5 transformations, "
                     "pairs of equal and nearly equal reactions, and separability questions")

# ------------------------------------------------------------------ C03
def do_thermo(p):
    elems = p["elems"]
    r, en = build_reaction(p)
    ev = {"op": "thermo", "name": p["kind"], "exc": "", "rxn": dict(comps=p["comps"], co=p["co"], en=en, kind=p["kind"], mu=p["mu"]),
          "hasunc": bool(p.get("unc")), "us": [q(Fraction(u[1] if u else 0, m)) for u, m in zip(p.get("unc") or [None] * len(en), p["mults"])]}
    try:
        U = p.get("unit", 1)
        ev["energy"] = rat(r.energy / U); ev["epa"] = rat(r.energy_per_atom / U, 40000); ev["natoms"] = rat(r.num_atoms)
        F = lambda d: [[vecx(c, elems), rat(x, 40000)] for c, x in d.items()]
        ev["raf"], ev["paf"] = F(r.reactant_atomic_fractions), F(r.product_atomic_fractions)
        ev["rmf"], ev["pmf"] = F(r.reactant_molar_fractions), F(r.product_molar_fractions)
        ev["elam"] = [rat(r.get_el_amount(Element(e))) for e in elems]
        ev["renergy"] = rat(r.reverse().energy / U)
        ev["energy2"] = rat(r.energy / U)
        ev["unc2"] = rat((float(r.energy_uncertainty) / U) ** 2, 20000)
    except Exception as e:
        ev["exc"] = exc_name(e)
    return {"params": p, "ev": [ev]}

def c03_params():
    rng = rng_for("C03"); out = []
    for _ in range(scale(1200, 8000)):
        p = rand_params(rng, rng.choice(["computed", "open"]), maxcoef=9)
        if not p: continue
        if rng.random() < 0.5:
            p["ecls"] = "computed"
            p["unc"] = [[rng.choice([-3, -2, -1, 1, 2, 3]), rng.randint(0, 4)] if rng.random() < 0.7 else None for _ in p["comps"]]
        out.append(p)
    return out

def c03():
    ck = Check("C03")
    ck.mc("MCReaction", "MCReaction.cfg")
    ck.judge("TraceReaction", run_cases(do_thermo, c03_params()))
    return ck.finish("random balanced reactions over 2-5 elements with entries of 1-3 formula units, integer energies, energy "
                     "adjustments with uncertainties, closed or open to one or two elements with rational chemical potentials")
