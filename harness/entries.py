"""Drivers for entries: C22 (temperatures), C23 (building entry sets from computed entries)."""
from __future__ import annotations
import copy, math, json, warnings
from fractions import Fraction
from monty.json import MontyDecoder, MontyEncoder
from monty.serialization import loadfn
from pymatgen.core import Lattice, Structure, Element
from pymatgen.entries.computed_entries import ComputedStructureEntry, ConstantEnergyAdjustment, TemperatureEnergyAdjustment
from .common import Check, rat, rng_for, scale, run_cases, exc_name
from .chem import *
from rxn_network.core import Composition
from rxn_network.data import G_ELEMS, PATH_TO_NIST
from rxn_network.entries.corrections import CarbonateCorrection, CarbonDioxideAtmosphericCorrection
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.entries.freed import FREEDReferenceEntry
from rxn_network.entries.gibbs import GibbsComputedEntry
from rxn_network.entries.interpolated import InterpolatedEntry
from rxn_network.entries.nist import NISTReferenceEntry
from rxn_network.entries.utils import process_entries
from rxn_network.reactions.computed import ComputedReaction

CLS = {"nist": NISTReferenceEntry, "freed": FREEDReferenceEntry}
IGNORED = set(loadfn(PATH_TO_NIST / "ignore_solids.json"))
ELS = ["Li", "Na", "K", "Mg", "Ca", "Ba", "Mn", "Fe", "Ti", "O", "C", "Cl", "H", "S"]
_F = {}
def formulas(cl):
    if cl not in _F:
        out = []
        for f in CLS[cl].REFERENCES:
            try:
                c = Composition(f)
                if c.reduced_formula == f and all(str(e) in ELS for e in c.elements) and c.num_atoms <= 12: out.append(f)
            except Exception: pass
        _F[cl] = sorted(out)
    return _F[cl]
def mev(x): return int(round(float(x) * 1e6))

# ------------------------------------------------------------ C22
TS = [300, 350, 400, 498, 500, 777, 1000, 1001, 1250, 1499, 1500, 1950, 2000, 2050, 250, 298, 300.4, 500.3, 799.7, 1000.5, 1500.2, 1899.9, 299.9, 2000.3]
def dk(T): return int(round(float(T) * 10))   # tenths of a kelvin
def gen22(rng):
    k = rng.choice(["gibbs", "gibbs", "nist", "freed", "interp", "nist"])
    adj = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        z = rng.choice(["const", "carb", "co2", "deg"])
        adj.append(dict(k=z, v=rng.choice([-300000, 125000, 500000]) if z == "const" else rng.randint(1, 4) if z != "deg" else rng.choice([-30, 20, 150])))
    ops = [dict(o=rng.choice(["temp"] * 6 + ["set", "rxn", "copy", "json", "dict", "own", "cmp", "cmp"]), what=rng.choice(["same", "T", "adj", "adj", "energy", "id", "kind"]), d=rng.choice([-1, 1]) * rng.choice([2000, 20000, 45000]), T=rng.choice(TS), fl=rng.random() < 0.2) for _ in range(rng.randint(3, 8))]
    p = dict(k=k, adj=adj, ops=ops, m=rng.choice([1, 1, 2, 3]), T=rng.choice([300, 400, 500, 777, 1000, 1250, 1500, 2000, 600.5, 1400.1]))
    if k in CLS:
        p["f"] = rng.choice(formulas(k)) if rng.random() < 0.93 or k == "freed" else "NaCO3"
        tab = CLS[k].REFERENCES.get(p["f"], {300.0: 0, 2000.0: 0})
        if not min(tab) <= p["T"] <= max(tab): p["T"] = int(min(tab))
    else:
        p["elems"] = rng.sample(["Li", "Mn", "O", "Ba", "C", "Ti", "Fe"], rng.randint(1, 4))
        p["v"] = [rng.randint(1, 4) for _ in p["elems"]]
        p["ef"] = rng.randint(-40, 3); p["vol"] = rng.uniform(6, 30)
    return p

def adjs(p, T):
    out = []
    for a in p["adj"]:
        if a["k"] == "const": out.append(ConstantEnergyAdjustment(a["v"] / 1e6, uncertainty=0.01, name="manual"))
        elif a["k"] == "carb": out.append(CarbonateCorrection(a["v"]))
        elif a["k"] == "co2": out.append(CarbonDioxideAtmosphericCorrection(3 * a["v"], T))
        else: out.append(TemperatureEnergyAdjustment(a["v"] / 1e6, T, 1, uncertainty_per_deg=0.0, name="per degree"))
    return out
def descriptor(c, v, T):
    """energy per atom predicted at temperature T (Bartel et al. 2018, eq. 4 and 6)"""
    r = [(float(el.atomic_mass), float(x)) for el, x in c.reduced_composition.items()]
    if len(r) == 1: return 0.0
    N = sum(x for _, x in r)
    m = sum((a + b) * mi * mj / (mi + mj) for i, (mi, a) in enumerate(r) for mj, b in r[:i]) / ((len(r) - 1) * N)
    return (-2.48e-4 * math.log(v) - 8.94e-5 * m / v) * T + 0.181 * math.log(T) - 0.882
DATA = {"theoretical": False, "temp": 1, "temperature": 2.5, "energy": 7, "name": "x", "nested": {"temp": [1, 2]}, "value": None}
def build22(p, T, with_adj=True):
    A = adjs(p, T) if with_adj else []
    if p["k"] in CLS: return CLS[p["k"]](Composition(p["f"]) * p["m"], T, energy_adjustments=A)
    c = Composition({e: n * p["m"] for e, n in zip(p["elems"], p["v"])})
    if p["k"] == "gibbs": return GibbsComputedEntry(c, p["ef"] / 10, p["vol"], T, energy_adjustments=A or None, entry_id="mp-1", parameters={"run_type": "GGA"}, data=dict(DATA))
    return InterpolatedEntry(c, p["ef"] / 10 * c.num_atoms, energy_adjustments=A, entry_id="interp-1")
def obs22(e, p, comp, T):
    T2 = getattr(e, "temperature", 0)
    A = [a for a in e.energy_adjustments if a.name != "Gibbs SISSO Correction"]
    n = sum(1 for a in e.energy_adjustments if a.name == "Gibbs SISSO Correction")
    nm = {"NISTReferenceEntry": "nist", "FREEDReferenceEntry": "freed", "GibbsComputedEntry": "gibbs", "InterpolatedEntry": "interp"}.get(type(e).__name__, "?")
    idok = e.entry_id == {"gibbs": "mp-1", "interp": "interp-1"}.get(p["k"], e.entry_id) and e.data.get("theoretical", False) is False
    if p["k"] == "gibbs": idok = idok and e.parameters == {"run_type": "GGA"} and n == 1 and {k: v for k, v in e.data.items() if k != "e_above_hull"} == DATA
    return dict(E=mev(e.energy), corr=mev(sum(a.value for a in A)), T=dk(T2), comp=comp(e.composition), nadj=len(A), k=nm, idok=bool(idok))
def execute22(p):
    T = p["T"]
    c0 = (Composition(p["f"]) * p["m"]) if p["k"] in CLS else Composition({e: n * p["m"] for e, n in zip(p["elems"], p["v"])})
    els = sorted(str(x) for x in c0.elements)
    comp = lambda c: vecx(c, els) if all(str(x) in els for x in c.elements) else [-1]
    tab, lo, dep, base, m = [], 300, False, [], p["m"]
    if p["k"] in CLS:
        d = CLS[p["k"]].REFERENCES.get(p["f"])
        if d is None: dep = True
        else: ks = sorted(d); lo = int(ks[0]); tab = [mev(d[k]) for k in ks]
    form, tabs = 0, []
    if p["k"] == "gibbs":
        n = c0.num_atoms; form = mev(n * p["ef"] / 10)
        tabs = [dict(n=int(x), tab=[mev(G_ELEMS[str(t)][str(el)]) for t in range(300, 2001, 100)]) for el, x in c0.items()]
        base = [dict(T=dk(x), e=mev(n * descriptor(c0, p["vol"], x))) for x in sorted({o["T"] for o in p["ops"] + [dict(T=T)] if 300 <= o["T"] <= 2000})]
    e = build22(p, T)
    e0 = mev(p["ef"] / 10 * c0.num_atoms) if p["k"] == "interp" else 0
    adj = [dict(k={"carb": "const"}.get(a["k"], a["k"]), v=830000 * a["v"] if a["k"] == "carb" else 3 * a["v"] if a["k"] == "co2" else a["v"]) for a in p["adj"]]
    ev = [dict(op="entry", k=p["k"], m=m, n=int(c0.num_atoms), adj=adj, T=dk(T), tab=tab, lo=10 * lo, dep=dep, base=base, form=form, els=tabs, e0=e0, comp=comp(c0), obs=obs22(e, p, comp, T))]
    Z = ev[0]["obs"]
    for o in p["ops"]:
        n = o["o"]; T2 = float(o["T"]) if o["fl"] else o["T"]
        if n == "cmp":
            if dep: continue
            w = o["what"]; exp = p["k"] in CLS
            if (w in ("energy", "id") and exp) or (w == "T" and p["k"] == "interp"): continue
            q = dict(p); Tq = T
            if w == "T":
                Tq = T + 100 if T < 1400 else T - 100
                if exp and not min(CLS[p["k"]].REFERENCES[p["f"]]) <= Tq <= max(CLS[p["k"]].REFERENCES[p["f"]]): continue
            if w == "adj": q["adj"] = p["adj"] + [dict(k="const", v=o["d"] * int(c0.num_atoms))]
            if w == "energy": q["ef"] = p["ef"] + o["d"] / 1e5
            if w == "kind":
                if not exp: q["k"] = "interp" if p["k"] == "gibbs" else "gibbs"; q.setdefault("vol", 12.0)
                else:
                    q["k"] = "freed" if p["k"] == "nist" else "nist"; tb = CLS[q["k"]].REFERENCES.get(p["f"])
                    if not tb or not min(tb) <= T <= max(tb): continue
            r = dict(op="cmp", what=w, exc="", eq=False, rev=False, hasheq=False); ev.append(r)
            try:
                if p["k"] == "interp": Tq = p["T"] if w != "kind" else T     # its corrections are not converted
                x = build22(q, Tq)
                if w == "id": x.entry_id = "mp-2"
                r.update(eq=bool(e == x), rev=bool(x == e), hasheq=hash(e) == hash(x))
            except Exception as ex: r["exc"] = exc_name(ex)
            continue
        if n == "own":    # a copy is an entry of its own
            r = dict(op="same", how=n, exc="", obs=Z, eq=True, hasheq=True); ev.append(r)
            try:
                x = e.copy() if p["k"] == "gibbs" else e.get_new_temperature(T) if p["k"] == "interp" else copy.deepcopy(e)
                r.update(eq=bool(x == e), hasheq=hash(x) == hash(e))
                x.data["theoretical"] = "changed"; x.data["more"] = 1; x.energy_adjustments.append(ConstantEnergyAdjustment(1.0)); x.parameters["run_type"] = "?"
                if p["k"] == "gibbs": x.data["nested"]["temp"].append(3)
                r["obs"] = obs22(e, p, comp, T)
            except Exception as ex: r["exc"] = exc_name(ex); break
            continue
        if n in ("copy", "json", "dict"):
            r = dict(op="same", how=n, exc="", obs=Z, eq=False, hasheq=False); ev.append(r)
            try:
                x = copy.deepcopy(e) if n == "copy" else MontyDecoder().decode(MontyEncoder().encode(e)) if n == "json" else type(e).from_dict(e.as_dict())
                r.update(obs=obs22(x, p, comp, T), eq=bool(x == e), hasheq=hash(x) == hash(e)); e = x
            except Exception as ex: r["exc"] = exc_name(ex); break
            continue
        r = dict(op="temp", how=n, T=dk(o["T"]), exc="", obs=Z, prev=Z, fresh=0, eq=False, hasheq=False, uideq=False); ev.append(r)
        try:
            if n == "temp": x = e.get_new_temperature(T2)
            elif n == "set":
                L = list(GibbsEntrySet([e]).get_entries_with_new_temperature(T2))
                if not L: raise ValueError()
                x = L[0]
                if x.data.get("e_above_hull", 1) is None: x.data.pop("e_above_hull")
            else:
                o2 = InterpolatedEntry(c0, 1.0, entry_id="other")
                x = ComputedReaction([e, o2], [-1, 1]).get_new_temperature(T2).entries[0]
            r["obs"] = obs22(x, p, comp, o["T"])
            fresh = build22(p, T2) if p["k"] != "interp" else x
            r.update(fresh=mev(fresh.energy), eq=bool(x == fresh and fresh == x), hasheq=hash(x) == hash(fresh), uideq=x.unique_id == fresh.unique_id)
        except Exception as ex:
            r["exc"] = exc_name(ex); r["prev"] = obs22(e, p, comp, T); continue
        r["prev"] = obs22(e, p, comp, T)
        e = x; T = o["T"] if p["k"] != "interp" else T
    return {"params": p, "ev": ev}

# ------------------------------------------------------------ C23
UNIT = 8
def gen23(rng):
    big = rng.random() < 0.2
    elems = rng.sample(ELS, rng.randint(10, 12) if big else rng.randint(2, 5))
    if "O" not in elems: elems[0] = "O"
    if rng.random() < 0.4 and "C" not in elems: elems[-1 if elems[-1] != "O" else 0] = "C"
    elems = list(dict.fromkeys(elems))
    n = len(elems); inp = []
    def add(c, lo, hi):
        inp.append(dict(c=c, m=rng.choice([1, 1, 2]), e=rng.randint(lo, hi), run=rng.choice(["GGA", "GGA+U", "GGA", "r2SCAN"]), vol=rng.uniform(8, 25)))
    for i in range(n):
        v = reduce_vec(elems, [int(j == i) for j in range(n)])
        for _ in range(rng.choice([1, 1, 1, 2, 3])): add(v, -30, -10)
    pool = [f for s in CLS for f in formulas(s) if all(str(e) in elems for e in Composition(f).elements) and len(Composition(f)) > 1]
    known = [vec(Composition(f), elems) for f in (rng.sample(pool, min(len(pool), rng.randint(1, 6))) if pool else [])]
    if "C" in elems and "O" in elems: known.append([{"C": 1, "O": 2}.get(e, 0) for e in elems])
    for e in ("Ca", "Mg", "Ba"):
        if "C" in elems and "O" in elems and e in elems and rng.random() < 0.6: known.append([{"C": 1, "O": 3, e: 1}.get(x, 0) for x in elems])
    for c in known + random_comps(rng, elems, rng.randint(1, 5), 3, 4):
        if sum(1 for x in c if x) < 2 or sum(c) > 14: continue
        for _ in range(rng.choice([1, 1, 1, 2, 3])): add(c, -60, -20)
    rng.shuffle(inp)
    builds = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        builds.append(dict(T=rng.choice([300, 600, 650, 1000, 1500, 1800, 2000]), nist=rng.random() < 0.6, freed=rng.random() < 0.4, carb=rng.random() < 0.7, co2=rng.random() < 0.7, ign=rng.random() < 0.6,
                           calc=rng.random() < 0.5, min=rng.random() < 0.15, perm=rng.randrange(10**6)))
    procs = []
    if not big:
        for _ in range(rng.choice([0, 1, 2])):
            forms = [x["c"] for x in inp] + random_comps(rng, elems, 1, 3, 3)
            procs.append(dict(T=rng.choice([300, 900, 1500, 2000]), Tf=rng.choice([0, 300, 1200, 1000]), tol=rng.choice([0, 25000, 100000, 500000]), nist=rng.random() < 0.6, freed=rng.random() < 0.3, ign=rng.random() < 0.5,
                              poly=rng.random() < 0.4, inc=[rng.choice(forms) for _ in range(rng.choice([0, 1, 2]))], calc=rng.random() < 0.3))
    return dict(elems=elems, inp=inp, builds=builds, procs=procs)

def structure(elems, c, m, vol):
    sp = [e for e, k in zip(elems, c) for _ in range(k * m)]
    n = len(sp)
    return Structure(Lattice.cubic((vol * n) ** (1 / 3)), sp, [[(k + 0.5) / n, (k * 0.37) % 1, (k * 0.61) % 1] for k in range(n)])
def execute23(p):
    import random
    elems = p["elems"]; inp = p["inp"]
    E = []
    for i, x in enumerate(inp):
        s = structure(elems, x["c"], x["m"], x["vol"]); n = len(s)
        E.append(ComputedStructureEntry(s, x["e"] / UNIT * n, entry_id=f"id-{i+1}", parameters={"run_type": x["run"]}, data={"theoretical": bool(i % 2), "tag": i + 1}))
    fs = []
    for x in inp:
        if x["c"] not in fs: fs.append(x["c"])
    fname = [Composition(formula(elems, f)).reduced_formula for f in fs]
    rows = []
    refs = [[] for _ in elems]
    for x in inp:
        nz = [k for k, a in enumerate(x["c"]) if a]
        if len(nz) == 1: refs[nz[0]].append(x["e"])
        d = dict(zip(elems, [a * x["m"] for a in x["c"]])); nc, no = d.get("C", 0), d.get("O", 0)
        rows.append(dict(f=fs.index(x["c"]) + 1, el=len(nz) == 1, e=x["e"], src=[], comp=[a * x["m"] for a in x["c"]], nc=nc,
                         carbonate=bool(nc and no == 3 * nc and x["run"] in ("GGA", "GGA+U")), isco2=fname[fs.index(x["c"])] == "CO2"))
    ev = [dict(op="inputs", inp=rows, refs=refs, unit=UNIT)]
    snap = lambda: [(e.energy, json.dumps(e.data, sort_keys=True, default=str), json.dumps(e.parameters, sort_keys=True), e.entry_id) for e in E]
    s0 = snap(); earlier = []
    for b in p["builds"]:
        T = b["T"]
        def src(f):
            nm = fname[f - 1]; out = []
            for k, cl in CLS.items():
                d = cl.REFERENCES.get(nm)
                if d is None or not min(d) <= T <= max(d): continue
                if k == "nist" and b["ign"] and nm in IGNORED: continue
                out.append(k)
            return out
        e = dict(op="build", T=T, opts=[k for k in CLS if b[k]], src=[src(r["f"]) for r in rows], carb=b["carb"], co2=b["co2"], calc=b["calc"], min=b["min"], got=[], flag=False, hullok=True, inputok=False, earlierok=False, exc="")
        ev.append(e)
        L = list(E); random.Random(b["perm"]).shuffle(L)
        try:
            gs = GibbsEntrySet.from_computed_entries(L, T, include_nist_data=b["nist"], include_freed_data=b["freed"], apply_carbonate_correction=b["carb"], apply_atmospheric_co2_correction=b["co2"],
                                                     ignore_nist_solids=b["ign"], calculate_e_above_hulls=b["calc"], minimize_obj_size=b["min"])
            for g in gs:
                nm = type(g).__name__; A = [a for a in g.energy_adjustments if a.name != "Gibbs SISSO Correction"]
                r = dict(src={"NISTReferenceEntry": "nist", "FREEDReferenceEntry": "freed"}.get(nm, ""), i=0, f=0, T=int(round(g.temperature)), adj=mev(sum(a.value for a in A)), nadj=len(A), form=[0, 0], comp=vecx(g.composition, elems), volok=False, isco2=False, dataok=False)
                if r["src"]:
                    f = g.composition.reduced_formula
                    r["f"] = fname.index(f) + 1 if f in fname else 0; r["isco2"] = f == "CO2"
                else:
                    i = int(g.entry_id.split("-")[1]); r["i"] = i; x = inp[i - 1]
                    r["form"] = rat(g.formation_energy_per_atom, 40000); r["volok"] = abs(g.volume_per_atom - x["vol"]) < 1e-6
                    r["dataok"] = g.data.get("tag") == i and g.data.get("theoretical") == bool((i - 1) % 2) and g.parameters == {"run_type": x["run"]}
                e["got"].append(r)
            e["flag"] = bool(gs.calculate_e_above_hulls)
            if b["calc"]: e["hullok"] = all(abs(g.data["e_above_hull"] - gs.get_e_above_hull(g)) < 1e-9 for g in gs)
            e["inputok"] = snap() == s0
            e["earlierok"] = all({id(g): json.dumps(g.data, sort_keys=True, default=str) for g in s} == d for s, d in earlier)
            earlier.append((gs, {id(g): json.dumps(g.data, sort_keys=True, default=str) for g in gs}))
        except Exception as ex: e["exc"] = exc_name(ex)
    for o in p["procs"]:
        Tf = o["Tf"] or o["T"]
        gs = GibbsEntrySet.from_computed_entries(E, Tf, include_nist_data=o["nist"], include_freed_data=o["freed"], ignore_nist_solids=o["ign"])
        L = gs.entries_list
        key = lambda g: (type(g).__name__, g.entry_id if type(g).__name__ == "GibbsComputedEntry" else g.composition.reduced_formula)
        keys = [key(g) for g in L]
        ph = []; fi = []
        for g in L:
            f = g.composition.reduced_formula
            if f not in fi: fi.append(f)
            a = gs.get_e_above_hull(g); valid = True
            if Tf != o["T"]:
                try: g.get_new_temperature(o["T"])
                except ValueError: valid = False
            ph.append(dict(f=fi.index(f) + 1, a=mev(a), e=mev(g.energy_per_atom), stable=bool(a == 0.0), valid=valid))
        inc = []
        for c in o["inc"]:
            f = Composition(formula(elems, c)).reduced_formula
            if f not in fi: fi.append(f)
            inc.append(f)
        e = dict(op="process", ph=ph, tol=o["tol"], poly=o["poly"], T=o["T"], inc=[fi.index(f) + 1 for f in inc], got=[], interp=[], ts=[], n=0, exc="")
        ev.append(e)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                res = process_entries(E, o["T"], o["tol"] / 1e6, filter_at_temperature=o["Tf"] or None, include_nist_data=o["nist"], include_freed_data=o["freed"], include_polymorphs=o["poly"],
                                      formulas_to_include=inc or None, calculate_e_above_hulls=o["calc"] and not inc, ignore_nist_solids=o["ign"])
            e["n"] = len(res)
            for g in res:
                if type(g).__name__ == "InterpolatedEntry": e["interp"].append(fi.index(g.composition.reduced_formula) + 1 if g.composition.reduced_formula in fi else 0); continue
                k = key(g); e["got"].append(keys.index(k) + 1 if k in keys else 0); e["ts"].append(int(round(g.temperature)))
        except Exception as ex: e["exc"] = exc_name(ex)
    return {"params": p, "ev": ev}

def params(focus, n):
    rng = rng_for(focus)
    return [(gen22 if focus == "C22" else gen23)(rng) for _ in range(n)]
def exec_for(focus): return execute22 if focus == "C22" else execute23
def _run(prop, n, rule):
    ck = Check(prop)
    ck.mc("MCEntries", "MCEntries.cfg" if scale(1, 0) else "MCEntriesDeep.cfg")
    ck.judge("TraceEntries", run_cases(exec_for(prop), params(prop, n)), only=(prop,))
    return ck.finish(rule)
def c22(): return _run("C22", scale(6000, 40000), "random entries of every kind (Gibbs, NIST and FREED tables, interpolated) with 0-3 energy adjustments, 1-3 formula units, taken through 3-8 changes of temperature on the entry, an entry set or a reaction, copies and serialization, inside and outside the tabulated range")
def c23(): return _run("C23", scale(450, 3000), "random lists of computed entries (2-5 or 10-12 elements, polymorphs, carbonates, CO2, phases with tabulated data) in random order, built with every combination of options at several temperatures, and processed with stability filters and required formulas")
