"""Driver for saving and loading (C30): objects of every kind, saved, loaded, asked and changed in random order."""
from __future__ import annotations
import contextlib, copy, hashlib, io, json, pickle, warnings
import numpy as np
from monty.json import MontyDecoder, MontyEncoder, jsanitize
from .common import Check, rng_for, scale, run_cases, exc_name
from .chem import *
from . import fakeray
from pymatgen.core import Element
from pymatgen.entries.computed_entries import ConstantEnergyAdjustment
from rxn_network.core import Composition
from rxn_network.costs.calculators import ChempotDistanceCalculator, PrimaryCompetitionCalculator, SecondaryCompetitionCalculator
from rxn_network.costs.functions import Softplus, WeightedSum
from rxn_network.entries.corrections import CarbonateCorrection, CarbonDioxideAtmosphericCorrection
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.entries.freed import FREEDReferenceEntry
from rxn_network.entries.gibbs import GibbsComputedEntry
from rxn_network.entries.interpolated import InterpolatedEntry
from rxn_network.entries.nist import NISTReferenceEntry
from rxn_network.enumerators.basic import BasicEnumerator, BasicOpenEnumerator
from rxn_network.enumerators.minimize import MinimizeGibbsEnumerator, MinimizeGrandPotentialEnumerator
from rxn_network.jobs import schema
from rxn_network.network.entry import NetworkEntry, NetworkEntryType
from rxn_network.network.network import ReactionNetwork
from rxn_network.pathways.balanced import BalancedPathway
from rxn_network.pathways.basic import BasicPathway
from rxn_network.pathways.pathway_set import PathwaySet
from rxn_network.pathways.solver import PathwaySolver
from rxn_network.reactions.basic import BasicReaction
from rxn_network.reactions.computed import ComputedReaction
from pymatgen.core import Composition as PComp
from rxn_network.reactions.hull import InterfaceReactionHull
from rxn_network.reactions.open import OpenComputedReaction
from rxn_network.reactions.reaction_set import ReactionSet
from rxn_network.thermo.chempot_diagram import ChemicalPotentialDiagram
ELS = ["Li", "Mn", "O", "C", "Ba", "Ti", "Cl"]
KINDS = ["entry", "entry", "entry", "entryset", "entryset", "basic", "rxn", "rxn", "open", "rxnset", "rxnset", "rxnset", "path", "paths", "cost", "calc", "enum", "solver", "network", "network", "network", "node", "hull", "hull", "cpd", "corr", "doc"]

# ------------------------------------------------------------ canonical answers
def num(x):
    try: x = float(x)
    except Exception: return str(x)
    if x != x: return "nan"
    return "0" if abs(x) < 5e-10 else f"{x:.7g}"
def canon(x):
    if isinstance(x, (bool, np.bool_)): return str(bool(x))
    if x is None: return "None"
    if isinstance(x, (int, float, np.number)): return num(x)
    if isinstance(x, str): return x
    if isinstance(x, dict): return "{" + ",".join(sorted(f"{canon(k)}:{canon(v)}" for k, v in x.items())) + "}"
    if isinstance(x, (set, frozenset)): return "{" + ",".join(sorted(map(canon, x))) + "}"
    if isinstance(x, (list, tuple, np.ndarray)): return "[" + ",".join(canon(v) for v in x) + "]"
    if isinstance(x, (BasicReaction,)): return "R" + rx(x)
    if hasattr(x, "energy") and hasattr(x, "composition"): return en(x)
    if hasattr(x, "get_el_amt_dict"): return x.formula.replace(" ", "")
    return str(x)
def en(e):
    t = getattr(e, "temperature", None)
    return f"{type(e).__name__}|{canon(e.composition)}|{getattr(e, 'entry_id', '')}|{num(e.energy)}|{canon(t)}"
def rx(r):
    es = [canon(e) for e in r.entries] if hasattr(r, "entries") else [canon(c) for c in r.compositions]
    return f"{type(r).__name__}|" + "+".join(f"{num(c)} {e}" for c, e in zip(r.coefficients, es)) + f"|{canon(getattr(r, 'chempots', None))}|{canon(r.data)}"
def short(s): return s if __import__("os").environ.get("LONG") or len(s) < 100 else s[:60] + "#" + hashlib.md5(s.encode()).hexdigest()[:12]
def answers(qs):
    out = []
    for q, f in qs:
        try: a = short(canon(f()))
        except Exception as ex: a = "exc:" + exc_name(ex)
        out.append([q, a])
    return out

# ------------------------------------------------------------ questions
def q_entry(e, w):
    return [("composition", lambda: e.composition), ("type", lambda: type(e).__name__), ("energy", lambda: e.energy), ("energy_per_atom", lambda: e.energy_per_atom),
            ("uncorrected_energy", lambda: e.uncorrected_energy), ("correction", lambda: e.correction), ("correction_uncertainty", lambda: e.correction_uncertainty),
            ("temperature", lambda: getattr(e, "temperature", None)), ("unique_id", lambda: e.unique_id), ("entry_id", lambda: e.entry_id), ("data", lambda: e.data), ("parameters", lambda: e.parameters),
            ("adjustments", lambda: [[a.name, a.value, a.uncertainty] for a in e.energy_adjustments]), ("other temperature", lambda: e.get_new_temperature(750).energy),
            ("experimental", lambda: e.is_experimental), ("element", lambda: e.composition.is_element), ("name", lambda: getattr(e, "name", None)),
            ("grand energy", lambda: e.to_grand_entry({Element(w["elems"][0]): -1.5}).energy_per_atom if not e.composition.is_element else 0), ("repr", lambda: repr(e)), ("again", lambda: type(e).from_dict(json.loads(json.dumps(e.as_dict()))) == e)]
def q_set(s, w):
    es = sorted(s.entries, key=en)
    return [("entries", lambda: [en(e) for e in es]), ("list", lambda: [en(e) for e in s.entries_list]), ("data", lambda: [e.data for e in es]), ("length", lambda: len(s)), ("temperature", lambda: s.temperature if es else None), ("chemsys", lambda: s.chemsys),
            ("ground states", lambda: {k: en(v) for k, v in s.min_entries_by_formula.items()}), ("hull option", lambda: s.calculate_e_above_hulls), ("size option", lambda: s.minimize_obj_size),
            ("above hull", lambda: [round(s.get_e_above_hull(e), 7) for e in es]), ("stable", lambda: [en(e) for e in sorted(s.filter_by_stability(0.03), key=en)]),
            ("adjustments", lambda: [[[a.name, a.value] for a in e.energy_adjustments] for e in es]), ("other temperature", lambda: [en(e) for e in sorted(s.get_entries_with_new_temperature(650), key=en)]),
            ("subset", lambda: [en(e) for e in sorted(s.get_subset_in_chemsys(w["elems"][:2]), key=en)]), ("indices", lambda: sorted(e.data.get("idx", -1) for e in es))]
def q_rxn(r, w):
    out = [("string", lambda: str(r)), ("compositions", lambda: [canon(c) for c in r.compositions]), ("coefficients", lambda: r.coefficients), ("data", lambda: r.data), ("balanced", lambda: r.balanced), ("errors", lambda: r.lowest_num_errors),
           ("reactants", lambda: {canon(c) for c in r.reactants}), ("products", lambda: {canon(c) for c in r.products}), ("identity", lambda: r.is_identity), ("num_atoms", lambda: r.num_atoms), ("chemsys", lambda: r.chemical_system),
           ("fractions", lambda: {canon(k): num(v) for k, v in r.reactant_atomic_fractions.items()}), ("reverse", lambda: canon(r.reverse()))]
    if hasattr(r, "entries"):
        out += [("entries", lambda: [en(e) for e in r.entries]), ("energy", lambda: r.energy), ("energy_per_atom", lambda: r.energy_per_atom), ("uncertainty", lambda: r.energy_uncertainty), ("uncertainty per atom", lambda: r.energy_uncertainty_per_atom),
                ("entry data", lambda: [e.data for e in r.entries]), ("other temperature", lambda: r.get_new_temperature(800).energy_per_atom)]
    if hasattr(r, "chempots"): out += [("chempots", lambda: r.chempots), ("open", lambda: [str(x) for x in r.open_elems]), ("total chempot", lambda: canon(r.total_chemical_system) if hasattr(r, "total_chemical_system") else 0), ("element keys", lambda: sorted(type(k).__name__ for k in r.chempots))]
    return out
def q_rset(s, w):
    rs = list(s.get_rxns())
    fm = [c for r in rs[:2] for c in r.reactants][:2]
    return [("reactions", lambda: [rx(r) for r in rs]), ("length", lambda: len(s)), ("entries", lambda: [en(e) for e in s.entries]), ("data", lambda: [r.data for r in rs]), ("open", lambda: [str(s.open_elem) if s.open_elem else None, s.chempot]),
            ("energies", lambda: [r.energy_per_atom for r in rs]), ("costs", lambda: list(s.calculate_costs(WeightedSum()))), ("by reactants", lambda: [rx(r) for r in s.get_rxns_by_reactants([c.reduced_formula for c in fm])]),
            ("filtered", lambda: sorted(rx(r) for r in s.filter_duplicates())), ("other temperature", lambda: sorted(rx(r) for r in s.set_new_temperature(900))), ("open at", lambda: sorted(rx(r) for r in s.set_chempot("O", -0.4))), ("columns", lambda: sorted(map(str, s.to_dataframe(cost_function=WeightedSum()).columns)))]
def q_path(p, w):
    return [("type", lambda: type(p).__name__), ("reactions", lambda: [rx(r) for r in p.reactions]), ("costs", lambda: p.costs), ("total", lambda: p.total_cost), ("average", lambda: getattr(p, "average_cost", None)), ("coefficients", lambda: getattr(p, "coefficients", None)), ("balanced", lambda: getattr(p, "balanced", None)), ("energy", lambda: p.energy), ("energy_per_atom", lambda: p.energy_per_atom),
            ("entries", lambda: {en(e) for e in p.entries}), ("reactants", lambda: {canon(c) for c in p.reactants}), ("products", lambda: {canon(c) for c in p.products}), ("intermediates", lambda: {canon(c) for c in p.intermediates}), ("string", lambda: repr(p)), ("depends", lambda: p.contains_interdependent_rxns([Composition(w["elems"][0])]) if hasattr(p, "contains_interdependent_rxns") else 0)]
def q_paths(s, w): return [("paths", lambda: [[a for _, a in answers(q_path(p, w))] for p in s]), ("length", lambda: len(s)), ("costs", lambda: [num(c) for p in s for c in p.costs]), ("reactions", lambda: [rx(r) for r in s.reaction_set.get_rxns()])]
def q_cost(c, w):
    return [("values", lambda: [c.evaluate(r) for r in w["rxns"]]), ("params", lambda: c.params), ("weights", lambda: list(c.weights)), ("temp", lambda: getattr(c, "temp", None)), ("weights type", lambda: hasattr(c.weights, "dtype")), ("string", lambda: repr(c)), ("set", lambda: list(w["rset"].calculate_costs(c)))]
def q_calc(c, w): return [("values", lambda: [c.calculate(r) for r in (w["hullrxns"] if hasattr(c, "irh") else w["rxns"])]), ("name", lambda: c.name), ("decorated", lambda: [c.decorate(r).data for r in (w["hullrxns"] if hasattr(c, "irh") else w["rxns"])]), ("function", lambda: getattr(c, "mu_func", sum)([1.0, 4.0, 1.0]))]
def q_enum(e, w):
    at = ["n", "precursors", "targets", "exclusive_precursors", "exclusive_targets", "filter_duplicates", "filter_by_chemsys", "chunk_size", "max_num_jobs", "remove_unbalanced", "remove_changed", "max_num_constraints", "quiet", "open_phases", "mu"]
    out = [(a, lambda a=a: (sorted(map(str, getattr(e, a))) if isinstance(getattr(e, a), (list, set, tuple)) else getattr(e, a)) if hasattr(e, a) else "-") for a in at]
    out.append(("open_elem", lambda: str(getattr(e, "open_elem", None)) + type(getattr(e, "open_elem", None)).__name__))
    out.append(("reactions", lambda: sorted(rx(r) for r in e.enumerate(w["eset"]))))
    return out
def q_solver(s, w):
    def solve():
        with contextlib.redirect_stdout(io.StringIO()): return [[sorted(rx(r) for r in p.reactions), num(p.total_cost)] for p in s.solve(w["net"], max_num_combos=2, find_intermediate_rxns=True)]
    return [("pathways", lambda: [[rx(r) for r in p.reactions] for p in s.pathways]), ("entries", lambda: sorted(en(e) for e in s.entries)), ("cost", lambda: answers(q_cost(s.cost_function, w))), ("open", lambda: [str(s.open_elem), s.chempot]), ("sizes", lambda: [s.chunk_size, s.batch_size]), ("reactions", lambda: sorted(rx(r) for r in s.reactions)), ("costs", lambda: sorted(map(num, s.costs))), ("solution", lambda: sorted(map(canon, solve())))]
def node(n): return f"{n.description.name}:" + ",".join(sorted(en(e) for e in n.entries))
def q_net(n, w):
    def graph():
        g = n.graph
        if g is None: return None
        return sorted(f"{node(g[a])}>{node(g[b])}:{x if isinstance(x, str) else rx(x)}" for a, b, x in g.weighted_edge_list())
    def paths():
        if not n.precursors or not n.target: return None
        with contextlib.redirect_stdout(io.StringIO()): return sorted(num(p.total_cost) for p in n.find_pathways([n.target], k=3))
    return [("reactions", lambda: [rx(r) for r in n.rxns.get_rxns()]), ("cost", lambda: answers(q_cost(n.cost_function, w))), ("entries", lambda: sorted(en(e) for e in n.entries)), ("precursors", lambda: None if n.precursors is None else {en(p) for p in n.precursors}), ("precursors type", lambda: type(n.precursors).__name__),
            ("target", lambda: None if n.target is None else en(n.target)), ("built", lambda: n.graph is not None), ("nodes", lambda: None if n.graph is None else sorted(map(node, n.graph.nodes()))), ("edges", graph), ("chemsys", lambda: n.chemsys), ("paths", paths), ("string", lambda: repr(n)), ("weights", lambda: [num(n.cost_function.evaluate(x)) for x in n.graph.edges() if not isinstance(x, str)][:50] and None)]
def q_node(n, w): return [("entries", lambda: {en(e) for e in n.entries}), ("description", lambda: n.description.name), ("chemsys", lambda: n.chemsys), ("elements", lambda: [str(e) for e in n.elements]), ("dim", lambda: n.dim), ("string", lambda: repr(n))]
def q_hull(h, w):
    rs = h.reactions
    return [("coordinates", lambda: sorted([num(a), num(b)] for a, b in h.coords)), ("reactions", lambda: sorted(rx(r) for r in rs)), ("number", lambda: len(rs)), ("stable", lambda: sorted(rx(r) for r in h.stable_reactions)), ("unstable", lambda: sorted(rx(r) for r in h.unstable_reactions)), ("ends", lambda: [canon(h.c1), canon(h.c2), en(h.e1), en(h.e2)]),
            ("hull", lambda: [num(h.get_hull_energy(k / 10)) for k in range(11)]), ("primary", lambda: [h.get_primary_competition(r) for r in w["hullrxns"]]), ("secondary", lambda: [h.get_secondary_competition(r) for r in w["hullrxns"]])]
def q_cpd(c, w):
    fs = sorted({e.composition.reduced_formula for e in c.entries})
    return [("entries", lambda: sorted(en(e) for e in c.entries)), ("domains", lambda: {k: sorted([num(round(x, 5) + 0.0) for x in r] for r in v) for k, v in c.domains.items()}), ("limits", lambda: [c.limits, c.default_min_limit]), ("distances", lambda: [c.shortest_domain_distance(a, b) for a in fs for b in fs]), ("offsets", lambda: sorted(num(c.get_offset(e)) for e in c.entries)), ("elements", lambda: [str(e) for e in c.elements])]
def q_corr(a, w): return [("value", lambda: a.value), ("name", lambda: a.name), ("uncertainty", lambda: a.uncertainty), ("string", lambda: repr(a)), ("type", lambda: type(a).__name__)] + [(k, lambda k=k: getattr(a, k, None)) for k in ("temp", "pco2", "num_ions", "carbonate_correction", "n_atoms", "explain", "description")]
def q_doc(d, w):
    out = [("fields", lambda: sorted(type(d).model_fields)), ("type", lambda: type(d).__name__)]
    for k in sorted(type(d).model_fields):
        v = getattr(d, k); qf = next((Q[n] for n, t in (("entryset", GibbsEntrySet), ("rxnset", ReactionSet), ("network", ReactionNetwork), ("paths", PathwaySet), ("solver", PathwaySolver), ("rxn", ComputedReaction)) if isinstance(v, t)), None)
        out.append((k, (lambda qf=qf, v=v: answers(qf(v, w))) if qf else (lambda v=v: [answers(q_enum(x, w)) for x in v]) if k == "enumerators" and v else (lambda v=v: v)))
    return out
Q = dict(entry=q_entry, entryset=q_set, basic=q_rxn, rxn=q_rxn, open=q_rxn, rxnset=q_rset, path=q_path, paths=q_paths, cost=q_cost, calc=q_calc, enum=q_enum, solver=q_solver, network=q_net, node=q_node, hull=q_hull, cpd=q_cpd, corr=q_corr, doc=q_doc)
EQUAL = {"entry", "entryset", "basic", "rxn", "open", "path", "node"}
HASH = EQUAL - {"entryset"}

# ------------------------------------------------------------ changes
def change(kind, o, m, w):
    how, a = m["how"], m["a"]
    pick = lambda s: s[a % len(s)]
    if kind == "entry":
        if how == 0: return o.get_new_temperature([400, 500, 650, 1200][a % 4]), f"T{a % 4}"
        if how == 1: o.data["mark"] = a % 5; return o, f"data{a % 5}"
        return GibbsEntrySet.get_adjusted_entry(o, ConstantEnergyAdjustment(0.25 * (a % 3 + 1), name=f"x{a % 3}", uncertainty=0.1)), f"adj{a % 3}"
    if kind == "entryset":
        e = pick(w["ents"])
        if o.minimize_obj_size and how in (0, 2): return o, "nothing"   # drops data whenever such a set is made
        if o.calculate_e_above_hulls: return o, "nothing"   # distances are those of the set at the time it was made
        if how == 0 and len(o) and o.temperature != w["T"]: how = 1
        if how == 0: o.add(e); return o, "add" + en(e)
        if how == 1: o.discard(e); return o, "discard" + en(e)
        if how == 2: o.build_indices(); return o, "indices"
        if how == 3: return o.get_entries_with_new_temperature([400, 700][a % 2]), f"T{a % 2}"
        return o.get_subset_in_chemsys(w["elems"][: 2 + a % 2]), f"sub{a % 2}"
    if kind in ("basic", "rxn", "open"):
        if how == 0: return o.reverse(), "reverse"
        if how == 1: c = pick(o.products); return o.normalize_to(c, 2.0), "norm" + canon(c)
        if how == 2:
            if o.data is None: o.data = {}
            o.data["mark"] = a % 5; return o, f"data{a % 5}"
        return (o.get_new_temperature([500, 900][a % 2]) if hasattr(o, "get_new_temperature") else o.copy()), f"T{a % 2}"
    if kind == "rxnset":
        if how == 0: return o.set_new_temperature([500, 900][a % 2]), f"T{a % 2}"
        if how == 1: return o.set_chempot("O", [-1.0, -0.5][a % 2]), f"mu{a % 2}"
        if how == 2: return o.filter_duplicates(), "filter"
        if how == 3: return o.add_rxn_set(w["rset"]), "add"
        return ReactionSet.from_rxns([r for i, r in enumerate(o) if i % 2 == a % 2], open_elem=o.open_elem, chempot=o.chempot), f"half{a % 2}"
    if kind == "network":
        fs = w["forms"]
        if how <= 1 and o.graph is None or how == 0: o.build(); return o, "build"
        if how in (1, 2): p = [pick(fs), fs[(a // 7) % len(fs)]]; o.set_precursors(p); return o, "pre" + "+".join(p)
        if how == 3: o.set_target(pick(fs)); return o, "target" + pick(fs)
        if not o.precursors: o.set_precursors([pick(fs)])
        with contextlib.redirect_stdout(io.StringIO()): o.find_pathways([fs[(a // 7) % len(fs)]], k=2)
        return o, "find" + fs[(a // 7) % len(fs)]
    return o, "nothing"

# ------------------------------------------------------------ saving
def save(o, form):
    """(document, digest)"""
    if form == "dict": return o.as_dict()
    if form == "json": return json.dumps(o, cls=MontyEncoder)
    if form == "job": return jsanitize(o, strict=True, enum_values=True)
    if form == "pickle": return pickle.dumps(o)
    return o.to_json()
def digest(d, form):
    return hashlib.md5((json.dumps(d, sort_keys=True, cls=MontyEncoder) if form in ("dict", "job") else d if isinstance(d, str) else "bytes").encode()).hexdigest()
def load(d, form, cls):
    if form == "dict": return cls.from_dict(d)
    if form == "job": return MontyDecoder().process_decoded(d)
    if form == "pickle": return pickle.loads(d)
    return json.loads(d, cls=MontyDecoder)

# ------------------------------------------------------------ worlds
def gen(rng):
    elems = ["O"] + rng.sample([e for e in ELS if e != "O"], rng.choice([1, 2, 2, 3]))
    rng.shuffle(elems)
    comps = [[int(j == i) * (2 if elems[i] in DIATOMIC else 1) for j in range(len(elems))] for i in range(len(elems))]
    for c in random_comps(rng, elems, rng.randint(3, 6), 3, 3):
        if c not in comps: comps.append(c)
    ents = []
    for c in comps:
        single = sum(1 for x in c if x) == 1
        for _ in range(1 if single else rng.choice([1, 1, 1, 2])):
            ents.append(dict(c=c, m=rng.choice([1, 1, 2]), h=0 if single else rng.randint(-300, -20) / 100, v=rng.randint(8, 25) + rng.random(), kind="interp" if rng.random() < 0.08 and not single else "gibbs",
                             carb=rng.random() < 0.1, conc=rng.random() < 0.1, poly=rng.random() < 0.3, noid=rng.random() < 0.07))
    return dict(elems=elems, ents=ents, T=rng.choice([300, 400, 650, 1000, 1450.5]), ref=rng.random() < 0.5, kind=rng.choice(KINDS), pick=rng.randrange(10**6), seed=rng.randrange(10**6),
                n=rng.choice([0, 1, 3, 6, 12]) , ops=[dict(op=rng.choice(["save", "save", "load", "load", "ask", "ask", "change", "change", "equal", "doc"]), a=rng.randrange(10**6), how=rng.randrange(5), form=rng.choice(["dict", "dict", "json", "json", "job", "to_json", "pickle"]), s=rng.randrange(3), d=rng.randrange(2)) for _ in range(rng.randint(6, 14))])

def world(p):
    import random
    rng = random.Random(p["seed"]); elems = p["elems"]; T = p["T"]; ents = []
    for i, x in enumerate(p["ents"]):
        c = Composition({e: k * x["m"] for e, k in zip(elems, x["c"]) if k})
        adj = []
        if x["carb"]: adj.append(CarbonateCorrection(2, 0.7) if x["conc"] else CarbonateCorrection(1))
        if x["conc"] and not x["carb"]: adj.append(CarbonDioxideAtmosphericCorrection(3, T))
        data = {"theoretical": bool(i % 3)} | ({"oxidation_states": {elems[0]: 1.0}} if x["poly"] else {})
        if x["kind"] == "interp": ents.append(InterpolatedEntry(c, x["h"] * c.num_atoms, energy_adjustments=adj + [ConstantEnergyAdjustment(0.0, uncertainty=0.05)], entry_id=None if x["noid"] else f"Interp-{i}", data=data if i % 2 else None))
        else: ents.append(GibbsComputedEntry(c, x["h"], x["v"], T, energy_adjustments=adj or None, parameters={"run_type": "GGA"} if i % 2 else None, data=data if i % 4 else None, entry_id=None if x["noid"] else f"mp-{i}"))
    if p["ref"]:
        for cl in (NISTReferenceEntry, FREEDReferenceEntry):
            fs = sorted(f for f in cl.REFERENCES if set(map(str, Composition(f).elements)) <= set(elems) and len(Composition(f).elements) > 1)
            for f in fs[:2]:
                try: ents.append(cl(Composition(f), T, data={"k": 1} if rng.random() < 0.5 else None))
                except ValueError: pass
    w = dict(elems=elems, ents=ents, T=T, eset=GibbsEntrySet(ents))
    rxns = []
    for _ in range(60):
        if len(rxns) >= 6: break
        k = rng.randint(2, min(len(elems) + 1, 4)); es = rng.sample(ents, min(k, len(ents)))
        cs = [tuple(num(e.composition.reduced_composition[x]) for x in elems) for e in es]
        if len(set(cs)) < len(es): continue
        g = nullspace_guard([[int(round(e.composition.reduced_composition[x])) for x in elems] for e in es])
        if not g or g[0] != 1 or 0 in g[1]: continue
        r = ComputedReaction(es, [x / 2 for x in g[1]], data=rng.choice([None, {}, {"cost": 0.5, "num_constraints": 1}]))
        if r.reactants and r.products: rxns.append(r if rng.random() < 0.5 else r.reverse())
    # edges of the network need not balance
    loose = []
    for _ in range(6):
        es = rng.sample(ents, min(len(ents), rng.choice([2, 2, 3, 5, 6]))); m = rng.choice([1, max(1, len(es) - 1)])
        if len({e.composition.reduced_formula for e in es}) == len(es): loose.append(ComputedReaction(es, [-1.0] + [float(rng.randint(1, 3)) * (-1 if j < m else 1) for j in range(1, len(es))], data={"w": rng.randint(0, 5)}))
    w["rxns"] = (rxns or loose)[:4]; w["loose"] = loose; w["rng"] = rng
    w["rset"] = ReactionSet.from_rxns(w["rxns"])
    w["forms"] = sorted({e.composition.reduced_formula for e in ents}); w["net"] = w["rxns"][0] if w["rxns"] else None
    w["hullrxns"] = []
    return w
def hull(w):
    rng = w["rng"]; ents = w["ents"]
    for _ in range(60 if rng.random() < 0.6 else 0):   # a reaction with many products: the second reactant is what is left
        es = list({e.composition.reduced_formula: e for e in rng.sample(ents, len(ents))}.values())[:rng.choice([4, 5, 6])]
        a, ps = es[0], es[1:]
        if len(ps) < 3: break
        ks = [float(rng.randint(1, 2)) for _ in ps]
        tot = sum((e.composition.reduced_composition * k for e, k in zip(ps, ks)), PComp()); ac = a.composition.reduced_composition
        left = {el: tot[el] - ac[el] for el in set(tot) | set(ac)}
        if min(left.values()) < 0 or max(left.values()) > 20 or sum(left.values()) < 1: continue
        bc = Composition({el: v for el, v in left.items() if v}); rf = bc.reduced_formula
        if rf in [e.composition.reduced_formula for e in es] or a.composition.reduced_formula == rf: continue
        b = GibbsComputedEntry(bc.reduced_composition, 0.25, 12.0, w["T"], entry_id="mp-99")
        r = ComputedReaction([a, b, *ps], [-1.0, -bc.num_atoms / bc.reduced_composition.num_atoms, *ks])
        if r.energy_per_atom < -1e-4 and r.balanced:
            w["hullrxns"] = [r]
            return InterfaceReactionHull(a.composition, b.composition, [r])
    for _ in range(40):
        a, b = rng.sample(ents, 2)
        if a.composition.reduced_formula == b.composition.reduced_formula: continue
        rs = []
        for _ in range(30):
            k = rng.randint(1, min(3, len(w["elems"])))
            ps = [e for e in rng.sample(ents, min(k, len(ents))) if e.composition.reduced_formula not in (a.composition.reduced_formula, b.composition.reduced_formula)]
            if not ps: continue
            g = nullspace_guard([[int(round(e.composition.reduced_composition[x])) for x in w["elems"]] for e in [a, b, *ps]])
            if not g or g[0] != 1 or 0 in g[1]: continue
            v = g[1] if g[1][0] < 0 else [-x for x in g[1]]
            if v[0] < 0 and v[1] < 0 and all(x > 0 for x in v[2:]): rs.append(ComputedReaction([a, b, *ps], v))
            if len({str(r) for r in rs}) >= 4: break
        seen = {}
        for r in rs: seen.setdefault(str(r), r)
        rs = list(seen.values())
        if rs and any(r.energy_per_atom < -1e-4 for r in rs):
            w["hullrxns"] = rs[:2]
            return InterfaceReactionHull(a.composition, b.composition, rs)
    return None
def build(p, w):
    rng = w["rng"]; k = p["kind"]; ents = w["ents"]; elems = w["elems"]
    some = lambda n: rng.sample(ents, min(n, len(ents)))
    pars = lambda: (lambda ps: dict(params=ps, weights=[rng.choice([0.5, 1.0, -0.25, 2]) for _ in ps]))(rng.choice([["energy_per_atom"], ["energy_per_atom", "energy"], ["num_atoms"]]))
    cost = lambda: rng.choice([lambda: Softplus(), lambda: Softplus(temp=rng.choice([300, 900]), **pars()), lambda: WeightedSum(**pars()), lambda: WeightedSum()])()
    def rset(n):
        rs = (w["rxns"] + w["loose"])[:n]
        if rng.random() < 0.4 and "O" in elems:
            mu = rng.choice([-0.5, -1.25])
            return ReactionSet.from_rxns(rs, open_elem=rng.choice(["O", Element("O")]), chempot=mu)
        s = ReactionSet.from_rxns(rs, entries=some(99) if rng.random() < 0.5 else None)
        if rng.random() < 0.15: s = ReactionSet(s.entries, s.indices, s.coeffs)
        return s
    def enum():
        z = rng.randrange(4); f = rng.sample(w["forms"], min(2, len(w["forms"])))
        kw = dict(precursors=f if rng.random() < 0.6 else None, targets=[rng.choice(w["forms"])] if rng.random() < 0.3 else None, exclusive_precursors=rng.random() < 0.7, exclusive_targets=rng.random() < 0.3, filter_duplicates=rng.random() < 0.4, filter_by_chemsys="-".join(elems[:2]) if rng.random() < 0.3 else None,
                  chunk_size=rng.choice([1, 10, 1000]), max_num_jobs=rng.choice([2, 500]), remove_unbalanced=True, remove_changed=rng.random() < 0.8, quiet=rng.random() < 0.5)
        return [lambda: BasicEnumerator(n=rng.choice([1, 2]), **kw), lambda: BasicOpenEnumerator(["O2"], n=rng.choice([1, 2]), **kw), lambda: MinimizeGibbsEnumerator(**kw), lambda: MinimizeGrandPotentialEnumerator(rng.choice(["O", Element("O")]), -0.75, **kw)][z]()
    def net():
        s = rset(max(1, p["n"])); n = ReactionNetwork(s, cost() if rng.random() < 0.8 else None)
        return n
    def paths():
        rs = (w["rxns"] + w["loose"])
        out = [BasicPathway(rng.sample(rs, rng.randint(1, min(3, len(rs)))), None) for _ in range(min(p["n"], 4))] if rs else []
        if rs: out = [BasicPathway(q.reactions, [rng.randint(1, 9) / 4 for _ in q.reactions]) if rng.random() < 0.8 else q for q in out]
        if rng.random() < 0.5: out = [BalancedPathway(q.reactions, [rng.randint(1, 4) / 2 for _ in q.reactions], q.costs, balanced=rng.random() < 0.5) for q in out]
        return out
    if k == "entry": return rng.choice(ents[-4:] if rng.random() < 0.5 else ents)
    if k == "entryset":
        es = copy.deepcopy(ents if rng.random() < 0.7 else some(4) if rng.random() < 0.9 else [])
        return GibbsEntrySet(es, calculate_e_above_hulls=rng.random() < 0.25 and len(es) == len(ents), minimize_obj_size=rng.random() < 0.2)
    if k == "basic":
        r = rng.choice(w["rxns"] + w["loose"]); return BasicReaction(r.compositions, r.coefficients, balanced=rng.choice([None, r.balanced]), data=rng.choice([None, {"a": 1.5}]), lowest_num_errors=rng.choice([0, 1]))
    if k == "rxn": r = rng.choice(w["rxns"] + w["loose"]); return ComputedReaction(r.entries, r.coefficients, data=rng.choice([None, {}, {"cost": 1.25, "x": [1, 2]}]), lowest_num_errors=rng.choice([0, 2]))
    if k == "open": r = rng.choice(w["rxns"] + w["loose"]); return OpenComputedReaction(r.entries, r.coefficients, {Element("O"): -1.5} if rng.random() < 0.8 or len(elems) < 3 else {Element("O"): -1.5, Element([e for e in elems if e != "O"][0]): -0.5}, data=rng.choice([None, {}, {"cost": 1.25}]))
    if k == "rxnset": return rset(p["n"])
    if k == "path": return (paths() or [BasicPathway(w["rxns"][:1] or w["loose"][:1])])[0]
    if k == "paths": return PathwaySet.from_paths(paths())
    if k == "cost": return cost()
    if k == "calc":
        if rng.random() < 0.5: return ChempotDistanceCalculator(ChemicalPotentialDiagram(ents), rng.choice(["sum", "max", "mean"]), name=rng.choice(["chempot_distance", "d"]))
        h = hull(w)
        return None if h is None else rng.choice([PrimaryCompetitionCalculator, SecondaryCompetitionCalculator])(h, *(["my_c"] if rng.random() < 0.3 else []))
    if k == "enum": return enum()
    if k == "solver":
        ps = paths()
        return PathwaySolver(PathwaySet.from_paths(ps), GibbsEntrySet(ents), cost(), open_elem="O" if rng.random() < 0.3 else None, chempot=-0.5, chunk_size=rng.choice([200, 100000]), batch_size=rng.choice([None, 8])) if ps and w["net"] else None
    if k == "network": return net()
    if k == "node": return NetworkEntry(some(rng.randint(1, 3)), rng.choice([NetworkEntryType.Precursors, NetworkEntryType.Reactants, NetworkEntryType.Products, NetworkEntryType.Target]))
    if k == "hull": return hull(w)
    if k == "cpd": return ChemicalPotentialDiagram(ents, **rng.choice([{}, {"default_min_limit": -50.0}]))
    if k == "corr": return rng.choice([CarbonateCorrection(2), CarbonateCorrection(1, 0.5), CarbonDioxideAtmosphericCorrection(3, 900), CarbonDioxideAtmosphericCorrection(6, 300.5, 0.1)])
    z = rng.randrange(4)
    if z == 0: return schema.EntrySetDocument(entries=GibbsEntrySet(ents), e_above_hull=0.05, formulas_to_include=w["forms"][:1])
    if z == 1: return schema.EnumeratorTaskDocument(rxns=rset(6), targets=w["forms"][:1], elements=[Element(e) for e in elems], chemsys="-".join(elems), enumerators=[enum()])
    if z == 2: return schema.CompetitionTaskDocument(rxns=rset(6), open_elem=Element("O"), chempot=-0.5, batch_size=3, cpd_kwargs={"default_min_limit": -50.0}, temp=300)
    n = net(); n.build()
    return schema.NetworkTaskDocument(network=n, paths=PathwaySet.from_paths(paths()), k=4, precursors=w["forms"][:2])

def execute(p):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return run(p)
def run(p):
    fakeray.reset(p["seed"]) if hasattr(fakeray, "reset") else None
    w = world(p); k = p["kind"]; ev = []
    try: o = build(p, w)
    except Exception as ex: return {"params": p, "ev": []}
    if o is None: return {"params": p, "ev": []}
    slots = {0: o}; docs = {}
    if k == "network":
        for m in [x for x in p["ops"] if x["op"] == "change"][:3]:
            try: slots[0], _ = change(k, slots[0], m, w)
            except Exception: pass
    ev.append(dict(op="new", s=0, k=1, kind=k))
    def ask(s): ev.append(dict(op="ask", s=s, kind=k, a=answers(Q[k](slots[s], w))))
    def dosave(s, d, form):
        e = dict(op="save", s=s, d=d, kind=k, digest="", exc=""); ev.append(e)
        try: x = save(slots[s], form); docs[d] = (x, form, type(slots[s])); e["digest"] = digest(x, form)
        except Exception as ex: e["exc"] = exc_name(ex); docs.pop(d, None)
    def doload(s, d):
        x, form, cls = docs[d]; e = dict(op="load", s=s, d=d, kind=k, exc=""); ev.append(e)
        try: slots[s] = load(x, form, cls)
        except Exception as ex: e["exc"] = exc_name(ex)
    forms = ["job"] if k == "doc" else None
    hot = set()   # objects that share memory with a dictionary are not changed
    ask(0)
    ops = p["ops"] + [dict(op="save", s=0, d=0, a=p["pick"], form=["dict", "json"][p["pick"] % 2]), dict(op="load", s=1, d=0, a=0, form=""), dict(op="ask", s=0, a=0, form=""), dict(op="ask", s=1, a=0, form=""), dict(op="load", s=2, d=0, a=0, form=""), dict(op="ask", s=2, a=0, form=""), dict(op="doc", s=0, d=0, a=0, form=""), dict(op="equal", s=0, d=0, a=1, form="")]
    for m in ops:
        n = m["op"]; s = m["s"] if m["s"] in slots else 0; d = m.get("d", 0)
        if n == "save": dosave(s, d, forms[0] if forms else m["form"]); hot.discard(("x", d)); hot |= {s} if docs.get(d, ("", ""))[1] in ("dict", "job") else set()
        elif n == "load":
            if d in docs: doload(m["s"], d); (hot.add if docs[d][1] in ("dict", "job") else hot.discard)(m["s"])
        elif n == "ask": ask(s)
        elif n == "change":
            if s in hot or k in ("path", "paths", "cost", "calc", "enum", "solver", "node", "hull", "cpd", "corr", "doc"): continue
            if any(slots[t] is slots[s] for t in slots if t != s): continue
            e = dict(op="change", s=s, kind=k, how="", exc="")
            try: slots[s], e["how"] = change(k, slots[s], m, w)
            except Exception as ex: e["exc"] = exc_name(ex); e["how"] = f"{m['how']}:{m['a']}"
            ev.append(e); ask(s)
        elif n == "doc":
            if d in docs and docs[d][1] in ("dict", "job"): ev.append(dict(op="doc", d=d, kind=k, digest=digest(docs[d][0], docs[d][1])))
        elif n == "equal" and k in EQUAL:
            t = m["a"] % 3
            if k == "open" and not np.isfinite(slots[s].energy_per_atom): continue   # nothing but open phases
            if t in slots and s in slots and t != s:
                e = dict(op="equal", s=s, t=t, kind=k, got=False); ev.append(e)
                try: e["got"] = bool(slots[s] == slots[t]) and bool(slots[t] == slots[s]) and (k not in HASH or hash(slots[s]) == hash(slots[t]))
                except Exception as ex: e["got"] = False
    return {"params": p, "ev": ev}
def params(focus, n):
    rng = rng_for(focus)
    return [gen(rng) for _ in range(n)]
def c30():
    ck = Check("C30")
    ck.mc("MCStore", scale("MCStore.cfg", "MCStoreDeep.cfg"))
    from . import paths; paths.warm()    # compile the solver's kernel once, before the workers are forked
    ck.judge("TraceStore", run_cases(execute, params("C30", scale(900, 9000))))
    return ck.finish("objects of every kind in random worlds, saved (dictionary, JSON, the form jobs store, pickled), loaded, changed, compared and asked in random order")
