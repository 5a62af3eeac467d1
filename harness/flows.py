"""Driver for workflows (C31): makers, makers derived from them, flows built from them, and flows run in any order."""
from __future__ import annotations
import contextlib, copy, hashlib, inspect, io, os, random, warnings
from .common import Check, rng_for, scale, run_cases, exc_name
from .chem import *
from . import fakeray, saving
from .saving import canon, num, rx, en, answers, q_cost
from .entrydb import rester
from .entries import structure
import numpy as np
from jobflow import Flow, JobStore, OutputReference
from maggma.stores import MemoryStore
from pymatgen.core import Element
from pymatgen.entries.computed_entries import ComputedStructureEntry
from rxn_network.core import Composition
from rxn_network.costs.functions import Softplus
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.enumerators.basic import BasicEnumerator, BasicOpenEnumerator
from rxn_network.enumerators.minimize import MinimizeGibbsEnumerator, MinimizeGrandPotentialEnumerator
from rxn_network.enumerators.utils import run_enumerators
from rxn_network.flows.core import NetworkFlowMaker
from rxn_network.jobs.core import GetEntrySetMaker, NetworkMaker, PathwaySolverMaker, ReactionEnumerationMaker
from rxn_network.network.network import ReactionNetwork
from rxn_network.pathways.solver import PathwaySolver
from rxn_network.reactions.basic import BasicReaction
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction
from rxn_network.reactions.reaction_set import ReactionSet
KIND = {"GetEntrySetMaker": "entries", "ReactionEnumerationMaker": "enum", "NetworkMaker": "net", "PathwaySolverMaker": "solve"}
STORED = {"entries": ("EntrySetDocument", "entries"), "enum": ("EnumeratorTaskDocument", "rxns"), "net": ("NetworkTaskDocument", "network"), "solve": ("PathwaySolverTaskDocument", "paths")}
EATTR = ["n", "precursors", "targets", "exclusive_precursors", "exclusive_targets", "filter_duplicates", "filter_by_chemsys", "chunk_size", "max_num_jobs", "remove_unbalanced", "remove_changed", "max_num_constraints"]
def short(s): return s if os.environ.get("LONG") or len(s) < 80 else s[:40] + "#" + hashlib.md5(s.encode()).hexdigest()[:12]
def eattr(e): return short(canon([[a, sorted(map(str, v)) if isinstance(v := getattr(e, a, "-"), (list, set, tuple)) else v] for a in EATTR]))
def own(m):
    if m is None: return ""
    d = m.as_dict()
    return short(canon({k: v for k, v in plain(d).items() if k not in ("name", "open_elem", "chempot", "formulas_to_include")}))
def plain(x):
    if isinstance(x, dict): return {k: plain(v) for k, v in x.items() if k != "@version"}
    return [plain(v) for v in x] if isinstance(x, (list, tuple)) else x
def mu(x): return num(x)
def options(m):
    """what the maker says about itself"""
    kb, km = m.basic_enumerator_kwargs, m.minimize_enumerator_kwargs
    o = str(m.open_elem) if m.open_elem else ""
    f = Composition(o).reduced_formula if o else "O2"
    enum = {"BasicEnumerator": eattr(BasicEnumerator(**copy.deepcopy(kb))), "BasicOpenEnumerator": eattr(BasicOpenEnumerator(open_phases=[f], **copy.deepcopy(kb))),
            "MinimizeGibbsEnumerator": eattr(MinimizeGibbsEnumerator(**copy.deepcopy(km))), "MinimizeGrandPotentialEnumerator": eattr(MinimizeGrandPotentialEnumerator(open_elem=Element(o or "O"), mu=-1.0, **copy.deepcopy(km)))}
    return dict(given="", basic=bool(m.use_basic_enumerators), mini=bool(m.use_minimize_enumerators), solver=m.solver_maker is not None, open=o, mus=[mu(x) for x in m.chempots or []], enum=enum,
                own=dict(entries=own(m.get_entry_set_maker), enum=own(m.enumeration_maker), net=own(m.network_maker), solve=own(m.solver_maker)), inc=sorted(m.get_entry_set_maker.formulas_to_include), pre=[], tgt=[], elems=[])
def digest(es): return "g" + hashlib.md5("|".join(sorted(map(en, es))).encode()).hexdigest()[:10]

# ------------------------------------------------------------ reading flows
def refs(x, name, out):
    if isinstance(x, OutputReference): out.append((name, x.uuid, ".".join(str(a[1]) for a in x.attributes)))
    elif isinstance(x, GibbsEntrySet): pass
    elif isinstance(x, dict): [refs(v, name, out) for v in x.values()]
    elif isinstance(x, (list, tuple, set)): [refs(v, name, out) for v in x]
def flat(f): return [j for x in f.jobs for j in (flat(x) if isinstance(x, Flow) else [x])]
def read(flow, formula_elem):
    jobs = flat(flow); at = {j.uuid: i for i, j in enumerate(jobs, 1)}; out = []
    for j in jobs:
        m = j.function.__self__; kind = KIND.get(type(m).__name__, type(m).__name__)
        ar = inspect.signature(type(m).make.original).bind(m, *j.function_args, **j.function_kwargs).arguments
        rs = []
        for k, v in ar.items():
            if k != "self": refs(v, k, rs)
        r = dict(kind=kind, own=own(m), open=str(getattr(m, "open_elem", None) or ""), mu="0" if not getattr(m, "open_elem", None) else mu(m.chempot), enums=[], given="", inc=[], chem=[],
                 refs=sorted([f"{k}:{p}", at.get(u, 0)] for k, u, p in rs))
        r["stored"] = kind in STORED and j.output_schema is not None and j.output_schema.__name__ == STORED[kind][0] and j._kwargs.get(STORED[kind][1]) == STORED[kind][1]
        if kind == "entries": r["inc"] = sorted(m.formulas_to_include); r["chem"] = sorted(ar["chemsys"].split("-"))
        if kind == "enum":
            for e in ar["enumerators"]:
                c = type(e).__name__
                op = getattr(e, "open_elem", None) or (formula_elem.get(sorted(map(str, e.open_phases))[0], "?") if getattr(e, "open_phases", None) and len(e.open_phases) == 1 else "")
                r["enums"].append([c, str(op), mu(e.mu) if hasattr(e, "mu") and getattr(e, "open_elem", None) else "", eattr(e)])
            if isinstance(ar["entries"], GibbsEntrySet): r["given"] = digest(ar["entries"])
        out.append(r)
    return jobs, out

# ------------------------------------------------------------ results
def val(f):
    try:
        with contextlib.redirect_stdout(io.StringIO()): return [short(canon(x)) for x in f()]
    except Exception as ex: return ["exc:" + exc_name(ex)]
def rxn(r):
    """a reaction up to the order of its phases and its scale"""
    s = max(abs(float(c)) for c in r.coefficients)
    return "+".join(sorted(f"{num(c / s)} {en(e)}" for c, e in zip(r.coefficients, r.entries))) + f"|{canon(getattr(r, 'chempots', None))}|{num(r.energy_per_atom)}"
def v_entries(es): return [sorted(map(en, es))]
def v_enum(rs, targets, els, added): return [sorted(rxn(r) for r in rs), sorted(targets), sorted(els), None if added is None else sorted(added)]
def v_net(n, paths, k, pre, tgt): return [sorted(rxn(r) for r in n.rxns.get_rxns()), answers(q_cost(n.cost_function, NOTHING)), None if n.precursors is None else sorted(map(en, n.precursors)), None if n.target is None else en(n.target), k, pre, tgt,
                                          None if paths is None else sorted([sorted(rxn(r) for r in p.reactions), num(p.total_cost)] for p in paths)]
# costs are left out: the cost of an intermediate reaction in a path depends on which of its equal copies was kept
# and whether the net reaction itself counts as a step depends on the scale of the copy kept
# and the multiplicities of linearly dependent steps (so whether they are all positive) depend on those scales too
def independent(rs):
    ph = sorted({en(e) for r in rs for e in r.entries})
    M = np.zeros((len(rs), len(ph)))
    for i, r in enumerate(rs):
        s = max(abs(float(c)) for c in r.coefficients)
        for c, e in zip(r.coefficients, r.entries): M[i, ph.index(en(e))] += c / s
    return np.linalg.matrix_rank(M, tol=1e-6) == len(rs)
def v_solve(ps, net): return [rxn(net), sorted([sorted(x)] for x in ([rxn(r) for r in p.reactions] for p in ps if independent(p.reactions)) if rxn(net) not in x)]
class Empty(list):
    def calculate_costs(self, c): return []
NOTHING = dict(rxns=[], rset=Empty())
def value(kind, d):
    if kind == "entries": return v_entries(d.entries)
    if kind == "enum": return v_enum(d.rxns.get_rxns(), d.targets, map(str, d.elements), None if d.added_elements is None else map(str, d.added_elements)) if sorted(d.chemsys.split("-")) == sorted(map(str, d.elements)) and (d.added_chemsys or "") == "-".join(sorted(map(str, d.added_elements or []))) else ["chemsys", d.chemsys, d.added_chemsys]
    if kind == "net": return v_net(d.network, d.paths, d.k, d.precursors, d.targets)
    return v_solve(d.balanced_paths, d.net_rxn)

# ------------------------------------------------------------ doing the same without a workflow
def direct(m, pre, tgt, elems, entries):
    """{stage: value} and what later stages need"""
    out = {}
    bad = object()
    def stage(s, make, show):
        try:
            with contextlib.redirect_stdout(io.StringIO()): x = make(); out[s] = [short(canon(y)) for y in show(x)]
        except Exception as ex: x = bad; out[s] = ["exc:" + exc_name(ex)]
        return x
    if entries is None:
        def get():
            k = copy.copy(m.get_entry_set_maker); k.formulas_to_include = sorted(set(k.formulas_to_include) | set(pre) | set(tgt))
            return GetEntrySetMaker.make.original(k, "-".join(elems)).entries
        entries = stage(("entries", 0), get, v_entries)
        if entries is bad: return out
    have = {str(x) for e in entries for x in e.composition.elements}
    kb, km = copy.deepcopy(m.basic_enumerator_kwargs), copy.deepcopy(m.minimize_enumerator_kwargs)
    o = m.open_elem; es = []
    if m.use_basic_enumerators: es += [BasicEnumerator(**kb)] + ([BasicOpenEnumerator([Composition(str(o)).reduced_formula], **kb)] if o else [])
    if m.use_minimize_enumerators: es.append(MinimizeGibbsEnumerator(**km))
    branches = [(0, None, 0.0, es)]
    if o and m.use_minimize_enumerators: branches += [(i, o, x, [MinimizeGrandPotentialEnumerator(open_elem=o, mu=x, **km)]) for i, x in enumerate(m.chempots or [], 1)]
    base = None; tie = set()
    for b, oe, x, es in branches:
        rs = stage(("enum", b), lambda: run_enumerators(es, entries), lambda r: v_enum(r.get_rxns(), {t for e in es for t in e.targets}, have, (have - {str(x) for t in tg for x in Composition(t).elements}) if (tg := {t for e in es for t in e.targets}) else None))
        if b == 0: base = rs
        if rs is bad or base is bad: continue
        def net():
            all_rxns = list(base.get_rxns()) + (list(rs.get_rxns()) if b else [])
            n = ReactionNetwork(ReactionSet.from_rxns(all_rxns, open_elem=oe, chempot=x).filter_duplicates(), cost_function=m.network_maker.cost_function); n.build()
            k = m.network_maker; paths = None
            if k.precursors: n.set_precursors(k.precursors)
            if k.targets: n.set_target(k.targets[0])
            if k.targets and k.calculate_pathways:
                paths = n.find_pathways(k.targets, k=k.calculate_pathways)
                for t in k.targets:
                    cs = sorted(p.total_cost for p in n.find_pathways([t], k=k.calculate_pathways + 3))
                    if any(y - x < 1e-7 for x, y in zip(cs, cs[1:])): tie.add(b)
            return n, paths
        k = m.network_maker
        np_ = stage(("net", b), net, lambda z: v_net(z[0], z[1], k.calculate_pathways, k.precursors, k.targets))
        if b in tie: out["net", b][-1] = "?"   # which of the equally good paths are found is open
        if np_ is bad or b in tie or not m.solver_maker: continue
        def solve():
            s = m.solver_maker; n, paths = np_
            ps = PathwaySolver(paths, n.entries, s.cost_function, open_elem=oe, chempot=x)
            br = BasicReaction.balance([Composition(f) for f in s.precursors], [Composition(f) for f in s.targets])
            rr, pp = ([n.entries.get_min_entry_by_formula(c.reduced_formula) for c in side] for side in (br.reactants, br.products))
            nr = OpenComputedReaction.balance(rr, pp, {Element(oe): x}) if oe else ComputedReaction.balance(rr, pp)
            return ps.solve(net_rxn=nr, max_num_combos=s.max_num_combos, find_intermediate_rxns=s.find_intermediate_rxns, intermediate_rxn_energy_cutoff=s.intermediate_rxn_energy_cutoff,
                            use_basic_enumerator=s.use_basic_enumerator, use_minimize_enumerator=s.use_minimize_enumerator, filter_interdependent=s.filter_interdependent), nr
        stage(("solve", b), solve, lambda z: v_solve(*z))
    return out

# ------------------------------------------------------------ cases
def gen(rng):
    p = saving.gen(rng); p["ref"] = False
    for e in p["ents"]: e["carb"] = e["conc"] = False; e["kind"] = "gibbs"; e["noid"] = False; e["m"] = 1
    seen = set(); p["ents"] = [e for e in p["ents"] if not (tuple(e["c"]) in seen or seen.add(tuple(e["c"])))]
    p["ops"] = [rng.choice(["flow", "flow", "derive", "derive", "assign", "maker", "run", "seen"]) for _ in range(rng.randint(2, 6))]
    p["big"] = rng.random() < 0.45
    return p
def makers(rng, w, p):
    fs = w["forms"]; r = w["rxns"][0] if w["rxns"] else None
    pre, tgt = ([c.reduced_formula for c in r.reactants], [c.reduced_formula for c in r.products]) if r and rng.random() < 0.9 else (rng.sample(fs, min(2, len(fs))), rng.sample(fs, 1))
    cost = lambda: rng.choice([Softplus(), Softplus(temp=900), Softplus(temp=300, params=["energy_per_atom"], weights=[0.5])])
    kb = rng.choice([{}, {"n": 1}, {"n": 2, "exclusive_precursors": False}, {"n": 2, "precursors": list(pre)}, {"n": 2, "targets": list(tgt), "exclusive_targets": False}, {"n": 2, "chunk_size": 3}])
    km = rng.choice([{}, {"precursors": list(pre)}, {"targets": list(tgt)}, {"filter_duplicates": True}])
    if not p["big"] or len(w["ents"]) > 7: kb = dict(kb, n=1)
    solver = None
    if r and pre and rng.random() < 0.55:
        try: solver = PathwaySolverMaker(cost_function=cost(), precursors=list(pre), targets=list(tgt), max_num_combos=rng.choice([2, 3]), find_intermediate_rxns=rng.random() < 0.6, intermediate_rxn_energy_cutoff=rng.choice([0.0, 0.5]), use_basic_enumerator=rng.random() < 0.8, use_minimize_enumerator=rng.random() < 0.3, filter_interdependent=rng.random() < 0.7)
        except ValueError: pass
    z = rng.random()
    nm = NetworkMaker() if z < 0.15 and not solver else NetworkMaker(cost_function=cost(), precursors=list(pre), targets=list(tgt) if rng.random() < 0.9 or solver else None, calculate_pathways=rng.choice([3, 2, 5]) if rng.random() < 0.85 or solver else None)
    em = GetEntrySetMaker() if rng.random() < 0.3 else GetEntrySetMaker(temperature=rng.choice([300, 700, 1000]), e_above_hull=rng.choice([0.0, 0.05, 5.0]), include_nist_data=rng.random() < 0.5, include_polymorphs=rng.random() < 0.3, formulas_to_include=rng.choice([[], [rng.choice(fs)]]), calculate_e_above_hulls=rng.random() < 0.3)
    kw = dict(network_maker=nm, solver_maker=solver, get_entry_set_maker=em, enumeration_maker=ReactionEnumerationMaker() if rng.random() < 0.5 else ReactionEnumerationMaker(name="enum"), open_elem=rng.choice(["O", "O", None, Element("O")]), chempots=rng.choice([None, [], [-0.5], [-1.0, 0.0], [-0.25, -0.75, -1.25], [-1, -1]]),
              use_basic_enumerators=rng.random() < 0.8, use_minimize_enumerators=rng.random() < 0.75, basic_enumerator_kwargs=kb, minimize_enumerator_kwargs=km)
    if not kw["use_basic_enumerators"] and not kw["use_minimize_enumerators"]: kw["use_basic_enumerators"] = True
    for k in list(kw):
        if k not in ("network_maker", "basic_enumerator_kwargs", "use_minimize_enumerators", "use_basic_enumerators") and (kw[k] is None or rng.random() < 0.05): kw.pop(k)
    return kw, pre, tgt
def execute(p):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return run(p)
def run(p):
    fakeray.SCHED.reset(p["seed"])
    rng = random.Random(p["pick"]); w = saving.world(p); elems = p["elems"]; ev = []
    docs = []
    for i, x in enumerate(p["ents"], 1):
        st = structure(elems, x["c"], 1, x["v"] * 1.0)
        docs.append({"task_id": f"mp-{i}", "elements": sorted({str(e) for e in st.composition.elements}), "entries": {"GGA": ComputedStructureEntry(st, (x["h"] - 3) * len(st), entry_id=f"mp-{i}", parameters={"run_type": "GGA"}, data={"theoretical": bool(i % 2)}).as_dict()}})
    felem = {Composition(e).reduced_formula: e for e in elems}
    M, F, done = {}, {}, set()
    kw, pre, tgt = makers(rng, w, p); M[1] = NetworkFlowMaker(**kw)
    ev.append(dict(op="maker", m=1, o=options(M[1])))
    def seen(i): ev.append(dict(op="maker_seen", m=i, o=options(M[i])))
    def flow(i):
        k = len(F) + 1; given = rng.random() < 0.6; es = None
        e = dict(op="flow", f=k, m=i, given="", pre=[], tgt=[], elems=[], jobs=[], exc=""); ev.append(e)
        if given: es = GibbsEntrySet(copy.deepcopy(w["ents"])); e["given"] = digest(es)
        pf, tf = list(pre), list(tgt)
        if rng.random() < 0.2: pf.append(rng.choice(w["forms"]))
        scaled = [c if rng.random() < 0.6 else Composition(c) * 2 for c in pf]
        args = [x if isinstance(x, str) else x.formula.replace(" ", "") for x in scaled]
        cols = [args, tuple(tf)] if rng.random() < 0.5 else [iter(args), tf]
        e["pre"] = sorted(set(pf)); e["tgt"] = sorted(set(tf)); e["elems"] = sorted({str(x) for f in pf + tf for x in Composition(f).elements})
        try:
            f = M[i].make(*cols, entries=es) if es is not None or rng.random() < 0.5 else M[i].make(*cols)
            jobs, e["jobs"] = read(f, felem)
            F[k] = (f, jobs, i, copy.deepcopy(M[i]), e, es)
        except Exception as ex: e["exc"] = exc_name(ex)
        seen(i)
    def again(k):
        if k in F and k not in done: ev.append(dict(op="flow_seen", f=k, jobs=read(F[k][0], felem)[1]))
    def change():
        z = rng.randrange(5)
        return [lambda: {"chempots": rng.choice([[-0.5], [-1.5, -0.5], [0.0]])}, lambda: {"use_basic_enumerators": True, "use_minimize_enumerators": rng.random() < 0.5}, lambda: {"use_minimize_enumerators": True},
                lambda: {"basic_enumerator_kwargs": {"n": 1}}, lambda: {"minimize_enumerator_kwargs": {"filter_duplicates": rng.random() < 0.5}}][z]()
    def runflow(k):
        if k not in F or k in done: return
        done.add(k)   # running resolves the references of the jobs
        f, jobs, i, m, e, es = F[k]
        for s, v in direct_with(m, e, es, elems, docs).items(): ev.append(dict(op="direct", f=k, stage=list(s), value=v))
        store = JobStore(MemoryStore(), additional_stores={n: MemoryStore() for n in ("rxns", "entries", "network", "paths")}); store.connect()
        vals = {}; todo = list(range(len(jobs))); at = {j.uuid: n for n, j in enumerate(jobs)}
        import mp_api.client as mc
        old = mc.MPRester; mc.MPRester = rester(docs, [])
        try:
            while todo:
                ready = [n for n in todo if all(at[u] in vals for u in {r for r in jobs[n].input_uuids} if u in at)]
                if not ready: break
                n = rng.choice(ready); todo.remove(n)
                r = None
                def go():
                    nonlocal r
                    r = jobs[n].run(store).output; return value(e["jobs"][n]["kind"], r)
                if any(not vals[at[u]] or vals[at[u]][0].startswith("exc:") for u in jobs[n].input_uuids if u in at): vals[n] = []; continue
                vals[n] = val(go)
        finally: mc.MPRester = old
        ev.append(dict(op="ran", f=k, values=[vals.get(n, []) for n in range(len(jobs))]))
    for o in p["ops"] + ["flow", "seen"] + (["run"] if p["big"] else []):
        i = rng.choice(list(M))
        if o == "flow": flow(i)
        elif o == "seen": [again(k) for k in F]; [seen(j) for j in M]
        elif o == "maker" and len(M) < 4:
            k2, _, _ = makers(rng, w, p)
            for x in ("basic_enumerator_kwargs", "minimize_enumerator_kwargs", "network_maker", "get_entry_set_maker"):
                if rng.random() < 0.4 and x in kw: k2[x] = kw[x]   # the same objects
            j = len(M) + 1; M[j] = NetworkFlowMaker(**k2); ev.append(dict(op="maker", m=j, o=options(M[j])))
        elif o == "derive" and len(M) < 5:
            j = len(M) + 1; z = rng.random()
            e = dict(op="derive", m=i, to=j, o={}, exc=""); ev.append(e)
            try:
                if z < 0.6:
                    ch = change(); M[j] = M[i].update_kwargs(ch, nested=False)
                    c = copy.copy(M[i])
                    for x, v in ch.items(): setattr(c, x, v)
                    e["o"] = {x: v for x, v in options(c).items() if x in ("mus", "basic", "mini", "enum")}
                else:
                    T = rng.choice([450, 850]); M[j] = M[i].update_kwargs({"temperature": T}, class_filter=GetEntrySetMaker)
                    c = copy.deepcopy(M[i].get_entry_set_maker); c.temperature = T
                    e["o"] = {"own": dict(options(M[i])["own"], entries=own(c))}
            except Exception as ex: e["exc"] = exc_name(ex); M.pop(j, None)
            seen(i)
            if j in M: seen(j)
        elif o == "assign":
            m = M[i]; ch = change()
            before = options(m)
            for k, v in ch.items(): setattr(m, k, v)
            after = options(m); ev.append(dict(op="assign", m=i, o={k: after[k] for k in after if after[k] != before[k]}))
            [again(k) for k in F]; [seen(j) for j in M]
        elif o == "run" and F: runflow(rng.choice(list(F)))
    return {"params": p, "ev": ev}
def direct_with(m, e, es, elems, docs):
    import mp_api.client as mc
    old = mc.MPRester; mc.MPRester = rester(docs, [])
    try: return direct(m, e["pre"], e["tgt"], e["elems"], copy.deepcopy(es))
    finally: mc.MPRester = old
def params(focus, n):
    rng = rng_for(focus)
    return [gen(rng) for _ in range(n)]
def c31():
    ck = Check("C31")
    ck.mc("MCFlow", scale("MCFlow.cfg", "MCFlowDeep.cfg"))
    from . import paths; paths.warm()
    ck.judge("TraceFlow", run_cases(execute, params("C31", scale(500, 5000))))
    return ck.finish("makers with random options, makers derived from them and changed in between, flows built from them (with and without entries) and run in random order, against the same done without a workflow")
