"""Drivers for the reaction network: C12 (graph), C13 (histories), C14 (k shortest paths), C15 (pathways)."""
from __future__ import annotations
import contextlib, io, itertools, json, logging, warnings
from .common import Check, rng_for, scale, run_cases, exc_name
from .chem import *
from . import fakeray
from .fakes import LinEntry
import rustworkx as rx
from monty.json import MontyDecoder, MontyEncoder
from rxn_network.core import Composition
from rxn_network.costs.functions import WeightedSum
from rxn_network.network.network import ReactionNetwork, yens_ksp
from rxn_network.network.base import Graph
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction
from rxn_network.reactions.reaction_set import ReactionSet
from pymatgen.core import Element
for _n in list(logging.root.manager.loggerDict):
    if _n.startswith("rxn_network"): logging.getLogger(_n).setLevel(logging.WARNING)
warnings.simplefilter("ignore")
ELS = ["Li", "Mn", "Y", "O", "Ba", "C", "Ti"]
T0 = 300
KIND = {"loopback_edge": "loop", "precursor_edge": "pre", "target_edge": "tgt"}

# ------------------------------------------------------------ parameters
def gen_world(rng):
    elems = rng.sample(ELS, rng.choice([2, 3, 4]))
    nc = rng.randint(3, 6)
    comps = random_comps(rng, elems, nc, 3, 3)
    ents = []
    for c in comps:
        for _ in range(rng.choice([1, 1, 1, 2])): ents.append(dict(c=c, e=rng.randint(-40, 0)))
    rng.shuffle(ents)
    for i, x in enumerate(ents):
        x["b"] = i + 1
        while any(y is not x and y["c"] == x["c"] and y["e"] == x["e"] for y in ents): x["e"] += 7
    ids = list(range(1, len(ents) + 1))
    rs = []
    style = rng.choice(["random", "chain", "cycle"])
    for _ in range(rng.randint(2, 9)):
        if style != "random" and rs and rng.random() < 0.6:
            last = rng.choice(rs)
            A = set(rng.sample(last["p"], rng.randint(1, len(last["p"]))))
            if style == "cycle" and rng.random() < 0.4 and set(last["r"]) != A: rs.append(dict(r=sorted(A), p=sorted(set(last["r"]) - A) or last["r"])); continue
        else: A = set(rng.sample(ids, rng.choice([1, 1, 2, 2, 3])) if len(ids) > 3 else rng.sample(ids, 1))
        B = [i for i in ids if i not in A]
        if not B: continue
        B = rng.sample(B, min(len(B), rng.choice([1, 1, 2, 2, 3])))
        rs.append(dict(r=sorted(A), p=sorted(B)))
    fm = {x["b"]: tuple(x["c"]) for x in ents}
    rs = [x for x in rs if len({fm[i] for i in x["r"] + x["p"]}) == len(x["r"] + x["p"])]    # one polymorph of a phase per reaction
    out = []
    for x in rs:
        for _ in range(rng.choice([1, 1, 1, 1, 2])):
            out.append(dict(r=x["r"], p=x["p"], co=[-rng.randint(1, 3) for _ in x["r"]] + [rng.randint(1, 3) for _ in x["p"]], w=rng.choice([0, 1, 1, 2, 3, 4, 5, 7])))
    rng.shuffle(out)
    return elems, ents, out[:10]

def ideal_paths(p, pre, tgt, limit=250):
    """number of loopless paths (only used to keep cases small)"""
    rs = [(frozenset(x["r"]), frozenset(x["p"])) for x in p["rs"]]; rs = list(dict.fromkeys(rs)); pre = frozenset(pre); n = 0
    steps = 0
    stack = [(r, {("R", r[0])} | {("P", r[1])}) for r in rs if r[0] <= pre]
    while stack:
        steps += 1
        if steps > 40 * limit: return limit + 1
        r, seen = stack.pop()
        if tgt in r[1]: n += 1
        if n > limit: return n
        for s in rs:
            if ("R", s[0]) in seen or ("P", s[1]) in seen: continue
            if s[0] == r[1] or (s[0] <= r[1] | pre and not s[0] <= pre): stack.append((s, seen | {("R", s[0]), ("P", s[1])}))
    return n

def gen(rng, focus):
    elems, ents, rs = gen_world(rng)
    if not rs: return None
    p = dict(focus=focus, elems=elems, ents=ents, rs=rs, wu=rng.choice([1.0, 1.0, 0.01, 0.0003]), openel=rng.random() < 0.12, ss=rng.randrange(10**6))
    if any(not any(x["c"][1:]) for x in ents): p["openel"] = False      # no phase of the open element alone: sides without atoms have no energy per atom
    used = sorted({i for x in rs for i in x["r"] + x["p"]})
    prod = sorted({i for x in rs for i in x["p"]}); reac = [x["r"] for x in rs]
    ops = [dict(op="build")]
    pre = None
    n = rng.randint(1, 3) if focus == "C12" else rng.randint(3, 8) if focus == "C13" else rng.randint(2, 3)
    def mkp():
        base = set(rng.choice(reac)) if rng.random() < 0.8 else set()
        k = rng.choice([0, 0, 1, 1, 2])
        base |= set(rng.sample(used, min(k, len(used))))
        base = sorted(base or {rng.choice(used)})
        return dict(op="setp", ids=base, byf=[rng.random() < 0.4 for _ in base], miss=focus == "C13" and rng.random() < 0.06)
    for i in range(n):
        k = rng.random()
        if focus == "C15": ops.append(mkp() if i == 0 else dict(op="find"))
        elif k < 0.45: ops.append(mkp())
        elif k < 0.75: ops.append(dict(op="sett", id=rng.choice(used if rng.random() < 0.3 else prod), byf=rng.random() < 0.4, miss=focus == "C13" and rng.random() < 0.06))
        elif focus == "C13" and k < 0.8: ops.append(dict(op="build"))
        elif focus == "C13": ops.append(dict(op="find"))
    if focus == "C30":
        ops.append(dict(op="reload", json=rng.random() < 0.7)); ops.append(dict(op="find"))
        if rng.random() < 0.5: ops += [mkp(), dict(op="reload", json=rng.random() < 0.7), dict(op="sett", id=rng.choice(prod), byf=False, miss=False), dict(op="find")]
    for o in ops:
        if o["op"] == "find":
            o["targets"] = rng.sample(used if rng.random() < 0.25 else prod, 1 if rng.random() < 0.7 or len(prod) < 2 else 2)
            o["byf"] = rng.random() < 0.4; o["k"] = rng.choice([1, 2, 3, 4, 5, 8, 15, 40])
    p["ops"] = ops
    return p

# ------------------------------------------------------------ execution
class World:
    def __init__(self, p):
        self.p = p; el = p["elems"]; self.E = {}; self.wu = p.get("wu", 1.0)
        for x in p["ents"]:
            self.E[x["b"]] = LinEntry(Composition({e: n for e, n in zip(el, x["c"]) if n}), {T0: float(x["e"])}, T0, f"id-{x['b']}")
        self.used = {i for x in p["rs"] for i in x["r"] + x["p"]}
        rxns = []
        for k, x in enumerate(p["rs"]):
            data = {"id": k + 1, "w": x["w"] * self.wu}
            es = [self.E[i] for i in x["r"] + x["p"]]
            co = [float(v) for v in x["co"]]
            rxns.append(OpenComputedReaction(es, co, chempots={Element(el[0]): -1.0}, data=data) if p["openel"] else ComputedReaction(es, co, data=data))
        self.rset = ReactionSet.from_rxns(rxns)
        # reactions in the order in which the set yields them
        self.cf = WeightedSum(params=["w"], weights=[1.0])
    def id(self, e): return int(str(e.entry_id)[3:])
    def f(self, i): return formula(self.p["elems"], self.p["ents"][i - 1]["c"])
    def ground(self, i):
        c = self.p["ents"][i - 1]["c"]
        return min((x["e"], x["b"]) for x in self.p["ents"] if x["c"] == c and x["b"] in self.used)[1]
    def net(self): return ReactionNetwork(self.rset, cost_function=self.cf)
    def graph(self, rn):
        g = rn.graph; idx = list(g.node_indices()); pos = {i: k + 1 for k, i in enumerate(idx)}
        nodes = [[{"Precursors": "S", "Target": "T", "Reactants": "R", "Products": "P"}.get(g.get_node_data(i).description.name, "?"),
                  sorted(self.id(e) for e in g.get_node_data(i).entries)] for i in idx]
        edges = []
        for s, t, d in g.weighted_edge_list():
            if isinstance(d, str): edges.append([pos[s], pos[t], KIND.get(d, "?"), 0, 0])
            else: edges.append([pos[s], pos[t], "rxn", self.rid(d), self.cost(d)])
        return dict(nodes=nodes, edges=edges)
    def rid(self, r):
        k = r.data.get("id", 0)
        if not 1 <= k <= len(self.p["rs"]): return 0
        x = self.p["rs"][k - 1]
        want = dict(zip(x["r"] + x["p"], x["co"])); got = {self.id(e): c for e, c in zip(r.entries, r.coefficients)}
        return k if want.keys() == got.keys() and all(abs(want[i] - got[i]) < 1e-9 for i in want) and isinstance(r, OpenComputedReaction) == self.p["openel"] else 0
    def cost(self, r): return self.num(self.cf.evaluate(r))
    def num(self, v):
        x = float(v) / self.wu; return int(round(x)) if abs(x - round(x)) < 1e-6 else -1

def quiet():
    return contextlib.redirect_stdout(io.StringIO())

def find(w, rn, targets, byf, k):
    out = []
    with quiet(): ps = rn.find_pathways([w.f(t) if byf else w.E[t] for t in targets], k=k)
    return [dict(ix=[w.rid(r) for r in q.reactions], costs=[w.num(c) for c in q.costs], total=w.num(q.total_cost)) for q in ps]


def execute(p):
    w = World(p); ev = []; rn = None; pre = None; rs = p["rs"]
    for o in p["ops"]:
        e = dict(op=o["op"], exc="")
        if o["op"] == "build":
            try:
                if rn is None: rn = w.net()
                with quiet(): rn.build()
                e["g"] = w.graph(rn)
            except Exception as x: e["exc"] = exc_name(x)
            e["rs"] = [dict(r=x["r"], p=x["p"], w=x["w"]) for x in rs]
            pre = None
        elif o["op"] == "setp":
            ids = [w.ground(i) if b else i for i, b in zip(o["ids"], o["byf"])]
            args = [w.f(i) if b else w.E[i] for i, b in zip(o["ids"], o["byf"])]
            if o["miss"]: args.append("Rb2Xe3" if ids[0] % 2 else LinEntry(Composition("Rb2Xe3"), {T0: 1.0}, T0, "id-99"))
            e.update(ids=sorted(set(ids)), missing=o["miss"], now=[])
            try: rn.set_precursors(args); pre = e["ids"]
            except Exception as x: e["exc"] = exc_name(x)
            e["now"] = sorted(w.id(x) for x in rn.precursors or [])
            e["g"] = w.graph(rn)
        elif o["op"] == "sett":
            t = w.ground(o["id"]) if o["byf"] else o["id"]
            e.update(id=t, missing=o["miss"])
            try: rn.set_target("Rb2Xe3" if o["miss"] else w.f(o["id"]) if o["byf"] else w.E[t])
            except Exception as x: e["exc"] = exc_name(x)
            e["g"] = w.graph(rn)
        elif o["op"] == "reload":
            e.update(now=[], tgtnow=0, unchanged=True)
            try:
                if o["json"]: rn = json.loads(json.dumps(rn, cls=MontyEncoder), cls=MontyDecoder)
                else:
                    d = rn.as_dict(); before = json.dumps(d, cls=MontyEncoder, sort_keys=True)
                    rn2 = ReactionNetwork.from_dict(d)
                    e["unchanged"] = before == json.dumps(d, cls=MontyEncoder, sort_keys=True)
                    rn = rn2
                e["now"] = sorted(w.id(x) for x in rn.precursors or []); e["tgtnow"] = w.id(rn.target) if rn.target is not None else 0
                e["g"] = w.graph(rn)
            except Exception as x: e["exc"] = exc_name(x)
            if e["exc"]:
                ev.append(e); break
        elif o["op"] == "find":
            ts = [w.ground(t) if o["byf"] else t for t in o["targets"]]
            if len(set(ts)) < len(ts): ts = ts[:1]
            if pre is not None and any(ideal_paths(p, pre, t) > 250 for t in ts): continue
            e.update(targets=ts, k=o["k"], paths=[], same=True)
            try:
                got = find(w, rn, ts, False, o["k"]) if not o["byf"] else find(w, rn, ts, True, o["k"])
                # the pathways to one target form one run of the answer
                singles = []
                for t in ts:
                    fr = w.net()
                    with quiet(): fr.build()
                    fr.set_precursors([w.E[i] for i in pre])
                    singles.append(find(w, fr, [t], False, o["k"]))
                e["same"] = [q["total"] for q in got] == [q["total"] for s in singles for q in s]
                cuts = list(itertools.accumulate(len(s) for s in singles))
                for n, q in enumerate(got):
                    q["tgt"] = ts[next((j for j, c in enumerate(cuts) if n < c), len(ts) - 1)]
                e["paths"] = got
            except Exception as x: e["exc"] = exc_name(x)
            e["g"] = w.graph(rn)
        ev.append(e)
    return {"params": p, "ev": ev}

# ------------------------------------------------------------ C14
def gen_ksp(rng):
    n = rng.randint(2, 7)
    dens = rng.choice([0.25, 0.4, 0.6, 0.9])
    arcs = []
    wmax = rng.choice([1, 2, 3, 10])
    for u in range(1, n + 1):
        for v in range(1, n + 1):
            if u == v and rng.random() < 0.9: continue
            if rng.random() < dens:
                for _ in range(rng.choice([1, 1, 1, 1, 2, 3])): arcs.append([u, v, rng.randint(0, wmax)])
    if n > 5 and len(arcs) > 18: arcs = rng.sample(arcs, 18)
    rng.shuffle(arcs)
    s, t = rng.sample(range(1, n + 1), 2)
    return dict(focus="C14", n=n, arcs=arcs, s=s, t=t, k=rng.choice([1, 2, 3, 4, 5, 7, 10, 15, 30, 100]), wu=rng.choice([1.0, 1.0, 0.01, 0.0003]), free=rng.random() < 0.4,
                gap=rng.random() < 0.3)

def execute_ksp(p):
    a, b = (LinEntry(Composition(f), {T0: e}, T0, i) for f, e, i in (("Li", 0.0, "id-1"), ("Mn", -1.0, "id-2")))
    e = dict(op="ksp", exc="", n=p["n"], arcs=p["arcs"], s=p["s"], t=p["t"], k=p["k"], paths=[], unchanged=True)
    cf = WeightedSum(params=["w"])
    g = Graph()
    idx = [None] + list(g.add_nodes_from([f"n{i}" for i in range(p["n"] + 1)]))
    if p["gap"]: g.remove_node(idx[1]); idx = [None] + idx[2:]
    kinds = ["loopback_edge", "precursor_edge", "target_edge"]
    for j, (u, v, c) in enumerate(p["arcs"]):
        g.add_edge(idx[u], idx[v], kinds[j % 3] if c == 0 and p["free"] else ComputedReaction([a, b], [-1.0, 1.0], data={"w": c * p.get("wu", 1.0), "id": j}))
    snap = lambda: sorted((u, v, d if isinstance(d, str) else str(d.data["id"])) for u, v, d in g.weighted_edge_list())
    before = snap(), sorted(g.node_indices())
    try:
        ps = yens_ksp(g, cf, p["k"], idx[p["s"]], idx[p["t"]])
        inv = {i: k for k, i in enumerate(idx) if i is not None}
        e["paths"] = [[inv.get(x, 0) for x in q] for q in ps]
    except Exception as x: e["exc"] = exc_name(x)
    e["unchanged"] = before == (snap(), sorted(g.node_indices()))
    return {"params": p, "ev": [e]}

def params(focus, n):
    rng = rng_for("net", focus); out = []
    while len(out) < n:
        p = gen_ksp(rng) if focus == "C14" else gen(rng, focus)
        if p: out.append(p)
    return out

RULE = ("random networks of 2-10 reactions over 3-12 phases (polymorphs, parallel and duplicate reactions, chains, cycles, zero costs, open reactions); ")
def _run(prop, n, rule, mc):
    ck = Check(prop)
    for m in mc: ck.mc(*m)
    ck.judge("TraceNetwork", run_cases(execute_ksp if prop == "C14" else execute, params(prop, n)), only=(prop,))
    return ck.finish(rule)
MCN = [("MCNetwork", scale("MCNetwork.cfg", "MCNetworkDeep.cfg"))]
MCY = [("MCYen", scale("MCYen.cfg", "MCYenDeep.cfg"))]
def c12(): return _run("C12", scale(1000, 12000), RULE + "graph after building and the first precursors / target, exact nodes, edges and costs", MCN)
def c13(): return _run("C13", scale(700, 9000), RULE + "histories of 3-8 operations (precursors, targets, rejected ones, rebuilding, path finding), graph compared exactly after each", MCN)
def c14(): return _run("C14", scale(1500, 20000), "random directed multigraphs of 2-7 nodes with costs 0-10, parallel edges, self loops, node index gaps, k = 1-100; all loopless paths enumerated by TLC", MCY)
def c15(): return _run("C15", scale(700, 9000), RULE + "pathways to 1-2 targets, k = 1-40, judged against all loopless paths of the network", MCN + MCY)
def exec_for(focus): return execute_ksp if focus == "C14" else execute
