"""Driver for figures of reaction data and pathway curves (C36)."""
from __future__ import annotations
import os, warnings
os.environ.setdefault("MPLBACKEND", "Agg"); os.environ.setdefault("TQDM_DISABLE", "1")
import numpy as np, pandas as pd, rustworkx as rx
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
from pymatgen.core import Lattice, Structure
from pymatgen.entries.computed_entries import ComputedStructureEntry
from .common import Check, rat, rng_for, scale, run_cases, exc_name
from .chem import *
from .fakes import LinEntry
from . import hulls
from rxn_network.core import Composition
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.network.entry import NetworkEntry, NetworkEntryType
from rxn_network.network.visualize import plot_network
from rxn_network.pathways.plotting import PathwayPlotter
from rxn_network.reactions.basic import BasicReaction
from rxn_network.reactions.hull import InterfaceReactionHull
from rxn_network.reactions.plotting import filter_df_by_precursors, plot_reaction_scatter
METRICS = ["energy", "primary_competition", "secondary_competition", "chempot_distance", "dE"]
RX = ["2 Li + 0.5 O2 -> Li2O", "Na + 0.5 Cl2 -> NaCl", "Mg + 0.5 O2 -> MgO", "2 Mg + O2 -> 2 MgO", "MgO + CO2 -> MgCO3", "MgCO3 -> MgO + CO2",
      "Y2O3 + Mn2O3 -> 2 YMnO3", "2 YCl3 + Mn2O3 + 3 Li2O -> 2 YMnO3 + 6 LiCl", "Li + NaCl -> Na + LiCl", "Li2O + CO2 -> Li2CO3"]
PREC = ["Li", "O2", "Na", "Cl2", "Mg", "MgO", "CO2", "MgCO3", "Y2O3", "Mn2O3", "YCl3", "Li2O", "NaCl", "LiCl", "LiO2"]
BAD = -999999
def q(x):
    x = 4 * float(x)
    return int(round(x)) if np.isfinite(x) and abs(x - round(x)) < 1e-9 else BAD

def gen(rng):
    k = rng.choice(["scatter"] * 3 + ["filter", "hull", "hull", "path", "path", "net"])
    if k in ("scatter", "filter"):
        n = rng.choice([1, 2, 3, 5, 8, 12]); w = rng.choice([1, 2, 4, 12])
        p = dict(k=k, rx=[rng.randrange(len(RX)) for _ in range(n)], vals={m: [rng.randint(-w, w) for _ in range(n)] for m in METRICS},
                 added=[rng.choice(["", "", "O", "C-O"]) for _ in range(n)] if rng.random() < 0.6 else None, index=rng.choice(["range", "shuffled", "text", "same", "twice"]),
                 ints=rng.random() < 0.3)
        if k == "filter": p["prec"] = rng.sample(PREC, rng.randint(0, len(PREC)))
        else:
            ax = rng.sample(METRICS, rng.choice([2, 2, 3]))
            p.update(ax=ax, default=rng.random() < 0.2, pareto=rng.random() < 0.7, color=rng.choice([None, None, "has_added_elems", "added_elems", "chempot_distance", "rxn"]))
            if p["default"]: p["ax"] = ["secondary_competition", "energy"]
            if p["color"] in ("has_added_elems", "added_elems") and p["added"] is None: p["color"] = None
        return p
    if k == "hull":
        return dict(k=k, h=hulls.gen(rng), ymax=rng.choice([None, 0.5, 0.25, 1.0]))
    if k == "net":
        els = rng.sample(["Li", "Mn", "Y", "O", "Ba", "C"], rng.randint(1, 4)); n = rng.randint(1, 14)
        nodes = [[random_comps(rng, els, 1, 3, len(els))[0] for _ in range(rng.randint(1, 2))] for _ in range(n)]
        return dict(k=k, els=els, nodes=nodes, edges=[[rng.randrange(n), rng.randrange(n)] for _ in range(rng.randint(0, 2 * n))], drop=[i for i in range(n) if rng.random() < 0.1], cmap=rng.choice([None, "viridis"]))
    els = rng.sample(["Ti", "Ba", "O", "Mn", "Y", "C", "Cl"], 2)
    vs = []
    while len(vs) < 4:
        v = reduce_vec(els, [rng.randint(1, 3), rng.randint(1, 3)])
        if v not in vs: vs.append(v)
    T = rng.randint(1, 9)
    phases = [reduce_vec(els, [1, 0]), reduce_vec(els, [0, 1])] * (rng.random() < 0.6) + vs[:rng.randint(1, 4)]
    rng.shuffle(phases)
    mult = [rng.choice([1, 1, 1, 2]) for _ in phases]
    am = [[rng.choice([0, 1, 2, 3, 4, 8]) for _ in range(T)] for _ in phases]
    am[0] = [x or 1 for x in am[0]]
    if rng.random() < 0.4: am = [sorted(a, reverse=rng.random() < 0.5) for a in am]; am[0] = [x or 1 for x in am[0]]
    temps = rng.sample(range(400, 1900, 50), T)
    if rng.random() < 0.6: temps.sort()
    return dict(k=k, els=els, phases=phases, mult=mult, am=am, temps=temps, smooth=rng.choice([True, True, False]), default=rng.random() < 0.3, extra=vs[len(phases):],
                es={str(i): rng.randint(-30, 2) for i in range(8)}, poly=rng.random() < 0.3, cascade=rng.random() < 0.5, ints=rng.random() < 0.3, vol=rng.randint(8, 30))

def table(p):
    rx_ = [BasicReaction.from_string(RX[i]) for i in p["rx"]]; n = len(rx_)
    d = {"rxn": rx_, **{m: ([int(x) for x in v] if p["ints"] else [x / 4 for x in v]) for m, v in p["vals"].items()}}
    if p["added"] is not None: d["added_elems"] = p["added"]
    df = pd.DataFrame(d)
    df.index = {"range": list(range(n)), "shuffled": [(7 * i + 3) % (n + 1) for i in range(n)], "text": [f"k{i}" for i in range(n)], "same": [0] * n, "twice": [i % ((n + 1) // 2) for i in range(n)]}[p["index"]]
    return df, rx_
def unchanged(df, keep, rx_): return bool(list(df.columns) == list(keep.columns) and df.index.equals(keep.index) and all(a is b for a, b in zip(df["rxn"], rx_)) and df.drop(columns="rxn").equals(keep.drop(columns="rxn")))
def scatter(p):
    df, rx_ = table(p); keep = df.copy(); ax = p["ax"]; s = 4 if p["ints"] else 1
    labs = [str(r) for r in rx_]; ids = {x: i for i, x in enumerate(sorted(set(labs)), 1)}
    col = p["color"]
    cv = [None] * len(rx_) if col is None else [str(a != "") for a in p["added"]] if col == "has_added_elems" else p["added"] if col == "added_elems" else labs if col == "rxn" else [q(x) for x in df[col]]
    cid = {x: i for i, x in enumerate(sorted(set(cv), key=str), 1)}
    e = dict(op="scatter", rows=[dict(v=[s * p["vals"][m][i] for m in ax], lab=ids[labs[i]], col=cid[cv[i]]) for i in range(len(rx_))], marks=[], pareto=p["pareto"], hascol=col is not None, same=False, exc="")
    try:
        kw = {} if p["default"] else dict(zip("xyz", ax))
        if col: kw["color"] = col
        if not p["pareto"] or len(rx_) % 2: kw["plot_pareto"] = p["pareto"]
        fig = plot_reaction_scatter(df, **kw)
        for t in fig.data:
            front = t.name == "Pareto front"
            co = [t.x, t.y] + ([t.z] if len(ax) == 3 else [])
            m = len(t.x) if t.x is not None else 0
            lab = list(t.hovertext) if t.hovertext is not None else []
            if m == 0 and not lab: continue
            if any(len(a) != m for a in co) or len(lab) != m: e["marks"].append(dict(v=[BAD] * len(ax), lab=0, col=0, front=front)); continue
            for i in range(m):
                c = 0 if front else cid.get(None, 0) if col is None else cid.get(q(t.marker.color[i]), 0) if col == "chempot_distance" else cid.get(t.name, 0)
                e["marks"].append(dict(v=[q(a[i]) for a in co], lab=ids.get(lab[i], 0), col=c, front=front))
        e["same"] = unchanged(df, keep, rx_)
    except Exception as ex: e["exc"] = exc_name(ex)
    return e
def filtered(p):
    df, rx_ = table(p); keep = df.copy()
    names = {f: i for i, f in enumerate(PREC, 1)}
    e = dict(op="filter", rows=[[names.get(c.reduced_formula, 0) for c in r.reactants] for r in rx_], prec=[names[f] for f in p["prec"]], out=[], equal=False, same=False, exc="")
    try:
        out = filter_df_by_precursors(df, list(p["prec"]))
        pos = []
        for r in out["rxn"]: pos.append(next((i for i, x in enumerate(rx_, 1) if x is r), 0))
        e["out"] = pos; sel = keep.iloc[[i - 1 for i in pos]] if 0 not in pos else None
        e["equal"] = sel is not None and list(out.columns) == list(keep.columns) and out.index.equals(sel.index) and bool(out.drop(columns="rxn").equals(sel.drop(columns="rxn")))
        e["same"] = unchanged(df, keep, rx_)
    except Exception as ex: e["exc"] = exc_name(ex)
    return e
def hullplot(p):
    h = p["h"]; D = h["D"]
    E1, E2, R = hulls.build(h)
    A, B = (E2, E1) if h["swap"] else (E1, E2)
    elems, op = h["elems"], h["op"]; oi = elems.index(op) if op else -1
    solid = lambda v: sum(x for k, x in enumerate(v) if k != oi)
    gx = lambda x: int(round(x * D)) if abs(x * D - round(x * D)) < 1e-6 else BAD
    labs = [str(r) for r in R]
    pts = []
    for r in h["rx"]:
        a1, a2 = r["a"] * solid(h["c1"]), r["b"] * solid(h["c2"])
        if h["swap"]: a1, a2 = a2, a1
        pts.append([D * a2 // (a1 + a2), r["y"] * 100])
    e = dict(op="hull", D=D, pts=pts + [[0, 0], [D, 0]], marks=[], labs=[], mlabs=[], segs=[], range=[], ymax=0, same=False, exc="")
    try:
        H = InterfaceReactionHull(A.composition, B.composition, list(R))
        labs += [str(r) for r in H.endpoint_reactions]
        ids = {x: i for i, x in enumerate(sorted(set(labs)), 1)}; e["labs"] = [ids[x] for x in labs]
        snap = lambda: (H.coords.tolist(), [str(r) for r in H.reactions]); s0 = snap()
        fig = H.plot() if p["ymax"] is None else H.plot(y_max=p["ymax"])
        e["ymax"] = hulls.u(0.2 if p["ymax"] is None else p["ymax"])
        for t in fig.data:
            P = [[gx(a), hulls.u(b)] for a, b in zip(t.x, t.y)]
            if t.mode == "markers":
                e["marks"] += P; e["mlabs"] += [ids.get(x, 0) for x in t.hovertext]
            else: e["segs"] += [[P[i], P[i + 1]] for i in range(len(P) - 1)] if len(P) > 1 else [[[BAD, BAD]] * 2]
        e["range"] = [hulls.u(x) for x in fig.layout.yaxis.range]
        e["same"] = snap() == s0
    except Exception as ex: e["exc"] = exc_name(ex)
    return e
def net(p):
    els = p["els"]; mk = lambda v, i: LinEntry(Composition(formula(els, v)), {300: -1.0}, 300, f"n{i}")
    g = rx.PyDiGraph()
    for i, n in enumerate(p["nodes"]): g.add_node(NetworkEntry([mk(v, f"{i}.{j}") for j, v in enumerate(n)], NetworkEntryType.Reactants))
    for a, b in p["edges"]: g.add_edge(a, b, 1.0)
    drop = p["drop"] if len(p["drop"]) < len(p["nodes"]) else p["drop"][1:]
    for i in drop: g.remove_node(i)
    keys = [sorted({els.index(x) for v in n for x, a in zip(els, v) if a}) for i, n in enumerate(p["nodes"]) if i not in drop]
    e = dict(op="net", keys=keys, cols=[], same=False, exc="")
    try:
        snap = lambda: ([id(x) for x in g.nodes()], list(g.edge_list()), list(g.node_indices())); s0 = snap()
        fig = plot_network(g) if p["cmap"] is None else plot_network(g, vertex_cmap_name=p["cmap"])
        ax = fig.axes[0]
        fc = [tuple(c) for col in ax.collections if type(col).__name__ == "PathCollection" for c in col.get_facecolors()]
        ids = {c: i for i, c in enumerate(sorted(set(fc)), 1)}; e["cols"] = [ids[c] for c in fc]
        e["same"] = snap() == s0
    except Exception as ex: e["exc"] = exc_name(ex)
    finally: plt.close("all")
    return e
def cents(v, energy, i, vol, els):
    c = Composition(formula(els, v)); n = int(c.num_atoms)
    sp = [x for x, a in zip(els, v) for _ in range(a)]
    return ComputedStructureEntry(Structure(Lattice.cubic((vol * n) ** (1 / 3)), sp, [[k / n, 0, 0] for k in range(n)]), energy * n, entry_id=f"mp-{i}", parameters={"run_type": "GGA"}, data={"theoretical": True})
def path(p):
    els = p["els"]; F = [formula(els, [m * a for a in v]) for v, m in zip(p["phases"], p["mult"])]
    s = 1 if p["ints"] else 4
    amounts = {f: [x if p["ints"] else x / 4 for x in a] for f, a in zip(F, p["am"])}; keep = {f: list(a) for f, a in amounts.items()}
    temps = list(p["temps"]); T = range(len(temps))
    smooth = True if p["default"] else p["smooth"]
    comp = [[m * a for a in v] for v, m in zip(p["phases"], p["mult"])]
    e = dict(op="path", am=p["am"], comp=comp, temps=temps, smooth=smooth, df=[], drawn=[], xs=[], atoms=[], frac=[], same=False, exc="")
    g = dict(op="cascade", am=p["am"], comp=comp, temps=temps, smooth=smooth, e=[], ph=[], g=[], xs=[], exc="")
    qs = lambda x: int(round(s * float(x))) if abs(s * float(x) - round(s * float(x))) < 1e-9 else BAD
    ev = [e]
    try:
        pl = PathwayPlotter(amounts, temps) if p["default"] else PathwayPlotter(amounts, temps, apply_smoothing=smooth)
        df = pl.df; ok = list(df.columns) == F and [int(t) for t in df.index] == temps and list(pl.formulas) == F and {str(x) for x in pl.elems} == {x for f in F for x in Composition(f).get_el_amt_dict()}
        e["df"] = [[qs(x) for x in df[f]] for f in F] if ok else []
        na = pl.num_atoms_df
        e["atoms"] = [[qs(na[el].iloc[t]) if el in na else 0 for el in els] for t in T] if [int(t) for t in na.index] == temps else [[BAD, BAD]] * len(temps)
        co = pl.compositions
        e["frac"] = [[rat(co.loc[t][el]) for el in els] for t in temps]
        ax = pl.plot_pathway()
        ls = {l.get_label(): l for l in ax.get_lines()}
        e["drawn"] = [[qs(x) for x in ls[f].get_ydata()] if f in ls else [] for f in F]
        xs = {tuple(int(x) for x in l.get_xdata()) for l in ls.values()}; e["xs"] = list(xs.pop()) if len(xs) == 1 and len(ls) == len(F) else []
        e["same"] = amounts == keep and temps == list(p["temps"])
    except Exception as ex: e["exc"] = exc_name(ex)
    finally: plt.close("all")
    if not p["cascade"] or e["exc"]: return ev
    ev.append(g)
    vs = [reduce_vec(els, [1, 0]), reduce_vec(els, [0, 1])] + [v for v in p["phases"] + p["extra"] if all(v)]
    ents = []
    for i, v in enumerate(vs):
        el = 0 if not all(v) else p["es"][str(i % 8)] / 10
        ents.append(cents(v, -1.0 + el, i, p["vol"] + i % 3, els))
        if p["poly"] and all(v): ents.append(cents(v, -1.0 + el + 0.123, f"{i}p", p["vol"] + 2, els))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for t in temps:
            es = GibbsEntrySet.from_computed_entries(ents, t)
            ph = [dict(v=[int(x.composition[k]) for k in els], e=int(round(float(x.energy) * 1e4))) for x in es.entries_list]
            low = lambda v: min(x.energy_per_atom for x in es.entries_list if reduce_vec(els, [int(x.composition[k]) for k in els]) == v)
            g["ph"].append(ph); g["e"].append([int(round(low(v) * sum(v) * m * 1e4)) for v, m in zip(p["phases"], p["mult"])])
        try:
            out = pl.plot_energy_cascade(ents)
            ls = out.get_lines()
            if len(ls) == 1:
                g["xs"] = [int(x) for x in ls[0].get_xdata()]; g["g"] = [int(round(float(x) * 1e4)) for x in ls[0].get_ydata()]
        except Exception as ex: g["exc"] = exc_name(ex)
        finally: plt.close("all")
    return ev
RUN = {"scatter": scatter, "filter": filtered, "hull": hullplot, "net": net}
def execute(p):
    return {"params": p, "ev": path(p) if p["k"] == "path" else [RUN[p["k"]](p)]}
def params(focus, n):
    rng = rng_for(focus)
    return [gen(rng) for _ in range(n)]
def c36():
    ck = Check("C36")
    ck.mc("MCFigures", scale("MCFigures.cfg", "MCFiguresDeep.cfg"))
    ck.judge("TraceFigures", run_cases(execute, params("C36", scale(2000, 20000))))
    return ck.finish("random tables of reactions (repeated rows and row labels) as 2D and 3D scatter plots with and without front and colours, filtered by precursors; figures of random interface hulls; "
                     "random networks; random binary pathways (smoothed or not) with their atoms, compositions and energies above the most stable state")
