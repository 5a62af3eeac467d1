"""Driver for Pareto fronts (C28)."""
from __future__ import annotations
import numpy as np, pandas as pd
from .common import Check, rng_for, scale, run_cases, exc_name
from rxn_network.costs.pareto import get_pareto_front, is_pareto_efficient
NAMES = ["energy", "primary_competition", "secondary_competition", "cost", "chempot_distance", "x"]

def gen(rng):
    n = rng.choice([0, 1, 2, 3, 5, 8, 12, 25, 60, 200])
    k = rng.randint(1, 5)
    width = rng.choice([1, 2, 3, 6, 40])
    kinds = [rng.choice(["int", "float", "float", "bool", "small"]) if rng.random() < 0.5 else "float" for _ in range(k)]
    if rng.random() < 0.5: kinds = [rng.choice(["int", "float"])] * k
    lo = rng.choice([-width, 0])
    rows = [[rng.randint(0, 1) if t == "bool" else rng.randint(lo, width) for t in kinds] for _ in range(n)]
    if rng.random() < 0.3 and k > 1: rows = [r[:-1] + [-sum(r[:-1])] for r in rows]; kinds[-1] = "float"
    if rng.random() < 0.3: rows.sort(reverse=rng.random() < 0.5)
    cols = [NAMES[i] for i in range(k)]; rng.shuffle(cols)
    m = rng.sample(cols, rng.randint(1, k))
    if k >= 3 and rng.random() < 0.3: cols[:3] = NAMES[:3]; cols[3:] = NAMES[3:k]; m = NAMES[:3]
    return dict(rows=rows, kinds=kinds, cols=cols, metrics=m, max=rng.random() < 0.4, index=rng.choice(["range", "shuffled", "text", "same"]),
                default=m == NAMES[:3], order=rng.sample(range(n), n), extra=rng.random() < 0.6, form=rng.choice(["tuple", "list"]), maps=[rng.choice(["quarter", "quarter", "fine", "tiny", "wide"]) for _ in range(k)])

# strictly increasing maps: which reactions are dominated depends on the order of the values alone
MAP = {"quarter": lambda x: x / 4, "fine": lambda x: 1 + x * 2.0 ** -40, "tiny": lambda x: x * 2.0 ** -70, "wide": lambda x: (1 if x > 0 else -1) * 2.0 ** abs(x) if x else 0.0}
def frame(p, rows, order):
    data = {}
    for j, (cname, t, mp) in enumerate(zip(p["cols"], p["kinds"], p["maps"])):
        v = [r[j] for r in rows]
        data[cname] = (np.array(v, dtype=bool) if t == "bool" else np.array(v, dtype=np.int8) if t == "small" and all(abs(x) < 100 for x in v)
                       else np.array(v, dtype=np.int64) if t in ("int", "small") else np.array([MAP[mp](x) for x in v], dtype=float))
    df = pd.DataFrame(data)
    if p["extra"]: df.insert(0, "rxn", [f"r{i}" for i in order]); df["added_elems"] = ["Na-Cl"] * len(df)
    n = len(df)
    df.index = {"range": list(range(n)), "shuffled": [(7 * i + 3) % (n + 1) for i in range(n)] if n else [], "text": [f"k{i}" for i in range(n)], "same": [0] * n}[p["index"]]
    return df
def execute(p):
    ev = []
    for again in (False, True):
        order = p["order"] if again else list(range(len(p["rows"])))
        rows = [p["rows"][i] for i in order]
        df = frame(p, rows, order); keep = df.copy(deep=True)
        exact = df[p["metrics"]]
        e = dict(op="front", rows=[[r[p["cols"].index(m)] for m in p["metrics"]] for r in rows], max=p["max"], got=[], same=False, input=False, again=again, exc="")
        ev.append(e)
        try:
            kw = {} if p["default"] else {"metrics": tuple(p["metrics"]) if p["form"] == "tuple" else list(p["metrics"])}
            # recognize rows by position
            df["pos"] = range(1, len(df) + 1); keep["pos"] = df["pos"]
            out = get_pareto_front(df, maximize=p["max"], **kw) if p["max"] or not p["default"] else get_pareto_front(df)
            e["got"] = [int(x) for x in out["pos"]]
            e["same"] = bool(out.equals(keep.iloc[[x - 1 for x in e["got"]]]))
            e["input"] = bool(df.equals(keep))
            pts = np.array(exact.to_numpy(), dtype=float).reshape(len(df), len(p["metrics"])) * (-1 if p["max"] else 1); p0 = pts.copy()
            ix = is_pareto_efficient(pts, return_mask=False); mk = is_pareto_efficient(pts, return_mask=True)
            e["same"] = e["same"] and [int(i) + 1 for i in ix] == e["got"] and [int(i) + 1 for i in np.nonzero(mk)[0]] == e["got"] and mk.shape == (len(df),)
            e["input"] = e["input"] and bool((pts == p0).all())
        except Exception as ex: e["exc"] = exc_name(ex)
    return {"params": p, "ev": ev}
def params(focus, n):
    rng = rng_for(focus)
    return [gen(rng) for _ in range(n)]
def c28():
    ck = Check("C28")
    ck.mc("MCPareto", scale("MCPareto.cfg", "MCParetoDeep.cfg"))
    ck.judge("TracePareto", run_cases(execute, params("C28", scale(1500, 15000))))
    return ck.finish("random tables of 0-200 rows with 1-5 metrics of mixed types, ties and equal rows, any choice and order of metrics, minimized or maximized, and the same table in another order")
