"""Driver for task collection and splitting of work (C32)."""
from __future__ import annotations
import os
from .common import Check, rng_for, scale, run_cases, exc_name
from . import fakeray
from rxn_network.utils.funcs import grouper, limited_powerset
from rxn_network.utils import ray as rxn_ray
from rxn_network.utils.ray import to_iterator, initialize_ray
class TaskError(RuntimeError): pass

@fakeray.remote
def work(t, v, bad):
    if bad: raise TaskError(str(t))
    return [t, v]

def gen(rng):
    ev = []
    for _ in range(rng.randint(2, 6)):
        k = rng.choice(["collect", "collect", "collect", "group", "group", "powerset", "start"])
        if k == "collect":
            n = rng.choice([0, 1, 2, 3, 5, 8, 20, 60])
            ev.append(dict(op=k, n=n, seed=rng.randrange(10**6), policy=rng.choice(["random", "fifo", "lifo", "starve"]), ids=rng.random() < 0.4, form=rng.choice(["list", "list", "list2"]),
                           stop=rng.randint(0, n) if rng.random() < 0.2 else -1, fail=sorted(rng.sample(range(1, n + 1), rng.randint(1, min(n, 2)))) if n and rng.random() < 0.2 else [],
                           same=rng.random() < 0.3))
        elif k == "group":
            n = rng.choice([0, 1, 2, 3, 7, 12, 30])
            ev.append(dict(op=k, items=[rng.choice([0, 0, i + 1]) if rng.random() < 0.2 else i + 1 for i in range(n)], size=rng.choice([1, 1, 2, 3, 4, 6, 7, 12, 30, 31, 100]), form=rng.choice(["list", "tuple", "iter", "gen", "range"]), deff=rng.random() < 0.5, fill=rng.choice([-1, -2, -3, -4, 0]), none=rng.random() < 0.4))
        elif k == "powerset":
            ev.append(dict(op=k, n=rng.randint(0, 7), max=rng.randint(0, 8 if rng.random() < 0.3 else 4), form=rng.choice(["list", "tuple", "set", "iter", "gen", "dict"])))
        else:
            ev.append(dict(op=k, running=rng.random() < 0.4, env=rng.choice([{}, {}, {"IP_HEAD": "1.2.3.4:1"}, {"PBS_NNODES": "1"}, {"PBS_NNODES": "4"}, {"IP_HEAD": ""}]), quiet=rng.random() < 0.5))
    return dict(ev=ev)
def shape(items, form):
    if form == "tuple": return tuple(items)
    if form == "iter": return iter(list(items))
    if form == "gen": return (x for x in list(items))
    if form == "set": return set(items)
    if form == "dict": return dict.fromkeys(items)
    return list(items)
def execute(p):
    out = []
    for q in p["ev"]:
        if q["op"] == "collect":
            fakeray.SCHED.reset(seed=q["seed"], policy=q["policy"])
            vals = [7 if q["same"] else (t * 37) % 101 for t in range(1, q["n"] + 1)]
            refs = [work.remote(t, vals[t - 1], t in q["fail"]) for t in range(1, q["n"] + 1)]
            num = {r: t for t, r in enumerate(refs, 1)}; given = list(refs)
            e = dict(op="collect", n=q["n"], vals=vals, fail=q["fail"], stop=q["stop"], got=[], input=False, exc=""); out.append(e)
            try:
                if q["stop"] != 0:
                    for r in to_iterator(given, **({"get_obj_ids": True} if q["ids"] else {})):
                        if q["ids"]: r = r[1] if num.get(r[0]) == r[1][0] else [0, 0]
                        e["got"].append(list(r))
                        if len(e["got"]) == q["stop"]: break
            except TaskError: e["exc"] = "TaskError"
            except Exception as ex: e["exc"] = exc_name(ex)
            e["input"] = given == refs
            e["ntasks"], e["log"] = fakeray.SCHED.history()
            e["ntasks"] = max(e["ntasks"], 0)
        elif q["op"] == "group":
            n = len(q["items"]); items = list(range(1, n + 1)) if q["form"] == "range" else q["items"]
            e = dict(op="group", items=items, size=q["size"], fill=-2 if q["deff"] else q["fill"], got=[], input=True, exc=""); out.append(e)
            if q["none"] and q["form"] != "range": e["items"] = [x or -2 for x in items]; items = [x or None for x in items]   # groups may hold nothing (None) too
            try:
                src = range(1, n + 1) if q["form"] == "range" else shape(items, q["form"])
                g = grouper(src, q["size"]) if q["deff"] else grouper(src, q["size"], fillvalue={-2: None, -3: (), -4: "end"}.get(q["fill"], q["fill"]))
                e["got"] = [[-2 if x is None else -3 if x == () else -4 if x == "end" else x for x in y] for y in g]
                e["input"] = q["form"] not in ("list", "tuple") or list(src) == items
            except Exception as ex: e["exc"] = exc_name(ex)
        elif q["op"] == "powerset":
            e = dict(op="powerset", n=q["n"], max=q["max"], got=[], exc=""); out.append(e)
            try: e["got"] = [sorted(x) if q["form"] == "set" else list(x) for x in limited_powerset(shape(range(1, q["n"] + 1), q["form"]), q["max"])]
            except Exception as ex: e["exc"] = exc_name(ex)
        else:
            e = dict(op="start", running=q["running"], batch=bool(q["env"].get("IP_HEAD")) or int(q["env"].get("PBS_NNODES", "0")) > 1, calls=[], exc=""); out.append(e)
            state = [q["running"]]; old = {k: getattr(rxn_ray.ray, k) for k in ("init", "is_initialized")}; env = {k: os.environ.pop(k, None) for k in ("IP_HEAD", "PBS_NNODES")}
            os.environ.update(q["env"])
            def init(*a, **k): state[0] = True; e["calls"].append("auto" if k.get("address") == "auto" else "own" if not a and not k.get("address") else "other")
            try:
                rxn_ray.ray.init = init; rxn_ray.ray.is_initialized = lambda: state[0]
                initialize_ray(**({"quiet": True} if q["quiet"] else {}))
            except Exception as ex: e["exc"] = exc_name(ex)
            finally:
                for k, v in old.items(): setattr(rxn_ray.ray, k, v)
                for k in ("IP_HEAD", "PBS_NNODES"):
                    os.environ.pop(k, None)
                    if env[k] is not None: os.environ[k] = env[k]
    return {"params": p, "ev": out}
def params(focus, n):
    rng = rng_for(focus)
    return [gen(rng) for _ in range(n)]
def c32():
    ck = Check("C32")
    ck.mc("MCTasks", scale("MCTasks.cfg", "MCTasksDeep.cfg")); ck.mc("MCTaskPool", scale("MCTaskPool.cfg", "MCTaskPoolDeep.cfg"))
    ck.judge("TraceTasks", run_cases(execute, params("C32", scale(1500, 20000))))
    return ck.finish("random task lists (0-60 tasks, failing tasks, early stops) under random, first-in-first-out, last-in-first-out and starving completion orders; all kinds of iterables, lengths and group sizes; subsets of up to 7 elements")
