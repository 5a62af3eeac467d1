"""Driver for retrieving stored results of synthesis planning (C35)."""
from __future__ import annotations
import contextlib, io, logging, random, uuid as uuidlib
from .common import Check, rng_for, scale, run_cases, exc_name
from .chem import *
from . import competition, fakeray
from jobflow import JobStore, SETTINGS
from maggma.stores import MemoryStore
from pymatgen.core import Element
from rxn_network.core import Composition
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.entries.gibbs import GibbsComputedEntry
from rxn_network.jobs.core import CalculateCompetitionMaker
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction
from rxn_network.reactions.reaction_set import ReactionSet
from rxn_network.utils.database import get_rxns_from_db
MUS = [0.0, -1.0, -0.5, -1.375]

def gen(rng):
    while True:
        p = competition.gen(rng)
        forms = lambda x: sorted({p["comps"].index(p["ents"][i]["c"]) for i in x["p"]})
        prods = sorted({f for x in p["pool"] for f in forms(x) if p["opx"] < 0 or p["ents"][p["opx"]]["c"] != p["comps"][f]})
        if not p["op"] and rng.random() < 0.7: continue
        if prods: break
    ts = rng.sample(prods, min(len(prods), rng.randint(1, 3)))
    times = rng.sample(range(1, 40), 24); ops = []; n = 0
    few = rng.random() < 0.6; ms = rng.sample(range(len(MUS)), 2) if few else list(range(len(MUS)))
    cond = lambda: dict(t=rng.randrange(len(ts)), o=int(p["op"] is not None and rng.random() < 0.6), m=rng.choice(ms), w=rng.choice([0, 0, 1, 2, 3]))
    for _ in range(rng.randint(6, 16)):
        k = rng.choice(["store", "store", "ask", "ask", "ask", "remove"]) if n else "store"
        if k == "store":
            q = cond(); mine = [i for i, x in enumerate(p["pool"]) if ts[q["t"]] in forms(x)]
            some = rng.sample(mine, rng.randint(1, len(mine))) + [i for i in range(len(p["pool"])) if i not in mine and rng.random() < 0.4]
            rng.shuffle(some)
            ops.append(dict(op=k, **q, rx=some, at=times[n % 24] + 40 * (n // 24), again=rng.randrange(n + 1) if rng.random() < 0.2 else -1, el=rng.random() < 0.5)); n += 1
        elif k == "ask": ops.append(dict(op=k, **cond(), mult=rng.choice([1, 1, 2, 3]), seed=rng.randrange(999), last=rng.random() < 0.5))
        else: ops.append(dict(op=k, i=rng.randrange(99)))
    return dict(world={k: p[k] for k in ("elems", "op", "ents", "comps", "opx", "pool")}, ts=ts, ops=ops, noise=rng.random() < 0.4, seed=rng.randrange(10**6))

def stamp(at): return f"2026-03-{1 + at // 20:02d}T0{at % 20 // 2}:{10 + at % 2 * 7}:00" + (f".{100000 + at}" if at % 3 else "")
def execute(p):
    w = p["world"]; elems, op, ents, comps, pool = w["elems"], w["op"], w["ents"], w["comps"], w["pool"]
    rng = random.Random(p["seed"])
    fakeray.SCHED.reset(seed=p["seed"], cpus=4, policy="random", memory=1 << 33)
    logging.disable(logging.CRITICAL)
    E = [GibbsComputedEntry(Composition(formula(elems, x["c"])), float(x["e"]), 11.0 + i / 8, 300, entry_id=f"e{i}", data={"k": i}) for i, x in enumerate(ents)]
    gs = GibbsEntrySet(E)
    S = JobStore(MemoryStore(), additional_stores={"rxns": MemoryStore()}); S.connect()
    old = SETTINGS.JOB_STORE
    ev = []; log = []; want = {}
    try:
        SETTINGS.JOB_STORE = S
        if p["noise"]: S.docs_store.update([dict(uuid=f"n{i}", index=1, output=x, completed_at="2027-01-01T00:00:00", metadata={"fw_id": i}) for i, x in enumerate([{"targets": ["X"]}, 3.5, None, {"target_formula": formula(elems, comps[p["ts"][0]])}], 1)], key=["uuid", "index"])
        n = 0
        for o in p["ops"]:
            if o["op"] == "store":
                n += 1; mu = MUS[o["m"]]
                e = dict(op="store", t=o["t"] + 1, o=o["o"], m=o["m"] + 1, w=o["w"], at=o["at"], rx=[], exc=""); ev.append(e)
                rs = [ComputedReaction([E[i] for i in pool[k]["r"] + pool[k]["p"]], [v / (k % 3 + 1) for v in pool[k]["v"]], data={"tag": k, "run": n, "note": {"a": [k, None]}}) for k in o["rx"]]
                m = CalculateCompetitionMaker(open_elem=(Element(op) if o["el"] else op) if o["o"] else None, chempot=mu, calculate_competition=False, calculate_chempot_distances=False)
                job = m.make([ReactionSet.from_rxns(rs, entries=gs)], gs, formula(elems, comps[p["ts"][o["t"]]]))
                if o["w"]: job.metadata = {"fw_id": o["w"]}
                prev = [x for x in log if x[2] == o["again"]]
                if prev: job.uuid, job.index = prev[0][0], n + 1
                try: job.run(S)
                except Exception as ex: e["exc"] = exc_name(ex); continue
                d = S.docs_store.query_one({"uuid": job.uuid, "index": job.index}); d["completed_at"] = stamp(o["at"]); S.docs_store.update(d, key=["uuid", "index"])
                f = formula(elems, comps[p["ts"][o["t"]]])
                for k, r in zip(o["rx"], rs):
                    if p["ts"][o["t"]] in [comps.index(ents[i]["c"]) for i in pool[k]["p"]]: e["rx"].append([k, n]); want[k, n] = (r, o["o"], mu)
                log.append((job.uuid, job.index, n - 1))
            elif o["op"] == "remove":
                if not log: continue
                i = o["i"] % len(log); x = log.pop(i)
                S.docs_store.remove_docs({"uuid": x[0], "index": x[1]}); ev.append(dict(op="remove", i=i + 1))
            else:
                q = {k: o[k] for k in ("t", "o", "m", "w")}
                st = [x for x in ev if x["op"] == "store"]
                if o["last"] and st: q = dict(t=st[-1]["t"] - 1, o=st[-1]["o"], m=st[-1]["m"] - 1, w=o["w"])
                mu = MUS[q["m"]]
                e = dict(op="ask", t=q["t"] + 1, o=q["o"], m=q["m"] + 1, w=q["w"], found=False, rx=[], so=0, sm=0, cond=[], same=True, kept=False, exc=""); ev.append(e)
                c = comps[p["ts"][q["t"]]]; ix = [i for i, x in enumerate(c) if x]; random.Random(o["seed"]).shuffle(ix)
                f = "".join(f"{elems[i]}{c[i] * o['mult']}" for i in ix)
                dump = lambda: (sorted(str(sorted(map(str, d.items()))) for d in S.docs_store.query({}, {"_id": 0})), S.additional_stores["rxns"].count())
                d0 = dump()
                kw = {}
                if q["o"]: kw["open_elem"] = op
                if q["o"] or mu or o["seed"] % 2: kw["chempot"] = mu
                if q["w"]: kw["fw_id"] = q["w"]
                try:
                    with contextlib.redirect_stdout(io.StringIO()): R = get_rxns_from_db(f, **kw)
                except Exception as ex: e["exc"] = exc_name(ex); e["kept"] = dump() == d0; continue
                e["found"] = True
                num = lambda el, x: (int(el is not None and str(el) == op) or (-1 if el is not None else 0), next((i + 1 for i, y in enumerate(MUS) if y == x), -1))
                e["so"], e["sm"] = num(R.open_elem, R.chempot)
                for r in R.get_rxns():
                    d = r.data or {}; k = (d.get("tag", -1), d.get("run", -1)); e["rx"].append(list(k))
                    if isinstance(r, OpenComputedReaction): e["cond"].append(list(num(*list(r.chempots.items())[0])) if len(r.chempots) == 1 else [-1, -1])
                    else: e["cond"].append([0, 0])
                    if k not in want: e["same"] = False; continue
                    z, oo, mm = want[k]
                    if oo: z = OpenComputedReaction(z.entries, z.coefficients, {Element(op): mm}, data=z.data)
                    e["same"] = e["same"] and bool([x.entry_id for x in r.entries] == [x.entry_id for x in z.entries] and max(abs(a - b) for a, b in zip(r.coefficients, z.coefficients)) < 1e-8 and abs(r.energy - z.energy) < 1e-6
                                                   and {a: d.get(a) for a in z.data} == z.data)
                e["kept"] = dump() == d0
    finally: SETTINGS.JOB_STORE = old
    return {"params": p, "ev": ev}
def params(focus, n):
    rng = rng_for(focus)
    return [gen(rng) for _ in range(n)]
def c35():
    ck = Check("C35")
    ck.mc("MCArchive", scale("MCArchive.cfg", "MCArchiveDeep.cfg"))
    ck.judge("TraceArchive", run_cases(execute, params("C35", scale(500, 5000))))
    return ck.finish("results of real competition jobs for several targets, open elements, chemical potentials and workflows, stored in any order of completion in a real (in-memory) job store, stored again, removed and asked for in random order")
