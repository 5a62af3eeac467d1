"""Driver for queries to entry databases and the job that acquires entries (C33)."""
from __future__ import annotations
import copy, itertools, re, warnings
from .common import Check, rng_for, scale, run_cases, exc_name
from .chem import *
from .entries import structure, mev
from pymatgen.core import Element
from pymatgen.entries.computed_entries import ComputedStructureEntry
from rxn_network.core import Composition
from rxn_network.entries import utils as eu
from rxn_network.entries.utils import get_all_entries_in_chemsys_from_entry_db, get_entries_from_entry_db, process_entries
from rxn_network.jobs import core as jobs
ELS = ["Li", "Na", "K", "Mg", "Ca", "Ba", "Sr", "Mn", "Fe", "Co", "Ni", "Ti", "Zn", "O", "S", "Cl", "F", "Y", "Al", "Si"]

# ------- a store which answers Mongo-style queries
def cond(v, c):
    """does the value (None: missing) satisfy the condition"""
    if isinstance(c, dict) and any(str(k).startswith("$") for k in c): return all(op(v, k, x, c) for k, x in c.items())
    return v == c or (isinstance(v, list) and c in v)
def op(v, k, x, c):
    if k == "$in": return any(cond(v, y) for y in x)
    if k == "$nin": return not any(cond(v, y) for y in x)
    if k == "$eq": return cond(v, x)
    if k == "$ne": return not cond(v, x)
    if k == "$not": return not cond(v, x)
    if k == "$all": return isinstance(v, list) and all(cond(v, y) for y in x)
    if k == "$elemMatch": return isinstance(v, list) and any(cond(y, x) for y in v)
    if k == "$size": return isinstance(v, list) and len(v) == x
    if k == "$exists": return (v is not None) == bool(x)
    if k == "$gt": return v is not None and v > x
    if k == "$gte": return v is not None and v >= x
    if k == "$lt": return v is not None and v < x
    if k == "$lte": return v is not None and v <= x
    if k == "$regex": return isinstance(v, str) and re.search(x, v) is not None
    if k == "$and": return all(cond(v, y) for y in x)
    if k == "$or": return any(cond(v, y) for y in x)
    raise ValueError(f"query operator {k}")
def matches(d, q):
    for k, x in (q or {}).items():
        if k == "$or":
            if not any(matches(d, y) for y in x): return False
        elif k == "$and":
            if not all(matches(d, y) for y in x): return False
        elif k == "$nor":
            if any(matches(d, y) for y in x): return False
        else:
            v = d
            for part in k.split("."): v = v.get(part) if isinstance(v, dict) else None
            if not cond(v, x): return False
    return True
class Store:
    def __init__(self, docs, rng): self.docs = docs; self.rng = rng; self.queries = 0
    def query(self, criteria=None, properties=None, sort=None, hint=None, skip=0, limit=0, **kw):
        self.queries += 1
        out = [copy.deepcopy(d) for d in self.docs if matches(d, criteria)]
        self.rng.shuffle(out)
        out = out[skip:]
        return iter(out[:limit] if limit else out)
    def query_one(self, criteria=None, properties=None, sort=None): return next(self.query(criteria, properties), None)
    def count(self, criteria=None, hint=None): return sum(1 for d in self.docs if matches(d, criteria))
    def distinct(self, field, criteria=None, **kw): return sorted({str(d.get(field)) for d in self.docs if matches(d, criteria)})
    def connect(self, *a, **k): pass
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass

# ------- a stand-in for the client of the Materials Project
class Doc:
    def __init__(self, d): self.material_id = d["task_id"]
def rester(docs, calls):
    def ent(d):
        x = d["entries"].get("GGA+U") or d["entries"].get("GGA") if d["entries"] else None
        return [ComputedStructureEntry.from_dict(x)] if x else []
    class Summary:
        def search(self, exclude_elements=None, elements=None, all_fields=True, deprecated=None, **kw):
            ex = {str(e) for e in exclude_elements or []}
            return [Doc(d) for d in docs if not set(d["elements"]) & ex]
    class R:
        def __init__(self, *a, **k): calls.append(("open", a, k)); self.summary = Summary(); self.materials = self
        def __enter__(self): return self
        def __exit__(self, *a): pass
        def get_entries_in_chemsys(self, elements, additional_criteria=None, **k):
            calls.append(("chemsys", additional_criteria))
            s = set(elements.split("-") if isinstance(elements, str) else [str(e) for e in elements])
            return [e for d in docs if set(d["elements"]) <= s for e in ent(d)]
        def get_entries(self, chemsys_formula_mpids, additional_criteria=None, **k):
            calls.append(("ids", additional_criteria)); w = set(map(str, chemsys_formula_mpids))
            return [e for d in docs if d["task_id"] in w for e in ent(d)]
    return R

def gen(rng):
    big = rng.random() < 0.25
    elems = rng.sample(ELS, rng.choice([14, 15, 13, 18, 20, 10, 11, 12]) if big else rng.randint(2, 6))
    n = len(elems); docs = []
    def add(c, el=False):
        kind = rng.choice(["both", "U", "plain", "plain", "empty", "none", "other"]) if not el else "plain"
        docs.append(dict(c=c, kind=kind, e=rng.randint(-40, -5) + (len(docs) if any(d["c"] == c for d in docs) else 0) / 64,   # no ties
                         vol=round(rng.uniform(8, 25), 3), m=rng.choice([1, 2])))
    for i in range(n): add(reduce_vec(elems, [int(j == i) for j in range(n)]), True)
    for _ in range(rng.randint(4, 14)):
        k = rng.sample(range(n), rng.choice([1, 2, 2, 3, 3, min(n, 4), min(n, rng.randint(5, 14))][: 7 if rng.random() < 0.2 or big else 6]) if n > 2 else rng.randint(1, 2))
        c = [0] * n
        for i in k: c[i] = rng.randint(1, 3)
        c = reduce_vec(elems, c)
        for _ in range(rng.choice([1, 1, 1, 2])): add(c)
    if big and rng.random() < 0.5: add([1] * n)   # a phase with all the elements
    ops = []
    for _ in range(rng.randint(2, 4)):
        w = rng.random()
        if w < 0.5:
            s = rng.sample(range(n), rng.randint(1, n)) if rng.random() < 0.7 else rng.sample(range(n), n)
            if big and rng.random() < 0.7: s = rng.sample(range(n), max(min(12, n), n - rng.randint(0, 4)))
            ops.append(dict(op="system", els=s, form=rng.choice(["text", "text", "list", "tuple"]), extra=rng.choice([[], [], [], ["U"], ["W", "Xe"]])))
        elif w < 0.75:
            terms = []
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                k = rng.choice(["id", "system", "system", "formula", "formula"])
                dc = rng.choice(docs)["c"]; nz = [i for i, x in enumerate(dc) if x]
                wild = rng.random() < 0.4
                x = rng.choice(nz)
                if k == "id": terms.append(dict(k="id", d=rng.randrange(len(docs) + 1)))
                elif k == "system":
                    if len(nz) < 2: continue
                    terms.append(dict(k="system", els=rng.sample(nz, len(nz)), hole=x if wild else -1, any=rng.choice(["*", "some"]), some=sorted(set(rng.sample(range(n), min(n, 2)) + [x]))))
                else:
                    terms.append(dict(k="formula", c=dc, hole=x if wild and len(nz) > 1 else -1, any=rng.choice(["*", "some"]), some=sorted(set(rng.sample(range(n), min(n, 2)) + [x]))))
            if terms: ops.append(dict(op="search", terms=terms))
        elif not big or rng.random() < 0.15:
            s = rng.sample(range(n), rng.randint(2, min(n, 6)))
            ops.append(dict(op="job", els=s, via=rng.choice(["db", "db", "mp"]), T=rng.choice([300, 600, 900, 1500]), hull=rng.choice([0, 25, 100, 400]), Tf=rng.choice([0, 0, 300, 1200]), nist=rng.random() < 0.6, freed=rng.random() < 0.4,
                            poly=rng.random() < 0.4, inc=[rng.choice([d["c"] for d in docs]) for _ in range(rng.choice([0, 0, 1, 2]))], calc=rng.random() < 0.5, ign=rng.random() < 0.5,
                            custom=rng.choice([0, 0, 1, 2]), props=rng.choice([None, None, ["theoretical"], ["e_above_hull"]]), key=rng.choice([None, "abc"]), wide=rng.random() < 0.3))
    return dict(elems=elems, docs=docs, ops=ops, seed=rng.randrange(10**6))

def fingerprint(es):
    return sorted([type(g).__name__, str(g.composition.formula), str(g.entry_id), int(round(float(g.temperature))) if hasattr(g, "temperature") else -1, mev(g.energy), len(g.energy_adjustments),
                   -1 if g.data.get("e_above_hull") is None else mev(g.data["e_above_hull"])] for g in es)
def execute(p):
    import random
    elems = p["elems"]; n = len(elems); docs = []; rows = []
    for i, d in enumerate(p["docs"], 1):
        s = structure(elems, d["c"], d["m"], d["vol"])
        def ent(run, de):
            return ComputedStructureEntry(s, (d["e"] + de) / 8 * len(s), entry_id=f"mp-{i}:{run}", parameters={"run_type": run}, data={"theoretical": bool(i % 2)}).as_dict()
        k = d["kind"]
        ents = {"both": lambda: {"GGA": ent("GGA", 1), "GGA+U": ent("GGA+U", 0)}, "U": lambda: {"GGA+U": ent("GGA+U", 0)}, "plain": lambda: {"GGA": ent("GGA", 0), "GGA+U": None} if i % 2 else {"GGA": ent("GGA", 0)},
                "empty": dict, "none": lambda: None, "other": lambda: {"R2SCAN": ent("R2SCAN", 0)}}[k]()
        f = Composition(formula(elems, d["c"]))
        es = sorted(e for e, x in zip(elems, d["c"]) if x)
        docs.append({"_id": i, "task_id": f"mp-{i}", "material_id": f"mp-{i}", "pretty_formula": f.reduced_formula, "elements": es, "nelements": len(es), "chemsys": "-".join(es), "entries": ents})
        rows.append(dict(id=i, c=d["c"], gga=bool(ents and ents.get("GGA")), ggau=bool(ents and ents.get("GGA+U"))))
    ev = [dict(op="db", docs=rows)]
    rng = random.Random(p["seed"])
    store = Store(docs, rng)
    def read(es): return [[int(e.entry_id.split(":")[0][3:]), e.entry_id.split(":")[1]] for e in es]
    for o in p["ops"]:
        if o["op"] == "system":
            s = [elems[i] for i in o["els"]] + o["extra"]
            arg = "-".join(s) if o["form"] == "text" else tuple(s) if o["form"] == "tuple" else list(s)
            e = dict(op="system", els=[i + 1 for i in o["els"]], got=[], input=True, exc=""); ev.append(e)
            try: e["got"] = read(get_all_entries_in_chemsys_from_entry_db(store, arg))
            except Exception as ex: e["exc"] = exc_name(ex)
            e["input"] = arg == ("-".join(s) if o["form"] == "text" else tuple(s) if o["form"] == "tuple" else s)
        elif o["op"] == "search":
            e = dict(op="search", terms=[], got=[], exc=""); ev.append(e); words = []
            for t in o["terms"]:
                r = dict(k=t["k"], id=0, els=[], any=[], c=[0] * n, n=0); e["terms"].append(r)
                if t["k"] == "id": r["id"] = t["d"] + 1; words.append(f"mp-{t['d'] + 1}"); continue
                h = t["hole"]
                pool = list(range(n)) if t["any"] == "*" else t["some"]
                hole = "*" if t["any"] == "*" else "{" + ",".join(elems[i] for i in pool) + "}"
                if h >= 0: r["any"] = [i + 1 for i in pool]
                if t["k"] == "system":
                    r["els"] = [i + 1 for i in t["els"] if i != h]
                    words.append("-".join(hole if i == h else elems[i] for i in t["els"]))
                else:
                    r["c"] = [0 if i == h else x for i, x in enumerate(t["c"])]; r["n"] = t["c"][h] if h >= 0 else 0
                    words.append("".join((hole if i == h else elems[i]) + (str(x) if x > 1 else "") for i, x in enumerate(t["c"]) if x))
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore"); e["got"] = read(get_entries_from_entry_db(store, " ".join(words)))
            except Exception as ex: e["exc"] = exc_name(ex)
        else: job(p, o, elems, docs, store, ev, rng)
    return {"params": p, "ev": ev}

def job(p, o, elems, docs, store, ev, rng):
    s = [elems[i] for i in o["els"]]
    custom = []
    for j in range(o["custom"]):
        c = [0] * len(elems)
        for i in o["els"][:2]: c[i] = 1 + j
        st = structure(elems, c, 1, 12.5 + j)
        custom.append(ComputedStructureEntry(st, -4.0 * len(st), entry_id=f"mp-{900 + j}:custom", parameters={"run_type": "GGA"}, data={"theoretical": True}))
    inc = [f for f in dict.fromkeys(Composition(formula(elems, c)).reduced_formula for c in o["inc"] if all(not x or i in o["els"] for i, x in enumerate(c)))]
    chemsys = "-".join(s)
    wide = o["wide"] and o["via"] == "mp"
    if wide: chemsys += "-" + "-".join(str(Element.from_Z(z)) for z in range(57, 84))
    kw = dict(temperature=o["T"], e_above_hull=o["hull"] / 1000, filter_at_temperature=o["Tf"] or None, include_nist_data=o["nist"], include_freed_data=o["freed"], include_polymorphs=o["poly"],
              formulas_to_include=list(inc), calculate_e_above_hulls=o["calc"] and not inc, ignore_nist_solids=o["ign"])
    base = [d for d in docs if set(d["elements"]) <= set(s)]
    given = []
    for d in base:
        x = d["entries"] and (d["entries"].get("GGA+U") or d["entries"].get("GGA"))
        if x: given.append(ComputedStructureEntry.from_dict(x))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try: want = fingerprint(process_entries(given + copy.deepcopy(custom), **dict(kw, formulas_to_include=list(inc) or None)))
        except Exception: return
        e = dict(op="job", els=[i + 1 for i in o["els"]], custom=[[900 + j, "custom"] for j in range(o["custom"])], used=[], same=False, doc=False, input=False, exc=""); ev.append(e)
        props = copy.copy(o["props"]); cu = list(custom); calls = []
        m = jobs.GetEntrySetMaker(custom_entries=cu, MP_API_KEY=o["key"], entry_db_name="entry_db" if o["via"] == "db" else None, property_data=props, **kw)
        stores = jobs.SETTINGS.JOB_STORE.additional_stores
        import mp_api.client as mc
        old, oldr = dict(stores), mc.MPRester
        try:
            stores["entry_db"] = store; mc.MPRester = rester(docs, calls)
            doc = jobs.GetEntrySetMaker.make.original(m, chemsys)
            got = fingerprint(doc.entries)
            e["same"] = got == want
            e["used"] = [[int(x[2].split(":")[0][3:]), x[2].split(":")[1]] for x in got if x[0] == "GibbsComputedEntry"]
            e["doc"] = doc.e_above_hull == o["hull"] / 1000 and doc.include_polymorphs == o["poly"] and list(doc.formulas_to_include or []) == inc and doc.task_label == m.name
            e["input"] = (len(cu) == o["custom"] and all(a is b for a, b in zip(cu, custom)) and m.formulas_to_include == inc
                          and (o["via"] == "db" and not calls or o["via"] == "mp" and all(k.get("api_key") == o["key"] for c, a, k in [x for x in calls if x[0] == "open"]) and all(x[1] == {"thermo_types": ["GGA_GGA+U"]} for x in calls if x[0] != "open")))
        except Exception as ex: e["exc"] = exc_name(ex)
        finally:
            stores.clear(); stores.update(old); mc.MPRester = oldr
def params(focus, n):
    rng = rng_for(focus)
    return [gen(rng) for _ in range(n)]
def c33():
    ck = Check("C33")
    ck.mc("MCEntryDB", scale("MCEntryDB.cfg", "MCEntryDBDeep.cfg"))
    ck.judge("TraceEntryDB", run_cases(execute, params("C33", scale(1000, 6000))))
    return ck.finish("random databases (documents with all kinds of entries) queried for random chemical systems of 1-22 elements, in every form, and by search strings; and the job that acquires and processes entries, from the database and from a stand-in for the Materials Project client")
