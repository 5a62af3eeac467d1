"""Shared machinery of the conformance checks: running drivers, recording cases,
letting TLC judge them, model checking the specifications, evidence and verdicts."""
from __future__ import annotations
import hashlib, json, math, signal, multiprocessing as mp, os, random, re, shutil, subprocess, sys, tempfile, time, traceback
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
QUICK = TIER != "thorough"
NPROC = min(8, os.cpu_count() or 1)

class MachineryError(Exception):
    pass

# ---------------------------------------------------------------- encoding
def rat(x, maxden=4000, tol=1e-7, maxnum=1 << 20):
    """Encode a number as [num, den]; [0, 0] when it is not a small rational."""
    try:
        if isinstance(x, Fraction):
            f = x
        else:
            x = float(x)
            if not math.isfinite(x):
                return [0, 0]
            f = Fraction(x).limit_denominator(maxden)
            if abs(float(f) - x) > tol * max(1.0, abs(x)):
                return [0, 0]
        if abs(f.numerator) > maxnum or f.denominator > maxnum:
            return [0, 0]
        return [f.numerator, f.denominator]
    except Exception:
        return [0, 0]

def exc_name(e):
    return type(e).__name__

# ---------------------------------------------------------------- TLC
def _java(args, env, cwd, timeout):
    heap = os.environ.get("VERIF_HEAP", "6g")
    cmd = ["java", f"-Djava.io.tmpdir={tempfile.gettempdir()}", "-XX:+UseParallelGC", "-Xss64m", f"-Xmx{heap}", "-cp", CP, "tlc2.TLC", *args]
    p = subprocess.run(cmd, cwd=cwd, env={**os.environ, **env}, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr

def run_tlc(module, cfg, env=None, workers=NPROC, timeout=800, extra=(), keep=None):
    """Runs TLC on spec/<module>.tla; returns (rc, output, distinct, generated)."""
    meta = tempfile.mkdtemp(prefix="tlcmeta.")
    try:
        rc, out = _java(["-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg,
                         *extra, module + ".tla"], env or {}, SPEC, timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError(f"TLC timed out on {module}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return rc, out, dist, gen

def compile_overrides():
    pass

class Check:
    """One property's check: collects cases, judges them, writes evidence."""
    def __init__(self, prop):
        self.prop = prop; self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []; self.violations = []; self.known_hits = []; self.notes = {}
        self.mc_runs = []; self.ncases = 0; self.nevents = 0; self.distinct = set()
        self.known = load_known(prop)
        self.clauses_seen = {}
        self.opcount = {}

    # -- model checking of the specification itself
    def mc(self, module, cfg, timeout=800, workers=NPROC, env=None, extra=()):
        t = time.time()
        rc, out, dist, gen = run_tlc(module, cfg, env=env, workers=workers, timeout=timeout, extra=extra)
        if rc != 0 or "No error has been found" not in out:
            raise MachineryError(f"model checking {module}/{cfg} failed (rc={rc}):\n{out[-3000:]}")
        self.states += dist; self.transitions += gen
        self.mc_runs.append({"module": module, "config": cfg, "distinct_states": dist, "states_generated": gen,
                             "wall_s": round(time.time() - t, 1)})
        return out

    # -- conformance
    def judge(self, module, cases, cfg="Trace.cfg", timeout=850, env=None, only=None):
        """cases: list of dicts with keys params, ev (list of events). Every event is judged by TLC."""
        cases = [c for c in cases if c["ev"]]
        for c in cases:
            if c["ev"][0].get("op") == "crash":
                self.fail(c, 1, f"{self.prop}.uncaught_exception:{c['ev'][0]['exc']}")
        cases = [c for c in cases if c["ev"][0].get("op") != "crash"]
        if not cases:
            return
        ok, out, dist, gen = self._tlc_trace(module, cfg, cases, timeout, env)
        if not ok:
            # find the recorded cases the specification cannot interpret at all
            keepf = os.path.join(VERIF, "evidence", f"{self.prop}.tlcerror.txt")
            with open(keepf, "w") as f:
                f.write(out[-20000:])
            bad = self._isolate(module, cfg, cases, timeout, env, [24])
            if not bad:
                raise MachineryError(f"{module}: TLC failed, no single case at fault; see {keepf}\n{out[-3000:]}")
            for c, o in bad:
                self.fail(c, 1, f"{self.prop}.not_a_behaviour_of_the_specification")
            print("uninterpretable record:", re.sub(r"\s+", " ", bad[0][1])[-700:])
            ids = {id(c) for c, _ in bad}
            cases = [c for c in cases if id(c) not in ids]
            if not cases:
                return
            ok, out, dist, gen = self._tlc_trace(module, cfg, cases, timeout, env)
            # when further records cannot be interpreted, the violation found above stands; what TLC printed so far is still read
        self.states += dist; self.transitions += gen; self.traces += len(cases); self.ncases += len(cases)
        for c in cases:
            self.nevents += len(c["ev"])
            for e in c["ev"]:
                k = str(e.get("op", "?")) + (":" + str(e["name"]) if "name" in e else "")
                self.opcount[k] = self.opcount.get(k, 0) + 1
            self.distinct.add(hashlib.md5(json.dumps(c["ev"], sort_keys=True).encode()).hexdigest())
        if not self.samples:
            for c in cases[:: max(1, len(cases) // 3)][:3]:
                s = json.dumps({"params": c.get("params"), "ev": c["ev"]})
                self.samples.append(json.loads(s) if len(s) < 4000 else s[:4000])
        seen = set()
        for m in re.finditer(r"@@FAIL (\d+) (\d+) ([^\"\n]+)", out):
            ci, li, clause = int(m[1]), int(m[2]), m[3].strip()
            if only and not clause.startswith(only):
                continue
            if (ci, li, clause) in seen:
                continue
            seen.add((ci, li, clause))
            self.fail(cases[ci - 1], li, clause)

    def _tlc_trace(self, module, cfg, cases, timeout, env):
        d = tempfile.mkdtemp(prefix="trace.")
        try:
            path = os.path.join(d, "trace.ndjson")
            with open(path, "w") as f:
                for c in cases:
                    f.write(json.dumps({k: v for k, v in c.items() if k != "params"}) + "\n")
            rc, out, dist, gen = run_tlc(module, cfg, env={"TRACE": path, **(env or {})}, timeout=timeout)
            return (rc == 0 and dist == sum(len(c["ev"]) + 1 for c in cases)), out, dist, gen
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def _isolate(self, module, cfg, cases, timeout, env, budget):
        """One recorded case on its own that TLC cannot interpret (by halving), if there is one."""
        while len(cases) > 1 and budget[0] > 0:
            budget[0] -= 1
            h = len(cases) // 2
            ok, _, _, _ = self._tlc_trace(module, cfg, cases[:h], timeout, env)
            cases = cases[h:] if ok else cases[:h]
        ok, out, _, _ = self._tlc_trace(module, cfg, cases, timeout, env)
        return [] if ok or len(cases) > 1 else [(cases[0], out)]

    def fail(self, case, li, clause):
        for k in self.known:
            if k.get("clause") in (None, clause) and k.get("match") in (None, case.get("params", {}).get("known_key")):
                self.known_hits.append((k, clause)); return
        self.violations.append((case, li, clause))

    def finish(self, rule, level="model_checking", assumptions=(), exhaustive=None):
        ev_dir = os.path.join(VERIF, "evidence"); os.makedirs(ev_dir, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "evaluations": self.nevents, "distinct_nontrivial": len(self.distinct), "rule": rule, "samples": self.samples,
               "events_by_operation": self.opcount, "model_checking_runs": self.mc_runs, **self.notes}
        if exhaustive is not None:
            cov["exhaustive"] = exhaustive
        ev = {"property": self.prop, "tier": "quick" if QUICK else "thorough", "seed": SEED, "level": level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(ev_dir, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in {json.dumps(k, sort_keys=True) for k, _ in self.known_hits}:
            print(f"KNOWN-FINDING: property={self.prop} {json.loads(k)['what']}")
        if not self.violations:
            print(f"OK property={self.prop} cases={self.ncases} events={self.nevents} states={self.states} wall={ev['wall_s']}s")
            return 0
        rd = os.path.join(ev_dir, "replay"); os.makedirs(rd, exist_ok=True)
        by = {}
        for case, li, clause in self.violations:
            by.setdefault(clause, []).append((case, li))
        for n, (clause, lst) in enumerate(sorted(by.items())):
            case, li = min(lst, key=lambda x: len(json.dumps(x[0], default=str)))
            p = os.path.join(rd, f"{self.prop}-{n}.json")
            with open(p, "w") as f:
                json.dump({"property": self.prop, "clause": clause, "event_index": li, "occurrences": len(lst),
                           "params": case.get("params"), "event": case["ev"][li - 1], "case": case}, f, indent=1, default=str)
            print(f"VIOLATION property={self.prop} replay={p} clause={clause} occurrences={len(lst)}")
        return 1

def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop and k.get("status") == "known"]

# ---------------------------------------------------------------- executing drivers
_EXEC = None
CASE_CPU, CASE_WALL = 150, 400     # seconds; the processor time of one case does not depend on what else is running
class CaseTimeout(BaseException):
    pass
def _on_alarm(*_):
    raise CaseTimeout()
def _work(p):
    """Runs one case. An exception or a hang that the driver does not expect is recorded as a
    crash event, which no specification allows."""
    try:
        signal.signal(signal.SIGALRM, _on_alarm)
        signal.signal(signal.SIGPROF, _on_alarm)
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU)
        signal.alarm(CASE_WALL)
        try:
            return ("ok", _EXEC(p))
        finally:
            signal.alarm(0); signal.setitimer(signal.ITIMER_PROF, 0)
    except CaseTimeout:
        return ("crash", {"params": p, "ev": [{"op": "crash", "exc": "no answer within %ds" % CASE_CPU, "tb": ""}]})
    except (MemoryError, MachineryError):
        return ("err", json.dumps(p, default=str)[:1500] + "\n" + traceback.format_exc())
    except Exception as e:
        return ("crash", {"params": p, "ev": [{"op": "crash", "exc": exc_name(e), "tb": traceback.format_exc()[-3000:]}]})

def run_cases(execute, params, nproc=NPROC, chunk=None):
    """Runs execute(params) -> case dict (or list of) for every params in a process pool."""
    global _EXEC
    _EXEC = execute
    params = list(params)
    out = []
    if nproc == 1 or len(params) < 4:
        res = map(_work, params)
        for s, r in res:
            _collect(s, r, out)
        return out
    ctx = mp.get_context("fork")
    with ctx.Pool(nproc) as pool:
        for s, r in pool.imap(_work, params, chunksize=chunk or max(1, min(32, len(params) // (nproc * 4) + 1))):
            _collect(s, r, out)
    return out

def _collect(s, r, out):
    if s == "err":
        raise MachineryError("driver failed outside the code under test:\n" + r)
    if r is None:
        return
    out.extend(r if isinstance(r, list) else [r])

def rng_for(*key):
    return random.Random("/".join(map(str, (SEED,) + key)))

def scale(quick, thorough):
    return quick if QUICK else thorough
