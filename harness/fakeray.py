"""In-process stand-in for the `ray` module: same observable API, deterministic
seeded task scheduling. Installed in sys.modules before the code under test is
imported. Values are serialized at submission (so tasks never share state with the
driver) and come back with read-only arrays, as they do with ray's object store.

`SCHED` decides which pending task finishes next, how many CPUs are reported, and
records the history of submissions, completions and deliveries."""
from __future__ import annotations
import copyreg, functools, io, itertools, pickle, random, sys, types

class Sched:
    def __init__(self):
        self.reset()
    def reset(self, seed=0, cpus=4, policy="random", memory=1 << 33):
        self.rng = random.Random(seed); self.cpus = cpus; self.policy = policy; self.memory = memory
        self.log = []; self.ids = itertools.count(1); self.limit = 200000
        if "ObjectRef" in globals(): ObjectRef._store.clear()
    def pick(self, refs):
        n = len(refs)
        if self.policy == "fifo": return 0
        if self.policy == "lifo": return n - 1
        if self.policy == "starve": return n - 1 if n == 1 or self.rng.random() < 0.9 else self.rng.randrange(n - 1)
        return self.rng.randrange(n)
    def history(self):
        """(number of tasks, log with the tasks numbered in order of submission)"""
        num = {}
        out = [[k, num.setdefault(i, len(num) + 1)] for k, i in self.log]
        return len(num), out
SCHED = Sched()

def _dumps(v):
    bufs = []
    try:
        data = pickle.dumps(v, protocol=5, buffer_callback=bufs.append)
    except Exception:
        import cloudpickle
        bufs.clear()
        data = cloudpickle.dumps(v, protocol=5, buffer_callback=bufs.append)
    return data, [bytes(b.raw()) for b in bufs]
def _loads(t):
    return pickle.loads(t[0], buffers=t[1])

class ObjectRef:
    _store = {}
    def __init__(self):
        self.id = next(SCHED.ids); self.kind = "put"; self.task = None; self.value = None; self.done = False; self.err = None
    def __hash__(self): return hash(self.id)
    def __eq__(self, o): return isinstance(o, ObjectRef) and o.id == self.id
    def __reduce__(self):
        ObjectRef._store[self.id] = self
        return (_ref, (self.id,))
    def _run(self):
        if self.done: return
        fn, args, kwargs = _loads(self.task)
        self.task = None; self.done = True
        SCHED.log.append(("run", self.id))
        args = [get(a) if isinstance(a, ObjectRef) else a for a in args]
        kwargs = {k: get(a) if isinstance(a, ObjectRef) else a for k, a in kwargs.items()}
        try:
            self.value = _dumps(fn(*args, **kwargs))
        except BaseException as e:  # delivered at get()
            self.err = e
def _ref(i): return ObjectRef._store[i]

def put(value):
    r = ObjectRef(); r.value = _dumps(value); r.done = True
    return r
def get(ref, timeout=None):
    if isinstance(ref, (list, tuple)): return [get(x) for x in ref]
    if not isinstance(ref, ObjectRef): raise ValueError("Invalid type of object refs")
    ref._run()
    if ref.kind == "task": SCHED.log.append(("get", ref.id))
    if ref.err is not None: raise ref.err
    return _loads(ref.value)
def wait(refs, num_returns=1, timeout=None, fetch_local=True):
    refs = list(refs)
    if not refs or num_returns > len(refs): raise ValueError("num_returns cannot be greater than the number of ray_waitables")
    if len(set(refs)) != len(refs): raise ValueError("Wait requires a list of unique ray_waitables")
    SCHED.limit -= 1
    if SCHED.limit < 0: raise RuntimeError("fakeray: wait limit exceeded")
    if timeout is not None and num_returns == len(refs): chosen = list(refs)
    else:
        pend = list(refs); chosen = []
        for _ in range(num_returns): chosen.append(pend.pop(SCHED.pick(pend)))
    for r in chosen: r._run()
    cs = set(chosen)
    return [r for r in refs if r in cs], [r for r in refs if r not in cs]

class RemoteFunction:
    def __init__(self, fn, **opts): self._function = fn; functools.update_wrapper(self, fn); self._opts = opts
    def remote(self, *args, **kwargs):
        r = ObjectRef(); r.kind = "task"
        r.task = _dumps((_Fn(self._function), args, kwargs))
        SCHED.log.append(("submit", r.id))
        return r
    def options(self, **o): return RemoteFunction(self._function, **o)
    def __call__(self, *a, **k): raise TypeError("Remote functions cannot be called directly.")
    def __reduce__(self):
        return (_remote_by_name, (self._function.__module__, self._function.__qualname__))
def _remote_by_name(m, q):
    o = sys.modules[m]
    for part in q.split("."): o = getattr(o, part)
    return o
class _Fn:
    """pickles a remote function's body by reference (its public name is rebound to the wrapper)"""
    _local = {}
    def __init__(self, fn): self.fn = fn
    def __call__(self, *a, **k): return self.fn(*a, **k)
    def __reduce__(self):
        _Fn._local[id(self.fn)] = self.fn
        return (_fn, (id(self.fn),))
def _fn(i): return _Fn(_Fn._local[i])

def remote(*args, **kw):
    if len(args) == 1 and callable(args[0]) and not kw: return RemoteFunction(args[0])
    return lambda f: RemoteFunction(f, **kw)
_init = [True]
def init(*a, **k): _init[0] = True
def is_initialized(): return _init[0]
def shutdown(*a, **k): _init[0] = False
def cluster_resources(): return {"CPU": float(SCHED.cpus), "memory": float(SCHED.memory)}
available_resources = cluster_resources
def nodes(): return [{"NodeManagerHostname": "localhost", "Alive": True}]
def cancel(ref, **k): pass

def install():
    m = types.ModuleType("ray")
    for k in ("put", "get", "wait", "remote", "init", "is_initialized", "shutdown", "cluster_resources",
              "available_resources", "nodes", "cancel", "ObjectRef"):
        setattr(m, k, globals()[k])
    m.__version__ = "fake"; m.__path__ = []
    sys.modules["ray"] = m
    return m
