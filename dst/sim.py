"""The simulator: one process, one seed, every source of nondeterminism the
planner uses behind a seam that this module owns.

Seams (all installed by boot(), before terragraph_planner is imported):
  workers    multiprocessing.Pool & friends, concurrent.futures -> SimPool
  clock      time.time/monotonic/perf_counter/sleep, datetime.now -> SimClock
  randomness numpy default_rng(None), random, uuid, os.urandom-free
  solver     xpress -> dst.sim_xpress (HiGHS answers + fault plan)
  disk       libc calls under the run's scratch root -> native/diskshim.c
             (LD_PRELOAD; also covers GDAL/OGR and zipfile), or no faults when
             the shim is not loaded
"""
from __future__ import annotations

import ctypes
import datetime as _dt
import errno
import hashlib
import json
import logging
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import time as _time
import traceback
from typing import Any, Callable, Dict, List, Optional, Tuple

REPO = os.environ.get("DST_REPO", "/repo")

REAL_TIME = _time.time
REAL_MONO = _time.monotonic
REAL_PERF = _time.perf_counter
REAL_CPU = _time.process_time


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, kind: str, message: str):
        super().__init__(f"{kind}: {message}")
        self.kind = kind
        self.message = message


class SimHang(BaseException):
    """A wait that can never end in the simulated world (a deadlock)."""


class Discard(Exception):
    """The generated case is not in the property's domain."""


class InjectedWorkerError(RuntimeError):
    def __init__(self, *a):
        super().__init__(*(a or ("simulated worker failure",)))


# --------------------------------------------------------------------- clock


class SimClock:
    def __init__(self, start: float = 1_700_000_000.0):
        self.now = float(start)
        self.start = float(start)
        self.tick = 0.0  # advance per reading
        self.readings = 0
        self.script: List[float] = []  # deltas applied one per reading

    def read(self) -> float:
        self.readings += 1
        if self.script:
            self.now += self.script.pop(0)
        else:
            self.now += self.tick
        return self.now

    def advance(self, d: float) -> None:
        self.now += d


# ---------------------------------------------------------------------- pool


class _Task:
    __slots__ = ("idx", "fn", "args", "done", "ok", "value", "kind")

    def __init__(self, idx, fn, args, kind):
        self.idx, self.fn, self.args, self.kind = idx, fn, args, kind
        self.done = False
        self.ok = None
        self.value = None


class SimAsyncResult:
    def __init__(self, pool, tasks, single=False, callback=None, error_callback=None):
        self.pool, self.tasks, self.single = pool, tasks, single
        self.cb, self.ecb = callback, error_callback

    def ready(self):
        return all(t.done for t in self.tasks)

    def successful(self):
        return all(t.ok for t in self.tasks)

    def wait(self, timeout=None):
        self.pool._run_until(self.tasks)

    def get(self, timeout=None):
        self.wait()
        for t in self.tasks:
            if not t.ok:
                if self.ecb:
                    self.ecb(t.value)
                raise t.value
        vals = []
        for t in self.tasks:
            v = t.value
            if t.kind == "chunk":
                vals.extend(v)
            else:
                vals.append(v)
        out = vals[0] if self.single else vals
        if self.cb:
            self.cb(out)
        return out


class MaybeEncodingError(Exception):
    pass


class SimPool:
    """multiprocessing.Pool under the simulator's scheduler.

    Which worker takes the next chunk and which running chunk completes next is
    drawn from the world's schedule stream.  Arguments and results cross a pickle
    boundary as they do between real processes.  In "fork" mode every simulated
    worker is a forked child (its module state is its own), driven one step at a
    time so the order is still the scheduler's.
    """

    pickle_boundary = True

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        w = WORLD
        n = processes if processes is not None else w.cpus
        if n < 1:
            raise ValueError("Number of processes must be at least 1")
        self.n = int(n)
        self.queue: List[_Task] = []
        self.running: Dict[int, _Task] = {}
        self.closed = self.terminated = False
        self.init = (initializer, initargs)
        self.children: Dict[int, Tuple[int, Any, Any]] = {}
        self._state = "RUN"
        self.inited = set()
        w.pools.append({"workers": self.n, "tasks": 0})
        w.event("pool", self.n)

    # -- scheduler
    def _step(self):
        w = WORLD
        choices = []
        free = [i for i in range(self.n) if i not in self.running]
        if free and self.queue:
            choices.append("take")
        if self.running:
            choices.append("finish")
        if not choices:
            raise SimHang("pool: waiting for work that will never run")
        # biased walk chosen per run: eager workers, lazy workers or uniform
        if len(choices) == 2:
            act = "take" if w.sched.random() < w.pool_bias else "finish"
        else:
            act = choices[0]
        if act == "take":
            wk = free[w.sched.randrange(len(free))]
            t = self.queue.pop(0)
            self.running[wk] = t
            w.event("take", wk, t.idx)
        else:
            wk = sorted(self.running)[w.sched.randrange(len(self.running))]
            t = self.running.pop(wk)
            w.event("finish", wk, t.idx)
            self._execute(wk, t)
        w.sim_steps += 1
        w.clock.advance(w.sched.random() * 0.05)

    def _execute(self, wk, t: _Task):
        w = WORLD
        k = w.pool_tasks_run
        w.pool_tasks_run += 1
        w.pools[-1]["tasks"] += 1
        fault = w.pool_faults.get(k)
        if fault is not None:
            w.fault("worker_" + fault)
            t.done, t.ok = True, False
            t.value = {
                "exception": InjectedWorkerError(),
                "memory": MemoryError(),
                "oserror": OSError(errno.EIO, "simulated I/O error in worker"),
                "unpicklable": MaybeEncodingError("simulated: result cannot be sent"),
            }[fault]
            return
        if w.pool_mode == "fork" and self.pickle_boundary:
            ok, val = self._run_forked(wk, t)
        else:
            ok, val = self._run_inline(wk, t)
        t.done, t.ok, t.value = True, ok, val

    def _body(self, wk, fn, args, kind):
        if wk not in self.inited and self.init[0] is not None:
            self.init[0](*self.init[1])
            self.inited.add(wk)
        if kind == "chunk":
            return [fn(*a[0], **a[1]) for a in args]
        return fn(*args[0], **args[1])

    def _run_inline(self, wk, t):
        try:
            if self.pickle_boundary:
                fn, args = pickle.loads(pickle.dumps((t.fn, t.args)))
            else:
                fn, args = t.fn, t.args
            v = self._body(wk, fn, args, t.kind)
            if self.pickle_boundary:
                v = pickle.loads(pickle.dumps(v))
            return True, v
        except (Exception,) as e:
            return False, e

    def _run_forked(self, wk, t):
        try:
            payload = pickle.dumps((t.fn, t.args, t.kind))
        except Exception as e:
            return False, e
        if wk not in self.children:
            r1, w1 = os.pipe()
            r2, w2 = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(w1), os.close(r2)
                    for _, o, i in self.children.values():  # siblings' pipes
                        os.close(o.fileno()), os.close(i.fileno())
                    fi, fo = os.fdopen(r1, "rb"), os.fdopen(w2, "wb")
                    while True:
                        try:
                            f, a, kind = pickle.load(fi)
                        except EOFError:
                            break
                        try:
                            out = pickle.dumps((True, self._body(wk, f, a, kind)))
                        except BaseException as e:
                            try:
                                out = pickle.dumps((False, e))
                            except Exception:
                                out = pickle.dumps((False, MaybeEncodingError(repr(e))))
                        fo.write(len(out).to_bytes(8, "big") + out)
                        fo.flush()
                finally:
                    os._exit(0)
            os.close(r1), os.close(w2)
            self.children[wk] = (pid, os.fdopen(w1, "wb"), os.fdopen(r2, "rb"))
        pid, fo, fi = self.children[wk]
        fo.write(payload)
        fo.flush()
        n = fi.read(8)
        if len(n) < 8:
            raise SimHang("worker process died")
        return pickle.loads(fi.read(int.from_bytes(n, "big")))

    def _run_until(self, tasks):
        while not all(t.done for t in tasks):
            if self.terminated:
                raise SimHang("waiting for a result of a terminated pool")
            self._step()

    # -- API
    def _submit(self, fn, calls, chunksize, star=False):
        if self._state != "RUN":
            raise ValueError("Pool not running")
        calls = list(calls)
        if chunksize is None:
            c, extra = divmod(len(calls), self.n * 4)
            chunksize = c + 1 if extra else max(c, 1)
        tasks = []
        for i in range(0, len(calls), chunksize):
            tasks.append(_Task(len(self.queue) + i, fn, calls[i : i + chunksize], "chunk"))
        self.queue.extend(tasks)
        return tasks

    def map(self, fn, it, chunksize=None):
        return self.map_async(fn, it, chunksize).get()

    def map_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        t = self._submit(fn, [((x,), {}) for x in it], chunksize)
        return SimAsyncResult(self, t, callback=callback, error_callback=error_callback)

    def starmap(self, fn, it, chunksize=None):
        return self.starmap_async(fn, it, chunksize).get()

    def starmap_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        t = self._submit(fn, [(tuple(x), {}) for x in it], chunksize)
        return SimAsyncResult(self, t, callback=callback, error_callback=error_callback)

    def apply(self, fn, args=(), kwds={}):
        return self.apply_async(fn, args, kwds).get()

    def apply_async(self, fn, args=(), kwds={}, callback=None, error_callback=None):
        if self._state != "RUN":
            raise ValueError("Pool not running")
        t = _Task(len(self.queue), fn, (tuple(args), dict(kwds)), "one")
        self.queue.append(t)
        return SimAsyncResult(self, [t], single=True, callback=callback, error_callback=error_callback)

    def imap(self, fn, it, chunksize=1):
        tasks = self._submit(fn, [((x,), {}) for x in it], chunksize)

        def gen():
            for t in tasks:
                self._run_until([t])
                if not t.ok:
                    raise t.value
                yield from t.value

        return gen()

    def imap_unordered(self, fn, it, chunksize=1):
        tasks = self._submit(fn, [((x,), {}) for x in it], chunksize)

        def gen():
            left = list(tasks)
            while left:
                ready = [t for t in left if t.done]
                if not ready:
                    if self.terminated:
                        raise SimHang("waiting for a result of a terminated pool")
                    self._step()
                    continue
                t = ready[0]
                left.remove(t)
                if not t.ok:
                    raise t.value
                yield from t.value

        return gen()

    def close(self):
        self._state = "CLOSE"

    def terminate(self):
        self._state = "TERMINATE"
        self.terminated = True
        self.queue.clear()
        self.running.clear()
        for pid, fo, fi in self.children.values():
            fo.close()
            fi.close()
            os.waitpid(pid, 0)
        self.children.clear()

    def join(self):
        if self._state == "RUN":
            raise ValueError("Pool is still running")
        while not self.terminated and (self.queue or self.running):
            self._step()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()

    def __del__(self):
        try:
            if not self.terminated:
                self.terminate()
        except BaseException:
            pass


class SimThreadPool(SimPool):
    pickle_boundary = False


class SimExecutor:
    _pool_cls = SimPool

    def __init__(self, max_workers=None, *a, **k):
        self.pool = self._pool_cls(max_workers, k.get("initializer"), k.get("initargs", ()))

    def submit(self, fn, *args, **kw):
        from concurrent.futures import Future

        f: Future = Future()
        f.set_running_or_notify_cancel()
        r = self.pool.apply_async(fn, args, kw)
        try:
            f.set_result(r.get())
        except SimHang:
            raise
        except BaseException as e:
            f.set_exception(e)
        return f

    def map(self, fn, *its, timeout=None, chunksize=1):
        return self.pool.imap(_star(fn), list(zip(*its)), chunksize)

    def shutdown(self, wait=True, cancel_futures=False):
        self.pool.terminate()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        # a real executor finishes what was submitted
        while self.pool.queue or self.pool.running:
            self.pool._step()
        self.shutdown()


class _star:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, a):
        return self.fn(*a)


class SimThreadExecutor(SimExecutor):
    _pool_cls = SimThreadPool


# --------------------------------------------------------------------- disk

OPEN_R, OPEN_W, READ, WRITE, CLOSE, MKDIR, UNLINK, RENAME = (1 << i for i in range(8))
K_ERRNO, K_SHORT, K_TORN, K_CRASH, K_TORNCRASH, K_LOST = 1, 2, 3, 4, 5, 6
OPNAMES = ["open_r", "open_w", "read", "write", "close", "mkdir", "unlink", "rename"]


class Disk:
    """Arms the LD_PRELOAD shim for the run's scratch root."""

    def __init__(self):
        self.lib = None
        try:
            lib = ctypes.CDLL(None)
            if hasattr(lib, "dst_present"):
                self.lib = lib
                for f in ("dst_fired", "dst_ops", "dst_matched", "dst_opcount"):
                    getattr(lib, f).restype = ctypes.c_long
        except OSError:
            pass

    @property
    def present(self):
        return self.lib is not None

    def arm(self, root: str, mask=0, nth=0, kind=0, err=0, sticky=0):
        if self.lib:
            self.lib.dst_root(root.encode())
            self.lib.dst_arm(mask, nth, kind, err, sticky)

    def disarm(self):
        if self.lib:
            self.lib.dst_disarm()

    def fired(self) -> int:
        return self.lib.dst_fired() if self.lib else 0

    def ops(self) -> int:
        return self.lib.dst_ops() if self.lib else 0

    def matched(self) -> int:
        return self.lib.dst_matched() if self.lib else 0

    def counts(self) -> Dict[str, int]:
        if not self.lib:
            return {}
        return {n: self.lib.dst_opcount(i) for i, n in enumerate(OPNAMES)}


# -------------------------------------------------------------------- world


class World:
    """Everything one simulated run owns."""

    def __init__(self, seed: str):
        self.seed = seed
        self.sched = random.Random(seed + "/sched")
        self.solver_rng = random.Random(seed + "/solver")
        self.entropy = random.Random(seed + "/entropy")
        self.clock = SimClock()
        self.cpus = 8
        self.pool_mode = "inline"
        self.pool_bias = 0.5
        self.pool_faults: Dict[int, str] = {}
        self.pool_tasks_run = 0
        self.pools: List[Dict[str, int]] = []
        self.trace: List[Tuple] = []
        self.faults: Dict[str, int] = {}
        self.sim_steps = 0
        self.scratch: Optional[str] = None

    def event(self, *a):
        self.trace.append(a)

    def fault(self, kind: str, n: int = 1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.trace.append(("fault", kind))


WORLD: World = World("boot")
DISK: Disk = None  # type: ignore


class ScratchDir:
    """Per-run scratch root; tempfile is redirected into it."""

    def __init__(self, base: str):
        self.path = tempfile.mkdtemp(prefix="run-", dir=base)
        self.tmp = os.path.join(self.path, "tmp")
        os.mkdir(self.tmp)

    def clean(self):
        shutil.rmtree(self.path, ignore_errors=True)


# ------------------------------------------------------------------- install

_booted = False


class _DTMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _REAL_DT)

    def __subclasscheck__(cls, c):
        return issubclass(c, _REAL_DT)


_REAL_DT = _dt.datetime


class SimDatetime(_REAL_DT, metaclass=_DTMeta):
    @classmethod
    def now(cls, tz=None):
        return _REAL_DT.fromtimestamp(WORLD.clock.read(), tz)

    @classmethod
    def utcnow(cls):
        return _REAL_DT.utcfromtimestamp(WORLD.clock.read())

    @classmethod
    def today(cls):
        return _REAL_DT.fromtimestamp(WORLD.clock.read())


def boot() -> None:
    global _booted, DISK
    if _booted:
        return
    _booted = True
    logging.disable(logging.CRITICAL)
    import warnings

    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    # third-party modules first: they keep the real clock
    import numpy as np
    import pandas  # noqa: F401
    import scipy.optimize  # noqa: F401
    import networkx  # noqa: F401
    import shapely.ops  # noqa: F401
    import pyproj  # noqa: F401
    import yaml  # noqa: F401
    import multiprocessing
    import multiprocessing.pool
    import concurrent.futures
    import concurrent.futures.process
    import concurrent.futures.thread
    from osgeo import gdal, ogr, osr  # noqa: F401

    DISK = Disk()

    _time.time = lambda: WORLD.clock.read()
    _time.monotonic = lambda: WORLD.clock.read()
    _time.perf_counter = lambda: WORLD.clock.read()
    _time.time_ns = lambda: int(WORLD.clock.read() * 1e9)
    _time.monotonic_ns = lambda: int(WORLD.clock.read() * 1e9)
    _time.perf_counter_ns = lambda: int(WORLD.clock.read() * 1e9)
    _time.sleep = lambda s: WORLD.clock.advance(s)
    _dt.datetime = SimDatetime

    multiprocessing.Pool = lambda *a, **k: SimPool(*a, **k)
    multiprocessing.pool.Pool = SimPool
    multiprocessing.pool.ThreadPool = SimThreadPool
    multiprocessing.cpu_count = lambda: WORLD.cpus
    os.cpu_count = lambda: WORLD.cpus

    class _Ctx:
        def __init__(self, real):
            self._real = real

        def Pool(self, *a, **k):
            return SimPool(*a, **k)

        def cpu_count(self):
            return WORLD.cpus

        def __getattr__(self, n):
            return getattr(self._real, n)

    real_get = multiprocessing.get_context
    multiprocessing.get_context = lambda m=None: _Ctx(real_get(m))
    concurrent.futures.ProcessPoolExecutor = SimExecutor
    concurrent.futures.ThreadPoolExecutor = SimThreadExecutor
    concurrent.futures.process.ProcessPoolExecutor = SimExecutor
    concurrent.futures.thread.ThreadPoolExecutor = SimThreadExecutor

    real_rng = np.random.default_rng

    def default_rng(seed=None):
        if seed is None:
            seed = WORLD.entropy.getrandbits(64)
            WORLD.event("entropy", seed)
        return real_rng(seed)

    np.random.default_rng = default_rng

    from . import sim_xpress

    try:
        import xpress  # noqa: F401  (a real licence would still not be deterministic)
    except ImportError:
        pass
    sim_xpress.install()
    import terragraph_planner  # noqa: F401


def patch_everywhere(name: str, value: Any, prefix: str = "terragraph_planner") -> int:
    """Set a module-level constant in every planner module that carries it."""
    n = 0
    for mname, m in list(sys.modules.items()):
        if mname.startswith(prefix) and m is not None and name in vars(m):
            setattr(m, name, value)
            n += 1
    return n


def begin_world(seed: str, base: str) -> World:
    global WORLD
    from . import sim_xpress

    w = World(seed)
    WORLD = w
    sd = ScratchDir(base)
    w.scratch = sd.path
    w._sd = sd
    tempfile.tempdir = sd.tmp
    random.seed(seed)
    import numpy as np

    np.random.seed(int(hashlib.sha256(seed.encode()).hexdigest()[:8], 16))
    sim_xpress._var_counter[0] = 0
    sim_xpress._con_counter[0] = 0
    sw = sim_xpress.SolverWorld(rng=w.solver_rng, clock=w.clock)
    sim_xpress.install_world(sw)
    w.solver = sw
    reset_planner_globals()
    return w


def reset_planner_globals() -> None:
    """Process-wide planner settings back to what a fresh process has, with
    outputs going to the run's scratch directory."""
    from terragraph_planner.common.configuration.configs import SystemParams
    from terragraph_planner.common.utils import current_system_params as c

    for k, v in vars(SystemParams()).items():
        setattr(c, k, v)
    c.output_dir = WORLD.scratch


def end_world(w: World) -> None:
    DISK.disarm()
    for k, n in w.solver.fault_counts.items():
        w.faults[k] = w.faults.get(k, 0) + n
    w._sd.clean()
    tempfile.tempdir = None


def jdump(o) -> str:
    return json.dumps(o, sort_keys=True, default=str)


def digest(o) -> str:
    return hashlib.sha256(jdump(o).encode()).hexdigest()[:16]


def in_repo_traceback(e: BaseException) -> bool:
    """Was the exception raised from planner code (or a library it called)?"""
    tb = e.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(REPO + "/terragraph_planner"):
            return True
        tb = tb.tb_next
    return False


def where(e: BaseException) -> str:
    """innermost planner frame, for signatures"""
    tb = e.__traceback__
    best = "?"
    while tb is not None:
        c = tb.tb_frame.f_code
        if c.co_filename.startswith(REPO + "/terragraph_planner"):
            best = f"{os.path.relpath(c.co_filename, REPO)}:{c.co_name}"
        tb = tb.tb_next
    return best


class CpuLimit:
    """Bounds a run's CPU time: not finishing is a liveness violation."""

    def __init__(self, seconds: float):
        self.s = seconds

    def __enter__(self):
        def on(sig, fr):
            raise SimHang(f"no progress: run exceeded {self.s}s of CPU time")

        signal.signal(signal.SIGVTALRM, on)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
