"""The simulator: one seeded source of decisions, an event log, the line/call seams
(sys.monitoring), the thread scheduler and the task-pool, lazy-graph, memory and random seams."""
import collections
import concurrent.futures
import ctypes
import gc
import hashlib
import random
import sys
import threading

import numpy as np

mon = sys.monitoring
TOOL = 4
STAGE = None  # path prefix of the staged package, set by the worker


class Violation(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, "%s: %s" % (kind, msg))
        self.kind, self.msg = kind, msg


def unexpected(where, e):
    """the violation for an exception that the library should not have raised; its kind names the place, so that a
    minimised run fails in the same one"""
    import traceback

    tb = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(STAGE)]
    at = " at %s line %d" % (tb[-1].name, tb[-1].lineno) if tb else ""
    return Violation("unexpected-exception %s%s" % (type(e).__name__, at), "%s: %s: %s" % (where, type(e).__name__, str(e)[:200]))


class SimFault(RuntimeError):
    """An injected failure."""


class SimWorkerDied(RuntimeError):
    """Stands for joblib's TerminatedWorkerError / BrokenProcessPool."""


class NoProgress(BaseException):
    """The step budget of a run is used up."""


class Sim:
    """Decisions, log and counters of one run."""

    def __init__(self, seed, decisions=None):
        self.rng = random.Random(seed)
        self.replay = decisions
        self.trace = []
        self.h = hashlib.sha256()
        self.events = []
        self.n_events = 0
        self.fired = collections.Counter()
        self.reached = collections.Counter()
        self.vtime = 0.0
        self.steps = 0
        self.budget = 2_000_000
        self.sched_hash = hashlib.sha256()

    def ev(self, *a):
        s = " ".join(str(x) for x in a)
        self.h.update(s.encode() + b"\n")
        self.n_events += 1
        if len(self.events) < 400:
            self.events.append(s)

    def choose(self, n, tag=""):
        if n <= 1:
            return 0
        i = len(self.trace)
        if self.replay is not None:
            v = self.replay[i] % n if i < len(self.replay) else 0
        else:
            v = self.rng.randrange(n)
        self.trace.append(v)
        self.ev("choose", tag, v, n)
        self.sched_hash.update(b"%d/%d " % (v, n))
        return v

    def weighted(self, weights, tag=""):
        """choose an index with integer weights (0 first)"""
        tot = sum(weights)
        v = self.choose(tot, tag)
        for i, w in enumerate(weights):
            if v < w:
                return i
            v -= w
        return 0

    def step(self, n=1):
        self.steps += n
        if self.steps > self.budget:
            raise NoProgress("step budget used up")

    def fault(self, kind, *a):
        self.fired[kind] += 1
        self.ev("FAULT", kind, *a)


CUR = None  # the Sim of the running child


# ------------------------------------------------------------------ line and call seam
class Lines:
    """Counts lines (and calls) executed inside the staged package and acts on them."""

    def __init__(self):
        self.active = False
        self.count = 0
        self.calls = 0
        self.trace = None  # when only counting: where each line / call is
        self.ctrace = None
        self.at = None  # line number (ordinal) at which to raise
        self.exc = None
        self.call_at = None
        self.call_exc = None
        self.only_thread = None
        self.where = None
        self.max_lines = None
        self.external = False

    def reset(self):
        self.active = False
        self.at = self.call_at = None
        self.only_thread = None

    def on_line(self, code, line):
        if not code.co_filename.startswith(STAGE):
            return mon.DISABLE
        t = SCHED_OF.get(threading.get_ident())
        if t is not None:
            t.on_line(code, line)
            return
        if not self.active or (self.only_thread is not None and threading.get_ident() != self.only_thread):
            return
        self.count += 1
        if self.trace is not None:
            self.trace.append((code, line))
        if self.max_lines is not None and self.count > self.max_lines:
            raise NoProgress("more than %d lines in one operation" % self.max_lines)
        if self.at is not None and self.count == self.at:
            self.at = None
            self.where = "%s:%d" % (code.co_filename[len(STAGE) :], line)
            if CUR is not None:
                CUR.fired["interrupt" if self.exc is KeyboardInterrupt else "exception"] += 1
            raise self.exc()

    def on_call(self, code, off, fn, arg0):
        if not code.co_filename.startswith(STAGE):
            return mon.DISABLE
        if not self.active or SCHED_OF.get(threading.get_ident()) is not None:
            return
        if self.external and not _external(fn):
            return
        self.calls += 1
        if self.ctrace is not None:
            self.ctrace.append((code, off))
        if self.call_at is not None and self.calls == self.call_at:
            self.call_at = None
            self.where = "%s+%d calling %s" % (code.co_qualname, off, getattr(fn, "__name__", type(fn).__name__))
            if CUR is not None:
                CUR.fired["failed-call"] += 1
            raise self.call_exc()


EXTERNAL = {"numpy", "scipy", "xarray", "dask", "pandas", "joblib", "skfem", "sklearn", "sparse", "fortran"}


def _external(fn):
    """calls into other libraries: where allocations and numerical routines can fail"""
    if isinstance(fn, type) and issubclass(fn, BaseException):
        return False
    m = getattr(fn, "__module__", None) or type(fn).__module__ or ""
    return m.split(".")[0] in EXTERNAL or type(fn).__name__ in ("fortran", "ufunc")


LINES = Lines()
SCHED_OF = {}  # thread ident -> SimThread
_mon_on = [0]


_CODES = []


def staged_codes():
    """all code objects of the staged package"""
    if not _CODES:
        import gc
        import types

        seen = set()

        def walk(c):
            if c not in seen and c.co_filename.startswith(STAGE):
                seen.add(c)
                _CODES.append(c)
                for k in c.co_consts:
                    if isinstance(k, types.CodeType):
                        walk(k)

        for f in gc.get_objects():
            if isinstance(f, types.FunctionType):
                walk(f.__code__)
    return _CODES


_fine = [False]


def mon_fine(on):
    """events at every bytecode instruction of the staged package"""
    if on != _fine[0]:
        for c in staged_codes():
            mon.set_local_events(TOOL, c, mon.events.INSTRUCTION if on else 0)
        _fine[0] = on


def on_instruction(code, off):
    t = SCHED_OF.get(threading.get_ident())
    if t is not None and t.sched.fine:
        t.on_instruction(code, off)


def mon_install():
    mon.use_tool_id(TOOL, "vbsim")
    mon.register_callback(TOOL, mon.events.INSTRUCTION, on_instruction)
    mon.register_callback(TOOL, mon.events.LINE, lambda c, l: LINES.on_line(c, l))
    mon.register_callback(TOOL, mon.events.CALL, lambda c, o, f, a: LINES.on_call(c, o, f, a))


def mon_events(lines=False, calls=False):
    if not lines:
        mon_fine(False)
    mon.set_events(TOOL, (mon.events.LINE if lines else 0) | (mon.events.CALL if calls else 0))


class inject:
    """with inject(line=k, exc=KeyboardInterrupt): run library code, raise at its k-th line/call.
    With neither given, only counts."""

    def __init__(self, line=None, call=None, exc=KeyboardInterrupt, count_calls=False, external=True):
        self.external = external
        self.line, self.call, self.exc, self.cc = line, call, exc, count_calls

    def __enter__(self):
        L = LINES
        L.count = L.calls = 0
        L.where = None
        L.at, L.exc = self.line, self.exc
        L.call_at, L.call_exc = self.call, self.exc
        L.only_thread = threading.get_ident()
        L.external = self.external
        counting = self.line is None and self.call is None
        L.trace, L.ctrace = ([], []) if counting else (None, None)
        mon_events(lines=True, calls=self.call is not None or self.cc)
        L.active = True
        return self

    def __exit__(self, *a):
        LINES.active = False
        self.lines, self.calls, self.where = LINES.count, LINES.calls, LINES.where
        self.trace, self.ctrace = LINES.trace, LINES.ctrace
        LINES.trace = LINES.ctrace = None
        LINES.reset()
        mon_events()
        return False


    def pick_line(self, fr):
        """ordinal of a line of the counted execution: half of the choices are uniform over the execution, half over the
        places in the source (so that what is executed once is met as often as the inner loops)"""
        return pick(self.trace, fr)

    def pick_call(self, fr):
        return pick(self.ctrace, fr)


def pick(trace, fr):
    n = len(trace)
    if not n:
        return 1
    u = fr * 2
    if u < 1:
        return 1 + min(n - 1, int(u * n))
    at = {}
    for k, loc in enumerate(trace):
        at.setdefault(loc, []).append(k)
    u = (u - 1) * len(at)
    i = min(len(at) - 1, int(u))
    occ = list(at.values())[i]
    return 1 + occ[min(len(occ) - 1, int((u - i) * len(occ)))]


# ------------------------------------------------------------------ threads
class SimThread:
    def __init__(self, sched, fn, name):
        self.sched, self.fn, self.name = sched, fn, name
        self.go = threading.Semaphore(0)
        self.done = False
        self.blocked = False
        self.started = False
        self.result = self.exc = None
        self.quantum = 0
        self.kill_at = None
        self.waiting = None
        self.nlines = 0
        self.th = threading.Thread(target=self._run, daemon=True)

    def _run(self):
        self.go.acquire()
        SCHED_OF[threading.get_ident()] = self
        try:
            self.result = self.fn()
        except BaseException as e:
            self.exc = e
        SCHED_OF.pop(threading.get_ident(), None)
        self.done = True
        self.sched.back.release()

    def on_line(self, code, line):
        self.nlines += 1
        self.quantum -= 1
        if self.kill_at is not None and self.nlines == self.kill_at:
            self.kill_at = None
            CUR.fault("task-exception-mid", self.name, line)
            raise SimFault("injected in %s" % self.name)
        if self.quantum <= 0:
            self._switch("%s:%d" % (code.co_name, line))

    def on_instruction(self, code, off):
        self.quantum -= 1
        if self.quantum <= 0:
            self._switch("%s+%d" % (code.co_name, off))

    def _switch(self, where):
        self.sched.last = where
        self.sched.back.release()
        self.go.acquire()


QUANTA = [1, 1, 2, 3, 5, 8, 13, 30, 100, 400]
FINE = 12  # bytecode instructions per source line, about


class ThreadSched:
    """Real threads, exactly one released at a time; switches only at library lines, or (a quarter of the schedules) at
    any bytecode instruction of the library, chosen by the simulator."""

    def __init__(self, sim, quanta=None):
        self.sim = sim
        self.quanta = quanta or QUANTA
        self.back = threading.Semaphore(0)
        self.ths = []
        self.last = None
        self.switches = 0
        self.cur = None
        self.fine = None

    def spawn(self, fn, name):
        t = SimThread(self, fn, name)
        self.ths.append(t)
        return t

    def live(self):
        return [t for t in self.ths if not t.done]

    def step(self, among=None):
        """let one chosen thread run one quantum; returns the thread"""
        ts = [t for t in (among or self.ths) if not t.done]
        run = [t for t in ts if not t.blocked and (t.waiting is None or not t.waiting.locked())]
        if not run:
            run = [t for t in ts if t.waiting is None]
        if not run:
            if among is None:
                raise NoProgress("all threads wait for locks")
            return ts[0]  # nothing to do until another task releases the lock
        t = run[self.sim.choose(len(run), "thread")]
        if self.fine is None:
            self.fine = self.sim.choose(4, "grain") == 3
            self.sim.reached["schedules-by-instruction" if self.fine else "schedules-by-line"] += 1
        q = self.quanta[self.sim.choose(len(self.quanta), "quantum")]
        if self.fine:  # short slices inside a line, or about as long as the others
            q = q * FINE + self.sim.choose(FINE, "instruction") if self.sim.choose(2, "slice") else 1 + self.sim.choose(2 * FINE, "instruction")
        self.sim.step(q)
        if t is not self.cur:
            self.switches += 1
            self.sim.reached["context-switch"] += 1
        self.cur = t
        t.quantum = q
        mon_events(lines=True)
        mon_fine(self.fine)
        if not t.started:
            t.started = True
            t.th.start()
        if t.blocked:  # it waits for a real lock: just give it time
            t.blocked = False
        else:
            t.go.release()
        if not self.back.acquire(timeout=10):
            t.blocked = True
            self.sim.ev("blocked", t.name)
            if all(x.blocked for x in self.live()):
                raise NoProgress("all threads are blocked")
        else:
            self.sim.ev("ran", t.name, q, self.last if not t.done else "done")
        return t

    def run_all(self):
        while self.live():
            self.step()
        mon_events()


# ------------------------------------------------------------------ locks made by the library
class SimLock:
    """What threading.Lock and RLock give to the library: a simulated thread that has to wait lets the others run."""

    def __init__(self, reentrant):
        self._re, self._owner, self._n = reentrant, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self._owner is not None and not (self._re and self._owner == me):
            if not blocking or timeout >= 0:
                return False
            t = SCHED_OF.get(me)
            if t is not None:
                t.waiting = self
                t._switch("lock")
                t.waiting = None
            elif POOL is None or not POOL.pump():
                raise NoProgress("a lock is never released")
        self._owner, self._n = me, self._n + 1
        return True

    def release(self):
        if self._owner is None or self._re and self._owner != threading.get_ident():
            raise RuntimeError("release unlocked lock")
        self._n -= 1
        if self._n == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


def install_locks():
    def factory(real, reentrant):
        def make(*a, **k):
            if sys._getframe(1).f_code.co_filename.startswith(STAGE):
                return SimLock(reentrant)
            return real(*a, **k)

        return make

    threading.Lock, threading.RLock = factory(threading.Lock, False), factory(threading.RLock, True)


# ------------------------------------------------------------------ task pools
class Job:
    n = 0

    def __init__(self, fn, cb):
        self.fn, self.cb = fn, cb
        self.state = "queued"
        self.val = self.err = None
        self.thread = None
        self.idx = None


class Pool:
    """Simulated pool of workers: the seam behind joblib's backends and concurrent.futures executors."""

    def __init__(self, sim, mode="process", batch=None, faults=(), stall_p=3, dup=0, readonly=False, sharedmem_ro=False):
        self.sim = sim
        self.mode = mode  # process | thread
        self.batch = batch or [1]
        self.faults = [dict(f) for f in faults]
        self.jobs = []
        self.n_submitted = 0
        self.n_executed = 0
        self.dup = dup
        self.readonly = readonly
        self.sched = ThreadSched(sim)
        self.workers = 1
        self.max_pending = 0
        self.order = []
        self.completed_order = []
        self.stall_p = stall_p

    # -- interface
    def submit(self, fn, cb, mode=None):
        j = Job(fn, cb)
        j.mode = mode or self.mode
        j.idx = self.n_submitted
        self.n_submitted += 1
        self.jobs.append(j)
        self.sim.ev("submit", j.idx)
        return j

    def abort(self):
        for j in self.jobs:
            if j.state in ("queued", "running", "finished"):
                j.state = "aborted"
        self.sim.ev("abort")

    def pump(self):
        """advance the simulated pool by one decision"""
        s = self.sim
        s.step()
        s.vtime += 0.01
        queued = [j for j in self.jobs if j.state == "queued"]
        running = [j for j in self.jobs if j.state == "running"]
        fin = [j for j in self.jobs if j.state == "finished"]
        acts = []
        if queued and len(running) < self.workers:
            acts += [("start", j) for j in queued[: self.workers]]
        acts += [("run", j) for j in running]
        acts += [("deliver", j) for j in fin]
        if not acts:
            return False
        self.max_pending = max(self.max_pending, len(acts))
        if s.choose(self.stall_p + 1, "stall") == self.stall_p and self.stall_p:
            s.fired["stall"] += 1
            s.vtime += 1.0
            return True
        a, j = acts[s.choose(len(acts), "pool")]
        s.ev(a, j.idx)
        if a == "start":
            j.state = "running"
            self.order.append(j.idx)
            if j.mode == "thread":
                j.thread = self.sched.spawn(lambda: self._execute(j), "t%d" % j.idx)
                for f in self.faults:
                    if f["task"] == j.idx and f["kind"] == "mid" and not f.get("used"):
                        f["used"] = True
                        j.thread.kill_at = f.get("line", 1)
        elif a == "run":
            if j.mode == "thread":
                self.sched.step([j.thread])
                if j.thread.done:
                    mon_events()
                    j.val, j.err = j.thread.result, j.thread.exc
                    j.state = "finished"
            else:
                try:
                    j.val = self._execute(j)
                except Exception as e:
                    j.err = e
                j.state = "finished"
        elif a == "deliver":
            j.state = "delivered"
            self.completed_order.append(j.idx)
            j.cb(j)
        return True

    def _execute(self, j):
        import cloudpickle

        s = self.sim
        fs = [f for f in self.faults if f["task"] == j.idx and not f.get("used")]
        for f in fs:
            if f["kind"] == "before":
                f["used"] = True
                s.fault("task-exception", j.idx)
                raise SimFault("task %d" % j.idx)
            if f["kind"] == "death":
                f["used"] = True
                s.fault("worker-death", j.idx)
                raise SimWorkerDied("A worker process managed by the executor was unexpectedly terminated")
        fn = j.fn
        if j.mode == "process":
            blob = cloudpickle.dumps(fn)
            fn = cloudpickle.loads(blob)
            if self.readonly:
                s.fired["readonly-memmap"] += 1
                set_readonly(fn)
        mid = [f for f in fs if f["kind"] == "mid" and not f.get("used")]
        self.n_executed += 1
        if j.mode == "process" and mid:
            mid[0]["used"] = True
            with inject(line=mid[0].get("line", 1), exc=SimFault) as inj:
                try:
                    val = fn()
                except SimFault:
                    s.fault("task-exception-mid", j.idx, LINES.where)
                    raise
        else:
            val = fn()
        if self.dup and j.mode == "process" and s.choose(3, "dup") == 2:  # result lost, task executed again
            s.fault("duplicate-execution", j.idx)
            self.n_executed += 1
            val = (cloudpickle.loads(blob) if j.mode == "process" else j.fn)()
        for f in fs:
            if f["kind"] == "after" and not f.get("used"):
                f["used"] = True
                s.fault("task-exception-after", j.idx)
                raise SimFault("after task %d" % j.idx)
        if j.mode == "process":
            val = cloudpickle.loads(cloudpickle.dumps(val))
        return val


def set_readonly(fn):
    """what joblib's memory mapping does to large arrays given to worker processes"""
    import xarray as xr

    seen = set()

    def walk(o, d):
        if d > 6 or id(o) in seen:
            return
        seen.add(id(o))
        if isinstance(o, xr.Dataset):
            for v in o.variables.values():
                if isinstance(v._data, np.ndarray):
                    v._data.flags.writeable = False
        elif isinstance(o, np.ndarray):
            o.flags.writeable = False
        elif isinstance(o, (list, tuple)):
            for x in o:
                walk(x, d + 1)
        elif isinstance(o, dict):
            for x in o.values():
                walk(x, d + 1)

    walk(getattr(fn, "items", None), 0)


POOL = None  # active Pool or None


class _Clock:
    """stands for the time module inside joblib: sleeping lets the simulated pool work"""

    def __init__(self, real):
        self._real = real

    def __getattr__(self, k):
        return getattr(self._real, k)

    def time(self):
        return CUR.vtime if CUR is not None and POOL is not None else self._real.time()

    monotonic = perf_counter = time

    def sleep(self, s):
        if POOL is None:
            return self._real.sleep(s)
        if not POOL.pump():
            CUR.vtime += s
            CUR.step(100)


def install_pools():
    import joblib.parallel as jp
    from joblib._parallel_backends import ParallelBackendBase, SequentialBackend

    class SimBackend(ParallelBackendBase):
        supports_retrieve_callback = True
        supports_sharedmem = False
        uses_threads = False
        kind = None  # as the run decides
        supports_inner_max_num_threads = True
        default_n_jobs = 1

        def effective_n_jobs(self, n_jobs):
            if n_jobs == 0:
                raise ValueError("n_jobs == 0 in Parallel has no meaning")
            if n_jobs is None:
                return 1
            if n_jobs < 0:
                n_jobs = max(8 + 1 + n_jobs, 1)
            if POOL is None:
                return 1
            return n_jobs

        def configure(self, n_jobs=1, parallel=None, **kw):
            n = self.effective_n_jobs(n_jobs)
            if n == 1:
                raise jp.FallbackToBackend(SequentialBackend(nesting_level=self.nesting_level)) if hasattr(jp, "FallbackToBackend") else RuntimeError("sequential")
            self.parallel = parallel
            POOL.workers = n
            CUR.reached["parallel-call"] += 1
            return n

        def submit(self, func, callback=None):
            return POOL.submit(func, callback, self.kind)

        def retrieve_result_callback(self, out):
            if out.err is not None:
                raise out.err
            return out.val

        def compute_batch_size(self):
            return POOL.batch[CUR.choose(len(POOL.batch), "batch")]

        def abort_everything(self, ensure_ready=True):
            POOL.abort()

        def terminate(self):
            if POOL is not None:
                POOL.abort()

        def get_nested_backend(self):
            return SequentialBackend(nesting_level=(self.nesting_level or 0) + 1), None

    class SimThreading(SimBackend):
        supports_sharedmem = True
        uses_threads = True
        kind = "thread"

    for k in ("loky", "multiprocessing", "threading"):
        jp.BACKENDS[k] = SimThreading if k == "threading" else SimBackend
    jp.time = _Clock(jp.time)
    _install_executors()


def _install_executors():
    cf = concurrent.futures
    real_wait, real_as_completed = cf.wait, cf.as_completed
    real_tpe, real_ppe = cf.ThreadPoolExecutor, cf.ProcessPoolExecutor

    class SimFuture(cf.Future):
        def result(self, timeout=None):
            while not self.done():
                if not POOL.pump():
                    raise NoProgress("future never completes")
            return cf.Future.result(self, 0)

        def exception(self, timeout=None):
            while not self.done():
                if not POOL.pump():
                    raise NoProgress("future never completes")
            return cf.Future.exception(self, 0)

    class SimExecutor(cf.Executor):
        def __init__(self, max_workers=None, *a, kind="process", **k):
            self._kind = kind
            self._max_workers = max_workers or 8
            POOL.workers = self._max_workers
            CUR.reached["parallel-call"] += 1

        def submit(self, fn, /, *a, **k):
            import functools

            f = SimFuture()

            def cb(job):
                if job.err is not None:
                    f.set_exception(job.err)
                else:
                    f.set_result(job.val)

            POOL.submit(functools.partial(fn, *a, **k), cb, self._kind)
            return f

        def shutdown(self, wait=True, **k):
            if wait:
                while POOL.pump():
                    pass

    def tpe(*a, **k):
        return SimExecutor(*a, kind="thread", **k) if POOL is not None else real_tpe(*a, **k)

    def ppe(*a, **k):
        return SimExecutor(*a, **k) if POOL is not None else real_ppe(*a, **k)

    def as_completed(fs, timeout=None):
        fs = list(fs)
        if POOL is None:
            yield from real_as_completed(fs, timeout)
            return
        left = list(fs)
        order = []
        for f in left:
            f.add_done_callback(order.append)
        given = 0
        while given < len(left):
            while given >= len(order):
                if not POOL.pump():
                    raise NoProgress("future never completes")
            yield order[given]
            given += 1

    def wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
        fs = set(fs)
        if POOL is not None:
            while not all(f.done() for f in fs):
                if return_when != cf.ALL_COMPLETED and any(f.done() for f in fs):
                    break
                if not POOL.pump():
                    raise NoProgress("future never completes")
        return real_wait(fs, timeout, return_when)

    cf.ThreadPoolExecutor, cf.ProcessPoolExecutor, cf.as_completed, cf.wait = tpe, ppe, as_completed, wait

    class SimMPPool:
        """multiprocessing.Pool / ThreadPool"""

        def __init__(self, n=None, *a, kind="process", **k):
            self.ex = SimExecutor(n, kind=kind)

        def map(self, f, it, chunksize=None):
            return [x.result() for x in [self.ex.submit(f, i) for i in it]]

        def starmap(self, f, it, chunksize=None):
            return [x.result() for x in [self.ex.submit(f, *i) for i in it]]

        def imap(self, f, it, chunksize=1):
            for x in [self.ex.submit(f, i) for i in it]:
                yield x.result()

        def imap_unordered(self, f, it, chunksize=1):
            for x in as_completed([self.ex.submit(f, i) for i in it]):
                yield x.result()

        def apply(self, f, a=(), k={}):
            return self.ex.submit(f, *a, **k).result()

        def apply_async(self, f, a=(), k={}, callback=None, error_callback=None):
            fut = self.ex.submit(f, *a, **k)
            if callback is not None:
                fut.add_done_callback(lambda x: callback(x.result()) if x.exception() is None else error_callback and error_callback(x.exception()))
            fut.get = fut.result
            return fut

        def close(self):
            pass

        def join(self):
            while POOL.pump():
                pass

        terminate = close

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    import multiprocessing
    import multiprocessing.pool

    rp, rtp = multiprocessing.Pool, multiprocessing.pool.ThreadPool
    multiprocessing.Pool = lambda *a, **k: SimMPPool(*a, **k) if POOL is not None else rp(*a, **k)
    multiprocessing.pool.ThreadPool = lambda *a, **k: SimMPPool(*a, kind="thread", **k) if POOL is not None else rtp(*a, **k)


class pool:
    """with pool(Pool(...)): parallel calls go through the simulated pool"""

    def __init__(self, p):
        self.p = p

    def __enter__(self):
        global POOL
        self.old = POOL
        POOL = self.p
        return self.p

    def __exit__(self, *a):
        global POOL
        POOL = self.old
        mon_events()
        return False


# ------------------------------------------------------------------ lazy graphs
class Dask:
    """Replacement scheduler for lazy arrays: any topological order, repeats, failures, threads."""

    def __init__(self, sim, recompute=0, readonly=False, threads=0, fail_at=None, fail_exc=SimFault):
        self.sim, self.recompute, self.readonly, self.threads = sim, recompute, readonly, threads
        self.fail_at, self.fail_exc = fail_at, fail_exc
        self.n = 0

    def get(self, dsk, keys, **kw):
        from dask.core import get_dependencies, flatten, _execute_task

        s = self.sim
        dsk = dict(dsk)
        deps = {k: set(get_dependencies(dsk, k)) for k in dsk}
        want = set(flatten([keys] if isinstance(keys, list) else [[keys]])) if isinstance(keys, list) else {keys}
        # keep only what is needed, in a stable order (keys may contain random tokens: order by graph position)
        need, stack = set(), list(want)
        while stack:
            k = stack.pop()
            if k in need:
                continue
            need.add(k)
            stack.extend(deps[k])
        order = [k for k in _stable_order(dsk, deps, keys) if k in need]
        pos = {k: i for i, k in enumerate(order)}
        left = {k: set(d for d in deps[k]) for k in need}
        rdep = {k: [] for k in need}
        for k in need:
            for d in deps[k]:
                rdep[d].append(k)
        ready = sorted((k for k in need if not left[k]), key=pos.get)
        cache = {}
        self.sim.reached["lazy-graph"] += 1

        def run(k):
            self.n += 1
            if self.fail_at is not None and self.n == self.fail_at:
                s.fault("lazy-task-exception", self.n)
                raise self.fail_exc("lazy task")
            v = _execute_task(dsk[k], cache)
            if self.recompute and s.choose(self.recompute + 1, "recompute") == self.recompute:
                s.fired["lazy-recompute"] += 1
                v = _execute_task(dsk[k], cache)
            if self.readonly and isinstance(v, np.ndarray) and v.base is None and v.flags.owndata:
                v.flags.writeable = False
            return v

        def finish(k, v):
            cache[k] = v
            for r in rdep[k]:
                left[r].discard(k)
                if not left[r]:
                    ready.append(r)
            ready.sort(key=pos.get)

        if not self.threads:
            while ready:
                s.step()
                k = ready.pop(s.choose(len(ready), "lazy"))
                finish(k, run(k))
        else:
            sched = ThreadSched(s)
            active = {}
            while ready or active:
                while ready and len(active) < self.threads:
                    k = ready.pop(s.choose(len(ready), "lazy"))
                    active[sched.spawn(lambda k=k: run(k), "k%d" % pos[k])] = k
                t = sched.step(list(active))
                if t.done:
                    k = active.pop(t)
                    if t.exc is not None:
                        mon_events()
                        raise t.exc
                    finish(k, t.result)
            mon_events()

        def build(ks):
            return [build(x) for x in ks] if isinstance(ks, list) else cache[ks]

        return build(keys)

    def __enter__(self):
        import dask

        self.cfg = dask.config.set(scheduler=self.get)
        self.cfg.__enter__()
        return self

    def __exit__(self, *a):
        mon_events()
        return self.cfg.__exit__(*a)


def _stable_order(dsk, deps, keys):
    """deterministic order independent of key names: depth first from the outputs in the order they are asked for,
    arguments in the order in which they appear in the tasks"""
    out, seen = [], set()

    def args(t):
        if isinstance(t, (list, tuple)) and not (type(t) is tuple and t in seen_keys(t)):
            for x in t:
                yield from args(x)
        elif isinstance(t, dict):
            for x in t.values():
                yield from args(x)
        else:
            yield t

    def seen_keys(t):
        try:
            return (t,) if t in dsk else ()
        except TypeError:
            return ()

    def visit(k):
        st = [(k, None)]
        while st:
            k, it = st[-1]
            if it is None:
                if k in seen:
                    st.pop()
                    continue
                seen.add(k)
                ch = []
                for a in args(dsk[k]) if not _is_key(dsk[k], dsk) else [dsk[k]]:
                    if _is_key(a, dsk) and a in deps[k] and a not in ch:
                        ch.append(a)
                rest = [d for d in deps[k] if d not in ch]
                ch += sorted(rest, key=str)
                it = iter(ch)
                st[-1] = (k, it)
            nxt = next(it, None)
            if nxt is None:
                out.append(k)
                st.pop()
            elif nxt not in seen:
                st.append((nxt, None))

    def flat(ks):
        if isinstance(ks, list):
            for x in ks:
                yield from flat(x)
        else:
            yield ks

    for k in flat(keys):
        visit(k)
    return out


def _is_key(x, dsk):
    try:
        return x in dsk
    except TypeError:
        return False


# ------------------------------------------------------------------ memory
_libc = ctypes.CDLL(None)
_real_empty, _real_empty_like = np.empty, np.empty_like


def perturb_memory(pattern):
    """recycled memory is filled with a pattern (0 switches off); np.empty gives garbage of the same kind"""
    _libc.mallopt(-6, pattern & 0xFF)  # M_PERTURB
    if pattern == 0:
        np.empty, np.empty_like = _real_empty, _real_empty_like
        return
    fills = {0x01: 0.0, 0x7F: np.nan, 0x33: 1e300, 0x55: -7.25}
    val = fills.get(pattern, 3.5)

    def fill(a):
        if isinstance(a, np.ndarray) and a.dtype.kind in "fc":
            a[...] = val
        elif isinstance(a, np.ndarray) and a.dtype.kind in "iu":
            a[...] = 113
        return a

    np.empty = lambda *a, **k: fill(_real_empty(*a, **k))
    np.empty_like = lambda *a, **k: fill(_real_empty_like(*a, **k))
    # numpy keeps small freed blocks: leave garbage in all of them
    for n in range(1, 129):
        blocks = [np.full(n, val) for _ in range(8)]
        del blocks
    gc.collect()


def process_settings():
    """settings of the process that every object shares"""
    import decimal
    import locale
    import signal
    import sys
    import warnings

    import dask
    import xarray as xr

    return {
        "numpy's handling of floating point errors": (np.geterr(), np.geterrcall()),
        "numpy's print options": repr(np.get_printoptions()),
        "the warning filters": [repr(f) for f in warnings.filters],
        "the display of warnings": warnings.showwarning,
        "xarray's options": repr(xr.get_options()),
        "the recursion limit": sys.getrecursionlimit(),
        "the garbage collector": (gc.isenabled(), gc.get_threshold()),
        "the locale": locale.setlocale(locale.LC_ALL),
        "the signal handlers": [signal.getsignal(k) for k in (signal.SIGINT, signal.SIGTERM, signal.SIGFPE, signal.SIGCHLD)],
        "the decimal context": repr(decimal.getcontext()),
        "the file mode mask": umask(),
        "dask's configuration": repr({k: v for k, v in dask.config.config.items() if k != "scheduler"}),
        "standard output": (id(sys.stdout), id(sys.stderr)),
    }


def umask():
    import os

    m = os.umask(0o22)
    os.umask(m)
    return m


def settings_changed(before):
    now = process_settings()
    return [k for k in before if before[k] != now[k]]


def swap_extension(name, path):
    """replace the functions of an extension module by those of another build of it, wherever they were imported"""
    import importlib.machinery
    import importlib.util
    import sys

    old = sys.modules.get(name)
    if old is None:
        return False
    short = name.rsplit(".", 1)[1]
    loader = importlib.machinery.ExtensionFileLoader(short, path)
    spec = importlib.util.spec_from_file_location(short, path, loader=loader)
    new = importlib.util.module_from_spec(spec)
    loader.exec_module(new)
    for mn, mod in list(sys.modules.items()):
        if mn.split(".")[0] == name.split(".")[0] and mod is not old and mod is not None:
            for k, v in list(vars(mod).items()):
                if v is old:
                    setattr(mod, k, new)
                elif type(v).__name__ == "fortran":
                    for n2, v2 in vars(old).items():
                        if v2 is v and hasattr(new, n2):
                            setattr(mod, k, getattr(new, n2))
    sys.modules[name] = new
    return True


# ------------------------------------------------------------------ disk
class Disk:
    KINDS = {"enospc": 1, "eio": 2, "crash": 3, "torn": 4, "short": 5, "eintr": 6, "full": 7, "crash-after": 8, "eacces": 9}

    def __init__(self, path):
        self.path = path
        self.lib = ctypes.CDLL(path)
        self.lib.fsim_arm.argtypes = [ctypes.c_char_p]
        self.lib.fsim_fault.argtypes = [ctypes.c_long, ctypes.c_int]
        self.lib.fsim_count.restype = ctypes.c_long
        self.lib.fsim_fired.restype = ctypes.c_long
        self.lib.fsim_ops.restype = ctypes.c_char_p

    def arm(self, d, faults=()):
        self.lib.fsim_arm(d.encode())
        for f in faults:
            self.lib.fsim_fault(int(f["at"]), self.KINDS[f["kind"]])

    def heal(self):
        self.lib.fsim_heal()

    def disarm(self):
        self.lib.fsim_disarm()

    def count(self):
        return self.lib.fsim_count()

    def ops(self):
        return self.lib.fsim_ops().decode()

    def fired(self):
        return {k: self.lib.fsim_fired(v) for k, v in self.KINDS.items() if self.lib.fsim_fired(v)}


DISK = None
