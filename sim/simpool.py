"""Simulated process and thread pools.

The classes replace multiprocessing's and concurrent.futures' pools.  A discrete
event loop decides when a worker starts and finishes a task; the random stream of
the run decides durations, completion order, crashes and interrupts.  A worker is
either a real forked process that is released for one task at a time (`fork`) or
an in-process stand-in that isolates arguments and results by pickling and has a
copy of the random state of its own (`inproc`)."""
import concurrent.futures
import concurrent.futures.process
import concurrent.futures.thread
import heapq
import multiprocessing
import multiprocessing.context
import multiprocessing.dummy
import multiprocessing.pool
import os
import pickle
import struct
import sys
import traceback
from concurrent.futures import Future
from concurrent.futures import wait as _real_wait
from concurrent.futures.process import BrokenProcessPool

from .core import HarnessError, Violation
from .seams import HUB, RealRandomState

LIMIT_EVENTS = 100000


class SimDeadlock(BaseException):
    """the caller waits for something that can never happen any more"""


class WorkerCrash(BaseException):
    """raised inside a simulated worker: the process dies here"""


class Policy:
    """Decides durations and faults of the simulated pools of one run."""

    def __init__(self):
        self.mode = "inproc"
        self.durations = lambda: 1.0
        self.crash = lambda task_no: None     # None | "before" | "after"
        self.interrupt = lambda wait_no: False
        self.task_log = None                  # list of dicts, one per executed task
        self.ctx = None
        self.waits = 0
        self.tasks = 0
        self.record_rng = False


POLICY = Policy()
SIDE = []      # what harness objects report from inside a task (any worker)


def reset_policy():
    POLICY.__init__()
    del SIDE[:]
    return POLICY


# ----------------------------------------------------------------- workers


def _execute(payload, log):
    """run one task; returns (ok, pickled result or exception)"""
    fn, args, kwargs = pickle.loads(payload)
    try:
        value = fn(*args, **kwargs)
        return True, pickle.dumps(value)
    except WorkerCrash:
        raise
    except BaseException as e:  # pool workers hand over every exception
        try:
            return False, pickle.dumps(e)
        except Exception:
            return False, pickle.dumps(RuntimeError(repr(e)))


class InprocWorker:
    def __init__(self):
        self.rs = RealRandomState()
        self.rs.set_state(HUB.cur().get_state())
        self.dead = False

    def run(self, payload):
        draws = []
        old = HUB.recorder
        HUB.push(self.rs)
        if POLICY.record_rng:
            HUB.recorder = lambda name, a, k, v: draws.append((name, a, k, v))
        else:
            HUB.recorder = None
        try:
            ok, res = _execute(payload, draws)
        except WorkerCrash:
            self.dead = True
            return None, None, draws
        finally:
            HUB.recorder = old
            HUB.pop()
        return ok, res, draws

    def close(self):
        self.dead = True


def _send(fd, data):
    data = struct.pack("<Q", len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _recv(fd):
    def exact(n):
        buf = b""
        while len(buf) < n:
            part = os.read(fd, n - len(buf))
            if not part:
                return None
            buf += part
        return buf
    head = exact(8)
    if head is None:
        return None
    return exact(struct.unpack("<Q", head)[0])


class ForkWorker:
    """a real process, parked in read() except while it runs one task"""

    open_fds = []

    def __init__(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                os.close(w1)
                os.close(r2)
                for fd in ForkWorker.open_fds:
                    try:
                        os.close(fd)
                    except OSError:
                        pass
                while True:
                    msg = _recv(r1)
                    if msg is None:
                        code = 0
                        break
                    draws = []
                    del SIDE[:]
                    if POLICY.record_rng:
                        HUB.recorder = lambda name, a, k, v: draws.append((name, a, k, v))
                    else:
                        HUB.recorder = None
                    try:
                        ok, res = _execute(msg, draws)
                    except WorkerCrash:
                        code = 0
                        break
                    _send(w2, pickle.dumps((ok, res, draws, list(SIDE))))
            finally:
                os._exit(code)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2
        ForkWorker.open_fds += [w1, r2]
        self.dead = False

    def run(self, payload):
        try:
            _send(self.w, payload)
            msg = _recv(self.r)
        except BrokenPipeError:
            msg = None
        if msg is None:
            self.close()
            return None, None, []
        ok, res, draws, side = pickle.loads(msg)
        SIDE.extend(side)
        return ok, res, draws

    def close(self):
        if not self.dead:
            self.dead = True
            for fd in (self.w, self.r):
                ForkWorker.open_fds.remove(fd)
                os.close(fd)
            os.waitpid(self.pid, 0)


class ThreadWorker:
    """shares memory and random state with the caller"""

    def __init__(self):
        self.dead = False

    def run(self, task):
        fn, args, kwargs = task
        try:
            return True, fn(*args, **kwargs), []
        except BaseException as e:
            return False, e, []

    def close(self):
        self.dead = True


# --------------------------------------------------------------- the simulator


class Task:
    __slots__ = ("no", "payload", "future", "state")

    def __init__(self, no, payload, future):
        self.no, self.payload, self.future = no, payload, future
        self.state = "queued"


class SimFuture(Future):
    """Future whose waiting advances simulated time instead of blocking"""

    def __init__(self, core):
        super().__init__()
        self._core = core

    def result(self, timeout=None):
        self._core.run_until(self.done, timeout)
        if not self.done():
            raise concurrent.futures.TimeoutError()
        return super().result(0)

    def exception(self, timeout=None):
        self._core.run_until(self.done, timeout)
        if not self.done():
            raise concurrent.futures.TimeoutError()
        return super().exception(0)


class PoolCore:
    """workers, queue of tasks and event queue of one pool"""

    def __init__(self, size, kind, on_crash, initializer=None, initargs=()):
        if size is None:
            size = multiprocessing.cpu_count()
        if int(size) < 1:
            raise ValueError("Number of processes must be at least 1")
        self.kind = kind
        self.size = int(size)
        self.on_crash = on_crash
        self.initializer = (initializer, initargs)
        self.queue = []
        self.events = []
        self.seq = 0
        self.state = "open"
        self.broken = None
        self.idle = []
        self.all_workers = []
        self.running = 0
        self.max_running = 0
        self.submitted = 0
        HUB.pools.append(self)
        if POLICY.ctx:
            POLICY.ctx.event("pool", kind, self.size)

    def spawn_all(self):
        while len([w for w in self.all_workers if not w.dead]) < self.size:
            self.spawn()

    def spawn(self):
        cls = ThreadWorker if self.kind == "thread" else (
            ForkWorker if POLICY.mode == "fork" else InprocWorker)
        w = cls()
        self.all_workers.append(w)
        self.idle.append(w)
        if self.initializer[0] is not None:
            task = (self.initializer[0], tuple(self.initializer[1]), {})
            w.run(task if self.kind == "thread" else pickle.dumps(task))

    @property
    def alive(self):
        return sum(not w.dead for w in self.all_workers)

    def submit(self, fn, args, kwargs):
        fut = SimFuture(self)
        self.submitted += 1
        task = (fn, args, kwargs)
        if self.kind != "thread":
            try:
                task = pickle.dumps(task)
            except Exception as e:  # queue feeder reports it to the future
                fut.set_exception(e)
                return fut
        POLICY.tasks += 1
        t = Task(POLICY.tasks - 1, task, fut)
        if self.broken:
            fut.set_exception(BrokenProcessPool(self.broken))
            return fut
        self.queue.append(t)
        self.dispatch()
        return fut

    def push(self, at, what):
        self.seq += 1
        heapq.heappush(self.events, (at, self.seq, what))

    def dispatch(self):
        while self.queue and self.idle and self.state != "terminated":
            w = self.idle.pop(0)
            if w.dead:
                continue
            t = self.queue.pop(0)
            if not t.future.set_running_or_notify_cancel():
                self.idle.insert(0, w)
                continue
            self.start(w, t)

    def start(self, w, t):
        self.running += 1
        self.max_running = max(self.max_running, self.running)
        crash = POLICY.crash(t.no) if self.kind != "thread" else None
        dur = POLICY.durations()
        ok = res = None
        draws = []
        if crash == "before":
            w.close()
        else:
            ok, res, draws = w.run(t.payload)
            if crash == "after":
                w.close()
                ok = res = None
            if POLICY.task_log is not None and self.kind != "thread":
                POLICY.task_log.append({
                    "no": t.no, "payload": t.payload, "ok": ok, "result": res,
                    "draws": draws, "worker": self.all_workers.index(w)})
        self.push(HUB.clock + dur, (w, t, ok, res))

    def finish(self, w, t, ok, res):
        self.running -= 1
        ctx = POLICY.ctx
        if self.state == "terminated":
            return
        if ok is None:  # the worker died
            if ctx:
                ctx.event("t=%.3f" % (HUB.clock - 1e9), "worker dies in task", t.no)
            self.on_crash(self, w, t)
        else:
            if ctx:
                ctx.event("t=%.3f" % (HUB.clock - 1e9), "done", t.no)
            value = res if self.kind == "thread" else pickle.loads(res)
            if ok:
                t.future.set_result(value)
            else:
                t.future.set_exception(value)
            self.idle.append(w)
        self.dispatch()

    def step(self):
        if not self.events:
            return False
        at, _, (w, t, ok, res) = heapq.heappop(self.events)
        HUB.clock = max(HUB.clock, at)
        if POLICY.ctx:
            POLICY.ctx.steps += 1
            if POLICY.ctx.steps > LIMIT_EVENTS:
                raise HarnessError("too many simulated events")
        self.finish(w, t, ok, res)
        return True

    def run_until(self, cond, timeout=None):
        if cond():
            return
        POLICY.waits += 1
        if POLICY.interrupt(POLICY.waits - 1):
            raise KeyboardInterrupt("simulated interrupt while waiting")
        deadline = None if timeout is None else HUB.clock + timeout
        while not cond():
            if deadline is not None and (not self.events or self.events[0][0] > deadline):
                HUB.clock = deadline
                return
            if not self.step():
                raise SimDeadlock("waiting for a result that no worker will deliver")

    def cancel_queued(self):
        for t in self.queue:
            t.future.cancel()
        self.queue = []

    def stop(self, wait=True):
        """graceful: pending tasks are completed, then the workers end"""
        if self.state == "terminated":
            return
        if self.state == "open":
            self.state = "closed"
        if wait:
            self.run_until(lambda: not self.queue and not self.events)
            self.end_workers()

    def terminate(self):
        self.state = "terminated"
        self.cancel_queued()
        self.events = []
        self.end_workers()

    def end_workers(self):
        self.state = "terminated"
        for w in self.all_workers:
            w.close()
        self.idle = []


def _crash_executor(core, w, t):
    """concurrent.futures: one dead process breaks the whole executor"""
    core.broken = ("A process in the process pool was terminated abruptly while "
                   "the future was running or pending.")
    exc = BrokenProcessPool(core.broken)
    t.future.set_exception(exc)
    for _, _, (w2, t2, ok, res) in core.events:
        t2.future.set_exception(exc)
    core.events = []
    for t2 in core.queue:
        t2.future.set_exception(exc)
    core.queue = []
    core.running = 0
    for w2 in core.all_workers:
        w2.close()
    core.idle = []


def _crash_pool(core, w, t):
    """multiprocessing.Pool: the worker is replaced, its task is lost"""
    core.spawn()


class SimExecutor(concurrent.futures.Executor):
    KIND = "process"

    def __init__(self, max_workers=None, mp_context=None, initializer=None,
                 initargs=(), thread_name_prefix=""):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self._core = PoolCore(max_workers, self.KIND, _crash_executor, initializer, initargs)
        self._max_workers = self._core.size

    def submit(self, fn, *args, **kwargs):
        if self._core.broken:
            raise BrokenProcessPool(self._core.broken)
        if self._core.state != "open":
            raise RuntimeError("cannot schedule new futures after shutdown")
        self._core.spawn_all()
        return self._core.submit(fn, args, kwargs)

    # Executor.map of the standard library builds on submit() and result()

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        fs = [self.submit(fn, *args) for args in zip(*iterables)]

        def results():
            try:
                fs.reverse()
                while fs:
                    yield fs.pop().result()
            finally:
                for f in fs:
                    f.cancel()
        return results()

    def shutdown(self, wait=True, *, cancel_futures=False):
        if cancel_futures:
            self._core.cancel_queued()
        self._core.stop(wait)


class SimThreadExecutor(SimExecutor):
    KIND = "thread"

    def __init__(self, max_workers=None, thread_name_prefix="", initializer=None, initargs=()):
        super().__init__(max_workers, None, initializer, initargs)


class SimAsyncResult:
    def __init__(self, core, futures, single, callback=None, error_callback=None):
        self._core, self._fs, self._single = core, futures, single
        self._cb, self._ecb = callback, error_callback

    def ready(self):
        return all(f.done() for f in self._fs)

    def wait(self, timeout=None):
        self._core.run_until(self.ready, timeout)

    def get(self, timeout=None):
        self._core.run_until(self.ready, timeout)
        if not self.ready():
            raise multiprocessing.TimeoutError
        values = [f.result() for f in self._fs]
        return values[0] if self._single else values

    def successful(self):
        return all(f.exception() is None for f in self._fs)


class SimPool:
    KIND = "process"

    def __init__(self, processes=None, initializer=None, initargs=(),
                 maxtasksperchild=None, context=None):
        self._core = PoolCore(processes, self.KIND, _crash_pool, initializer, initargs)
        self._core.spawn_all()
        self._processes = self._core.size

    def _check(self):
        if self._core.state != "open":
            raise ValueError("Pool not running")

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        self._check()
        return SimAsyncResult(self._core, [self._core.submit(func, tuple(args), dict(kwds))], True)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        self._check()
        return SimAsyncResult(
            self._core, [self._core.submit(func, (x,), {}) for x in iterable], False)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        self._check()
        return SimAsyncResult(
            self._core, [self._core.submit(func, tuple(x), {}) for x in iterable], False)

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def imap(self, func, iterable, chunksize=1):
        self._check()
        fs = [self._core.submit(func, (x,), {}) for x in iterable]
        return SimIterator(self._core, fs, ordered=True)

    def imap_unordered(self, func, iterable, chunksize=1):
        self._check()
        fs = [self._core.submit(func, (x,), {}) for x in iterable]
        return SimIterator(self._core, fs, ordered=False)

    def close(self):
        if self._core.state == "open":
            self._core.state = "closed"

    def terminate(self):
        self._core.terminate()

    def join(self):
        if self._core.state == "open":
            raise ValueError("Pool is still running")
        if self._core.state != "terminated":
            self._core.stop(True)

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *exc):
        self.terminate()


class SimThreadPool(SimPool):
    KIND = "thread"

    def __init__(self, processes=None, initializer=None, initargs=()):
        super().__init__(processes, initializer, initargs)


class SimIterator:
    def __init__(self, core, fs, ordered):
        self.core, self.fs, self.ordered = core, list(fs), ordered
        self.done_order = []
        for f in self.fs:
            f.add_done_callback(self.done_order.append)
        self.given = 0

    def __iter__(self):
        return self

    def next(self, timeout=None):
        if self.given >= len(self.fs):
            raise StopIteration
        if self.ordered:
            f = self.fs[self.given]
            self.core.run_until(f.done, timeout)
        else:
            self.core.run_until(lambda: len(self.done_order) > self.given, timeout)
            if len(self.done_order) <= self.given:
                raise multiprocessing.TimeoutError
            f = self.done_order[self.given]
        if not f.done():
            raise multiprocessing.TimeoutError
        self.given += 1
        return f.result()

    __next__ = next


def _sim_as_completed(fs, timeout=None):
    fs = list(fs)
    pending = [f for f in fs]
    order = []
    for f in fs:
        f.add_done_callback(order.append)
    n = 0
    while n < len(fs):
        core = next((f._core for f in pending if not f.done()), None)
        if len(order) <= n:
            if core is None:
                raise HarnessError("as_completed")
            core.run_until(lambda: len(order) > n, timeout)
        yield order[n]
        n += 1


def _sim_wait(fs, timeout=None, return_when="ALL_COMPLETED"):
    fs = list(fs)

    def cond():
        d = [f for f in fs if f.done()]
        if return_when == "FIRST_COMPLETED":
            return bool(d)
        if return_when == "FIRST_EXCEPTION" and any(
                not f.cancelled() and f.exception(0) for f in d):
            return True
        return len(d) == len(fs)
    for f in fs:
        if cond():
            break
        if not f.done():
            f._core.run_until(lambda: cond() or f.done(), timeout)
    done = {f for f in fs if f.done()}
    return concurrent.futures._base.DoneAndNotDoneFutures(done, set(fs) - done)


def install():
    def make_pool(processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        return SimPool(processes, initializer, initargs, maxtasksperchild)

    def ctx_pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        return SimPool(processes, initializer, initargs, maxtasksperchild)

    multiprocessing.Pool = make_pool
    multiprocessing.context.BaseContext.Pool = ctx_pool
    multiprocessing.context.BaseContext.cpu_count = lambda self: multiprocessing.cpu_count()
    multiprocessing.pool.Pool = SimPool
    multiprocessing.pool.ThreadPool = SimThreadPool
    multiprocessing.dummy.Pool = SimThreadPool
    concurrent.futures.ProcessPoolExecutor = SimExecutor
    concurrent.futures.process.ProcessPoolExecutor = SimExecutor
    concurrent.futures.ThreadPoolExecutor = SimThreadExecutor
    concurrent.futures.thread.ThreadPoolExecutor = SimThreadExecutor
    concurrent.futures.as_completed = _sim_as_completed
    concurrent.futures.wait = _sim_wait
