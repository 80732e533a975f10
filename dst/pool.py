"""The worker-pool simulator. LEGWORK's parallel parts run over multiprocess.pool.Pool (through schwimmbad). The pool's
own logic (how jobs are cut into chunks, how results are put together, errors, timeouts) stays the real code; what is
simulated is everything below it: the worker processes' timing, the queues, the pool's helper threads and the clock.
Each simulated worker is a real forked process, but it runs when, and only when, the simulator says so."""
import concurrent.futures
import concurrent.futures.process
import heapq
import os
import pickle
import signal
import struct
import threading

import multiprocess.pool
import multiprocess.reduction
import multiprocessing.pool
import multiprocessing.reduction

from . import inject
from .kernel import HarnessError

HANG_AFTER = 48 * 3600.0         # simulated seconds without anything left that could happen


class Hung(KeyboardInterrupt):
    """Nothing will ever happen any more: the user gives up and interrupts."""


class Worker:
    def __init__(self, sim, initializer, initargs, pickler, wrap):
        self.sim, self.pickler, self.wrap = sim, pickler, wrap
        self.task, self.exitcode, self.number = None, None, sim.started
        sim.started += 1
        a, self.to = os.pipe()
        self.back, b = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.to), os.close(self.back)
                sim.in_worker = True
                if initializer is not None:
                    initializer(*initargs)
                while True:
                    fault, data = read_message(a), read_message(a)
                    if data is None:
                        break
                    write_message(b, self.work(data, pickle.loads(fault)))
            finally:
                os._exit(0)
        os.close(a), os.close(b)

    def work(self, data, fault):
        job, i, func, args, kwds = self.pickler.loads(data)
        try:
            if fault is None:
                result = (True, func(*args, **kwds))
            else:                           # inside the job if possible, else as its result
                with inject.Calls(fault.get("site", 0), fault["error"]) as failing:
                    result = (True, func(*args, **kwds))
                if not failing.fired:
                    raise inject.make(fault["error"])
        except Exception as e:
            if self.wrap:
                e = multiprocess.pool.ExceptionWithTraceback(e, e.__traceback__)
            result = (False, e)
        try:
            return bytes(self.pickler.dumps((job, i, result)))
        except Exception as e:
            return bytes(self.pickler.dumps((job, i, (False, multiprocess.pool.MaybeEncodingError(e, result[1])))))

    def call(self, data, fault=None):
        write_message(self.to, pickle.dumps(fault))
        write_message(self.to, data)
        out = read_message(self.back)
        if out is None:
            raise HarnessError("a simulated worker ended by itself")
        return self.pickler.loads(out)

    def kill(self):
        if self.exitcode is None:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
            os.close(self.to), os.close(self.back)
            self.exitcode = -9

    def is_alive(self):
        return self.exitcode is None

    def join(self, timeout=None):
        pass


def write_message(fd, data):
    data = struct.pack("q", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def read_message(fd):
    data = b""
    while len(data) < 8:
        part = os.read(fd, 8 - len(data))
        if not part:
            return None
        data += part
    size = struct.unpack("q", data)[0]
    parts = []
    while size:
        part = os.read(fd, min(size, 1 << 20))
        if not part:
            return None
        parts.append(part)
        size -= len(part)
    return b"".join(parts)


class TaskQueue:
    def __init__(self, sim, pool):
        self.sim, self.pool = sim, pool

    def put(self, item):
        """What the pool's task-handler thread does."""
        if item is None:
            return
        taskseq, set_length = item
        idx = -1
        for idx, task in enumerate(taskseq):
            try:
                self.pool._dst_tasks.append((task[0], task[1], bytes(self.pool._dst_pickler.dumps(task))))
            except Exception as e:
                self.pool._cache[task[0]]._set(task[1], (False, e))
        if set_length:
            set_length(idx + 1)


class Sim:
    """plan: {"durations": [...], "picks": [...], "faults": [{"task": k, "kind": ...}], "interrupt": seconds or None,
    "fork": n or None}"""

    def __init__(self, ctx, plan):
        self.ctx, self.plan = ctx, plan
        self.now, self.pools, self.running, self.started = 0.0, [], [], 0
        self.tasks_started, self.seq, self.in_worker = 0, 0, False
        self.order, self.deaths, self.peak, self.hung, self.interrupted = [], 0, 0, False, False
        self.fired = []
        self.reset(plan)

    def reset(self, plan):
        """A new call begins (with its own faults)."""
        self.plan = plan
        self.faults = {f["task"]: f for f in plan.get("faults") or []}
        self.interrupt_at = None if plan.get("interrupt") is None else self.now + plan["interrupt"]
        self.fork_fail = plan.get("fork")
        self.tasks_started, self.order, self.deaths, self.peak, self.hung, self.interrupted, self.fired = 0, [], 0, 0, False, False, []
        self.forks = 0

    # -------------------------------------------------------------------------------------- pools

    def start_worker(self, pool):
        if self.fork_fail is not None and self.forks >= self.fork_fail:
            self.note("worker-cannot-be-started")
            raise BlockingIOError(11, "Resource temporarily unavailable")
        self.forks += 1
        w = Worker(self, pool._initializer, pool._initargs, pool._dst_pickler, pool._wrap_exception)
        pool._pool.append(w)
        self.peak = max(self.peak, self.alive())
        return w

    def alive(self):
        return sum(w.is_alive() for p in self.pools for w in p._pool)

    def shut(self, pool):
        for w in pool._pool:
            w.kill()
        pool._dst_tasks.clear()
        self.running = [r for r in self.running if r[2] is not pool]
        heapq.heapify(self.running)

    def note(self, kind):
        self.fired.append(kind)
        self.ctx.fault(kind)

    def dispatch(self):
        """Free workers take the next jobs."""
        for pool in self.pools:
            while pool._dst_tasks:
                free = [w for w in pool._pool if w.is_alive() and w.task is None]
                if not free:
                    break
                picks = self.plan.get("picks") or [0]
                w = free[picks[self.tasks_started % len(picks)] % len(free)]
                job, i, data = pool._dst_tasks.pop(0)
                durations = self.plan.get("durations") or [1.0]
                fault = self.faults.get(self.tasks_started)
                time = durations[self.tasks_started % len(durations)]
                if fault and fault["kind"] == "stall":
                    self.note("worker-stalls")
                    time += fault["seconds"]
                self.tasks_started += 1
                self.seq += 1
                w.task = (job, i, data, fault)
                heapq.heappush(self.running, (self.now + time, self.seq, pool, w))

    def finish(self, pool, w):
        job, i, data, fault = w.task
        w.task = None
        if fault and fault["kind"] == "die":
            self.note("worker-dies")
            self.deaths += 1
            w.kill()
            self.order.append((job, i, "died"))
            if pool._state == "RUN":
                pool._pool.remove(w)            # the pool starts another one in its place
                self.start_worker(pool)
            return
        if fault and fault["kind"] == "error":
            self.note("worker-raises")
            _, _, result = w.call(data, fault)
        else:
            _, _, result = w.call(data)
        self.order.append((job, i, "ok" if result[0] else "error"))
        if job in pool._cache:
            pool._cache[job]._set(i, result)

    def until(self, ready, timeout=None):
        """Let simulated time pass until something is ready. Returns whether it is."""
        end = None if timeout is None else self.now + timeout
        while not ready():
            self.dispatch()
            if not self.running:
                if end is None or end > self.now + HANG_AFTER or self.plan.get("idle", 0) > HANG_AFTER:
                    self.hang()
                if self.interrupt_at is not None and self.interrupt_at < end:
                    self.interrupt()
                self.plan = dict(self.plan, idle=self.plan.get("idle", 0) + (end - self.now))
                self.now = end
                return ready()
            when = self.running[0][0]
            if self.interrupt_at is not None and self.interrupt_at <= min(when, end if end is not None else when):
                self.interrupt()
            if end is not None and end < when:
                self.now = end
                return ready()
            _, _, pool, w = heapq.heappop(self.running)
            self.now = max(self.now, when)
            self.plan = dict(self.plan, idle=0)
            self.finish(pool, w)
        return True

    def interrupt(self):
        self.now = max(self.now, self.interrupt_at)
        self.interrupt_at = None
        self.interrupted = True
        self.note("user-interrupts")
        raise KeyboardInterrupt("injected")

    def hang(self):
        self.hung = True
        raise Hung("nothing is left that could happen")

    def leftovers(self):
        """Workers that are still there (of pools that can still do something), and other child processes."""
        known = {w.pid for p in self.pools for w in p._pool if w.is_alive()}
        closed = {w.pid for p in self.pools for w in p._pool if w.is_alive() and p._state == "CLOSE" and not p._dst_tasks and
                  not any(r[2] is p for r in self.running)}
        return len((known | children()) - closed)

    def clean(self):
        """Kill whatever is left (after it was looked at)."""
        for p in self.pools:
            self.shut(p)
            p._state = "TERMINATE"
        self.pools = []


def children():
    """Processes that this one has started and that are alive."""
    found = set()
    me = os.getpid()
    for tid in os.listdir("/proc/self/task"):
        try:
            with open("/proc/self/task/%s/children" % tid) as f:
                found |= {int(p) for p in f.read().split()}
        except OSError:
            pass
    return {p for p in found if p != me}


# ------------------------------------------------------------------------------------------------ installation

def install(sim):
    for mod, pickler in ((multiprocess.pool, multiprocess.reduction.ForkingPickler),
                         (multiprocessing.pool, multiprocessing.reduction.ForkingPickler)):
        patch(mod, pickler, sim)

    class Executor(concurrent.futures.Executor):
        """ProcessPoolExecutor over the same simulated workers."""

        def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
            self.pool = multiprocessing.pool.Pool(max_workers, initializer, initargs)

        def submit(self, fn, /, *args, **kw):
            future = concurrent.futures.Future()
            r = self.pool.apply_async(fn, args, kw, future.set_result, future.set_exception)
            wait = future.result

            def result(timeout=None):
                if sim.deaths and not sim.running and not future.done():
                    future.set_exception(concurrent.futures.process.BrokenProcessPool("a worker died"))
                r.wait(timeout)
                return wait(0)
            future.result = result
            return future

        def shutdown(self, wait=True, *, cancel_futures=False):
            self.pool.terminate()
    concurrent.futures.ProcessPoolExecutor = Executor
    concurrent.futures.process.ProcessPoolExecutor = Executor


def patch(mod, pickler, sim):
    Pool = mod.Pool

    def init(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self._pool, self._state, self._dst_tasks, self._cache = [], "RUN", [], {}
        self._processes = processes or os.cpu_count() or 1
        if self._processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self._initializer, self._initargs, self._maxtasksperchild = initializer, initargs, maxtasksperchild
        self._dst_pickler = pickler
        self._taskqueue = TaskQueue(sim, self)
        sim.pools.append(self)
        try:
            for _ in range(self._processes):
                sim.start_worker(self)
        except BaseException:
            self._state = "TERMINATE"
            sim.shut(self)
            raise

    def close(self):
        if self._state == "RUN":
            self._state = "CLOSE"

    def terminate(self):
        self._state = "TERMINATE"
        sim.shut(self)

    def join(self):
        if self._state == "RUN":
            raise ValueError("Pool is still running")
        if self._state == "CLOSE":
            sim.until(lambda: not self._dst_tasks and not any(r[2] is self for r in sim.running))
            sim.shut(self)
            self._state = "TERMINATE"

    def wait(self, timeout=None):
        sim.until(self._event.is_set, timeout)

    real_next = mod.IMapIterator.next

    def next_(self, timeout=None):
        if not sim.until(lambda: self._items or self._index == self._length, timeout):
            raise mod.TimeoutError
        return real_next(self, timeout)

    Pool.__init__, Pool.close, Pool.terminate, Pool.join = init, close, terminate, join
    Pool.__del__ = lambda self: None
    mod.ApplyResult.wait = wait
    mod.IMapIterator.next = mod.IMapIterator.__next__ = next_


def generate_schedule(rng, n_tasks=24):
    kind = rng.choice(["even", "spread", "reverse", "one-slow"])
    if kind == "even":
        durations = [1.0]
    elif kind == "spread":
        durations = [round(10**rng.uniform(-2, 3), 3) for _ in range(n_tasks)]
    elif kind == "reverse":
        durations = [float(n_tasks - i) * 10 for i in range(n_tasks)]
    else:
        durations = [1.0] * n_tasks
        durations[rng.randrange(n_tasks)] = 2000.0
    return {"durations": durations, "picks": [rng.randrange(8) for _ in range(rng.choice([1, 5, n_tasks]))]}
