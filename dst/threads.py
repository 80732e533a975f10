"""Simulated scheduling of real threads. Only the thread that holds the baton runs; it is passed on at chosen source
lines (or bytecodes) of LEGWORK, as the plan says, or when a lock is contended. To be installed before LEGWORK is imported, so
that locks made by LEGWORK are ones the scheduler knows about."""
import _thread
import dis
import logging
import os
import sys
import threading
import types

import astropy.units as u

HERE = os.path.dirname(os.path.abspath(__file__)) + os.sep
SAFE = ("contextlib.py", "functools.py", "threading.py")
PLAIN = (str, int, float, complex, tuple, bytes, frozenset, type(None), types.ModuleType, logging.Logger, u.UnitBase, u.Quantity)
_real_lock, _real_rlock = threading.Lock, threading.RLock
current = None                                     # the scheduler of the running simulation


class _Cooperative:
    """A lock that passes the baton on instead of blocking the only running thread."""

    def acquire(self, blocking=True, timeout=-1):
        sched = current
        if sched is None or not sched.mine() or not blocking:
            return self._lock.acquire(blocking, timeout) if blocking else self._lock.acquire(False)
        while not self._lock.acquire(False):
            sched.contended += 1
            sched.pass_on(None)
        return True

    def release(self):
        self._lock.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()


class Lock(_Cooperative):
    def __init__(self):
        self._lock = _real_lock()

    def locked(self):
        return self._lock.locked()


class RLock(_Cooperative):
    def __init__(self):
        self._lock = _real_rlock()

    def __getattr__(self, name):
        return getattr(self._lock, name)


def install():
    import astropy.coordinates, astropy.units, h5py, matplotlib.pyplot, numpy, scipy.integrate, scipy.interpolate, scipy.special, seaborn, schwimmbad  # noqa
    threading.Lock, threading.RLock = Lock, RLock


_shared = {}


def shared_lines(code, frame):
    """The lines of a function that use something which other threads can change: module-level containers and objects,
    attributes of functions and classes, variables of enclosing functions."""
    if code not in _shared:
        lines, line, owner = set(), code.co_firstlineno, False
        for ins in dis.get_instructions(code):
            line = ins.positions.lineno if ins.positions and ins.positions.lineno else line
            if ins.opname in ("STORE_GLOBAL", "DELETE_GLOBAL"):
                lines.add(line)
            elif ins.opname in ("STORE_ATTR", "LOAD_ATTR") and owner and not ins.argval.startswith("__"):
                lines.add(line)
            owner = False
            if ins.opname in ("LOAD_GLOBAL", "LOAD_NAME", "LOAD_DEREF"):
                value = frame.f_globals.get(ins.argval) if ins.opname != "LOAD_DEREF" else frame.f_locals.get(ins.argval)
                if isinstance(value, (types.FunctionType, type)):
                    owner = str(getattr(value, "__module__", "")).startswith("legwork")
                elif not isinstance(value, PLAIN) and not callable(value):
                    lines.add(line)
        _shared[code] = lines
    return _shared[code]


class Scheduler:
    """Runs the functions in threads of their own. `schedule` is a list of [steps, next]: after so many traced steps
    the baton goes to the next-th of the other live threads; at its end every thread runs to completion."""

    def __init__(self, schedule, package, opcodes=False, aims=()):
        self.schedule, self.package, self.opcodes = [list(x) for x in schedule], package, opcodes
        self.steps = self.switches = self.contended = self.refused = 0
        self.countdown = self.schedule[0][0] if self.schedule else -1
        self.live, self.trail, self.ids = [], [], {}
        from h5py._objects import phil
        self._hdf5 = phil
        self.batons, self.done, self.visits = {}, _real_lock(), {}
        self.aims, self.pending, self.places = {tuple(place): pick for place, pick in aims}, None, None

    def mine(self):
        return _thread.get_ident() in self.ids

    def run(self, functions):
        global current
        self.done.acquire()
        threads = []
        for i, fn in enumerate(functions):
            baton = _real_lock()
            baton.acquire()
            self.batons[i] = baton
            self.live.append(i)
            threads.append(threading.Thread(target=self._body, args=(i, fn), daemon=True))
        for t in threads:
            t.start()
        current = self
        self.holder = 0
        self.batons[0].release()
        self.done.acquire()
        current = None
        for t in threads:
            t.join()

    def explore(self, number, fn):
        """Runs one thread's function here and now; returns the places where it could be interrupted: how often it visits them,
        and whether they are next to something that threads share."""
        self.places, self.holder, self.last = {}, number, {}
        sys.settrace(self._global)
        try:
            fn()
        finally:
            sys.settrace(None)
        return [(key, min(self.visits[key], 8), kind == 2) for key, kind in self.places.items() if kind]

    def _body(self, i, fn):
        self.batons[i].acquire()
        self.ids[_thread.get_ident()] = i
        sys.settrace(self._global)
        try:
            fn()
        finally:
            sys.settrace(None)
            del self.ids[_thread.get_ident()]
            self.live.remove(i)
            if self.live:
                self.holder = self.live[i % len(self.live)]
                self.batons[self.holder].release()
            else:
                self.done.release()

    def _global(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.package):
            return None
        back = frame.f_back
        if back is not None and not self._ours(back.f_code.co_filename):
            return None                            # called back by a library
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self._local

    def _local(self, frame, event, arg):
        if event != ("opcode" if self.opcodes else "line"):
            return self._local
        code = frame.f_code
        key = (self.holder, code.co_filename[len(self.package):], code.co_name, code.co_firstlineno, frame.f_lasti)
        visits = self.visits[key] = self.visits.get(key, 0) + 1
        if visits > 8:                                 # the thousandth turn of a loop isn't a new place
            return self._local
        self.steps += 1
        if self.places is not None:
            if visits == 1:
                lines = shared_lines(code, frame)
                self.places[key] = self._safe(frame) and (1 + (frame.f_lineno in lines or self.last.get(id(frame)) in lines))
            self.last[id(frame)] = frame.f_lineno
            return self._local
        if self.aims:
            pick = self.aims.pop(key + (visits,), None)
            self.pending = self.pending if pick is None else pick
        if self.pending is not None and len(self.live) > 1:
            if self._safe(frame):
                pick, self.pending = self.pending, None
                self.trail.append((code.co_name, pick))
                self.pass_on(pick)
            else:
                self.refused += 1
        if self.countdown < 0:
            return self._local
        self.countdown -= 1
        if self.countdown <= 0:
            if not self.schedule:
                self.countdown = -1
            elif len(self.live) > 1 and self._safe(frame):
                _, pick = self.schedule.pop(0)
                self.countdown = self.schedule[0][0] if self.schedule else -1
                self.trail.append((frame.f_code.co_name, pick))
                self.pass_on(pick)
            else:
                self.refused += 1
                self.countdown = 1                 # as soon as it is possible
        return self._local

    def _safe(self, frame):
        """Whether only LEGWORK, NumPy, Astropy and the harness are being executed (a library may hold a lock)."""
        if self._hdf5._is_owned():                     # also by a suspended iterator over attributes
            return False
        while frame is not None:
            if not self._ours(frame.f_code.co_filename):
                return False
            if frame.f_code is Scheduler.explore.__code__:
                break
            frame = frame.f_back
        return True

    def _ours(self, name):
        return (name.startswith(self.package) or name.startswith(HERE) or name.endswith(SAFE) or
                "/site-packages/numpy/" in name or "/site-packages/astropy/" in name)

    def pass_on(self, pick):
        me = self.ids[_thread.get_ident()]
        others = [i for i in self.live if i != me]
        if not others:
            return
        nxt = others[(me if pick is None else pick) % len(others)]
        self.switches += 1
        self.holder = nxt
        self.batons[nxt].release()
        self.batons[me].acquire()
