"""Running threads one step at a time, in an order given beforehand.

Import this before the library: it replaces the locks of `threading` by ones
that hand over to another thread instead of waiting.  Only one of the threads
runs at any time.  A thread can be made to stop before every line (or every
bytecode instruction) of the library and of `weakref`.
"""
from __future__ import annotations

import _thread
import importlib.util
import os
import sys
import threading
import weakref

_raw = _thread.allocate_lock
_get_ident = _thread.get_ident
CURRENT = None      # the schedule being run
ROOT = os.path.dirname(importlib.util.find_spec("protosym").origin) + os.sep
SCOPE = {}


class Deadlock(Exception):
    pass


class CoopLock:
    """A lock of threads that run one at a time."""

    reentrant = False

    def __init__(self):
        self._inner = _raw()
        self._owner, self._count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _get_ident()
        if self.reentrant and self._owner == me:
            self._count += 1
            return True
        s = CURRENT
        if s is not None and me in s.index:
            while not self._inner.acquire(False):
                if not blocking:
                    return False
                s.blocked()
            s.progress = 0
        elif not self._inner.acquire(blocking, timeout):
            return False
        self._owner, self._count = me, 1
        return True

    def release(self):
        if self._count == 0 or (self.reentrant and self._owner != _get_ident()):
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._inner.release()

    def locked(self):
        return self._count > 0

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        return self._owner == _get_ident()

    def _at_fork_reinit(self):
        self._inner = _raw()
        self._owner, self._count = None, 0


class CoopRLock(CoopLock):
    reentrant = True

    def _release_save(self):
        state = self._owner, self._count
        self._owner, self._count = None, 0
        self._inner.release()
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self._owner, self._count = state


def install():
    threading.Lock = CoopLock
    threading.RLock = CoopRLock
    _thread.allocate_lock = CoopLock
    _thread.RLock = CoopRLock


def in_scope(filename):
    got = SCOPE.get(filename)
    if got is None:
        got = SCOPE[filename] = filename.startswith(ROOT) or filename == weakref.__file__
    return got


class Schedule:
    """One execution.  `plan` is a list of [thread, steps]."""

    def __init__(self, bodies, plan, opcodes=False):
        self.bodies, self.plan, self.opcodes = bodies, list(plan), opcodes
        n = len(bodies)
        self.counts = [0] * n
        self.locks = [_raw() for _ in range(n)]
        for k in self.locks:
            k.acquire()
        self.main = _raw()
        self.main.acquire()
        self.done = [False] * n
        self.index = {}
        self.progress = 0
        self.left = 0
        self.me = None

    # -- the order

    def next_entry(self):
        while self.plan:
            t, n = self.plan.pop(0)
            if not self.done[t] and n != 0:
                self.left = n if n > 0 else float("inf")
                return t
        self.left = float("inf")
        return None

    def go(self, to):
        me = self.me
        if to == me:
            return
        self.me = to
        self.locks[to].release()
        self.locks[me].acquire()

    def point(self):
        self.counts[self.me] += 1
        self.left -= 1
        self.progress = 0
        if self.left <= 0:
            t = self.next_entry()
            if t is None:       # go on with another one
                others = [i for i in range(len(self.done)) if not self.done[i]]
                t = others[(others.index(self.me) + 1) % len(others)]
            self.go(t)

    def blocked(self):
        self.progress += 1
        others = [i for i in range(len(self.done)) if not self.done[i] and i != self.me]
        if not others or self.progress > 3 * len(others) + 3:
            raise Deadlock
        later = [i for i in others if i > self.me] or others
        self.go(later[0])

    # -- threads

    def trace(self, frame, event, arg):
        if not in_scope(frame.f_code.co_filename):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            return self.trace_op
        return self.trace_line

    def trace_op(self, frame, event, arg):
        if event == "opcode":
            self.point()
        return self.trace_op

    def trace_line(self, frame, event, arg):
        if event == "line":
            self.point()
        return self.trace_line

    def stepped(self, f):
        """Call the library with stops."""
        sys.settrace(self.trace)
        try:
            return f()
        finally:
            sys.settrace(None)

    def body(self, i):
        self.locks[i].acquire()
        try:
            self.bodies[i](self)
        finally:
            self.done[i] = True
            rest = [k for k in range(len(self.done)) if not self.done[k]]
            if not rest:
                self.main.release()
            else:
                t = self.next_entry()
                self.me = t if t is not None else rest[0]
                self.locks[self.me].release()

    def run(self, timeout=20):
        """False when the threads did not finish."""
        global CURRENT
        CURRENT = self
        try:
            for i in range(len(self.bodies)):
                started = _raw()
                started.acquire()

                def start(i=i, started=started):
                    self.index[_get_ident()] = i
                    started.release()
                    self.body(i)

                _thread.start_new_thread(start, ())
                started.acquire()
            t = self.next_entry()
            self.me = t if t is not None else 0
            self.locks[self.me].release()
            return self.main.acquire(True, timeout)
        finally:
            CURRENT = None
