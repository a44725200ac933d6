"""Deterministic scheduler for Python threads.

Exactly one scheduled thread runs at a time. A thread offers to be pre-empted at every bytecode instruction it
executes in the traced source files, and at every lock operation. Locks created through an
instrumented module know about the scheduler, so a thread that would block hands over instead of blocking for real.
A schedule is a list of (step, thread) pre-emptions; everything else runs until it finishes or blocks."""
import os
import sys
import threading

_real_RLock = threading.RLock
_real_Lock = threading.Lock
_current = None         # the active Sched


class Deadlock(BaseException):
    pass


class SchedRLock:
    """A re-entrant lock under the scheduler; a real one otherwise."""
    _reentrant = True

    def __init__(self):
        self._real = _real_RLock() if self._reentrant else _real_Lock()
        self._owner, self._count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        s = _current
        me = s and s.me()
        if not me:
            return self._real.acquire(blocking, timeout)
        s.point(me, "lock")
        while self._owner is not None and not (self._reentrant and self._owner == me):
            if not blocking or timeout >= 0:
                return False
            s.block(me, self)
        self._owner = me
        self._count += 1
        return True

    def release(self):
        s = _current
        me = s and s.me()
        if not me:
            return self._real.release()
        if self._owner != me:
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            s.unblock(self)
        s.point(me, "unlock")

    def locked(self):
        return self._owner is not None or (hasattr(self._real, "locked") and self._real.locked())

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        s = _current
        me = s and s.me()
        return self._owner == me if me else self._real._is_owned()


class SchedLock(SchedRLock):
    _reentrant = False


def install(repo):
    """Before unpythonic is imported: locks created by code under `repo` become scheduler-aware, wherever in it they
    are created. Returns a predicate telling which source files are traced (all of the package)."""
    pkg = os.path.join(repo, "unpythonic") + os.sep

    def factory(real, cls):
        def make():
            return cls() if sys._getframe(1).f_code.co_filename.startswith(pkg) else real()
        return make
    threading.RLock = factory(_real_RLock, SchedRLock)
    threading.Lock = factory(_real_Lock, SchedLock)
    return pkg


class Sched:
    def __init__(self, files, preempt=(), order=None, opcodes=True, max_steps=200000):
        """files: tuple of file name prefixes to trace. preempt: {step: thread} forced switches."""
        self.files = files
        self.preempt = dict(preempt)
        self.order = order
        self.opcodes = opcodes
        self.step = 0
        self.max_steps = max_steps
        self.names = {}
        self.events = {}
        self.state = {}        # name -> "ready" | lock (blocked) | "done"
        self.exc = {}
        self.turn = None
        self.trail = []
        self.free = False      # after a deadlock: let everything go

    def me(self):
        return self.names.get(threading.get_ident())

    # --- called in the running thread
    def point(self, me, why):
        if self.free:
            return
        self.step += 1
        t = self.preempt.get(self.step)
        if t is not None and t != me and self.state.get(t) == "ready":
            self.hand(me, t)

    def hand(self, me, t):
        self.trail.append((self.step, me, t))
        self.turn = t
        self.events[me].clear()
        self.events[t].set()
        if not self.events[me].wait(30):
            self.free = True
            for e in self.events.values():
                e.set()
            raise Deadlock(f"thread {me} was never resumed")

    def ready(self, but=None):
        return [n for n in self.order if self.state[n] == "ready" and n != but]

    def block(self, me, lock):
        self.state[me] = lock
        r = self.ready()
        if not r:
            self.free = True
            for e in self.events.values():
                e.set()
            raise Deadlock("every thread waits for a lock")
        self.hand(me, r[0])
        if self.free and self.state[me] is lock:
            raise Deadlock("every thread waits for a lock")

    def unblock(self, lock):
        for n, s in self.state.items():
            if s is lock:
                self.state[n] = "ready"

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.files):
            return None
        frame.f_trace_lines = not self.opcodes
        frame.f_trace_opcodes = self.opcodes
        return self.local

    def local(self, frame, event, arg):
        if event in ("line", "opcode"):
            me = self.me()
            if me and self.turn == me:
                self.point(me, "op")
        return self.local

    # --- running
    def run(self, thunks):
        global _current
        self.order = self.order or list(thunks)
        threads = {}
        done = threading.Event()

        def body(name, f):
            self.names[threading.get_ident()] = name
            self.events[name].wait()
            sys.settrace(self.trace)
            try:
                f()
            except BaseException as e:
                self.exc[name] = e
            finally:
                sys.settrace(None)
                self.state[name] = "done"
                self.names.pop(threading.get_ident(), None)
                r = self.ready()
                if r:
                    self.turn = r[0]
                    self.events[r[0]].set()
                elif all(s == "done" for s in self.state.values()):
                    done.set()
                else:   # the others wait for a lock this thread still holds
                    self.free = True
                    for e in self.events.values():
                        e.set()
        for name in self.order:
            self.events[name] = threading.Event()
            self.state[name] = "ready"
        # real locks for the events themselves
        for name in self.order:
            threads[name] = threading.Thread(target=body, args=(name, thunks[name]), daemon=True)
        _current = self
        try:
            for t in threads.values():
                t.start()
            first = self.order[0]
            self.turn = first
            self.events[first].set()
            done.wait(60)
            for t in threads.values():
                t.join(5)
        finally:
            _current = None
        return self
