"""Caller threads under a seeded scheduler.

Real Python threads, of which exactly one runs at any time.  A thread is parked at every executed line (or bytecode) of library code and at
every memory access native code makes while it has released the GIL; a seeded PRNG, or a recorded list of switches, decides who runs next.
"""
import _thread
import ctypes
import os
import random
import sys
import threading

from .core import REPO

ROOT = os.path.join(REPO, "skbeam") + os.sep
TESTS = os.sep + "tests" + os.sep
_real_lock = threading.Lock
_real_rlock = threading.RLock
current = None  # the running scheduler


class Stuck(Exception):
    """Every unfinished caller waits for a lock."""


class StepLimit(Exception):
    pass


class _Abort(BaseException):
    """Unwinds the remaining threads of an aborted run."""


class SimLock:
    """threading.Lock / RLock for library code."""

    def __init__(self, reentrant=False):
        self.owner = None
        self.depth = 0
        self.reentrant = reentrant

    def _me(self):
        s = current
        return s.cur if s is not None and s.is_mine() else "main"

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        s = current
        if s is not None and me != "main":
            s.point()
        while True:
            if self.owner is None or (self.reentrant and self.owner == me):
                self.owner = me
                self.depth += 1
                return True
            if not blocking or timeout == 0:
                return False
            if s is None or me == "main":
                raise Stuck("lock still held after the run that took it")
            if timeout is not None and timeout > 0 and s.only_me():
                return False
            s.block(self)

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
        s = current
        if s is not None and s.is_mine():
            s.unblock(self)
            s.point()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # Condition support
    def _is_owned(self):
        return self.owner == self._me()


def install():
    """Locks created by library code are simulated ones (call before importing the library)."""

    def from_lib():
        f = sys._getframe(2)
        fn = f.f_code.co_filename
        # scipy holds some of its locks while it calls back into library code
        return fn.startswith(ROOT) or "/scipy/optimize/" in fn or "/scipy/integrate/" in fn

    def lock(*a):
        return SimLock() if from_lib() else _real_lock(*a)

    def rlock(*a):
        return SimLock(True) if from_lib() else _real_rlock(*a)

    threading.Lock, threading.RLock = lock, rlock

    # The interpreter instruments bytecodes only from the first time anybody asks for bytecode events: ask now, so that every run sees the same events.
    def tr(frame, event, arg):
        frame.f_trace_opcodes = True
        return tr

    def warm():
        return [i for i in range(3)]

    for _ in range(2):
        sys.settrace(tr)
        warm()
        sys.settrace(None)


class Sched:
    """sched: {"mode": "rand", "seed": s, "p": percent, "op": bool} or {"mode": "replay", "switches": [[step, tid]...], "op": bool}"""

    def __init__(self, spec, max_steps=400000):
        self.op = bool(spec.get("op"))
        self.replay = spec["mode"] == "replay"
        self.rng = random.Random(spec.get("seed", 0))
        self.p = spec.get("p", 20) / 100.0
        self.sw = {int(a): int(b) for a, b in spec.get("switches", [])}
        self.max_steps = max_steps
        self.steps = 0
        self.switches = 0
        self.rec = []
        self.cur = None
        self.error = None
        self.aborting = False
        self.armed = {}

    # ------------------------------------------------ injected asynchronous exceptions
    def arm(self, k, exc):
        """The running caller is interrupted by exc at its k-th line of library code from now."""
        self.armed[self.cur] = [k, exc]

    def disarm(self):
        """-> True if the interrupt was delivered.  Tracing has to be switched on again after an exception left the trace function."""
        a = self.armed.pop(self.cur, None)
        sys.settrace(self._trace)
        return a is not None and a[0] <= 0

    # ------------------------------------------------ called from the running thread
    def is_mine(self):
        return _thread.get_ident() == self.idents.get(self.cur)

    def only_me(self):
        return not any(i != self.cur and not self.done[i] and self.waiting[i] is None for i in range(self.n))

    def runnable(self):
        return [i for i in range(self.n) if not self.done[i] and self.waiting[i] is None]

    def _pick(self, forced):
        r = self.runnable()
        if not r:
            return None
        if self.replay:
            t = self.sw.get(self.steps)
            if t in r:
                return t
            return self.cur if not forced else r[0]
        if forced or self.rng.random() < self.p:
            return r[self.rng.randrange(len(r))]
        return self.cur

    def point(self, opcode=False):
        """At a bytecode nothing is raised: the interpreter does not survive it."""
        if self.aborting:
            if opcode:
                return
            raise _Abort
        self.steps += 1
        if self.steps > self.max_steps * (10 if self.op else 1) and not opcode:
            self.fail(StepLimit("no progress within %d steps" % self.steps))
        t = self._pick(False)
        if t != self.cur:
            self._switch(t, opcode)

    def _switch(self, t, opcode=False):
        me = self.cur
        self.rec.append([self.steps, t])
        self.switches += 1
        self.cur = t
        self.sem[t].release()
        if not self.done[me]:
            self.sem[me].acquire()
            if self.aborting and not opcode:
                raise _Abort

    def block(self, what):
        self.waiting[self.cur] = what
        self.steps += 1
        t = self._pick(True)
        if t is None:
            self.fail(Stuck("every unfinished caller waits for a lock"))
        if t != self.cur:
            self._switch(t)

    def unblock(self, what):
        for i in range(self.n):
            if self.waiting[i] is what:
                self.waiting[i] = None

    def fail(self, exc):
        self.error = self.error or exc
        self.aborting = True
        raise _Abort

    # ------------------------------------------------ tracing
    def _trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if fn.startswith(ROOT) and TESTS not in fn and frame.f_code.co_name != "<module>":
            if self.op and self.cur not in self.armed:  # interrupts are delivered between lines: the interpreter does not survive them elsewhere
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "opcode":
            self.point(True)
            if self.aborting or self.steps > self.max_steps * 5:  # on from here line by line
                frame.f_trace_opcodes = False
                frame.f_trace_lines = True
        elif event == "line":
            self.point()
            a = self.armed.get(self.cur)
            if a is not None and event == "line":
                a[0] -= 1
                if a[0] == 0:
                    raise a[1]
        return self._local

    # ------------------------------------------------ running
    def _body(self, i, fn):
        self.idents[i] = _thread.get_ident()
        self.sem[i].acquire()
        try:
            if not self.aborting:
                sys.settrace(self._trace)
                try:
                    fn()
                finally:
                    sys.settrace(None)
        except _Abort:
            pass
        except BaseException as e:  # harness bug: callers catch library exceptions themselves
            self.error = self.error or e
            self.aborting = True
        self.done[i] = True
        self.steps += 1
        if self.aborting:
            for s in self.sem:
                s.release()
        elif not all(self.done):
            t = self._pick(True)
            if t is None:
                self.error = self.error or Stuck("every unfinished caller waits for a lock")
                self.aborting = True
                for s in self.sem:
                    s.release()
            else:
                self._switch(t)
        with self.fin:
            self.fin.notify()

    def run(self, fns):
        """Run the callers to completion; raises Stuck / StepLimit."""
        global current
        self.n = len(fns)
        self.done = [False] * self.n
        self.waiting = [None] * self.n
        self.idents = {}
        self.sem = [threading.Semaphore(0) for _ in fns]
        self.fin = threading.Condition(_real_lock())
        ths = [threading.Thread(target=self._body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        current = self
        try:
            for t in ths:
                t.start()
            self.cur = 0
            first = self._pick(True)
            self.rec.append([0, first])
            self.cur = first
            self.sem[first].release()
            for t in ths:
                t.join(300)
                if t.is_alive():
                    raise RuntimeError("harness: a caller thread does not end")
        finally:
            current = None
        if self.error:
            raise self.error
        return self

    def recorded(self):
        return {"mode": "replay", "switches": self.rec, "op": self.op}


def gen_sched(rng):
    return {"mode": "rand", "seed": rng.getrandbits(32), "p": rng.choice([2, 5, 10, 25, 50, 80]), "op": rng.random() < 0.25}


_hook = None


def native_hook(lib):
    """Scheduling points inside native code that runs without the GIL."""
    global _hook

    def hook():
        s = current
        if s is not None and s.is_mine() and not s.aborting:
            try:
                s.point()
            except _Abort:
                pass

    _hook = ctypes.CFUNCTYPE(None)(hook)
    lib.simgil_hook(_hook)
