"""Deterministic thread scheduler.

Simulated threads are real Python threads, but only one of them is ever
runnable: the others are parked on a lock.  A running thread can only be
preempted at *yield points*, which are the line events (or, at the finer
granularity, the bytecode events) that ``sys.settrace`` delivers for code of
the package under test and for the kernels interpreted by ``simnumba``.  At
every yield point a ``Decider`` - a pure function of a seed, or of a recorded
list of switches - says which thread runs next.  One seed is therefore one
exactly repeatable interleaving.
"""
import random
import sys
import threading
import zlib

PKG_MARK = None  # set by the loader: path prefix of the package under test


class SimAbort(BaseException):
    """Raised inside parked threads to unwind them when a run is torn down."""


class Deadlock(Exception):
    """No simulated thread can make progress."""


class SimLock:
    """A lock of the package under test: a simulated thread that finds it taken
    hands over to another simulated thread instead of blocking for real."""

    def __init__(self, real):
        self._real = real

    def acquire(self, blocking=True, timeout=-1):
        sc = _tls.sched
        if sc is None or not blocking:
            return self._real.acquire(blocking, timeout) if blocking else self._real.acquire(False)
        while not self._real.acquire(False):
            if timeout is not None and timeout >= 0:
                return False
            sc.blocked()
        return True

    def release(self):
        self._real.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, k):
        return getattr(self._real, k)


def install_locks():
    """threading.Lock and RLock made by the package become SimLocks."""

    def wrap(real):
        def make(*a, **k):
            lk = real(*a, **k)
            if sys._getframe(1).f_code.co_filename.startswith(PKG_MARK):
                return SimLock(lk)
            return lk

        return make

    threading.Lock = wrap(threading.Lock)
    threading.RLock = wrap(threading.RLock)


def warm_opcode_events():
    """CPython 3.12 delivers bytecode events only to traces set after the first
    frame asked for them: ask once, before any run."""

    def ask():
        sys._getframe().f_trace_opcodes = True

    ask()
    sys.settrace(lambda *a: None)
    sys.settrace(None)


class Decider:
    """Chooses the next thread at each yield point, from a seed."""

    def __init__(self, spec):
        # spec: {"seed": int, "p": float, "mode": "random"|"rr"|"explicit",
        #        "switches": [[step, tid], ...]}
        self.spec = spec
        self.rng = random.Random(spec.get("seed", 0))
        self.p = spec.get("p", 0.2)
        self.mode = spec.get("mode", "random")
        if self.mode == "explicit":
            self.table = {int(s): int(t) for s, t in spec.get("switches", [])}
        self.burst = spec.get("burst", 3)

    def at_yield(self, step, cur, runnable):
        """Return the tid to run next (may be `cur`)."""
        if self.mode == "explicit":
            t = self.table.get(step, cur)
            return t if t in runnable else cur
        if self.mode == "rr":
            if step % self.burst:
                return cur
            i = runnable.index(cur)
            return runnable[(i + 1) % len(runnable)]
        if self.rng.random() < self.p:
            return runnable[self.rng.randrange(len(runnable))]
        return cur

    def at_end(self, step, runnable):
        """The running thread has finished: who goes next?"""
        if self.mode == "explicit":
            t = self.table.get(step)
            return t if t in runnable else runnable[0]
        if self.mode == "rr":
            return runnable[0]
        return runnable[self.rng.randrange(len(runnable))]


class _Task:
    __slots__ = ("tid", "fn", "lock", "done", "result", "exc", "thread")

    def __init__(self, tid, fn):
        self.tid = tid
        self.fn = fn
        self.lock = threading.Lock()
        self.lock.acquire()
        self.done = False
        self.result = None
        self.exc = None
        self.thread = None


class Sched:
    """Runs a set of tasks to completion under one seeded interleaving."""

    def __init__(self, decider, opcodes=False, max_steps=400_000, on_step=None):
        self.decider = decider
        self.opcodes = opcodes
        self.max_steps = max_steps
        self.step = 0
        self.switches = []
        self.sig = 0
        self.tasks = []
        self.cur = None
        self.aborted = False
        self.on_step = on_step
        self.main = threading.Lock()
        self.main.acquire()
        self.overrun = False
        self.waits = 0

    # -- tracing ---------------------------------------------------------
    def _trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not (fn.startswith("<sim") or fn.startswith(PKG_MARK)):
            return None
        if frame.f_code.co_name == "<module>":
            return None  # never preempt while the interpreter holds an import lock
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local

    def _local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self._yield(frame)
        return self._local

    def _yield(self, frame):
        if self.aborted:
            raise SimAbort
        self.step += 1
        if self.step > self.max_steps:
            self.overrun = True
            return
        me = self.cur
        if self.on_step is not None:
            self.on_step(me.tid, frame)
        runnable = [t.tid for t in self.tasks if not t.done]
        if len(runnable) < 2:
            return
        nxt = self.decider.at_yield(self.step, me.tid, runnable)
        if nxt != me.tid:
            self._record(nxt, frame)
            self._handoff(me, self.tasks[nxt])

    def _record(self, nxt, frame):
        self.switches.append((self.step, nxt))
        where = (
            f"{self.cur.tid}>{nxt}@{frame.f_code.co_name}:{frame.f_lineno}"
            if frame is not None
            else f"{self.cur.tid}>{nxt}@end"
        )
        self.sig = zlib.crc32(where.encode(), self.sig)

    def _handoff(self, me, other):
        self.cur = other
        other.lock.release()
        me.lock.acquire()
        if self.aborted:
            raise SimAbort

    def blocked(self):
        """The running thread waits for a lock held by another one."""
        if self.aborted:
            raise SimAbort
        me = self.cur
        others = [t.tid for t in self.tasks if not t.done and t is not me]
        self.step += 1
        self.waits += 1
        if not others or self.waits > 100_000:
            raise Deadlock("every simulated thread waits for a lock")
        nxt = self.decider.at_end(self.step, others)
        self._record(nxt, None)
        self._handoff(me, self.tasks[nxt])

    # -- running ---------------------------------------------------------
    def _body(self, task):
        task.lock.acquire()
        _tls.sched = self
        try:
            if not self.aborted:
                sys.settrace(self._trace)
                try:
                    task.result = task.fn()
                finally:
                    sys.settrace(None)
        except SimAbort:
            pass
        except BaseException as e:  # noqa - reported to the caller
            task.exc = e
        task.done = True
        _tls.sched = None
        runnable = [t.tid for t in self.tasks if not t.done]
        if not runnable:
            self.main.release()
            return
        self.step += 1
        nxt = self.decider.at_end(self.step, runnable)
        self._record(nxt, None)
        self.cur = self.tasks[nxt]
        self.cur.lock.release()

    def run(self, fns):
        self.tasks = [_Task(i, f) for i, f in enumerate(fns)]
        for t in self.tasks:
            t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
            t.thread.start()
        self.step += 1
        first = self.decider.at_end(self.step, [t.tid for t in self.tasks])
        self.switches.append((self.step, first))
        self.cur = self.tasks[first]
        self.cur.lock.release()
        self.main.acquire()
        for t in self.tasks:
            t.thread.join()
        return self.tasks


class _TLS(threading.local):
    sched = None


_tls = _TLS()


def in_simulated_thread():
    return _tls.sched is not None
