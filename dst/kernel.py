"""The simulator kernel.

Tasks are real threads of which exactly one runs at any time: each is parked
on its own semaphore and released by the kernel.  Control returns to the
kernel at *points*: every source line (optionally every bytecode instruction)
of the code under test, every call it makes into another library, every user
callback, and every simulated I/O, lock, sleep or clock operation.  At a point
the kernel may switch to another task or make a fault surface.  All decisions
come from one seeded generator and are recorded, or are read back from a
recorded schedule.
"""
import hashlib
import random
import sys
import threading

from . import boot

TOOL = 3
_get_ident = threading.get_ident


class SimKill(BaseException):
    """The simulated process (or worker) died here."""


class SimAbort(BaseException):
    """Internal: unwinds the tasks of a run that has already been decided."""


class Violation(Exception):
    def __init__(self, message, **detail):
        super().__init__(message)
        self.message = message
        self.detail = detail


class Rejected(Exception):
    """The generated case is outside the domain of the property (counted, not judged)."""


def make_exc(name):
    import numpy as np

    table = {
        "MemoryError": lambda: MemoryError("simulated: out of memory"),
        "KeyboardInterrupt": lambda: KeyboardInterrupt("simulated"),
        "SystemExit": lambda: SystemExit("simulated"),
        "RuntimeError": lambda: RuntimeError("simulated"),
        "ValueError": lambda: ValueError("simulated"),
        "FloatingPointError": lambda: FloatingPointError("simulated"),
        "LinAlgError": lambda: np.linalg.LinAlgError("simulated: no convergence"),
        "OSError": lambda: OSError(5, "simulated I/O error"),
        "BrokenPipeError": lambda: BrokenPipeError(32, "simulated broken pipe"),
        "RecursionError": lambda: RecursionError("simulated"),
        "ZeroDivisionError": lambda: ZeroDivisionError("simulated"),
        "ImportError": lambda: ImportError("simulated"),
        "SimKill": lambda: SimKill("simulated crash"),
    }
    return table[name]()


class Task:
    def __init__(self, tid, name, fn):
        self.id, self.name, self.fn = tid, name, fn
        self.sem = threading.Semaphore(0)
        self.steps = 0          # points passed
        self.calls = 0          # library call boundaries passed
        self.cbs = 0            # user callbacks passed
        self.done = False
        self.blocked = None
        self.result = None
        self.error = None
        self.thread = None
        self.nofault = 0        # >0: no fault may surface here


class Kernel:
    """One simulated execution."""

    def __init__(self, sched, stats, faults=(), max_steps=3_000_000):
        self.sched = sched or {"mode": "none"}
        self.stats = stats
        self.tasks = []
        self.by_ident = {}
        self.current = None
        self.step = 0
        self.max_steps = max_steps
        self.record = []
        self.aborting = None
        self.done_sem = threading.Semaphore(0)
        self.mode = self.sched.get("mode", "none")
        self.h = hashlib.blake2b(digest_size=12)
        self.rng = random.Random(self.sched.get("seed", 0))
        self.p = self.sched.get("p", 0.0)
        if self.mode == "explicit":
            self.table = {(t, s): n for t, s, n in self.sched["switches"]}
        elif self.mode == "pct":
            self.change = set(self.sched["change"])
        elif self.mode == "at":
            self.change = {tuple(c) for c in self.sched["places"]}
        self.faults = {}
        for f in faults:
            self.faults[(f["task"], f["unit"], f["at"])] = f
        self.unit_hooks = {u for _, u, _ in self.faults}
        self.fired = []
        self.where = {}
        self.trace = None       # (unit, where) -> positions, when counting
        self.pairs = set()

    # -- tasks -----------------------------------------------------------
    def spawn(self, name, fn):
        t = Task(len(self.tasks), name, fn)
        self.tasks.append(t)
        return t

    def _main(self, t):
        t.sem.acquire()
        self.by_ident[_get_ident()] = t
        try:
            if self.aborting is None:
                t.result = t.fn()
        except SimAbort:
            pass
        except BaseException as e:  # noqa
            t.error = e
        t.done = True
        self.by_ident.pop(_get_ident(), None)
        self._next_after(t)

    def run(self):
        global ACTIVE
        if not self.tasks:
            return
        old = threading.stack_size(16 * 1024 * 1024)
        for t in self.tasks:
            t.thread = threading.Thread(target=self._main, args=(t,), daemon=True)
            t.thread.start()
        threading.stack_size(old)
        ACTIVE = self
        try:
            first = self._choose_start()
            self.current = first
            first.sem.release()
            self.done_sem.acquire()
        finally:
            ACTIVE = None
        for t in self.tasks:
            t.thread.join()
        self.stats.steps += self.step
        self.stats.switches += len(self.record)
        self.stats.note_schedule(self.h.hexdigest())
        if isinstance(self.aborting, Violation):
            raise self.aborting
        for t in self.tasks:
            if isinstance(t.error, Violation):
                raise t.error
        for t in self.tasks:
            if t.error is not None:
                raise t.error

    def _ready(self):
        return [t for t in self.tasks if not t.done and (t.blocked is None or t.blocked())]

    def _choose_start(self):
        if self.mode in ("none",):
            return self.tasks[0]
        if self.mode == "explicit":
            n = self.table.get((-1, 0), 0)
        else:
            n = self.rng.randrange(len(self.tasks))
        self.record.append([-1, 0, n])
        return self.tasks[n]

    def _pick(self, t, ready, at_end):
        """Next task after task t ended or blocked."""
        key = (t.id, "end" if at_end else t.steps)
        if self.mode == "explicit":
            n = self.table.get(key)
            nxt = next((r for r in ready if r.id == n), ready[0])
        elif self.mode == "none":
            nxt = ready[0]
        else:
            nxt = ready[self.rng.randrange(len(ready))]
        self.record.append([key[0], key[1], nxt.id])
        return nxt

    def _next_after(self, t):
        ready = self._ready()
        if not ready:
            left = [x for x in self.tasks if not x.done]
            if left:
                self.abort(Violation("no progress: all remaining tasks are blocked", tasks=[x.name for x in left]))
                for x in left:
                    x.blocked = None
                nxt = left[0]
                self.current = nxt
                nxt.sem.release()
                return
            self.done_sem.release()
            return
        nxt = self._pick(t, ready, True)
        self._log("E%d>%d" % (t.id, nxt.id))
        self.current = nxt
        nxt.sem.release()

    def abort(self, why):
        if self.aborting is None:
            self.aborting = why

    def _log(self, s):
        self.h.update(s.encode())

    # -- points ----------------------------------------------------------
    def point(self, kind, where, unit=None):
        t = self.by_ident.get(_get_ident())
        if t is None:
            return
        self.pass_point(t, kind, where, unit)

    def pass_point(self, t, kind, where, unit=None):
        self.step += 1
        t.steps += 1
        if self.aborting is not None:
            raise SimAbort()
        if self.step > self.max_steps:
            self.abort(Violation("no progress: step limit exceeded", steps=self.step))
            raise SimAbort()
        if self.trace is not None:
            self.trace.setdefault(("point", where), []).append(t.steps)
            if unit is not None:
                self.trace.setdefault((unit, where), []).append(getattr(t, unit))
        mode = self.mode
        if mode != "none":
            nxt = None
            if mode == "rand":
                if len(self.tasks) > 1 and self.rng.random() < self.p:
                    ready = [r for r in self._ready() if r is not t]
                    if ready:
                        nxt = ready[self.rng.randrange(len(ready))]
            elif mode == "explicit":
                n = self.table.get((t.id, t.steps))
                if n is not None and n != t.id and not self.tasks[n].done:
                    if self.tasks[n].blocked is None or self.tasks[n].blocked():
                        nxt = self.tasks[n]
            elif mode == "pct" or mode == "at":
                if (self.step if mode == "pct" else (t.id, t.steps)) in self.change:
                    ready = [r for r in self._ready() if r is not t]
                    if ready:
                        nxt = ready[self.rng.randrange(len(ready))]
            if nxt is not None:
                self.record.append([t.id, t.steps, nxt.id])
                self._log("%d@%s>%d" % (t.id, where, nxt.id))
                self.pairs.add((where, nxt.id))
                self._switch(t, nxt)
        if self.faults and not t.nofault:
            f = self.faults.get((t.id, "point", t.steps))
            if f is None and unit is not None:
                f = self.faults.get((t.id, unit, getattr(t, unit)))
            if f is not None and not f.get("_done"):
                f["_done"] = True
                self.fired.append({"task": t.id, "exc": f["exc"], "where": where, "kind": kind})
                self.stats.fault(f["exc"] + "@" + kind)
                self._log("F%d@%s" % (t.id, where))
                raise make_exc(f["exc"])

    def _switch(self, t, nxt):
        self.current = nxt
        nxt.sem.release()
        t.sem.acquire()
        if self.aborting is not None:
            raise SimAbort()

    def block_until(self, cond):
        """Cooperative wait of the running task."""
        t = self.by_ident.get(_get_ident())
        if t is None:
            return False
        while not cond():
            t.blocked = cond
            ready = [r for r in self._ready() if r is not t]
            if not ready:
                t.blocked = None
                self.abort(Violation("no progress: deadlock", tasks=[x.name for x in self.tasks if not x.done]))
                raise SimAbort()
            nxt = self._pick(t, ready, False)
            self._switch(t, nxt)
        t.blocked = None
        return True


ACTIVE = None


def current_task():
    k = ACTIVE
    return None if k is None else k.by_ident.get(_get_ident())


# -- seams into the code under test ------------------------------------------
_mon = sys.monitoring
_where_cache = {}


def _where(code, n):
    key = (code, n)
    w = _where_cache.get(key)
    if w is None:
        w = _where_cache[key] = "%s:%s:%d" % (code.co_filename.rsplit("/", 1)[-1], code.co_qualname, n)
    return w


def _on_line(code, line):
    k = ACTIVE
    if k is None:
        return
    t = k.by_ident.get(_get_ident())
    if t is None:
        return
    k.pass_point(t, "line", _where(code, line))


def _on_instr(code, offset):
    k = ACTIVE
    if k is None:
        return
    t = k.by_ident.get(_get_ident())
    if t is None:
        return
    k.pass_point(t, "instr", _where(code, offset))


LIB_ROOTS = ("numpy", "scipy", "matplotlib", "gstools", "sklearn")


def callee_root(fn):
    m = getattr(fn, "__module__", None)
    if m is None:
        m = type(fn).__module__
        if m == "builtins":
            s = getattr(fn, "__self__", None)
            if s is not None:
                m = type(s).__module__
    if not isinstance(m, str):
        return ""
    return m.split(".", 1)[0]


def _on_call(code, offset, fn, arg0):
    k = ACTIVE
    if k is None:
        return
    t = k.by_ident.get(_get_ident())
    if t is None:
        return
    r = callee_root(fn)
    if r in LIB_ROOTS or fn is print:
        t.calls += 1
        k.pass_point(t, "call", "%s->%s" % (_where(code, offset), getattr(fn, "__name__", type(fn).__name__)), "calls")


_inited = False


def arm(line=True, call=False, instr=False):
    """Turns on the seams in the code under test (in this process)."""
    global _inited
    E = _mon.events
    if not _inited:
        _mon.use_tool_id(TOOL, "dst")
        _mon.register_callback(TOOL, E.LINE, _on_line)
        _mon.register_callback(TOOL, E.CALL, _on_call)
        _mon.register_callback(TOOL, E.INSTRUCTION, _on_instr)
        _inited = True
    ev = (E.LINE if line else 0) | (E.CALL if call else 0) | (E.INSTRUCTION if instr else 0)
    for c in boot.CODES:
        _mon.set_local_events(TOOL, c, ev)


def disarm():
    if _inited:
        for c in boot.CODES:
            _mon.set_local_events(TOOL, c, 0)


def callback_point(name):
    """Called by user callbacks (variogram and drift functions, estimators)."""
    k = ACTIVE
    if k is None:
        return
    t = k.by_ident.get(_get_ident())
    if t is None:
        return
    t.cbs += 1
    k.pass_point(t, "callback", "callback:" + name, "cbs")


def io_point(name):
    k = ACTIVE
    if k is None:
        return
    t = k.by_ident.get(_get_ident())
    if t is None:
        return
    k.pass_point(t, "io", "io:" + name)


class CoopLock:
    """Stands in for threading.Lock/RLock in simulated tasks, so that a lock in
    the code under test blocks a task, not the simulation."""

    def __init__(self, reentrant=False):
        self._owner = None
        self._count = 0
        self._re = reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = _get_ident()
        if self._re and self._owner == me:
            self._count += 1
            return True
        io_point("lock")
        if self._owner is not None:
            if not blocking:
                return False
            k = ACTIVE
            if k is None or not k.block_until(lambda: self._owner is None):
                raise RuntimeError("lock held outside of the simulation")
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()
