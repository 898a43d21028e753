"""Running operations as simulated tasks."""
import contextlib
import sys

from . import kernel
from .kernel import Kernel


def run_tasks(fns, plan_sched, stats, faults=(), line=True, call=False, instr=False, max_steps=3_000_000):
    """Runs the functions as tasks of one simulated execution; returns the kernel
    (tasks hold results and errors are raised by Kernel.run)."""
    k = Kernel(plan_sched, stats, faults, max_steps)
    for i, f in enumerate(fns):
        k.spawn("t%d" % i, f)
    kernel.arm(line, call, instr)
    try:
        k.run()
    finally:
        kernel.disarm()
        stats.pairs |= k.pairs
        stats.fired += k.fired
    return k


def count(fn, line=True, call=False, instr=False):
    """Number of points, library calls and callbacks that one operation passes."""
    from .stats import Stats

    st = Stats()
    k = Kernel({"mode": "none"}, st)
    t = k.spawn("count", fn)
    k.trace = {}
    kernel.arm(line, call, instr)
    try:
        k.run()
    finally:
        kernel.disarm()
    # the first and last positions and some between, per place in the source
    lines = {}
    for (unit, _), at in k.trace.items():
        lines.setdefault(unit, []).append(at if len(at) <= 12 else at[:4] + at[4:-3:max(1, len(at) // 5)][:5] + at[-3:])
    return {"point": t.steps, "calls": t.calls, "cbs": t.cbs, "lines": lines}


def place(counts, unit, frac):
    """A position for a fault: half the time any position, half the time
    any place in the source and one of the times it was passed."""
    n = counts[unit]
    if not n:
        return 1
    f = frac * 2
    if f < 1:
        return 1 + int(f * n)
    places = counts["lines"][unit]
    g = (f - 1) * len(places)
    at = places[min(int(g), len(places) - 1)]
    return at[min(int((g - int(g)) * len(at)), len(at) - 1)]


class FailingStream:
    """Output stream that breaks at its n-th write."""

    def __init__(self, at, exc, stats):
        self.n = 0
        self.at = at
        self.exc = exc
        self.stats = stats
        self.closed = False
        self.encoding = "utf-8"
        self.fired = False

    def write(self, s):
        self.n += 1
        kernel.io_point("stdout")
        if self.n >= self.at:
            if not self.fired:
                self.stats.fault(self.exc + "@stdout")
            self.fired = True
            raise kernel.make_exc(self.exc)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


@contextlib.contextmanager
def stdout(stream):
    old = sys.stdout
    sys.stdout = stream
    try:
        yield
    finally:
        sys.stdout = old


@contextlib.contextmanager
def linalg_fault(at, exc, stats):
    """The at-th call of scipy.linalg.inv/solve/pinv/pinvh through the module fails
    (the compiled backend calls these where no Python-level seam can reach)."""
    import scipy.linalg as sl

    names = ["inv", "solve", "pinv", "pinvh"]
    real = {n: getattr(sl, n) for n in names}
    box = [0]

    def wrap(f):
        def g(*a, **k):
            i = box[0]
            box[0] += 1
            if i == at:
                stats.fault(exc + "@linalg")
                stats.fired.append({"linalg": at, "exc": exc})
                raise kernel.make_exc(exc)
            return f(*a, **k)
        return g

    for n in names:
        setattr(sl, n, wrap(real[n]))
    try:
        yield
    finally:
        for n in names:
            setattr(sl, n, real[n])
