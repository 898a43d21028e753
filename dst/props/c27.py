"""C27: a long life accumulates nothing."""
import copy
import ctypes
import gc
import os
import shutil
import sys
import tempfile
import time
import tracemalloc

from .. import boot, gen, hist, sim, util, world
from ..base import Prop
from ..kernel import Rejected, Violation
from .c17 import C17



class Mallinfo(ctypes.Structure):
    _fields_ = [(k, ctypes.c_size_t) for k in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


LIBC = ctypes.CDLL(None)
LIBC.mallinfo2.restype = Mallinfo


class Nowhere:
    """A console that keeps nothing."""
    encoding = "utf-8"

    def write(self, s):
        return len(s)

    def flush(self):
        pass


class C27(Prop):
    id = "C27"
    runs = {"quick": 500, "thorough": 20000}
    deadline = {"quick": 150, "thorough": 1500}
    rule = ("a case is one or two models or wrappers and a round of two to six calls (queries, updates, refused calls, diagnostics, plots, fits, predictions, scores, "
            "objects built and dropped, grid files written and read, a third of them aborted at a seeded point), which is repeated 9 times with the same or other numbers, and up to "
            "600 times where memory grows; the memory in use is measured between the rounds, and attributed to the package's source lines where it grows; non-trivial when a call of the round was aborted or refused")
    assumptions = ["memory is what tracemalloc attributes to allocations made while the package's code was running (numpy arrays included; allocations inside compiled code without the interpreter's allocators are not seen)",
                   "figures are the caller's and are closed after every round",
                   "up to 300 retained entries count as a bounded cache"]

    def generate(self, rng, tier, i):
        plan = {"models": [], "ops": [], "vary": rng.random() < 0.6}
        for _ in range(rng.randint(1, 2)):
            plan["models"].append(world.gen_wrapper(rng) if rng.random() < 0.35 else gen.gen_model(rng))
        for s in plan["models"]:
            if s.get("est") == "default":
                s["est"] = "lin"
        for _ in range(rng.randint(2, 6)):
            op, _ = C17.op(self, rng, plan, False)
            if op["op"] not in ("write", "read") and rng.random() < 0.35:
                op["fault"] = hist.gen_fault(rng)
            plan["ops"].append(op)
        return plan

    do = C17.do

    @staticmethod
    def vary(op, r):
        """The same call with slightly other numbers."""
        f = op.get("fault")
        op = copy.deepcopy(op)
        if f is not None:
            op["fault"] = f
        e = 1e-4 * r
        q = op.get("q")
        if q:
            for k in ("pts", "axes"):
                if k in q:
                    q[k] = [[c + e for c in a] for a in q[k]]
        for d in [op[k] for k in ("at", "d") if k in op]:
            for k in ("x", "p"):
                if k in d:
                    d[k] = [[c + e for c in a] for a in d[k]]
        v = op.get("v") or (op.get("spec") or {}).get("v")
        for k in (v or {}).get("aniso") or {}:
            v["aniso"][k] += 0.01 * r if "angle" in k else e
        if v and v.get("params"):
            for k, p in v["params"].items():
                if k == "list":
                    v["params"][k] = [p[0] * (1 + e)] + list(p[1:])
                elif isinstance(p, dict):
                    v["params"][k] = {n: x * (1 + e) if n in ("psill", "scale", "slope", "sill") else x for n, x in p.items()}
        s = op.get("spec")
        if s and "vals" in s:
            s["vals"][0] += e
        return op

    def round(self, w, plan, stats, n):
        import matplotlib.pyplot as plt

        first = n == 0
        for op in plan["ops"]:
            if plan["vary"]:
                op = self.vary(op, n)
            if op.get("fault"):
                f = op["fault"]
                if f["unit"] == "stdout" and not hasattr(w.o.get(op.get("m")), "switch_verbose"):
                    f["unit"], f["exc"] = "point", "KeyboardInterrupt"
                ob, fired = hist.apply_fault(op, w, lambda o: self.do(w, o), stats)
            else:
                ob, fired = self.do(w, op), False
            if first:
                stats.nontrivial |= int(fired or ob[0] == "raise")
                stats.probe("%s%s" % (op["op"], ":aborted" if fired else ":raised" if ob[0] == "raise" else ""))
                stats.event(op["op"], ob[0], ob[1] if ob[0] == "raise" else None)
            del ob
        plt.close("all")
        w.bufs.clear()
        if first:
            self.lens = len(stats.fired), len(stats.schedules)
        del stats.fired[self.lens[0]:], stats.schedules[self.lens[1]:]

    @staticmethod
    def held():
        """Bytes held that were allocated while the package's code ran, per source line of the package."""
        # the interpreter's own caches are not the package's
        sys._clear_type_cache()
        gc.collect()
        out = {}
        for tr in tracemalloc.take_snapshot().traces:
            for fr in reversed(tr.traceback):
                fn = fr.filename
                if fn.startswith(boot.SRC):
                    k = (os.path.basename(fn), fr.lineno)
                    out[k] = out.get(k, 0) + tr.size
                    break
                if fn.startswith(boot.VERIF) and not fn.endswith("/gen.py"):
                    break
        return out

    @staticmethod
    def blocks():
        """Interpreter blocks and C heap bytes in use, whoever allocated them."""
        sys._clear_type_cache()
        gc.collect()
        m = LIBC.mallinfo2()
        return sys.getallocatedblocks(), m.uordblks + m.hblkhd

    def execute(self, plan, stats):
        root = tempfile.mkdtemp(prefix="dst-c27-")
        try:
            with sim.stdout(Nowhere()):
                self.inside(plan, stats, root)
        finally:
            if tracemalloc.is_tracing():
                tracemalloc.stop()
            shutil.rmtree(root, ignore_errors=True)

    def inside(self, plan, stats, root):
        self.stats = stats
        w = world.World(root)
        for i, text in enumerate(["NCOLS 2\nNROWS 2\nXLLCENTER 0\nYLLCENTER 0\nCELLSIZE 1\nNODATA_VALUE -1\n1 2\n3 4\n", "NCOLS x\n", "!\n@f, GRID, 4\n15, -1, , 1, 1\n"]):
            with open(os.path.join(root, "r%d" % i), "w") as f:
                f.write(text)
        for k, s in enumerate(plan["models"]):
            try:
                w.make(k, s)
            except Exception as e:
                raise Rejected("cannot be built: %r" % e)
        n, coarse = 0, []
        for mark in (3, 6, 9):
            while n < mark:
                self.round(w, plan, stats, n)
                n += 1
            coarse.append(self.blocks())
        # (every measurement itself holds three blocks)
        stats.evals += 1
        if not any(coarse[1][k] - coarse[0][k] >= least and coarse[2][k] - coarse[1][k] >= least for k, least in ((0, 6), (1, 2000))):
            return
        # something grows: is it the package's?
        stats.probe("growth followed up")
        tracemalloc.start(12)
        sizes = []
        for mark in (12, 16, 24):
            while n < mark:
                self.round(w, plan, stats, n)
                n += 1
            sizes.append(self.held())
        tracemalloc.stop()
        g = [sum(b.values()) - sum(a.values()) for a, b in zip(sizes, sizes[1:])]
        if g[0] < 4 * 4 or g[1] < 4 * 8:
            return
        a, b = sizes[-2], sizes[-1]
        where = sorted(((v - a.get(k, 0), k) for k, v in b.items() if v > a.get(k, 0)), key=lambda t: (-t[0], t[1]))[:4]
        # or a cache that will be full some time?
        stats.probe("growth of the package's memory followed up")
        coarse, t0 = [], time.monotonic()
        for mark in (40, 150, 300, 600):
            while n < mark:
                self.round(w, plan, stats, n)
                n += 1
                if time.monotonic() - t0 > 70:
                    stats.probe("growth not followed up to the end")
                    return
            coarse.append(self.blocks())
        d = [(b[0] - a[0], b[1] - a[1]) for a, b in zip(coarse, coarse[1:])]
        if any(all(x[k] >= per * m for x, m in zip(d, (110, 150, 300))) for k, per in ((0, 0.5), (1, 4))):
            stats.record = {"ops": plan["ops"]}
            raise Violation("memory held by the package grows with every repetition of the calls", allocated_at=["%s:%d" % k for _, k in where],
                            calls=[o["op"] for o in plan["ops"]], other_numbers_each_time=plan["vary"])


PROP = C27()
