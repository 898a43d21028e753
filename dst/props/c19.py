"""C19: diagnostics, verbosity and plotting are inert."""
import contextlib
import io
import os
import sys

import numpy as np

from .. import gen, kernel, sim, util, world
from ..base import Prop
from ..kernel import Rejected, Violation

DIAG = ["sw_verbose", "sw_plot", "print_stats", "plot_vario", "plot_eps", "plot_eps", "stats", "vpoints"]


class ClosedStream(io.StringIO):
    def __init__(self):
        super().__init__()
        self.close()


@contextlib.contextmanager
def stream(s, stats):
    """The console while one call runs."""
    old = sys.stdout
    if s["how"] == "none":
        sys.stdout = None
    elif s["how"] == "closed":
        sys.stdout = ClosedStream()
    elif s["how"] == "ascii":
        sys.stdout = io.TextIOWrapper(io.BytesIO(), encoding="ascii")
    else:
        sys.stdout = sim.FailingStream(s["at"], s["exc"], stats)
    stats.fault("console:" + s["how"])
    try:
        yield
    finally:
        sys.stdout = old


@contextlib.contextmanager
def plotting(p, stats):
    """A plotting library whose at-th operation fails."""
    import matplotlib.axes
    import matplotlib.figure
    import matplotlib.pyplot as plt

    names = [(plt, n) for n in ("figure", "show", "subplots", "plot", "draw", "gcf", "gca", "savefig")]
    names += [(matplotlib.axes.Axes, n) for n in ("plot", "scatter", "axhline", "set_xlim", "set_ylim", "set_title")]
    names += [(matplotlib.figure.Figure, n) for n in ("add_subplot",)]
    real = [getattr(o, n) for o, n in names]
    box = [0]

    def wrap(f):
        def g(*a, **k):
            box[0] += 1
            if box[0] == p["at"]:
                stats.fault("plotting:" + p["exc"])
                raise kernel.make_exc(p["exc"])
            return f(*a, **k)
        return g

    for (o, n), f in zip(names, real):
        setattr(o, n, wrap(f))
    try:
        yield
    finally:
        for (o, n), f in zip(names, real):
            setattr(o, n, f)


class C19(Prop):
    id = "C19"
    runs = {"quick": 1800, "thorough": 50000}
    deadline = {"quick": 150, "thorough": 1500}
    rule = ("a case is one or two models or wrappers built verbose, plotting or with statistics, and four to ten calls between which verbosity and plotting are switched, statistics printed and variograms and residuals "
            "plotted; consoles that break at a seeded write, are closed, missing or ASCII-only and plotting that fails at a seeded operation strike single calls; queries, fitted parameters and statistics are compared "
            "with the same history without any diagnostics, and without the calls that failed; non-trivial when a diagnostic preceded a judged answer")
    assumptions = ["values are compared to 1e-9 of their scale"]

    def generate(self, rng, tier, i):
        plan = {"models": [], "flags": [], "ops": []}
        for _ in range(rng.choice([1, 1, 2])):
            if rng.random() < 0.2:
                plan["models"].append(world.gen_wrapper(rng))
            else:
                plan["models"].append(gen.gen_model(rng))
            plan["flags"].append({"verbose": rng.random() < 0.6, "enable_plotting": rng.random() < 0.4, "enable_statistics": rng.random() < 0.5})
        v = {m: s.get("v") for m, s in enumerate(plan["models"])}
        for _ in range(rng.randint(4, 10)):
            m = rng.randrange(len(plan["models"]))
            s = plan["models"][m]
            if "kind" in s:
                k = rng.choice(["predict", "predict", "fit"])
                op = {"op": k, "m": m, "at": world.gen_where(rng, s)} if k == "predict" else {"op": k, "m": m, "d": world.gen_data(rng, s)}
            elif rng.random() < 0.45:
                op = {"op": rng.choice(DIAG), "m": m}
            else:
                op = world.gen_op(rng, m, s, v[m], ["query", "query", "query", "update", "bad_update", "bad_query"])
                if op["op"] == "update":
                    v[m] = op["v"]
            r = rng.random()
            if r < 0.25 and op["op"] != "fit":
                op["console"] = rng.choice([{"how": "none"}, {"how": "closed"}, {"how": "ascii"}, {"how": "fails"}, {"how": "fails"}, {"how": "fails"}])
                if op["console"]["how"] == "fails":
                    op["console"].update(at=rng.choice([1, 1, 2, 3, 5, 8, 13]), exc=rng.choice(["OSError", "BrokenPipeError", "ValueError", "KeyboardInterrupt"]))
            elif r < 0.4 and op["op"] != "fit":
                op["plotting"] = {"at": rng.randint(1, 6), "exc": rng.choice(["RuntimeError", "OSError", "MemoryError", "KeyboardInterrupt", "ValueError"])}
            if op["op"] == "update" and ("console" in op or "plotting" in op):
                v[m] = s["v"] if False else op["v"]
            plan["ops"].append(op)
        for m, s in enumerate(plan["models"]):
            if "kind" in s:
                plan["ops"].append({"op": "predict", "m": m, "at": world.gen_where(rng, s)})
            else:
                plan["ops"].append({"op": "query", "m": m, "q": gen.gen_query(rng, s, dict(v[m], model="gstools"))})
                plan["ops"].append({"op": "stats", "m": m})
                plan["ops"].append({"op": "vpoints", "m": m})
        return plan

    def make(self, w, m, s, f):
        if "kind" in s:
            if s["kind"] == "krige":
                from pykrige.compat import Krige
                kw = world.wrapper_kwargs(s)
                kw["verbose"] = f["verbose"]
                if s["cls"] == "ok":
                    kw["enable_statistics"] = f["enable_statistics"]
                w.s[m], w.o[m] = s, Krige(**kw)
            else:
                w.s[m] = s
                kw = world.wrapper_kwargs(s)
                kw["verbose"] = f["verbose"]
                if s["kind"] == "rk":
                    from pykrige.rk import RegressionKriging
                    e = world.regressor(s["est"])
                    w.o[m] = RegressionKriging(**(kw if e is None else dict(kw, regression_model=e)))
                else:
                    from pykrige.ck import ClassificationKriging
                    w.o[m] = ClassificationKriging(classification_model=world.classifier(s["est"]), **kw)
            world.wfit(w.o[m], s, s["data"])
            w.d[m] = s["data"]
            return
        kw = {"verbose": f["verbose"], "enable_plotting": f["enable_plotting"]}
        if s["cls"] == "ok":
            kw["enable_statistics"] = f["enable_statistics"]
        w.s[m], w.v[m] = s, s["v"]
        w.o[m] = gen.build(s, **kw)

    def one(self, w, op, stats=None):
        if op["op"] == "query" and op["q"]["backend"] == "C" and w.v[op["m"]]["model"] not in gen.BUILTIN[:5]:
            op = dict(op, q=dict(op["q"], backend="loop"))
        with contextlib.ExitStack() as st:
            if stats is not None:
                if "console" in op:
                    st.enter_context(stream(op["console"], stats))
                if "plotting" in op:
                    st.enter_context(plotting(op["plotting"], stats))
            return w.run(op)

    def calm(self, plan, skip):
        with util.quiet():
            w = world.World()
            out = []
            for m, s in enumerate(plan["models"]):
                self.make(w, m, s, {"verbose": False, "enable_plotting": False, "enable_statistics": True})
            for k, op in enumerate(plan["ops"]):
                out.append(None if k in skip or (op["op"] in DIAG and op["op"] not in ("stats", "vpoints")) else self.one(w, op))
            return out

    def execute(self, plan, stats):
        import matplotlib.pyplot as plt

        with open(os.devnull, "w") as null, contextlib.redirect_stdout(null), util.quiet():
            w = world.World()
            for m, s in enumerate(plan["models"]):
                try:
                    self.make(w, m, s, plan["flags"][m])
                except Exception as e:
                    raise Rejected("cannot be built: %r" % e)
            got, skip, noisy = [], set(), any(any(f.values()) for f in plan["flags"])
            for k, op in enumerate(plan["ops"]):
                hit = "console" in op or "plotting" in op
                n0 = sum(stats.faults.values())
                ob = self.one(w, op, stats)
                plt.close("all")
                got.append(ob)
                if ob[0] == "raise" and hit:
                    skip.add(k)
                    stats.probe("%s raised" % op["op"])
                elif op["op"] in DIAG:
                    noisy = True
                stats.nontrivial |= int(noisy and op["op"] not in DIAG)
        try:
            want = util.in_child(self.calm, plan, skip)
        except RuntimeError as e:
            raise Rejected("cannot be built silently: " + str(e)[-200:])
        for k, op in enumerate(plan["ops"]):
            a, b = got[k], want[k]
            stats.probe("op:" + op["op"])
            if b is None:
                if k not in skip and a[0] == "raise" and op["op"] in ("sw_verbose", "sw_plot"):
                    raise Violation("switching a diagnostic fails: " + util.short(a), op=op["op"])
                continue
            if op["op"] in ("bad_update", "bad_query") and a[0] == b[0] == "raise":
                continue
            if op["op"] == "stats" and a[0] == "ok" and a[1][0] is None:
                continue
            stats.evals += 1
            stats.event(k, op["op"], util.rounded(a[1]) if a[0] == "ok" else a[1])
            d = util.same_obs(a, b, 1e-9)
            if d:
                raise Violation("answers differ from those of a silent run: " + d, op=op["op"], index=k, flags=plan["flags"],
                                before=[o["op"] + ("!" if "console" in o or "plotting" in o else "") for o in plan["ops"][:k]])


PROP = C19()
