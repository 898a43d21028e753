"""C03: variogram updates are all-or-nothing."""
import contextlib

from .. import gen, hist, kernel, sim, util, world
from ..base import Prop
from ..kernel import Rejected, Violation

UNITS = ["calls", "calls", "calls", "cbs", "stdout", "plot", "point", "point"]
EXC = dict(hist.SYNC_EXC, point=["KeyboardInterrupt", "MemoryError", "SystemExit"], calls=["LinAlgError", "MemoryError", "ValueError", "RuntimeError", "KeyboardInterrupt"],
           plot=["RuntimeError", "ImportError", "OSError"])


@contextlib.contextmanager
def plot_fault(where, exc, stats):
    """The plotting backend fails."""
    import matplotlib.pyplot as plt

    real = getattr(plt, where)

    def fail(*a, **k):
        stats.fault(exc + "@plt." + where)
        stats.fired.append({"plot": where, "exc": exc})
        raise kernel.make_exc(exc)

    setattr(plt, where, fail)
    try:
        yield
    finally:
        setattr(plt, where, real)
        plt.close("all")


class C03(Prop):
    id = "C03"
    runs = {"quick": 1200, "thorough": 40000}
    deadline = {"quick": 150, "thorough": 1500}
    clean = True
    rule = ("a case is a model, up to three earlier calls, one to three attempts to change its variogram (refused arguments of twelve kinds, or valid ones with a "
            "fault injected at a seeded source line, library call, user function call, output or plotting call, or none) and two to four probes compared with "
            "freshly built models; non-trivial when an attempt failed")
    assumptions = ["an interrupt that strikes between two source lines may surface before or after the change took effect: both are accepted, a mixture is not",
                   "values are compared to 1e-7 of their scale"]

    def generate(self, rng, tier, i):
        m = gen.gen_model(rng)
        plan = {"models": [m]}
        plan["ops"] = hist.gen_history(rng, plan, rng.randint(0, 2), ["query", "update", "stats", "sw_verbose"], 0.1)
        att = []
        v = hist.cur_v(plan, plan["ops"], 0)
        for _ in range(rng.randint(1, 3)):
            r = rng.random()
            if r < 0.35:
                att.append(world.gen_op(rng, 0, m, m["v"], ["bad_update"]))
            else:
                op = {"op": "update", "m": 0, "v": gen.next_vario(rng, m, v, 0.7)}
                v = op["v"]
                if r < 0.9:
                    u = rng.choice(UNITS)
                    op["fault"] = {"unit": u, "frac": rng.random(), "exc": rng.choice(EXC[u])}
                    if u == "plot":
                        op["fault"]["where"] = rng.choice(["figure", "show"])
                att.append(op)
        plan["attempts"] = att
        plan["plot"] = rng.random() < 0.1
        plan["verbose"] = rng.random() < 0.15
        qs = []
        for _ in range(rng.randint(1, 3)):
            q = gen.gen_query(rng, m, backend="vectorized" if rng.random() < 0.6 else "loop", window=None)
            if q.get("w") is not None:
                q["backend"] = "loop"
            qs.append({"op": "query", "m": 0, "q": q})
        plan["probes"] = qs + [{"op": "stats", "m": 0}, {"op": "vpoints", "m": 0}]
        return plan

    def shrink_lists(self, plan):
        return [("ops",), ("attempts",), ("probes",)]

    def judge(self, r, plan, stats, cands, what):
        """The probes must agree with one of the candidate settings, as a whole."""
        jobs = [(sp, p) for sp in cands for p in plan["probes"]]
        got = [r.w.run(p) for p in plan["probes"]]
        want = hist.clean_answers(stats.clean, jobs)
        n = len(plan["probes"])
        first = None
        for c in range(len(cands)):
            diff = None
            for p, a, b in zip(plan["probes"], got, want[c * n:(c + 1) * n]):
                if b[0] == "unbuildable":
                    diff = "settings cannot be built: " + b[1]
                    break
                if p["op"] == "stats" and hist.no_stats(a):
                    continue
                stats.evals += 1
                d = util.same_obs(a, b)
                if d:
                    diff = "%s: %s" % (p["op"], d)
                    break
            if diff is None:
                stats.event(what, c)
                return c
            first = first or diff
        raise Violation(what + ": " + first, candidates=len(cands), faults=stats.fired)

    def execute(self, plan, stats):
        try:
            r = hist.Runner(plan, stats)
        except Exception as e:
            raise Rejected("world cannot be built: %r" % e)
        for op in plan["ops"]:
            r.step(op)
        if r.unsure:
            raise Rejected("earlier update was interrupted")
        if plan["plot"]:
            r.w.o[0].switch_plotting()
        if plan["verbose"]:
            r.w.o[0].switch_verbose()
        for op in plan["attempts"]:
            old = r.specs[0]
            new = dict(old, v=op["v"]) if op["op"] == "update" else None
            f = op.get("fault")
            n0 = len(stats.fired)
            if f and f["unit"] == "plot":
                o = r.w.o[0]
                on = o.enable_plotting
                if not on:
                    o.switch_plotting()
                with plot_fault(f["where"], f["exc"], stats):
                    obs = r.w.run(op)
                if o.enable_plotting != True:
                    raise Violation("failed update changed the plotting switch")
                if not on:
                    o.switch_plotting()
            elif f:
                obs, _ = hist.apply_fault(op, r.w, r.w.run, stats)
            else:
                obs = r.w.run(op)
            fired = len(stats.fired) > n0
            stats.probe("attempt:%s:%s" % (op["op"] if not f else f["unit"], obs[0]))
            stats.event(op["op"], obs[0], obs[1] if obs[0] == "raise" else None)
            if obs[0] == "raise":
                stats.nontrivial = 1
                if op["op"] == "update" and not fired and not (f and fired):
                    # refused although valid (e.g. a fit that cannot be made): old settings
                    stats.probe("attempt failed by itself")
                cands = [old]
                if fired and f["unit"] == "point":
                    cands = [old, new]
                c = self.judge(r, plan, stats, cands, "answers after a failed update are not those before it")
                if c == 1:
                    r.specs[0] = new
            else:
                if op["op"] == "bad_update":
                    raise Rejected("an update meant to be refused was accepted")
                self.judge(r, plan, stats, [new], "answers after an update are not those of a new object")
                r.specs[0] = new
        stats.record = {"attempts": plan["attempts"], "ops": plan["ops"]}


PROP = C03()
