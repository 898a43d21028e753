"""C20: diagnostics describe the current model."""
import io
import sys

import numpy as np
from scipy.optimize import least_squares

from .. import gen, hist, ref, util, world
from ..base import Prop
from ..kernel import Rejected, Violation

KINDS = ["stats", "vpoints", "stats", "vpoints", "print_stats"] + ["update"] * 4 + ["query", "bad_query", "bad_update", "bad_update", "sw_verbose", "sw_plot", "plot_eps", "plot_vario", "new"]


def start(model, lags, sv):
    """The documented starting guess and bounds of the automatic fit."""
    if model == "linear":
        return [(sv.max() - sv.min()) / (lags.max() - lags.min()), sv.min()], [0.0, 0.0], [np.inf, sv.max()]
    if model == "power":
        return [(sv.max() - sv.min()) / (lags.max() - lags.min()), 1.1, sv.min()], [0.0, 0.001, 0.0], [np.inf, 1.999, sv.max()]
    return [sv.max() - sv.min(), 0.25 * lags.max(), sv.min()], [0.0, 0.0, 0.0], [10 * sv.max(), lags.max(), sv.max()]


def residuals(gamma, p, lags, sv, weight):
    r = np.asarray(gamma(p, lags), dtype=float) - sv
    if weight:
        dr = lags.max() - lags.min()
        w = 1.0 / (1.0 + np.exp(-(2.1972 / (0.1 * dr)) * (0.7 * dr + lags.min() - lags)))
        r = r * w / w.sum()
    return r


def cost(gamma, p, lags, sv, weight):
    r = residuals(gamma, p, lags, sv, weight)
    return float(np.sum(np.sqrt(1.0 + r * r) - 1.0))


class C20(Prop):
    id = "C20"
    runs = {"quick": 3500, "thorough": 80000}
    deadline = {"quick": 150, "thorough": 1500}
    rule = ("a case is one or two models and a history of three to nine updates, diagnostics, plots, queries and refused calls of which some are aborted by injected faults; whenever the history asks for them, and at its end, "
            "the reported lags, semivariances, model variogram, parameters, residuals and statistics (returned and printed) are compared with an independent computation from the data and the latest settings; "
            "non-trivial when diagnostics were judged after an update")
    assumptions = ["pairs of points within rounding of the edge of a bin, and cross-validation systems that are ill-conditioned or have a variance near the cut-off, are not judged",
                   "an automatic fit must lie within the bounds, be no worse than the starting guess and leave no other fit within reach that is better by more than a tenth"]

    def generate(self, rng, tier, i):
        plan = {"models": [gen.gen_model(rng)]}
        if rng.random() < 0.4:
            plan["models"].append(gen.sibling(rng, plan["models"][0]) if rng.random() < 0.5 else gen.gen_model(rng))
        if rng.random() < 0.3:
            # more data and bins than usual
            s = plan["models"][0] = gen.gen_model(rng, n=rng.choice([15, 25, 40]))
            s["v"]["nlags"] = rng.choice([12, 15, 20])
            if s["v"]["model"] in gen.BUILTIN and rng.random() < 0.7:
                s["v"]["params"] = None
        plan["ops"] = hist.gen_history(rng, plan, rng.randint(2, 8), KINDS, 0.12)
        for m in range(len(plan["models"])):
            plan["ops"] += [{"op": k, "m": m} for k in ("vpoints", "stats", "printed")]
        return plan

    def judge(self, o, spec, op, ob, stats):
        if ob[0] == "raise":
            if op["op"] == "vpoints":
                raise Violation("the diagnostics fail: " + util.short(ob), op=op["op"])
            return False
        r = ref.Ref(spec, params=o.variogram_model_parameters)
        if op["op"] == "vpoints":
            return self.vpoints(r, spec, ob[1], stats)
        return self.stats(r, spec, op, ob[1], stats)

    def vpoints(self, r, spec, got, stats):
        v = spec["v"]
        if not np.all(np.isfinite(r.D)):
            raise Rejected("distances")
        lags, sv = r.experimental()
        for a, b, what in ((got[0], lags, "lags"), (got[1], sv, "experimental semivariances")):
            d = util.same(a, util.Arr(b), 1e-7)
            stats.evals += 1
            if d:
                raise Violation("the reported %s are not those of the data: %s" % (what, d), cls=spec["cls"], vario=v, geo=spec["geo"])
        p = got[2].data
        want = ref.explicit_params(v)
        if want is not None:
            d = util.same(util.Arr(p), util.Arr(np.array(want, dtype=float)), 1e-9)
            if d:
                raise Violation("the reported parameters are not the given ones: " + d, cls=spec["cls"], vario=v)
        else:
            self.fit(r, v, p, lags, sv, stats)
        if len(got) > 3:
            d = util.same(got[3], util.Arr(lags), 1e-7) or util.same(got[4], util.Arr(np.asarray(r.gamma(p, lags), dtype=float)), 1e-7)
            if d:
                raise Violation("the reported model variogram is not that of the current model: " + d, cls=spec["cls"], vario=v)
        return True

    def fit(self, r, v, p, lags, sv, stats):
        if len(lags) < 2 or sv.max() <= 0:
            return
        x0, lo, hi = start(v["model"], lags, sv)
        lo, hi = np.array(lo), np.array(hi)
        sl = 1e-9 * np.maximum(1.0, np.abs(np.where(np.isfinite(hi), hi, 1.0)))
        if np.any(p < lo - sl) or np.any(p > hi + sl):
            raise Violation("automatically fitted parameters leave their bounds", params=p.tolist(), lower=lo.tolist(), upper=hi.tolist(), model=v["model"])
        with np.errstate(all="ignore"):
            c, c0 = cost(r.gamma, p, lags, sv, v["weight"]), cost(r.gamma, x0, lags, sv, v["weight"])
        if not np.isfinite(c0) or not np.isfinite(c):
            return
        stats.evals += 1
        stats.probe("fit judged")
        if c > c0 * (1 + 1e-6) + 1e-9:
            raise Violation("the automatic fit is worse than its starting guess", cost=c, start=c0, params=p.tolist(), model=v["model"], weight=v["weight"])
        # an optimiser that starts where the fit ended gets no further (where the problem is smooth)
        if v["model"] in ("linear", "exponential", "gaussian") and len(lags) >= 6 and (len(p) == 2 or p[1] > 0.2 * lags.min()):
            with np.errstate(all="ignore"):
                try:
                    a = least_squares(lambda t: residuals(r.gamma, t, lags, sv, v["weight"]), np.clip(p, lo, hi), bounds=(lo, hi), loss="soft_l1").x
                    best = cost(r.gamma, a, lags, sv, v["weight"])
                except ValueError:
                    best = c
            stats.probe("fit continued")
            if best < 0.8 * c - 1e-6:
                raise Violation("the automatic fit stops where a much better one can still be reached", cost=c, reached=best, params=p.tolist(), better=a.tolist(), model=v["model"], weight=v["weight"])
        # no better fit within reach
        span = np.where(np.isfinite(hi), hi, np.maximum(1.0, 2 * np.abs(p))) - lo
        best = c
        for k in range(len(p)):
            for f in (1e-3, -1e-3, 1e-2, -1e-2):
                q = np.array(p, dtype=float)
                q[k] = min(max(q[k] + f * span[k], lo[k]), hi[k])
                with np.errstate(all="ignore"):
                    cc = cost(r.gamma, q, lags, sv, v["weight"])
                if np.isfinite(cc):
                    best = min(best, cc)
        if best < 0.9 * c - 1e-7:
            raise Violation("the automatic fit stops where a much better one is within reach", cost=c, near=best, params=p.tolist(), model=v["model"], weight=v["weight"])

    def stats(self, r, spec, op, got, stats):
        if op["op"] == "stats" and got[0] is None:
            return False
        eps, q1, q2, cr = r.statistics()
        if len(eps) < 2:
            return False
        tol = 1e-5
        if op["op"] == "printed":
            vals = {}
            for line in got.splitlines():
                if "=" in line:
                    k, x = line.split("=", 1)
                    vals[k.strip()] = x.strip()
            if vals.get("Q1") == "None":
                return False
            for k, want in (("Q1", q1), ("Q2", q2), ("cR", cr)):
                try:
                    x = float(vals[k])
                except (KeyError, ValueError):
                    raise Violation("the printed statistics lack " + k, text=got[:200])
                stats.evals += 1
                if abs(x - want) > 1e-4 * max(1.0, abs(want)):
                    raise Violation("printed %s is not that of the current model" % k, got=x, want=want)
            return True
        for a, b, what in zip(got[:3], (q1, q2, cr), ("Q1", "Q2", "cR")):
            stats.evals += 1
            if not abs(a - b) <= tol * max(1.0, abs(b)):
                raise Violation("reported %s is not that of the current model" % what, got=float(a), want=float(b), cls=spec["cls"], vario=spec["v"], geo=spec["geo"])
        d = util.same(got[3], util.Arr(eps), tol)
        if d:
            raise Violation("the reported residuals are not those of the current model: " + d, cls=spec["cls"], vario=spec["v"])
        return True

    def execute(self, plan, stats):
        try:
            r = hist.Runner(plan, stats)
        except Exception as e:
            raise Rejected("world cannot be built: %r" % e)
        changed = set()
        with util.quiet():
            for n, op in enumerate(plan["ops"]):
                m = op.get("m")
                if op["op"] == "printed":
                    old, sys.stdout = sys.stdout, io.StringIO()
                    try:
                        ob = util.observe(lambda: r.w.o[m].print_statistics())
                        text = sys.stdout.getvalue()
                    finally:
                        sys.stdout = old
                    obs = ("ok", text) if ob[0] == "ok" else ob
                else:
                    obs = r.step(op)
                stats.event(n, op["op"], util.rounded(obs[1]) if obs[0] == "ok" else obs[1])
                if op["op"] in ("update", "new") and obs[0] == "ok":
                    changed.add(m)
                if op["op"] not in ("stats", "vpoints", "printed") or m in r.unsure:
                    continue
                try:
                    if self.judge(r.w.o[m], r.specs[m], op, obs, stats):
                        stats.probe("judged:" + op["op"])
                        stats.nontrivial |= int(m in changed)
                except Rejected as e:
                    stats.probe("not judged: " + str(e))
        stats.record = {"ops": plan["ops"]}


PROP = C20()
