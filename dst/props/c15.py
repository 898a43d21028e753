"""C15: a failed fit never produces a mixed prediction."""
import copy

import numpy as np

from .. import comb, hist, sim, util, world
from ..base import Prop
from ..kernel import Rejected, Violation
from .c14 import C14, vary_data

BAD = ["x_short", "x_dim", "p_nan", "y_nan", "p_short", "one_class", "y_text"]


def spoil(w, d, how):
    """Arguments of a fit with unusable data (features, coordinates, targets)."""
    p, x, y = np.array(d["p"], dtype=float), np.array(d["x"], dtype=float), world.targets(w, d["y"])
    if how == "x_short":
        x = x[:-1]
    elif how == "x_dim":
        x = x[:, :1]
    elif how == "p_nan":
        p[len(p) // 2, 0] = np.nan
    elif how == "p_short":
        p = p[:-1]
    elif how == "y_nan":
        y = np.array(y, dtype=float if y.dtype.kind in "fiu" else object)
        y[0] = np.nan
    elif how == "one_class":
        y = np.array([y.ravel()[0]] * len(y)).reshape(y.shape)
    elif how == "y_text":
        y = np.array(["?"] * len(y)).reshape(y.shape)
    return p, x, y


class C15(Prop):
    id = "C15"
    runs = {"quick": 1500, "thorough": 40000}
    deadline = {"quick": 150, "thorough": 1500}
    clean = True
    rule = ("a case is one plain, regression or classification kriging object and two to five fits of which most fail: by an injected fault at a seeded source line, library call, "
            "model callback, linear-algebra call or console write, or by unusable data (features, coordinates, targets, classes); after every fit predictions and residuals are "
            "compared with those of an independent combination fitted to the data of the last completed fit; non-trivial when a prediction was judged after a failed fit")
    assumptions = ["a fit interrupted after all of its results were in place may also count as completed", "labels are not judged where the two best classes are within 1e-4",
                   "values are compared to 1e-6 of their scale"]

    def generate(self, rng, tier, i):
        kind = rng.choice(["krige", "rk", "rk", "ck", "ck"])
        w = world.gen_wrapper(rng, kind)
        w["fit"] = False
        if kind == "rk" and rng.random() < 0.1:
            w["est"] = "default"
        ops = []
        for j in range(rng.randint(2, 5)):
            r = rng.random()
            op = {"op": "fit", "d": vary_data(rng, w)}
            if r < 0.55 and not (j == 0 and rng.random() < 0.6):
                op["fault"] = hist.gen_fault(rng, ["calls", "calls", "cbs", "linalg", "stdout", "point", "point"])
            elif r < 0.75 and j:
                op["bad"] = rng.choice(BAD)
            ops.append(op)
            if rng.random() < 0.1:
                ops.append({"op": "copy"})
            for _ in range(rng.randint(1, 2)):
                ops.append({"op": "residual" if kind != "krige" and rng.random() < 0.2 else "predict", "at": world.gen_where(rng, w)})
        return {"w": w, "ops": ops}

    @staticmethod
    def fit(o, w, op):
        def go():
            if op.get("bad"):
                p, x, y = spoil(w, op["d"], op["bad"])
                o.fit(*([x, y] if w["kind"] == "krige" else [p, x, y]))
            else:
                world.wfit(o, w, op["d"])
        return util.observe(go)

    def place(self, o, w, op):
        return sim.place(sim.count(lambda: self.fit(o, w, op), call=True), op["fault"]["unit"], op["fault"]["frac"])

    def faulty(self, o, w, op, stats):
        f = op["fault"]
        u = f["unit"]
        if "at" not in f:
            if u == "linalg":
                f["at"] = int(f["frac"] * 6)
            elif u == "stdout":
                f["at"] = 1 + int(f["frac"] * 3)
            else:
                f["at"] = util.in_child(self.place, o, w, op)
        n0 = len(stats.fired)
        box = {}

        def go():
            box["o"] = self.fit(o, w, op)

        if u == "linalg":
            with sim.linalg_fault(f["at"], f["exc"], stats):
                go()
        elif u == "stdout":
            fs = sim.FailingStream(f["at"], f["exc"], stats)
            with sim.stdout(fs):
                go()
            if fs.fired:
                stats.fired.append({"stdout": f["at"]})
        else:
            sim.run_tasks([go], None, stats, [{"task": 0, "unit": u, "at": f["at"], "exc": f["exc"]}], call=True)
        return box["o"], len(stats.fired) > n0

    def want(self, w, jobs):
        out = []
        with util.quiet():
            for d, op in jobs:
                try:
                    if op["op"] == "fit":
                        at = {k: d[k][:3] for k in ("p", "x") if k in d}
                        comb.predict(w, d, dict(at, x=[[q + 0.01 for q in pt] for pt in at["x"]]))
                        out.append(("ok", None))
                    else:
                        out.append(("ok", comb.predict(w, d, op["at"]) if op["op"] == "predict" else C14.resid(w, d, op["at"])))
                except Rejected as e:
                    out.append(("skip", str(e)))
                except Exception as e:
                    out.append(("raise", type(e).__name__))
        return out

    def execute(self, plan, stats):
        w = plan["w"]
        try:
            o = world.make_wrapper(w)
        except Exception as e:
            raise Rejected("cannot be built: %r" % e)
        last, tried, unknown, failed = None, None, False, False
        log = []
        for op in plan["ops"]:
            if op["op"] == "copy":
                o = copy.deepcopy(o)
            elif op["op"] == "fit":
                if "fault" in op:
                    ob, fired = self.faulty(o, w, op, stats)
                else:
                    ob, fired = self.fit(o, w, op), False
                stats.probe("fit:%s%s" % (ob[0], ":" + op["bad"] if op.get("bad") else ":injected" if fired else ""))
                if ob[0] == "ok":
                    last, tried, failed, unknown = op["d"], None, False, bool(op.get("bad"))
                else:
                    if not fired and not op.get("bad"):
                        log.append((op, ob, op["d"], None, failed))
                    tried, failed = (op["d"] if fired else None), True
            elif not unknown:
                log.append((op, C14.run(o, w, op) if w["kind"] != "krige" or op["op"] == "residual" else util.observe(lambda: world.wpredict(o, w, op["at"])), last, tried, failed))
        jobs = [(d, op) for op, ob, last, tried, failed in log for d in (last, tried) if d is not None]
        want = iter([stats.clean.call(self.want, w, [j])[0] for j in jobs])
        for op, ob, last, tried, failed in log:
            refs = [next(want) for d in (last, tried) if d is not None]
            stats.event(op["op"], util.rounded(ob[1]) if ob[0] == "ok" else ob[1])
            if any(r[0] == "skip" for r in refs):
                continue
            if op["op"] == "fit":
                if refs[0][0] == "ok":
                    raise Violation("a fit fails although a new object can be fitted: " + util.short(ob), kind=w["kind"], cls=w["cls"], est=w.get("est"), after_failure=failed)
                continue
            stats.evals += 1
            stats.nontrivial |= int(failed)
            if ob[0] == "raise":
                if failed or refs and refs[0][0] == "raise":
                    stats.probe("raised after a failed fit")
                    continue
            elif last is None and tried is None:
                raise Violation("a prediction is made without a completed fit", kind=w["kind"], cls=w["cls"])
            diffs = []
            for st, ref in refs:
                if st == "raise":
                    diffs.append("" if ob[0] == "raise" else "the reference raises " + ref)
                elif op["op"] == "predict":
                    diffs.append(comb.compare(w, ob, ref))
                else:
                    diffs.append(util.short(ob) if ob[0] == "raise" else util.same(ob[1], util.norm(ref), 1e-6))
            if not any(not d for d in diffs):
                raise Violation("a %s after a %s fit is not that of a completed fit: %s" % (op["op"], "failed" if failed else "completed", diffs[0]),
                                kind=w["kind"], cls=w["cls"], est=w.get("est"), never_fitted=last is None,
                                faults=[o["fault"] for o in plan["ops"] if "fault" in o])


PROP = C15()
