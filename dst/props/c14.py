"""C14: regression and classification kriging answer from their own latest fit."""
import copy

import numpy as np

from .. import comb, gen, hist, kernel, sim, util, world
from ..base import Prop
from ..kernel import Rejected, Violation



def backends(w):
    """Backends that the kriging method, window and variogram model support."""
    b = gen.backends(w["model"])
    return [x for x in b if x != "vectorized"] if w["cls"].startswith("ok") else b


def vary_data(rng, w):
    """New data for a refit: other targets, other rows, another order, other classes."""
    d = world.gen_data(rng, w)
    idx = list(range(len(d["x"])))
    r = rng.random()
    if r < 0.3:
        rng.shuffle(idx)
    elif r < 0.6 and len(idx) > 8:
        idx = sorted(rng.sample(idx, rng.randint(max(7, len(idx) - 3), len(idx))))
    d = {k: [v[i] for i in idx] for k, v in d.items()}
    if w["kind"] == "ck":
        cs = sorted(set(d["y"]))
        if len(cs) < 2:
            d["y"][0] = (cs[0] + 1) % 3
        elif rng.random() < 0.3:
            # another set of classes
            sub = sorted(rng.sample([0, 1, 2], 2))
            d["y"] = [sub[c % 2] for c in d["y"]]
            if len(set(d["y"])) < 2:
                d["y"][0] = sub[0] if d["y"][0] == sub[1] else sub[1]
    return d


class C14(Prop):
    id = "C14"
    runs = {"quick": 1300, "thorough": 30000}
    deadline = {"quick": 150, "thorough": 1800}
    clean = True
    rule = ("a case is one to four regression or classification kriging objects (eight regression and five classification models, also the default one; all kriging methods, "
            "drifts, anisotropies; integer, text and float labels; refits with other rows, targets and classes), used by one to four simulated tasks at the same time, each on its own "
            "object, with fits, predictions, residuals and scores of which some are aborted by injected faults; every prediction is compared with an independent "
            "combination of a freshly fitted machine learning model and newly kriged residuals; non-trivial when a prediction followed a refit or an interleaving")
    assumptions = ["each task uses its own object; shared use for queries is decided by C01", "labels are not judged where the two best classes are within 1e-4", "values are compared to 1e-6 of their scale"]

    def generate(self, rng, tier, i):
        plan = {"tasks": []}
        default = rng.random() < 0.25
        for t in range(rng.choice([1, 1, 2, 3, 4])):
            kind = "rk" if default and rng.random() < 0.8 else rng.choice(["rk", "ck"])
            w = world.gen_wrapper(rng, kind)
            if default and kind == "rk":
                w["est"] = "default"
            w["fit"] = False
            # the wrappers' constructors take these too
            ops = []
            d = w["data"]

            def where(d):
                at = world.gen_where(rng, w)
                if rng.random() < 0.15:
                    # where the data are
                    at = dict(at, x=copy.deepcopy(d["x"]), p=copy.deepcopy(d["p"]))
                return at

            for j in range(rng.randint(2, 5)):
                r = rng.random()
                if j == 0 or r < 0.3:
                    d = vary_data(rng, w) if rng.random() < 0.6 else world.next_data(rng, w, d)
                    op = {"op": "fit", "d": d}
                    if rng.random() < 0.15:
                        op["fault"] = hist.gen_fault(rng, ["calls", "cbs", "point"])
                elif r < 0.75:
                    op = {"op": "predict", "at": where(d), "backend": rng.choice([None, None] + backends(w))}
                    if rng.random() < 0.15:
                        op["fault"] = hist.gen_fault(rng, ["calls", "cbs", "point"])
                elif r < 0.85 and w.get("labels") != "float":   # accuracy is not defined for fractional labels
                    op = {"op": "score", "d": vary_data(rng, w), "sw": rng.random() < 0.5}
                elif r < 0.95:
                    op = {"op": "residual", "at": where(d)}
                else:
                    op = {"op": "copy"}
                ops.append(op)
            ops.append({"op": "predict", "at": where(d), "backend": None})
            plan["tasks"].append({"w": w, "ops": ops})
        plan["sched"] = {"mode": "rand", "seed": rng.getrandbits(32), "p": rng.choice([0.003, 0.02, 0.1, 0.4])}
        return plan

    def place(self, t, j):
        """Where the fault of operation j strikes (counted in a process of its own)."""
        with util.quiet():
            w = t["w"]
            o = world.make_wrapper(w)
            for op in t["ops"][:j]:
                self.run(o, w, {k: v for k, v in op.items() if k != "fault"})
            f = t["ops"][j]["fault"]
            return sim.place(sim.count(lambda: self.run(o, w, t["ops"][j]), call=True), f["unit"], f["frac"])

    @staticmethod
    def run(o, w, op, bufs=None):
        def go():
            k = op["op"]
            if k == "fit":
                return world.wfit(o, w, op["d"])
            if k == "predict":
                return world.wpredict(o, w, op["at"], bufs, **({"backend": op["backend"]} if op.get("backend") else {}))
            if k == "residual":
                own = op["at"].get("buf") or []
                return o.krige_residual(world.put(bufs if "x" in own else None, "x", np.array(op["at"]["x"], dtype=float)))
            d = op["d"]
            sw = np.linspace(0.5, 2.0, len(d["y"])) if op["sw"] else None
            return float(o.score(np.array(d["p"], dtype=float), np.array(d["x"], dtype=float), world.targets(w, d["y"]), sample_weight=sw))
        return util.observe(go)

    def want(self, jobs):
        out = []
        with util.quiet():
            for w, d, op in jobs:
                try:
                    if op["op"] == "predict":
                        out.append(("ok", comb.predict(w, d, op["at"])))
                    elif op["op"] == "residual":
                        out.append(("ok", self.resid(w, d, op["at"])))
                    elif op["op"] == "fit":
                        self.resid(w, d, {"x": [[q + 0.01 for q in pt] for pt in d["x"][:3]]})
                        out.append(("ok", None))
                    else:
                        sw = np.linspace(0.5, 2.0, len(op["d"]["y"])) if op["sw"] else None
                        out.append(("ok", comb.score(w, d, op["d"], sw)))
                except Rejected as e:
                    out.append(("skip", str(e)))
                except Exception as e:
                    out.append(("raise", type(e).__name__))
        return out

    @staticmethod
    def resid(w, d, at):
        p, x, y, X = np.array(d["p"], dtype=float), np.array(d["x"], dtype=float), world.targets(w, d["y"]), np.array(at["x"], dtype=float)
        e = comb.fresh_est(w)
        if w["kind"] == "rk":
            e.fit(p, y)
            return comb.kriged(w, x, y - e.predict(p), X)
        e.fit(p, y.ravel())
        R = comb.ilr((y.reshape(-1, 1) == e.classes_[None, :]).astype(float)) - comb.ilr(e.predict_proba(p))
        return np.stack([comb.kriged(w, x, R[:, k], X) for k in range(R.shape[1])], axis=1)

    def execute(self, plan, stats):
        faults = []
        for ti, t in enumerate(plan["tasks"]):
            for j, op in enumerate(t["ops"]):
                f = op.get("fault")
                if f and "at" not in f:
                    try:
                        f["at"] = util.in_child(self.place, t, j)
                    except RuntimeError as e:
                        raise Rejected("cannot be prepared: " + str(e)[-200:])
        try:
            objs = [world.make_wrapper(t["w"]) for t in plan["tasks"]]
        except Exception as e:
            raise Rejected("cannot be built: %r" % e)
        log = []

        def task(ti):
            def go():
                t = plan["tasks"][ti]
                w = t["w"]
                o = objs[ti]
                me, k = kernel.current_task(), kernel.ACTIVE
                d = None
                bufs = {}
                for op in t["ops"]:
                    if op["op"] == "copy":
                        o = copy.deepcopy(o)
                        continue
                    f = op.get("fault")
                    key = None
                    if f:
                        base = {"point": me.steps, "calls": me.calls, "cbs": me.cbs}[f["unit"]]
                        key = (me.id, f["unit"], base + f["at"])
                        k.faults[key] = ff = {"task": me.id, "exc": f["exc"], "unit": f["unit"]}
                    ob = self.run(o, w, op, bufs)
                    fired = False
                    if key:
                        fired = bool(k.faults.pop(key).get("_done"))
                    if op["op"] == "fit":
                        d = op["d"] if ob[0] == "ok" else None
                        if ob[0] == "raise" and not fired:
                            log.append((ti, dict(op, op="fit"), ob, op["d"], w))
                    elif d is not None and not fired:
                        log.append((ti, op, ob, d, w))
            return go

        k = sim.run_tasks([task(i) for i in range(len(plan["tasks"]))], plan["sched"], stats, call=True)
        stats.record = {"sched": {"mode": "explicit", "switches": k.record}, "tasks": plan["tasks"]}
        jobs = [(w, d, op) for ti, op, ob, d, w in log]
        want = iter([stats.clean.call(self.want, [j])[0] for j in jobs])
        stats.nontrivial = int(any(sum(o["op"] == "fit" for o in t["ops"]) > 1 for t in plan["tasks"]) or len(k.record) > len(plan["tasks"]))
        for ti, op, ob, d, w in log:
            st, ref = next(want)
            stats.probe("%s:%s:%s" % (w["kind"], op["op"], st))
            if st == "skip":
                continue
            if op["op"] == "fit":
                if st == "ok":
                    raise Violation("a fit fails although a new object can be fitted: " + util.short(ob), task=ti, kind=w["kind"], est=w["est"], cls=w["cls"],
                                    ops=[o["op"] for o in plan["tasks"][ti]["ops"]])
                continue
            if st == "raise":
                if ob[0] != "raise":
                    raise Violation("a %s succeeds although its parts fail: %s" % (op["op"], ref), kind=w["kind"], est=w["est"], cls=w["cls"])
                continue
            stats.evals += 1
            stats.event(ti, op["op"], util.rounded(ob[1]) if ob[0] == "ok" else ob[1])
            if op["op"] == "predict":
                diff = comb.compare(w, ob, ref)
            elif op["op"] == "residual":
                diff = util.short(ob) if ob[0] == "raise" else util.same(ob[1], util.norm(ref), 1e-6)
            else:
                diff = util.short(ob) if ob[0] == "raise" else util.same(ob[1], ref, 1e-6)
            if diff:
                raise Violation("%s is not that of the latest fit: %s" % (op["op"], diff), task=ti, kind=w["kind"], est=w["est"], cls=w["cls"], model=w["model"]["v"]["model"],
                                backend=op.get("backend"), ops=[o["op"] for o in plan["tasks"][ti]["ops"]])


PROP = C14()
