"""C13: parallel model search gives the serial result."""
import numpy as np

from .. import farm, gen, kernel, sim, util, world
from ..base import Prop
from ..kernel import Rejected, Violation

AX2 = {
    "variogram_model": ["linear", "power", "gaussian", "spherical", "exponential"],
    "nlags": [3, 4, 6],
    "weight": [True, False],
    "method": ["ordinary", "universal"],
    "n_closest_points": [3, 5, 8],
    "exact_values": [True, False],
    "drift_terms": [None, ["regional_linear"]],
    "anisotropy_scaling": [(1.0, 1.0), (2.0, 1.0), (0.5, 3.0)],
    "anisotropy_angle": [(0.0, 0.0, 0.0), (30.0, 0.0, 0.0), (75.0, 10.0, -20.0)],
    "variogram_parameters": [None, {"slope": 1.2, "nugget": 0.3}, [0.9, 0.1]],
    "enable_statistics": [True, False],
    "pseudo_inv": [True, False],
    "verbose": [False, True],
    "coordinates_type": ["euclidean", "geographic"],
    "pseudo_inv_type": ["pinv", "pinvh"],
}
AX3 = {k: v for k, v in AX2.items() if k != "coordinates_type"}
AX3["method"] = ["ordinary3d", "universal3d"]


class C13(Prop):
    id = "C13"
    runs = {"quick": 700, "thorough": 15000}
    deadline = {"quick": 150, "thorough": 1800}
    rule = ("a case is a parameter search (exhaustive, randomised or successive halving), a cross validation with returned estimators or a cross-validated prediction of the "
            "scikit-learn compatible estimator in two or three dimensions, run on one to five simulated workers with seeded order of execution and completion; tasks are shipped by "
            "pickling into the same or another process or shared as threads interleaved at source lines; workers crash at seeded source lines and tasks are retried, results get "
            "lost and are computed again; compared with the serial run in a process of its own; non-trivial when the tasks did not run in serial order or one was repeated")
    assumptions = ["joblib is represented by a backend of the simulator behind joblib's own backend interface", "values are compared to 1e-7 of their scale"]
    stubs = ["worker pool (joblib backend of the simulator)"]

    def generate(self, rng, tier, i):
        three = rng.random() < 0.3
        ax = AX3 if three else AX2
        n = rng.randint(12, 18)
        pts = gen.gen_coords(rng, n, 3 if three else 2, "float")
        plan = {"three": three, "pts": pts, "vals": [gen.r3(sum(p) * 0.3 + rng.uniform(-1, 1)) for p in pts]}
        keys = rng.sample(sorted(ax), rng.randint(1, 3))
        if "variogram_parameters" in keys and "variogram_model" in keys:
            keys.remove("variogram_parameters")
        grid = {}
        for k in keys:
            grid[k] = rng.sample(ax[k], min(len(ax[k]), rng.randint(1, 3)))
        if "coordinates_type" in grid and rng.random() < 0.6:
            grid.setdefault("anisotropy_scaling", rng.sample(ax["anisotropy_scaling"], 2))
        plan["grid"] = grid
        plan["base"] = {"method": rng.choice(ax["method"])} if "method" not in grid else {"method": ax["method"][0]}
        for k in ("weight", "n_closest_points", "exact_values", "anisotropy_scaling", "anisotropy_angle", "drift_terms", "enable_statistics"):
            if k not in grid and rng.random() < 0.25:
                plan["base"][k] = rng.choice(ax[k])
        if "variogram_model" not in grid and rng.random() < 0.3 and "variogram_parameters" not in grid:
            plan["base"]["custom"] = True
        plan["what"] = rng.choice(["grid", "grid", "grid", "random", "halving", "cv", "cvpredict"])
        plan["cv"] = rng.choice([2, 3, 4])
        plan["refit"] = rng.random() < 0.8
        plan["scoring"] = rng.choice([None, "neg_mean_squared_error", "neg_mean_absolute_error"])
        plan["at"] = gen.gen_coords(rng, 3, 3 if three else 2, "float")
        mode = rng.choice(["ship", "ship", "fork", "threads"])
        plan["farm"] = {"workers": rng.choice([1, 2, 2, 3, 5]), "ship": mode != "threads", "fork": mode == "fork", "seed": rng.getrandbits(32), "dup": rng.choice([0.0, 0.0, 0.3])}
        if mode == "ship":
            plan["farm"]["crash"] = [[rng.randrange(12), 1 + int(10 ** rng.uniform(0, 2.7))] for _ in range(rng.choice([0, 1, 2, 4]))]
        plan["sched"] = {"mode": "rand", "seed": rng.getrandbits(32), "p": rng.choice([0.0, 0.01, 0.1, 0.4])}
        if mode == "threads" and rng.random() < 0.6:
            # settings that are used late, workers that get in each other's way
            plan["base"]["method"] = ax["method"][0]
            grid.pop("method", None)
            k = rng.choice(["n_closest_points", "n_closest_points", "exact_values", "anisotropy_scaling", "weight"])
            grid[k] = rng.sample(ax[k], 2)
            plan["base"].pop(k, None)
            plan["farm"]["workers"] = rng.choice([2, 3, 5])
            plan["sched"]["p"] = rng.choice([0.02, 0.1, 0.4])
        return plan

    def shrink_lists(self, plan):
        out = [("farm", "crash")] if "crash" in plan["farm"] else []
        out += [("grid", k) for k in plan["grid"]]
        if plan["sched"].get("mode") == "explicit":
            out.append(("sched", "switches"))
        return out

    def estimator(self, plan):
        from pykrige.compat import Krige

        b = {k: tuple(v) if k.startswith("anisotropy") else v for k, v in plan["base"].items()}
        if b.pop("custom", False):
            b.update(variogram_model="custom", variogram_function=gen.c_exp, variogram_parameters=[1.5, 3.0, 0.2])
        return Krige(**b)

    def search(self, plan, n_jobs):
        from sklearn import model_selection as ms

        X, y = np.array(plan["pts"], dtype=float), np.array(plan["vals"], dtype=float)
        at = np.array(plan["at"], dtype=float)
        e = self.estimator(plan)
        grid = {k: [tuple(v) if k.startswith("anisotropy") else v for v in vs] for k, vs in plan["grid"].items() if vs}
        kw = dict(cv=plan["cv"], n_jobs=n_jobs, scoring=plan["scoring"])
        w = plan["what"]
        if w == "cv":
            r = ms.cross_validate(e, X, y, return_estimator=True, return_train_score=True, **kw)
            return [np.array(r["test_score"]), np.array(r["train_score"]), [m.predict(at) for m in r["estimator"]]]
        if w == "cvpredict":
            return [ms.cross_val_predict(e, X, y, cv=plan["cv"], n_jobs=n_jobs), ms.cross_val_score(e, X, y, **kw)]
        if w == "grid":
            s = ms.GridSearchCV(e, grid, refit=plan["refit"], return_train_score=True, **kw)
        elif w == "random":
            s = ms.RandomizedSearchCV(e, grid, n_iter=3, random_state=3, refit=plan["refit"], **kw)
        else:
            from sklearn.experimental import enable_halving_search_cv  # noqa

            s = ms.HalvingGridSearchCV(e, grid, factor=2, min_resources=10, random_state=1, refit=plan["refit"], **kw)
        s.fit(X, y)
        out = [repr(s.cv_results_["params"])]
        for k in sorted(s.cv_results_):
            if "score" in k and "time" not in k:
                out.append(np.array(s.cv_results_[k], dtype=float))
        if plan["refit"]:
            out += [repr(s.best_params_), float(s.best_score_), s.predict(at), s.predict(X)]
        return out

    def serial(self, plan):
        with util.quiet():
            return util.observe(lambda: self.search(plan, 1))

    def execute(self, plan, stats):
        want = util.in_child(self.serial, plan)
        if want[0] == "raise":
            raise Rejected("serial run fails: " + util.short(want))
        with util.quiet():
            got, k, f = farm.run(lambda: self.search(plan, 2), plan["farm"], stats, plan["sched"])
        stats.record = {"sched": {"mode": "explicit", "switches": k.record}}
        stats.evals += 1
        stats.nontrivial = int(f.count > 1)
        stats.probe("tasks", f.count)
        stats.probe("mode:" + plan["what"])
        stats.fault("task order shuffled", int(f.count > 1))
        stats.event(util.rounded(got[1]) if got[0] == "ok" else got[1])
        if got[0] == "raise":
            raise Violation("the parallel search fails where the serial one does not: " + util.short(got), what=plan["what"])
        a, b = got[1], want[1]
        if plan["what"] in ("grid", "random", "halving") and plan["refit"] and util.same(a[:-4], b[:-4]) is None and a[-4] != b[-4] and util.same(a[-3], b[-3]) is None:
            # equal scores up to rounding: the choice between them is arbitrary
            stats.probe("tie")
            return
        d = util.same(a, b)
        if d:
            raise Violation("the parallel search gives another result than the serial one: " + d, what=plan["what"], grid=sorted(plan["grid"]), workers=plan["farm"]["workers"])


PROP = C13()
