"""C07: every answer solves the kriging system of the current model."""
import numpy as np

from .. import gen, hist, ref, sim, util, world
from ..base import Prop
from ..kernel import Rejected, Violation

KINDS = ["query"] * 6 + ["update"] * 3 + ["bad_query", "bad_update", "sw_verbose", "stats", "plot_vario", "new"]


def judge_query(m, spec, q, obs, stats, where):
    """Compares the observed answer of a query with the reference solution."""
    if obs[0] == "raise":
        # only answers are judged here; what must not fail is decided by C06
        stats.probe("query raised " + obs[1])
        return
    z, ss = obs[1]
    r = ref.Ref(spec, params=m.variogram_model_parameters)
    L = gen.locations(q)
    rz, rs, cd, ok = r.answer(L, q.get("w"), q)
    zs, gs = r.scales()
    un = np.ones(len(L), bool)
    if q["style"] == "masked":
        un = ~np.array(q["mask"], dtype=bool).ravel()
    shape = (len(L),) if q["style"] == "points" else tuple(len(x) for x in q["axes"])[::-1]
    for a, b, sc, what in ((z, rz, zs, "estimate"), (ss, rs, gs, "variance")):
        if a.shape != shape:
            raise Violation("result has the wrong shape", got=a.shape, want=shape)
        f = a.data.ravel()
        for j in np.flatnonzero(un & ok):
            stats.evals += 1
            tol = max(util.TOL, cd[j] * 1e-13) * 10 * max(sc, abs(b[j]))
            if not abs(f[j] - b[j]) <= tol:
                raise Violation("%s does not solve the kriging system" % what, where=where, point=L[j].tolist(), got=float(f[j]), want=float(b[j]),
                                cond=float(cd[j]), cls=spec["cls"], backend=q["backend"], style=q["style"], window=q.get("w"), vario=spec["v"])
    # exactness at data locations, stated directly
    if spec["kw"].get("exact_values", True) and not spec["kw"].get("pseudo_inv") and q.get("dv") is None:
        P = np.array(spec["pts"], dtype=float)
        for j in np.flatnonzero(un & ok):
            hit = np.flatnonzero((P == L[j]).all(axis=1))
            if len(hit) == 1:
                stats.probe("exact location")
                tol = max(util.TOL, cd[j] * 1e-13) * 100
                if abs(z.data.ravel()[j] - spec["vals"][hit[0]]) > tol * zs or abs(ss.data.ravel()[j]) > tol * gs:
                    raise Violation("an exact model does not reproduce its data", point=L[j].tolist(), got=float(z.data.ravel()[j]), value=spec["vals"][hit[0]], variance=float(ss.data.ravel()[j]))


class C07(Prop):
    id = "C07"
    runs = {"quick": 5000, "thorough": 50000}
    deadline = {"quick": 150, "thorough": 1800}
    rule = ("a case is one or two models and a history of three to nine calls with injected faults and refused calls; the answer of every query in it is compared with "
            "an independent dense solution of the kriging system that the latest settings define; non-trivial when at least one cell was judged after a successful update")
    assumptions = ["systems with a condition number above 1e8, window ties and locations within rounding of a well are not judged",
                   "automatically fitted parameters are read from the model (C20 judges the fit)",
                   "drift terms are evaluated in the frames the package documents: regional linear, well and functional drifts in the anisotropic frame, external and specified drifts in the original one"]

    def generate(self, rng, tier, i):
        plan = {"models": [gen.gen_model(rng)]}
        if rng.random() < 0.4:
            plan["models"].append(gen.sibling(rng, plan["models"][0]) if rng.random() < 0.5 else gen.gen_model(rng))
        plan["ops"] = hist.gen_history(rng, plan, rng.randint(2, 8), KINDS, 0.12)
        for m in range(len(plan["models"])):
            sp = hist.cur_spec(plan, plan["ops"], m)
            v = sp["v"]
            for _ in range(2):
                plan["ops"].append({"op": "query", "m": m, "q": gen.gen_query(rng, sp, v)})
        for op in plan["ops"]:
            if op["op"] == "query" and rng.random() < 0.35:
                q = op["q"]
                # specified drifts that are not functions of the location
                q["dv"] = rng.getrandbits(31)
                if q["style"] == "points" and rng.random() < 0.6:
                    k = rng.randrange(len(q["pts"]))
                    q["pts"].insert(k, list(q["pts"][k]))
        return plan

    def execute(self, plan, stats):
        try:
            r = hist.Runner(plan, stats)
        except Exception as e:
            raise Rejected("world cannot be built: %r" % e)
        changed = set()
        with util.quiet():
            for n, op in enumerate(plan["ops"]):
                f0 = len(stats.fired)
                obs = r.step(op)
                m = op.get("m")
                stats.event(n, op["op"], util.rounded(obs[1]) if obs[0] == "ok" else obs[1])
                if op["op"] in ("update", "new") and obs[0] == "ok":
                    changed.add(m)
                if op["op"] != "query" or m in r.unsure:
                    continue
                if len(gen.locations(op["q"])[0]) != len(r.specs[m]["pts"][0]):
                    # meant for an object of another dimension whose construction failed
                    continue
                if len(stats.fired) > f0 and obs[0] == "raise":
                    continue
                e0 = stats.evals
                try:
                    judge_query(r.w.o[m], r.specs[m], op["q"], obs, stats, n)
                except Rejected:
                    stats.probe("answer not judged")
                if stats.evals > e0 and m in changed:
                    stats.nontrivial = 1
        stats.record = {"ops": plan["ops"]}


PROP = C07()
