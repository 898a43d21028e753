"""C06: a point's answer is independent of how it is requested."""
import copy
import pickle

import numpy as np

from .. import gen, kernel, ref, sim, util
from ..base import Prop
from ..kernel import Rejected, SimKill, Violation


class C06(Prop):
    id = "C06"
    runs = {"quick": 2400, "thorough": 40000}
    deadline = {"quick": 150, "thorough": 1800}
    rule = ("a case is one model and a job list of two to six tiles (points in any order with repetitions, grids, masked grids; any supported backend) worked off by "
            "one to four simulated workers, each with its own unpickled or a shared copy of the model; workers crash at seeded source lines or library calls, are "
            "restarted and retry, tiles are duplicated and reordered; every cell is compared with the answer to a one-point query of a fresh model; non-trivial when "
            "at least one location was answered by two different routes")
    assumptions = ["kriging systems with a condition number above 1e8 and locations with a tie at the edge of the moving window are not judged",
                   "a worker crash loses the worker's memory; the job list survives"]

    def generate(self, rng, tier, i):
        m = gen.gen_model(rng)
        plan = {"spec": m}
        w = None
        if gen.window_ok(m) and rng.random() < 0.35:
            n = len(m["pts"])
            w = rng.choice([2, 3, max(2, n - 2), max(2, n - 1), n, n + 4]) if n > 3 else 2
        plan["w"] = w
        pool = gen.gen_points(rng, m, rng.randint(3, 8))
        tiles = []
        for _ in range(rng.randint(2, 6)):
            tiles.append(self.tile(rng, m, w, pool))
        plan["tiles"] = tiles
        plan["workers"] = rng.choice([1, 2, 2, 3, 4])
        plan["own"] = rng.random() < 0.6
        order = []
        for t in range(len(tiles)):
            order += [t] * rng.choice([1, 1, 1, 2])
        rng.shuffle(order)
        plan["order"] = order
        nf = rng.choice([0, 0, 1, 2, 3])
        plan["crash"] = [{"task": rng.randrange(plan["workers"]), "unit": rng.choice(["point", "calls"]), "at": int(10 ** rng.uniform(0, 3.2)),
                          "exc": rng.choice(["SimKill", "SimKill", "MemoryError", "KeyboardInterrupt"])} for _ in range(nf)]
        plan["sched"] = {"mode": "rand", "seed": rng.getrandbits(32), "p": rng.choice([0.0, 0.01, 0.1])}
        return plan

    def shrink_lists(self, plan):
        out = [("crash",), ("order",)]
        if plan["sched"].get("mode") == "explicit":
            out.append(("sched", "switches"))
        return out

    def tile(self, rng, m, w, pool):
        dim = len(m["pts"][0])
        q = gen.gen_query(rng, m, window=w is not None)
        if w is not None:
            q["w"] = w
        else:
            q.pop("w", None)
        if q["style"] == "points":
            pts = [list(rng.choice(pool)) for _ in range(rng.randint(1, 6))]
            q["pts"] = pts
            if rng.random() < 0.25:
                gen.gen_big(rng, m, q, 700 if q["backend"] == "loop" else 10001)
        elif rng.random() < 0.8:
            # grids through pool locations, so that routes overlap
            for k in range(dim):
                ax = [rng.choice(pool)[k] for _ in q["axes"][k]]
                ax = sorted(set(ax))
                if rng.random() < 0.2:
                    rng.shuffle(ax)
                q["axes"][k] = ax
            if q["style"] == "masked":
                shape = [len(a) for a in q["axes"]][::-1]
                q["mshape"] = shape
                q["mask"] = [int(rng.random() < 0.4) for _ in range(int(np.prod(shape)))]
                q["mT"] = dim == 2 and shape[0] != shape[1] and rng.random() < 0.2
        if q["style"] == "masked" and rng.random() < 0.25 and not m["geo"]:
            # a column of masked cells far outside of everything
            shape = q["mshape"]
            q["axes"][0] = list(q["axes"][0]) + [5000.5]
            mk = np.array(q["mask"]).reshape(shape)
            mk = np.concatenate([mk, np.ones(shape[:-1] + [1], int)], axis=-1)
            q["mask"], q["mshape"] = mk.ravel().tolist(), list(mk.shape)
            q["mT"] = False
        return q

    def singles(self, plan, locs):
        """Each location alone, asked of a fresh model; with condition numbers."""
        s = plan["spec"]
        with util.quiet():
            m = gen.build(s)
            r = ref.Ref(s, params=m.variogram_model_parameters)
            locs = np.array(locs, dtype=float)
            try:
                _, _, cd, ok = r.answer(locs, plan["w"])
            except Rejected:
                # near a well: fall back to the full matrix only
                cd, ok = np.full(len(locs), r.cond()), np.ones(len(locs), bool)
                ok &= cd <= ref.COND_MAX
                a = r.frame(locs)
                for x in r.frame(np.array(s["drift"]["wells"], dtype=float)[:, :2]):
                    ok &= ((a - x) ** 2).sum(axis=1) > 1e-12
            out = []
            for p in locs:
                q = {"style": "points", "pts": [list(p)], "backend": "loop" if plan["w"] is not None else "vectorized", "w": plan["w"]}
                ob = util.observe(lambda: list(gen.ask(m, s, q)))
                out.append(ob)
            return out, cd, ok, r.scales()

    @staticmethod
    def looked_at(q, n):
        """The places of a result that are judged: all of a small one."""
        if n <= 60:
            return range(n)
        r = np.random.RandomState(n)
        own = set(q["big"]["at"]) if "big" in q else set()
        return sorted(own | {0, n - 1} | set(int(i) for i in r.randint(0, n, 12)))

    def execute(self, plan, stats):
        s = plan["spec"]
        tiles = plan["tiles"]
        need = {}
        for q in tiles:
            L = gen.locations(q)
            un = np.ones(len(L), bool)
            if q["style"] == "masked":
                un = ~np.array(q["mask"], dtype=bool).ravel()
            for j in self.looked_at(q, len(L)):
                if un[j]:
                    need.setdefault(tuple(L[j]), len(need))
        if not need:
            raise Rejected("everything is masked")
        try:
            single, cd, ok, (zs, gs) = util.in_child(self.singles, plan, list(need))
        except RuntimeError as e:
            raise Rejected("cannot be built: " + str(e)[-200:])
        for p, i in need.items():
            if ok[i] and single[i][0] == "raise":
                raise Violation("a query that has an answer fails: " + util.short(single[i]), point=list(p), cond=float(cd[i]), window=plan["w"], cls=s["cls"])
        try:
            model = gen.build(s)
        except Exception as e:
            raise Rejected("cannot be built: %r" % e)
        saved = pickle.dumps(model) if plan["own"] else None
        queue = list(plan["order"])
        results = []
        crashes = [0]

        def worker(wid):
            def go():
                m = None
                while True:
                    me = kernel.current_task()
                    me.nofault += 1
                    kernel.io_point("take")
                    me.nofault -= 1
                    if not queue:
                        return
                    t = queue.pop(0)
                    if m is None:
                        m = pickle.loads(saved) if plan["own"] else model
                    before = [f["exc"] for f in kernel.ACTIVE.fired if f["task"] == me.id]
                    try:
                        o = util.observe(lambda: list(gen.ask(m, s, tiles[t])))
                    except SimKill:
                        o = None
                    # (the package may turn whatever comes up while it loads an extension into an error of its own)
                    now = [f["exc"] for f in kernel.ACTIVE.fired if f["task"] == me.id][len(before):]
                    if o is None or "SimKill" in now:
                        crashes[0] += 1
                        queue.append(t)     # the farm notices and reschedules the tile
                        m = None
                    elif now and o[0] == "raise":
                        crashes[0] += 1
                        queue.append(t)
                    else:
                        results.append((t, wid, o))
            return go

        k = sim.run_tasks([worker(i) for i in range(plan["workers"])], plan["sched"], stats, plan["crash"], call=True)
        stats.record = {"sched": {"mode": "explicit", "switches": k.record}}
        stats.probe("worker crashes", crashes[0])
        stats.fault("duplicate tile", len(plan["order"]) - len(tiles))
        seen = {}
        for t, wid, ob in results:
            q = tiles[t]
            L = gen.locations(q)
            un = np.ones(len(L), bool)
            if q["style"] == "masked":
                un = ~np.array(q["mask"], dtype=bool).ravel()
            look = [j for j in self.looked_at(q, len(L)) if un[j]]
            bad_alone = [1 for j in look if single[need[tuple(L[j])]][0] == "raise"]
            if len(L) > 60:
                stats.probe("large tile")
            stats.event(t, wid, (util.rounded(ob[1]) if len(L) <= 60 else None) if ob[0] == "ok" else ob[1])
            if ob[0] == "raise":
                if not bad_alone:
                    raise Violation("a tile failed although each of its points can be answered alone: " + util.short(ob), tile=t, style=q["style"], backend=q["backend"])
                continue
            if bad_alone:
                continue
            z, ss = ob[1]
            for a in (z, ss):
                shape = (len(L),) if q["style"] == "points" else tuple(len(x) for x in q["axes"])[::-1]
                if a.shape != shape:
                    raise Violation("result has the wrong shape", got=a.shape, want=shape, style=q["style"], backend=q["backend"])
                mk = (a.mask if a.mask is not None else np.zeros(a.shape, bool)).ravel()
                if not np.array_equal(mk, ~un):
                    raise Violation("masked cells do not come back masked (or others do)", style=q["style"], backend=q["backend"])
            zf, sf = z.data.ravel(), ss.data.ravel()
            for j in look:
                p = L[j]
                i = need[tuple(p)]
                if not ok[i]:
                    continue
                b = single[i][1]
                tol = max(util.TOL, cd[i] * 1e-13) * 10
                stats.evals += 1
                route = (q["style"], q["backend"], wid, t)
                seen.setdefault(i, set()).add(route)
                for got, want, sc, what in ((zf[j], b[0].data[0], zs, "estimate"), (sf[j], b[1].data[0], gs, "variance")):
                    if not (abs(got - want) <= tol * max(sc, abs(want)) or (got != got and want != want)):
                        raise Violation("%s depends on how the point is requested" % what, point=list(p), got=float(got), alone=float(want), cond=float(cd[i]),
                                        style=q["style"], backend=q["backend"], window=plan["w"], cls=s["cls"])
        if set(t for t, _, _ in results) != set(plan["order"]):
            raise Violation("a tile was never answered", missing=sorted(set(plan["order"]) - set(t for t, _, _ in results)))
        stats.nontrivial = int(any(len(v) > 1 for v in seen.values()))
        for v in seen.values():
            for r in v:
                stats.probe("%s/%s" % r[:2])


PROP = C06()
