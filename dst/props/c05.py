"""C05: models and callers never share mutable state."""
import copy
import os
import shutil
import tempfile

import numpy as np

from .. import gen, util, world
from ..base import Prop
from ..kernel import Rejected, Violation


def scramble(o, rng, depth=0):
    """Changes an argument structure in place, everywhere it is mutable."""
    if isinstance(o, np.ma.MaskedArray):
        try:
            o[...] = 5
            o.mask = ~np.ma.getmaskarray(o)
        except Exception:
            pass
        return
    if isinstance(o, np.ndarray):
        if o.flags.writeable:
            if o.dtype == bool:
                o[...] = ~o
            elif o.dtype.kind in "fiu" and o.size:
                o *= 3
                o += 7
                o.reshape(-1)[:1] = -1000 if o.flags.c_contiguous else o.reshape(-1)[:1]
            elif o.dtype.kind in "US" and o.size:
                o[...] = o.reshape(-1)[0]
        return
    if isinstance(o, list):
        for x in o:
            scramble(x, rng, depth + 1)
        for i, x in enumerate(o):
            if isinstance(x, (int, float)) and not isinstance(x, bool):
                o[i] = x * 3 + 7
        if o and callable(o[0]):
            o[0] = _other_function
        if rng.random() < 0.5:
            o.append(o[0] if o else 1.0)
        elif o and rng.random() < 0.5:
            o.pop()
        return
    if isinstance(o, tuple):
        for x in o:
            scramble(x, rng, depth + 1)
        return
    if isinstance(o, dict):
        for k, x in list(o.items()):
            if isinstance(x, (int, float)) and not isinstance(x, bool):
                o[k] = x * 3 + 7
            else:
                scramble(x, rng, depth + 1)
        if rng.random() < 0.3:
            o.clear()


def _other_function(*a):
    return np.zeros_like(np.asarray(a[-1], dtype=float)) + 0.123 * np.asarray(a[0], dtype=float) if len(a) > 1 else 0.0


class C05(Prop):
    id = "C05"
    runs = {"quick": 3500, "thorough": 50000}
    deadline = {"quick": 150, "thorough": 1500}
    clean = True
    rule = ("a case is one or two models (optionally twins built from the very same argument objects), wrappers or grid files and three to seven calls; after each "
            "call a seeded adversary scrambles in place a subset of everything that was passed to it and everything a prediction returned, and the arguments of "
            "every call are compared before and after it; answers are compared with an undisturbed world; non-trivial when something was scrambled before a judged answer")
    assumptions = ["callables and GSTools models are not data and are not mutated", "hyper-parameter objects of the scikit-learn style wrappers are kept by reference until fit, as scikit-learn demands, and are scrambled only after the last fit",
                   "values are compared to 1e-7 of their scale"]

    def generate(self, rng, tier, i):
        plan = {"ops": [], "seed": rng.getrandbits(32), "rate": rng.choice([0.3, 0.7, 1.0])}
        kind = rng.choice(["model", "model", "model", "wrapper", "wrapper", "file"])
        plan["kind"] = kind
        if kind == "model":
            m = gen.gen_model(rng)
            plan["spec"] = m
            plan["twin"] = rng.random() < 0.4
            plan["specs"] = [m, copy.deepcopy(m)]
            if rng.random() < 0.5:
                # the second object has other settings, but is given the same data
                plan["specs"][1]["v"] = gen.next_vario(rng, m, m["v"])
            v = [s["v"] for s in plan["specs"]]
            for _ in range(rng.randint(3, 7)):
                k = rng.randrange(2) if plan["twin"] else 0
                op = world.gen_op(rng, k, m, v[k], ["query", "query", "query", "update", "stats", "vpoints", "bad_query"])
                if op["op"] == "update":
                    v[k] = op["v"]
                plan["ops"].append(op)
                if op["op"] == "query" and rng.random() < 0.3:
                    # the same question again
                    plan["ops"].append(copy.deepcopy(op))
        elif kind == "wrapper":
            w = world.gen_wrapper(rng)
            if w["kind"] == "rk" and rng.random() < 0.4:
                w["est"] = "default"
            if w.get("est") == "knn":      # scikit-learn's nearest neighbours keep the caller's arrays
                w["est"] = "tree"
            plan["spec"] = w
            plan["twin"] = rng.random() < 0.5
            for _ in range(rng.randint(2, 5)):
                k = rng.randrange(2) if plan["twin"] else 0
                r = rng.random()
                if r < 0.6:
                    plan["ops"].append({"op": "predict", "m": k, "at": world.gen_where(rng, w), "dict": w["kind"] == "krige" and rng.random() < 0.4})
                    if rng.random() < 0.3:
                        plan["ops"].append(copy.deepcopy(plan["ops"][-1]))
                else:
                    plan["ops"].append({"op": "fit", "m": k, "d": world.gen_data(rng, w)})
            plan["ops"].append({"op": "predict", "m": 0, "at": world.gen_where(rng, w)})
        else:
            for _ in range(rng.randint(2, 5)):
                g = world.gen_grid(rng)
                plan["ops"].append({"op": "write", "g": g, "f": "f%d" % rng.randrange(2)})
                plan["ops"].append({"op": "read", "f": plan["ops"][-1]["f"], "fmt": g["fmt"]})
                if rng.random() < 0.3:
                    plan["ops"].append(copy.deepcopy(plan["ops"][-1]))
        return plan

    # one world, with or without the adversary
    def play(self, plan, hostile, only=None):
        import random

        rng = random.Random(plan["seed"])
        adv = random.Random(plan["seed"] + 1)
        obs = []
        n_scr = 0

        def attack(o):
            nonlocal n_scr
            hit = rng.random() < plan["rate"]
            if hostile and hit:
                scramble(o, adv)
                n_scr += 1

        def call(name, args, fn):
            """fn() must not change args."""
            c = util.content(args)
            try:
                r = fn()
            except Exception as e:
                if hostile and util.content(args) != c:
                    raise Violation("a failing call modified its arguments: " + name)
                return ("raise", type(e).__name__, str(e)[:100]), None
            if hostile and util.content(args) != c:
                raise Violation("a call modified its arguments: " + name)
            return ("ok", util.norm(r) if r is not None and name != "new" else None), r

        kind = plan["kind"]
        if kind == "model":
            sp = plan["spec"]
            cls = gen.classes()[sp["cls"]]
            models, given = {}, None
            for k in range(2 if plan["twin"] else 1):
                pos, kw = gen.ctor_args(plan["specs"][k])
                if given:
                    # the very same argument objects
                    pos = given[0]
                    for a in kw:
                        if plan["specs"][k] == plan["specs"][0] or not a.startswith(("variogram", "nlags", "weight", "aniso")):
                            kw[a] = given[1][a]
                given = given or (pos, kw)
                if only is not None and k != only:
                    continue
                o, models[k] = call("new", [pos, kw], lambda: cls(*pos, **kw))
                if o[0] == "raise":
                    raise Rejected("cannot be built")
            attack(given[0])
            attack(given[1])
            attack(kw)
            for op in plan["ops"]:
                if only is not None and op["m"] != only:
                    continue
                m = models[op["m"]]
                if op["op"] == "query":
                    a = gen.query_args(sp, op["q"])
                    ob, res = call("execute", list(a), lambda: m.execute(*a[0], **a[1]))
                    obs.append((op["op"], ob))
                    attack(a[0])
                    attack(a[1])
                    if res is not None:
                        attack(list(res))
                elif op["op"] == "update":
                    k = gen.vario_kwargs(op["v"])
                    name = k.pop("variogram_model")
                    ob, _ = call("update_variogram_model", [k], lambda: m.update_variogram_model(name, **k))
                    obs.append((op["op"], ob))
                    attack(k)
                else:
                    w = world.World()
                    w.o[0], w.s[0] = m, sp
                    ob = w.run(dict(op, m=0))
                    if op["op"] == "stats" and ob[0] == "ok" and ob[1][0] is None:
                        ob = ("ok", None)
                    obs.append((op["op"], ob))
        elif kind == "wrapper":
            sp = plan["spec"]
            kws = world.wrapper_kwargs(sp)
            est = sp.get("est")

            def make():
                if sp["kind"] == "krige":
                    from pykrige.compat import Krige
                    return Krige(**kws)
                if sp["kind"] == "rk":
                    from pykrige.rk import RegressionKriging
                    e = world.regressor(est)
                    return RegressionKriging(**kws) if e is None else RegressionKriging(regression_model=e, **kws)
                from pykrige.ck import ClassificationKriging
                return ClassificationKriging(classification_model=world.classifier(est), **kws)

            objs = {k: make() for k in range(2 if plan["twin"] else 1) if only in (None, k)}

            def fit(o, d):
                x, y, p = np.array(d["x"], dtype=float), world.targets(sp, d["y"]), np.array(d["p"], dtype=float)
                args = [x, y] if sp["kind"] == "krige" else [p, x, y]
                ob, _ = call("fit", [args, kws], lambda: (o.fit(*args), None)[1])
                attack(args)
                return ob

            for o in objs.values():
                if fit(o, sp["data"])[0] == "raise":
                    raise Rejected("cannot be fitted")
            fits = [i for i, op in enumerate(plan["ops"]) if op["op"] == "fit"]
            last = fits[-1] if fits else -1
            for i, op in enumerate(plan["ops"]):
                if only is not None and op["m"] != only:
                    continue
                o = objs[op["m"]]
                if op["op"] == "fit":
                    obs.append((op["op"], fit(o, op["d"])))
                else:
                    x, p = np.array(op["at"]["x"], dtype=float), np.array(op["at"]["p"], dtype=float)
                    if op.get("dict"):
                        names = ["xpoints", "ypoints", "zpoints"][:x.shape[1]]
                        pts = {n: np.array(x[:, j]) for j, n in enumerate(names)}
                        args = [pts]
                        ob, res = call("execute", args, lambda: o.execute(pts))
                    else:
                        args = [x] if sp["kind"] == "krige" else [p, x]
                        ob, res = call("predict", args, lambda: o.predict(*args))
                    obs.append((op["op"], ob))
                    attack(args)
                    if res is not None:
                        attack(list(res) if isinstance(res, tuple) else res)
                if i >= last:
                    attack({k: v for k, v in kws.items() if isinstance(v, (list, dict, np.ndarray, tuple))} if False else
                           [v for k, v in kws.items() if isinstance(v, (list, dict, np.ndarray, tuple))])
        else:
            root = tempfile.mkdtemp(prefix="dst-c05-")
            try:
                import pykrige.kriging_tools as kt

                for op in plan["ops"]:
                    path = os.path.join(root, op["f"])
                    if op["op"] == "write":
                        g = op["g"]
                        x, y, z = world.grid_args(g)
                        args = [x, y, z]
                        if g["fmt"] == "zmap":
                            ob, _ = call("write", args, lambda: kt.write_zmap_grid(x, y, z, filename=path, no_data=g["no_data"], coord_sys=g["coord_sys"]))
                        else:
                            ob, _ = call("write", args, lambda: kt.write_asc_grid(x, y, z, filename=path, no_data=g["no_data"], style=int(g["fmt"][-1])))
                        obs.append((op["op"], ob))
                        attack(args)
                    else:
                        ob, res = call("read", [], lambda: list(world.read_grid(op["fmt"], path)))
                        obs.append((op["op"], ob))
                        if res is not None:
                            attack(res)
            finally:
                shutil.rmtree(root, ignore_errors=True)
        return obs, n_scr

    def calm(self, plan, only):
        with util.quiet():
            return self.play(plan, False, only)[0]

    def execute(self, plan, stats):
        if plan.get("twin"):
            # each object in a world of its own
            each = [iter(stats.clean.call(self.calm, plan, k)) for k in range(2)]
            want = [next(each[op["m"]]) for op in plan["ops"]]
        else:
            want = stats.clean.call(self.calm, plan, None)
        got, n = self.play(plan, True)
        stats.fault("scrambled", n)
        stats.nontrivial = int(n > 0 and bool(got))
        for k, ((o1, a), (o2, b)) in enumerate(zip(got, want)):
            stats.evals += 1
            stats.event(o1, util.rounded(a[1]) if a[0] == "ok" else a[1])
            d = util.same_obs(a, b)
            if d:
                raise Violation("answer changed after mutation of objects that crossed the interface: " + d, op=o1, index=k, kind=plan["kind"])


PROP = C05()
