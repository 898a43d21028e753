"""C17: process-wide state is left alone."""
import os
import shutil
import tempfile

import numpy as np

from .. import fs, gen, hist, sim, util, world
from ..base import Prop
from ..kernel import Rejected, SimKill, Violation
from .c01 import gen_sched

EXC = ["KeyboardInterrupt", "MemoryError", "SystemExit", "RuntimeError", "LinAlgError", "FloatingPointError"]


def lib_call(how, seed):
    """Small calls of the package's helper functions."""
    import random

    import pykrige.core as core
    import pykrige.kriging_tools as kt
    import pykrige.variogram_models as vm

    r = random.Random(seed)
    a = np.array([r.uniform(-100, 100) for _ in range(6)])
    if how == "gcd":
        return core.great_circle_distance(a[:2] * 3, a[2:4] * 0.8, a[4:6], a[:2] * 0.1)
    if how == "e2g":
        return core.euclid3_to_great_circle(np.abs(a) / 60.0)
    if how == "models":
        d = np.abs(a)
        return [vm.spherical_variogram_model([2.0, 30.0, 0.1], d), vm.hole_effect_variogram_model([2.0, 30.0, 0.1], d), vm.power_variogram_model([1.0, 1.2, 0.0], d)]
    if how == "mistake":
        return [core.great_circle_distance("a", 1, 2, 3), vm]
    return kt


class C17(Prop):
    id = "C17"
    runs = {"quick": 2500, "thorough": 40000}
    deadline = {"quick": 150, "thorough": 1500}
    rule = ("a case is one to three models, wrappers and grid files and two to eight public calls (building, updating, querying with every backend, diagnostics, plots, verbose output, "
            "fits, predictions, scores, file access, refused calls), in sequence or as interleaved tasks, of which some are aborted at a seeded source line, library call, user callback, "
            "linear-algebra call, console write or disk operation; the process-wide state is compared before and after every call or group of interleaved calls; "
            "non-trivial when a call was aborted, refused or interleaved")
    assumptions = ["the figures of matplotlib and the state of third-party estimators are theirs", "state that a call changes and restores before it returns is not judged"]

    def setup(self):
        fs.prepare_locales()

    def generate(self, rng, tier, i):
        plan = {"models": [], "groups": []}
        if rng.random() < 0.3:
            plan["locale"] = rng.choice(fs.LOCALES)
        nm = rng.randint(1, 3)
        for _ in range(nm):
            if rng.random() < 0.3:
                w = world.gen_wrapper(rng)
                plan["models"].append(w)
            else:
                plan["models"].append(gen.gen_model(rng))
        conc = rng.random() < 0.35
        for _ in range(rng.randint(2, 6)):
            if conc and rng.random() < 0.5:
                tasks = [[self.op(rng, plan, True, own=t)[0]] for t in range(rng.randint(2, 3))]
                g = {"tasks": tasks, "sched": {"mode": "rand", "seed": rng.getrandbits(32), "p": rng.choice([0.02, 0.1, 0.4])}, "faults": []}
                for t in range(len(tasks)):
                    if rng.random() < 0.4:
                        g["faults"].append({"task": t, "unit": rng.choice(["point", "point", "calls"]), "at": 1 + int(10 ** rng.uniform(0, 2.6)), "exc": rng.choice(EXC)})
                plan["groups"].append(g)
            else:
                op, _ = self.op(rng, plan, False)
                if rng.random() < 0.45:
                    op["fault"] = hist.gen_fault(rng)
                    if op["fault"]["unit"] == "point":
                        op["fault"]["exc"] = rng.choice(EXC)
                if op["op"] in ("write", "read"):
                    op.pop("fault", None)
                    f = []
                    if rng.random() < 0.6:
                        f = [{"op": rng.choice(["write", "write", "read", "close", "open", "flush"]), "n": rng.choice([0, 0, 1, 2, 5]), "what": rng.choice(["ENOSPC", "EIO"]), "keep": rng.random()}]
                    op["disk"] = fs.gen_disk(rng, f)
                plan["groups"].append({"tasks": [[op]]})
        return plan

    def op(self, rng, plan, conc, own=0):
        r = rng.random()
        if r < 0.12:
            return {"op": "new", "m": "own%d" % own, "spec": gen.gen_model(rng) if rng.random() < 0.6 else world.gen_wrapper(rng)}, None
        if r < 0.25:
            if rng.random() < 0.5:
                return {"op": "write", "g": world.gen_grid(rng, big=0.0), "f": "f%d" % own, "bad": rng.random() < 0.2}, None
            return {"op": "read", "f": "r%d" % rng.randrange(3), "fmt": rng.choice(["asc1", "zmap"])}, None
        if r < 0.3:
            return {"op": "lib", "how": rng.choice(["gcd", "e2g", "models", "mistake"]), "seed": rng.getrandbits(16)}, None
        m = rng.randrange(len(plan["models"]))
        s = plan["models"][m]
        if "kind" in s:
            k = rng.choice(["predict", "predict", "fit", "score"])
            if k == "predict":
                return {"op": k, "m": m, "at": world.gen_where(rng, s)}, s
            return {"op": k, "m": m, "d": world.gen_data(rng, s)}, s
        kinds = ["query", "query", "query", "bad_query", "stats", "vpoints", "print_stats"]
        if not conc:
            kinds += ["update", "update", "bad_update", "plot_vario", "plot_eps", "sw_verbose", "sw_plot"]
        return world.gen_op(rng, m, s, s["v"], kinds), s

    def do(self, w, op):
        if op["op"] == "lib":
            return util.observe(lambda: lib_call(op["how"], op["seed"]))
        if op["op"] == "write" and op.get("bad"):
            g = dict(op["g"], no_data="none")
            return util.observe(lambda: world.write_grid(g, w.path(op["f"])))
        if op["op"] in ("write", "read") and "disk" in op:
            def go():
                with fs.on_disk(w.root, op["disk"], self.stats):
                    return w.do(op)
            return util.observe(go)
        return w.run(op)

    def execute(self, plan, stats):
        root = tempfile.mkdtemp(prefix="dst-c17-")
        try:
            with fs.in_locale(plan.get("locale"), stats):
                self.inside(plan, stats, root)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def inside(self, plan, stats, root):
        self.stats = stats
        ign = world.rng_users(plan)
        w = world.World(root)
        for i, text in enumerate(["NCOLS 2\nNROWS 2\nXLLCENTER 0\nYLLCENTER 0\nCELLSIZE 1\nNODATA_VALUE -1\n1 2\n3 4\n", "NCOLS x\n", "!\n@f, GRID, 4\n15, -1, , 1, 1\n"]):
            with open(os.path.join(root, "r%d" % i), "w") as f:
                f.write(text)
        first = util.process_state()
        for k, s in enumerate(plan["models"]):
            try:
                w.make(k, s)
            except Exception as e:
                raise Rejected("cannot be built: %r" % e)
        self.compare(first, util.process_state(), ign, stats, "building", plan)
        import matplotlib.pyplot as plt

        for gi, g in enumerate(plan["groups"]):
            before = util.process_state()
            names = [o["op"] for t in g["tasks"] for o in t]
            if len(g["tasks"]) == 1:
                for op in g["tasks"][0]:
                    if op.get("fault"):
                        run = lambda o: self.do(w, o)
                        f = op["fault"]
                        if f["unit"] == "stdout" and not hasattr(w.o.get(op.get("m")), "switch_verbose"):
                            f["unit"], f["exc"] = "point", "KeyboardInterrupt"
                        ob, fired = hist.apply_fault(op, w, run, stats)
                        stats.nontrivial |= int(fired)
                        stats.probe("%s%s" % (op["op"], ":aborted" if fired else ""))
                    else:
                        ob = self.do(w, op)
                        stats.nontrivial |= int(ob[0] == "raise")
                        stats.probe("%s%s" % (op["op"], ":raised" if ob[0] == "raise" else ""))
                    stats.event(op["op"], ob[0], ob[1] if ob[0] == "raise" else None)
            else:
                out = [[] for _ in g["tasks"]]

                def task(t):
                    def go():
                        for op in g["tasks"][t]:
                            out[t].append(self.do(w, op))
                    return go

                k = sim.run_tasks([task(t) for t in range(len(g["tasks"]))], g["sched"], stats, [dict(f) for f in g["faults"]], call=True)
                g["sched"] = {"mode": "explicit", "switches": k.record}
                stats.nontrivial = 1
                stats.probe("interleaved")
                for t, obs in enumerate(out):
                    for ob in obs:
                        stats.event(t, ob[0], ob[1] if ob[0] == "raise" else None)
            plt.close("all")
            stats.evals += 1
            self.compare(before, util.process_state(), ign, stats, "+".join(names), plan, gi)

    def compare(self, a, b, ign, stats, name, plan, gi=None):
        d = util.state_diff(a, b, ign)
        if d:
            raise Violation("process-wide state changed by: " + name, what=d[:5], group=gi, faults=[o.get("fault") for g in plan["groups"][:1 + (gi or 0)] for t in g["tasks"] for o in t if o.get("fault")])


PROP = C17()
