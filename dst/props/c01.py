"""C01: concurrent callers never disturb each other."""
import os
import shutil
import tempfile

from .. import gen, sim, util, world
from ..base import Prop
from ..kernel import Rejected, Violation


def gen_sched(rng):
    r = rng.random()
    if r < 0.55:
        return {"mode": "rand", "seed": rng.getrandbits(32), "p": rng.choice([0.003, 0.02, 0.1, 0.3, 0.6])}
    if r < 0.75:
        return {"mode": "pct", "seed": rng.getrandbits(32), "fracs": [rng.random() for _ in range(rng.randint(1, 5))]}
    # at some of the places in the source that a task passes
    return {"mode": "at", "seed": rng.getrandbits(32), "fracs": [[rng.random(), rng.random()] for _ in range(rng.randint(1, 8))]}


def concrete_sched(s, counts, repeat=1):
    if s["mode"] == "at" and "fracs" in s:
        out = []
        for a, b in s["fracs"]:
            t = int(a * len(counts))
            r = int(b * 1000003) % repeat
            out.append([t, sim.place(counts[t], "point", 0.5 + b / 2) + r * counts[t]["point"]])
        return {"mode": "at", "seed": s["seed"], "places": out}
    total = max(1, repeat * sum(c["point"] for c in counts))
    if s["mode"] == "pct" and "fracs" in s:
        return {"mode": "pct", "seed": s["seed"], "change": sorted({1 + int(f * total) for f in s["fracs"]})}
    return s


class C01(Prop):
    id = "C01"
    runs = {"quick": 2000, "thorough": 40000}
    deadline = {"quick": 150, "thorough": 1800}
    rule = ("a case is one to three shared models or wrappers and two to four tasks of one to four calls (queries of the shared objects with any backend, "
            "diagnostics, building, updating, fitting and querying of own objects, reading and writing of grid files, re-entrant queries from inside a variogram "
            "function) run under a seeded schedule that preempts at source lines or at single bytecode instructions; every call is compared with the same task "
            "running alone; non-trivial when at least one preemption took place between two tasks")
    assumptions = ["preemption happens between bytecode instructions of the package's own code; calls into numpy, scipy and the compiled extension are atomic",
                   "values are compared to 1e-7 of their scale"]

    def generate(self, rng, tier, i):
        plan = {"shared": [], "tasks": []}
        reent = rng.random() < 0.15
        for k in range(rng.choice([1, 1, 2, 2, 3])):
            if k and rng.random() < 0.35:
                plan["shared"].append(world.sibling(rng, rng.choice(plan["shared"])))
            elif rng.random() < 0.2:
                plan["shared"].append(world.gen_wrapper(rng))
            elif reent and k == 0:
                m = gen.gen_model(rng, "ok", geo=False)
                plan["shared"].append(m)
            else:
                plan["shared"].append(gen.gen_model(rng))
        if reent:
            m = gen.gen_model(rng, rng.choice(["ok", "uk", "ok3d"]), geo=False, pinv=False)
            m["v"] = {"nlags": 6, "weight": False, "model": "custom", "func": "c_reent", "params": {"list": [1.5, 3.0, 0.1]}}
            plan["shared"].append(m)
            s0 = plan["shared"][0]
            plan["reenter"] = self.call(rng, 0, s0)
            # within the outer call the caller does not touch its arguments
            plan["reenter"].get("q", {}).pop("buf", None)
        files = rng.random() < 0.2
        twin = rng.random() < 0.3
        for t in range(rng.choice([2, 2, 2, 3, 4])):
            ops = []
            for _ in range(rng.randint(1, 3)):
                r = rng.random()
                if files and r < 0.4:
                    g = world.gen_grid(rng)
                    f = "t%d" % t
                    ops.append({"op": "write", "g": g, "f": f})
                    if rng.random() < 0.7:
                        ops.append({"op": "read", "fmt": g["fmt"], "f": f})
                elif r < 0.72:
                    k = rng.randrange(len(plan["shared"]))
                    ops.append(self.call(rng, k, plan["shared"][k]))
                else:
                    own = "own%d_%d" % (t, len(ops))
                    if rng.random() < 0.3:
                        sp = world.gen_wrapper(rng)
                        ops.append({"op": "new", "m": own, "spec": sp})
                        ops.append({"op": "predict", "m": own, "at": world.gen_where(rng, sp)})
                    else:
                        near = [x for x in plan["shared"] if "kind" not in x and x["v"].get("func") != "c_reent"]
                        sp = gen.sibling(rng, rng.choice(near)) if near and rng.random() < 0.35 else gen.gen_model(rng)
                        v = sp["v"]
                        ops.append({"op": "new", "m": own, "spec": sp})
                        if rng.random() < 0.6:
                            v = gen.next_vario(rng, sp, v)
                            ops.append({"op": "update", "m": own, "v": v})
                        ops.append(world.gen_op(rng, own, sp, v, ["query", "query", "stats", "vpoints"]))
            plan["tasks"].append({"ops": ops})
        if twin and not files:
            # the same call on the same object at the same time, with different arguments
            k = rng.randrange(len(plan["shared"]))
            for t in plan["tasks"]:
                t["ops"] = [self.call(rng, k, plan["shared"][k]) for _ in range(rng.randint(1, 2))]
        plan["probe"] = [self.call(rng, k, s) for k, s in enumerate(plan["shared"])]
        plan["instr"] = rng.random() < 0.12
        plan["sched"] = gen_sched(rng)
        return plan

    def call(self, rng, k, sp):
        if "kind" in sp:
            return {"op": "predict", "m": k, "at": world.gen_where(rng, sp)}
        return world.gen_op(rng, k, sp, sp["v"], ["query"] * 8 + ["stats", "vpoints", "print_stats", "bad_query"])

    def build(self, plan, root):
        w = world.World(root)
        gen.REENTER.clear()
        for k, sp in enumerate(plan["shared"]):
            w.make(k, sp)
        if plan.get("reenter"):
            gen.REENTER.append(lambda: w.run(plan["reenter"]))
        return w

    def alone(self, plan, t, root):
        """Task t alone in a fresh world: observations and number of points."""
        with util.quiet():
            w = self.build(plan, root)
            out = []
            n = sim.count(lambda: out.extend(w.run(op) for op in plan["tasks"][t]["ops"]), instr=plan["instr"])
            return out, n

    def probes(self, plan, root):
        with util.quiet():
            w = self.build(plan, root)
            return [w.run(op) for op in plan["probe"]]

    def execute(self, plan, stats):
        dirs = []

        def scratch():
            dirs.append(tempfile.mkdtemp(prefix="dst-c01-"))
            return dirs[-1]

        try:
            self.execute_in(plan, stats, scratch)
        finally:
            for d in dirs:
                shutil.rmtree(d, ignore_errors=True)

    def execute_in(self, plan, stats, scratch):
        base, counts = [], []
        try:
            for t in range(len(plan["tasks"])):
                o, n = util.in_child(self.alone, plan, t, scratch())
                base.append(o)
                counts.append(n)
            want_probe = util.in_child(self.probes, plan, scratch())
        except RuntimeError as e:
            raise Rejected("world cannot be built: " + str(e)[-300:])
        w = self.build(plan, scratch())
        got = [[] for _ in plan["tasks"]]

        def task(t):
            def go():
                for op in plan["tasks"][t]["ops"]:
                    got[t].append(w.run(op))
            return go

        before = util.process_state()
        k = None
        try:
            sched = concrete_sched(plan["sched"], counts)
            from ..kernel import Kernel
            k = sim.run_tasks([task(t) for t in range(len(plan["tasks"]))], sched, stats, instr=plan["instr"])
        finally:
            pass
        stats.record = {"sched": {"mode": "explicit", "switches": k.record}}
        stats.nontrivial = int(len(k.record) > len(plan["tasks"]))
        stats.fault("preemption", max(0, len(k.record) - len(plan["tasks"])))
        stats.fault("task-interleaving:" + plan["sched"]["mode"])
        for t, ops in enumerate(plan["tasks"]):
            for j, op in enumerate(ops["ops"]):
                stats.evals += 1
                stats.event(t, j, op["op"], util.rounded(got[t][j][1]) if got[t][j][0] == "ok" else got[t][j][1])
                stats.probe("op:" + op["op"])
                d = util.same_obs(got[t][j], base[t][j])
                if d:
                    raise Violation("concurrent call answered differently than alone: " + d, task=t, call=j, op=op["op"], model=op.get("m"))
        d = util.state_diff(before, util.process_state(), world.rng_users(plan))
        if d:
            raise Violation("concurrent calls left process-wide state changed", what=d)
        for op, want in zip(plan["probe"], want_probe):
            a = w.run(op)
            stats.evals += 1
            d = util.same_obs(a, want)
            if d:
                raise Violation("shared object answers differently after concurrent calls: " + d, op=op["op"], model=op["m"])


PROP = C01()
