"""C04: answers depend only on the data and the latest settings."""
import random

from .. import gen, hist, util, world
from ..base import Prop
from ..kernel import Rejected, Violation

KINDS = ["query", "query", "update", "update", "update", "bad_query", "bad_update", "stats", "vpoints", "print_stats", "plot_vario", "plot_eps", "sw_verbose", "sw_plot", "new"]


class C04(Prop):
    id = "C04"
    runs = {"quick": 2400, "thorough": 50000}
    deadline = {"quick": 150, "thorough": 1500}
    clean = True
    rule = ("a case is one to three objects (all classes, variograms, drifts, wrappers) and a history of 3-9 operations on them, a quarter of which are aborted by "
            "injected faults, with answers probed during and after it and compared with freshly built objects; non-trivial when the history contains a successful "
            "update, refit or parameter change before a judged answer")
    assumptions = ["an update interrupted asynchronously between two source lines may leave the old or the new settings; C03 decides that case",
                   "values are compared to 1e-7 of their scale"]

    def generate(self, rng, tier, i):
        plan = {"models": []}
        for _ in range(rng.choice([1, 1, 2, 3])):
            if plan["models"] and rng.random() < 0.5:
                plan["models"].append(world.sibling(rng, rng.choice(plan["models"])))
            elif rng.random() < 0.25:
                plan["models"].append(world.gen_wrapper(rng))
            else:
                plan["models"].append(gen.gen_model(rng))
        plan["ops"] = hist.gen_history(rng, plan, rng.randint(3, 9), KINDS, 0.2)
        plan["pseed"] = rng.getrandbits(32)
        return plan

    def execute(self, plan, stats):
        try:
            r = hist.Runner(plan, stats)
        except Exception as e:
            raise Rejected("world cannot be built: %r" % e)
        rng = random.Random(plan["pseed"])
        jobs, got = [], []
        changed = set()
        past = {}
        for n, op in enumerate(plan["ops"]):
            obs = r.step(op)
            stats.event(n, op["op"], obs[0])
            if obs[0] == "ok" and op["op"] in ("update", "fit", "new"):
                changed.add(op["m"])
            if op["op"] == "query":
                past[op["m"]] = op["q"]
            elif op["op"] == "new":
                past.pop(op["m"], None)
            last = n == len(plan["ops"]) - 1
            for m, sp in enumerate(r.specs):
                # the generator is consumed in the same way whatever happens
                probe = hist.gen_probe(rng, sp, m, past.get(m))
                take = rng.random() < 0.4 or last
                if not take or m in r.unsure or r.dirty[m]:
                    continue
                jobs.append((sp, probe))
                got.append((n, r.w.run(probe)))
                if m in changed:
                    stats.nontrivial = 1
        stats.record = {"ops": plan["ops"]}
        want = hist.clean_answers(stats.clean, jobs)
        for (sp, probe), (n, a), b in zip(jobs, got, want):
            if b[0] == "unbuildable":
                raise Violation("a state was reached that cannot be built: " + b[1])
            if probe["op"] == "stats" and hist.no_stats(a):
                continue
            stats.evals += 1
            stats.event(probe["op"], util.rounded(a[1]) if a[0] == "ok" else a[1])
            d = util.same_obs(a, b)
            if d:
                raise Violation("answer differs from a freshly built object: " + d, after_op=n, probe=probe["op"], model=probe["m"], history=[o["op"] for o in plan["ops"][:n + 1]])


PROP = C04()
