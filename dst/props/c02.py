"""C02: an aborted query leaves no trace."""
import copy

from .. import gen, kernel, sim, util, world
from ..base import Prop
from ..kernel import Rejected, Violation

EXC = {
    "point": ["KeyboardInterrupt", "MemoryError", "RuntimeError", "SystemExit"],
    "calls": ["LinAlgError", "MemoryError", "ValueError", "FloatingPointError", "KeyboardInterrupt"],
    "cbs": ["RuntimeError", "ValueError", "ZeroDivisionError", "KeyboardInterrupt"],
    "linalg": ["LinAlgError", "MemoryError"],
    "stdout": ["OSError", "BrokenPipeError"],
}


def inner(o):
    """The kriging models behind a model or a wrapper."""
    if hasattr(o, "switch_verbose"):
        return [o]
    ks = getattr(o, "krige", None)
    ks = ks if isinstance(ks, (list, tuple)) else [o if ks is None else ks]
    return [k.model for k in ks if hasattr(getattr(k, "model", None), "switch_verbose")]


def switches(o):
    """The public switches of those."""
    return [(getattr(k, "verbose", None), getattr(k, "enable_plotting", None)) for k in inner(o)]


class C02(Prop):
    id = "C02"
    runs = {"quick": 3000, "thorough": 60000}
    deadline = {"quick": 150, "thorough": 1500}
    rule = ("a case is: one or two models (any class, variogram, drift) or wrappers, one to three queries or constructions of another model each aborted by a fault at a seeded "
            "position (source line, library call, user callback, linear algebra call of the compiled backend, or write to the output stream), and later "
            "queries and diagnostics compared with a world in which the aborted queries never happened; non-trivial when at least one fault struck inside a query")
    assumptions = ["faults surface at source-line, call, callback and I/O boundaries of the package's Python code; the compiled code can fail only where it calls back into Python (linear algebra, argument access)",
                   "values are compared to 1e-7 of their scale"]

    def generate(self, rng, tier, i):
        plan = {"models": []}
        nm = rng.choice([1, 1, 2])
        for k in range(nm):
            if k and rng.random() < 0.5 and not (plan["models"][0].get("kind") and plan["models"][0].get("est") == "default"):
                plan["models"].append(world.sibling(rng, plan["models"][0]))
            elif rng.random() < 0.2:
                plan["models"].append(world.gen_wrapper(rng, rng.choice(["krige", "rk", "ck"]), sim=True))
            else:
                plan["models"].append(gen.gen_model(rng))
        ab = []
        for _ in range(rng.randint(1, 3)):
            m = rng.randrange(nm)
            sp = plan["models"][m]
            if "kind" in sp:
                op = {"op": "predict", "m": m, "at": world.gen_where(rng, sp)}
                units = ["point", "point", "calls", "cbs", "linalg", "stdout"]
            else:
                op = {"op": "query", "m": m, "q": gen.gen_query(rng, sp)}
                if rng.random() < 0.12:
                    op = {"op": rng.choice(["plot_vario", "plot_eps", "print_stats", "vpoints"]), "m": m}
                units = ["point", "point", "calls", "calls", "cbs", "linalg", "stdout"]
                if rng.random() < 0.15:
                    # another object whose construction does not complete
                    op = {"op": "new", "m": "new", "spec": gen.sibling(rng, sp) if rng.random() < 0.7 else gen.gen_model(rng)}
                    units = ["point", "point", "calls", "cbs", "linalg"]
            u = rng.choice(units)
            ab.append({"op": op, "verbose": u == "stdout" or rng.random() < 0.15,
                       "fault": {"unit": u, "frac": rng.random(), "exc": rng.choice(EXC[u])}})
        plan["ops"] = ab
        after = []
        for _ in range(rng.randint(2, 4)):
            m = rng.randrange(nm)
            sp = plan["models"][m]
            if "kind" in sp:
                after.append({"op": "predict", "m": m, "at": world.gen_where(rng, sp)})
            else:
                after.append(world.gen_op(rng, m, sp, sp["v"], ["query", "query", "query", "stats", "vpoints"]))
        new = [a["op"] for a in ab if a["op"]["op"] == "new"]
        if new:
            sp = copy.deepcopy(new[-1]["spec"]) if rng.random() < 0.7 else gen.sibling(rng, new[-1]["spec"])
            after.append({"op": "new", "m": "new", "spec": sp})
            after += [world.gen_op(rng, "new", sp, sp["v"], ["query", "query", "stats", "vpoints"]) for _ in range(2)]
        # a repetition of an aborted query is the most sensitive probe
        if ab[-1]["op"]["op"] != "new":
            after.append(copy.deepcopy(ab[-1]["op"]))
        plan["after"] = after
        return plan

    def shrink_lists(self, plan):
        return [("ops",), ("after",)]

    def build(self, plan):
        w = world.World()
        for k, sp in enumerate(plan["models"]):
            w.make(k, sp)
        return w

    def baseline(self, plan):
        with util.quiet():
            w = self.build(plan)
            return [w.run(op) for op in plan["after"]]

    def place(self, plan, k):
        """Where the k-th aborted operation is aborted."""
        with util.quiet():
            w = self.build(plan)
            a = plan["ops"][k]
            if a["verbose"] and a["op"]["op"] != "new":
                self.verbose(w, a["op"]["m"])
            return sim.place(sim.count(lambda: w.run(a["op"]), call=True), a["fault"]["unit"], a["fault"]["frac"])

    def verbose(self, w, m):
        for o in inner(w.o[m]):
            o.switch_verbose()

        def back():
            for o in inner(w.o[m]):
                o.switch_verbose()

        return back

    def execute(self, plan, stats):
        try:
            base = util.in_child(self.baseline, plan)
        except RuntimeError as e:
            raise Rejected("world cannot be built: " + str(e)[-200:])
        w = self.build(plan)
        ops = []
        for k, a in enumerate(plan["ops"]):
            a = dict(a)
            f = dict(a["fault"])
            unit = f["unit"]
            restore = self.verbose(w, a["op"]["m"]) if a["verbose"] and a["op"]["op"] != "new" else (lambda: None)
            if "at" not in f:
                if unit in ("point", "calls", "cbs"):
                    f["at"] = util.in_child(self.place, plan, k)
                elif unit == "linalg":
                    f["at"] = int(f["frac"] * 3)
                else:
                    f["at"] = 1 + int(f["frac"] * 4)
            a["fault"] = f
            ops.append(a)
            before = util.process_state()
            sw = {k: switches(o) for k, o in w.o.items()}
            box = {}
            if a["op"]["op"] != "query" or "kind" in w.s[a["op"]["m"]]:
                def go(a=a):
                    box["obs"] = w.run(a["op"])
                args = None
            else:
                sp = w.s[a["op"]["m"]]
                args = gen.query_args(sp, a["op"]["q"])
                c0 = util.content(args)

                def go(a=a, args=args, m=w.o[a["op"]["m"]]):
                    box["obs"] = util.observe(lambda: list(m.execute(*args[0], **args[1])))
            faults = [{"task": 0, "unit": unit, "at": f["at"], "exc": f["exc"]}] if unit in ("point", "calls", "cbs") else []
            n0 = len(stats.fired)
            if unit == "linalg":
                with sim.linalg_fault(f["at"], f["exc"], stats):
                    sim.run_tasks([go], None, stats, faults, call=True)
            elif unit == "stdout":
                fs = sim.FailingStream(f["at"], f["exc"], stats)
                with sim.stdout(fs):
                    sim.run_tasks([go], None, stats, faults, call=True)
                    util.check(__import__("sys").stdout is fs, "sys.stdout was replaced by an aborted query")
                if fs.fired:
                    stats.fired.append({"stdout": f["at"], "exc": f["exc"]})
            else:
                sim.run_tasks([go], None, stats, faults, call=True)
            if len(stats.fired) > n0:
                stats.nontrivial = 1
                stats.probe("aborted:" + a["op"]["op"])
                if box["obs"][0] == "ok":
                    stats.probe("fault absorbed")
            stats.event(a["op"]["op"], unit, f["at"], box["obs"][0], box["obs"][1] if box["obs"][0] == "raise" else None)
            d = util.state_diff(before, util.process_state())
            stats.evals += 1
            if d:
                stats.record = {"ops": ops}
                raise Violation("aborted query changed process-wide state", what=d, fault=stats.fired[n0:], op=a["op"]["op"])
            if args is not None and util.content(args) != c0:
                raise Violation("aborted query changed its arguments", fault=stats.fired[n0:])
            if any(switches(w.o[k]) != b for k, b in sw.items()):
                stats.record = {"ops": ops}
                raise Violation("aborted query left a switch of a model changed", fault=stats.fired[n0:], op=a["op"]["op"])
            restore()
            if a["op"]["op"] == "new":
                for t in (w.o, w.s, w.v):
                    t.pop("new", None)
        stats.record = {"ops": ops + plan["ops"][len(ops):]}
        for op, want in zip(plan["after"], base):
            got = w.run(op)
            stats.evals += 1
            stats.event(op["op"], util.rounded(got[1]) if got[0] == "ok" else got[1])
            d = util.same_obs(got, want)
            if d:
                raise Violation("later answer differs after an aborted query: " + d, op=op["op"], model=op["m"], faults=stats.fired)


PROP = C02()
