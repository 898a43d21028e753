"""Base of the property modules."""
import copy


class Prop:
    id = "?"
    runs = {"quick": 300, "thorough": 6000}
    deadline = {"quick": 150, "thorough": 1500}
    rule = ""
    real = ["pykrige (all Python modules, unmodified)", "pykrige.lib.cok and pykrige.lib.variogram_models (compiled from the tree)", "numpy, scipy, scikit-learn, gstools"]
    stubs = []
    assumptions = []
    clean = False      # the run needs a process that was forked before it began (stats.clean)

    def setup(self):
        pass

    def describe(self, plan):
        return plan

    def shrink_lists(self, plan):
        out = []
        for k in ("ops", "tasks", "faults"):
            if isinstance(plan.get(k), list):
                out.append((k,))
        for i, t in enumerate(plan.get("tasks") or []):
            if isinstance(t, dict) and isinstance(t.get("ops"), list):
                out.append(("tasks", i, "ops"))
        s = plan.get("sched")
        if isinstance(s, dict) and s.get("mode") == "explicit":
            out.append(("sched", "switches"))
        return out

    def simplify(self, plan):
        return []

    def thin(self, plan, keys):
        for k in keys:
            if k in plan:
                p = copy.deepcopy(plan)
                p.pop(k)
                yield p
