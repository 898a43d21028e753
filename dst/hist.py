"""Histories: sequences of operations, some of which fail or are aborted.

Used by the properties that compare answers after a history (C04, C07, C08,
C17, C20).  A history is a list of operations; an operation may carry a
fault {unit, frac|at, exc} that aborts it."""
import copy

from . import gen, sim, util, world
from .kernel import Rejected

SYNC_EXC = {
    "calls": ["LinAlgError", "MemoryError", "ValueError"],
    "cbs": ["RuntimeError", "ValueError"],
    "linalg": ["LinAlgError", "MemoryError"],
    "stdout": ["OSError", "BrokenPipeError"],
    "point": ["KeyboardInterrupt", "MemoryError"],
}


def gen_fault(rng, units=("calls", "cbs", "linalg", "stdout", "point")):
    u = rng.choice(list(units))
    return {"unit": u, "frac": rng.random(), "exc": rng.choice(SYNC_EXC[u])}


def gen_history(rng, plan, n, kinds, p_fault=0.25, wrappers=True):
    """n operations on the objects of plan['models']; returns (ops, current settings per object).
    Settings follow the updates that succeed when nothing is aborted."""
    ops = []
    nm = len(plan["models"])
    for _ in range(n):
        m = rng.randrange(nm)
        sp = plan["models"][m]
        if "kind" in sp:
            k = rng.choice(["predict", "predict", "fit", "wset", "score"] if sp["kind"] == "krige" else ["predict", "predict", "fit", "score"])
            if sp["kind"] == "ck" and k == "score":
                k = "predict"
            if k == "predict":
                op = {"op": k, "m": m, "at": world.gen_where(rng, sp)}
            elif k == "wset":
                new = world.gen_wrapper(rng, sp["kind"], gstools=False)
                while new["cls"] != sp["cls"] or len(new["model"]["pts"]) != len(sp["model"]["pts"]):
                    new = world.gen_wrapper(rng, sp["kind"], gstools=False)
                op = {"op": k, "m": m, "w": new}
            else:
                d = world.next_data(rng, sp, cur_d(plan, ops, m))
                op = {"op": k, "m": m, "d": d}
        else:
            sp = cur_spec(plan, ops, m)
            op = world.gen_op(rng, m, sp, sp["v"], kinds)
        if rng.random() < p_fault and op["op"] in ("query", "update", "predict", "fit", "new"):
            op["fault"] = gen_fault(rng)
        ops.append(op)
    return ops


def cur_spec(plan, ops, m):
    """Model m after the ops (aborted ones count as not done: used only to
    generate sensible operations)."""
    s = plan["models"][m]
    for o in ops:
        if o.get("m") == m and "fault" not in o:
            if o["op"] == "new":
                s = o["spec"]
            elif o["op"] == "update":
                s = dict(s, v=o["v"])
    return s


def cur_v(plan, ops, m):
    return cur_spec(plan, ops, m)["v"]


def cur_d(plan, ops, m):
    d = plan["models"][m]["data"]
    for o in ops:
        if o["op"] == "fit" and o["m"] == m and "fault" not in o:
            d = o["d"]
    return d


def apply_fault(op, w, run, stats, async_ok=True):
    """Runs one operation with its fault; returns (observation, fired?)."""
    f = op["fault"]
    unit = f["unit"]
    if "at" not in f:
        if unit in ("point", "calls", "cbs"):
            f["at"] = util.in_child(lambda: sim.place(sim.count(lambda: run(op), call=True), unit, f["frac"]))
        elif unit == "linalg":
            f["at"] = int(f["frac"] * 3)
        else:
            f["at"] = 1 + int(f["frac"] * 4)
    box = {}

    def go():
        box["obs"] = run(op)

    n0 = len(stats.fired)
    if unit == "linalg":
        with sim.linalg_fault(f["at"], f["exc"], stats):
            go()
    elif unit == "stdout":
        o = w.o[op["m"]]
        had = getattr(o, "verbose", None)
        if hasattr(o, "switch_verbose") and not had:
            o.switch_verbose()
        fs = sim.FailingStream(f["at"], f["exc"], stats)
        with sim.stdout(fs):
            go()
        if hasattr(o, "switch_verbose") and not had:
            o.switch_verbose()
        if fs.fired:
            stats.fired.append({"stdout": f["at"], "exc": f["exc"]})
    else:
        sim.run_tasks([go], None, stats, [{"task": 0, "unit": unit, "at": f["at"], "exc": f["exc"]}], call=True)
    return box["obs"], len(stats.fired) > n0


class Runner:
    """Executes a history on a world, tracking what the settings must now be."""

    def __init__(self, plan, stats, root=None):
        self.plan, self.stats = plan, stats
        self.w = world.World(root)
        self.unsure = set()      # objects whose state is one of two (aborted asynchronously)
        self.specs = [copy.deepcopy(s) for s in plan["models"]]
        self.dirty = {}          # wrapper without a completed fit
        for k, s in enumerate(plan["models"]):
            self.w.make(k, s)
            self.dirty[k] = False

    def do(self, op):
        w = self.w
        if op["op"] == "wset":
            w.o[op["m"]].set_params(**world.wrapper_kwargs(op["w"]))
            new = dict(op["w"])
            new["data"] = self.specs[op["m"]]["data"]
            self.specs[op["m"]] = new
            self.dirty[op["m"]] = True
            return None
        return w.do(op)

    def step(self, op):
        """Runs one op; returns its observation."""
        m = op.get("m")
        run = lambda o: util.observe(lambda: self.do(o))
        if "fault" in op:
            obs, fired = apply_fault(op, self.w, run, self.stats)
        else:
            obs, fired = run(op), False
        if fired:
            self.stats.probe("aborted:" + op["op"])
        self.stats.probe("op:%s%s" % (op["op"], ":raised" if obs[0] == "raise" else ""))
        if op["op"] == "update":
            if obs[0] == "ok":
                self.specs[m] = dict(self.specs[m], v=op["v"])
                self.unsure.discard(m)
            elif fired and op["fault"]["unit"] == "point":
                # interrupted between two source lines: old or new settings are both right
                self.unsure.add(m)
        if op["op"] == "new" and obs[0] == "ok":
            self.specs[m] = copy.deepcopy(op["spec"])
            self.unsure.discard(m)
        if op["op"] == "bad_new" and obs[0] == "ok":
            raise Rejected("a construction meant to be refused succeeded")
        if op["op"] == "bad_update" and obs[0] == "ok":
            raise Rejected("an update meant to be refused was accepted")
        if op["op"] == "fit":
            if obs[0] == "ok":
                self.specs[m] = dict(self.specs[m], data=op["d"])
                self.dirty[m] = False
            else:
                self.dirty[m] = True
        return obs


def no_stats(obs):
    """Statistics that were never computed (enable_statistics off in the constructor)."""
    return obs[0] == "ok" and obs[1][0] is None


def fresh_answers(jobs):
    """jobs: (spec, op) pairs; each op answered by an object freshly built from spec.
    Statistics are always computed by the fresh object: whether an object computes
    them is a matter of its options, what they are is not."""
    out = []
    with util.quiet():
        for spec, op in jobs:
            w = world.World()
            if op["op"] == "stats" and spec["cls"] == "ok":
                spec = dict(spec, kw=dict(spec["kw"], enable_statistics=True))
            try:
                w.make(op["m"], spec)
            except Exception as e:
                out.append(("unbuildable", repr(e)))
                continue
            out.append(w.run(op))
    return out


def clean_answers(clean, jobs):
    """As fresh_answers, each answer by a process that never did anything else."""
    return [clean.call(fresh_answers, [j])[0] for j in jobs]


def gen_probe(rng, spec, m, past=None):
    """A call whose answer is compared; past: an earlier query of the same object."""
    if "kind" in spec:
        return {"op": "predict", "m": m, "at": world.gen_where(rng, spec)}
    if past is not None and rng.random() < 0.15:
        return world.gen_strip(rng, m, past)
    return world.gen_op(rng, m, spec, spec["v"], ["query", "query", "query", "stats", "vpoints"])
