"""C09: a grid file reads back as written."""
import os
import shutil
import tempfile

import numpy as np

from .. import fs, kernel, sim, util, world
from ..base import Prop
from ..kernel import Violation

NAMES = ["out", "grid.asc", "a.b.zmap", "with space", "däta"]


def check_grid(g, res, **detail):
    """Compares what was read with what was written; raises Violation."""
    v, tol, x, y, (dx, dy), nd = world.expected_grid(g)
    z, gx, gy, cell, no = res[:5]

    def bad(what, **k):
        raise Violation("grid file does not read back as written: " + what, fmt=g["fmt"], nx=g["nx"], ny=g["ny"], **dict(detail, **k))

    z, gx, gy = np.asarray(z), np.asarray(gx), np.asarray(gy)
    if z.shape != v.shape:
        bad("shape", got=z.shape, want=v.shape)
    if gx.shape != x.shape or gy.shape != y.shape:
        bad("number of coordinates", got=[gx.shape, gy.shape])
    for a, b, n in ((gx, x, "x"), (gy, y, "y")):
        if not np.all(np.abs(a - b) <= 1e-9 * np.maximum(1.0, np.abs(b).max())):
            bad("%s coordinates" % n, got=a.tolist(), want=b.tolist())
    c = np.broadcast_to(np.asarray(cell, dtype=float), (2,))
    if not np.all(np.abs(c - [dx, dy]) <= 1e-9 * np.maximum(1.0, [abs(g["x0"]), abs(g["y0"])])):
        bad("cell size", got=c.tolist(), want=[dx, dy])
    if not (abs(no - nd) <= max(0.00501, 1e-9 * abs(nd)) if g["fmt"] != "zmap" else no == nd):
        bad("no-data value", got=float(no), want=nd)
    d = np.abs(z - v)
    if not np.all((d <= tol)):
        i = np.unravel_index(int(np.argmax(~(d <= tol))), v.shape)
        bad("cell value", cell=[int(k) for k in i], got=float(z[i]), want=float(v[i]))
    if g["fmt"] == "zmap" and res[5].strip() != g["coord_sys"].strip():
        bad("coordinate system", got=res[5], want=g["coord_sys"])


class C09(Prop):
    id = "C09"
    runs = {"quick": 5000, "thorough": 120000}
    deadline = {"quick": 150, "thorough": 1500}
    rule = ("a case is one to four simulated tasks that write, overwrite and read back grid files (both ASCII styles and ZMAP; masked, undefined, extreme and integer values; "
            "lists, columns, views) at the same time, on a simulated disk with seeded buffer sizes and short transfers, a simulated clock with jumps and a seeded "
            "process locale; non-trivial when a grid was read back and compared")
    assumptions = ["coordinates ascend with a constant step, as the writers' warnings demand", "ASCII grids carry two decimals, ZMAP grids four decimals or eight digits"]

    def setup(self):
        fs.prepare_locales()

    def generate(self, rng, tier, i):
        plan = {"tasks": []}
        nt = rng.choice([1, 1, 2, 2, 3, 4])
        same_base = rng.random() < 0.5
        for t in range(nt):
            ops = []
            name = "d%d/%s" % (t, NAMES[0] if same_base else rng.choice(NAMES))
            g = None
            for _ in range(rng.randint(1, 3)):
                if g is not None and rng.random() < 0.3:
                    name = "d%d/%s" % (t, rng.choice(NAMES) + "%d" % len(ops))
                g = world.gen_grid(rng, huge=0.012)
                ops.append({"op": "write", "g": g, "f": name})
                for _ in range(rng.choice([1, 1, 2])):
                    ops.append({"op": "read", "fmt": g["fmt"], "f": name})
            plan["tasks"].append({"ops": ops})
        if nt > 1 and rng.random() < 0.4:
            # several readers of one file
            g = world.gen_grid(rng)
            plan["common"] = {"g": g, "f": "common"}
            for t in plan["tasks"]:
                t["ops"].insert(rng.randrange(len(t["ops"]) + 1), {"op": "read", "fmt": g["fmt"], "f": "common"})
        plan["disk"] = fs.gen_disk(rng)
        plan["locale"] = rng.choice([None, None] + fs.LOCALES)
        plan["clock"] = [list(rng.choice(fs.CLOCKS)) for _ in range(rng.randint(1, 3))]
        plan["sched"] = {"mode": "rand", "seed": rng.getrandbits(32), "p": rng.choice([0.0, 0.01, 0.05, 0.3])}
        return plan

    def execute(self, plan, stats):
        root = tempfile.mkdtemp(prefix="dst-c09-")
        try:
            self.execute_in(plan, stats, root)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def execute_in(self, plan, stats, root):
        for t in range(len(plan["tasks"])):
            os.mkdir(os.path.join(root, "d%d" % t))
        w = world.World(root)
        have = {}
        if plan.get("common"):
            world.write_grid(plan["common"]["g"], os.path.join(root, "common"))
            have["common"] = plan["common"]["g"]
        got = []

        def task(t):
            def go():
                for op in plan["tasks"][t]["ops"]:
                    try:
                        res = w.do(op)
                    except (kernel.SimAbort, Violation):
                        raise
                    except Exception as e:
                        got.append((t, op, e))
                        if op["op"] == "write":
                            have.pop(op["f"], None)
                        continue
                    if op["op"] == "write":
                        have[op["f"]] = op["g"]
                    elif op["f"] in have:
                        got.append((t, have[op["f"]], res))
            return go

        with util.quiet(), fs.in_locale(plan["locale"], stats), fs.clock(plan["clock"]), fs.on_disk(root, plan["disk"], stats):
            k = sim.run_tasks([task(t) for t in range(len(plan["tasks"]))], plan["sched"], stats)
        stats.record = {"sched": {"mode": "explicit", "switches": k.record}}
        if len(plan["clock"]) > 1:
            stats.fault("clock jump")
        for t, g, res in got:
            if isinstance(res, Exception):
                raise Violation("a grid that the format can carry cannot be %s: %r" % ("written" if g["op"] == "write" else "read back", res), task=t, op=g["op"])
            stats.evals += 1
            stats.nontrivial = 1
            stats.event(t, util.rounded(util.norm(res)))
            stats.probe("read:" + g["fmt"])
            check_grid(g, res, task=t, locale=plan["locale"])


PROP = C09()
