"""C12: a grid read racing with a replacement sees one version."""
import os
import shutil
import tempfile

from .. import fs, kernel, sim, util, world
from ..base import Prop
from ..kernel import Violation


class C12(Prop):
    id = "C12"
    runs = {"quick": 6000, "thorough": 120000}
    deadline = {"quick": 150, "thorough": 1500}
    rule = ("a case is one to three simulated readers of a grid file and a task that replaces the file atomically one to four times with other versions (other shape, values, "
            "coordinates or coordinate system; often the same shape) at seeded points of the reads (opens, single disk reads, source lines), with seeded buffer sizes and short reads; "
            "every reader must return one version as a whole; non-trivial when a replacement happened between the begin and the end of a read")
    assumptions = ["the replacement is atomic (rename over the old file), as POSIX file systems provide it; an open file keeps its version"]

    def generate(self, rng, tier, i):
        fmt = rng.choice(["asc1", "asc2", "zmap"])
        vs = [world.gen_grid(rng, fmt=fmt, big=0.15)]
        for _ in range(rng.choice([1, 1, 2, 3])):
            g = world.gen_grid(rng, fmt=fmt, big=0.15)
            r = rng.random()
            if r < 0.5:
                # the same geometry, other values
                b = vs[0]
                g = dict(b, z=[[round(v + 1.0 + rng.random(), 3) for v in row] for row in b["z"]], kind="float", mask=None, under=None)
            elif r < 0.7:
                # the same shape, other coordinates
                g = dict(vs[0], x0=vs[0]["x0"] + 16.0, y0=vs[0]["y0"] - 8.0, no_data=-7777.0)
            vs.append(g)
        plan = {"fmt": fmt, "versions": vs, "readers": rng.choice([1, 1, 2, 3]), "repeat": rng.choice([1, 1, 2]), "clock": [[2020, 6, 5, 4, 3, 2]]}
        plan["disk"] = fs.gen_disk(rng)
        plan["disk"]["bufs"] = rng.choice([[64], [16], [512], [8192], [100, 1000]])
        plan["sched"] = {"mode": "pct", "seed": rng.getrandbits(32), "fracs": [rng.random() ** rng.choice([1, 3]) for _ in range(rng.randint(1, 5))]} if rng.random() < 0.4 else \
            {"mode": "at", "seed": rng.getrandbits(32), "fracs": [[rng.random(), rng.random()] for _ in range(rng.randint(1, 6))]} if rng.random() < 0.5 else \
            {"mode": "rand", "seed": rng.getrandbits(32), "p": rng.choice([0.02, 0.1, 0.3])}
        return plan

    def shrink_lists(self, plan):
        out = [("versions",)]
        if plan["sched"].get("mode") == "explicit":
            out.append(("sched", "switches"))
        return out

    def execute(self, plan, stats):
        root = tempfile.mkdtemp(prefix="dst-c12-")
        side = tempfile.mkdtemp(prefix="dst-c12v-")
        try:
            with util.quiet(), fs.clock(plan["clock"]):
                self.execute_in(plan, stats, root, side)
        finally:
            shutil.rmtree(root, ignore_errors=True)
            shutil.rmtree(side, ignore_errors=True)

    def execute_in(self, plan, stats, root, side):
        path = os.path.join(root, "grid")
        want = []
        for i, g in enumerate(plan["versions"]):
            p = os.path.join(root, "v%d" % i)
            world.write_grid(g, os.path.join(side, "grid"))
            shutil.move(os.path.join(side, "grid"), p)
            want.append(util.norm(list(world.read_grid(plan["fmt"], p))))
        os.replace(os.path.join(root, "v0"), path)
        n = util.in_child(self.length, plan, path)
        log = []
        spans = []

        def reader(r):
            def go():
                for _ in range(plan["repeat"]):
                    a = len(log)
                    o = util.observe(lambda: list(world.read_grid(plan["fmt"], path)))
                    spans.append((r, a, len(log), o))
            return go

        def writer():
            for i in range(1, len(plan["versions"])):
                kernel.io_point("before rename")
                os.replace(os.path.join(root, "v%d" % i), path)
                log.append(i)
                kernel.io_point("after rename")
                kernel.io_point("idle")

        from .c01 import concrete_sched

        with fs.on_disk(root, plan["disk"], stats):
            k = sim.run_tasks([reader(r) for r in range(plan["readers"])] + [writer],
                              concrete_sched(plan["sched"], [n] * plan["readers"], plan["repeat"]), stats)
        stats.record = {"sched": {"mode": "explicit", "switches": k.record}}
        for r, a, b, o in spans:
            stats.evals += 1
            stats.event(r, a, b, util.rounded(o[1]) if o[0] == "ok" else o[1])
            if b > a:
                stats.nontrivial = 1
                stats.fault("replaced while being read", b - a)
            if o[0] == "raise":
                raise Violation("a read racing with a replacement failed: " + util.short(o), reader=r, replaced=b - a)
            lo, hi = (log[a - 1] if a else 0), (log[b - 1] if b else 0)
            diffs = [util.same(o[1], want[v], 1e-12) for v in range(lo, hi + 1)]
            if all(diffs):
                raise Violation("a read racing with a replacement returned neither version: " + diffs[0], reader=r, versions=[lo, hi])

    def length(self, plan, path):
        from ..stats import Stats

        with fs.on_disk(os.path.dirname(path), plan["disk"], Stats()):
            return sim.count(lambda: world.read_grid(plan["fmt"], path))


PROP = C12()
