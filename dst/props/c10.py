"""C10: a grid write that returns is complete; a refused one changes nothing."""
import os
import shutil
import tempfile

import numpy as np

from .. import fs, kernel, sim, util, world
from ..base import Prop
from ..kernel import Rejected, SimKill, Violation

BAD = ["spacing_x", "spacing_y", "style", "dxdy", "ndim3", "ndim1", "cell_str", "cell_none", "no_data_str", "no_data_none", "coord_sys_none", "coord_sys_surrogate", "coord_sys_c_locale", "name_surrogate", "short_x", "xdim", "cell_complex", "cell_last_obj", "coords_str", "unmaskable"]
UNENCODABLE = "caf\udce9.zmap"


def bad_write(g, how, path):
    """A call of the writer with arguments it cannot accept."""
    import pykrige.kriging_tools as kt

    x, y, z = world.grid_args(dict(g, xc="array", zc="array"))
    x, y = np.array(x, dtype=float), np.array(y, dtype=float)
    kw = {"no_data": g["no_data"], "filename": path}
    zm = g["fmt"] == "zmap"
    if zm:
        kw["coord_sys"] = g["coord_sys"]
    else:
        kw["style"] = int(g["fmt"][-1])
    if how == "spacing_x":
        x = np.append(x, x[-1] + 3 * g["dx"])
        z = np.ma.concatenate([z, z[:, :1]], axis=1)
    elif how == "spacing_y":
        y = np.append(y, y[-1] + 7 * g["dy"])
        z = np.ma.concatenate([z, z[:1]], axis=0)
    elif how == "style":
        if zm:
            raise Rejected("no styles")
        kw["style"] = 3
    elif how == "dxdy":
        if g["fmt"] != "asc2":
            raise Rejected("only for style 2")
        y = y * 2.0
    elif how == "ndim3":
        z = np.stack([np.ma.filled(np.ma.array(z, dtype=float), 0.0)] * 2)
        if zm:
            raise Rejected("not refused by this writer")
    elif how == "ndim1":
        z = np.ma.filled(np.ma.array(z, dtype=float), 0.0).ravel()
    elif how in ("cell_str", "cell_none", "cell_complex", "cell_last_obj"):
        z = np.array(np.ma.getdata(z), dtype=object)
        z[0, -1] = {"cell_str": "x", "cell_none": None, "cell_complex": 1j, "cell_last_obj": []}[how]
    elif how == "no_data_str":
        if zm and g["mask"] is None and g["nan"] is None:
            raise Rejected("not refused by this writer")
        kw["no_data"] = "none"
    elif how == "no_data_none":
        if zm and g["mask"] is None and g["nan"] is None:
            raise Rejected("not refused by this writer")
        kw["no_data"] = None
    elif how == "coord_sys_none":
        if not zm:
            raise Rejected("only for ZMAP")
        kw["coord_sys"] = None
    elif how in ("coord_sys_surrogate", "coord_sys_c_locale", "name_surrogate"):
        # text that the encoding of the file cannot express
        if not zm:
            raise Rejected("only for ZMAP")
        if how == "name_surrogate":
            kw["filename"] = os.path.join(os.path.dirname(path), UNENCODABLE)
        else:
            kw["coord_sys"] = "WGS \udc80 84" if how == "coord_sys_surrogate" else "Gau\xdf-Kr\xfcger"
    elif how == "short_x":
        x = x[:1]
    elif how == "xdim":
        if zm:
            raise Rejected("not refused by this writer")
        x = np.stack([x, x])
    elif how == "coords_str":
        x = np.array(["a"] * len(x))
    elif how == "unmaskable":
        z = np.array([["a", "b"], ["c", "d"]])
        x, y = x[:2], y[:2]
    f = kt.write_zmap_grid if zm else kt.write_asc_grid
    with fs.in_locale("C" if how == "coord_sys_c_locale" else None):
        return f(x, y, z, **kw)


class C10(Prop):
    id = "C10"
    runs = {"quick": 5000, "thorough": 120000}
    deadline = {"quick": 150, "thorough": 1500}
    rule = ("a case is a sequence of one to three writer calls, each refused for its arguments or made on a simulated disk that gets full, fails at a seeded open, write or close "
            "(also late: accepted data that turn out lost when the file is closed), transfers short and uses seeded buffer sizes; existing files of earlier versions, longer or "
            "shorter, are present; a call that returned must have left the file's fault-free bytes, a refused call all files as they were; non-trivial when a fault or a refusal struck")
    assumptions = ["the reference bytes are those of the same call on a healthy disk at the same simulated time"]

    def generate(self, rng, tier, i):
        plan = {"ops": []}
        for _ in range(rng.choice([1, 1, 2, 3])):
            g = world.gen_grid(rng, big=0.15)
            op = {"g": g, "f": rng.choice(["a", "a", "b", "sub/a"]), "existing": rng.choice([None, "short", "long", "grid"])}
            if rng.random() < 0.35:
                op["op"] = "refused"
                op["how"] = rng.choice(BAD)
            else:
                op["op"] = "write"
                op["disk"] = fs.gen_disk(rng)
                faults = []
                r = rng.random()
                if r < 0.15:
                    op["disk"]["capfrac"] = rng.random() * 1.05
                elif r < 0.9:
                    for _ in range(rng.choice([1, 1, 2])):
                        w = rng.choice(["write", "write", "write", "close", "open"])
                        f = {"op": w, "n": 0, "frac": rng.random(), "what": rng.choice(["ENOSPC", "EIO", "EDQUOT", "EFBIG"] + (["lost"] if w == "write" else [])), "keep": rng.choice([0.0, 0.3, 1.0]) if w == "write" else None}
                        if w == "open":
                            f["what"] = rng.choice(["EMFILE", "EROFS", "EACCES", "ENOSPC"])
                        if f["keep"] is None:
                            f.pop("keep")
                        faults.append(f)
                op["disk"]["faults"] = faults
            plan["ops"].append(op)
        plan["clock"] = [list(rng.choice(fs.CLOCKS))]
        return plan

    def shrink_lists(self, plan):
        return [("ops",)] + [("ops", i, "disk", "faults") for i, o in enumerate(plan["ops"]) if "disk" in o]

    def execute(self, plan, stats):
        root = tempfile.mkdtemp(prefix="dst-c10-")
        ref = tempfile.mkdtemp(prefix="dst-c10r-")
        cwd = os.getcwd()
        try:
            os.chdir(root)
            self.execute_in(plan, stats, root, ref)
        finally:
            os.chdir(cwd)
            shutil.rmtree(root, ignore_errors=True)
            shutil.rmtree(ref, ignore_errors=True)

    def execute_in(self, plan, stats, root, ref):
        os.mkdir(os.path.join(root, "sub"))
        for n, op in enumerate(plan["ops"]):
            path = os.path.join(root, op["f"])
            if op["existing"]:
                with open(path, "wb") as f:
                    f.write({"short": b"old\n", "long": b"older content, but more of it\n" * 4000, "grid": b"NCOLS 1\nNROWS 1\n"}[op["existing"]])
            if op["op"] == "refused":
                self.refused(op, path, root, stats, plan)
            else:
                self.write(op, path, root, ref, stats, plan, n)

    def refused(self, op, path, root, stats, plan):
        if op["how"] == "name_surrogate" and op["existing"]:
            with open(os.path.join(os.path.dirname(path), UNENCODABLE), "wb") as f:
                f.write(b"older content\n")
        before = fs.listing(root)
        try:
            with util.quiet(), np.errstate(all="ignore"):
                bad_write(op["g"], op["how"], path)
        except Rejected:
            return
        except Exception as e:
            stats.fault("refused:" + op["how"])
            stats.nontrivial = 1
            stats.event("refused", op["how"], type(e).__name__)
        else:
            stats.probe("accepted:%s:%s" % (op["g"]["fmt"], op["how"]))
            return
        stats.evals += 1
        after = fs.listing(root)
        if before != after:
            name = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
            raise Violation("a refused write changed files", how=op["how"], fmt=op["g"]["fmt"], files=name, existed=[k in before for k in name], exists=[k in after for k in name])

    def write(self, op, path, root, ref, stats, plan, n):
        g = op["g"]
        os.makedirs(os.path.join(ref, "r%d" % n), exist_ok=True)
        with util.quiet():
            want = fs.reference_bytes(g, os.path.join(ref, "r%d" % n), os.path.basename(op["f"]), plan["clock"])
        d = dict(op["disk"])
        if "capfrac" in d and "capacity" not in d:
            d["capacity"] = int(d["capfrac"] * len(want))
        if any("frac" in f for f in d["faults"]):
            # place the faults on operations that the healthy call performs
            trial = util.in_child(self.ops_of, g, d, plan, os.path.join(ref, "t%d" % n))
            d["faults"] = [dict({k: v for k, v in f.items() if k != "frac"}, n=int(f["frac"] * max(1, trial.get(f["op"], 1)))) if "frac" in f else f for f in d["faults"]]
            op["disk"] = d
        err = None
        with util.quiet(), fs.clock(plan["clock"]), fs.on_disk(root, d, stats) as dk:
            try:
                sim.run_tasks([lambda: world.write_grid(g, path)], None, stats)
            except (Violation, SimKill):
                raise
            except Exception as e:
                err = e
        if dk.fired:
            stats.nontrivial = 1
        stats.evals += 1
        stats.event("write", n, dk.fired, type(err).__name__ if err else None)
        stats.fired += [{"disk": f} for f in dk.fired]
        if err is not None:
            stats.probe("write raised")
            if not dk.fired:
                raise Violation("a write failed on a healthy disk: %r" % err, fmt=g["fmt"])
            return
        stats.probe("write returned")
        try:
            with open(path, "rb") as f:
                have = f.read()
        except OSError:
            have = None
        if have != want:
            raise Violation("a write returned although the file is not complete", fmt=g["fmt"], size=None if have is None else len(have), want=len(want), fired=dk.fired)
        if any(f[0] == "close" and f[2] != "EINTR" for f in dk.fired):
            raise Violation("a write returned although the file could not be closed", fmt=g["fmt"], fired=dk.fired)

    def ops_of(self, g, d, plan, root):
        from ..stats import Stats

        os.makedirs(root, exist_ok=True)
        with util.quiet(), fs.clock(plan["clock"]), fs.on_disk(root, dict(d, faults=[], capacity=None), Stats()) as dk:
            world.write_grid(g, os.path.join(root, "x"))
        return dk.n


PROP = C10()
