"""C11: a damaged grid file is never read as if it were intact."""
import os
import shutil
import tempfile

import numpy as np

from .. import fs, kernel, sim, util, world
from ..base import Prop
from ..kernel import SimKill, Violation


def num(tok):
    try:
        return float(tok)
    except ValueError:
        return None


# -- what the remaining text states --------------------------------------------------
def parse_asc(text):
    """(header, rows of tokens) or None if the header is not readable."""
    lines = text.split("\n")
    h = {}
    i = 0
    alias = {"cell_size": "cellsize", "nodatavalue": "nodata_value"}
    while True:
        if i >= len(lines):
            return None
        t = lines[i].split()
        i += 1
        if len(t) != 2:
            return None
        k = alias.get(t[0].lower(), t[0].lower())
        if k not in ("ncols", "nrows", "xllcorner", "xllcenter", "yllcorner", "yllcenter", "cellsize", "dx", "dy", "nodata_value"):
            return None
        try:
            h[k] = int(t[1]) if k in ("ncols", "nrows") else float(t[1])
        except ValueError:
            return None
        if "ncols" in h and "nrows" in h and "nodata_value" in h and ("cellsize" in h or ("dx" in h and "dy" in h)) and (
                ("xllcorner" in h and "yllcorner" in h) or ("xllcenter" in h and "yllcenter" in h)):
            break
    rows = [l.split() for l in lines[i:] if l.split()]
    return h, rows


def parse_zmap(text, stop):
    """(no_data, ny, nx, limits, tokens) or None; stop: whether an empty line ends the data."""
    state = 0
    toks = []
    nd = dims = None
    for line in text.split("\n"):
        if line.startswith("!"):
            continue
        t = [s.replace(",", "") for s in line.split()]
        if not t:
            if stop:
                break
            continue
        if state == -1:
            toks += t
            continue
        if t[0].startswith("@"):
            if state == 0:
                state = 1
            else:
                state = -1
                continue
        if state > 0:
            try:
                if state == 2:
                    nd = float(t[1])
                elif state == 3:
                    dims = (int(t[0]), int(t[1]), [float(v) for v in t[2:6]])
                    if len(dims[2]) != 4:
                        return None
            except (ValueError, IndexError):
                return None
            state += 1
    if dims is None:
        return None
    return nd, dims[0], dims[1], dims[2], toks


def judge(fmt, raw, res):
    """Describes how the returned grid contradicts the text; None if it does not."""
    try:
        text = raw.decode("utf-8")
    except UnicodeDecodeError:
        return "the file is not text"
    text = text.replace("\r\n", "\n").replace("\r", "\n")
    z = np.asarray(res[0], dtype=float)
    x, y = np.asarray(res[1]), np.asarray(res[2])
    if fmt != "zmap":
        p = parse_asc(text)
        if p is None:
            return "the header is damaged"
        h, rows = p
        if len(rows) != h["nrows"] or any(len(r) != h["ncols"] for r in rows):
            return "the text holds %d rows of %s values, the header says %d x %d" % (len(rows), sorted({len(r) for r in rows}), h["nrows"], h["ncols"])
        if z.shape != (h["nrows"], h["ncols"]):
            return "returned shape %s, the header says %d x %d" % (z.shape, h["nrows"], h["ncols"])
        want = [[num(t) for t in r] for r in rows[::-1]]
        cells = [(z[i, j], want[i][j]) for i in range(z.shape[0]) for j in range(z.shape[1])]
        if x.size != h["ncols"] or y.size != h["nrows"]:
            return "wrong number of coordinates"
        if not abs(res[4] - h["nodata_value"]) <= 1e-9 * max(1.0, abs(h["nodata_value"])):
            return "no-data value %r, the text says %r" % (res[4], h["nodata_value"])
        d = (h["dx"], h["dy"]) if "dx" in h and "dy" in h else (h["cellsize"],) * 2
        if "xllcorner" in h and "yllcorner" in h:
            o = (h["xllcorner"] + d[0] / 2, h["yllcorner"] + d[1] / 2)
        else:
            o = (h["xllcenter"], h["yllcenter"])
        for a, k in ((x, 0), (y, 1)):
            if not np.all(np.abs(a - (o[k] + d[k] * np.arange(a.size))) <= 1e-9 * (abs(o[k]) + a.size * abs(d[k]) + 1e-300)):
                return "coordinates differ from the header"
    else:
        why = None
        for stop in (True, False):
            p = parse_zmap(text, stop)
            if p is None:
                why = "the header is damaged"
                continue
            nd, ny, nx, lim, toks = p
            if ny * nx != len(toks):
                why = "the text holds %d values, the header says %d x %d" % (len(toks), ny, nx)
                continue
            if z.shape != (ny, nx):
                why = "returned shape %s, the header says %d x %d" % (z.shape, ny, nx)
                continue
            why = None
            break
        if why:
            return why
        cells = [(z[ny - 1 - k % ny, k // ny], num(t)) for k, t in enumerate(toks)]
        if x.size != nx or y.size != ny:
            return "wrong number of coordinates"
        if nd is not None and res[4] != nd:
            return "no-data value %r, the text says %r" % (res[4], nd)
        for a, lo, hi in ((x, lim[0], lim[1]), (y, lim[2], lim[3])):
            if not np.all(np.abs(a - np.linspace(lo, hi, a.size)) <= 1e-9 * (abs(lo) + abs(hi) + 1e-300)):
                return "coordinates differ from the header"
    for got, want in cells:
        if want is None:
            if got == got:
                return "a cell reads %r, the text is not a number there" % got
        elif not (abs(got - want) <= 1e-9 * max(1.0, abs(want)) or got == want or (got != got and want != want)):
            return "a cell reads %r, the text says %r" % (got, want)
    return None


class C11(Prop):
    id = "C11"
    runs = {"quick": 8000, "thorough": 200000}
    deadline = {"quick": 150, "thorough": 1500}
    rule = ("a case is one grid file, written by the package and then damaged by a crash of the writer at a seeded disk operation or byte (over an older version or not), lost, zeroed, "
            "repeated or exchanged blocks, lost or doubled lines, or read from a disk that fails at a seeded operation; what the reader returns is compared with an independent "
            "reading of the remaining text; non-trivial when the file was damaged or a read failed")
    assumptions = ["damage inside one token of the last value that leaves another valid number cannot be noticed in this format: the text then states that number"]

    def generate(self, rng, tier, i):
        g = world.gen_grid(rng, big=0.1)
        plan = {"g": g, "old": world.gen_grid(rng, fmt=g["fmt"]) if rng.random() < 0.3 else None, "damage": [], "clock": [[2020, 6, 5, 4, 3, 2]]}
        r = rng.random()
        if r < 0.25:
            plan["kill"] = {"frac": rng.random(), "keep": rng.random()}
            plan["wdisk"] = fs.gen_disk(rng)
            plan["wdisk"]["bufs"] = rng.choice([[64], [512], [16], [8192], [100, 30]])
        else:
            for _ in range(rng.choice([0, 1, 1, 1, 2])):
                plan["damage"].append({"how": rng.choice(["cut", "cut", "drop", "dup", "zero", "swap", "dropline", "dupline", "cutline", "blank", "crlf"]), "at": rng.random(), "len": rng.choice([1, 2, 5, 16, 64, 512]),
                                       "to": rng.random(), "aligned": rng.random() < 0.5})
        plan["disk"] = fs.gen_disk(rng)
        if rng.random() < 0.25:
            plan["disk"]["faults"] = [{"op": "read", "n": 0, "frac": rng.random(), "what": "EIO"}]
        return plan

    def shrink_lists(self, plan):
        return [("damage",)]

    def hurt(self, b, d):
        n = len(b)
        if not n:
            return b
        k = d["len"]
        i = int(d["at"] * n)
        if d["aligned"]:
            i -= i % k
        if d["how"] == "cut":
            return b[:i]
        if d["how"] == "drop":
            return b[:i] + b[i + k:]
        if d["how"] == "dup":
            return b[:i + k] + b[i:i + k] + b[i + k:]
        if d["how"] == "zero":
            return b[:i] + b"\0" * min(k, n - i) + b[i + k:]
        if d["how"] == "swap":
            j = int(d["to"] * n)
            if d["aligned"]:
                j -= j % k
            i, j = min(i, j), max(i, j)
            if j < i + k or j + k > n:
                return b
            return b[:i] + b[j:j + k] + b[i + k:j] + b[i:i + k] + b[j + k:]
        if d["how"] == "crlf":
            return b.replace(b"\n", b"\r\n")
        lines = b.split(b"\n")
        i = int(d["at"] * len(lines))
        if d["how"] == "dropline":
            del lines[i]
        elif d["how"] == "dupline":
            lines.insert(i, lines[i])
        elif d["how"] == "blank":
            lines.insert(i, b"")
        else:
            lines = lines[:i]
        return b"\n".join(lines)

    def execute(self, plan, stats):
        root = tempfile.mkdtemp(prefix="dst-c11-")
        try:
            with util.quiet(), fs.clock(plan["clock"]), np.errstate(all="ignore"):
                self.execute_in(plan, stats, root)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def execute_in(self, plan, stats, root):
        g = plan["g"]
        path = os.path.join(root, "f")
        if plan["old"]:
            world.write_grid(plan["old"], path)
        if plan.get("kill"):
            d = dict(plan["wdisk"])
            if "n" not in plan["kill"]:
                n = util.in_child(self.count, g, d, os.path.join(root, "t"))
                k = int(plan["kill"]["frac"] * (n.get("write", 0) + 2))
                # before the first write (after the file was emptied), at a write, or at closing
                plan["kill"] = {"n": k - 1, "op": "write" if k - 1 < n.get("write", 0) else "close", "keep": plan["kill"]["keep"]}
            k = plan["kill"]
            if k["op"] == "close":
                d["faults"] = [{"op": "close", "n": 0, "what": "kill"}]
            else:
                d["faults"] = [{"op": "write", "n": max(0, k["n"]), "what": "kill", "keep": k["keep"] if k["n"] >= 0 else 0.0}]
            try:
                with fs.on_disk(root, d, stats) as dk:
                    world.write_grid(g, path)
            except SimKill:
                pass
            stats.nontrivial = int(bool(dk.fired))
        else:
            world.write_grid(g, path)
        with open(path, "rb") as f:
            b = f.read()
        whole = b
        for d in plan["damage"]:
            b = self.hurt(b, d)
            stats.fault("damage:" + d["how"])
        if b != whole:
            stats.nontrivial = 1
        with open(path, "wb") as f:
            f.write(b)
        d = dict(plan["disk"])
        if any("frac" in f for f in d["faults"]):
            n = util.in_child(self.reads, g["fmt"], d, path).get("read", 1)
            d["faults"] = [dict({k: v for k, v in f.items() if k != "frac"}, n=int(f["frac"] * n)) for f in d["faults"]]
            plan["disk"] = d
        res = err = None
        with fs.on_disk(root, d, stats) as dk:
            box = {}

            def go():
                try:
                    box["res"] = world.read_grid(g["fmt"], path)
                except (kernel.SimAbort, Violation):
                    raise
                except Exception as e:
                    box["err"] = e

            k = sim.run_tasks([go], None, stats, max_steps=20000 + 40 * len(b))
            res, err = box.get("res"), box.get("err")
        stats.fired += [{"disk": f} for f in dk.fired]
        stats.evals += 1
        if dk.fired:
            stats.nontrivial = 1
        stats.event(len(b), dk.fired, type(err).__name__ if err else util.rounded(util.norm(res)))
        if err is not None:
            stats.probe("reader raised")
            if b == whole and not dk.fired and not plan.get("kill"):
                raise Violation("an intact file cannot be read: %r" % err, fmt=g["fmt"])
            return
        stats.probe("reader returned")
        if dk.fired:
            raise Violation("an error while reading was not reported", fmt=g["fmt"], fired=dk.fired)
        why = judge(g["fmt"], b, res)
        if why:
            raise Violation("a damaged grid file was read as if it were intact: " + why, fmt=g["fmt"], size=len(b), whole=len(whole))

    def count(self, g, d, root):
        from ..stats import Stats

        os.makedirs(root, exist_ok=True)
        with fs.on_disk(root, dict(d, faults=[]), Stats()) as dk:
            world.write_grid(g, os.path.join(root, "x"))
        return dk.n

    def reads(self, fmt, d, path):
        from ..stats import Stats

        with fs.on_disk(os.path.dirname(path), dict(d, faults=[]), Stats()) as dk:
            try:
                world.read_grid(fmt, path)
            except Exception:
                pass
        return dk.n


PROP = C11()
