"""Simulated disk: real files in a scratch directory behind a faulty raw layer.

Every open() of a path inside the scratch directory (through builtins.open,
io.open, or numpy's data source) gets a raw file object that transfers as many
bytes per operation as the plan says, with the buffer size the plan says, and
that fails, fills up or dies where the plan says.  Everything above the raw
layer (buffering, text decoding, the code under test) is real.
"""
import builtins
import errno
import io
import os
import random

from . import kernel

_real_open = io.open
DISK = None


class Disk:
    """plan: seed, short (probability of a short transfer), bufs (list of
    buffer sizes), faults: [{op: write|read|open|close|flush, n: index of the
    operation (counted per kind), what: ENOSPC|EIO|EINTR|kill, keep: fraction}],
    capacity: total bytes that fit (None: unlimited)."""

    def __init__(self, root, plan, stats):
        self.root = os.path.realpath(root) + os.sep
        self.plan = plan
        self.stats = stats
        self.rng = random.Random(plan.get("seed", 0))
        self.short = plan.get("short", 0.0)
        self.bufs = plan.get("bufs") or [8192]
        self.capacity = plan.get("capacity")
        self.used = 0
        self.n = {}
        self.faults = {(f["op"], f["n"]): f for f in plan.get("faults", [])}
        self.fired = []
        self.dead = False
        self.open_files = []
        self.log = []

    def inside(self, file):
        if isinstance(file, int):
            return None
        try:
            p = os.fspath(file)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.realpath(p)
        return p if p.startswith(self.root) else None

    def event(self, op):
        """Counts an operation; returns the fault that strikes it, if any."""
        t = kernel.current_task()
        kernel.io_point(op)
        i = self.n.get(op, 0)
        self.n[op] = i + 1
        if self.dead:
            return {"what": "dead"}
        f = self.faults.get((op, i))
        if f is not None:
            self.fired.append([op, i, f["what"]])
            self.stats.fault("disk:%s:%s" % (op, f["what"]))
        return f

    def chunk(self, size):
        if size > 1 and self.short and self.rng.random() < self.short:
            self.stats.fault("disk:short-transfer")
            return self.rng.randint(1, size - 1)
        return size


def _err(what):
    return OSError(getattr(errno, what), "simulated: " + os.strerror(getattr(errno, what)))


class SimRaw(io.FileIO):
    def __init__(self, disk, path, mode):
        f = disk.event("open")
        if f is not None:
            if f["what"] == "kill":
                disk.dead = True
                raise kernel.SimKill("simulated crash at open")
            if f["what"] != "dead":
                raise _err(f["what"])
        if disk.dead:
            mode = mode.replace("w", "a").replace("x", "a")  # the dead change nothing
        self._disk = disk
        self._path = path
        super().__init__(path, mode)
        disk.open_files.append(self)

    def readinto(self, b):
        d = self._disk
        f = d.event("read")
        m = memoryview(b).cast("B")
        if f is not None:
            w = f["what"]
            if w == "kill":
                d.dead = True
                raise kernel.SimKill("simulated crash at read")
            if w == "dead":
                raise kernel.SimKill("dead")
            raise _err(w)
        return super().readinto(m[: d.chunk(len(m))])

    def readall(self):
        out = b""
        while True:
            buf = bytearray(self._disk.bufs[0])
            n = self.readinto(buf)
            if not n:
                return out
            out += bytes(buf[:n])

    def write(self, b):
        d = self._disk
        f = d.event("write")
        m = memoryview(b).cast("B")
        if f is not None:
            w = f["what"]
            if w == "dead":
                return len(m)
            k = int(len(m) * f.get("keep", 0.0))
            if w == "kill":
                if k:
                    super().write(m[:k])
                d.dead = True
                raise kernel.SimKill("simulated crash at write")
            if w == "lost":      # accepted, never stored; reported at close
                d.lost = True
                self._lost = True
                return len(m)
            if k:
                super().write(m[:k])
            raise _err(w)
        if d.dead:
            return len(m)
        m = m[: d.chunk(len(m))]
        if d.capacity is not None:
            room = d.capacity - d.used
            if room <= 0:
                if not any(x[2] == "ENOSPC" for x in d.fired):
                    d.stats.fault("disk:full")
                d.fired.append(["write", d.n["write"] - 1, "ENOSPC"])
                raise _err("ENOSPC")
            m = m[:room]
        n = super().write(m)
        d.used += n
        return n

    def close(self):
        if self.closed:
            return super().close()
        d = self._disk
        if self in d.open_files:
            d.open_files.remove(self)
        f = d.event("close")
        try:
            if getattr(self, "_lost", False) and f is None:
                f = {"what": "EIO"}
                d.fired.append(["close", -1, "EIO"])
            if f is not None and f["what"] not in ("dead", "kill") and self.writable():
                keep = f.get("keep")
                if keep is not None:
                    size = os.fstat(self.fileno()).st_size
                    os.ftruncate(self.fileno(), int(size * keep))
        finally:
            super().close()
        if f is not None:
            if f["what"] == "kill":
                d.dead = True
                raise kernel.SimKill("simulated crash at close")
            if f["what"] != "dead":
                raise _err(f["what"])


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    d = DISK
    path = None if d is None or opener is not None else d.inside(file)
    if path is None:
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    flags = set(mode)
    binary = "b" in flags
    rawmode = "".join(c for c in mode if c in "rwax+")
    raw = SimRaw(d, path, rawmode)
    try:
        if buffering == 0:
            return raw
        size = d.bufs[d.rng.randrange(len(d.bufs))]
        if "+" in flags:
            buf = io.BufferedRandom(raw, size)
        elif flags & {"w", "a", "x"}:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        try:
            text._CHUNK_SIZE = max(1, size)
        except Exception:
            pass
        text.mode = mode
        return text
    except BaseException:
        raw.close()
        raise


_saved = []


def install(disk):
    global DISK
    import numpy.lib._datasource as ds

    DISK = disk
    if not _saved:
        _saved.append((builtins, "open", builtins.open))
        _saved.append((io, "open", io.open))
        ds._file_openers._load()
        fo = ds._file_openers._file_openers
        _saved.append((fo, None, fo[None]))
    builtins.open = sim_open
    io.open = sim_open
    for o, k, _ in _saved:
        if isinstance(o, dict):
            o[k] = sim_open
    for m in boot_modules():
        for k, v in list(vars(m).items()):
            if v is _real_open:
                setattr(m, k, sim_open)


def boot_modules():
    from . import boot

    return boot.pykrige_modules()


def uninstall():
    global DISK
    DISK = None
    builtins.open = _real_open
    io.open = _real_open
