"""Pieces shared by the checks of the grid files: simulated disk plans, clock
and locale, and the files that only the simulator touches."""
import contextlib
import datetime
import os
import shutil
import subprocess

from . import boot, disk, world

CLOCKS = [(2024, 2, 29, 23, 59, 59), (1970, 1, 1, 0, 0, 0), (1, 1, 1, 0, 0, 0), (9999, 12, 31, 23, 59, 59), (2038, 1, 19, 3, 14, 8), (2020, 6, 5, 4, 3, 2)]
LOCALES = ["en_US.UTF-8", "de_DE.UTF-8", "fr_FR.UTF-8"]


class SimDatetime(datetime.datetime):
    seq = [datetime.datetime(2020, 6, 5, 4, 3, 2)]
    n = 0

    @classmethod
    def now(cls, tz=None):
        d = cls.seq[cls.n % len(cls.seq)]
        cls.n += 1
        return datetime.datetime(d.year, d.month, d.day, d.hour, d.minute, d.second)

    today = now
    utcnow = now


class _Mod:
    """The datetime module with a simulated clock."""

    def __init__(self, real):
        self.__dict__.update({k: v for k, v in vars(real).items() if not k.startswith("__")})
        self.datetime = SimDatetime


@contextlib.contextmanager
def clock(seq):
    """The package sees these times, one after the other."""
    import time

    SimDatetime.seq = [datetime.datetime(*t) for t in seq]
    SimDatetime.n = 0
    saved = []
    for m in boot.pykrige_modules():
        for k, v in list(vars(m).items()):
            if v is datetime:
                saved.append((m, k, v))
                setattr(m, k, _Mod(datetime))
            elif v is datetime.datetime:
                saved.append((m, k, v))
                setattr(m, k, SimDatetime)
    real = {n: getattr(time, n) for n in ("time", "localtime", "gmtime", "strftime")}
    ts = [max(0.0, (d - datetime.datetime(1970, 1, 1)).total_seconds()) for d in SimDatetime.seq]
    box = [0]

    def t():
        box[0] += 1
        return ts[box[0] % len(ts)]

    def lt(s=None):
        return real["gmtime"](min(t(), 2**32) if s is None else s)

    time.time, time.localtime, time.gmtime = t, lt, lt
    time.strftime = lambda f, x=None: real["strftime"](f, lt() if x is None else x)
    try:
        yield
    finally:
        for m, k, v in saved:
            setattr(m, k, v)
        for n, v in real.items():
            setattr(time, n, v)


def prepare_locales():
    """Locales with other decimal and grouping characters, compiled into the cache."""
    d = os.path.join(boot.CACHE, "locale")
    os.makedirs(d, exist_ok=True)
    for name in LOCALES:
        if os.path.exists(os.path.join(d, name, "LC_NUMERIC")):
            continue
        tmp = os.path.join(d, ".tmp%d-%s" % (os.getpid(), name))
        try:
            subprocess.run(["localedef", "-i", name.split(".")[0], "-f", "UTF-8", tmp], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
            if os.path.exists(os.path.join(tmp, "LC_NUMERIC")):
                os.rename(tmp, os.path.join(d, name))
        except (OSError, subprocess.SubprocessError):
            pass
        shutil.rmtree(tmp, ignore_errors=True)
    return d


@contextlib.contextmanager
def in_locale(name, stats=None):
    import locale

    if not name:
        yield
        return
    old, oldp = locale.setlocale(locale.LC_ALL), os.environ.get("LOCPATH")
    os.environ["LOCPATH"] = os.path.join(boot.CACHE, "locale")
    try:
        locale.setlocale(locale.LC_ALL, name)
        if stats is not None:
            stats.fault("locale:" + name)
    except locale.Error:
        pass
    try:
        yield
    finally:
        if oldp is None:
            os.environ.pop("LOCPATH", None)
        else:
            os.environ["LOCPATH"] = oldp
        locale.setlocale(locale.LC_ALL, old)


def gen_disk(rng, faults=()):
    return {"seed": rng.getrandbits(32), "short": rng.choice([0.0, 0.0, 0.2, 0.8]),
            "bufs": rng.choice([[8192], [8192], [131072], [1], [7, 64, 512], [16], [100], [4096, 1000]]), "faults": list(faults)}


@contextlib.contextmanager
def on_disk(root, plan, stats):
    d = disk.Disk(root, plan, stats)
    disk.install(d)
    try:
        yield d
    finally:
        disk.uninstall()


def reference_bytes(g, root, name, clk):
    """What the writer puts into the file when nothing goes wrong."""
    path = os.path.join(root, name)
    with clock(clk):
        world.write_grid(g, path)
    with disk._real_open(path, "rb") as f:
        return f.read()


def listing(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with disk._real_open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = fh.read()
    return out
