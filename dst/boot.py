"""Loads the code under test from /repo's current working tree.

Python sources are imported straight from /repo/src.  The two Cython modules
are taken from the tree when the repository's own build stamp says they are
up to date with the .pyx sources, and are otherwise built out of tree (into a
cache keyed by the content of the sources, ignored by git) and served through
an import hook, so that a change to a .pyx file is always what is tested.
"""
import glob
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
import types

REPO = os.environ.get("DST_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = os.path.join(SRC, "pykrige")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".cache")
EXT = ("lib/cok", "lib/variogram_models")

ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "MPLBACKEND": "Agg",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "LC_ALL": "C.UTF-8",
    "TZ": "UTC",
}


def reexec_if_needed():
    """The environment of the process is part of what the simulator fixes."""
    want = dict(ENV)
    want.setdefault("PYTHONHASHSEED", os.environ.get("DST_HASHSEED", "0"))
    py = "/opt/venv/bin/python"
    same = all(os.environ.get(k) == v for k, v in want.items())
    if same and os.path.realpath(sys.prefix) == os.path.realpath("/opt/venv"):
        return
    env = dict(os.environ)
    env.update(want)
    env.pop("PYTHONPATH", None)
    os.execve(py, [py] + sys.argv, env)


def _digest(pyx):
    h = hashlib.sha256(sys.version.encode())
    shared = glob.glob(PKG + "/**/*.px[di]", recursive=True)
    files = [pyx, *sorted(shared)]
    files += [os.path.join(REPO, f) for f in ("setup.py", "setup.cfg", "pyproject.toml")]
    for path in files:
        h.update(path.encode() + b"\0")
        if os.path.exists(path):
            with open(path, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def _in_tree(mod):
    so = glob.glob(os.path.join(PKG, mod) + ".*.so")
    stamp = os.path.join(REPO, "build", "vp-stamps", mod.replace("/", "."))
    if len(so) != 1 or not os.path.exists(stamp):
        return None
    with open(stamp) as f:
        return so[0] if f.read() == _digest(os.path.join(PKG, mod + ".pyx")) else None


def _source_key():
    h = hashlib.sha256(sys.version.encode())
    for p in sorted(glob.glob(PKG + "/lib/*.p[yx][xdi]") + glob.glob(PKG + "/lib/*.px[di]")):
        h.update(os.path.basename(p).encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()[:24]


def build_ext():
    """Returns {module: path of .so} for all modules, building what is stale."""
    have = {m: _in_tree(m) for m in EXT}
    if all(have.values()):
        return have, "in-tree build (stamp matches the sources)"
    key = _source_key()
    for base in (CACHE, os.path.join(tempfile.gettempdir(), "dst-ext-cache")):
        out = os.path.join(base, "ext", key)
        got = {m: glob.glob(os.path.join(out, m) + ".*.so") for m in EXT}
        if all(len(v) == 1 for v in got.values()):
            return {m: v[0] for m, v in got.items()}, "cached out-of-tree build"
    for base in (CACHE, os.path.join(tempfile.gettempdir(), "dst-ext-cache")):
        try:
            os.makedirs(os.path.join(base, "ext"), exist_ok=True)
            work = tempfile.mkdtemp(prefix="build-", dir=os.path.join(base, "ext"))
            break
        except OSError:
            continue
    try:
        return _build(work, os.path.join(base, "ext", key)), "fresh out-of-tree build"
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _build(work, out):
    pk = os.path.join(work, "pykrige")
    os.makedirs(os.path.join(pk, "lib"))
    for d in ("", "lib"):
        open(os.path.join(pk, d, "__init__.py"), "w").close()
    for p in glob.glob(PKG + "/lib/*.p*"):
        if p.endswith((".pyx", ".pxd", ".pxi")):
            shutil.copy(p, os.path.join(pk, "lib"))
    import numpy as np
    import sysconfig

    inc = [np.get_include(), sysconfig.get_paths()["include"]]
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    procs = []
    for m in EXT:
        base = os.path.join("pykrige", m)
        cmd = "%s -m cython -3 %s.pyx -o %s.c && gcc -shared -fPIC -O2 -fno-strict-overflow -fwrapv -DNDEBUG -DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION %s %s.c -o %s%s" % (
            sys.executable, base, base, " ".join("-I" + i for i in inc), base, base, suffix)
        procs.append(subprocess.Popen(cmd, shell=True, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
    for m, pr in zip(EXT, procs):
        log = pr.communicate()[0].decode(errors="replace")
        if pr.returncode:
            raise RuntimeError("the extension module %s of /repo does not build:\n%s" % (m, log[-3000:]))
    tmp = work + ".out"
    os.makedirs(os.path.join(tmp, "lib"))
    for m in EXT:
        shutil.copy(os.path.join(work, "pykrige", m + suffix), os.path.join(tmp, m + suffix))
    try:
        os.rename(tmp, out)
    except OSError:  # somebody else was faster
        shutil.rmtree(tmp, ignore_errors=True)
    return {m: os.path.join(out, m + suffix) for m in EXT}


class _ExtFinder(importlib.abc.MetaPathFinder):
    def __init__(self, table):
        self.table = {"pykrige." + m.replace("/", "."): p for m, p in table.items()}
        self.hidden = False

    def find_spec(self, name, path=None, target=None):
        so = self.table.get(name)
        if so is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, so)
        return importlib.util.spec_from_file_location(name, so, loader=loader)


INFO = {}


def boot(full=True):
    """Imports the code under test; returns the pykrige module."""
    sys.dont_write_bytecode = True
    table, how = build_ext()
    INFO["ext"] = how
    if SRC in sys.path:
        sys.path.remove(SRC)
    sys.path.insert(0, SRC)
    # heavy third-party modules first: they are real, but not under test
    import numpy, scipy.linalg, scipy.linalg.lapack, scipy.optimize, scipy.spatial  # noqa
    import scipy.spatial.distance  # noqa

    if full:
        import sklearn, sklearn.svm, sklearn.model_selection, sklearn.linear_model  # noqa
        import sklearn.ensemble, sklearn.preprocessing, sklearn.metrics, joblib, cloudpickle  # noqa
        import sklearn.naive_bayes, sklearn.neighbors, sklearn.tree, sklearn.dummy  # noqa
        import gstools  # noqa
        import matplotlib.pyplot  # noqa
    sys.meta_path.insert(0, _ExtFinder(table))
    cooperative_locks()
    import pykrige

    assert os.path.realpath(pykrige.__file__).startswith(os.path.realpath(PKG)), pykrige.__file__
    import pykrige.core, pykrige.kriging_tools, pykrige.ok, pykrige.uk, pykrige.ok3d, pykrige.uk3d  # noqa
    import pykrige.compat, pykrige.compat_gstools, pykrige.variogram_models  # noqa
    import pykrige.lib.cok, pykrige.lib.variogram_models  # noqa

    for m in EXT:
        assert sys.modules["pykrige." + m.replace("/", ".")].__file__ == table[m]
    if full:
        import pykrige.rk, pykrige.ck  # noqa
    collect_code()
    return pykrige


def cooperative_locks():
    """Locks that the code under test creates block a simulated task, not the simulation."""
    import threading

    from . import kernel

    def factory(real, reentrant):
        def make(*a, **k):
            name = sys._getframe(1).f_globals.get("__name__", "")
            if name == "pykrige" or name.startswith("pykrige."):
                return kernel.CoopLock(reentrant)
            return real(*a, **k)
        return make

    threading.Lock = factory(threading.Lock, False)
    threading.RLock = factory(threading.RLock, True)


CODES = []


def collect_code():
    """All code objects of the code under test (for sys.monitoring)."""
    import gc

    seen = set()
    root = os.path.realpath(PKG)

    def add(code):
        if code in seen or not os.path.realpath(code.co_filename).startswith(root):
            return
        seen.add(code)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                add(c)

    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            add(o.__code__)
    CODES[:] = sorted(seen, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))
    return CODES


def pykrige_modules():
    return [m for n, m in sorted(sys.modules.items()) if (n == "pykrige" or n.startswith("pykrige.")) and m is not None]
