"""Observations, comparisons, child processes, process-state snapshots."""
import contextlib
import os
import pickle
import sys
import time

import numpy as np

from . import kernel
from .kernel import Rejected, SimAbort, SimKill, Violation

TOL = 1e-7


# -- observations ------------------------------------------------------------
class Arr:
    """A normalised array result: shape, mask and the unmasked values."""

    __slots__ = ("shape", "mask", "data")

    def __init__(self, a):
        if isinstance(a, np.ma.MaskedArray):
            m = np.array(np.ma.getmaskarray(a))
            self.mask = m if m.any() else None
            d = np.array(a.data)
            if self.mask is not None:
                if d.dtype.kind == "f":
                    d[m] = 0.0
            self.data = d
        else:
            self.mask = None
            self.data = np.array(a)
        self.shape = self.data.shape

    def __repr__(self):
        return "Arr(%s%s)" % (np.array2string(self.data.ravel()[:8], precision=6), "" if self.mask is None else " masked")


def norm(r):
    if isinstance(r, np.ndarray):
        return Arr(r)
    if isinstance(r, (tuple, list)):
        return [norm(x) for x in r]
    if isinstance(r, (np.generic,)):
        return r.item()
    return r


def observe(fn):
    """('ok', normal form) or ('raise', exception type)."""
    try:
        return ("ok", norm(fn()))
    except (SimAbort, SimKill, Violation, Rejected):
        raise
    except BaseException as e:  # noqa
        return ("raise", type(e).__name__, str(e)[:160])


def scale_of(a):
    if isinstance(a, Arr):
        if a.data.dtype.kind in "fiu" and a.data.size:
            f = np.abs(a.data[np.isfinite(a.data)]) if a.data.dtype.kind == "f" else np.abs(a.data)
            return float(f.max()) if f.size else 0.0
        return 0.0
    return 0.0


def same(a, b, tol=TOL):
    """None if the two normal forms agree, else a short description."""
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.shape != b.shape:
            return "shape %s != %s" % (a.shape, b.shape)
        ma = a.mask if a.mask is not None else np.zeros(a.shape, bool)
        mb = b.mask if b.mask is not None else np.zeros(b.shape, bool)
        if not np.array_equal(ma, mb):
            return "masks differ"
        if a.data.dtype.kind == "f" or b.data.dtype.kind == "f":
            x, y = a.data[~ma].astype(float), b.data[~ma].astype(float)
            sc = max(1.0, scale_of(a), scale_of(b))
            with np.errstate(all="ignore"):
                bad = ~((np.abs(x - y) <= tol * sc) | (np.isnan(x) & np.isnan(y)) | (x == y))
            if bad.any():
                i = int(np.flatnonzero(bad)[0])
                return "value %d: %.12g != %.12g" % (i, x[i], y[i])
            return None
        return None if np.array_equal(a.data[~ma], b.data[~ma]) else "contents differ"
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "length %d != %d" % (len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, tol)
            if d:
                return "[%d] %s" % (i, d)
        return None
    if isinstance(a, float) and isinstance(b, (int, float)) or isinstance(b, float) and isinstance(a, (int, float)):
        if a == b or (a != a and b != b):
            return None
        return None if abs(a - b) <= tol * max(1.0, abs(a), abs(b)) else "%.12g != %.12g" % (a, b)
    if isinstance(a, Arr) != isinstance(b, Arr):
        return "kinds differ: %r / %r" % (a, b)
    return None if a == b else "%r != %r" % (a, b)


def same_obs(a, b, tol=TOL):
    if a[0] != b[0]:
        return "%s instead of %s" % (short(a), short(b))
    if a[0] == "raise":
        return None if a[1] == b[1] else "%s instead of %s" % (short(a), short(b))
    return same(a[1], b[1], tol)


def short(o):
    if o[0] == "raise":
        return "raised %s(%s)" % (o[1], o[2])
    return "returned %s" % (str(o[1])[:200],)


def rounded(o):
    """Loggable form of an observation (for the event log)."""
    if isinstance(o, Arr):
        d = o.data
        if d.dtype.kind == "f":
            d = np.round(d, 6) + 0.0
        return (o.shape, d.tolist(), None if o.mask is None else o.mask.tolist())
    if isinstance(o, (list, tuple)):
        return [rounded(x) for x in o]
    if isinstance(o, float):
        return round(o, 6)
    return o


# -- child processes ----------------------------------------------------------
def in_child(fn, *args):
    """fn(*args) in a forked child of this process; nothing it does can leak here."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            kernel.ACTIVE = None
            try:
                out = ("ok", fn(*args))
            except Rejected as e:
                out = ("rejected", str(e))
            except Violation as e:
                out = ("violation", e.message, e.detail)
            except BaseException:
                import traceback

                out = ("error", traceback.format_exc()[-3000:])
            data = pickle.dumps(out)
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    os.waitpid(pid, 0)
    out = pickle.loads(b"".join(chunks)) if chunks else ("error", "child died")
    if out[0] == "ok":
        return out[1]
    if out[0] == "rejected":
        raise Rejected(out[1])
    if out[0] == "violation":
        raise Violation(out[1], **out[2])
    raise RuntimeError("baseline child failed: " + out[1])


class Clean:
    """A process forked before the run did anything. Every call is answered by a
    child of its own of that process, so it sees nothing the run, or another
    call, left behind in the process."""

    def __init__(self):
        self.r, cw = os.pipe()
        cr, self.w = os.pipe()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.r)
                os.close(self.w)
                with os.fdopen(cr, "rb") as f:
                    while True:
                        try:
                            fn, args = pickle.load(f)
                        except EOFError:
                            break
                        try:
                            out = ("ok", in_child(fn, *args))
                        except Rejected as e:
                            out = ("rejected", str(e))
                        except Violation as e:
                            out = ("violation", e.message, e.detail)
                        except BaseException as e:
                            out = ("error", str(e))
                        data = pickle.dumps(out)
                        data = len(data).to_bytes(8, "big") + data
                        off = 0
                        while off < len(data):
                            off += os.write(cw, data[off:off + 65536])
            finally:
                os._exit(0)
        os.close(cw)
        os.close(cr)

    def call(self, fn, *args):
        data = pickle.dumps((fn, args))
        off = 0
        while off < len(data):
            off += os.write(self.w, data[off:off + 65536])
        data = self.read(int.from_bytes(self.read(8), "big"))
        out = pickle.loads(data)
        if out[0] == "ok":
            return out[1]
        if out[0] == "rejected":
            raise Rejected(out[1])
        if out[0] == "violation":
            raise Violation(out[1], **out[2])
        raise RuntimeError("clean process failed: " + out[1])

    def read(self, n):
        data = b""
        while len(data) < n:
            b = os.read(self.r, n - len(data))
            if not b:
                raise RuntimeError("the clean process died")
            data += b
        return data

    def close(self):
        os.close(self.w)
        os.close(self.r)
        os.waitpid(self.pid, 0)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


# -- content of arguments ---------------------------------------------------------
def content(o, depth=0):
    """A comparable copy of the content of an argument structure."""
    if isinstance(o, np.ma.MaskedArray):
        return ("ma", o.shape, str(o.dtype), np.array(o.data).tobytes(), np.ma.getmaskarray(o).tobytes())
    if isinstance(o, np.ndarray):
        return ("nd", o.shape, str(o.dtype), o.strides, np.array(o).tobytes())
    if isinstance(o, dict):
        return ("dict", [(k, content(v, depth + 1)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [content(v, depth + 1) for v in o])
    if isinstance(o, (int, float, str, bool, bytes, type(None))):
        return o
    return ("id", id(o))


# -- process-wide state ------------------------------------------------------------
def lib_tables():
    """The library's own public tables, constants and default arguments."""
    from . import boot
    import types

    out = {}

    def val(v):
        if isinstance(v, (int, float, str, bool, type(None))):
            return repr(v)
        if isinstance(v, (list, tuple)):
            return [val(x) for x in v]
        if isinstance(v, dict):
            return [(repr(k), val(x)) for k, x in v.items()]
        if isinstance(v, np.ndarray):
            return content(v)
        return "%s@%x" % (type(v).__name__, id(v))

    def func(name, f):
        f = getattr(f, "__wrapped__", f)
        if isinstance(f, types.FunctionType):
            out[name + ".defaults"] = val(f.__defaults__)
            out[name + ".kwdefaults"] = val(f.__kwdefaults__)

    for m in boot.pykrige_modules():
        for k, v in sorted(vars(m).items()):
            if k.startswith("_") or isinstance(v, types.ModuleType):
                continue
            if isinstance(v, type):
                if v.__module__ == m.__name__:
                    for a, b in sorted(vars(v).items()):
                        if isinstance(b, types.FunctionType):
                            func("%s.%s.%s" % (m.__name__, k, a), b)
                        elif not a.startswith("_"):
                            out["%s.%s.%s" % (m.__name__, k, a)] = val(b)
                continue
            if isinstance(v, types.FunctionType):
                func("%s.%s" % (m.__name__, k), v)
                continue
            if isinstance(v, (int, float, str, bool, list, tuple, dict, np.ndarray)):
                out["%s.%s" % (m.__name__, k)] = val(v)
    return out


def process_state(fds=True):
    import atexit
    import builtins
    import decimal
    import gc
    import locale
    import logging
    import random
    import resource
    import signal
    import threading
    import warnings

    st = {}
    st["numpy.errstate"] = repr(sorted(np.geterr().items()))
    st["numpy.errcall"] = repr(np.geterrcall())
    po = np.get_printoptions()
    st["numpy.printoptions"] = repr(sorted((k, repr(v)) for k, v in po.items()))
    st["numpy.bufsize"] = np.getbufsize()
    s = np.random.get_state()
    st["numpy.random"] = (s[0], s[1].tobytes(), s[2:])
    st["random"] = random.getstate()
    st["warnings.filters"] = [(a, b.pattern if b else None, c, d.pattern if d else None, e) for a, b, c, d, e in [(f[0], f[1] if hasattr(f[1], "pattern") else None, f[2], f[3] if hasattr(f[3], "pattern") else None, f[4]) for f in warnings.filters]]
    st["warnings.functions"] = (id(warnings.showwarning), id(warnings._showwarnmsg_impl), id(warnings.formatwarning))
    st["locale"] = locale.setlocale(locale.LC_ALL)
    st["cwd"] = os.getcwd()
    st["environ"] = dict(os.environ)
    st["streams"] = (id(sys.stdout), id(sys.stderr), id(sys.stdin), id(sys.__stdout__), sys.stdout.closed, sys.stderr.closed)
    st["recursionlimit"] = sys.getrecursionlimit()
    st["switchinterval"] = sys.getswitchinterval()
    st["hooks"] = (id(sys.excepthook), id(sys.displayhook), id(sys.gettrace()), id(sys.getprofile()), id(threading.excepthook))
    st["signals"] = [repr(signal.getsignal(i)) for i in range(1, 32) if i not in (9, 19)]
    st["itimer"] = signal.getitimer(signal.ITIMER_REAL)
    st["gc"] = (gc.isenabled(), gc.get_threshold())
    st["decimal"] = repr(decimal.getcontext())
    st["logging"] = (logging.root.level, len(logging.root.handlers), logging.root.manager.disable)
    st["threads"] = sorted(t.name for t in threading.enumerate() if not t.name.startswith("dst-"))
    st["sys.path"] = list(sys.path)
    u = os.umask(0)
    os.umask(u)
    st["umask"] = u
    if fds:
        st["open files"] = sorted(os.readlink("/proc/self/fd/" + f) if os.path.islink("/proc/self/fd/" + f) else "?" for f in os.listdir("/proc/self/fd") if _fd_ok(f))
    st["stacksize"] = threading.stack_size()
    st["builtins"] = sorted(vars(builtins))
    st["atexit"] = atexit._ncallbacks()
    st["tz"] = time.tzname
    st["affinity"] = (sorted(os.sched_getaffinity(0)), os.getpriority(os.PRIO_PROCESS, 0))
    st["limits"] = [resource.getrlimit(i) for i in (resource.RLIMIT_NOFILE, resource.RLIMIT_AS, resource.RLIMIT_STACK, resource.RLIMIT_FSIZE, resource.RLIMIT_CPU)]
    # of libraries that are loaded anyway
    M = sys.modules
    if "matplotlib" in M and hasattr(M["matplotlib"], "rcParams"):
        st["matplotlib.rcParams"] = {k: repr(dict.__getitem__(M["matplotlib"].rcParams, k)) for k in list(dict.keys(M["matplotlib"].rcParams)) if "backend" not in k}
    if "sklearn" in M and hasattr(M["sklearn"], "get_config"):
        st["sklearn.config"] = M["sklearn"].get_config()
    if "scipy.special" in M:
        st["scipy.special.errstate"] = M["scipy.special"].geterr()
    if "socket" in M:
        st["socket.timeout"] = M["socket"].getdefaulttimeout()
    if "faulthandler" in M:
        st["faulthandler"] = M["faulthandler"].is_enabled()
    for k, v in lib_tables().items():
        st["library:" + k] = v
    return st


def _fd_ok(f):
    try:
        return not os.readlink("/proc/self/fd/" + f).startswith("/proc/")
    except OSError:
        return False


def state_diff(a, b, ignore=()):
    out = []
    for k in a:
        if k in ignore or any(k.startswith(i) for i in ignore if i.endswith(":")):
            continue
        if k.startswith("library:") and k not in b:
            out.append(k + " disappeared")
        elif a[k] != b.get(k):
            out.append(k if len(repr(a[k])) > 300 else "%s: %r -> %r" % (k, a[k], b.get(k)))
    return out


@contextlib.contextmanager
def quiet():
    """Warnings ignored (without touching the filters' later state)."""
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def check(cond, message, **detail):
    if not cond:
        raise Violation(message, **detail)
