"""C18: results do not depend on hidden nondeterminism."""
import atexit
import ctypes
import gc
import os
import pickle
import random
import shutil
import socket
import struct
import subprocess
import sys
import tempfile
import time
import types

import numpy as np

from .. import boot, fs, gen, kernel, util, world
from ..base import Prop
from ..kernel import Rejected, Violation

HASHSEEDS = ["1", "777", "2", "31337"]
TOL = 1e-9
SERVERS = {}
POISON = ["nan", "huge", "ones", "noise"]


def _send(s, o):
    b = pickle.dumps(o)
    s.sendall(struct.pack("q", len(b)) + b)


def _recv(s):
    def exact(n):
        out = b""
        while len(out) < n:
            c = s.recv(min(1 << 20, n - len(out)))
            if not c:
                raise EOFError
            out += c
        return out
    return pickle.loads(exact(struct.unpack("q", exact(8))[0]))


def serve(name):
    """A process with another hash seed that plays cases on request (in forked children)."""
    import select
    import signal

    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    s = socket.socket(socket.AF_UNIX)
    s.bind("\0" + name)
    s.listen(64)
    print("ready", flush=True)
    while True:
        ready, _, _ = select.select([s, 0], [], [])
        if 0 in ready and not os.read(0, 1):
            os._exit(0)
        if s in ready:
            c, _ = s.accept()
            if os.fork() == 0:
                try:
                    signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                    s.close()
                    null = os.open(os.devnull, os.O_RDWR)
                    os.dup2(null, 1)
                    try:
                        plan = _recv(c)
                        out = ("ok", PROP.disturbed(plan))
                    except BaseException as e:
                        out = ("error", repr(e))
                    _send(c, out)
                finally:
                    os._exit(0)
            c.close()


class Env:
    """The disturbances, applied to this (child) process for good."""

    def __init__(self, e):
        self.e = e
        self.hits = {}

    def hit(self, k, n=1):
        self.hits[k] = self.hits.get(k, 0) + n

    def apply(self):
        e = self.e
        r = random.Random(e["seed"])
        random.seed(r.getrandbits(32))
        np.random.seed(r.getrandbits(32))
        real_rng = np.random.default_rng
        seq = [r.getrandbits(32)]

        def default_rng(seed=None):
            if seed is None:
                seq[0] += 1
                self.hit("entropy")
                return real_rng(seq[0])
            return real_rng(seed)

        np.random.default_rng = default_rng
        rb = random.Random(e["seed"] + 5)

        def urandom(n):
            self.hit("entropy")
            return rb.randbytes(n)

        os.urandom = urandom
        if e.get("poison"):
            self.poison(e["poison"], r)
        if e.get("perturb"):
            try:
                if ctypes.CDLL(None).mallopt(-6, e["perturb"]):
                    self.hit("freed and fresh memory overwritten")
            except (OSError, AttributeError):
                pass
        if e.get("clock"):
            self.clocks(e, r)
        if e.get("junk"):
            self.keep = [bytearray(r.randrange(1, 5000)) for _ in range(e["junk"])]
            del self.keep[::2]
            self.hit("memory layout")
        if e.get("place"):
            # the caller's functions live elsewhere, in another order of addresses
            for d in (gen.FUNC2, gen.FUNC3, gen.VARIO):
                for k, f in d.items():
                    if isinstance(f, types.FunctionType):
                        many = [types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, f.__closure__) for _ in range(60)]
                        d[k] = r.choice(many)
            self.hit("functions at other addresses")
        g = e.get("gc")
        if g == "off":
            gc.disable()
        elif g == "always":
            gc.set_threshold(1, 1, 1)
        if g:
            self.hit("gc " + g)

    def poison(self, how, r):
        real, real_like = np.empty, np.empty_like
        rng = np.random.RandomState(r.getrandbits(32))

        busy = [False]

        def fill(a):
            if busy[0]:
                return a
            busy[0] = True
            try:
                return dirty(a)
            finally:
                busy[0] = False

        def dirty(a):
            self.hit("uninitialised memory: " + how)
            if a.dtype.kind in "fc":
                a[...] = {"nan": np.nan, "huge": 1e300, "ones": 1.0}.get(how, 0)
                if how == "noise":
                    a[...] = rng.standard_normal(a.shape)
            elif a.dtype.kind in "iu":
                a[...] = rng.randint(0, 100, a.shape)
            elif a.dtype.kind == "b":
                a[...] = rng.randint(0, 2, a.shape)
            return a

        np.empty = lambda *a, **k: fill(real(*a, **k))
        np.empty_like = lambda *a, **k: fill(real_like(*a, **k))

    def clocks(self, e, r):
        self.cm = fs.clock(e["clock"])
        self.cm.__enter__()
        base = [r.uniform(0, 1e6)]

        def tick(*a):
            self.hit("clock jump")
            base[0] += r.choice([-3600.0, 0.0, 1e-6, 0.5, 86400.0, 1e9])
            return base[0]

        for n in ("perf_counter", "monotonic", "process_time", "thread_time"):
            setattr(time, n, tick)
        for n in ("perf_counter_ns", "monotonic_ns", "time_ns", "process_time_ns"):
            setattr(time, n, lambda: int(tick() * 1e9))


class C18(Prop):
    id = "C18"
    runs = {"quick": 1500, "thorough": 40000}
    deadline = {"quick": 150, "thorough": 1500}
    rule = ("a case is one or two models or wrappers, grid files and three to eight calls, played once undisturbed and once with a seeded set of disturbances: clocks that stand, jump and run backwards, other states of "
            "all random number generators and operating system entropy, another hash seed (in a process started with it), overwritten fresh and freed memory, other memory layout, user functions at other addresses, garbage collection off or at every "
            "allocation, and unrelated work beforehand and in between; non-trivial when at least one disturbance was in force")
    assumptions = ["values are compared to 1e-9 of their scale", "overwriting of memory reaches numpy.empty and the C allocator"]

    def setup(self):
        for h in HASHSEEDS:
            name = "dst-c18-%d-%s" % (os.getpid(), h)
            env = dict(os.environ, DST_HASHSEED=h)
            env["PYTHONHASHSEED"] = h
            SERVERS[h] = (name, subprocess.Popen([sys.executable, os.path.join(boot.VERIF, "dst", "cli.py"), "serve", name], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL))
        for h, (name, p) in SERVERS.items():
            if p.stdout.readline().strip() != b"ready":
                raise RuntimeError("the helper process with another hash seed does not start")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and [p.kill() for _, p in SERVERS.values()])

    def generate(self, rng, tier, i):
        plan = {"models": [], "ops": []}
        for _ in range(rng.choice([1, 1, 2])):
            if rng.random() < 0.25:
                plan["models"].append(world.gen_wrapper(rng))
            else:
                plan["models"].append(gen.gen_model(rng))
        for s in plan["models"]:
            d = (s.get("model") or s).get("drift") or {}
            if "functional" in d.get("terms", ()) and rng.random() < 0.5:
                d["func"] = rng.sample(sorted(gen.FUNC3 if s["cls"].endswith("3d") else gen.FUNC2), rng.randint(2, 3))
        v = {m: s.get("v") for m, s in enumerate(plan["models"])}
        nf = 0
        for _ in range(rng.randint(3, 7)):
            r = rng.random()
            if r < 0.15:
                g = world.gen_grid(rng)
                plan["ops"].append({"op": "write", "g": g, "f": "f%d" % nf})
                plan["ops"].append({"op": "read", "fmt": g["fmt"], "f": "f%d" % nf})
                nf += 1
                continue
            m = rng.randrange(len(plan["models"]))
            s = plan["models"][m]
            if "kind" in s:
                k = rng.choice(["predict", "predict", "fit", "score"])
                if s["kind"] == "ck" and s.get("labels") == "float" and k == "score":
                    k = "predict"
                plan["ops"].append({"op": k, "m": m, "at": world.gen_where(rng, s)} if k == "predict" else {"op": k, "m": m, "d": world.gen_data(rng, s)})
            else:
                op = world.gen_op(rng, m, s, v[m], ["query", "query", "query", "query", "update", "stats", "vpoints"])
                if op["op"] == "update":
                    v[m] = op["v"]
                plan["ops"].append(op)
        for t in plan["models"] + plan["ops"]:
            p = (t.get("v") or {}).get("params") or {}
            d = p.get("dict") if isinstance(p, dict) else None
            if d and rng.random() < 0.3:
                # one value more than needed
                if "sill" in d:
                    d["psill"] = gen.r3(d["sill"] * 0.61)
                elif "psill" in d:
                    d["sill"] = gen.r3(d["psill"] * 1.7 + d["nugget"])
        e = {"seed": rng.getrandbits(32)}
        if rng.random() < 0.6:
            e["poison"] = rng.choice(POISON)
        if rng.random() < 0.5:
            e["perturb"] = rng.choice([1, 0x5a, 0xff, 0x80])
        if rng.random() < 0.5:
            e["clock"] = [rng.choice(fs.CLOCKS) for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.3:
            e["junk"] = rng.choice([10, 500, 5000])
        if rng.random() < 0.4:
            e["place"] = True
        if rng.random() < 0.4:
            e["gc"] = rng.choice(["off", "always"])
        if rng.random() < 0.3:
            e["hash"] = rng.choice(HASHSEEDS)
        if rng.random() < 0.4:
            # unrelated work of the same kinds, before and in between
            other = {"models": [gen.gen_model(rng)], "ops": []}
            for _ in range(rng.randint(1, 3)):
                other["ops"].append(world.gen_op(rng, 0, other["models"][0], other["models"][0]["v"], ["query", "update", "stats", "bad_query", "bad_update", "plot_vario"]))
            e["other"] = other
            if rng.random() < 0.5:
                # a near twin of a model of the case: same sizes, other numbers
                tw = rng.choice(plan["models"])
                if "kind" not in tw:
                    import copy
                    tw = copy.deepcopy(tw)
                    tw["vals"] = [gen.r3(1.5 * x + 1.0) for x in tw["vals"]] if tw["cls"] else tw["vals"]
                    other["models"] = [tw]
                    other["ops"] = [dict(o, m=0) for o in plan["ops"] if o.get("m") is not None and plan["models"][o["m"]].get("pts") == tw["pts"] and o["op"] == "query"][:3]
        plan["env"] = e
        return plan

    def play(self, plan, env=None):
        root = tempfile.mkdtemp(prefix="dst-c18-")
        out = []
        try:
            with util.quiet():
                if env is None:
                    random.seed(0)
                    np.random.seed(0)
                else:
                    env.apply()
                def extra():
                    o = (plan["env"].get("other") if env is not None else None)
                    if o:
                        w2 = world.World(root)
                        try:
                            w2.make(0, o["models"][0])
                        except Exception:
                            return
                        for op in o["ops"]:
                            w2.run(op)
                        env.hit("unrelated work")
                extra()
                w = world.World(root)
                for k, s in enumerate(plan["models"]):
                    try:
                        w.make(k, s)
                    except Exception as e:
                        out.append(("raise", type(e).__name__, str(e)[:100]))
                        return out
                for j, op in enumerate(plan["ops"]):
                    out.append(w.run(op))
                    if env is not None and env.e["seed"] % 3 == j % 3:
                        extra()
                        if env.e.get("gc"):
                            gc.collect()
            return out
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def disturbed(self, plan):
        env = Env(plan["env"])
        return self.play(plan, env), env.hits

    def execute(self, plan, stats):
        want = util.in_child(self.play, plan)
        h = plan["env"].get("hash")
        if h:
            if h not in SERVERS:
                raise Rejected("no helper process")
            s = socket.socket(socket.AF_UNIX)
            s.settimeout(80)
            s.connect("\0" + SERVERS[h][0])
            _send(s, plan)
            r = _recv(s)
            s.close()
            if r[0] != "ok":
                raise RuntimeError("helper process: " + r[1])
            got, hits = r[1]
            stats.fault("hash seed " + h)
        else:
            got, hits = util.in_child(self.disturbed, plan)
        for k, n in hits.items():
            stats.fault(k, n)
        stats.nontrivial = int(bool(hits) or bool(h))
        names = ["building"] if len(want) == 1 and len(plan["ops"]) != 1 else [op["op"] for op in plan["ops"]]
        if len(got) != len(want):
            raise Violation("building the models ends differently under disturbances", got=util.short(got[-1]), want=util.short(want[-1]), env={k: v for k, v in plan["env"].items() if k != "other"})
        for k, (a, b) in enumerate(zip(got, want)):
            stats.evals += 1
            stats.event(k, util.rounded(a[1]) if a[0] == "ok" else a[1])
            if names[k] == "stats" and a[0] == b[0] == "ok" and a[1][0] is None and b[1][0] is None:
                continue
            d = util.same_obs(a, b, TOL)
            if d:
                raise Violation("the same call answers differently under disturbances: " + d, op=names[k], index=k, env={k: v for k, v in plan["env"].items() if k != "other"},
                                other="other" in plan["env"])

    def simplify(self, plan):
        import copy

        for k in ("poison", "perturb", "clock", "junk", "place", "gc", "hash", "other"):
            if k in plan["env"]:
                p = copy.deepcopy(plan)
                p["env"].pop(k)
                yield p


PROP = C18()
