"""C16: missing optional components degrade, never corrupt."""
import contextlib
import importlib
import importlib.abc
import os
import shutil
import sys
import tempfile

import numpy as np

from .. import gen, ref, util, world
from ..base import Prop
from ..kernel import Rejected, Violation

# component -> modules of which one goes missing
PARTS = {
    "cok": ["pykrige.lib.cok", "pykrige.lib.cok", "pykrige.lib.variogram_models", "pykrige.lib"],
    "sklearn": ["sklearn", "sklearn", "sklearn.base", "sklearn.model_selection", "sklearn.metrics", "sklearn.svm"],
    "gstools": ["gstools"],
    "matplotlib": ["matplotlib", "matplotlib.pyplot"],
}
FLAVOR = {
    "ModuleNotFoundError": lambda n: ModuleNotFoundError("No module named %r" % n, name=n),
    "ImportError": lambda n: ImportError("DLL load failed while importing %s" % n, name=n),
    "OSError": lambda n: OSError(12, "cannot allocate memory for " + n),
    "RuntimeError": lambda n: RuntimeError("simulated: %s does not initialise" % n),
    "MemoryError": lambda n: MemoryError("simulated: loading " + n),
}
MISSING = ["ModuleNotFoundError", "ImportError"]


class Hider(importlib.abc.MetaPathFinder):
    """Makes modules missing, or fail to load, while they are listed."""

    def __init__(self, stats=None):
        self.out = {}      # module -> flavor
        self.saved = {}
        self.hits = {}

    def find_spec(self, name, path=None, target=None):
        for h, fl in self.out.items():
            if name == h or name.startswith(h + "."):
                self.hits["%s:%s" % (fl, h)] = self.hits.get("%s:%s" % (fl, h), 0) + 1
                raise FLAVOR[fl](name)
        return None

    def hide(self, name, flavor):
        self.out[name] = flavor
        for n in list(sys.modules):
            if n == name or n.startswith(name + "."):
                self.saved[n] = sys.modules.pop(n)
                par, _, last = n.rpartition(".")
                if par in sys.modules and getattr(sys.modules[par], last, None) is self.saved[n]:
                    delattr(sys.modules[par], last)
                    self.saved[n, "attr"] = (sys.modules[par], last)

    def show(self, name):
        self.out.pop(name, None)
        under = lambda n, h: n == h or n.startswith(h + ".")
        for n in [n for n in self.saved if isinstance(n, str) and under(n, name) and not any(under(n, h) for h in self.out)]:
            m = self.saved.pop(n)
            sys.modules[n] = m
            at = self.saved.pop((n, "attr"), None)
            if at:
                setattr(at[0], at[1], m)

    def comp(self, c):
        """The component is not complete now."""
        return any(n.split(".")[0] == c or c == "cok" and n.startswith("pykrige") for n in self.out)


class C16(Prop):
    id = "C16"
    runs = {"quick": 2500, "thorough": 40000}
    deadline = {"quick": 150, "thorough": 1500}
    rule = ("a case is a subset of the optional components (compiled extension, scikit-learn, GSTools, matplotlib; whole or one of their modules) that is missing when the package is "
            "imported in a process of its own, further components or the same ones disappearing, failing to load (also for lack of memory) and coming back between calls, and four to nine calls on models, "
            "wrappers and grid files; compared with the same calls, without those that need what is missing, in a complete installation; non-trivial when a component was missing")
    assumptions = ["a component is missing when importing it raises ImportError; other errors while loading (out of memory, I/O) are injected only where a single call needs the component, and may make that call fail",
                   "values are compared to 1e-7 of their scale; requests for the compiled backend are not judged where the kriging system has a condition number above 1e5"]

    def generate(self, rng, tier, i):
        start = []
        for c in PARTS:
            if rng.random() < 0.4:
                start.append([rng.choice(PARTS[c]), rng.choice(MISSING)])
        plan = {"start": start, "ops": []}
        specs = []
        nm = rng.randint(1, 3)
        for m in range(nm):
            if rng.random() < 0.3:
                w = world.gen_wrapper(rng)
                if w["kind"] == "rk" and rng.random() < 0.2:
                    w["est"] = "default"
                specs.append(w)
            else:
                s = gen.gen_model(rng, rng.choice(["ok", "ok", "ok", "uk", "ok3d", "uk3d"]))
                specs.append(s)
            plan["ops"].append({"op": "new", "m": m, "spec": specs[-1]})
        v = {m: s.get("v") for m, s in enumerate(specs)}
        hidden = {n for n, _ in start}
        for _ in range(rng.randint(4, 9)):
            r = rng.random()
            if r < 0.22:
                c = rng.choice(["cok", "cok", "matplotlib", "sklearn", "gstools"])
                n = rng.choice(PARTS[c])
                up = [h for h in hidden if rng.random() < 0.5]
                if rng.random() < 0.5 and up:
                    plan["ops"].append({"op": "show", "name": up[0]})
                    hidden.discard(up[0])
                elif c in ("cok", "matplotlib") and n not in hidden:
                    plan["ops"].append({"op": "hide", "name": n, "flavor": rng.choice(MISSING * 3 + ["OSError", "RuntimeError", "MemoryError"])})
                    hidden.add(n)
                continue
            if r < 0.28:
                g = world.gen_grid(rng)
                plan["ops"].append({"op": "file", "g": g})
                continue
            m = rng.randrange(nm)
            s = specs[m]
            if "kind" in s:
                if rng.random() < 0.7:
                    op = {"op": "predict", "m": m, "at": world.gen_where(rng, s)}
                else:
                    op = {"op": "fit", "m": m, "d": world.gen_data(rng, s)}
            else:
                op = world.gen_op(rng, m, s, v[m], ["query", "query", "query", "query", "update", "stats", "vpoints", "plot_vario", "plot_eps", "print_stats", "plot_update"])
                if op["op"] == "plot_update":
                    op["v"] = gen.next_vario(rng, s, v[m], gstools=False)
                    if op["v"]["model"] == "gstools":
                        op["v"] = gen.gen_vario(rng, s["cls"], s["geo"], gstools=False)
                if op["op"] == "query" and s["cls"] == "ok" and "C" in gen.backends(s, v[m]) and rng.random() < 0.6:
                    op["q"]["backend"] = "C"
                if op["op"] in ("update", "plot_update"):
                    v[m] = op["v"]
            plan["ops"].append(op)
        for m in range(nm):
            s = specs[m]
            if "kind" in s:
                plan["ops"].append({"op": "predict", "m": m, "at": world.gen_where(rng, s)})
            else:
                plan["ops"].append({"op": "query", "m": m, "q": gen.gen_query(rng, s, dict(v[m], model="gstools"))})   # no compiled backend: the settings may be others
                plan["ops"].append({"op": "stats", "m": m})
        return plan

    # -- one world ------------------------------------------------------------
    def play(self, plan, crippled):
        """[(needs, observation)] per operation; needs: None, "all" (must fail) or "may" (may fail)."""
        root = tempfile.mkdtemp(prefix="dst-c16-")
        out = []
        import gstools
        gen.GS = gstools
        hid = Hider()
        try:
            with util.quiet(), open(os.devnull, "w") as null, contextlib.redirect_stdout(null):
                if crippled is not None:
                    sys.meta_path.insert(0, hid)
                    for n in list(sys.modules):
                        if n == "pykrige" or n.startswith("pykrige."):
                            del sys.modules[n]
                    for n, fl in plan["start"]:
                        hid.hide(n, fl)
                    try:
                        importlib.import_module("pykrige")
                        importlib.import_module("pykrige.compat")
                    except BaseException as e:
                        raise Violation("the package does not import: %r" % e, missing=plan["start"])
                self.imported_without = {n for n, _ in plan["start"]}
                self.flags = {c: hid.comp(c) for c in PARTS}
                w = world.World(root)
                for k, op in enumerate(plan["ops"]):
                    if op["op"] == "hide":
                        if crippled is not None:
                            hid.hide(op["name"], op["flavor"])
                        out.append((None, None))
                        continue
                    if op["op"] == "show":
                        if crippled is not None:
                            hid.show(op["name"])
                        out.append((None, None))
                        continue
                    if crippled is None:
                        need = plan["_needs"][k]
                        if need == "all" or need == "failed":
                            out.append((need, None))
                            continue
                        out.append((self.vague(w, op), self.one(w, op)))
                        continue
                    if op["op"] != "new" and op.get("m") is not None and op["m"] not in w.o:
                        out.append(("failed", None))
                        continue
                    need = self.need(w, op, hid)
                    ob = self.one(w, op)
                    if need == "may" and ob[0] == "raise":
                        need = "failed"
                    if op["op"] == "new" and ob[0] == "raise":
                        w.o.pop(op["m"], None)
                    out.append((need, ob))
            return out, hid.hits
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def need(self, w, op, hid):
        k = op["op"]
        fl = self.flags

        def sk(spec):
            if spec.get("kind") in ("rk", "ck"):
                if fl["sklearn"]:
                    return "may" if self.part(spec, hid) is None else self.part(spec, hid)
                return None
            return None

        if k == "new":
            s = op["spec"]
            if "kind" in s:
                return sk(s)
            if s["v"]["model"] == "gstools" and fl["gstools"]:
                return "all"
            return None
        if k == "update" and op["v"]["model"] == "gstools" and fl["gstools"]:
            return "all"
        if k in ("plot_vario", "plot_eps", "plot_update") and hid.comp("matplotlib"):
            return "all"
        if k == "query" and op["q"]["backend"] == "C" and any(n.startswith("pykrige") and f not in MISSING for n, f in hid.out.items()):
            return "may"
        return None

    def part(self, spec, hid):
        """What a regression or classification model may expect of an incomplete scikit-learn."""
        n = self.imported_without
        if any(x in n for x in ("sklearn", "sklearn.base", "sklearn.model_selection")):
            return "all"
        return "may"

    def one(self, w, op):
        k = op["op"]
        if k == "plot_update":
            def go():
                o = w.o[op["m"]]
                o.enable_plotting = True
                try:
                    gen.update(o, op["v"])
                    w.v[op["m"]] = op["v"]
                finally:
                    o.enable_plotting = False
            ob = util.observe(go)
        elif k == "file":
            def go():
                p = w.path("g")
                world.write_grid(op["g"], p)
                return list(world.read_grid(op["g"]["fmt"], p))
            ob = util.observe(go)
        else:
            if k == "query" and op["q"]["backend"] == "C" and w.v[op["m"]]["model"] not in gen.BUILTIN[:5]:
                op = dict(op, q=dict(op["q"], backend="loop"))
            ob = w.run(op)
        if k.startswith("plot"):
            plt = sys.modules.get("matplotlib.pyplot")
            if plt is not None:
                plt.close("all")
        if k == "stats" and ob[0] == "ok" and ob[1][0] is None:
            ob = ("ok", None)
        return ob

    def vague(self, w, op):
        """Whether two implementations may answer differently within rounding."""
        if op["op"] != "query" or op["q"]["backend"] != "C":
            return None
        m = op["m"]
        r = ref.Ref(w.s[m], w.v[m], params=w.o[m].variogram_model_parameters)
        _, _, cd, ok = r.answer(gen.locations(op["q"]), op["q"].get("w"))
        return "vague" if not ok.all() or cd.max() > 1e5 else None

    def crippled(self, plan):
        return self.play(plan, True)

    def complete(self, plan):
        return self.play(plan, None)[0]

    def execute(self, plan, stats):
        got, hits = util.in_child(self.crippled, plan)
        for h, n in hits.items():
            stats.fault("missing " + h, n)
        stats.nontrivial = int(bool(hits) or bool(plan["start"]))
        ref = dict(plan, _needs=[n for n, _ in got])
        for k, (need, ob) in enumerate(got):
            if need == "all" and ob is not None and ob[0] == "ok":
                op = plan["ops"][k]
                raise Violation("a request that needs a missing component succeeds", op=op["op"], missing=plan["start"], index=k)
        want = util.in_child(self.complete, ref)
        for k, ((need, a), (vague, b)) in enumerate(zip(got, want)):
            op = plan["ops"][k]
            if vague == "vague":
                stats.probe("ill-conditioned query of the compiled backend")
                continue
            stats.probe("%s:%s" % (op["op"], need or "ordinary"))
            if a is None or need in ("all", "failed"):
                continue
            stats.evals += 1
            stats.event(op["op"], util.rounded(a[1]) if a[0] == "ok" else a[1])
            d = util.same_obs(a, b)
            if d and op["op"] == "new" and b[0] == "raise" and a[0] == "raise":
                d = None
            if d:
                raise Violation("the answer without the missing components differs from that of the complete installation: " + d, op=op["op"], index=k,
                                missing=plan["start"], later=[o for o in plan["ops"][:k] if o["op"] in ("hide", "show")],
                                backend=op.get("q", {}).get("backend"))


PROP = C16()
