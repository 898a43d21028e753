"""C08: saved models resume where they left off."""
import copy
import json
import os
import pickle
import random
import shutil
import subprocess
import sys
import tempfile

from .. import gen, hist, kernel, sim, util, world
from ..base import Prop
from ..kernel import Rejected, SimKill, Violation

KINDS = ["query", "query", "update", "update", "bad_query", "bad_update", "stats", "vpoints", "sw_verbose"]
HOWS = ["deepcopy", "pickle", "pickle", "pickle", "disk", "disk", "joblib", "cloudpickle"]


def save(obj, how, proto, path):
    if how == "deepcopy":
        return copy.deepcopy(obj)
    if how == "pickle":
        return pickle.dumps(obj, protocol=proto)
    if how == "cloudpickle":
        import cloudpickle

        return cloudpickle.dumps(obj, protocol=proto)
    if how == "joblib":
        import joblib

        joblib.dump(obj, path)
        return path
    with open(path, "wb") as f:
        pickle.dump(obj, f, protocol=proto)
    return path


def restore(img, how):
    if how == "deepcopy":
        return img
    if how in ("pickle", "cloudpickle"):
        return pickle.loads(img)
    if how == "joblib":
        import joblib

        return joblib.load(img)
    with open(img, "rb") as f:
        return pickle.load(f)


def resume(img, how, spec, slot, ops):
    """Restores an object in this process and runs the operations on it."""
    with util.quiet():
        w = world.World()
        w.o[slot] = restore(img, how)
        w.s[slot] = spec
        return [w.run(op) for op in ops]


def resume_file(path):
    """Entry of the fresh interpreter (dst/cli.py resume FILE)."""
    with open(path, "rb") as f:
        job = pickle.load(f)
    out = resume(job["img"], job["how"], job["spec"], job["slot"], job["ops"])
    with open(path + ".out", "wb") as f:
        pickle.dump(out, f)
    return 0


class Server:
    """A process forked before the run built anything: it holds no state of the
    models it is later asked to restore."""

    def __init__(self):
        self.r, cw = os.pipe()
        cr, self.w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.r)
                os.close(self.w)
                with os.fdopen(cr, "rb") as f:
                    data = f.read()
                if data:
                    img, how, spec, slot, ops = pickle.loads(data)
                    try:
                        out = ("ok", resume(img, how, spec, slot, ops))
                    except BaseException as e:
                        out = ("error", repr(e))
                    with os.fdopen(cw, "wb") as f:
                        f.write(pickle.dumps(out))
            finally:
                os._exit(0)
        os.close(cw)
        os.close(cr)
        self.used = False

    def ask(self, *job):
        self.used = True
        with os.fdopen(self.w, "wb") as f:
            f.write(pickle.dumps(job))
        with os.fdopen(self.r, "rb") as f:
            out = f.read()
        os.waitpid(self.pid, 0)
        return pickle.loads(out) if out else ("error", "the restoring process died")

    def close(self):
        if not self.used:
            os.close(self.w)
            os.close(self.r)
            os.waitpid(self.pid, 0)


class C08(Prop):
    id = "C08"
    runs = {"quick": 2500, "thorough": 60000}
    deadline = {"quick": 150, "thorough": 1800}
    clean = True
    rule = ("a case is one or two objects and a history of 4-10 operations on them (some aborted by injected faults) in which they are saved one to three times (copied, "
            "pickled with any protocol, written to disk with pickle or joblib), at quiet moments, in the middle of a query of another task, or right after an aborted call, or inherited by a worker process forked in the middle of a query; the "
            "original then crashes or goes on, and both are updated, queried and compared with freshly built objects; some images are restored in another process; "
            "non-trivial when an object and its copy were both judged after an operation on one of them, or a copy was judged in another process")
    assumptions = ["the bytes of an image survive the crash (the storage of the image is the caller's)", "values are compared to 1e-7 of their scale"]

    def generate(self, rng, tier, i):
        plan = {"models": []}
        for _ in range(rng.choice([1, 1, 2])):
            if plan["models"] and rng.random() < 0.5:
                plan["models"].append(world.sibling(rng, plan["models"][0]))
            elif rng.random() < 0.3:
                plan["models"].append(world.gen_wrapper(rng))
            else:
                plan["models"].append(gen.gen_model(rng))
        ops = hist.gen_history(rng, plan, rng.randint(3, 8), KINDS, 0.15)
        nslots = len(plan["models"])
        origin = {}
        out = []
        saves = sorted(rng.randrange(len(ops) + 1) for _ in range(rng.choice([1, 1, 2, 3])))
        for n, op in enumerate(ops + [None]):
            while saves and saves[0] == n:
                saves.pop(0)
                m = rng.randrange(nslots)
                base = m
                while base in origin:
                    base = origin[base]
                sv = {"op": "save", "m": m, "to": nslots, "how": rng.choice(HOWS), "proto": rng.choice([2, 3, 4, 5]), "crash": rng.random() < 0.3}
                if rng.random() < 0.3:
                    sv["during"] = hist.gen_probe(rng, plan["models"][base], m)
                    sv["frac"] = rng.random()
                if rng.random() < 0.12:
                    # a worker process forked while another thread is in the middle of a call
                    out.append({"op": "fork", "m": m, "during": hist.gen_probe(rng, plan["models"][base], m), "frac": rng.random(),
                                "probes": [hist.gen_probe(rng, plan["models"][base], m) for _ in range(2)]})
                origin[nslots] = m
                nslots += 1
                out.append(sv)
            if op is not None:
                # later operations go to the original or to one of its copies
                op["m"] = rng.choice([op["m"]] + [c for c in origin if self.base(origin, c) == op["m"]])
                out.append(op)
        plan["ops"] = out
        plan["origin"] = [[a, b] for a, b in origin.items()]
        plan["pseed"] = rng.getrandbits(32)
        r = rng.random()
        plan["other"] = "server" if r < 0.3 else "interpreter" if r < 0.305 else None
        plan["other_how"] = rng.choice(["pickle", "disk", "joblib"])
        return plan

    @staticmethod
    def base(origin, c):
        while c in origin:
            c = origin[c]
        return c

    def shrink_lists(self, plan):
        return [("ops",)]

    def execute(self, plan, stats):
        server = Server() if plan["other"] == "server" else None
        root = tempfile.mkdtemp(prefix="dst-c08-")
        try:
            self.execute_in(plan, stats, server, root)
        finally:
            if server:
                server.close()
            shutil.rmtree(root, ignore_errors=True)

    def take(self, r, op, stats, root, nfile):
        m, to, how = op["m"], op["to"], op["how"]
        obj = r.w.o[m]
        path = os.path.join(root, "img%d" % nfile)
        if "during" in op:
            q = dict(op["during"], m=m)
            at = util.in_child(lambda: sim.place(sim.count(lambda: r.w.run(q)), "point", op["frac"]))
            box = {}

            def saver():
                box["img"] = save(obj, how, op["proto"], path)

            k = sim.run_tasks([lambda: box.setdefault("obs", r.w.run(q)), saver],
                              {"mode": "explicit", "switches": [[-1, 0, 0], [0, at, 1], [1, "end", 0]]}, stats)
            stats.fault("saved in the middle of a call")
            img = box["img"]
        else:
            img = save(obj, how, op["proto"], path)
        r.w.o[to] = restore(img, how)
        r.w.s[to] = r.w.s[m]
        r.specs.extend([None] * (to + 1 - len(r.specs)))
        r.specs[to] = copy.deepcopy(r.specs[m])
        r.dirty[to] = r.dirty[m]
        if m in r.unsure:
            r.unsure.add(to)
        stats.probe("saved:" + how)
        if op["crash"]:
            # the original is gone; the copy takes its place
            r.w.o[m] = restore(save(r.w.o[to], "pickle", op["proto"], path + ".b"), "pickle")
            stats.fault("crash and restore")

    def fork(self, r, op, stats):
        m = op["m"]
        q = dict(op["during"], m=m)
        at = util.in_child(lambda: sim.place(sim.count(lambda: r.w.run(q)), "point", op["frac"]))
        box = {}

        def forker():
            box["got"] = util.in_child(lambda: [r.w.run(dict(p, m=m)) for p in op["probes"]])

        sim.run_tasks([lambda: box.setdefault("obs", r.w.run(q)), forker],
                      {"mode": "explicit", "switches": [[-1, 0, 0], [0, at, 1], [1, "end", 0]]}, stats)
        stats.fault("forked in the middle of a call")
        stats.nontrivial = 1
        return box["got"]

    def execute_in(self, plan, stats, server, root):
        try:
            r = hist.Runner(plan, stats)
        except Exception as e:
            raise Rejected("world cannot be built: %r" % e)
        rng = random.Random(plan["pseed"])
        jobs, got = [], []
        touched = set()
        saved_once = False
        for n, op in enumerate(plan["ops"]):
            if op["op"] == "save":
                if op["m"] not in r.w.o:
                    continue
                try:
                    self.take(r, op, stats, root, n)
                except (Violation, Rejected, SimKill):
                    raise
                except Exception as e:
                    raise Violation("object cannot be saved and restored: %r" % e, how=op["how"])
                saved_once = True
            elif op["op"] == "fork":
                m = op["m"]
                if m not in r.w.o or m in r.unsure or r.dirty[m]:
                    continue
                for p, o in zip(op["probes"], self.fork(r, op, stats)):
                    jobs.append((r.specs[m], dict(p, m=m)))
                    got.append((n, o, "forked worker"))
            else:
                if op["m"] not in r.w.o:
                    continue
                obs = r.step(op)
                stats.event(n, op["op"], obs[0])
                if saved_once and obs[0] == "ok" and op["op"] in ("update", "fit"):
                    touched.add(op["m"])
            last = n == len(plan["ops"]) - 1
            for m, sp in enumerate(r.specs):
                if sp is None:
                    continue
                probe = hist.gen_probe(rng, sp, m)
                if not (rng.random() < 0.25 or last) or m in r.unsure or r.dirty[m]:
                    continue
                jobs.append((sp, probe))
                got.append((n, r.w.run(probe), "same process"))
                if touched and saved_once:
                    stats.nontrivial = 1
        if plan["other"]:
            # another image of every judged object, restored elsewhere
            cand = [m for m in sorted(r.w.o) if m not in r.unsure and not r.dirty[m]]
            if cand:
                m = cand[plan["pseed"] % len(cand)]
                sp = r.specs[m]
                how = plan["other_how"]
                ops = [hist.gen_probe(rng, sp, m) for _ in range(2)]
                sp2 = sp
                if "kind" not in sp:
                    v = gen.next_vario(rng, sp, sp["v"])
                    sp2 = dict(sp, v=v)
                    ops += [{"op": "update", "m": m, "v": v}, {"op": "stats", "m": m}] + [hist.gen_probe(rng, sp2, m) for _ in range(2)]
                img = save(r.w.o[m], how, 4, os.path.join(root, "elsewhere"))
                if server:
                    st, res = server.ask(img, how, r.w.s[m], m, ops)
                    if st != "ok":
                        raise Violation("saved object cannot be restored in another process: " + res)
                    stats.fault("restored in another process")
                else:
                    res = self.interpreter(root, img, how, r.w.s[m], m, ops, plan["pseed"])
                    stats.fault("restored in another interpreter")
                ok = True
                for j, (op, o) in enumerate(zip(ops, res)):
                    if op["op"] == "update":
                        ok = o[0] == "ok"
                        continue
                    if not ok and j > 2:
                        break
                    jobs.append((sp if j < 2 else sp2, op))
                    got.append((len(plan["ops"]), o, plan["other"]))
                stats.nontrivial = 1
        stats.record = {"ops": plan["ops"]}
        want = hist.clean_answers(stats.clean, jobs)
        for (sp, probe), (n, a, place), b in zip(jobs, got, want):
            if b[0] == "unbuildable":
                raise Violation("a state was reached that cannot be built: " + b[1])
            if probe["op"] == "stats" and hist.no_stats(a):
                continue
            stats.evals += 1
            stats.event(probe["op"], util.rounded(a[1]) if a[0] == "ok" else a[1])
            d = util.same_obs(a, b)
            if d:
                raise Violation("a saved, restored or copied object (or its original) does not answer as it should: " + d, after_op=n, probe=probe["op"], slot=probe["m"],
                                place=place, history=[(o["op"], o["m"]) for o in plan["ops"][:n + 1]])

    def interpreter(self, root, img, how, spec, slot, ops, hashseed):
        path = os.path.join(root, "job")
        with open(path, "wb") as f:
            pickle.dump({"img": img, "how": how, "spec": spec, "slot": slot, "ops": ops}, f)
        from .. import boot

        env = dict(os.environ, DST_HASHSEED=str(hashseed % 4294967295))
        env.pop("PYTHONHASHSEED", None)
        p = subprocess.run([sys.executable, os.path.join(boot.VERIF, "dst", "cli.py"), "resume", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
        if not os.path.exists(path + ".out"):
            raise Violation("saved object cannot be restored in a fresh interpreter: " + p.stdout.decode()[-300:])
        with open(path + ".out", "rb") as f:
            return pickle.load(f)


PROP = C08()
