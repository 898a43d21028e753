"""Runs a property's simulations on all cores, reports, minimises, replays."""
import copy
import hashlib
import importlib
import json
import mmap
import os
import random
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

from . import boot, kernel, util
from .kernel import Rejected, Violation
from .stats import Stats

VERIF = boot.VERIF
OUT = os.environ.get("DST_EVID", VERIF)
RUN_LIMIT = float(os.environ.get("DST_RUN_LIMIT", "90"))


def seed_for(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


def load(prop):
    return importlib.import_module("dst.props." + prop.lower()).PROP


# -- one run, in its own process ------------------------------------------------
def _jsonable(o):
    try:
        import numpy as np

        if isinstance(o, np.ndarray):
            return o.tolist()
        if isinstance(o, np.generic):
            return o.item()
    except Exception:
        pass
    if isinstance(o, (set, frozenset)):
        return sorted(map(str, o))
    return repr(o)


def run_here(prop, plan):
    """Executes the plan in this process."""
    st = Stats()
    out = {"status": "ok"}
    st.clean = None
    try:
        p = copy.deepcopy(plan)
        if prop.clean:
            st.clean = util.Clean()
        prop.execute(p, st)
    except Violation as v:
        out = {"status": "violation", "message": v.message, "detail": v.detail}
    except Rejected as r:
        out = {"status": "rejected", "message": str(r)}
    except BaseException:
        out = {"status": "error", "message": traceback.format_exc()[-4000:]}
    if st.clean:
        st.clean.close()
    out["stats"] = st.dump()
    out["record"] = st.record
    out["fired"] = st.fired
    return out


def run_forked(prop, plan, limit=None):
    """Executes the plan in a forked child of this (already booted) process."""
    limit = limit or RUN_LIMIT
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            null = os.open(os.devnull, os.O_RDWR)
            os.dup2(null, 0)
            os.dup2(null, 1)
            if not os.environ.get("DST_DEBUG"):
                os.dup2(null, 2)
            out = run_here(prop, plan)
            data = json.dumps(out, default=_jsonable).encode()
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
        except BaseException:
            code = 3
            if os.environ.get("DST_DEBUG"):
                traceback.print_exc()
        os._exit(code)
    os.close(w)
    import select

    data = b""
    end = time.monotonic() + limit
    timed_out = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            timed_out = True
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        data += b
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if timed_out:
        return {"status": "stuck", "message": "no progress: the run did not finish within %g s" % limit, "stats": Stats().dump()}
    if os.WIFSIGNALED(status):
        return {"status": "died", "message": "the process died with signal %d" % os.WTERMSIG(status), "stats": Stats().dump()}
    try:
        return json.loads(data)
    except ValueError:
        return {"status": "error", "message": "no result from child (exit %r)" % status, "stats": Stats().dump()}


def run_judged(prop, plan):
    """As run_forked, but abnormal ends are repeated and then judged."""
    out = run_forked(prop, plan)
    if out["status"] in ("stuck", "died"):
        again = run_forked(prop, plan, RUN_LIMIT * 2)
        if again["status"] == out["status"] and again["message"].split(" within")[0] == out["message"].split(" within")[0]:
            return {"status": "violation", "message": out["message"], "detail": {}, "stats": again["stats"], "abnormal": True}
        return again if again["status"] not in ("stuck", "died") else dict(again, status="error")
    return out


# -- the batch ------------------------------------------------------------------------
def make_plan(prop, seed, i, tier):
    rng = random.Random(seed_for(seed, prop.id, i))
    plan = prop.generate(rng, tier, i)
    plan["_run"] = {"property": prop.id, "seed": seed, "index": i}
    # the run sees exactly what a replay file would give it
    return json.loads(json.dumps(plan, default=_jsonable))


def worker(prop, seed, tier, n, wid, nw, limit, fd, deadline):
    os.dup2(os.open(os.devnull, os.O_RDONLY), 0)
    for i in range(wid, n, nw):
        if i > struct.unpack("q", limit[:8])[0]:
            break
        if time.monotonic() > deadline:
            break
        try:
            plan = make_plan(prop, seed, i, tier)
        except Rejected as e:
            out = {"status": "rejected", "message": str(e), "stats": Stats().dump()}
            plan = None
        except BaseException:
            out = {"status": "error", "message": traceback.format_exc()[-4000:], "stats": Stats().dump()}
            plan = None
        else:
            out = run_judged(prop, plan)
        out["i"] = i
        out["sample"] = prop.describe(plan) if plan is not None and i < 3 else None
        if out["status"] == "violation":
            out["plan"] = plan
            cur = struct.unpack("q", limit[:8])[0]
            if i < cur:
                limit[:8] = struct.pack("q", i)
        out.pop("record", None) if out["status"] != "violation" else None
        data = json.dumps(out, default=_jsonable).encode() + b"\n"
        off = 0
        while off < len(data):
            off += os.write(fd, data[off:])
    os.close(fd)
    os._exit(0)


def batch(prop, seed, tier, n, nw, deadline):
    limit = mmap.mmap(-1, 8)
    limit[:8] = struct.pack("q", 1 << 60)
    fds, pids = {}, []
    for wid in range(nw):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            for f in fds:
                os.close(f)
            os.close(r)
            try:
                worker(prop, seed, tier, n, wid, nw, limit, w, deadline)
            finally:
                os._exit(4)
        os.close(w)
        fds[r] = b""
        pids.append(pid)
    import select

    results = []
    while fds:
        ready, _, _ = select.select(list(fds), [], [], 60)
        for r in ready:
            b = os.read(r, 1 << 20)
            if not b:
                os.close(r)
                del fds[r]
                continue
            fds[r] += b
            while b"\n" in fds[r]:
                line, fds[r] = fds[r].split(b"\n", 1)
                results.append(json.loads(line))
    bad = 0
    for pid in pids:
        _, s = os.waitpid(pid, 0)
        bad += s != 0
    results.sort(key=lambda o: o["i"])
    return results, bad


# -- minimisation -----------------------------------------------------------------------
def klass(out):
    return out["message"].split(":")[0] if out["status"] == "violation" else None


def with_record(plan, out):
    """The plan with every random decision replaced by the recorded one."""
    p = copy.deepcopy(plan)
    rec = out.get("record")
    if rec:
        for k, v in rec.items():
            p[k] = v
    return p


def ddmin(items, test, budget):
    n = 2
    items = list(items)
    while len(items) >= 1 and budget():
        size = max(1, len(items) // n)
        done = False
        for a in range(0, len(items), size):
            rest = items[:a] + items[a + size:]
            if not budget():
                return items
            if test(rest):
                items, done = rest, True
                n = max(n - 1, 2)
                break
        if not done:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def get_path(p, path):
    for k in path:
        p = p[k]
    return p


def set_path(p, path, v):
    for k in path[:-1]:
        p = p[k]
    p[path[-1]] = v


def minimise(prop, plan, out, seconds):
    end = time.monotonic() + seconds
    budget = lambda: time.monotonic() < end
    want = klass(out)
    tries = 0
    best, best_out = plan, out

    def test(p):
        nonlocal tries, best, best_out
        tries += 1
        o = run_judged(prop, p)
        if o["status"] == "violation" and klass(o) == want:
            best, best_out = p, o
            return True
        return False

    exp = with_record(plan, out)
    explicit = test(exp)
    for _ in range(3):
        before = json.dumps(best, sort_keys=True, default=_jsonable)
        for path in prop.shrink_lists(best):
            if not budget():
                break
            try:
                items = get_path(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(items, list) or not items:
                continue

            def t(rest, path=path):
                p = copy.deepcopy(best)
                set_path(p, path, list(rest))
                return test(p)

            ddmin(items, t, budget)
        for cand in prop.simplify(best):
            if not budget():
                break
            test(cand)
        if json.dumps(best, sort_keys=True, default=_jsonable) == before or not budget():
            break
    return best, best_out, {"tries": tries, "explicit_schedule": explicit}


# -- known findings ------------------------------------------------------------------------
def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["known"] if k["property"] == pid]


def match_known(known, out):
    for k in known:
        if k["message"] in out["message"]:
            return k
    return None


# -- the check --------------------------------------------------------------------------------
def check(pid, tier, seed, nw, runs=None, out_dir=None):
    t0 = time.monotonic()
    prop = load(pid)
    prop.setup()
    n = runs or prop.runs[tier]
    soft = prop.deadline[tier]
    results, bad = batch(prop, seed, tier, n, nw, t0 + soft)
    t_search = time.monotonic() - t0
    viol = [o for o in results if o["status"] == "violation"]
    errors = [o for o in results if o["status"] == "error"]
    known = known_findings(pid)
    lines = []
    rc = 0
    real = []
    for o in viol:
        k = match_known(known, o)
        if k:
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        else:
            real.append(o)
    replay_path = None
    info = {}
    if real:
        for first in real[:10]:
            confirm = run_judged(prop, first["plan"])
            if confirm["status"] != "violation":
                confirm = run_judged(prop, first["plan"])
            if confirm["status"] == "violation":
                break
        if confirm["status"] != "violation":
            lines.append("ERROR unreproducible violation in run %d: %s" % (first["i"], first["message"]))
            rc = 2
        else:
            plan, out, info = minimise(prop, first["plan"], confirm, 60 if tier == "quick" else 240)
            d = out_dir or os.path.join(OUT, "replays")
            os.makedirs(d, exist_ok=True)
            replay_path = os.path.join(d, "%s-seed%d-run%d.json" % (pid, seed, first["i"]))
            rep = {
                "property": pid, "seed": seed, "index": first["i"], "message": out["message"],
                "detail": out.get("detail"), "hash": out["stats"]["hash"], "fired": out.get("fired"),
                "minimised": info, "plan": plan,
            }
            with open(replay_path, "w") as f:
                json.dump(rep, f, default=_jsonable, indent=1)
            env = dict(os.environ)
            pr = subprocess.run([sys.executable, os.path.join(VERIF, "dst", "cli.py"), "replay", replay_path],
                                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
            info["replayed_in_fresh_process"] = pr.returncode == 1
            lines.append("violation: %s" % out["message"])
            lines.append(json.dumps(out.get("detail"), default=_jsonable)[:1500])
            if pr.returncode != 1:
                lines.append("note: the replay in a fresh process gave: %s" % pr.stdout.decode()[-300:])
            lines.append("VIOLATION property=%s replay=%s" % (pid, replay_path))
            rc = 1
    if rc == 0 and (errors or bad):
        # a run that the harness could not carry out says nothing about the property;
        # a few of them do not take away what the others showed
        many = bad or len(errors) > max(1, len(results) // 100)
        rc = 2 if many else 0
        for o in errors[:3]:
            lines.append("%s in run %d: %s" % ("ERROR" if many else "not judged, error", o["i"], o["message"]))
        if bad:
            lines.append("ERROR: %d workers failed" % bad)
    done = [o for o in results if o["status"] in ("ok", "violation")]
    if rc == 0 and len(done) < max(1, min(20, n // 4)):
        rc = 2
        lines.append("ERROR: only %d of %d runs could be judged" % (len(done), n))
    evidence(prop, pid, tier, seed, results, done, n, nw, t_search, time.monotonic() - t0, viol, info, replay_path)
    for ln in lines:
        print(ln)
    print("%s %s: %d runs judged, %d rejected, %d violating, %.1f s" % (
        pid, tier, len(done), sum(o["status"] == "rejected" for o in results), len(viol), time.monotonic() - t0))
    sys.stdout.flush()
    return rc


def evidence(prop, pid, tier, seed, results, done, n, nw, t_search, wall, viol, info, replay):
    faults, probes, sch, pairs, hashes = {}, {}, set(), set(), set()
    steps = switches = evals = 0
    vt = 0.0
    nontriv = set()
    for o in done:
        s = o["stats"]
        steps += s["steps"]
        switches += s["switches"]
        evals += s["evals"]
        vt += s["vtime"]
        for k, v in s["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in s["probes"].items():
            probes[k] = probes.get(k, 0) + v
        sch.update(s["schedules"])
        pairs.update(s["pairs"])
        hashes.add(s["hash"])
        if s["nontrivial"]:
            nontriv.add(s["hash"])
    samples = [o["sample"] for o in results if o.get("sample")][:3]
    cov = {
        "evaluations": len(done),
        "distinct_nontrivial": len(nontriv),
        "rule": prop.rule,
        "samples": samples or ["(none)"],
        "oracle_comparisons": evals,
        "runs_planned": n,
        "runs_not_judged_for_errors_of_the_harness": sum(o["status"] == "error" for o in results),
        "runs_rejected_outside_domain": sum(o["status"] == "rejected" for o in results),
        "simulated_steps": steps,
        "task_switches": switches,
        "simulated_seconds": round(vt, 3),
        "seeds_per_hour": int(len(done) / max(t_search, 1e-9) * 3600),
        "workers": nw,
        "faults_injected": dict(sorted(faults.items())),
        "probes": dict(sorted(probes.items())),
        "distinct_event_logs": len(hashes),
        "distinct_schedules": len(sch),
        "distinct_switch_points": len(pairs),
        "measure_of_distinctness": "hash over the sequence of scheduling decisions with the source positions at which they were taken, injected faults and observed results of a run",
        "real_components": prop.real,
        "stub_components": prop.stubs,
        "extension": boot.INFO.get("ext"),
        "minimisation": info,
    }
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": prop.assumptions, "wall_s": round(wall, 2), "violations": len(viol),
    }
    if replay:
        ev["replay"] = replay
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=_jsonable)


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    prop = load(rep["property"])
    prop.setup()
    out = run_judged(prop, rep["plan"])
    if out["status"] == "violation":
        same = out["stats"]["hash"] == rep["hash"]
        print("replayed: %s (event log %s)" % (out["message"], "identical" if same else "differs"))
        print(json.dumps(out.get("detail"), default=_jsonable)[:2000])
        print("VIOLATION property=%s replay=%s" % (rep["property"], path))
        return 1
    print("not reproduced: %s %s" % (out["status"], out.get("message", "")))
    return 0 if out["status"] in ("ok", "rejected") else 2
