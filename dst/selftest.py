"""./run.sh selftest [ID ...] [--runs=N]: is the simulator deterministic?

Runs the same seeds in this interpreter (in order), in a second one (in reverse
order, several at a time) and in a third one with another PYTHONHASHSEED, and
compares the event logs of all of them."""
import json
import os
import subprocess
import sys

from . import boot, runner


def logs(pid, seed, idx, nw):
    prop = runner.load(pid)
    prop.setup()

    def one(i):
        out = runner.run_judged(prop, runner.make_plan(prop, seed, i, "quick"))
        return i, [out["status"], out["stats"]["hash"] if out.get("stats") else None]

    if nw == 1:
        return dict(one(i) for i in idx)
    # split over forked processes
    pipes = []
    for k in range(nw):
        r, w = os.pipe()
        if os.fork() == 0:
            try:
                os.close(r)
                with os.fdopen(w, "w") as f:
                    json.dump(dict(one(i) for i in idx[k::nw]), f)
            finally:
                os._exit(0)
        os.close(w)
        pipes.append(r)
    out = {}
    for r in pipes:
        with os.fdopen(r) as f:
            out.update({int(k): v for k, v in json.load(f).items()})
    for _ in pipes:
        os.wait()
    return out


def main(pos, opt, seed):
    n = int(opt.get("runs", 40))
    if "inner" in opt:
        idx = list(range(n))[::-1]
        print(json.dumps(logs(pos[0], seed, idx, int(opt["inner"]))))
        return 0
    ids = pos or ["C%02d" % i for i in list(range(1, 21)) + [27]]
    bad = 0
    for pid in ids:
        got = [logs(pid, seed, list(range(n)), 8)]
        for hs, nw in (("0", 3), ("12345", 5)):
            env = dict(os.environ, DST_HASHSEED=hs)
            env.pop("PYTHONHASHSEED", None)
            p = subprocess.run([sys.executable, os.path.join(boot.VERIF, "dst", "cli.py"), "selftest", pid, "--runs=%d" % n, "--seed=%d" % seed, "--inner=%d" % nw],
                               stdout=subprocess.PIPE, env=env)
            try:
                got.append({int(k): v for k, v in json.loads(p.stdout.decode().strip().splitlines()[-1]).items()})
            except (IndexError, ValueError):
                got.append({})
        diff = [i for i in range(n) if len({json.dumps(g.get(i)) for g in got}) > 1]
        bad += len(diff)
        print("%s: %d seeds x 3 executions, %d differ %s" % (pid, n, len(diff), diff[:5]))
        sys.stdout.flush()
    return 1 if bad else 0
