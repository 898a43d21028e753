"""Confirms a planted bug: python3 tools/plant.py ID [--checks=C01,C02 | --nochecks]

Works in a scratch copy of /repo; prints whether the patch applies, builds,
passes the stable tests, and whether the demonstration separates the two trees;
then runs the checks (default: the one of the property) against the patched copy.
"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


def main():
    bid = sys.argv[1]
    opt = dict(a[2:].split("=", 1) if "=" in a else (a[2:], "1") for a in sys.argv[2:] if a.startswith("--"))
    d = os.path.join(V, "seeded", bid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    work = "/tmp/plant/w-" + bid
    shutil.rmtree(work, ignore_errors=True)
    demo = work + "/demo"
    repo = work + "/repo"
    os.makedirs(work)
    try:
        sh("cp -a /repo %s" % repo)
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        if "fast" not in opt:
            rc, out = sh("REPO_SRC=%s/src bash %s/demo.sh" % (repo, demo), cwd="/repo")
            print(bid, "demo on the clean tree:", rc, out[-300:] if rc else "")
        rc, out = sh("git apply %s/patch.diff" % d, cwd=repo)
        if rc:
            print(bid, "DOES NOT APPLY", out)
            return 1
        pyx = "lib/" in open(d + "/patch.diff").read()
        if pyx:
            rc, out = sh("/opt/venv/bin/python setup.py -q build_ext --inplace", cwd=repo)
            print(bid, "build:", rc, out[-300:] if rc else "")
        if "fast" not in opt:
            # the demonstrations import the package the way the tests do
            rc, out = sh("bash -c 'PYTHONPATH=%s/src DEMO_SRC=%s/src bash %s/demo.sh'" % (repo, repo, demo), cwd=repo)
            print(bid, "demo on the patched tree:", rc, out[-300:])
            rc, out = sh("PYTHONPATH=%s/src /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider %s 2>&1 | tail -3" % (repo, repo + "/tests"), cwd=repo)
            print(bid, "tests:", out.strip()[-300:])
        if "nochecks" in opt:
            return 0
        for c in opt.get("checks", meta["property"]).split(","):
            rc, out = sh("./run.sh check %s %s" % (c, opt.get("args", "")), cwd=V, env={"DST_REPO": repo, "DST_EVID": work + "/ev"}, timeout=2000)
            lines = [l for l in out.splitlines() if "VIOLATION" in l or "seed" in l.lower()]
            print(bid, c, "rc", rc, (lines or out.splitlines()[-2:])[:3])
    finally:
        shutil.rmtree(work, ignore_errors=True)


sys.exit(main())
