import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import boot  # noqa: E402


def main():
    a = sys.argv[1:]
    boot.reexec_if_needed()
    sys.dont_write_bytecode = True
    cmd = a[0]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    opt = dict(x[2:].split("=", 1) for x in a[1:] if x.startswith("--"))
    pos = [x for x in a[1:] if not x.startswith("--")]
    seed = int(opt.get("seed", seed))
    tier = opt.get("tier", tier)
    nw = int(opt.get("workers", os.cpu_count() or 8))
    from dst import runner

    if cmd == "setup":
        print(boot.build_ext()[1])
        return 0
    boot.boot()
    if cmd == "check":
        return runner.check(pos[0], tier, seed, nw, int(opt["runs"]) if "runs" in opt else None)
    if cmd == "replay":
        return runner.replay(pos[0])
    if cmd == "one":
        import json

        prop = runner.load(pos[0])
        prop.setup()
        plan = runner.make_plan(prop, seed, int(pos[1]), tier)
        if "show" in opt:
            print(json.dumps(plan, indent=1, default=runner._jsonable))
        out = runner.run_judged(prop, plan)
        print(json.dumps(out, indent=1, default=runner._jsonable))
        return 0
    if cmd == "resume":
        from dst.props.c08 import resume_file

        return resume_file(pos[0])
    if cmd == "serve":
        from dst.props.c18 import serve

        return serve(pos[0])
    if cmd == "selftest":
        from dst import selftest

        return selftest.main(pos, opt, seed)
    raise SystemExit("unknown command " + cmd)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        rc = 2
    sys.exit(rc)
