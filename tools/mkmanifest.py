"""Writes MANIFEST.json from the property list and the property modules present."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "C01": "Seeded search over thread interleavings at source-line (some runs: bytecode) granularity, against the same calls run alone; compiled code and library calls are atomic.",
 "C02": "Seeded search over fault positions inside a query, against the same world without the aborted query.",
 "C03": "Seeded search over rejections and fault positions inside updates, against freshly built models.",
 "C04": "Seeded search over operation histories with failed calls, against freshly built models.",
 "C05": "Seeded search over histories in which the adversary mutates every array that crossed the interface.",
 "C06": "Seeded search over tilings, orders, backends, worker crashes, retries and duplicates, against one-point queries.",
 "C07": "Seeded search over histories, against an independently written dense solution of the kriging system (well-conditioned systems, no ties at the window's edge).",
 "C08": "Seeded search over save, crash and restore points (copy, pickle, other process), against the uninterrupted history.",
 "C09": "Seeded search over grids, locales, clocks, short reads and writes and interleaved file operations, against the written grid.",
 "C10": "Seeded search over disk faults and refused calls, against the file's bytes.",
 "C11": "Seeded search over crash points of the writer and lost or repeated blocks, against an independent parse of the remaining text.",
 "C12": "Seeded search over the moments of atomic replacements during a read, against the old and the new version.",
 "C13": "Seeded search over execution orders, shipping and worker crashes in a simulated joblib backend, against the serial search.",
 "C14": "Seeded search over fit and predict histories of interleaved instances, against an independent combination of the regression/classification model with kriged residuals.",
 "C15": "Seeded search over failure points of (re)fits, against the last completed fit.",
 "C16": "Seeded search over which component is missing and when it disappears, against the complete installation.",
 "C17": "Seeded search over calls, aborted calls and interleavings, comparing snapshots of process-wide state.",
 "C18": "Seeded search over clocks, random states, hash seeds, memory contents, garbage collection and earlier work, against an undisturbed run.",
 "C19": "Seeded search over verbosity, plotting and failing streams and backends, against silent runs.",
 "C27": "Seeded search over rounds of calls (some aborted) repeated up to 600 times, measuring the memory in use between rounds and attributing its growth to the package's lines.",
 "C20": "Seeded search over histories, against an independently written computation of the diagnostics.",
}
have = sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(V + "/dst/props/c*.py"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": "./run.sh check %s --tier=quick" % i,
            "thorough_cmd": "./run.sh check %s --tier=thorough" % i,
            "technique": "deterministic simulation with fault injection (seeded search)",
            "level": "exploration",
            "level_note": NOTE[i],
        })
    elif i in NOTE:
        na.append({"property": i, "reason": "not built yet"})
    else:
        na.append({"property": i, "reason": "It is a statement about a pure function of its arguments: there is no schedule, clock, I/O, fault or history for a simulator to vary, so deterministic simulation with fault injection cannot decide it better than sampling inputs."})
m = {
    "version": 1,
    "setup_cmd": "./run.sh setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: all seams are existing ones (sys.monitoring events of the interpreter, builtins.open, io, time, random sources, joblib's backend registry, import hooks), so nothing has to be switched on. ./run.sh replay FILE replays a counterexample; ./run.sh selftest checks the simulator's determinism.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
