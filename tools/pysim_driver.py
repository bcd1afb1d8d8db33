"""Runs the simulation of the Python programs (tools/pysim.py) on all cores and merges the results."""
import json, os, subprocess, sys, time

from build import B, VERIF

HERE = os.path.dirname(os.path.abspath(__file__))
PY = next((p for p in ("/opt/vp/venv/bin/python", sys.executable) if os.path.exists(p)), sys.executable)
ENV = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")


def run(pid, p, seed, tier, workers):
    """-> exit code, result to merge"""
    runs = p["pyruns"] if tier == "quick" else p["pyruns"] * 300
    budget = min(p["quick"], 25) if tier == "quick" else p["thorough"] / 2
    r = subprocess.run([PY, "-c", "import numpy, mpinum"], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print("HARNESS: no interpreter with numpy and mpinum: " + r.stdout[-300:], file=sys.stderr)
        return 2, {}
    outs, ps = [], []
    for w in range(workers):
        o = B + "/py.%s.%d.%d.json" % (pid, os.getpid(), w)
        outs.append(o)
        ps.append(subprocess.Popen([PY, HERE + "/pysim.py", "run", pid, str(seed), str(runs), str(budget), "0", o, VERIF + "/replays", str(w), str(workers)],
                                   env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    tail = [q.communicate()[0] for q in ps]
    tot = dict(runs=0, held=0, counters={}, scenario_runs={}, samples=[], repeat_checked=0, simulated_seconds=0.0, search_wall_s=0.0, violations=0)
    hashes, exes, rc, bad, uns = set(), set(), 0, [], {}
    for o, q, t in zip(outs, ps, tail):
        try:
            d = json.load(open(o))
            os.unlink(o)
        except (OSError, ValueError):
            print("HARNESS: a worker ended with %s: %s" % (q.returncode, t[-500:]), file=sys.stderr)
            rc = 2
            continue
        for k in ("runs", "held", "repeat_checked", "simulated_seconds"):
            tot[k] += d[k]
        tot["search_wall_s"] = max(tot["search_wall_s"], d["search_wall_s"])
        for k in ("counters", "scenario_runs"):
            for n, x in d[k].items():
                tot[k][n] = tot[k].get(n, 0) + x
        tot["stopped_by_time"] = tot.get("stopped_by_time", False) or d.get("stopped_by_time", False)
        tot["samples"] += d["samples"]
        hashes.update(d["hashes"])
        exes.update(d["exes"])
        for n, x in d["unsupported"].items():
            uns[n] = uns.get(n, 0) + x
        if d.get("harness"):
            print("HARNESS: " + d["harness"], file=sys.stderr)
            rc = 2
        if d.get("replay"):
            bad.append(d)
    tot["distinct_schedules"], tot["distinct_executions"] = len(hashes), len(exes)
    if uns:
        print("note: %d Python runs use MPI features the simulator does not have and say nothing: %s" % (sum(uns.values()), sorted(uns)[:5]))
    for d in sorted(bad, key=lambda d: d["replay"]):
        c = [replay(d["replay"], quiet=True) for _ in range(2)]
        if c != [1, 1]:
            print("HARNESS: %s does not reproduce" % d["replay"], file=sys.stderr)
            rc = rc or 2
            continue
        print("  %s" % d["message"])
        print("  cfg: %s" % d["cfgtext"])
        print("  choices: %s" % d["mini"])
        print("VIOLATION property=%s replay=%s" % (pid, d["replay"]))
        tot.update(replay=d["replay"], message=d["message"], violations=1)
        rc = 1
        break
    return rc, tot


def replay(path, quiet=False):
    r = subprocess.run([PY, HERE + "/pysim.py", "replay", path], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not quiet:
        print(r.stdout, end="")
    return r.returncode
