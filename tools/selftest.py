#!/opt/venv/bin/python
"""
Determinism of the simulator: the same seeds give the same executions in other
processes, with other hash seeds and when distributed differently over shards.
  selftest.py [ID...] [--runs N]
"""
import json
import os
import subprocess
import sys
import tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from sim import driver  # noqa: E402
from checks.plan import PLAN  # noqa: E402


def sigs(prop, runs, nshards, hashseed, d):
    ps = []
    for i in range(nshards):
        out = os.path.join(d, "o%d_%d_%s" % (nshards, i, hashseed))
        env = driver.child_env(None)
        env["PYTHONHASHSEED"] = hashseed
        ps.append((i, out, subprocess.Popen(
            [driver.PY, "-c", "from sim import driver; driver.shard_main(%r,'1',%d,%d,%d,300.,%r)"
             % (prop, i, nshards, runs, out)], env=env, cwd=d)))
    res = [None] * runs
    for i, out, p in ps:
        p.wait()
        with open(out) as f:
            r = json.load(f)
        for k, s in enumerate(r["sigs"]):
            res[i + k * nshards] = s
        if r["error"] or r["violation"]:
            print(prop, "run", (r["error"] or r["violation"])["run"], "failed:",
                  r["error"] or r["violation"]["message"])
    return res


def main():
    args = sys.argv[1:]
    runs = 150
    if "--runs" in args:
        i = args.index("--runs")
        runs = int(args[i + 1])
        del args[i:i + 2]
    bad = 0
    for prop in args or sorted(PLAN):
        with tempfile.TemporaryDirectory() as d:
            a = sigs(prop, runs, 1, "0", d)
            b = sigs(prop, runs, 3, "0", d)
            c = sigs(prop, runs, 2, "12345", d)
        diff = [i for i in range(runs) if not a[i] == b[i] == c[i]]
        print(prop, "deterministic" if not diff else "DIFFERS at %s" % diff[:10],
              "%d runs, %d distinct" % (runs, len(set(a))))
        bad |= bool(diff)
    sys.exit(bad)


if __name__ == "__main__":
    main()
