#!/usr/bin/env python3
"""determinism.py [N [PROP..]]: every run twice, in processes with different shares of the runs.

The 8 hash seeds of a check each run N runs three times: in one process, spread over three processes, and
in one process again while the others load the machine. Compares the digest of the final world (all
file systems, clocks, step counts) and the verdict of every run."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
from sim.checks.registry import MODULES


def collect(procs):
    out = {}
    for p in procs:
        o, e = p.communicate()
        for line in o.splitlines():
            x = json.loads(line)
            if x["t"] == "digest":
                out[x["i"]] = (x["d"], x["v"])
            elif x["t"] == "harness":
                sys.exit(x["tb"])
    return out


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 40
    bad = total = 0
    for prop in sys.argv[2:] or sorted(MODULES):
        diff = 0
        for g in (0, 3, 6):
            dirs = []

            def go(start, step):
                dirs.append(check.scratch_dir())
                return check.start(prop, ["--seed", "det", "--start", str(start), "--step", str(step),
                                          "--count", str(n), "--digests"], g, dirs[-1])
            try:
                a = [go(0, 1)]
                b = [go(i, 3) for i in range(3)]
                c = [go(0, 1)]
                ra, rb, rc = collect(a), collect(b), collect(c)
            finally:
                for d in dirs:
                    check.rm_scratch(d)
            assert len(ra) == len(rb) == len(rc) == n, (len(ra), len(rb), len(rc))
            for i in range(n):
                total += 1
                if not ra[i] == rb[i] == rc[i]:
                    diff += 1
                    print("   ", prop, "hash seed", g, "run", i, ra[i], rb[i], rc[i])
        print(prop, "runs that differ:", diff, flush=True)
        bad += diff
    print("%d runs, each three times: %d differ" % (total, bad))
    return bad > 0


if __name__ == "__main__":
    sys.exit(main())
