"""Developer's helper: dev.py PROP N [seed0] [jobs] - run N random runs, print what they find."""
import collections
import os
import random
import shutil
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
name, N = sys.argv[1], int(sys.argv[2])
s0 = int(sys.argv[3]) if len(sys.argv) > 3 else 0
jobs = int(sys.argv[4]) if len(sys.argv) > 4 else min(8, N)


def work(j):
    from sim import boot
    from sim.checks import registry
    d = tempfile.mkdtemp(prefix="zsim-", dir="/dev/shm")
    from sim.ops import Exec, Gen
    from sim.scen import Violation
    k = boot.init(d)
    P = registry.get(name)
    kinds, ev = collections.Counter(), 0
    t0 = time.time()
    for s in range(s0 + j, s0 + N, jobs):
        p = P()
        rng = random.Random("%s/%d" % (name, s))
        cfg = p.cfg(rng)
        ex = Exec(k, p, cfg)
        try:
            p.gen(ex, Gen(ex, rng), rng)
        except Violation as v:
            kinds[v.kind] += 1
            if kinds[v.kind] <= 2 or N == 1:
                out = "seed %d %s %s\n" % (s, v.kind, v.msg[:1500])
                if N == 1:
                    out += "\n".join(map(str, ex.trace)) + "\n"
                sys.stdout.write(out)
                sys.stdout.flush()
            k.abort()
        except Exception:
            print("seed", s)
            raise
        ev += ex.evals
    print("job %d: %.0fs %d commands %s" % (j, time.time() - t0, ev, dict(kinds)))
    print({k2: v for k2, v in sorted(k.stats.items()) if k2.startswith(("fault", "env", "x:"))}
          if j == 0 else "")
    sys.stdout.flush()
    os.chdir("/")
    shutil.rmtree(d, ignore_errors=True)


pids = []
for j in range(jobs):
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            work(j)
            rc = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        sys.stdout.flush()
        os._exit(rc)
    pids.append(pid)
for p in pids:
    os.waitpid(p, 0)
