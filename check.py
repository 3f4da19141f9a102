#!/usr/bin/env python3
"""Deterministic-simulation check of one property.

check.py PROPERTY [--tier quick|thorough] [--seed N] [--runs N]
check.py --replay FILE
"""
import argparse
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PYTHON = "/usr/bin/python3"
GROUPS = 8                      # fixed number of hash seeds, whatever the machine
NOBODY = 65534


def interpreter():
    for p in (PYTHON, "/opt/veriftools/pyvenv/bin/python3", sys.executable):
        if os.path.exists(p):
            return p
    return sys.executable


def scratch_dir():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    d = tempfile.mkdtemp(prefix="zsim-", dir=base)
    if os.getuid() == 0:
        os.chown(d, NOBODY, NOBODY)
    return d


def start(prop, args, hashseed, scratch, stdin=None):
    env = {"PATH": "/usr/bin:/bin", "PYTHONHASHSEED": str(hashseed), "LANG": "C.UTF-8",
           "HOME": scratch, "PYTHONDONTWRITEBYTECODE": "1", "TMPDIR": scratch}
    if "ZSIM_REPO" in os.environ:
        env["ZSIM_REPO"] = os.environ["ZSIM_REPO"]
    kw = {}
    if os.getuid() == 0:
        kw = {"user": NOBODY, "group": NOBODY, "extra_groups": []}
    return subprocess.Popen(
        [interpreter(), "-B", os.path.join(HERE, "sim", "worker.py"), prop, "--scratch", scratch]
        + args, env=env, stdin=stdin or subprocess.DEVNULL, stdout=subprocess.PIPE,
        stderr=subprocess.PIPE, text=True, cwd=scratch, **kw)


def rm_scratch(d):
    if d and os.path.basename(d).startswith("zsim-"):
        shutil.rmtree(d, ignore_errors=True)


def findings():
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f:
            return json.load(f)
    except FileNotFoundError:
        return []


def known(prop, kind, msg):
    for f in findings():
        if f.get("property") == prop and f.get("status") == "open":
            if re.fullmatch(f["kind"], kind) and re.search(f["message"], msg):
                return f
    return None


def run_replay(rep, quiet=False):
    scratch = scratch_dir()
    try:
        p = start(rep["property"], ["--replay", "-"], rep.get("hashseed", 0), scratch,
                  stdin=subprocess.PIPE)
        out, err = p.communicate(json.dumps(rep))
    finally:
        rm_scratch(scratch)
    for line in out.splitlines():
        x = json.loads(line)
        if x["t"] == "replay":
            return x
        if x["t"] == "harness":
            raise RuntimeError(x["tb"])
    raise RuntimeError("replay gave no answer: " + err[-2000:])


def replay_main(path):
    with open(path) as f:
        rep = json.load(f)
    x = run_replay(rep)
    if x["kind"] is None:
        print("replay of %s: no violation" % path)
        return 0
    print(x["msg"])
    exact = x["digest"] == rep.get("digest") and x["msg"] == rep.get("message")
    print("replayed %s" % ("exactly" if exact else "with the same violation in a different state"
                           if x["kind"] == rep.get("kind") else "with a different violation"))
    print("VIOLATION property=%s replay=%s" % (rep["property"], path))
    return 1


def check(prop, tier, seed, runs, wall):
    from sim.checks import registry
    sys.path.insert(0, os.path.join(HERE, "sim", "stubs"))
    cls = registry.get(prop)
    t0 = time.time()
    count = runs or (cls.quick if tier == "quick" else cls.thorough)
    wall = wall or (cls.quick_wall if tier == "quick" else cls.thorough_wall)
    deadline = t0 + wall
    lock = threading.Lock()
    total = {"runs": 0, "evals": 0, "simt": 0.0, "steps": 0, "ops": 0, "stats": {}, "samples": []}
    sets = {"sigs": set(), "nontrivial": set(), "states": set()}
    violations, knowns, problems, done = [], {}, [], []
    procs = []
    scratches = []
    stop = threading.Event()

    def reader(g, p):
        err = []
        te = threading.Thread(target=lambda: err.append(p.stderr.read()))
        te.start()
        finished = False
        for line in p.stdout:
            x = json.loads(line)
            with lock:
                if x["t"] == "agg":
                    for key in ("runs", "evals", "simt", "steps", "ops"):
                        total[key] += x[key]
                    for key, v in x["stats"].items():
                        total["stats"][key] = total["stats"].get(key, 0) + v
                    for key in sets:
                        sets[key].update(x[key])
                elif x["t"] == "sample":
                    total["samples"].append({"run": x["run"], "cfg": x["cfg"], "ops": x["ops"]})
                elif x["t"] == "found":
                    if known(prop, x["kind"], x["msg"]) is None:
                        stop.set()
                elif x["t"] == "violation":
                    x["hashseed"] = g
                    f = known(prop, x["kind"], x["msg"])
                    if f is not None:
                        knowns[f["id"]] = f
                    else:
                        violations.append(x)
                elif x["t"] == "harness":
                    problems.append(x["tb"])
                    finished = True
                elif x["t"] == "done":
                    finished = True
        te.join()
        p.wait()
        if not finished and not stop.is_set():
            problems.append("worker ended: rc=%s %s" % (p.returncode, "".join(err)[-2000:]))
        done.append(g)

    threads = []
    try:
        for g in range(GROUPS):
            s = scratch_dir()
            scratches.append(s)
            p = start(prop, ["--tier", tier, "--seed", str(seed), "--start", str(g), "--step",
                             str(GROUPS), "--count", str(count), "--deadline", str(deadline),
                             "--minimize", "40"], g, s)
            procs.append(p)
            t = threading.Thread(target=reader, args=(g, p), daemon=True)
            t.start()
            threads.append(t)
        # a violation is minimised by the worker that found it; then everything stops
        while any(t.is_alive() for t in threads):
            time.sleep(0.1)
            if violations or problems:
                break
            if stop.is_set() and time.time() > deadline + 200:
                break
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
        for t in threads:
            t.join(5)
        for s in scratches:
            rm_scratch(s)
    wall_s = time.time() - t0
    if not violations:
        for f in findings():
            if f.get("property") == prop and f.get("status") == "open" and f["id"] not in knowns:
                x = run_replay(f["replay"])
                if x["kind"] and re.fullmatch(f["kind"], x["kind"]):
                    knowns[f["id"]] = f
    paths = []
    if violations:
        v = min(violations, key=lambda x: (len(x["ops"]), x["i"]))
        rep = {"property": prop, "seed": str(seed), "run": v["i"], "tier": tier,
               "hashseed": v["hashseed"], "kind": v["kind"], "message": v["msg"],
               "digest": v["digest"], "cfg": v["cfg"], "ops": v["ops"]}
        h = hashlib.sha1(json.dumps([v["cfg"], v["ops"]], sort_keys=True).encode()).hexdigest()[:10]
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s-%s.json" % (prop, h))
        with open(path, "w") as f:
            json.dump(rep, f, indent=1)
        paths.append(path)
    evidence(cls, prop, tier, seed, total, sets, wall_s, len(violations), count, knowns)
    if violations:
        print("run %d of seed %s, minimised to %d operations:" % (rep["run"], seed, len(rep["ops"])))
        for op in rep["ops"]:
            print("   ", json.dumps(op, ensure_ascii=False))
        print(rep["message"])
        print("VIOLATION property=%s replay=%s" % (prop, paths[0]))
        return 1
    if problems:
        print("HARNESS PROBLEM (no verdict):\n" + "\n".join(problems[:2]), file=sys.stderr)
        return 2
    for f in sorted(knowns.values(), key=lambda f: f["id"]):
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    print("%s: %d runs, %d commands checked, no violation (%.0f s)" % (
        prop, total["runs"], total["evals"], wall_s))
    return 0


def evidence(cls, prop, tier, seed, total, sets, wall_s, nviol, planned, knowns):
    st = total["stats"]
    faults = {k[6:]: v for k, v in sorted(st.items()) if k.startswith("fault:")}
    faults.update({k[4:]: v for k, v in sorted(st.items()) if k.startswith("env:")})
    ops = {k[3:]: v for k, v in sorted(st.items()) if k.startswith("op:")}
    ev = {
        "property": prop, "tier": tier, "seed": int(seed), "level": "exploration",
        "coverage": {
            "evaluations": total["runs"],
            "evaluations_are": "simulated runs, each with a seed of its own (seed/run number)",
            "commands_checked": total["evals"],
            "distinct_nontrivial": len(sets["nontrivial"]),
            "rule": cls.rule,
            "samples": sorted(total["samples"], key=lambda x: len(json.dumps(x)))[:3],
            "planned_runs": planned,
            "runs_per_hour": int(total["runs"] / max(wall_s, .1) * 3600),
            "simulated_seconds": int(total["simt"]),
            "simulated_steps": total["steps"],
            "operations": ops,
            "faults_injected": faults,
            "other_counters": {k: v for k, v in sorted(st.items())
                               if not k.startswith(("op:", "fault:", "env:"))},
            "distinct_runs": len(sets["sigs"]),
            "distinct_states": len(sets["states"]),
            "states_measure": "hash of the shape of all directories, the trash and the records "
                              "after each command (names, kinds, contents by version)",
            "real_code": "all of zielen/ and scripts/ (unmodified), Python's shutil, glob, json, "
                         "tempfile, argparse, SQLite",
            "stubs": "file systems, sqlite file locking, clock, sleep, threads' scheduling, "
                     "subprocess, AF_UNIX sockets, signals, inotify (pyinotify), pkg_resources, "
                     "linotype, readline, random numbers",
            "known_findings_seen": sorted(knowns),
        },
        "assumptions": cls.assumptions,
        "wall_s": round(wall_s, 1),
        "violations": nviol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--runs", type=int, default=0)
    ap.add_argument("--wall", type=float, default=0)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay_main(a.replay)
    return check(a.property, a.tier, int(a.seed), a.runs, a.wall)


if __name__ == "__main__":
    sys.exit(main())
