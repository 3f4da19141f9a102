#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry of checks."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, ".."))
from sim.checks.registry import MODULES

NOTES = {
 "C01": "Seeded histories of one to three clients, compared after each sync with an executable three-way merge.",
}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
checks = []
for p in props:
    if p not in MODULES:
        continue
    cmd = "/usr/bin/python3 -B check.py " + p
    checks.append({
        "property": p, "quick_cmd": cmd + " --tier quick", "thorough_cmd": cmd + " --tier thorough",
        "technique": "deterministic simulation with fault injection (seeded search)",
        "level": "exploration",
        "level_note": NOTES.get(p, "Seeded simulated histories with injected faults; no violation in the runs "
            "explored, not a proof.") + " Trusts the simulated file systems, SQLite locking, clock, "
            "signals and inotify to behave like Linux."})
m = {"version": 1, "setup_cmd": "/usr/bin/python3 -B tools/setup.py",
     "checks": checks,
     "not_applicable": [{"property": p, "reason": "not claimed: its check is not finished"}
                        for p in props if p not in MODULES],
     "notes": "check.py PROPERTY runs a check, check.py --replay FILE replays a violation. "
              "No hooks were needed in /repo: every seam is an interpreter-level one."}
with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks")
