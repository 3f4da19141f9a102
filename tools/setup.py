#!/usr/bin/env python3
"""Nothing has to be built; makes sure that what the checks need is there."""
import os, sqlite3, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, ".."))
import check
assert sys.version_info >= (3, 8)
assert os.path.isdir(os.environ.get("ZSIM_REPO", "/repo") + "/zielen")
d = check.scratch_dir()
check.rm_scratch(d)
print("ready: python %s, sqlite %s" % (sys.version.split()[0], sqlite3.sqlite_version))
