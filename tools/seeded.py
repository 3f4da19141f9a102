"""seeded.py [ids..]: run the quick check of each planted bug's property against a copy of /repo that has it."""
import json, os, shutil, subprocess, sys, tempfile, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(H + "/seeded"))
for i in ids:
    d = H + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="seeded-", dir="/dev/shm")
    os.chmod(w, 0o755)
    try:
        shutil.copytree("/repo", w + "/r", symlinks=True, ignore=shutil.ignore_patterns(".git"))
        subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + w + "/r", d + "/patch.diff"], check=True, cwd="/")
        t = time.time()
        o = subprocess.run([sys.executable, "-B", H + "/check.py", prop, "--tier", "quick"], cwd=H,
                           env=dict(os.environ, ZSIM_REPO=w + "/r", ZSIM_EVIDENCE=w, VERIF_SEED="1", VERIF_TIER="quick"),
                           capture_output=True, text=True)
        v = [l for l in o.stdout.splitlines() if l.startswith("VIOLATION property=" + prop)]
        print(i, prop, "caught" if o.returncode == 1 and v else "MISSED (rc %d)" % o.returncode,
              "%.0f s" % (time.time() - t), (o.stdout.splitlines() or [""])[-1][:200] if not v else v[0][:120], flush=True)
        if o.returncode not in (0, 1):
            print(o.stderr[-800:])
    finally:
        shutil.rmtree(w)
