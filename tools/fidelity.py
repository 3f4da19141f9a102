#!/usr/bin/env python3
"""fidelity.py [N [SEED]]: the simulated file system against the real one.

The same random programs of file operations (through os, open, shutil, tempfile, glob, pathlib) run on a
scratch directory of the real file system, as an unprivileged user, and inside the simulator; every result,
error number and the final tree have to be the same.
"""
import errno, glob, json, os, pathlib, random, shutil, stat, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SLASHES = False          # which of several errors a trailing slash gives differs
NAMES = ["a", "b", "c", "d", "ä x", "longer name"]


def path(rng, depth=3):
    parts = [rng.choice(NAMES) for _ in range(rng.randint(1, depth))]
    r = rng.random()
    if r < .06:
        parts.insert(rng.randint(0, len(parts)), "..")
    elif r < .1:
        parts.insert(rng.randint(0, len(parts) - 1), ".")
    s = "/".join(parts)
    if rng.random() < .05 and SLASHES:
        s += "/"
    if rng.random() < .02:
        s += "x" * 300
    return s


def program(seed):
    rng = random.Random("fidelity/%s" % seed)
    P = lambda: path(rng)
    out = []
    for _ in range(rng.randint(15, 70)):
        k = rng.choice(KINDS)
        if k == "write":
            out.append([k, P(), rng.choice(["w", "w", "w", "a", "x", "r+", "wb", "r"]), rng.choice([0, 5, 700, 5000, 20000]),
                        rng.choice([None, 0, 3, 6000])])
        elif k in ("rename", "replace", "link", "copy2", "copyfile", "move", "copytree", "samefile", "openrename",
                   "copy", "copymode", "walkcmp"):
            out.append([k, P(), P()])
        elif k == "symlink":
            t = rng.choice([P(), P(), "../" + P(), "/nonexistent/" + P(), ".", "..", "@/" + P()])
            out.append([k, t, P()])
        elif k == "chmod":
            out.append([k, P(), rng.choice([0o644, 0o600, 0o444, 0o755, 0o555, 0o300, 0o000, 0o700])])
        elif k in ("utime", "lutime"):
            out.append([k, P(), rng.randint(0, 2 * 10 ** 9) * 10 ** 9 + rng.randint(0, 999999999)])
        elif k == "glob":
            out.append([k, rng.choice(["*", "*/*", "a*", "[ab]/*", "*/a/*", P()])])
        elif k == "access":
            out.append([k, P(), rng.choice([os.F_OK, os.R_OK, os.W_OK, os.X_OK])])
        elif k == "trunc":
            out.append([k, P(), rng.choice([0, 10, 10000])])
        else:
            out.append([k, P()])
    return out


def st(s, times=False):
    r = [stat.S_IFMT(s.st_mode), stat.S_IMODE(s.st_mode) if not stat.S_ISLNK(s.st_mode) else 0]
    if stat.S_ISREG(s.st_mode):
        r += [s.st_size, s.st_nlink]
        if s.st_mtime_ns < 10 ** 18:          # set by a utime
            r.append(s.st_mtime_ns)
    return r


def read(p):
    with open(p, "rb") as f:
        return f.read().decode("latin-1")


def one(op, root):
    k, a = op[0], op[1:]
    def F(p):
        return os.path.join(root, p)
    x = F(a[0])
    if k == "write":
        with open(x, a[1]) as f:
            d = "%s-%d" % (a[0], a[2])
            d = (d * (a[2] // len(d) + 1))[:a[2]]
            if "r" in a[1] and "+" not in a[1]:
                return f.read()
            n = f.write(d.encode() if "b" in a[1] else d)
            if a[3] is not None:
                f.flush()
                f.seek(a[3])
                f.truncate()
            f.flush()
            return [n, f.tell(), os.fstat(f.fileno()).st_size]
    if k == "read":
        return read(x)
    if k == "openrename":              # goes on writing to a file that was renamed or removed
        with open(x, "w") as f:
            f.write("one")
            f.flush()
            try:
                os.rename(x, F(a[1]))
            except OSError as e:
                f.write(errno.errorcode[e.errno])
            f.write("two")
        return None
    if k == "openunlink":
        with open(x, "w+") as f:
            f.write("data")
            f.flush()
            os.unlink(x)
            f.seek(0)
            return [f.read(), os.fstat(f.fileno()).st_nlink]
    if k in ("rename", "replace", "link"):
        return getattr(os, k)(x, F(a[1]))
    if k == "symlink":
        t = a[0].replace("@", root) if a[0].startswith("@") else a[0]
        return os.symlink(t, F(a[1]))
    if k in ("copy2", "copyfile", "move", "copy", "copymode"):
        r = getattr(shutil, k)(x, F(a[1]))
        return None if r is None else os.path.relpath(r, root)
    if k == "copytree":
        if os.path.realpath(F(a[1])).startswith(os.path.realpath(x)):
            return "inside"
        shutil.copytree(x, F(a[1]), symlinks=True)
        return None
    if k == "samefile":
        return os.path.samefile(x, F(a[1]))
    if k == "chmod":
        return os.chmod(x, a[1])
    if k == "utime":
        return os.utime(x, ns=(a[1], a[1]))
    if k == "lutime":
        return os.utime(x, ns=(a[1], a[1]), follow_symlinks=False)
    if k == "glob":
        return sorted(os.path.relpath(p, root) for p in glob.glob(x, recursive=True))
    if k == "access":
        return os.access(x, a[1])
    if k == "trunc":
        return os.truncate(x, a[1])
    if k == "listdir":
        return sorted(os.listdir(x))
    if k == "scandir":
        with os.scandir(x) as it:
            return sorted([e.name, e.is_dir(), e.is_file(), e.is_symlink(), e.is_dir(follow_symlinks=False),
                           st(e.stat(follow_symlinks=False))] for e in it)
    if k == "stat":
        return st(os.stat(x))
    if k == "lstat":
        return st(os.lstat(x))
    if k == "preds":
        return [os.path.exists(x), os.path.lexists(x), os.path.isdir(x), os.path.isfile(x), os.path.islink(x),
                os.path.ismount(x)]
    if k == "realpath":
        r = os.path.realpath(x)
        return os.path.relpath(r, os.path.realpath(root)) if r.startswith(os.path.realpath(root)) else "outside"
    if k == "walk":
        return sorted([os.path.relpath(d, root), sorted(ds), sorted(fs)]
                      for d, ds, fs in os.walk(x, followlinks=False))
    if k == "rglob":
        return sorted(str(p.relative_to(root)) for p in pathlib.Path(x).rglob("*"))
    if k == "plib":
        p = pathlib.Path(x)
        return [p.exists(), p.is_dir(), p.is_symlink(), p.read_text() if p.is_file() else None]
    if k == "pwrite":
        return pathlib.Path(x).write_text("päth")
    if k == "mkstemp":
        fd, t = tempfile.mkstemp(dir=x)
        os.write(fd, b"tmp")
        os.close(fd)
        r = [st(os.stat(t)), read(t)]
        os.unlink(t)
        return r
    if k == "readlink":
        return os.readlink(x).replace(root, "@")
    if k == "makedirs":
        return os.makedirs(x, exist_ok=len(a[0]) % 2 == 0)
    if k == "removedirs":
        return os.removedirs(F("keep") if False else x)
    if k in ("rmtree", "rmtree_i") and os.path.realpath(x) != os.path.join(os.path.realpath(root), os.path.normpath(a[0])):
        return "link"
    if k == "rmtree":
        return shutil.rmtree(x)
    if k == "rmtree_i":
        return shutil.rmtree(x, ignore_errors=True)
    if k == "chdir":
        here = os.getcwd()
        try:
            os.chdir(x)
            return [os.path.relpath(os.getcwd(), os.path.realpath(root)), sorted(os.listdir(".")), os.path.exists("../" + NAMES[0])]
        finally:
            os.chdir(here)
    if k == "disk":
        with open(x, "wb") as f:
            f.write(b"x" * 9000)
        return os.stat(x).st_blocks > 0
    return getattr(os, k)(x)


KINDS = ["write"] * 6 + ["mkdir"] * 6 + ["symlink"] * 4 + [
    "rename", "rename", "replace", "link", "copy2", "copyfile", "copy", "move", "copytree", "samefile", "chmod", "utime",
    "lutime", "glob", "access", "trunc", "listdir", "scandir", "stat", "lstat", "preds", "realpath", "walk", "rglob",
    "plib", "pwrite", "mkstemp", "readlink", "makedirs", "rmtree", "rmtree_i", "chdir", "disk", "rmdir", "unlink",
    "remove", "read", "openrename", "openunlink", "copymode"]


def run(prog, root):
    res = []
    for op in prog:
        try:
            r = one(op, root)
        except shutil.Error:
            r = "shutil.Error"
        except OSError as e:
            r = errno.errorcode.get(e.errno, str(e.errno))
        except ValueError as e:
            r = "ValueError"
        res.append([op, r])
        if "wanted" in os.environ.get("FIDELITY", ""):
            print(op, r)
    tree = []

    def go(d):
        try:
            names = sorted(os.listdir(d))
        except OSError as e:
            tree.append([os.path.relpath(d, root), errno.errorcode[e.errno]])
            return
        for n in names:
            p = os.path.join(d, n)
            try:
                s = os.lstat(p)
            except OSError as e:
                tree.append([os.path.relpath(p, root), errno.errorcode[e.errno]])
                continue
            tree.append([os.path.relpath(p, root), st(s)])
            if stat.S_ISDIR(s.st_mode):
                go(p)
            elif stat.S_ISREG(s.st_mode):
                try:
                    tree.append(read(p))
                except OSError as e:
                    tree.append(errno.errorcode[e.errno])
            else:
                tree.append(os.readlink(p).replace(root, "@"))
    go(root)
    res.append(["tree", tree])
    return json.loads(json.dumps(res))


def real(n, seed):
    os.umask(0o022)
    for i in range(n):
        d = tempfile.mkdtemp(prefix="fid-")
        os.makedirs(d + "/1/2/3/root")
        try:
            r = run(program("%s/%d" % (seed, i)), d + "/1/2/3/root")
        finally:
            for b, ds, fs in os.walk(d):
                for x in ds:
                    try:
                        os.chmod(os.path.join(b, x), 0o700, **({} if not os.path.islink(os.path.join(b, x)) else {"follow_symlinks": False}))
                    except (OSError, NotImplementedError):
                        pass
            shutil.rmtree(d, ignore_errors=True)
        print(json.dumps(r), flush=True)


def simulated(n, seed, scratch):
    sys.path.insert(0, HERE)
    out = os.fdopen(os.dup(1), "w")
    from sim import boot
    from sim.checks.base import default_cfg
    from sim.scen import Scenario
    k = boot.init(scratch)
    saved = k.boot
    for i in range(n):
        k.abort()
        sc = Scenario(k, default_cfg(1))
        box = {}
        prog = program("%s/%d" % (seed, i))

        def body(p):
            d = "/home/u/fid"
            os.umask(0o022)
            os.makedirs(d + "/1/2/3/root")
            box["r"] = run(prog, d + "/1/2/3/root")
            return 0
        k.boot = body
        try:
            p = k.spawn_command(sc.v and k.world.clients["A"], ["fidelity"])
            k.run(lambda: p.ended)
        finally:
            k.boot = saved
        if "r" not in box:
            box["r"] = [["crash", p.stderr.getvalue() if hasattr(p.stderr, "getvalue") else str(p.tb)]]
        out.write(json.dumps(box["r"]) + "\n")
        out.flush()
    os._exit(0)


def main():
    if sys.argv[1:2] == ["--real"]:
        return real(int(sys.argv[2]), sys.argv[3])
    if sys.argv[1:2] == ["--sim"]:
        return simulated(int(sys.argv[2]), sys.argv[3], sys.argv[4])
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 200
    seed = sys.argv[2] if len(sys.argv) > 2 else "1"
    sys.path.insert(0, HERE)
    import check
    d, d2 = check.scratch_dir(), check.scratch_dir()
    kw = {"user": 65534, "group": 65534, "extra_groups": []} if os.getuid() == 0 else {}
    env = {"PATH": "/usr/bin:/bin", "HOME": d, "TMPDIR": d, "LANG": "C.UTF-8", "PYTHONHASHSEED": "0"}
    me = os.path.abspath(__file__)
    try:
        a = subprocess.Popen([check.PYTHON, "-B", me, "--real", str(n), seed], env=env, stdout=subprocess.PIPE,
                             text=True, cwd=d, **kw)
        b = subprocess.Popen([check.PYTHON, "-B", me, "--sim", str(n), seed, d2], env=dict(env, HOME=d2, TMPDIR=d2),
                             stdout=subprocess.PIPE, text=True, cwd=d2, **kw)
        import threading
        box = []
        t = threading.Thread(target=lambda: box.append(a.communicate()[0]))
        t.start()
        y = b.communicate()[0].splitlines()
        t.join()
        x = box[0].splitlines()
    finally:
        check.rm_scratch(d)
        check.rm_scratch(d2)
    assert len(x) == len(y) == n, (len(x), len(y))
    bad = ops = 0
    for i, (p, q) in enumerate(zip(x, y)):
        p, q = json.loads(p), json.loads(q)
        ops += len(p)
        if p != q:
            bad += 1
            for u, v in zip(p, q):
                if u != v:
                    if u[0] == v[0] == "tree":
                        u, v = next((x for x in zip(u[1], v[1]) if x[0] != x[1]), (u, v))
                    if bad <= 12:
                        print("program", i, "real", str(u)[:500], "simulated", str(v)[:500])
                    break
    print("%d programs, %d operations: %d programs differ" % (n, ops, bad))
    return bad > 0


if __name__ == "__main__":
    sys.exit(main())
