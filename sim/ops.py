"""Explicit operations on a scenario, and the state-aware generator of them.

An operation is a JSON list; a run is a configuration and a list of operations, so that replaying
the list reproduces the run. Operations that make no sense in the state they meet do nothing
(so that any sublist of a run is again a run).
"""
import contextlib
import os
import re
import zlib

from . import kernel as KN
from . import model as M
from . import vfs as V
from .scen import Scenario, Violation, PROFILE, SEC

DIRS = ["d", "dd", "d e", "\u00e9", "z[1]"]
FILES = ["a", "ab", "b.txt", "b c.txt", ".hid", "x[1].md", "\u00fc.tar.gz", "-r", "d.x"]
SIZES = [0, 20, 300, 4096, 5000, 12000, 70000]


FRESH = re.compile(r"^(n|m|md|ln|empty|dangling)\d+$")


def users(path):
    """Is this a name that users gave (not something internal an interrupted command left)?"""
    b = path.rsplit("/", 1)[-1]
    return b in FILES or b in DIRS or bool(FRESH.match(b)) or bool(M.CONFLICT.match(b))


def hash_state(locals_, remote, trash):
    toks = {}

    def v(data):
        t, ok = M.token_of(data)
        if t is None:
            return 0
        return (toks.setdefault(t, len(toks) + 1), ok)
    out = []
    for t in locals_:
        out.append([(p, i.kind, v(i.data) if i.kind == "f" else i.target)
                    for p, i in sorted(t.items())])
    out.append([(p, e[0], v(e[1]) if e[0] == "f" else e[1:]) for p, e in sorted(remote.items())])
    out.append([(p, i.kind, v(i.data) if i.kind == "f" else 0) for p, i in sorted(trash.items())])
    return zlib.crc32(repr(out).encode())


class Exec:
    """Applies operations; the property supplies the oracles."""

    def __init__(self, kernel, prop, cfg):
        self.k = kernel
        self.prop = prop
        self.sc = Scenario(kernel, cfg)
        self.v = self.sc.v
        self.cfg = cfg
        self.trace = []
        self.results = []
        self.evals = 0
        self.simtime = 0.0
        self.simsteps = 0
        self.states = set()
        self.gap = cfg.get("gap", 1.5)
        prop.bind(self)

    def do(self, op):
        self.trace.append(op)
        if op[0] not in ("wait", "env"):
            self.k.world.clock += int(self.gap * SEC)
        f = getattr(self.prop, "op_" + op[0], None)
        if f is None:
            f = getattr(self, "op_" + op[0])
        self.k.count("op:" + op[0])
        return f(*op[1:])

    def lp(self, n, rel):
        return self.sc.local_path(n) + "/" + rel

    def ok(self, n):
        return n < len(self.cfg["clients"])

    # -- user edits --------------------------------------------------------------
    def op_write(self, n, rel, size, mode=0o644, how="write"):
        if not self.ok(n):
            return False
        c = self.sc.client(n)
        try:
            if "/" in rel:
                self.v.makedirs(c, os.path.dirname(self.lp(n, rel)))
            x = self.v.resolve(c, self.lp(n, rel), False).inode
            if x is not None and x.kind == "l" and not (
                    self.sc.is_placeholder(n, rel, x.target) and rel not in self.sc.remote_tree()) \
                    and self.v.resolve(c, self.lp(n, rel), True).inode is None:
                return False      # would make a file where the link's target was a directory
        except OSError:
            return False
        return self.sc.user_write(c, self.lp(n, rel), size, mode, how)

    def op_rm(self, n, rel, tree=False):
        if not self.ok(n):
            return False
        try:
            return self.sc.user_rm(self.sc.client(n), self.lp(n, rel), tree, n=n)
        except OSError:
            return False

    def op_mv(self, n, a, b):
        if not self.ok(n):
            return False
        c = self.sc.client(n)
        try:
            if self.v.resolve(c, self.lp(n, b), False).inode is not None:
                return False
            for p, i in list(self.v.tree(c, self.lp(n, a)).items()) \
                    if self.v.lookup(c, self.lp(n, a), False).inode.kind == "d" else []:
                if i.kind == "l":
                    return False
            if self.v.lookup(c, self.lp(n, a), False).inode.kind == "l":
                return False
            if "/" in b:
                self.v.makedirs(c, os.path.dirname(self.lp(n, b)))
            self.v.rename(c, self.lp(n, a), self.lp(n, b))
        except OSError:
            return False
        return True

    def op_mkdir(self, n, rel):
        if not self.ok(n):
            return False
        try:
            self.v.makedirs(self.sc.client(n), self.lp(n, rel))
        except OSError:
            return False
        return True

    def op_symlink(self, n, rel, target):
        """Make a link, replacing what is there."""
        if not self.ok(n):
            return False
        c = self.sc.client(n)
        target = target.replace("%R", self.sc.remote_path(n)).replace("%L", self.sc.local_path(n))
        try:
            node = self.v.resolve(c, self.lp(n, rel), False)
            if node.inode is not None:
                if node.inode.kind == "d":
                    return False
                self.sc.release_at(c, self.lp(n, rel), n=n)
                self.v.unlink(c, self.lp(n, rel))
            if "/" in rel:
                self.v.makedirs(c, os.path.dirname(self.lp(n, rel)))
            self.v.symlink(c, target, self.lp(n, rel))
        except OSError:
            return False
        return True

    # direct edits of the remote directory, from client n
    def rp(self, n, rel):
        return self.sc.remote_path(n) + "/" + rel

    def op_rwrite(self, n, rel, size, mode=0o644, how="save"):
        if not self.ok(n):
            return False
        c = self.sc.client(n)
        try:
            self.v.makedirs(c, os.path.dirname(self.rp(n, rel)))
        except OSError:
            return False
        return self.sc.user_write(c, self.rp(n, rel), size, mode, how)

    def op_rrm(self, n, rel, tree=False):
        if not self.ok(n):
            return False
        try:
            return self.sc.user_rm(self.sc.client(n), self.rp(n, rel), tree)
        except OSError:
            return False

    def op_rmkdir(self, n, rel):
        if not self.ok(n):
            return False
        try:
            self.v.makedirs(self.sc.client(n), self.rp(n, rel))
        except OSError:
            return False
        return True

    def op_rsymlink(self, n, rel, target):
        if not self.ok(n):
            return False
        c = self.sc.client(n)
        try:
            node = self.v.resolve(c, self.rp(n, rel), False)
            if node.inode is not None:
                if node.inode.kind == "d":
                    return False
                self.sc.release_at(c, self.rp(n, rel))
                self.v.unlink(c, self.rp(n, rel))
            self.v.makedirs(c, os.path.dirname(self.rp(n, rel)))
            self.v.symlink(c, target, self.rp(n, rel))
        except OSError:
            return False
        return True

    def op_exclude(self, n, patterns):
        """The user edits the exclude file of the profile (or before init, the one to use)."""
        if not self.ok(n):
            return False
        text = "# comment\n" + "".join(p + "\n" for p in patterns)
        c = self.sc.client(n)
        path = self.sc.profile_dir(n) + "/exclude"
        try:
            self.v.lookup(c, path)
        except OSError:
            path = "/home/u/exclude"
        self.v.write_file(c, path, text.encode())
        self.sc.st["exclude"] = dict(self.sc.st.get("exclude", {}))
        self.sc.st["exclude"][str(n)] = list(patterns)
        return True

    def op_config(self, n, over):
        if not self.ok(n):
            return False
        c = self.sc.client(n)
        path = self.sc.profile_dir(n) + "/config"
        try:
            if self.v.lookup(c, path).inode is None:
                return False
        except OSError:
            return False
        cur = dict(self.sc.st.get("config", {}).get(str(n), {}))
        cur.update(over)
        self.sc.st["config"] = dict(self.sc.st.get("config", {}))
        self.sc.st["config"][str(n)] = cur
        self.v.write_file(c, path, self.sc.template(n, **cur))
        return True

    def setting(self, n, key):
        return self.sc.st.get("config", {}).get(str(n), {}).get(key, self.cfg["clients"][n][key])

    def op_wait(self, secs):
        self.k.world.clock += int(secs * SEC)

    def op_env(self, n, what):
        if not self.ok(n):
            return False
        self.sc.world_event(self.sc.client(n), what)

    @contextlib.contextmanager
    def branch(self):
        """Try something, then return to the present state (left as it is by a violation)."""
        snap = self.sc.snapshot()
        n = len(self.trace)
        c, s = self.k.world.clock, self.k.world.steps
        yield snap
        del self.trace[n:]
        self.simtime += (self.k.world.clock - c) / 1e9
        self.simsteps += self.k.world.steps - s
        self.sc.restore(snap)

    def note_state(self):
        sc = self.sc
        h = hash_state(
            [sc.local_raw(n) for n in range(len(self.cfg["clients"]))], sc.remote_tree(),
            sc.trash_tree())
        self.states.add(h)

    # -- commands ----------------------------------------------------------------
    def op_cmd(self, n, cmd, args=(), plan=(), extra=None):
        if not self.ok(n):
            return None
        extra = dict(extra or {})
        quiet = extra.pop("quiet", False)
        ctx = None if quiet else self.prop.before(n, cmd, args, plan)
        r = self.sc.cmd(n, cmd, args, plan, **extra)
        self.evals += 1
        self.note_state()
        if r.exc is not None and "Harness" in r.exc:
            raise KN.HarnessError(r.exc)
        if not quiet:
            self.prop.after(n, cmd, args, plan, ctx, r)
        return r

    def op_par(self, specs, preempts=()):
        specs = [s for s in specs if self.ok(s["c"])]
        if not specs:
            return None
        ctx = self.prop.before_par(specs)
        rs = self.sc.par(specs, preempts)
        self.evals += len(rs)
        self.note_state()
        self.prop.after_par(specs, preempts, ctx, rs)
        return rs


class Gen:
    """Picks operations that make sense in the present state."""

    def __init__(self, ex, rng):
        self.ex = ex
        self.sc = ex.sc
        self.rng = rng
        self.fresh = 0

    # -- names ---------------------------------------------------------------------
    def newname(self, stem="n"):
        self.fresh += 1
        return "%s%d" % (stem, self.fresh)

    def some_dir(self, depth=2):
        r = self.rng
        if r.random() < 0.4:
            return ""
        p = r.choice(DIRS)
        while depth > 1 and r.random() < 0.35:
            p += "/" + r.choice(DIRS)
            depth -= 1
        return p + "/"

    def some_path(self):
        return self.some_dir() + self.rng.choice(FILES)

    def size(self):
        return self.rng.choice(SIZES[1:])

    def mode(self):
        return self.rng.choice([0o644, 0o644, 0o600, 0o755, 0o444 if self.rng.random() < .3 else 0o640])

    def local_entries(self, n, want="fPl"):
        t = self.sc.local_tree(n)
        return sorted(p for p, e in t.items() if e[0] in want and users(p))

    def remote_entries(self, want="f"):
        return sorted(p for p, e in self.sc.remote_tree().items() if e[0] in want and users(p))

    def file_target(self, n, bias_existing=0.6):
        r = self.rng
        ex = self.local_entries(n, "fP")
        if ex and r.random() < bias_existing:
            return r.choice(ex)
        p = self.some_path()
        return p

    # -- one random user edit -----------------------------------------------------------
    def edit(self, n, weights=None):
        r = self.rng
        w = {"write": 6, "save": 3, "empty": .5, "rm": 3, "rmtree": .8, "mv": 1, "mvdir": .4, "mkdir": .7,
             "rmdir": .4, "symlink": .6, "rwrite": 1, "rnew": 1, "rrm": .7, "rrmtree": .2, "rmkdir": .2}
        if weights:
            w.update(weights)
        kinds = [k for k in w if w[k] > 0]
        kind = r.choices(kinds, [w[k] for k in kinds])[0]
        if kind in ("write", "save"):
            return ["write", n, self.file_target(n), self.size(), self.mode(), kind]
        if kind == "empty":
            return ["write", n, self.some_dir() + self.newname("empty"), 0, 0o644, "write"]
        if kind == "rm":
            es = self.local_entries(n, "fPl")
            return ["rm", n, r.choice(es)] if es else None
        if kind == "rmtree":
            es = self.local_entries(n, "d")
            return ["rm", n, r.choice(es), True] if es else None
        if kind == "mv":
            es = self.local_entries(n, "f")
            return ["mv", n, r.choice(es), self.some_dir() + self.newname("m")] if es else None
        if kind == "mvdir":
            es = self.local_entries(n, "d")
            if not es:
                return None
            a = r.choice(es)
            return ["mv", n, a, self.newname("md")]
        if kind == "mkdir":
            return ["mkdir", n, self.some_dir() + r.choice(DIRS)]
        if kind == "rmdir":
            es = [p for p in self.local_entries(n, "d")
                  if not self.sc.v.listdir(self.sc.client(n), self.ex.lp(n, p))]
            return ["rm", n, r.choice(es)] if es else None
        if kind == "symlink":
            p = self.some_dir() + self.newname("ln")
            es = self.local_entries(n, "fPd")
            if es and r.random() < .8:
                t = os.path.relpath(r.choice(es), os.path.dirname(p) or ".")
            else:
                t = self.newname("dangling")
            return ["symlink", n, p, t]
        if kind == "rwrite":
            es = self.remote_entries("f")
            return ["rwrite", n, r.choice(es), self.size(), self.mode(),
                    r.choice(["save", "write"])] if es else None
        if kind == "rnew":
            p = self.some_path()
            if p in self.sc.remote_tree():
                return None
            return ["rwrite", n, p, self.size(), self.mode(), "write"]
        if kind == "rrm":
            es = self.remote_entries("fl")
            return ["rrm", n, r.choice(es)] if es else None
        if kind == "rrmtree":
            es = self.remote_entries("d")
            return ["rrm", n, r.choice(es), True] if es else None
        if kind == "rmkdir":
            return ["rmkdir", n, self.some_dir() + r.choice(DIRS)]
        raise AssertionError(kind)

    def do_edits(self, n, k, weights=None):
        for _ in range(k):
            op = self.edit(n, weights)
            if op is not None:
                self.ex.do(op)
