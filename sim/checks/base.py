"""Common oracles. A property class chooses which of them it applies."""
import copy
import random

from .. import model as M
from .. import kernel as KN
from ..ops import Exec, Gen, DIRS, FILES, users
from ..scen import DEFAULT_CFG, DEFAULT_CLIENT, SEC, Violation

NAMES = "ABCDEF"


def default_cfg(n=1, **over):
    cfg = copy.deepcopy(DEFAULT_CFG)
    cfg["clients"] = [copy.deepcopy(DEFAULT_CLIENT) for _ in range(n)]
    for i, c in enumerate(cfg["clients"]):
        c["salt"] = i + 3
    cfg.update(over)
    return cfg


class Prop:
    id = "C00"
    quick = 400          # runs
    thorough = 20000
    quick_wall = 150
    thorough_wall = 780
    tier = "quick"
    rule = "a run counts if a command changed something in it; counted by configuration and operations"
    assumptions = [
        "all clocks agree to within a second and file times have full resolution",
        "users change files between commands, not while one runs",
        "the simulated file systems, SQLite locking and signals behave like Linux",
    ]

    def nontrivial(self, ex):
        return ex.evals > 1

    # -- to override -------------------------------------------------------------
    def cfg(self, rng):
        return self.swarm(rng, rng.choice([1, 1, 2]))

    def gen(self, ex, g, rng):
        raise NotImplementedError

    def bind(self, ex):
        self.ex = ex
        self.sc = ex.sc
        self.k = ex.k

    def before(self, n, cmd, args, plan):
        return None

    def after(self, n, cmd, args, plan, ctx, r):
        pass

    def before_par(self, specs):
        return None

    def after_par(self, specs, preempts, ctx, rs):
        pass

    # -- configuration ----------------------------------------------------------------
    def swarm(self, rng, nclients, **over):
        cfg = default_cfg(nclients)
        cfg["seed"] = rng.randrange(1 << 30)
        cfg["gap"] = rng.choice([0.3, 1.5, 1.5, 40, 5000])
        cfg["rblock"] = rng.choice([4096, 4096, 4096, 512, 16384])
        cfg["rdirblocks"] = rng.choice([0, 1, 1])
        cfg["rsalt"] = rng.randrange(100)
        cfg["rsub"] = rng.choice(["", "", "sub", "s p/x"])
        cfg["rlocal"] = nclients == 1 and rng.random() < 0.1
        for c in cfg["clients"]:
            c["salt"] = rng.randrange(100)
            c["xdg"] = rng.random() < 0.15
            c["tty"] = rng.random() < 0.2
            c["block"] = rng.choice([4096, 4096, 4096, 1024, 8192])
            c["dirblocks"] = rng.choice([0, 1, 1, 2])
            c["limit"] = rng.choice(["10MB", "10MB", "60KiB", "100KB", "30K", "0K", "200KiB"])
            c["bysize"] = rng.choice(["yes", "no"])
            c["inflate"] = rng.choice(["yes", "no"])
            c["trash"] = rng.choice(["yes", "yes", "no"])
            c["period"] = rng.choice(["30", "30", "-1", "1"])
            c["localdisk"] = rng.random() < 0.1
            c["spill"] = rng.random() < 0.15
        cfg.update(over)
        return cfg

    # -- violations ---------------------------------------------------------------------
    def fail(self, kind, msg):
        raise Violation(kind, msg)

    def expect_ok(self, r, what="completes"):
        if r.rc != 0:
            tail = "\n".join((r.err or r.tb).strip().splitlines()[-6:])
            import re
            last = (r.err.strip().splitlines() or [""])[-1]
            kind = re.sub(r"[^A-Za-z.]+", " ", last.split(":")[0]).strip().rsplit(".", 1)[-1][:30]
            self.fail("error:" + kind, "%s does not complete although nothing is wrong: rc=%s\n%s" % (
                r.brief(), r.rc, tail))
        if r.thread_errors:
            self.fail("error", "%s: thread error %s" % (r.brief(), r.thread_errors))

    # -- init helpers --------------------------------------------------------------------
    def start_clients(self, ex, g, rng, nfiles=None, weights=None):
        """First files and init of every client."""
        for n in range(len(ex.cfg["clients"])):
            k = rng.randint(2, 9) if nfiles is None else nfiles
            if n == 0:
                g.do_edits(0, k, {"rwrite": 0, "rnew": 0, "rrm": 0, "rrmtree": 0, "rmkdir": 0,
                                  **(weights or {})})
                ex.do(["cmd", 0, "init", []])
            else:
                ex.do(["cmd", n, "init", ["-a"]])

    # -- the merge oracle -----------------------------------------------------------------
    def sync_before(self, n):
        sc = self.sc
        c = NAMES[n]
        base = sc.st["base"].get(c, {})
        rmeta = {}
        R = sc.remote_tree(rmeta)
        L, lmeta = sc.logical_local(n, base)
        for t in (R, L):         # what an interrupted copy left is not the user's
            for p in [p for p in t if not users(p)]:
                del t[p]
        return {"base": base, "R": R, "L": L, "lmeta": lmeta, "rmeta": rmeta,
                "raw": sc.local_tree(n)}

    def merge_of(self, b):
        return M.merge(b["base"], b["L"], b["R"], b["lmeta"], b["rmeta"])

    def check_merge(self, n, b, kind="merge", exact_conflicts=True, skip=()):
        """After a completed sync of client n."""
        sc = self.sc
        m = self.merge_of(b)
        rmeta = {}
        R = sc.remote_tree(rmeta)
        want = dict(m.tree)
        have = dict(R)
        problems = []
        extras = [p for p in have if p not in want]
        left = dict(m.conflicts)
        for p in sorted(extras):
            for orig in sorted(left):
                win, lose, side = left[orig]
                if have[p] == lose and M.conflict_name_matches(p, orig):
                    want[p] = lose
                    if lose[0] == "f":
                        src = b["lmeta"] if side == "l" else b["rmeta"]
                        if orig in src:
                            m.mtimes[p], m.modes[p] = src[orig]
                    del left[orig]
                    break
        skip = set(skip)
        for orig, (win, lose, side) in sorted(left.items()):
            if orig in skip:
                continue
            problems.append("conflict on %s: the losing version %s is not kept under a conflict name"
                            % (orig, M.show(lose)))
        for p in set(want) | set(have):
            if p in skip or any(M.conflict_name_matches(p, o) for o in skip):
                want.pop(p, None)
                have.pop(p, None)
        problems += ["remote " + x for x in M.diff_trees(want, have)]
        if problems:
            self.fail(kind, "after a completed sync of %s the remote directory is not the merge:\n  %s"
                      % (NAMES[n], "\n  ".join(problems)))
        self.check_mirror(n, kind)
        # metadata
        for p, mt in m.mtimes.items():
            if p in rmeta and want.get(p, ("",))[0] == "f":
                if rmeta[p][0] != mt:
                    problems.append("modification time of remote %s is %d, not %d" % (p, rmeta[p][0], mt))
                if rmeta[p][1] & 0o777 != m.modes[p] & 0o777:
                    problems.append("mode of remote %s is %o, not %o" % (p, rmeta[p][1], m.modes[p]))
        lmeta = {}
        L = sc.local_tree(n, lmeta)
        for p, e in L.items():
            if e[0] == "f" and p in rmeta:
                if lmeta[p][0] != rmeta[p][0]:
                    problems.append("modification times of %s differ: local %d, remote %d" % (
                        p, lmeta[p][0], rmeta[p][0]))
                if lmeta[p][1] & 0o777 != rmeta[p][1] & 0o777:
                    problems.append("modes of %s differ: local %o, remote %o" % (
                        p, lmeta[p][1], rmeta[p][1]))
        if problems:
            self.fail("meta", "after a completed sync of %s:\n  %s" % (NAMES[n], "\n  ".join(problems)))
        return m

    def check_mirror(self, n, kind="mirror", excluded=()):
        """The local directory, read through its placeholders, equals the remote directory."""
        sc = self.sc
        R = sc.remote_tree()
        L = sc.local_tree(n)
        problems = []
        for p in sorted(set(L) | set(R)):
            if p in excluded:
                continue
            l, r = L.get(p), R.get(p)
            if l is not None and l[0] == "P":
                if r is None or r[0] == "d":
                    problems.append("%s: local placeholder, but remote is %s" % (p, M.show(r)))
            elif l != r:
                problems.append("%s: local %s, remote %s" % (p, M.show(l), M.show(r)))
        links = {}
        sc.local_tree(n, None, links)
        for p, t in sorted(links.items()):
            if sc.points_to_remote(n, p, t) and p not in sc.st["notes"].get("links", ()):
                problems.append("%s: link to %s, which is not its own remote file" % (p, t))
        if problems:
            self.fail(kind, "after a completed sync of %s the two directories differ:\n  %s" % (
                NAMES[n], "\n  ".join(problems)))

    def completed(self, n):
        """Record the state of a completed sync or init."""
        self.sc.st["base"] = dict(self.sc.st["base"])
        self.sc.st["base"][NAMES[n]] = self.sc.remote_tree()

    # -- ledger -----------------------------------------------------------------------------
    def check_ledger(self, kind="lost", what=""):
        sc = self.sc
        live = sc.live_tokens()
        found = sc.found_tokens()
        lost = sorted(t for t in live if t not in found)
        if lost:
            self.fail(kind, "%s: %s lost: no complete copy in any local directory, the remote "
                      "directory or the trash" % (what, ", ".join("version v%d" % t for t in lost)))

    # -- tree fingerprints ----------------------------------------------------------------------
    def trees(self, trash=True):
        """Everything a user sees, with times."""
        sc = self.sc
        out = {}
        for n in range(len(sc.cfg["clients"])):
            for p, i in sc.local_raw(n).items():
                out[NAMES[n] + ":" + p] = sc._entry(i) + ((i.mtime, i.mode) if i.kind == "f" else ())
        meta = {}
        for p, e in sc.remote_tree(meta).items():
            out["R:" + p] = e + (meta[p] if e[0] == "f" else ())
        if trash:
            for p, i in sc.trash_tree().items():
                out["T:" + p] = sc._entry(i) + ((i.mtime, i.mode) if i.kind == "f" else ())
        return out

    def diff_state(self, a, b):
        out = []
        for p in sorted(set(a) | set(b)):
            if a.get(p) != b.get(p):
                x, y = a.get(p), b.get(p)
                out.append("%s: %s -> %s%s" % (p, M.show(x), M.show(y),
                                               " (times or modes)" if x and y and x[:2] == y[:2] else ""))
        return out

    def settle(self, ex, n, secs=2):
        ex.do(["wait", secs])
