"""C16 nothing outside the synced directories is touched; symbolic links."""
import os

from .base import Prop, NAMES, M
from .c03 import orig_name
from ..ops import users
from ..scen import PROFILE, SEC
from ..vfs import ROOT_INO

EXT = "/home/u/ext"


class C16(Prop):
    id = "C16"
    quick = 900
    thorough = 30000
    rule = "a run counts if there was a symbolic link that must not be synced in it; counted by " \
           "configuration and operations"

    def nontrivial(self, ex):
        return self.seen > 0

    def cfg(self, rng):
        cfg = self.swarm(rng, rng.choice([1, 1, 2]))
        cfg["rsub"] = rng.choice(["", "sub", "sub", "s p/x"])
        if cfg["gap"] > 1000:
            cfg["gap"] = 40
        cfg["kills"] = rng.random() < .3
        for c in cfg["clients"]:
            if rng.random() < .15:
                c["exclude"] = rng.sample(["*.txt", "d", "/a", "dd/*", "ab", "x*"], rng.randint(1, 2))
        return cfg

    def bind(self, ex):
        super().bind(ex)
        self.seen = 0
        self.muts = []
        self.k.vfs.monitor = self.monitor
        self.clean = True

    def monitor(self, client, op, real):
        if self.k.current is not None:
            self.muts.append((client.name, op, real))

    # -- the world outside --------------------------------------------------------------------------
    def op_outside(self):
        """Things that are nobody's business."""
        v = self.sc.v
        for n in range(len(self.ex.cfg["clients"])):
            c = self.sc.client(n)
            l, r = self.sc.local_path(n), self.sc.remote_path(n)
            for d in (EXT, EXT + "/d", EXT + "/empty", l + "2", l + "2/d") + (
                    (r + "2", r + "2/d") if r.count("/") > 2 and not n else ()):
                v.makedirs(c, d)
                for f in ("a", "b.txt", "ab"):
                    if not d.endswith("empty"):
                        v.write_file(c, d + "/" + f, b"outside " + d.encode())
            v.write_file(c, l + ".txt", b"outside")
            v.symlink(c, l, EXT + "/back")

    def outside(self, n):
        """Everything of a machine but the directories the program may use."""
        out = {}
        w = self.k.world
        mine = self.roots(n) + ["/home/u/tmpl", "/home/u/exclude"]
        c = self.sc.client(n)
        todo = [(c.name, ROOT_INO, "")]
        while todo:
            f, ino, pre = todo.pop()
            d = w.fss[f].inodes[ino]
            for name, x in d.entries.items():
                p = pre + "/" + name
                if p in mine:
                    continue
                i = w.fss[f].inodes[x]
                m = c.mounts.get((f, x))
                if m is not None:
                    todo.append((m, ROOT_INO, p))
                    continue
                out[p] = (i.kind, i.mode, i.data if i.kind == "f" else i.target,
                          i.mtime if i.kind == "f" else 0)
                if i.kind == "d":
                    todo.append((f, x, p))
        return out

    def roots(self, n):
        return [self.sc.local_path(n), self.sc.remote_path(n), self.sc.conf_dir(n)]

    def check_outside(self, n, before, r):
        roots = self.roots(n)
        for name, op, real in self.muts:
            if name != NAMES[n]:
                continue
            for x in ([real] if isinstance(real, str) else list(real)):
                if any(x == p or x.startswith(p + "/") for p in roots):
                    continue
                if op == "mkdir" and any(p.startswith(x + "/") for p in roots[2:]):
                    continue
                self.fail("outside", "%s: %s %s" % (r.brief(), op, x))
        now = self.outside(n)
        bad = ["%s: %s -> %s" % (p, before.get(p), now.get(p)) for p in sorted(set(before) | set(now))
               if before.get(p) != now.get(p) and not any(q.startswith(p + "/") for q in roots[2:])]
        if bad:
            self.fail("outside", "%s changes something outside:\n  %s" % (r.brief(), "\n  ".join(bad)))

    # -- links ---------------------------------------------------------------------------------------
    def foreign(self, n):
        """-> {path: inode} of the links to leave alone, in the local and the remote directory"""
        sc = self.sc
        local = {p: (i.ino, i.target) for p, i in sc.local_raw(n).items() if i.kind == "l" and users(p)
                 and not sc.is_placeholder(n, p, i.target) and not sc.safe_link(n, p, i.target)}
        base = sc.remote_root()
        remote = {}
        if base:
            for p, e in sc.remote_tree().items():
                if e[0] == "l" and not sc.safe_link(n, p, e[1]):
                    remote[p] = e[1]
        return local, remote

    @staticmethod
    def at(F, p):
        return p in F or any(q in F for q in M.parents(p))

    def before(self, n, cmd, args, plan):
        b = self.sync_before(n)
        b["foreign"] = self.foreign(n)
        b["outside"] = self.outside(n)
        b["raws"] = [{p: (self.sc._entry(i), i.mode, i.mtime if i.kind != "d" else 0)
                      for p, i in self.sc.local_raw(x).items()}
                     for x in range(len(self.ex.cfg["clients"]))]
        b["status"] = (self.sc.info(n) or {}).get("Status")
        self.muts = []
        if any(b["foreign"]):
            self.seen += 1
        return b

    def after(self, n, cmd, args, plan, b, r):
        self.check_outside(n, b["outside"], r)
        self.muts = []
        what = "%s %s%s" % (NAMES[n], cmd, " interrupted" if r.killed else "")
        local, remote = self.foreign(n)
        for p, x in sorted(b["foreign"][0].items()):
            if cmd == "reset" and self.sc.points_to_remote(n, p, x[1]):
                continue
            if local.get(p) != x:
                self.fail("link", "%s: the local link %s -> %s is now %s" % (
                    what, p, x[1], M.show(self.sc.local_tree(n).get(p)) if p not in local else local[p][1]))
        for p, x in sorted(b["foreign"][1].items()):
            if remote.get(p) != x:
                self.fail("link", "%s: the remote link %s -> %s is now %s" % (
                    what, p, x, M.show(self.sc.remote_tree().get(p))))
        for p in sorted(p for p in set(local) - set(b["foreign"][0]) if users(p)):
            self.fail("copied", "%s: there is a new local link %s -> %s" % (what, p, local[p][1]))
        for p in sorted(p for p in set(remote) - set(b["foreign"][1]) if users(p)):
            self.fail("copied", "%s: there is a new remote link %s -> %s" % (what, p, remote[p]))
        for x in range(len(self.ex.cfg["clients"])):
            if x != n:
                now = {p: (self.sc._entry(i), i.mode, i.mtime if i.kind != "d" else 0)
                       for p, i in self.sc.local_raw(x).items()}
                if now != b["raws"][x]:
                    self.fail("outside", "%s changes the local directory of %s" % (what, NAMES[x]))
        self.check_ledger("lost", what)
        if r.killed or plan and r.rc != 0:
            self.clean = False
            return
        if cmd == "reset" and r.rc == 1 and self.blocked(b):
            self.clean = False      # its files can't be retrieved
            return
        self.expect_ok(r, cmd)
        F = set(b["foreign"][0]) | set(b["foreign"][1])
        if cmd == "reset":
            self.done_reset(n, args, b, what, F)
            return
        if cmd == "empty-trash":
            return
        # nothing is synced at or under these links
        if not [p for p in self.sc.excludes(n)]:
            self.check_still(n, b, F, what)
        if self.clean and not any(self.sc.excludes(x) for x in range(len(self.ex.cfg["clients"]))):
            if cmd == "sync":
                self.check_around(n, b, F, what)
            else:
                self.check_both(n, F, what)
        self.sc.st["base"] = dict(self.sc.st["base"])
        self.sc.st["base"][NAMES[n]] = {p: e for p, e in self.sc.remote_tree().items() if not self.at(F, p)}

    def blocked(self, b):
        """Is there a link in the place of a directory?"""
        F = set(b["foreign"][0])
        return any(p in F and b["R"].get(p, ("-",))[0] == "d" for p in F)

    def check_still(self, n, b, F, what):
        R1, raw1 = self.sc.remote_tree(), self.sc.local_raw(n)
        for p in sorted(set(b["R"]) | set(R1)):
            if self.at(F, p) and users(p) and b["R"].get(p) != R1.get(p):
                self.fail("under", "%s: the remote %s, at or under a link that can't be synced, was %s "
                          "and is %s" % (what, p, M.show(b["R"].get(p)), M.show(R1.get(p))))
        raw0 = b["raws"][n]
        for p in sorted(set(raw0) | set(raw1)):
            if self.at(F, p) and users(p):
                x = raw0[p][0] if p in raw0 else None
                y = self.sc._entry(raw1[p]) if p in raw1 else None
                if x != y and not (y is None and x[0] == "l" and self.sc.is_placeholder(n, p, x[1])):
                    self.fail("under", "%s: the local %s, at or under a link that can't be synced, was %s "
                              "and is %s" % (what, p, M.show(x), M.show(y)))

    def check_both(self, n, F, what):
        R, L = self.sc.remote_tree(), self.sc.local_tree(n)
        bad = []
        hold = {q for p in F for q in M.parents(p)}
        for p in sorted(set(R) | set(L)):
            if self.at(F, p) or p in hold:
                continue
            l, r = L.get(p), R.get(p)
            if (l is None) != (r is None) or (l[0] != "P" and l != r) or (l[0] == "P" and r[0] == "d"):
                bad.append("%s: local %s, remote %s" % (p, M.show(l), M.show(r)))
        if bad:
            self.fail("mirror", "after %s the directories differ:\n  %s" % (what, "\n  ".join(bad)))

    def check_around(self, n, b, F, what):
        cut = lambda t: {p: e for p, e in t.items() if not self.at(F, p)}
        hold = {q for p in F for q in M.parents(p)}
        m = M.merge(cut(b["base"]), cut(b["L"]), cut(b["R"]), b["lmeta"], b["rmeta"])
        want, have = dict(m.tree), cut(self.sc.remote_tree())
        left = dict(m.conflicts)
        for p in sorted(p for p in have if p not in want):
            for o in sorted(left):
                if have[p] == left[o][1] and M.conflict_name_matches(p, o):
                    want[p] = have[p]
                    del left[o]
                    break
        bad = ["conflict on %s: %s is not kept under a conflict name" % (o, M.show(left[o][1]))
               for o in sorted(left)]
        bad += ["remote " + x for x in M.diff_trees(want, have, hold)]
        if bad:
            self.fail("merge", "%s: not the merge:\n  %s" % (what, "\n  ".join(bad)))
        self.check_both(n, F, what)

    def done_reset(self, n, args, b, what, F):
        sc = self.sc
        st = sc.st
        st["base"] = {x: t for x, t in st["base"].items() if x != NAMES[n]}
        raw = sc.local_raw(n)
        for p, i in sorted(raw.items()):
            if i.kind == "l" and sc.points_to_remote(n, p, i.target):
                self.fail("placeholder", "%s leaves the placeholder %s" % (what, p))
        if args or not self.clean or b["status"] != "initialized":
            return
        L = sc.local_tree(n)
        for p, e in sorted(b["R"].items()):
            if self.at(F, p) or e[0] == "d":
                continue
            if b["L"].get(p, e) == e and L.get(p) != e:
                self.fail("reset", "%s: %s was %s in the remote directory and is %s in the local one" % (
                    what, p, M.show(e), M.show(L.get(p))))

    # -- runs ------------------------------------------------------------------------------------------
    def target(self, g, rng, p, remote=False):
        """A link target for path p."""
        x = rng.random()
        up = "../" * (p.count("/") + 1)
        base = (self.sc.remote_path(0) if remote else self.sc.local_path(0))
        names = [q for q in (g.remote_entries("fd") if remote else g.local_entries(0, "fPd"))] or ["a"]
        q = rng.choice([q for q in names if q != p] or ["a/a"])
        if x < .3:            # inside
            return os.path.relpath(rng.choice(names), os.path.dirname(p) or ".")
        if x < .36:
            return rng.choice(["nowhere", ".", os.path.basename(p), "./", "d/../a"])
        if x < .5:            # beside
            return up + os.path.basename(base) + rng.choice(["2/a", "2/d", "2", ".txt", "x/nowhere", "2/none"])
        if x < .56:
            return up + os.path.basename(base) + "/" + q      # out and in again
        if x < .7:
            return rng.choice([EXT, EXT + "/a", EXT + "/d", EXT + "/none", EXT + "/back", "/etc/passwd",
                               "/home/u/diary", "/home/u", "/", "/etc", self.sc.remote_path(0) + "2/a",
                               self.sc.local_path(0) + "2/a"])
        if x < .76:
            return up + rng.choice(["ext/a", "ext/d", "ext", "..", "diary"])
        if x < .84:
            return "%s/%s" % (base, q)
        if x < .94:
            return "%s/%s" % (self.sc.local_path(0) if remote else self.sc.remote_path(0), q)
        return "/" + q

    def link(self, ex, g, rng, n):
        remote = rng.random() < .3
        names = g.remote_entries("fd") if remote else g.local_entries(n, "fPd")
        p = rng.choice(names) if names and rng.random() < .55 else g.some_dir() + g.newname("ln")
        t = self.target(g, rng, p, remote)
        ex.do(["relink", n, p, t, remote])

    def op_relink(self, n, rel, target, remote=False):
        """A link takes the place of whatever is there."""
        if not self.ex.ok(n):
            return
        c, v = self.sc.client(n), self.sc.v
        root = self.sc.remote_path(n) if remote else self.sc.local_path(n)
        path = root + "/" + rel
        d = os.path.dirname(path)
        try:
            parts = os.path.dirname(rel).split("/") if "/" in rel else []
            for i in range(1, len(parts) + 1):
                x = v.resolve(c, root + "/" + "/".join(parts[:i]), False).inode
                if x is not None and x.kind != "d":
                    return          # there is a link above
            x = v.resolve(c, path, False).inode
            safe = self.sc.safe_link(n, rel, target)
            if safe and self.is_dir(rel):
                return
            if x is not None and x.kind == "l" and x.target == target or any(
                    t.get(rel) == ("l", target) for t in [self.sc.remote_tree()] + list(
                        self.sc.st["base"].values())):
                return
            if x is not None:
                if x.kind == "d" and safe:
                    return           # such changes of the kind are not covered
                self.sc.user_rm(c, path, True, None if remote else n)
            else:
                v.makedirs(c, d)
            v.symlink(c, target, path)
        except OSError:
            return

    def plan(self, ex, rng):
        if ex.cfg["kills"] and rng.random() < .3:
            return [{"at": rng.randint(1, rng.choice([20, 60, 150])), "unit": "m",
                     "do": rng.choice(["kill", "kill", "torn", "sig:TERM"])}]
        return []

    def command(self, ex, rng, n, cmd, args):
        p = self.plan(ex, rng)
        r = ex.do(["cmd", n, cmd, args, p])
        if p and r is not None and r.rc != 0:
            st = self.sc.info(n)
            if cmd == "init" and (st or {}).get("Status") != "initialized" or cmd == "reset" and st:
                ex.do(["cmd", n, cmd, args])

    def op_daemon(self, n, secs):
        if not self.ex.ok(n) or (self.sc.info(n) or {}).get("Status") != "initialized":
            return
        before, last = self.outside(n), self.sc.info(n)["LastSync"]
        self.muts = []
        p = self.k.spawn_command(self.sc.client(n), ["zielend", PROFILE], env=self.sc.env(n))
        end = self.k.world.clock + int(secs * SEC)
        self.sc.run(lambda: False, until=end, max_steps=3_000_000)
        self.k.kill(p, "SIGKILL")
        self.sc.run(lambda: all(q.ended for q in self.k.procs), max_steps=300_000)
        self.k.forget()
        from ..scen import Result
        self.check_outside(n, before, Result(p))
        self.muts = []
        if self.sc.info(n)["LastSync"] != last:
            self.clean = False

    def gen(self, ex, g, rng):
        nc = len(ex.cfg["clients"])
        ex.do(["outside"])
        for n in range(nc):
            a = ["-a"] if n else []
            if ex.cfg["clients"][n]["exclude"]:
                ex.do(["exclude", n, ex.cfg["clients"][n]["exclude"]])
                a = a + ["-e", "/home/u/exclude"]
            if n == 0:
                g.do_edits(0, rng.randint(2, 8), {"rwrite": 0, "rnew": 0, "rrm": 0, "rrmtree": 0, "rmkdir": 0,
                                                  "symlink": 1})
                for _ in range(rng.randint(0, 4)):
                    p = rng.choice(g.local_entries(0, "f") + [g.some_dir() + g.newname("ln")])
                    ex.do(["relink", 0, p, self.target(g, rng, p)])
            self.command(ex, rng, n, "init", a)
        for _ in range(rng.randint(2, 6)):
            for n in range(nc):
                g.do_edits(n, rng.randint(0, 3))
                for _ in range(rng.choice([0, 1, 1, 2, 3])):
                    self.link(ex, g, rng, n)
                if rng.random() < .3:
                    links = [p for p, i in self.sc.local_raw(n).items() if i.kind == "l" and users(p)]
                    if links:
                        p = rng.choice(sorted(links))
                        ex.do(rng.choice([["rm", n, p], ["unlink", n, p, g.size()]]))
            if rng.random() < .15:
                ex.do(["config", rng.randrange(nc), {"limit": rng.choice(["10MB", "40KB", "0K"])}])
            for n in rng.sample(range(nc), rng.randint(1, nc)):
                self.command(ex, rng, n, "sync", [])
            if rng.random() < .08:
                ex.do(["daemon", rng.randrange(nc), rng.choice([20, 700])])
            if rng.random() < .06:
                ex.do(["cmd", rng.randrange(nc), "empty-trash", []])
        if rng.random() < .5:
            self.command(ex, rng, rng.randrange(nc), "reset", rng.choice([[], [], ["-k"], ["-n"]]))

    def is_dir(self, rel):
        """Such changes of the kind are not covered."""
        trees = [self.sc.remote_tree()] + [self.sc.local_tree(x) for x in range(len(self.ex.cfg["clients"]))]
        trees += list(self.sc.st["base"].values())
        return any(t.get(rel, ("-",))[0] == "d" or any(p.startswith(rel + "/") for p in t) for t in trees)

    def leads_away(self, n, root, rel, how="write"):
        """Would a file written there be in another place?"""
        path = root + "/" + rel
        try:
            for d in M.parents(rel):
                x = self.sc.v.resolve(self.sc.client(n), root + "/" + d, False).inode
                if x is not None and x.kind == "l":
                    return True
            real = self.sc.v.resolve(self.sc.client(n), path, how == "write").real
        except OSError:
            return True
        return not any(real.startswith(q + "/") for q in (self.sc.local_path(n), self.sc.remote_path(n)))

    def op_write(self, n, rel, size, mode=0o644, how="write"):
        if self.ex.ok(n) and not self.leads_away(n, self.sc.local_path(n), rel, how):
            return self.ex.op_write(n, rel, size, mode, how)

    def op_rwrite(self, n, rel, size, mode=0o644, how="save"):
        if self.ex.ok(n) and not self.leads_away(n, self.sc.remote_path(n), rel, how):
            return self.ex.op_rwrite(n, rel, size, mode, how)

    def op_mv(self, n, a, b):
        root = self.sc.local_path(n)
        if self.ex.ok(n) and not self.leads_away(n, root, a, "mv") and not self.leads_away(n, root, b, "mv"):
            return self.ex.op_mv(n, a, b)

    def op_mkdir(self, n, rel):
        if self.ex.ok(n) and not self.leads_away(n, self.sc.local_path(n), rel):
            return self.ex.op_mkdir(n, rel)

    def op_unlink(self, n, rel, size):
        """The user replaces a link with a file."""
        if not self.ex.ok(n):
            return
        c, v = self.sc.client(n), self.sc.v
        try:
            x = v.resolve(c, self.ex.lp(n, rel), False).inode
            if x is None or x.kind != "l" or (v.resolve(c, self.ex.lp(n, rel), True).inode or x).kind == "d":
                return
        except OSError:
            return
        if self.sc.is_placeholder(n, rel, x.target) or self.is_dir(rel):
            return
        v.unlink(c, self.ex.lp(n, rel))
        self.sc.user_write(c, self.ex.lp(n, rel), size, 0o644, "write")
