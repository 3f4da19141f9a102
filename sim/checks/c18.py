"""C18 reset gives every file back."""
import glob

from .base import Prop, NAMES, M
from .c03 import Interrupting
from ..ops import users
from ..scen import PROFILE


class C18(Interrupting):
    id = "C18"
    quick = 700
    thorough = 25000
    rule = "a run counts if a profile was reset in it; counted by configuration and operations"

    def nontrivial(self, ex):
        return self.seen > 0

    def cfg(self, rng):
        cfg = super().cfg(rng)
        cfg["rlocal"] = len(cfg["clients"]) == 1 and rng.random() < .1
        for c in cfg["clients"]:
            c["limit"] = rng.choice(["10MB", "0K", "30K", "60KiB", "100KB"])
        return cfg

    def bind(self, ex):
        super().bind(ex)
        self.seen = 0
        self.begun = {}       # client -> the state before its first attempt

    # -- observation ---------------------------------------------------------------------------------
    def own(self, n):
        """{path: what is at it in a local directory}, placeholders left out"""
        out = {}
        for p, i in self.sc.local_raw(n).items():
            if p.rsplit("/", 1)[-1].startswith(".zielen"):
                continue
            if i.kind == "l" and self.sc.points_to_remote(n, p, i.target):
                continue
            out[p] = ("d",) if i.kind == "d" else ("l", i.target) if i.kind == "l" else (
                "f", i.data, i.mtime, i.mode & 0o777)
        return out

    def remote(self):
        meta = {}
        return {p: e + (meta[p][0], meta[p][1] & 0o777) if e[0] == "f" else e
                for p, e in self.sc.remote_tree(meta).items() if not p.rsplit("/", 1)[-1].startswith(".zielen")}

    def util(self, n):
        """The exclude files and the trash in the remote directory."""
        u = self.sc.util_dir()
        if u is None:
            return None
        fs, d = u
        out = {}
        todo = [("", d)]
        while todo:
            pre, d = todo.pop()
            for name, ino in d.entries.items():
                i = fs.inodes[ino]
                if i.kind == "d":
                    todo.append((pre + name + "/", i))
                if not (pre + name).startswith("remote.db") and not name.endswith(".partial"):
                    out[pre + name] = (i.kind, i.data if i.kind == "f" else "")
        return out

    def others(self, n):
        """Everything of the other clients."""
        out = {}
        for x in range(len(self.ex.cfg["clients"])):
            if x == n:
                continue
            c = self.sc.client(x)
            for p, i in self.sc.local_raw(x).items():
                out["%s: %s" % (NAMES[x], p)] = self.sc._entry(i) + ((i.mtime, i.mode) if i.kind == "f" else ())
            try:
                for p, i in self.sc.v.tree(c, self.sc.conf_dir(x)).items():
                    out["%s: profiles: %s" % (NAMES[x], p)] = self.sc._entry(i)
            except OSError:
                pass
        return out

    def foreign(self, n, p, e):
        return e[0] == "l" and not self.sc.safe_link(n, p, e[1])

    def show(self, e):
        return M.show(e) + (" %d %o" % e[2:] if e and e[0] == "f" else "")

    # -- operations ----------------------------------------------------------------------------------
    def after(self, n, cmd, args, plan, ctx, r):
        if cmd in ("init", "sync") and r.rc == 0 and not r.killed:
            self.completed(n)

    def op_reset(self, n, args, plan=(), env=None):
        """One attempt."""
        sc = self.sc
        info = sc.info(n)
        if not self.ex.ok(n) or not info or info["Status"] == "partial":
            return
        t = self.begun.get(n)
        if t is None:
            t = {"own": self.own(n), "R": self.remote(), "base": dict(sc.st["base"].get(NAMES[n], {})),
                 "edited": set(), "args": args, "same": True, "tried": 0,
                 "holders": {p: 1 for p, i in sc.local_raw(n).items() if i.kind == "l"}}
            self.begun = {**self.begun, n: t}
        t["same"] = t["same"] and args == t["args"]
        self.removing = info["Status"] == "removed"
        before = {"own": self.own(n), "R": self.remote(), "util": self.util(n), "others": self.others(n)}
        c = sc.client(n)
        if env:
            sc.world_event(c, env)
        self.k.world.clock += int(self.ex.gap * 1e9)
        r = sc.cmd(n, "reset", args, plan)
        self.ex.evals += 1
        self.ex.note_state()
        self.heal(n)
        self.seen += 1
        t["tried"] += 1
        what = "%s reset %s%s" % (NAMES[n], " ".join(args), " (killed)" if r.killed else
                                  "" if r.rc == 0 else " (failed: %s)" % r.brief())
        if not plan and not env:
            self.expect_ok(r, "completes")
        gone = sc.info(n) is None
        if r.rc == 0 and not r.killed and not gone:
            self.fail("profile", "after %s the profile is still there" % what)
        self.compare("others", "%s changes another client" % what, before["others"], self.others(n))
        self.check_ledger("lost", "after " + what)
        if "-n" in args:
            self.compare("dropped", what, before["own"], self.own(n))
            if t["same"] or True:
                self.compare("remote", what, before["R"], self.remote())
            self.check_util(n, info["ID"], before["util"], what)
        elif "-k" in args:
            self.compare("remote", what, before["R"], self.remote())
            self.check_util(n, info["ID"], before["util"], what)
        if not gone:
            self.check_partly(n, t, what)
            return
        self.begun = {x: y for x, y in self.begun.items() if x != n}
        self.check_gone(n, info["ID"], what, r.rc == 0 and not r.killed)
        if "-n" in args:
            return
        self.check_back(n, t, what)
        if not args and t["same"]:
            self.check_empty(n, what)

    def heal(self, n):
        sc = self.sc
        c = sc.client(n)
        for f in list(self.k.world.fss):
            sc.world_event(c, "unfull," + f)
            sc.world_event(c, "unfail," + f)

    def compare(self, kind, what, a, b, skip=()):
        bad = ["%s was %s and is %s" % (p, self.show(a.get(p)) if len(a.get(p) or ()) in (0, 4) else M.show(a.get(p)),
                                        M.show(b.get(p)))
               for p in sorted(set(a) | set(b)) if a.get(p) != b.get(p) and p not in skip]
        if bad:
            self.fail(kind, "%s:\n  %s" % (what, "\n  ".join(bad[:12])))

    def check_util(self, n, ident, before, what):
        now = self.util(n)
        if now is None:
            if self.removing:
                return
            if before is not None:
                self.fail("remote", "%s removes the metadata in the remote directory" % what)
            return
        mine = {p for p in set(before or ()) | set(now) if ident in p}
        self.compare("remote", what + " (metadata in the remote directory)",
                     {p: e for p, e in (before or {}).items() if p not in mine},
                     {p: e for p, e in now.items() if p not in mine})

    def check_partly(self, n, t, what):
        """It isn't complete; every file is still in the local directory or in the remote one."""
        own, R = self.own(n), self.remote()
        bad = []
        for p, e in sorted(t["own"].items()):
            if p in t["edited"] or e[0] == "d" or not users(p):
                continue
            if own.get(p) != e and not self.superseded(n, p, e, own, t):
                bad.append("local %s was %s and is %s" % (p, self.show(e), self.show(own.get(p))))
        for p, e in sorted(t["R"].items()):
            if p in t["edited"] or e[0] == "d" or not users(p):
                continue
            if R.get(p) != e and self.missing(n, p, e, own, t):
                bad.append("remote %s was %s and is %s, and %s in the local directory" % (
                    p, self.show(e), self.show(R.get(p)), self.show(own.get(p))))
        if bad:
            self.fail("lost", "%s:\n  %s" % (what, "\n  ".join(bad[:12])))

    def superseded(self, n, p, e, own, t):
        """Is it right that a local file of before the reset is not there as it was?"""
        r = t["R"].get(p)
        if r is None:
            return False
        if any(M.conflict_name_matches(q, p) for q in t["edited"]):
            return True
        if own.get(p) == r and (e[:2] == t["base"].get(p) or e[:2] == r[:2]):
            return True
        return any(M.conflict_name_matches(q, p) and x == e for q, x in own.items()) and own.get(p) in (r, None)

    def missing(self, n, p, e, own, t):
        """Is the remote file not in the local directory, although it should?"""
        if self.foreign(n, p, e):
            return True
        if any(M.conflict_name_matches(q, p) for q in t["edited"]):
            return False
        l0, l1 = t["own"].get(p), own.get(p)
        if l1 == e or l1 is not None and l1[:2] == e[:2] and l0 is not None and l1 == l0:
            return False
        if any(M.conflict_name_matches(q, p) and x == e for q, x in own.items()):
            return False
        if l0 is not None and l0[0] == "f" and l1 == l0 and (
                e[:2] == t["base"].get(p) or M.excluded(self.sc.excludes(n), p)):
            return False          # changed locally since the last sync
        if l0 is not None and l0[0] == "l" and l1 == l0 and e[:2] == t["base"].get(p):
            return False
        return True

    def check_back(self, n, t, what):
        own = self.own(n)
        bad = []
        for p, e in sorted(t["R"].items()):
            if p in t["edited"] or not users(p):
                continue
            if e[0] == "d":
                if own.get(p, ("-",))[0] != "d":
                    bad.append("the directory %s is not in the local directory" % p)
            elif not self.foreign(n, p, e) and self.missing(n, p, e, own, t):
                bad.append("remote %s was %s, and is not in the local directory (it is %s)" % (
                    p, self.show(e), self.show(own.get(p))))
        for p, e in sorted(t["own"].items()):
            if p in t["edited"] or e[0] == "d" and own.get(p) == e or not users(p):
                continue
            if own.get(p) != e and not self.superseded(n, p, e, own, t):
                bad.append("local %s was %s and is %s" % (p, self.show(e), self.show(own.get(p))))
        for p, e in sorted(own.items()):
            if p in t["edited"] or p in t["own"] or p in t["R"] or not users(p):
                continue
            if not any(M.conflict_name_matches(p, q) for q in t["R"]):
                bad.append("there is a new local %s" % p)
        left = [p for p in own if not users(p) and p not in t["own"] and p not in t["R"]]
        if bad:
            self.fail("back", "after %s:\n  %s" % (what, "\n  ".join(bad[:12])))

    def check_gone(self, n, ident, what, done):
        sc = self.sc
        for p, i in sorted(sc.local_raw(n).items()):
            if i.kind == "l" and sc.points_to_remote(n, p, i.target):
                self.fail("placeholder", "after %s the placeholder %s is left" % (what, p))
            if p.rsplit("/", 1)[-1].startswith(".zielen"):
                self.fail("placeholder", "after %s there is %s" % (what, p))
        if not done:
            return
        left = None
        try:
            if sc.v.lookup(sc.client(n), sc.profile_dir(n)).inode is not None:
                left = sorted(sc.v.tree(sc.client(n), sc.profile_dir(n)))
        except OSError:
            pass
        if left is not None:
            self.fail("profile", "after %s the profile directory is still there: %s" % (what, left))
        for p in self.util(n) or ():
            if ident in p:
                self.fail("profile", "after %s the remote directory still has %s" % (what, p))
        r = sc.cmd(n, "list")
        if r.rc != 0 or PROFILE in r.out.replace("|", " ").split():
            self.fail("profile", "after %s the profile is still listed" % what)

    def check_empty(self, n, what):
        left = {p: e for p, e in self.sc.remote_tree().items()}
        links = {p for p, e in left.items() if self.foreign(n, p, e)}
        hold = {q for p in links for q in M.parents(p)}
        bad = sorted(set(left) - links - hold)
        if self.util(n) is not None:
            bad.append("the metadata directory")
        if bad:
            self.fail("emptied", "after %s the remote directory has %s" % (what, ", ".join(bad)))

    def op_meanwhile(self, n, ops):
        """The user changes files before the reset is completed."""
        t = self.begun.get(n)
        if t is None:
            return
        a, r = self.own(n), self.remote()
        h = {p for p, i in self.sc.local_raw(n).items() if i.kind == "l"}
        for op in ops:
            self.k.world.clock += int(self.ex.gap * 1e9)
            getattr(self.ex, "op_" + op[0])(*op[1:])
        b, s = self.own(n), self.remote()
        h ^= {p for p, i in self.sc.local_raw(n).items() if i.kind == "l"}
        e = {p for p in set(a) | set(b) if a.get(p) != b.get(p)} | {
            p for p in set(r) | set(s) if r.get(p) != s.get(p)} | h
        t["edited"] |= e | {q for p in e for q in M.parents(p)}

    def op_again(self, n):
        """A new profile in the same places."""
        if not self.ex.ok(n) or self.sc.info(n) or self.sc.remote_tree() or self.sc.util_dir():
            return
        self.expect_ok(self.sc.cmd(n, "init"))
        if not self.sc.excludes(n):
            own = self.sc.local_tree(n)
            self.check_mirror(n, "again")

    def op_go_on(self, n):
        """The other clients go on."""
        for x in range(len(self.ex.cfg["clients"])):
            i = self.sc.info(x)
            if x == n or not i or i["Status"] != "initialized" or self.sc.util_dir() is None:
                continue
            b = self.sync_before(x)
            plain = not any(self.sc.excludes(y) for y in range(len(self.ex.cfg["clients"])))
            self.k.world.clock += int(2e9)
            r = self.sc.cmd(x, "sync")
            self.expect_ok(r)
            if plain:
                self.check_merge(x, b, "goon")
            self.completed(x)
        self.check_ledger("lost", "after the others synced")

    def op_drop(self, n, path):
        """What a client that was reset excluded, or not, doesn't count any more."""
        rest = [x for x in range(len(self.ex.cfg["clients"])) if x != n and self.sc.info(x)]
        if not rest or self.sc.util_dir() is None or self.sc.info(n) or any(
                self.sc.info(x)["Status"] != "initialized" for x in rest):
            return
        e = self.sc.remote_tree().get(path)
        if e is None or e[0] != "f":
            return
        for x in rest:
            self.ex.op_exclude(x, ["/" + glob.escape(path)])
        for _ in range(2):
            for x in rest:
                self.k.world.clock += int(2e9)
                self.expect_ok(self.sc.cmd(x, "sync"))
        if path in self.sc.remote_tree():
            self.fail("counts", "%s, which every client there is excludes, is still in the remote directory "
                      "after %s was reset" % (path, NAMES[n]))
        self.check_ledger("lost", "after %s was excluded" % path)

    # -- runs ------------------------------------------------------------------------------------------
    def gen(self, ex, g, rng):
        n, cmd, args = self.history(ex, g, rng)
        info = self.sc.info(n)
        if not info or info["Status"] != "initialized":
            n = 0
            if not self.sc.info(0):
                ex.do(["cmd", 0, "init", []])
        if rng.random() < .6:
            g.do_edits(n, rng.randint(1, 4))
        for _ in range(3):
            with ex.branch():
                begun = dict(self.begun)
                self.one(ex, g, rng, n)
                self.begun = begun

    def one(self, ex, g, rng, n):
        nc = len(ex.cfg["clients"])
        args = rng.choice([[], [], [], ["-k"], ["-k"], ["-n"], ["-n", "-k"]])
        if rng.random() < .7:
            with ex.branch():
                counts = self.sc.cmd(n, "reset", args).counts
            for _ in range(rng.choice([1, 1, 2, 3])):
                plan, env = self.trouble(ex, rng, n, counts)
                ex.do(["reset", n, args if rng.random() < .9 else rng.choice([[], ["-k"]]), plan, env])
                if n not in self.begun:
                    break
                if rng.random() < .35:
                    ops = [g.edit(n, {"rwrite": .3, "rnew": 0, "rrm": 0, "rrmtree": 0, "rmkdir": 0, "rm": 1})
                           for _ in range(rng.randint(1, 2))]
                    ex.do(["meanwhile", n, [o for o in ops if o]])
        if self.sc.info(n):
            ex.do(["reset", n, args])
        if args and nc > 1:
            if rng.random() < .6:
                g.do_edits((n + 1) % nc, rng.randint(0, 2))
            ex.do(["go_on", n])
            names = g.remote_entries("f")
            if names and rng.random() < .5:
                ex.do(["drop", n, rng.choice(names)])
        if not args and rng.random() < .3:
            ex.do(["again", n])

    def trouble(self, ex, rng, n, counts):
        m, r = (max(1, counts.get(u, 1)) for u in ("m", "r"))
        x = rng.random()
        if x < .6:
            return [self.plan_at(rng, counts)], None
        if x < .8:
            return [{"at": rng.randint(1, r), "unit": rng.choice(["r", "x"]), "times": rng.choice([1, 1, 3]),
                     "do": "errno:" + rng.choice(["EIO", "EACCES", "EROFS"])}], None
        fs = rng.choice([NAMES[n], NAMES[n], "R"] + (
            [NAMES[n] + "L"] if self.sc.cfg["clients"][n].get("localdisk") else []))
        if fs not in self.k.world.fss:
            fs = NAMES[n]
        ev = "full,%s,%d" % (fs, rng.choice([0, 0, 1, 2, 5, 12]))
        if rng.random() < .5:
            return [], ev
        return [{"at": rng.randint(1, m), "unit": "m", "do": "world:" + ev}], None
