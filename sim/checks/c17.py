"""C17 init makes every file available on both sides, or leaves no trace."""
import os

from .base import Prop, NAMES, M
from ..ops import users
from ..scen import PROFILE, Result
from ..vfs import ROOT_INO

OTHER = ("q", "/home/u/w/second", "/mnt/r/second")
REQUIRED = ["LocalDir", "RemoteDir", "StorageLimit"]
BAD = {"StorageLimit": ["10", "10XB", "-5MB", "1.5GB", "MB", "10 M B", "10MBs", "0x1K", "1e3K", "10MB 5"],
       "SyncInterval": ["abc", "-1", "1.5", "20m", "1 2"], "PriorityHalfLife": ["x", "-3", "0.5", "5h"],
       "UseTrash": ["maybe", "1", "on", "y"], "InflatePriority": ["0", "off", "nope"],
       "AccountForSize": ["tru", "2", "none"], "TrashCleanupPeriod": ["never", "1.5", "--1", "30d"],
       "LocalDir": ["l", "./l", "../u/l", "$HOME/l", "~~/l", "home/u/l"],
       "RemoteDir": ["r", "./r", "mnt/r", "file:///mnt/r", "host:/r"]}
GOOD = {"StorageLimit": ["10MB", "10 MB", "5mb", "100KiB", "3G", "60K", "0K", "1gIb", "40KB"],
        "SyncInterval": ["20", "1", "600"], "PriorityHalfLife": ["120", "1"],
        "UseTrash": ["yes", "no", "True", "FALSE", "Yes"], "InflatePriority": ["no", "yes", "NO"],
        "AccountForSize": ["true", "no"], "TrashCleanupPeriod": ["30", "-1", "0", "365"]}


class C17(Prop):
    id = "C17"
    quick = 900
    thorough = 30000
    rule = "a run counts if an init was refused or interrupted in it, or had something to move; counted by " \
           "configuration and operations"

    def nontrivial(self, ex):
        return self.seen > 0

    def cfg(self, rng):
        cfg = self.swarm(rng, rng.choice([1, 1, 2]))
        cfg["rsub"] = rng.choice(["sub", "s p/x"])
        cfg["rlocal"] = False
        cfg["gap"] = rng.choice([0.3, 1.5, 40])
        for c in cfg["clients"]:
            c["localdisk"] = rng.random() < .1
            c["limit"] = rng.choice(GOOD["StorageLimit"])
        cfg["mode"] = rng.choice(["accept", "refuse", "refuse", "break", "break", "break"])
        return cfg

    def bind(self, ex):
        super().bind(ex)
        self.seen = 0
        self.tried = {}           # profile -> what is known of an init that isn't complete yet

    # -- observation -------------------------------------------------------------------------------
    def walk(self, c, top, skip=(), ino=True):
        """{path: entry} of a directory of a machine, through mounts."""
        out = {}
        w = self.k.world
        try:
            x = self.sc.v.lookup(c, top or "/", True)
        except OSError:
            return out
        if x.inode.kind != "d":
            return out
        todo = [(x.fs.name, x.inode.ino, "")]
        while todo:
            f, n, pre = todo.pop()
            for name, no in w.fss[f].inodes[n].entries.items():
                p = pre + name
                if top + "/" + p in skip:
                    continue
                m = c.mounts.get((f, no))
                if m is not None:
                    todo.append((m, ROOT_INO, p + "/"))
                    continue
                i = w.fss[f].inodes[no]
                if i.kind == "d":
                    out[p] = ("d", i.mode)
                    todo.append((f, no, p + "/"))
                elif i.kind == "l":
                    out[p] = ("l", i.target) + ((no,) if ino else ())
                else:
                    out[p] = ("f", i.data, i.mode & 0o777, i.mtime) + ((no,) if ino else ())
        return out

    def files(self, n, top):
        """What an interrupted copy left for the next command to remove aside."""
        t = self.walk(self.sc.client(n), top, (top + "/.zielen",))
        return {p: e for p, e in t.items() if not p.rsplit("/", 1)[-1].startswith(".zielen")}

    def local(self, s):
        return self.files(s["n"], s["local"])

    def remote(self, s):
        return self.files(s["n"], s["remote"])

    def foreign(self, s, p, e):
        """A link that can't be synced."""
        return e[0] == "l" and not self.sc.safe_link(s["n"], p, e[1])

    def placeholder(self, s, p, e):
        return e[0] == "l" and os.path.normpath(e[1]) == s["remote"] + "/" + p

    def through(self, s, L, R):
        """The local directory read through its placeholders."""
        return {p: (R.get(p, e) if self.placeholder(s, p, e) else e) for p, e in L.items()}

    def profile(self, s):
        return self.sc.profile_dir(s["n"], s["prof"])

    def status(self, s):
        return (self.sc.info(s["n"], s["prof"]) or {}).get("Status")

    def world(self, s, mine):
        """Everything on a machine but what this init is about."""
        skip = {"/home/u/tmpl", "/home/u/exclude", self.sc.conf_dir(s["n"])}
        if mine:
            skip |= {s["local"], s["remote"]}
        c = self.sc.client(s["n"])
        out = self.walk(c, "", skip)
        for p, e in self.walk(c, self.sc.conf_dir(s["n"]) + "/profiles", (self.profile(s),) if mine else ()).items():
            out["profiles/" + p] = e
        return out

    def compare_world(self, a, b, what, allow=()):
        bad = ["%s: %s -> %s" % (p, self.show(a.get(p)), self.show(b.get(p))) for p in sorted(set(a) | set(b))
               if a.get(p) != b.get(p) and not (p not in a and b[p][0] == "d" and p in allow)]
        if bad:
            self.fail("touched", "%s changes:\n  %s" % (what, "\n  ".join(bad[:10])))

    @staticmethod
    def show(e):
        return M.show(e) if e is None or e[0] != "f" else "%s %o %d" % (M.show(e), e[2], e[3])

    # -- commands ----------------------------------------------------------------------------------
    def zielen(self, n, argv, plan=(), stdin="", tty=None):
        c = self.sc.client(n)
        p = self.k.spawn_command(c, ["zielen"] + list(argv), plan=list(plan), stdin=stdin,
                                 tty=self.ex.cfg["clients"][n]["tty"] if tty is None else tty,
                                 env=self.sc.env(n))
        self.sc.run(lambda: p.ended, max_steps=200_000)
        self.k.forget()
        self.ex.evals += 1
        self.ex.note_state()
        return Result(p)

    def init(self, s, plan=()):
        c, v = self.sc.client(s["n"]), self.sc.v
        argv = ["init"]
        with self.sc.roomy():
            if s.get("tmpl") is not None:
                v.write_file(c, "/home/u/tmpl", s["tmpl"].encode())
            if s["pats"]:
                v.write_file(c, "/home/u/exclude", ("# comment\n" + "".join(
                    p + "\n" for p in s["pats"])).encode())
        if s.get("tmpl") is not None:
            argv += ["-t", "/home/u/tmpl"]
        if s["pats"]:
            argv += ["-e", "/home/u/exclude"]
        if s["add"]:
            argv.append("-a")
        argv += s.get("args", [])
        return self.zielen(s["n"], argv + [s["prof"]], plan, s.get("stdin", ""))

    # -- what a completed init has done ------------------------------------------------------------------
    def want(self, s, L, R):
        """The directory that is to be on both sides -> (certain, optional paths)"""
        if s["add"]:
            return dict(R), set()
        out, opt = {}, set()
        for p, e in L.items():
            if self.foreign(s, p, e) or M.excluded(s["pats"], p):
                continue
            out[p] = e
        return out, opt

    def check_done(self, s, L0, R0, what, edited=()):
        """L0, R0: the directories as they were, read through placeholders."""
        L1, R1 = self.local(s), self.remote(s)
        want, opt = self.want(s, L0, R0)
        pats = s["pats"]
        bad = []
        cut = lambda e: e if e is None else e[:4] if e[0] == "f" else e[:1] if e[0] == "d" else e[:2]
        for p in sorted(set(want) | set(R1)):
            if p in edited or p in opt:
                continue
            if cut(want.get(p)) != cut(R1.get(p)) or s["add"] and want.get(p) != R1.get(p):
                bad.append("remote %s is %s, not %s" % (p, self.show(R1.get(p)), self.show(want.get(p))))
        for p in sorted(set(want) | set(L0) | set(L1)):
            if p in edited:
                continue
            own, l, r = L0.get(p), L1.get(p), want.get(p)
            if own is not None and (self.foreign(s, p, own) and not self.placeholder(s, p, own)
                                    or M.excluded(pats, p)):
                if l != own and not (own[0] == "d" and l and l[0] == "d"):
                    bad.append("the local %s, which is to be left alone, was %s and is %s" % (
                        p, self.show(own), self.show(l)))
                continue
            if l is not None and self.placeholder(s, p, l):
                if r is None or r[0] == "d":
                    bad.append("local %s is a placeholder for %s" % (p, self.show(r)))
                continue
            if r is not None and self.foreign(s, p, r):
                r = None
            if l is None and s["add"] and M.excluded(pats, p):
                continue
            if cut(l) != cut(r):
                bad.append("local %s is %s, not %s" % (p, self.show(l), self.show(r)))
        if bad:
            self.fail("files", "%s:\n  %s" % (what, "\n  ".join(bad[:12])))
        if self.status(s) != "initialized":
            self.fail("profile", "%s, but the profile is %s" % (what, self.status(s)))

    def check_ledger(self, kind="lost", what=""):
        found = set(self.sc.found_tokens())
        for n in range(len(self.ex.cfg["clients"])):
            for d in OTHER[1:]:
                for e in self.walk(self.sc.client(n), d).values():
                    if e[0] == "f" and M.token_of(e[1])[1]:
                        found.add(M.token_of(e[1])[0])
        lost = sorted(t for t in self.sc.live_tokens() if t not in found)
        if lost:
            self.fail(kind, "%s: version %s lost" % (what, ", ".join("v%d" % t for t in lost)))

    def op_uses(self, n, prof, how, changed=False):
        """The profile is listed and can be synced."""
        s = next((x for x in self.done if (x["n"], x["prof"]) == (n, prof)), None)
        if s is None:
            return
        if changed:
            self.expect_ok(self.zielen(n, ["sync", prof]))
        c, v = self.sc.client(n), self.sc.v
        r = self.zielen(n, ["list"])
        self.expect_ok(r)
        for x in self.done:
            if x["n"] == n and not any(
                    x["prof"] in row.replace("|", " ").split() and x["conf"]["LocalDir"] in row and
                    x["conf"]["RemoteDir"] in row and x["conf"]["StorageLimit"] in row
                    for row in r.out.splitlines()):
                self.fail("list", "%s %s isn't listed with its settings:\n%s" % (NAMES[n], x["prof"], r.out))
        arg = {"name": prof, "path": s["local"], "slash": s["local"] + "/", "twice": s["local"] + "//.",
               "link": "/home/u/alias"}[how]
        if how == "link":
            try:
                v.unlink(c, "/home/u/alias")
            except OSError:
                pass
            v.symlink(c, s["local"], "/home/u/alias")
        w = self.world(s, True)
        L, R = self.local(s), self.remote(s)
        r = self.zielen(n, ["sync", arg])
        self.expect_ok(r)
        what = "a sync after init, with nothing changed, by " + how
        self.compare_world(w, self.world(s, True), what)
        L1, R1 = self.local(s), self.remote(s)
        a, b = self.through(s, L, R), self.through(s, L1, R1)
        bad = ["remote %s: %s -> %s" % (p, self.show(R.get(p)), self.show(R1.get(p)))
               for p in sorted(set(R) | set(R1)) if R.get(p) != R1.get(p)
               and not (p in R1 and p not in R and False)]
        cut = lambda e: e if e is None else e[:4] if e[0] == "f" else e[:1] if e[0] == "d" else e[:2]
        bad += ["local %s: %s -> %s" % (p, self.show(a.get(p)), self.show(b.get(p)))
                for p in sorted(set(a) | set(b)) if cut(a.get(p)) != cut(b.get(p))
                and not (p not in a and M.excluded(s["pats"], p) and b[p] == R1.get(p, b[p]))
                and not (p not in a and M.excluded(s["pats"], p) and cut(b[p]) == cut(R1.get(p)))]
        if bad:
            self.fail("sync", "%s changes:\n  %s" % (what, "\n  ".join(bad[:12])))

    # -- operations ----------------------------------------------------------------------------------------
    def op_accept(self, s):
        """An init that is in order."""
        if not self.ex.ok(s["n"]) or self.status(s) is not None or not self.ready(s):
            return
        w = self.world(s, True)
        L, R = self.local(s), self.remote(s)
        r = self.init(s)
        self.expect_ok(r)
        self.compare_world(w, self.world(s, True), r.brief())
        self.check_done(s, L, R, "after " + r.brief())
        self.check_conf(s)
        if L or R:
            self.seen += 1
        self.add(s)

    def add(self, s):
        self.done = [x for x in self.done if (x["n"], x["prof"]) != (s["n"], s["prof"])] + [s]

    def check_conf(self, s):
        try:
            text = self.sc.v.read_file(self.sc.client(s["n"]), self.profile(s) + "/config").decode()
        except OSError:
            self.fail("profile", "no config file")
        have = {}
        for line in text.splitlines():
            if "=" in line and not line.lstrip().startswith("#"):
                a, b = line.split("=", 1)
                have[a.strip()] = b.strip()
        for k2, val in s["conf"].items():
            if have.get(k2, val if k2 not in REQUIRED else None) != val:
                self.fail("profile", "setting %s is %r, not %r" % (k2, have.get(k2), val))

    def ready(self, s):
        """Is this init of a kind that has to succeed?"""
        L, R = self.local(s), self.remote(s)
        if s["add"]:
            return not L
        c = self.sc.client(s["n"])
        try:
            self.sc.v.lookup(c, s["local"])
        except OSError:
            return False
        return not self.walk(c, s["remote"])

    def op_refuse(self, s, why):
        """An init that must be refused."""
        if not self.ex.ok(s["n"]) or self.status(s) == "partial":
            return
        had = self.status(s)
        w = self.world(s, False)
        plan = s.get("plan", ())
        r = self.init(s, plan)
        self.seen += 1
        what = "an init with %s (%s)" % (why, r.brief())
        if r.rc == 0 or r.killed:
            self.fail("accepted", what + " isn't refused")
        if not r.err.strip():
            self.fail("accepted", what + " prints no error")
        allow = set()
        for d in (s["local"], s["remote"]):
            d = os.path.normpath(d).lstrip("/")
            allow |= {d} | set(M.parents(d))
        w1 = self.world(s, False)
        for p in [p for p in w1 if w1[p][0] == "d" and w.get(p, w1[p])[0] == "d"]:
            if p in w:
                w1[p] = w[p]
        self.compare_world(w, w1, what, allow)
        if self.status(s) != had:
            self.fail("left", "%s leaves the profile %s" % (what, self.status(s)))

    def op_break(self, s, plan, env=None):
        """An init that is interrupted or fails in the middle of it."""
        t = self.tried.get(s["prof"])
        if not self.ex.ok(s["n"]) or self.status(s) not in (None, "partial") or (
                self.status(s) is None and not t and not self.ready(s)):
            return
        w = self.world(s, True)
        if t is None:
            t = {"s": s, "L": self.local(s), "R": self.remote(s), "edited": set()}
            self.tried = dict(self.tried, **{s["prof"]: t})
        c = self.sc.client(s["n"])
        if env:
            self.sc.world_event(c, env)
        a = dict(s)
        if self.status(s) == "partial" and s.get("bare"):
            a.update(tmpl=None, pats=[], add=False, stdin="", args=[])
        L0, R0 = self.local(s), self.remote(s)
        r = self.init(a, plan)
        self.heal(s)
        self.seen += 1
        what = "an init that %s (%s)" % ("was interrupted" if r.killed else "failed", r.brief())
        if self.status(s) == "initialized":
            self.completed(t, what)
            return
        if r.rc == 0 and not r.killed:
            self.fail("profile", "%s succeeds, but the profile is %s" % (r.brief(), self.status(s)))
        self.compare_world(w, self.world(s, True), what)
        self.kept(t, what)
        t["edited"] |= self.changes(s, t, L0, R0, False)

    def heal(self, s):
        c = self.sc.client(s["n"])
        for e in ("unfail,R", "unfull,R", "unfull,%s" % NAMES[s["n"]], "unmount", "mount"):
            self.sc.world_event(c, e)
        if NAMES[s["n"]] + "L" in self.k.world.fss:
            self.sc.world_event(c, "unfull,%sL" % NAMES[s["n"]])

    def kept(self, t, what):
        """Nothing is lost."""
        s = t["s"]
        L, R = self.local(s), self.remote(s)
        T = self.through(s, L, R)
        bad = []
        cut = lambda e: e if e is None else e[:4] if e[0] == "f" else e[:1] if e[0] == "d" else e[:2]
        if s["add"]:
            for p in sorted(set(t["R"]) | set(R)):
                if p not in t["edited"] and users(p) and t["R"].get(p) != R.get(p):
                    bad.append("remote %s was %s and is %s" % (p, self.show(t["R"].get(p)), self.show(R.get(p))))
        for p, e in sorted(t["L"].items()):
            if p in t["edited"] or not users(p):
                continue
            x = T.get(p)
            if (self.foreign(s, p, e) or M.excluded(s["pats"], p)) and not self.placeholder(s, p, e):
                if L.get(p) != e and not (e[0] == "d" and L.get(p, "-")[0] == "d"):
                    bad.append("the local %s, which is to be left alone, was %s and is %s" % (
                        p, self.show(e), self.show(L.get(p))))
            elif cut(x) != cut(e):
                bad.append("local %s was %s and is %s" % (p, self.show(e), self.show(x)))
        if bad:
            self.fail("lost", "%s:\n  %s" % (what, "\n  ".join(bad[:12])))

    def changes(self, s, t, L, R, user=True):
        """What is different from then."""
        out = set()
        if not user:
            return out
        a, b = self.through(s, L, R), self.through(s, self.local(s), self.remote(s))
        for p in set(a) | set(b):
            if a.get(p) != b.get(p):
                out.add(p)
        r0, r1 = R, self.remote(s)
        out |= {p for p in set(r0) | set(r1) if r0.get(p) != r1.get(p)}
        return out

    def op_edits(self, prof, ops):
        """The user changes files meanwhile."""
        t = self.tried.get(prof)
        if t is None:
            return
        s = t["s"]
        L, R = self.local(s), self.remote(s)
        for op in ops:
            self.k.world.clock += int(self.ex.gap * 1e9)
            f = getattr(self.ex, "op_" + op[0])
            f(*op[1:])
        e = self.changes(s, t, L, R)
        t["edited"] |= e | {q for p in e for q in M.parents(p)}

    def op_resume(self, prof, bare):
        """Init again, with no arguments repeated if there is a profile."""
        t = self.tried.get(prof)
        if t is None:
            return
        s = t["s"]
        st = self.status(s)
        a = dict(s)
        if st is None and not self.again(s, t):
            return
        if st == "partial" and bare:
            a.update(tmpl=None, pats=[], add=False, stdin="", args=[])
        w = self.world(s, True)
        r = self.init(a)
        what = "completing an interrupted init (%s)" % r.brief()
        self.expect_ok(r, "completes")
        self.compare_world(w, self.world(s, True), what)
        self.completed(t, what)

    def again(self, s, t):
        """There is no profile yet: is it still in order?"""
        if s["add"]:
            return not self.local(s)
        return not self.walk(self.sc.client(s["n"]), s["remote"])

    def completed(self, t, what):
        s = t["s"]
        self.tried = {p: x for p, x in self.tried.items() if p != s["prof"]}
        self.check_done(s, t["L"], t["R"], "after " + what, t["edited"])
        self.check_conf(s)
        self.check_ledger("lost", what)
        self.add(s)
        if not t["edited"]:
            return
        # what was changed meanwhile is there after the next sync
        self.k.world.clock += int(2e9)
        L, R = self.local(s), self.remote(s)
        r = self.zielen(s["n"], ["sync", s["prof"]])
        self.expect_ok(r)
        self.check_ledger("lost", "the sync after " + what)
        self.check_edits(s, t, L, R, what)

    def check_edits(self, s, t, L, R, what):
        L1, R1 = self.local(s), self.remote(s)
        b = self.through(s, L1, R1)
        bad = []
        for p in sorted(t["edited"]):
            e = L.get(p)
            if e is None or e[0] == "d" or self.placeholder(s, p, e):
                continue
            if self.foreign(s, p, e) or M.excluded(s["pats"], p):
                if L1.get(p) != e:
                    bad.append("the local %s was %s and is %s" % (p, self.show(e), self.show(L1.get(p))))
                continue
            for side, x in (("local", b), ("remote", R1)):
                if not any((q == p or M.conflict_name_matches(q, p)) and y[:2] == e[:2] for q, y in x.items()):
                    bad.append("%s %s is %s, not %s" % (side, p, self.show(x.get(p)), self.show(e)))
        if bad:
            self.fail("edits", "after a sync after %s, of what was changed meanwhile:\n  %s" % (
                what, "\n  ".join(bad[:12])))

    def op_cancel(self, prof, args):
        """Reset instead."""
        t = self.tried.get(prof)
        if t is None:
            return
        s = t["s"]
        if self.status(s) is None:
            return
        w = self.world(s, True)
        L, R = self.local(s), self.remote(s)
        T = self.through(s, L, R)
        r = self.zielen(s["n"], ["reset"] + args + [prof])
        what = "cancelling an interrupted init (%s)" % r.brief()
        self.expect_ok(r)
        self.compare_world(w, self.world(s, True), what)
        self.tried = {p: x for p, x in self.tried.items() if p != prof}
        if not args:         # there is no remote directory any more
            self.done = [x for x in self.done if x["prof"] != prof]
        if self.walk(self.sc.client(s["n"]), self.profile(s)) or self.status(s):
            self.fail("left", what + " leaves the profile directory")
        L1, R1 = self.local(s), self.remote(s)
        bad = []
        cut = lambda e: e if e is None else e[:4] if e[0] == "f" else e[:1] if e[0] == "d" else e[:2]
        for p, e in sorted(L1.items()):
            if self.placeholder(s, p, e):
                bad.append("local %s is a placeholder" % p)
        # the local directory is as before, and what the user did meanwhile
        for p, e in sorted(L.items()):
            if self.placeholder(s, p, e):
                continue
            if cut(L1.get(p)) != cut(e) and not (p in R and any(
                    M.conflict_name_matches(q, p) and x[:2] == e[:2] for q, x in L1.items())):
                bad.append("local %s was %s and is %s" % (p, self.show(e), self.show(L1.get(p))))
        if "-n" not in args:
            for p, e in sorted(t["L"].items()):
                if p not in t["edited"] and e[0] != "d" and cut(L1.get(p)) != cut(e) and users(p):
                    bad.append("local %s was %s before the init and is %s" % (
                        p, self.show(e), self.show(L1.get(p))))
            fetched = [p for p, e in R.items() if not self.foreign(s, p, e)]
            got = all(cut(L1.get(p)) == cut(R[p]) or p in t["edited"] or not users(p) for p in fetched)
            if R1 and args != ["-k"] and got and not all(
                    self.foreign(s, p, e) or e[0] == "d" or not users(p) for p, e in R1.items()):
                pass
            if not got and {p: e for p, e in R.items() if users(p)} != {p: e for p, e in R1.items() if users(p)}:
                bad.append("files are neither in the local directory nor left in the remote one: %s" % ", ".join(
                    sorted(p for p in fetched if cut(L1.get(p)) != cut(R[p]))))
        if s["add"] and args:
            bad += ["remote %s was %s and is %s" % (p, self.show(R.get(p)), self.show(R1.get(p)))
                    for p in sorted(set(R) | set(R1)) if R.get(p) != R1.get(p) and users(p)]
        if bad:
            self.fail("cancel", "%s:\n  %s" % (what, "\n  ".join(bad[:12])))
        self.check_ledger("lost", what) if "-n" not in args else None

    # -- setting up ------------------------------------------------------------------------------------------
    def op_dirs(self):
        """Things that are nobody's business, and a place for another profile."""
        v = self.sc.v
        self.done = []
        for n in range(len(self.ex.cfg["clients"])):
            c = self.sc.client(n)
            for d in (OTHER[1], OTHER[2], "/home/u/ext/d", os.path.dirname(self.sc.conf_dir(n))):
                v.makedirs(c, d)
            v.write_file(c, "/home/u/ext/a", b"outside")
            v.write_file(c, "/home/u/ext/d/a", b"outside")

    def op_fill(self, n, path, rel, size):
        """A user's file anywhere."""
        if not self.ex.ok(n):
            return
        c = self.sc.client(n)
        try:
            self.sc.v.makedirs(c, (path + "/" + rel).rsplit("/", 1)[0])
        except OSError:
            return
        self.sc.user_write(c, path + "/" + rel, size, 0o644, "save")

    def op_make(self, n, path, kind, mode=0o755):
        """A directory, file or link anywhere."""
        if not self.ex.ok(n):
            return
        c, v = self.sc.client(n), self.sc.v
        try:
            v.makedirs(c, path.rsplit("/", 1)[0])
            if kind == "d":
                v.makedirs(c, path)
                v.lookup(c, path).inode.mode = mode
            elif kind == "f":
                v.write_file(c, path, b"a file")
            elif kind == "l":
                v.symlink(c, "/home/u/nowhere", path)
        except OSError:
            return

    def op_clear(self, n, path):
        try:
            self.sc._rmtree(self.sc.client(n), path)
        except (OSError, TypeError):
            return

    def conf(self, rng, local, remote):
        out = {"LocalDir": local, "RemoteDir": remote, "StorageLimit": rng.choice(GOOD["StorageLimit"])}
        for k in GOOD:
            if k not in out and rng.random() < .5:
                out[k] = rng.choice(GOOD[k])
        return out

    def text(self, rng, conf):
        """A template with these settings."""
        lines = ["%s%s%s%s" % (k, rng.choice(["=", " = ", "= ", "="]), x, rng.choice(["", "", " "]))
                 for k, x in conf.items()]
        rng.shuffle(lines)
        for x in ["# a comment", "", "  # UseTrash=maybe", "#SyncInterval=abc", "nonsense"]:
            if rng.random() < .3:
                lines.insert(rng.randint(0, len(lines)), x)
        return "\n".join(lines) + "\n"

    def spell(self, rng, path):
        """The same directory, said differently."""
        x = rng.random()
        if x < .7:
            return path
        if x < .8 and path.startswith("/home/u/"):
            return "~/" + path[8:]
        return rng.choice([path + "/", path.replace("/", "//", 2)[1:], os.path.dirname(path) + "/./" +
                           os.path.basename(path), "/etc/.." + path])

    def spec(self, rng, n=0, other=False, add=False, odd=True):
        prof, local, remote = OTHER if other else (PROFILE, self.sc.local_path(n), self.sc.remote_path(n))
        conf = self.conf(rng, self.spell(rng, local) if odd else local, self.spell(rng, remote) if odd else remote)
        s = {"n": n, "prof": prof, "local": local, "remote": remote, "add": add, "conf": conf, "pats": []}
        if rng.random() < .3:
            s["pats"] = rng.sample(["*.txt", "d", "/a", "dd/*", "ab", "x*", "/d/*", "*"], rng.randint(1, 2))
        if rng.random() < .75 or self.ex.cfg["clients"][n]["tty"]:
            s["tmpl"] = self.text(rng, conf)
        if s.get("tmpl") and rng.random() < .2:
            # settings left out are asked for
            k = rng.choice(REQUIRED)
            s["tmpl"] = self.text(rng, dict(conf, **{k: ""}))
            s["stdin"] = self.answers(rng, conf, [k])
        if "tmpl" not in s:
            for k in list(conf):
                if k not in REQUIRED:
                    del conf[k]
            s["stdin"] = self.answers(rng, conf, REQUIRED)
        return s

    @staticmethod
    def answers(rng, conf, keys):
        out = []
        for k in keys:
            if rng.random() < .4:
                out.append(rng.choice(BAD[k] + ["", " "]))
            out.append(rng.choice(["", " "]) + conf[k])
        return "".join(x + "\n" for x in out)

    # -- runs -----------------------------------------------------------------------------------------------
    def some_files(self, ex, g, rng, other):
        if other:
            for _ in range(rng.randint(1, 4)):
                ex.do(["fill", 0, OTHER[1], g.some_path(), g.size()])
            return
        g.do_edits(0, rng.randint(0, 9), {"rwrite": 0, "rnew": 0, "rrm": 0, "rrmtree": 0, "rmkdir": 0,
                                          "mkdir": 1.5, "symlink": 1.5})
        for _ in range(rng.choice([0, 0, 1, 2])):
            ex.do(["symlink", 0, g.some_dir() + g.newname("ln"), rng.choice([
                "/etc/passwd", "/home/u/ext/a", "../ext/a", "/home/u/ext/d", "../../../etc", "%L/a", "/nowhere"])])

    def gen(self, ex, g, rng):
        ex.do(["dirs"])
        getattr(self, "gen_" + ex.cfg["mode"])(ex, g, rng)

    def gen_accept(self, ex, g, rng):
        for other in rng.choice([[0], [0, 1], [1, 0]]):
            self.some_files(ex, g, rng, other)
            s = self.spec(rng, 0, other)
            ex.do(["accept", s])
            ex.do(["uses", 0, s["prof"], rng.choice(["name", "path", "slash", "twice", "link"])])
        for n in range(1, len(ex.cfg["clients"])):
            if rng.random() < .5:
                g.do_edits(0, 2)
                ex.do(["edited", 0])
            s = self.spec(rng, n, False, True)
            if rng.random() < .3:
                ex.do(["clear", n, s["local"]])
            ex.do(["accept", s])
            ex.do(["uses", n, s["prof"], rng.choice(["name", "path", "slash", "twice", "link"])])

    def op_edited(self, n):
        if self.ex.ok(n) and self.sc.info(n):
            self.expect_ok(self.zielen(n, ["sync", PROFILE]))

    def gen_refuse(self, ex, g, rng):
        self.some_files(ex, g, rng, 0)
        self.some_files(ex, g, rng, 1)
        first = rng.choice(["none", "main", "main", "other", "both"])
        if first in ("main", "both"):
            ex.do(["accept", self.spec(rng, 0)])
        if first in ("other", "both"):
            ex.do(["accept", self.spec(rng, 0, True)])
        for _ in range(rng.randint(2, 4)):
            if rng.random() < .7:
                with ex.branch():
                    done, tried = self.done, self.tried
                    self.refusal(ex, rng)
                    self.done, self.tried = done, tried
            else:
                self.refusal(ex, rng)
        for other in (0, 1):
            if first in (("main", "other")[other], "both"):
                ex.do(["uses", 0, OTHER[0] if other else PROFILE, "name", True])

    def refusal(self, ex, rng):
        """Something to refuse."""
        n = 0
        taken = {x["prof"] for x in self.done}
        other = rng.random() < .5
        if (OTHER[0] if other else PROFILE) in taken and rng.random() < .8:
            other = not other
        s = self.spec(rng, n, other, odd=False)
        conf = s["conf"]
        s.pop("stdin", None)
        s["tmpl"] = self.text(rng, conf)
        if s["prof"] in taken:
            if rng.random() < .5:
                s["prof"] = "fresh"
                ex.do(["refuse", s, "the local directory of another profile"])
            else:
                s["add"] = rng.random() < .5
                ex.do(["refuse", s, "the name of an existing profile"])
            return
        x = rng.choice(["name", "files", "setting", "setting", "missing", "unknown", "prompt", "blank",
                        "remote", "remote", "local", "local", "program", "overlap", "overlap", "gone", "nested"])
        sub = s["local"]
        if x == "name":
            s["prof"] = rng.choice(["a b", "p/q", "", "p.x", "p!", "..", "../p", " ", "p\n", "/abs", "p*", "a\tb"])
            ex.do(["refuse", s, "the name %r" % s["prof"]])
        elif x == "files":
            if rng.random() < .5:
                s["tmpl"] = None
                s["args"] = ["-t", rng.choice(["/home/u/none", "/home/u", ""])]
                if s["args"][1] == "":
                    return
            else:
                s["pats"] = []
                s["args"] = ["-e", rng.choice(["/home/u/none", "/home/u"])]
            ex.do(["refuse", s, "the option %s" % " ".join(s["args"])])
        elif x == "setting":
            k = rng.choice(list(BAD))
            conf[k] = rng.choice(BAD[k])
            s["tmpl"] = self.text(rng, conf)
            ex.do(["refuse", s, "%s=%s" % (k, conf[k])])
        elif x == "missing":
            k = rng.choice(REQUIRED)
            del conf[k]
            s["tmpl"] = self.text(rng, conf)
            ex.do(["refuse", s, "no %s" % k])
        elif x == "unknown":
            s["tmpl"] = self.text(rng, dict(conf, **{rng.choice(["Foo", "localdir", "SyncIntervall", ""]): "1"}))
            ex.do(["refuse", s, "an unknown setting"])
        elif x == "prompt":
            k = rng.choice(REQUIRED)
            s["tmpl"] = self.text(rng, dict(conf, **{k: ""})) if rng.random() < .6 else None
            s["stdin"] = rng.choice(["", rng.choice(BAD[k]) + "\n"])
            ex.do(["refuse", s, "no answer to the question for %s" % k])
        elif x == "blank":
            k = rng.choice(["SyncInterval", "PriorityHalfLife", "TrashCleanupPeriod"])
            s["tmpl"] = self.text(rng, dict(conf, **{k: ""}))
            ex.do(["refuse", s, "a blank %s" % k])
        elif x == "remote":
            why = rng.choice(["filled", "file", "missing", "locked", "parent", "dangling"])
            if why == "filled":
                ex.do(["fill", n, s["remote"], rng.choice([".hid", "a", "d/b", ".zielen/x"]), 20])
            elif why == "missing":
                s["add"] = True
                ex.do(["clear", n, s["local"]])
                ex.do(["clear", n, s["remote"]])
            elif why == "locked":
                s["add"] = rng.random() < .5
                if s["add"]:
                    ex.do(["clear", n, s["local"]])
                ex.do(["make", n, s["remote"], "d", 0o555])
            else:
                ex.do(["clear", n, s["remote"]])
                if why == "parent":
                    s["remote"] = s["remote"] + "/x"
                    conf["RemoteDir"] = s["remote"]
                    s["tmpl"] = self.text(rng, conf)
                    ex.do(["make", n, os.path.dirname(s["remote"]), "f"])
                elif why == "dangling":
                    return
                else:
                    s["add"] = rng.random() < .5
                    if s["add"]:
                        ex.do(["clear", n, s["local"]])
                    ex.do(["make", n, s["remote"], "f"])
            ex.do(["refuse", s, "a bad remote directory (%s)" % why])
        elif x == "local":
            why = rng.choice(["filled", "file", "missing", "locked", "parent"])
            if why == "filled":
                s["add"] = True
                ex.do(["fill", n, s["local"], rng.choice([".hid", "a", "d/b"]), 20])
            else:
                ex.do(["clear", n, s["local"]])
                s["add"] = rng.random() < .5
                if why == "missing":
                    s["add"] = False
                elif why == "locked":
                    ex.do(["make", n, s["local"], "d", 0o555])
                elif why == "parent":
                    s["local"] += "/x"
                    conf["LocalDir"] = s["local"]
                    s["tmpl"] = self.text(rng, conf)
                    ex.do(["make", n, os.path.dirname(s["local"]), "f"])
                else:
                    ex.do(["make", n, s["local"], "f"])
            ex.do(["refuse", s, "a bad local directory (%s)" % why])
        elif x == "program":
            cd = self.sc.conf_dir(n)
            s["local"] = rng.choice([os.path.dirname(cd), cd, cd + "/x", "/home/u", "/", cd + "/profiles"])
            conf["LocalDir"] = s["local"]
            s["tmpl"] = self.text(rng, conf)
            ex.do(["make", n, s["local"], "d"])
            ex.do(["refuse", s, "the local directory %s" % s["local"]])
        elif x == "overlap":
            self.overlap(ex, rng, n, s, taken)
        elif x == "nested":
            way = rng.choice(["same", "in", "around"])
            if way == "around":
                s["add"] = True
                s["local"] = s["remote"] + "/l"
                ex.do(["fill", n, s["remote"], "a", 20])
            else:
                s["remote"] = s["local"] + ("/r" if way == "in" else "")
                if way == "same":
                    ex.do(["clear", n, s["local"]])
                    ex.do(["make", n, s["local"], "d"])
            conf["LocalDir"], conf["RemoteDir"] = s["local"], s["remote"]
            s["tmpl"] = self.text(rng, conf)
            ex.do(["refuse", s, "overlapping local and remote directories (%s)" % way])
        elif x == "gone":
            ev = rng.choice(["fail,R,EIO", "fail,R,ESTALE", "fail,R,ENOTCONN", "fail,R,EACCES"])
            ex.do(["env", n, ev])
            ex.do(["refuse", s, "a remote directory that does not work"])
            ex.do(["env", n, "unfail,R"])

    def overlap(self, ex, rng, n, s, taken):
        if not taken:
            return
        t = next(x for x in self.done if x["prof"] in taken)
        base = t["local"]
        way = rng.choice(["parent", "same", "child", "deep", "spelled"])
        if way == "parent":
            s["local"] = os.path.dirname(base)
        elif way == "child":
            s["local"] = base + "/" + rng.choice(["d", "new"])
        elif way == "deep":
            s["local"] = base + "/new/x"
        else:
            s["local"] = base
        s["prof"] = "fresh"
        conf = s["conf"]
        conf["LocalDir"] = s["local"] if way != "spelled" else rng.choice([base + "/", base + "/d/..", base + "/."])
        s["remote"] = conf["RemoteDir"] = "/mnt/r/fresh"
        s["tmpl"] = self.text(rng, conf)
        if way in ("child", "deep") and rng.random() < .6:
            ex.do(["make", n, s["local"], "d"])
        s["add"] = False
        if way in ("child", "deep") and rng.random() < .3:
            s["add"] = True
            ex.do(["make", n, s["remote"], "d"])
        ex.do(["refuse", s, "a local directory that overlaps another profile (%s)" % way])

    def gen_break(self, ex, g, rng):
        nc = len(ex.cfg["clients"])
        n = nc - 1
        other = rng.random() < .2
        if other:
            self.some_files(ex, g, rng, 1)
            ex.do(["accept", self.spec(rng, 0, True)])
        self.some_files(ex, g, rng, 0)
        if n:
            ex.do(["accept", self.spec(rng, 0)])
        s = self.spec(rng, n, False, bool(n))
        for _ in range(3):
            with ex.branch():
                done, tried = list(self.done), dict(self.tried)
                r = self.init(s)
                counts = r.counts
                self.done, self.tried = done, tried
            if r.rc != 0:
                return
            with ex.branch():
                done, tried = list(self.done), dict(self.tried)
                self.tries(ex, g, rng, n, s, counts)
                self.done, self.tried = done, tried

    def tries(self, ex, g, rng, n, s, counts):
        s = dict(s)
        for i in range(rng.choice([1, 1, 1, 2, 3])):
            plan, env = self.trouble(rng, n, counts)
            ex.do(["break", dict(s, bare=rng.random() < .6), plan, env])
            if PROFILE not in self.tried:
                break
            if rng.random() < .5:
                ops = []
                for _ in range(rng.randint(1, 3)):
                    op = g.edit(n, {"rwrite": 0, "rnew": 0, "rrm": 0, "rrmtree": 0, "rmkdir": 0})
                    if op:
                        ops.append(op)
                ex.do(["edits", PROFILE, ops])
        if PROFILE in self.tried:
            if rng.random() < .7:
                ex.do(["resume", PROFILE, rng.random() < .8])
            else:
                ex.do(["cancel", PROFILE, rng.choice([[], [], ["-k"], ["-n"]])])
                if rng.random() < .4:
                    ex.do(["accept", s])
        if self.done and rng.random() < .4:
            x = self.done[-1]
            ex.do(["uses", x["n"], x["prof"], "name"])

    def trouble(self, rng, n, counts):
        m, st, r = (max(1, counts.get(u, 1)) for u in ("m", "s", "r"))
        x = rng.random()
        if x < .4:
            return [{"at": rng.randint(1, m), "unit": "m", "do": rng.choice(["kill", "kill", "torn"])}], None
        if x < .55:
            return [{"at": rng.randint(1, st), "unit": "s", "do": "sig:" + rng.choice(["TERM", "INT", "HUP"])}], None
        if x < .75:
            return [{"at": rng.randint(1, r), "unit": rng.choice(["r", "x"]), "times": rng.choice([1, 1, 3]),
                     "do": "errno:" + rng.choice(["EIO", "EACCES", "EROFS"])}], None
        f = rng.choice(["R", "R", NAMES[n]])
        ev = "full,%s,%d" % (f, rng.choice([0, 1, 2, 4, 9]))
        if rng.random() < .4:
            return [], ev
        return [{"at": rng.randint(1, m), "unit": "m", "do": "world:" + ev}], None
