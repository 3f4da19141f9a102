"""C12 excluded files."""
from .base import Prop, NAMES, M
from ..ops import users

POOL = ["*.txt", "d", "/a", "dd/*", "ab", "/d/*", "*.hid", "z[[]1]", "?", "x*", "/dd", "d*", "**/b.txt", ".hid",
        "/d e", "*.[mt]*", "# a", "[#a]", "dd/**", "/*/a", "é"]


class C12(Prop):
    id = "C12"
    quick = 1500
    thorough = 40000
    rule = "a run counts if excluded files were in a local directory and in the remote directory in it; " \
           "counted by configuration and operations"

    def nontrivial(self, ex):
        return self.linked > 0

    def cfg(self, rng):
        cfg = self.swarm(rng, rng.choice([1, 2, 2, 2, 3]))
        cfg["kills"] = rng.random() < .35
        for c in cfg["clients"]:
            c["exclude"] = self.patterns(rng) if rng.random() < .5 else []
        return cfg

    @staticmethod
    def patterns(rng):
        return rng.sample(POOL, rng.choice([0, 1, 1, 2, 2, 3]))

    def bind(self, ex):
        super().bind(ex)
        self.linked = 0
        st = ex.sc.st
        st["rec"] = {}        # client -> list of pattern lists that others may know of it ([] = none)
        st["maybe"] = {}      # client -> paths that may have been synced by it
        st["sure"] = {}       # client -> excluded paths that are certainly kept in sync by it
        st["clean"] = {"x": True}   # nothing was ever interrupted

    # -- state -----------------------------------------------------------------------------------
    def put(self, key, n, val):
        self.sc.st[key] = dict(self.sc.st[key], **{NAMES[n]: val})

    def ison(self, x):
        i = self.sc.info(x)
        return bool(i)

    def before(self, n, cmd, args, plan):
        sc = self.sc
        if cmd not in ("init", "sync", "reset"):
            return None
        b = self.sync_before(n)
        pats = sc.excludes(n)
        b["pats"] = pats
        raw = sc.local_raw(n)
        own = {}
        for p, i in raw.items():
            if not users(p) or not M.excluded(pats, p):
                continue
            if i.kind == "l" and sc.points_to_remote(n, p, i.target):
                continue
            own[p] = (sc._entry(i), i.mtime if i.kind == "f" else 0, i.mode)
        b["own"] = own
        b["others"] = [x for x in range(len(self.ex.cfg["clients"])) if x != n and NAMES[x] in sc.st["rec"]]
        return b

    def after(self, n, cmd, args, plan, b, r):
        if cmd == "reset":
            self.after_reset(n, plan, b, r)
            return
        what = "%s %s of %s" % ("a completed" if r.rc == 0 else "an interrupted", cmd, NAMES[n])
        self.check_own(n, b, what)
        self.check_removed(n, b, what, r.rc == 0)
        self.check_added(n, b, what)
        if r.killed or (plan and r.rc != 0):
            self.sc.st["clean"] = {}
            if cmd == "init":
                self.sc.st["clean"] = {}
                if NAMES[n] not in self.sc.st["rec"]:
                    self.put("rec", n, [b["pats"], []])
            else:
                self.put("rec", n, self.sc.st["rec"].get(NAMES[n], []) + [b["pats"]])
            self.put("maybe", n, dict(self.sc.st["maybe"].get(NAMES[n], {}),
                                      **{p: True for p in list(b["R"]) + list(b["raw"])}))
            self.put("sure", n, {})
            return
        self.expect_ok(r)
        self.check_done(n, cmd, b, what)
        R = self.sc.remote_tree()
        prev = self.sc.st["maybe"].get(NAMES[n], {})
        maybe = {p: True for p in R if p not in b["own"] or p in prev or
                 b["own"][p][0] == b["R"].get(p)}
        sure0 = self.sc.st["sure"].get(NAMES[n], {})
        sure = {p: True for p in R if not M.excluded(b["pats"], p) or p in sure0 or p not in b["own"]}
        self.put("maybe", n, maybe)
        self.put("sure", n, sure)
        # others are told of the patterns by its first sync
        self.put("rec", n, [b["pats"]] if cmd == "sync" else [b["pats"], []])
        self.sc.st["base"] = dict(self.sc.st["base"], **{NAMES[n]: {p: R[p] for p in maybe}})

    def after_reset(self, n, plan, b, r):
        what = "a reset of " + NAMES[n]
        if r.rc == 0:
            for k in ("rec", "maybe", "sure", "base"):
                self.sc.st[k] = {x: v for x, v in self.sc.st[k].items() if x != NAMES[n]}
        self.check_ledger("lost", what)

    # -- oracle ------------------------------------------------------------------------------------
    def local_all(self, n):
        sc = self.sc
        return {p: (sc._entry(i), i.mtime if i.kind == "f" else 0, i.mode) for p, i in sc.local_raw(n).items()}

    def check_own(self, n, b, what):
        """Excluded local files are left alone."""
        now = self.local_all(n)
        maybe = self.sc.st["maybe"].get(NAMES[n], {})
        R1 = self.sc.remote_tree()
        for p, was in sorted(b["own"].items()):
            new = now.get(p)
            if new == was or (new and was[0][0] == "d" and new[0] == ("d",)):
                continue
            r0 = b["R"].get(p)
            if was[0][0] in "fl" and p in maybe and r0 is not None and r0[0] in "fl" and \
                    (r0 != b["base"].get(p) or not self.sc.st["clean"]):
                if new is not None and new[0] in (r0, R1.get(p)):
                    continue          # took over what another client changed
                if new is None and any(M.conflict_name_matches(q, p) and e[0] == was[0]
                                       for q, e in now.items()):
                    continue          # interrupted while doing so
            self.fail("touched", "%s: the excluded %s, %s, is now %s%s" % (
                what, p, M.show(was[0]), M.show(new and new[0]),
                "" if not new or new[0] != was[0] else " (time or mode: %s -> %s)" % (was[1:], new[1:])))
        self.check_ledger("lost", what)

    def check_added(self, n, b, what):
        """They are not added to the remote directory."""
        maybe = self.sc.st["maybe"].get(NAMES[n], {})
        pats = b["pats"]
        for p, e in sorted(self.sc.remote_tree().items()):
            if not M.excluded(pats, p) or b["R"].get(p) == e:
                continue
            if p in b["R"] and p in maybe and e == b["L"].get(p):
                continue              # all copies stay in sync
            if any(M.conflict_name_matches(p, o) for o in list(b["R"]) if o in maybe or not M.excluded(pats, o)):
                continue
            if not users(p):
                continue
            self.fail("added", "%s: the remote directory's %s, which is excluded, was %s and is %s" % (
                what, p, M.show(b["R"].get(p)), M.show(e)))

    def all_exclude(self, n, b, p, any_=True):
        """Does every client exclude it (any_: if it is uncertain what others know: possibly)?"""
        if not M.excluded(b["pats"], p):
            return False
        for x in b["others"]:
            f = any if any_ else all
            if not f(M.excluded(ps, p) for ps in self.sc.st["rec"][NAMES[x]]):
                return False
        return True

    def check_removed(self, n, b, what, done):
        R1 = self.sc.remote_tree()
        maybe = self.sc.st["maybe"].get(NAMES[n], {})
        now = self.local_all(n)
        for p, e in sorted(b["R"].items()):
            if e[0] == "d" or not M.excluded(b["pats"], p) or p in R1:
                continue
            if e[0] == "l" and not self.sc.safe_link(n, p, e[1]):
                continue
            if p in maybe and p not in b["L"]:
                continue              # the deletion of the local file was synced
            if p in maybe and any(q not in b["R"] and M.conflict_name_matches(q, p) and f == e
                                  for q, f in R1.items()):
                continue              # interrupted while handling a conflict
            if not self.all_exclude(n, b, p):
                self.fail("removed", "%s removes %s, which others do not exclude, from the remote "
                          "directory" % (what, p))
            if p not in now or (now[p][0][0] == "l" and self.sc.points_to_remote(n, p, now[p][0][1])):
                self.fail("no-copy", "%s removes the excluded %s from the remote directory without "
                          "a copy in the local one: %s" % (what, p, M.show(now[p][0] if p in now else None)))
            self.linked += 1
            for x in b["others"]:
                t = self.sc.local_tree(x).get(p)
                if t is not None and t[0] == "P":
                    self.fail("no-copy", "%s removes the excluded %s from the remote directory although "
                              "%s only has a placeholder of it" % (what, p, NAMES[x]))

    def check_done(self, n, cmd, b, what):
        sc = self.sc
        R1 = sc.remote_tree()
        L1 = sc.local_tree(n)
        maybe = sc.st["maybe"].get(NAMES[n], {})
        sure = sc.st["sure"].get(NAMES[n], {})
        clean = bool(sc.st["clean"])
        if cmd == "sync":
            for p, e in sorted(L1.items()):
                if e[0] == "P" and M.excluded(b["pats"], p) and not (
                        p not in b["R"] and any(M.conflict_name_matches(p, o) for o in b["R"])):
                    self.fail("placeholder", "%s leaves a placeholder for the excluded %s" % (what, p))
            for p, e in sorted(R1.items()):
                if e[0] == "d" or not M.excluded(b["pats"], p) or (
                        e[0] == "l" and not sc.safe_link(n, p, e[1])):
                    continue
                self.linked += 1
                known = p in b["R"] and (p not in b["own"] or any(p in t for t in sc.st["maybe"].values()))
                if self.all_exclude(n, b, p, False) and clean and known:
                    self.fail("left", "%s: every client excludes %s, but it is still in the remote "
                              "directory" % (what, p))
                if p not in L1:
                    self.fail("no-copy", "%s: there is no copy of the excluded remote file %s" % (what, p))
                if L1[p][0] == "P":
                    continue      # a new conflict copy
                if (p in sure or p not in b["own"]) and L1[p] != e and clean:
                    self.fail("out-of-sync", "%s: the excluded %s is %s in the local and %s in the "
                              "remote directory" % (what, p, M.show(L1[p]), M.show(e)))
        if not clean:
            return
        if cmd == "init":
            problems = []
            for p in sorted(set(R1) | set(L1)):
                if M.excluded(b["pats"], p) or self.around(b, p):
                    continue
                l, r = L1.get(p), R1.get(p)
                if (l is None) != (r is None) or (l[0] != "P" and l != r):
                    problems.append("%s: local %s, remote %s" % (p, M.show(l), M.show(r)))
            if problems:
                self.fail("init", "%s: the directories differ:\n  %s" % (what, "\n  ".join(problems)))
            return
        # everything else is synced as always
        skip = {p for t in (b["L"], b["R"], b["base"], R1, L1, b["raw"]) for p in t
                if M.excluded(b["pats"], p)}
        m = self.merge_of(b)
        left = dict(m.conflicts)
        have = {p: e for p, e in R1.items() if p not in skip}
        want = {p: e for p, e in m.tree.items() if p not in skip}
        for p in sorted(p for p in have if p not in want):
            for o in sorted(left):
                if have[p] == left[o][1] and M.conflict_name_matches(p, o):
                    want[p] = have[p]
                    del left[o]
                    break
        for o in list(left):
            # its conflict copy may have a name that is excluded
            for p in sorted(p for p in skip if M.conflict_name_matches(p, o)):
                if L1.get(p) == left[o][1]:
                    left.pop(o, None)
        problems = ["conflict on %s: %s is not kept under a conflict name" % (o, M.show(left[o][1]))
                    for o in sorted(left) if o not in skip]
        around = {p for p in set(want) | set(have) if self.around(b, p)}
        problems += ["remote " + x for x in M.diff_trees(
            {p: e for p, e in want.items() if p not in around},
            {p: e for p, e in have.items() if p not in around})]
        for p in sorted(set(L1) | set(R1)):
            if p in skip or self.around(b, p):
                continue
            l, r = L1.get(p), R1.get(p)
            if (l is None) != (r is None) or (l[0] != "P" and l != r):
                problems.append("%s: local %s, remote %s" % (p, M.show(l), M.show(r)))
        if problems:
            self.fail("merge", "%s: what is not excluded is not merged:\n  %s" % (what, "\n  ".join(problems)))

    def around(self, b, p):
        """Is it a directory that holds excluded files on some side?"""
        if "around" not in b:
            allp = [b["pats"]] + [ps for x in NAMES for ps in self.sc.st["rec"].get(x, [])]
            acc = set()
            trees = [b["L"], b["R"], b["base"], b["raw"], self.sc.remote_tree()] + \
                [self.sc.st["base"].get(x, {}) for x in NAMES] + \
                [self.sc.local_tree(x) for x in range(len(self.ex.cfg["clients"]))]
            for t in trees:
                for q in t:
                    if any(M.excluded(ps, q) for ps in allp):
                        acc.update(M.parents(q))
                        acc.add(q) if t.get(q) == ("d",) else None
            b["around"] = acc
        return p in b["around"]

    # -- runs --------------------------------------------------------------------------------------
    def plan(self, ex, rng):
        if ex.cfg["kills"] and rng.random() < .25:
            return [{"at": rng.randint(1, rng.choice([20, 60, 150])), "unit": "m",
                     "do": rng.choice(["kill", "kill", "torn"])}]
        return []

    def command(self, ex, g, rng, n, cmd, args):
        p = self.plan(ex, rng)
        r = ex.do(["cmd", n, cmd, args, p])
        st = self.sc.info(n) or {}
        if p and r is not None and r.rc != 0 and (
                cmd == "reset" and st or cmd == "init" and st.get("Status") != "initialized"):
            if cmd == "init" and self.sc.info(n) is not None and rng.random() < .5:
                g.do_edits(n, 2)
            ex.do(["cmd", n, cmd, args])

    def start(self, ex, g, rng, n):
        ex.do(["exclude", n, ex.cfg["clients"][n]["exclude"]])
        if not n:
            g.do_edits(0, rng.randint(2, 8), {"rwrite": 0, "rnew": 0, "rrm": 0, "rrmtree": 0, "rmkdir": 0})
        self.command(ex, g, rng, n, "init", (["-a"] if n else []) + ["-e", "/home/u/exclude"])

    def gen(self, ex, g, rng):
        nc = len(ex.cfg["clients"])
        up = 1
        self.start(ex, g, rng, 0)
        late = rng.random() < .4
        while up < nc and not late:
            self.start(ex, g, rng, up)
            up += 1
        for _ in range(rng.randint(2, 6)):
            if up < nc and rng.random() < .5:
                self.start(ex, g, rng, up)
                up += 1
            for n in range(up):
                if rng.random() < .6:
                    g.do_edits(n, rng.randint(0, 3))
                mine = sorted(p for p, e in self.sc.local_tree(n).items() if e[0] == "f" and
                              M.excluded(self.sc.excludes(n), p) and p not in self.sc.remote_tree() and
                              users(p))
                if mine and rng.random() < .3:
                    # another client has something of the same name
                    ex.do(["write", rng.randrange(up), rng.choice(mine), g.size(), 0o644, "write"])
                if rng.random() < .35:
                    cur = list(self.sc.excludes(n))
                    other = list(self.sc.excludes(rng.randrange(up)))
                    ex.do(["exclude", n, rng.choice([[], cur + self.patterns(rng), self.patterns(rng), other,
                                                     other])])
                if rng.random() < .1:
                    ex.do(["config", n, {"limit": rng.choice(["10MB", "40KB", "100K", "0K"])}])
            if up > 1 and rng.random() < .06:
                self.command(ex, g, rng, up - 1, "reset", ["-k"])
                up, nc = up - 1, 0
            for n in rng.sample(range(up), rng.randint(1, up)):
                self.command(ex, g, rng, n, "sync", [])
