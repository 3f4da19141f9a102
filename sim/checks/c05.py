"""C05 a failing or vanishing remote directory; C06 a full disk."""
from .base import NAMES, M
from .c03 import C04
from ..scen import Violation
from ..ops import users


class Failing(C04):
    """A command runs while something is broken, maybe more than once; then it is repaired."""
    points = 5
    excludes = .1

    def after(self, n, cmd, args, plan, ctx, r):
        if r.rc == 0 and not r.killed and cmd in ("init", "sync"):
            self.completed(n)

    def gen(self, ex, g, rng):
        n, cmd, args = self.history(ex, g, rng)
        if "-n" in args:         # works without the remote directory
            cmd, args = "sync", []
        ex.do(["wait", 2])
        r = self.dry(ex, n, cmd, args)
        if r.rc != 0 or r.killed:
            return
        tries = [self.attempt(ex, rng, n, cmd, r.counts) for _ in range(self.points)]
        ex.do(["broken", n, cmd, args, tries])
        # once more, with changes made while it is broken
        a = self.attempt(ex, rng, n, cmd, r.counts)
        if a["env"]:
            ex.do(["env", n, a["env"]])
        ex.do(["failing", n, cmd, args, a["plan"]])
        for _ in range(rng.randint(0, 2) if cmd != "init" else 0):
            g.do_edits(n, rng.randint(0, 2), {"rwrite": 0, "rnew": 0, "rrm": 0, "rrmtree": 0, "rmkdir": 0})
            ex.do(["failing", n, "sync", [], []])
        ex.do(["healed", n, cmd, args])

    def bind(self, ex):
        super().bind(ex)
        self.last = None
        self.edited, self.touched = set(), set()

    def op_failing(self, n, cmd, args, plan):
        """A command that may fail, and push files meanwhile."""
        self.note_edits(n)
        l, r = self.sc.local_tree(n), self.sc.remote_tree()
        rc = self.sc.cmd(n, cmd, args, plan)
        self.ex.evals += 1
        if rc.rc == 0 and cmd in ("init", "sync"):
            self.completed(n)
        for a, b in ((l, self.sc.local_tree(n)), (r, self.sc.remote_tree())):
            self.touched |= {p for p in set(a) | set(b) if a.get(p) != b.get(p)}
        self.last = self.sc.local_tree(n)

    def note_edits(self, n):
        if self.last is not None:
            t = self.sc.local_tree(n)
            self.edited |= {p for p in set(t) | set(self.last) if t.get(p) != self.last.get(p)}

    def op_healed(self, n, cmd, args):
        """After the repair: nothing lost, and the next sync merges."""
        self.heal(n)
        self.check_ledger("lost", "after %s %s failed and was repaired" % (NAMES[n], cmd))
        i = self.sc.info(n)
        if i is None or i.get("Status") != "initialized":
            if cmd == "init" or i is not None:
                r = self.sc.cmd(n, cmd, args)
                self.expect_ok(r, "completes after the repair")
                self.check_ledger("lost", "after %s %s was completed" % (NAMES[n], cmd))
            return
        if any(self.sc.excludes(m) for m in range(len(self.sc.cfg["clients"]))):
            return
        self.note_edits(n)
        ctx = self.sync_before(n)
        r = self.sc.cmd(n, "sync")
        self.expect_ok(r, "completes after the repair")
        # what the user deleted or changed after a failed sync had already copied it
        skip = self.touched & self.edited
        skip |= {q for p in skip for q in M.parents(p)}
        self.check_merge(n, ctx, skip=skip)
        self.check_ledger("lost", "after the repair and a sync of %s" % NAMES[n])

    def op_broken(self, n, cmd, args, tries):
        ex, sc = self.ex, self.sc
        nc = len(ex.cfg["clients"])
        self.raced = self.find_raced(n)
        with ex.branch():
            r = sc.cmd(n, cmd, args)
            if r.rc != 0:
                return
            clean = self.state(n)
            fups = self.followup()
            later = self.state(n)
        fail_ok = [x.rc for i, x in fups]
        tight = [i for i in range(nc) if ex.setting(i, "limit") != "10MB"]
        for t in tries:
            with ex.branch():
                try:
                    log = []
                    if t["env"]:
                        sc.world_event(sc.client(n), t["env"])
                        log.append(t["env"])
                    done = False
                    for plan in [t["plan"]] + [[]] * t["again"]:
                        info = self.k.stats
                        lead = self.lead(n)
                        self.k.world.clock += int(ex.gap * 1e9)
                        r = sc.cmd(n, cmd, args, plan)
                        ex.evals += 1
                        log.append("%s %s" % (plan, r.brief()))
                        if r.rc == 0 or self.done(n, cmd, r):
                            done = True
                        self.failed(n, cmd, t, plan, r, lead)
                        if done:
                            break
                    self.heal(n)
                    self.check_ledger("lost", "after " + "; ".join(log))
                    self.k.world.clock += int(ex.gap * 1e9)
                    if not done:
                        r = sc.cmd(n, cmd, args)
                        ex.evals += 1
                        log.append("repaired: " + r.brief())
                        if r.rc != 0:
                            self.expect_ok(r, "completes after the repair")
                    ex.note_state()
                    self.compare(clean, self.state(n), tight, "after " + cmd, log, n)
                    for (i, r), rc in zip(self.followup(), fail_ok):
                        if r.rc != 0 and rc == 0:
                            self.expect_ok(r, "completes")
                    self.compare(later, self.state(n), tight, "after later syncs", log, n)
                    self.check_ledger("lost", "after " + "; ".join(log) + " and later syncs")
                except Violation:
                    ex.trace[-1] = ["broken", n, cmd, list(args), [t]]
                    raise

    def lead(self, n):
        return None

    def failed(self, n, cmd, t, plan, r, lead):
        pass

    def intact(self, what):
        """No truncated content anywhere a user looks."""
        sc = self.sc
        trees = [("remote", sc.remote_tree())]
        for n in range(len(sc.cfg["clients"])):
            trees.append(("local " + NAMES[n], {p: sc._entry(x) for p, x in sc.local_raw(n).items()}))
        trees.append(("trash", {p: sc._entry(x) for p, x in sc.trash_tree().items()}))
        for where, t in trees:
            for p, e in sorted(t.items()):
                if e[0] == "f" and users(p) and not M.token_of(e[1])[1]:
                    self.fail("truncated", "%s: %s %s is %s" % (what, where, p, M.show(e)))


class C05(Failing):
    id = "C05"
    quick = 260
    thorough = 7000

    def cfg(self, rng):
        cfg = super().cfg(rng)
        if len(cfg["clients"]) == 1 and rng.random() < .15:
            cfg["rlocal"] = True
        for c in cfg["clients"]:
            c["mpowner"] = rng.choice(["u", "u", "root"])
        return cfg

    def attempt(self, ex, rng, n, cmd, counts):
        steps = max(1, counts.get("r", 1))
        at = rng.randint(1, steps)
        unit = "r"
        if rng.random() < .3:
            unit, at = "s", rng.randint(1, max(1, counts.get("s", 1)))
        rl = ex.cfg["rlocal"]
        x = rng.random()
        if cmd == "init":        # can't know the remote directory, it may just be a new one
            x = .7 + .3 * x
        if x < .4:
            ev = "hide" if rl else "unmount"
        elif x < .6 and not rl:
            ev = "fail,R," + rng.choice(["EIO", "EACCES", "ESTALE", "ENOTCONN", "ENOENT"])
        else:
            return {"env": None, "again": rng.choice([0, 0, 1]), "plan": [
                {"at": rng.randint(1, steps), "unit": rng.choice(["r", "r", "x"]),
                 "do": "errno:" + rng.choice(["EIO", "EACCES", "EROFS", "EIO"]),
                 "times": rng.choice([1, 1, 2, 5])}]}
        if rng.random() < .2:
            return {"env": ev, "again": rng.choice([0, 1]), "plan": []}
        # a reset that is all but complete can't tell
        return {"env": None, "again": 0 if cmd == "reset" else rng.choice([0, 0, 1, 2]),
                "plan": [{"at": at, "unit": unit, "do": "world:" + ev}]}

    def heal(self, n):
        sc = self.sc
        if sc.cfg["rlocal"]:
            sc.world_event(sc.client(n), "unhide")
        else:
            sc.world_event(sc.client(n), "unfail,R")
            sc.world_event(sc.client(n), "unmount")
            sc.world_event(sc.client(n), "mount")

    def place(self, n):
        """What is where the remote directory is while it is not there; None if it is there."""
        sc = self.sc
        c = sc.client(n)
        if sc.cfg["rlocal"]:
            try:
                sc.v.lookup(c, "/home/u/.hidden-remote")
            except OSError:
                return None
            try:
                sc.v.lookup(c, "/home/u/remote")
                return sorted(sc.v.tree(c, "/home/u/remote")) + ["itself"]
            except OSError:
                return []
        if "R" in c.mounts.values():
            return None
        return sorted(sc.v.tree(c, "/mnt/r"))

    def failed(self, n, cmd, t, plan, r, lead):
        gone = self.place(n)
        if r.killed or r.thread_errors:
            self.fail("error", "%s does not fail properly: killed=%s %s" % (
                r.brief(), r.killed, r.thread_errors))
        if gone:
            self.fail("refill", "%s puts %s into the place where the remote directory was" % (
                r.brief(), ", ".join(gone)))
        if t["env"] and r.rc == 0 and not (cmd == "reset" and self.keeps_remote):
            self.fail("unnoticed", "%s succeeds although the remote directory is not there (%s)" % (
                r.brief(), t["env"]))

    def op_broken(self, n, cmd, args, tries):
        self.keeps_remote = "-n" in args
        super().op_broken(n, cmd, args, tries)

    def op_healed(self, n, cmd, args):
        gone = self.place(n)
        if gone:
            self.fail("refill", "%s put %s into the place where the remote directory was" % (
                cmd, ", ".join(gone)))
        super().op_healed(n, cmd, args)


class C06(Failing):
    id = "C06"
    quick = 260
    thorough = 7000

    def disks(self, n):
        return ["R" if not self.sc.cfg["rlocal"] else NAMES[n], NAMES[n]] + (
            [NAMES[n] + "L"] if self.sc.cfg["clients"][n].get("localdisk") else [])

    def attempt(self, ex, rng, n, cmd, counts):
        fs = rng.choice(self.disks(n))
        ev = "full,%s,%d" % (fs, rng.choice([0, 0, 0, 1, 1, 2, 4, 9]))
        if rng.random() < .25:
            return {"env": ev, "again": rng.choice([0, 1]), "plan": []}
        return {"env": None, "again": rng.choice([0, 0, 1, 2]), "plan": [
            {"at": rng.randint(1, max(1, counts.get("m", 1))), "unit": "m", "do": "world:" + ev}]}

    def heal(self, n):
        self.intact("while the disk is full")
        for fs in self.disks(n):
            self.sc.world_event(self.sc.client(n), "unfull," + fs)

    def failed(self, n, cmd, t, plan, r, lead):
        if r.killed:
            self.fail("error", "%s does not fail properly" % r.brief())
        self.intact("after " + r.brief())
