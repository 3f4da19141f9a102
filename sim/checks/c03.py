"""C03 an interruption loses no data; C04 running the command again completes it."""
import datetime
import re

from .base import Prop, NAMES, M
from ..scen import Violation

CONFLICT = re.compile(r"^(.*)_conflict-\d{8}-\d{6}[^/.]*((?:\.[^/]*)?)$")


class Interrupting(Prop):
    """Builds a state, picks a command, and interrupts it at sampled points."""
    points = 5
    tight = True

    def cfg(self, rng):
        cfg = self.swarm(rng, rng.choice([1, 1, 2]))
        for c in cfg["clients"]:
            c["period"] = rng.choice(["30", "-1"])
            if rng.random() < .15:
                c["exclude"] = rng.sample(["*.txt", "d", "/a", "dd/*", "ab"], rng.randint(1, 2))
        if cfg["gap"] > 1000:
            cfg["gap"] = 40
        return cfg

    def history(self, ex, g, rng):
        """-> (n, cmd, args) to interrupt."""
        nc = len(ex.cfg["clients"])
        for n in range(nc):
            if ex.cfg["clients"][n]["exclude"]:
                ex.do(["exclude", n, ex.cfg["clients"][n]["exclude"]])
        w = {"rwrite": 0, "rnew": 0, "rrm": 0, "rrmtree": 0, "rmkdir": 0}
        g.do_edits(0, rng.randint(2, 8), w)
        args0 = ["-e", "/home/u/exclude"] if ex.cfg["clients"][0]["exclude"] else []
        if rng.random() < .12:
            return 0, "init", args0
        ex.do(["cmd", 0, "init", args0])
        for n in range(1, nc):
            a = ["-a"] + (["-e", "/home/u/exclude"] if ex.cfg["clients"][n]["exclude"] else [])
            if n == nc - 1 and rng.random() < .25:
                g.do_edits(0, 2)
                ex.do(["cmd", 0, "sync", []])
                return n, "init", a
            ex.do(["cmd", n, "init", a])
        for _ in range(rng.randint(0, 2)):
            for n in range(nc):
                g.do_edits(n, rng.randint(0, 3))
            if rng.random() < .2:
                ex.do(["config", rng.randrange(nc), {"limit": rng.choice(["10MB", "40KB", "0K"])}])
            for n in rng.sample(range(nc), rng.randint(1, nc)):
                ex.do(["cmd", n, "sync", []])
        for n in range(nc):
            g.do_edits(n, rng.randint(0, 4))
        if rng.random() < .25:
            ex.do(["config", rng.randrange(nc), {"limit": rng.choice(["10MB", "40KB", "0K"])}])
        if rng.random() < .12:
            n = rng.randrange(nc)
            ex.do(["exclude", n, rng.sample(["*.txt", "d", "/a", "dd/*", "ab", "x*"], rng.randint(0, 2))])
        if nc > 1 and rng.random() < .6:
            ex.do(["cmd", rng.randrange(nc), "sync", []])
            g.do_edits(rng.randrange(nc), rng.randint(0, 2))
        n = rng.randrange(nc)
        x = rng.random()
        if x < .68:
            return n, "sync", []
        if x < .95:
            return n, "reset", rng.choice([[], [], ["-k"], ["-n"]])
        return n, "empty-trash", []

    def plan_at(self, rng, counts):
        """One interruption somewhere in a command that has these step counts."""
        x = rng.random()
        m, s = max(1, counts.get("m", 1)), max(1, counts.get("s", 1))
        if x < .62:
            return {"at": rng.randint(1, m), "unit": "m", "do": "kill"}
        if x < .78:
            return {"at": rng.randint(1, m), "unit": "m", "do": "torn"}
        return {"at": rng.randint(1, s), "unit": "s", "do": "sig:" + rng.choice(["TERM", "INT", "HUP"])}

    def dry(self, ex, n, cmd, args):
        with ex.branch():
            r = self.sc.cmd(n, cmd, args)
        return r


class C03(Interrupting):
    id = "C03"
    quick = 330
    thorough = 9000

    def cfg(self, rng):
        cfg = super().cfg(rng)
        return cfg

    def after(self, n, cmd, args, plan, ctx, r):
        what = "%s %s%s" % (NAMES[n], cmd, " interrupted" if r.killed or r.fired else "")
        self.check_ledger("lost", "after " + what)
        if r.rc == 0 and not r.killed and cmd in ("init", "sync"):
            self.completed(n)

    def gen(self, ex, g, rng):
        n, cmd, args = self.history(ex, g, rng)
        ex.do(["wait", 2])
        r = self.dry(ex, n, cmd, args)
        for i in range(self.points):
            with ex.branch():
                self.one(ex, g, rng, n, cmd, args, r.counts)

    def one(self, ex, g, rng, n, cmd, args, counts):
        nc = len(ex.cfg["clients"])
        ex.do(["cmd", n, cmd, args, [self.plan_at(rng, counts)]])
        for _ in range(rng.randint(1, 3)):
            if rng.random() < .5:
                g.do_edits(rng.randrange(nc), rng.randint(1, 2),
                           {"rm": 1.5, "rmtree": .3, "rrm": .2, "rrmtree": 0})
            x = rng.random()
            if x < .55:
                m, c, a = n, cmd, args
            elif x < .85:
                m, c, a = rng.randrange(nc), "sync", []
            elif x < .95:
                m, c, a = rng.randrange(nc), "reset", rng.choice([[], ["-k"], ["-n"]])
            else:
                m, c, a = rng.randrange(nc), "empty-trash", []
            plan = [self.plan_at(rng, counts)] if rng.random() < .35 else []
            ex.do(["cmd", m, c, a, plan])


def epoch(stamp):
    """Seconds since 1970 of a time as in info.json."""
    try:
        return datetime.datetime.fromisoformat(stamp).replace(tzinfo=datetime.timezone.utc).timestamp()
    except Exception:
        return 0


def orig_name(p):
    m = CONFLICT.match(p)
    return m.group(1) + m.group(2) if m else None


class C04(Interrupting):
    id = "C04"
    quick = 250
    thorough = 7000
    points = 6

    def after(self, n, cmd, args, plan, ctx, r):
        if r.rc == 0 and not r.killed and cmd in ("init", "sync"):
            self.completed(n)

    def gen(self, ex, g, rng):
        n, cmd, args = self.history(ex, g, rng)
        if cmd == "empty-trash":
            cmd = "sync"
        ex.do(["wait", 2])
        r = self.dry(ex, n, cmd, args)
        if r.rc != 0:
            return
        tries = []
        for i in range(self.points):
            tries.append([[self.plan_at(rng, r.counts)]
                          for _ in range(rng.choice([1, 1, 2, 3]))])
        ex.do(["twin", n, cmd, args, tries])

    # state as compared: {place: {path: entry}}
    def state(self, n):
        sc = self.sc
        out = {}
        for i in range(len(sc.cfg["clients"])):
            t = {}
            for p, x in sc.local_raw(i).items():
                t[p] = sc._entry(x)
            out[NAMES[i]] = t
        out["remote"] = sc.remote_tree()
        out["trash"] = sorted(M.show(sc._entry(x)) for p, x in sc.trash_tree().items() if x.kind != "d")
        return out

    def done(self, n, cmd, r):
        """Did the attempt complete before the interruption took effect?"""
        if r.rc == 0 and not r.killed:
            return True
        i = self.sc.info(n)
        if cmd == "init":
            return i is not None and i.get("Status") == "initialized"
        if cmd == "reset":
            return i is None
        return False

    def followup(self):
        out = []
        for _ in range(2):
            for i in range(len(self.sc.cfg["clients"])):
                self.k.world.clock += int(3e9)
                if self.sc.info(i) is not None:
                    r = self.sc.cmd(i, "sync", [])
                    out.append((i, r))
        return out

    def op_twin(self, n, cmd, args, tries):
        ex = self.ex
        nc = len(ex.cfg["clients"])
        self.raced = self.find_raced(n)
        # directories that may be left over, or not, once the files in them went:
        # those that hold a file that the client excludes
        known = set(self.sc.db_rows(n) or ()) | set(self.sc.local_raw(n)) | set(self.sc.remote_tree())
        self.emptied = set()
        for p in known:
            if M.excluded(self.sc.excludes(n), p):
                parts = p.split("/")
                self.emptied |= {"/".join(parts[:i]) for i in range(1, len(parts))}
        with ex.branch():
            r = self.sc.cmd(n, cmd, args)
            if r.rc != 0:
                return       # not a state for this property (nothing was interrupted)
            clean = self.state(n)
            fups = self.followup()
            later = self.state(n)
        fail_ok = [(i, x.rc) for i, x in fups]
        tight = [i for i in range(nc) if ex.setting(i, "limit") != "10MB"]
        for attempt in tries:
            with ex.branch():
                try:
                    done = False
                    log = []
                    for plan in attempt:
                        r = self.sc.cmd(n, cmd, args, plan)
                        ex.evals += 1
                        log.append("%s %s" % (plan, r.brief()))
                        if self.done(n, cmd, r):
                            done = True
                            break
                        self.k.world.clock += int(ex.gap * 1e9)
                    if not done:
                        r = self.sc.cmd(n, cmd, args)
                        ex.evals += 1
                        if r.rc != 0:
                            self.expect_ok(r, "completes")
                    ex.note_state()
                    self.compare(clean, self.state(n), tight, "after " + cmd, log, n)
                    for (i, r), (_, rc) in zip(self.followup(), fail_ok):
                        if r.rc != 0 and rc == 0:
                            self.expect_ok(r, "completes")
                    self.compare(later, self.state(n), tight, "after later syncs", log, n)
                except Violation:
                    ex.trace[-1] = ["twin", n, cmd, list(args), [attempt]]
                    raise

    def compare(self, want, have, tight, when, log, n0):
        problems = []
        patterns = self.sc.excludes(n0)
        # what another client changed meanwhile may be kept in more versions
        racing = self.raced if when == "after later syncs" else set()
        conflict = any(orig_name(p) for t in ("A", "B", "C", "remote") for p in
                       list(want.get(t, ())) + list(have.get(t, ())))
        for place in sorted(want):
            if place == "trash":
                left = list(have[place])
                for e in want[place]:
                    if e in left:
                        left.remove(e)
                    elif e not in [M.show(have["remote"].get(p)) for p in racing]:
                        problems.append("trash: %s is missing" % e)
                continue
            a, b = dict(want[place]), dict(have[place])
            if place != "remote":
                n = NAMES.index(place)
                if n in tight and (conflict or self.sc.excludes(n)):
                    a, b = self.through(n, a, want["remote"]), self.through(n, b, have["remote"])
                else:
                    a, b = self.marked(n, a), self.marked(n, b)
            # conflict copies may have another name and may be more
            ca = sorted((orig_name(p), M.show(e)) for p, e in a.items() if orig_name(p))
            cb = sorted((orig_name(p), M.show(e)) for p, e in b.items() if orig_name(p))
            for x in set(ca) - set(cb):
                if M.excluded(patterns, x[0]):
                    continue
                if x[1] != "placeholder" and (x[0], "placeholder") not in cb:
                    problems.append("%s: conflict copy %s of %s is missing" % (place, x[1], x[0]))
            for x in set(o for o, _ in cb) - set(o for o, _ in ca) - racing:
                if M.excluded(patterns, x):
                    continue
                problems.append("%s: spurious conflict copy of %s" % (place, x))
            for p in sorted(set(a) | set(b)):
                if orig_name(p):
                    continue
                if a.get(p) != b.get(p):
                    if M.excluded(patterns, p) or p in racing and a.get(p) is None:
                        continue
                    if (a.get(p) or b.get(p))[0] == "d" and not (a.get(p) and b.get(p)) \
                            and p in self.emptied:
                        continue
                    problems.append("%s %s: %s instead of %s" % (
                        place, p, M.show(b.get(p)), M.show(a.get(p))))
        if problems:
            self.fail("twin", "%s, the interrupted and resumed run differs from the uninterrupted "
                      "one:\n  %s\nattempts:\n  %s" % (when, "\n  ".join(problems[:12]), "\n  ".join(log)))

    def find_raced(self, n0):
        out = set()
        for m in range(len(self.sc.cfg["clients"])):
            i = self.sc.info(m)
            if m == n0 or not i:
                continue
            have = self.sc.local_raw(m)
            for p in self.sc.db_rows(m):
                if p not in have or have[p].mtime > epoch(i["LastSync"]) * 1e9:
                    out.add(p)
        return out

    def marked(self, n, t):
        return {p: (("P",) if e[0] == "l" and self.sc.is_placeholder(n, p, e[1]) else e)
                for p, e in t.items()}

    def through(self, n, t, remote):
        return {p: (remote.get(p, ("dangling",)) if e[0] == "l" and self.sc.is_placeholder(n, p, e[1])
                    else e) for p, e in t.items()}
