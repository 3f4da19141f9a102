"""C14 the daemon's schedule."""
from .c13 import Daemonic, epoch, LOOP, INF
from ..scen import SEC, PROFILE

SLACK = 1.0             # seconds for what happens in between


class C14(Daemonic):
    id = "C14"
    quick = 500
    thorough = 20000
    rule = "a run counts if the daemon started a sync in it; counted by configuration, operations and " \
           "preemptions"

    def nontrivial(self, ex):
        return ex.started > 0

    def cfg(self, rng):
        cfg = self.swarm(rng, rng.choice([1, 1, 1, 2]))
        cfg["gap"] = 0.01
        for c in cfg["clients"]:
            c["tty"] = False
        c = cfg["clients"][0]
        c["interval"] = rng.choice(["1", "1", "2", "5", "20"])
        c["halflife"] = rng.choice(["1", "12", "120"])
        return cfg

    def bind(self, ex):
        super().bind(ex)
        ex.started = 0
        self.n = 0
        # (changed at, seconds)
        self.ivals = [(0, 60 * float(ex.cfg["clients"][0]["interval"]))]
        self.fulls = []                 # when a disk was full
        self.trouble = 0                # when an operation last held the profile, as far as known

    # -- what happens -----------------------------------------------------------------------------
    def op_ival(self, n, minutes):
        self.ex.op_config(n, {"interval": str(minutes)})
        self.ivals.append((self.k.world.clock, 60.0 * minutes))

    def intervals(self, t):
        """The intervals the daemon may go by at t."""
        out = []
        for i, (at, secs) in enumerate(self.ivals):
            if at > t:
                break
            nxt = self.ivals[i + 1][0] if i + 1 < len(self.ivals) else INF
            # the next one counts once the daemon has read it, which waits for the database
            if nxt > t or self.reads_by(nxt) > t:
                out.append(secs)
        return out

    def reads_by(self, t):
        x = t + 5 * SEC
        spans = [(p.started, INF if not p.ended else p.ended_at) for p in self.busy] + self.jumps + self.fulls
        again = True
        while again:
            again = False
            for s, e in spans:
                if s <= x and e >= t and e + 10 * SEC > x:
                    x = e + 10 * SEC
                    again = True
        return x

    def wall(self, t):
        return t + self.sc.client(0).skew

    def reference(self):
        """When the last attempt was, on the daemon's clock, and when its time is counted from."""
        kids = self.d["kids"]
        if kids:
            k = kids[-1]
            return (None, None) if not k.ended else (self.wall(k.ended_at), k.ended_at)
        return self.d["last_sync"] * SEC, self.d["start"]

    def kid_started(self, child):
        self.ex.started += 1
        now = self.k.world.clock
        kids = self.d["kids"]
        if self.d["proc"].ended:
            self.fail("schedule", "a sync is started after the daemon ended")
        if child.argv[-2:] != ["sync", PROFILE] and "sync" not in child.argv:
            self.fail("schedule", "the daemon runs %s" % child.argv)
        if len(kids) > 1:
            k = kids[-2]
            if not k.ended:
                self.fail("schedule", "the daemon starts a sync while its last one is running")
            ref = self.wall(k.ended_at)
            gap = min(self.intervals(now) + self.intervals(k.ended_at))
        else:
            ref = self.d["last_sync"] * SEC
            gap = min(self.intervals(now) + self.intervals(self.d["start"]))
        if self.wall(now) < ref + int((gap - .01) * SEC):
            self.fail("schedule", "the daemon starts a sync %.2f s after the last one, and the interval "
                      "is %.0f s" % ((self.wall(now) - ref) / SEC, gap))

    def poll(self):
        super().poll()
        if not self.alive() or self.d["told"]:
            return
        ref, since = self.reference()
        if ref is None:
            return
        now = self.k.world.clock
        gap = max(self.intervals(now) + self.intervals(since))
        for at, secs in self.ivals[1:]:
            since = max(since, self.reads_by(at))
        due = max(ref + int(gap * SEC), self.wall(since))
        if self.wall(now) > due + int((LOOP + SLACK) * SEC) and not self.jumped(now):
            self.fail("schedule", "no sync %.2f s after the last %s; the interval is %.0f s" % (
                (self.wall(now) - ref) / SEC, "attempt" if self.d["kids"] else "one", gap))

    def jumped(self, now):
        return any(e + int((LOOP + SLACK) * SEC) > now for s, e in self.jumps)

    def told(self, sig):
        d = self.d
        p = d["proc"]
        running = [k for k in d["kids"] if not k.ended]
        before = [(k, len(k.fired)) for k in running]
        self.advance(10, lambda: p.ended)
        if not p.ended:
            self.fail("stop", "the daemon is still there 10 s after SIG%s" % sig)
        if sig == "TERM" and p.rc != 0:
            self.fail("stop", "the daemon ends with %s when it is told to stop\n%s" % (
                p.rc, p.stderr.getvalue()[-600:]))
        healthy = self.mounted and not self.sick
        for k, fired in before:
            if any(not f.get("done") and f["left"] > 0 for f in k.plan) or not healthy \
                    or [q for q in self.live_work() if q is not k]:
                continue
            self.k.count("x:syncs that outlive the daemon")
            if k.ended and k.rc == 0:
                continue
            self.advance(900, lambda: k.ended)
            if not k.ended:
                self.fail("stop", "the sync that was running when the daemon was stopped never ends")
            if k.rc != 0 and len(k.fired) == fired:
                self.fail("stop", "the sync that was running when the daemon was stopped ends with %s\n%s"
                          % (k.rc, (k.tb or k.stderr.getvalue())[-800:]))

    sick = False

    def op_env(self, n, what):
        a = what.split(",")[0]
        if a == "full" and self.ex.ok(n):          # the daemon can't store anything
            self.fulls.append((self.k.world.clock, INF))
        elif a == "unfull" and self.fulls:
            self.fulls[-1] = (self.fulls[-1][0], self.k.world.clock)
        if a in ("hide", "fail", "full"):
            self.sick = True
        elif a in ("unhide", "unfail", "unfull"):
            self.sick = False
        super().op_env(n, what)

    def op_touch(self, n, rel):
        if not self.ex.ok(n):
            return
        import os
        try:
            self.sc.v.open(self.sc.client(n), self.ex.lp(n, rel), os.O_RDONLY)
        except OSError:
            pass

    # -- generation -------------------------------------------------------------------------------
    def gen(self, ex, g, rng):
        two = len(ex.cfg["clients"]) > 1
        g.do_edits(0, rng.randint(2, 6), {"rwrite": 0, "rnew": 0, "rrm": 0, "rrmtree": 0, "rmkdir": 0})
        ex.do(["cmd", 0, "init", []])
        if two:
            ex.do(["cmd", 1, "init", ["-a"]])
        for _ in range(rng.choice([0, 1, 1])):
            ex.do(["cmd", 0, "sync", []])
        if rng.random() < .5:
            ex.do(["wait", rng.choice([3, 50, 59, 61, 100, 2000])])

        def plans():
            return [self.a_plan(rng) for _ in range(rng.choice([0, 2, 6, 12]))]
        ex.do(["daemon", 0, plans()])
        ival = 60 * float(ex.cfg["clients"][0]["interval"])

        def some_pass():
            s = rng.choice([.3, 2, 5, 20, ival, ival, ival + rng.uniform(-5, 5), 2 * ival,
                            rng.uniform(0, 2 * ival)])
            ex.do(["pass", round(s, 2), self.preempts(rng)])
        for _ in range(rng.randint(4, 11)):
            x = rng.random()
            if x < .2:
                g.do_edits(0, 1, {"symlink": .2})
            elif x < .22:
                d = g.some_dir(1).rstrip("/")
                if d:
                    ex.do(["mvout", 0, d])
            elif x < .24:
                ex.do(["mvin", 0, "in%d" % rng.randrange(100)])
            elif x < .3:
                for p in [p for p, r in sorted((self.sc.db_rows(0) or {}).items()) if not r[0]][:3]:
                    ex.do(["touch", 0, p])
            elif x < .48:
                ex.do(["bg", 0, rng.choice(["sync", "sync", "empty-trash"]), [], self.a_plan(rng)])
            elif x < .6 and two:
                ex.do(["bg", 1, "sync", [], self.a_plan(rng, 250)])
            elif x < .78:
                on, off = rng.choice([("unmount", "mount"), ("hide", "unhide"),
                                      ("fail,R,EIO", "unfail,R"),
                                      ("full,R,0", "unfull,R"), ("full,A,0", "unfull,A"),
                                      ("full,A,1", "unfull,A"),
                                      ("overflow", None)])
                ex.do(["env", 0, on])
                if on == "hide":
                    ex.do(["peek", 0])
                some_pass()
                if off:
                    ex.do(["env", 0, off])
            elif x < .82:
                ex.do(["env", 0, "jump,%d" % rng.choice([30, 700, 10000])])
            elif x < .86:
                ex.do(["ival", 0, rng.choice([1, 2, 7, 20])])
            elif x < .95:
                ex.do(["sig", rng.choice(["TERM", "TERM", "KILL", "INT", "HUP"])])
                some_pass()
                ex.do(["daemon", 0, plans()])
            some_pass()
        ex.do(["final"])
        ex.do(["end"])

    def op_final(self):
        """Everything works again: the daemon syncs and counts."""
        if not self.alive():
            return
        for w in ("mount", "unhide", "unfail,R", "unfull,R", "unfull,A"):
            if w == "mount" and self.mounted:
                continue
            self.op_env(0, w)
        self.advance(900, lambda: not self.live_work())
        if self.live_work():
            self.fail("stuck", "%s never ends" % self.live_work()[0].argv)
        self.d["plans"] = []
        kids = len(self.d["kids"])
        gap = max(s for t, s in self.ivals)
        self.advance(gap + LOOP + 2, lambda: len(self.d["kids"]) > kids)
        if len(self.d["kids"]) == kids:
            self.fail("schedule", "no sync is started %.0f s after everything is well again" % (gap + 5))
        kid = self.d["kids"][-1]
        self.advance(60, lambda: kid.ended)
        if kid.rc != 0:
            self.fail("sync", "the next sync of the daemon ends with %s although everything is well again\n%s"
                      % (kid.rc, (kid.tb or kid.stderr.getvalue())[-1500:]))
        self.advance(15)
        rows = self.sc.db_rows(0) or {}
        c = self.sc.client(0)
        pick = None
        for p, r in sorted(rows.items()):
            if not r[0]:
                try:
                    i = self.sc.v.lookup(c, self.ex.lp(0, p), False).inode
                except OSError:
                    continue
                if i.kind == "f":
                    pick = p
                    break
        if pick is None or self.live_work():
            return
        self.op_touch(0, pick)
        self.advance(12)
        if self.live_work():
            return
        was, new = rows[pick][1], (self.sc.db_rows(0) or {}).get(pick, (0, -1, 0))[1]
        half = self.halflife() * 3600
        f = .5 ** (600 / half)
        self.k.count("x:counting at the end")
        if not (new >= was * f + f - 1e-6):
            self.fail("count", "the daemon does not count accesses anymore: the priority of %s was %r and "
                      "is %r" % (pick, was, new))

    def halflife(self):
        return float(self.ex.setting(0, "halflife"))
