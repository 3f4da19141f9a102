"""C13 what the daemon counts, C14 the daemon's schedule."""
import calendar
import os
import time

from .base import Prop, NAMES, M
from .c03 import orig_name
from ..scen import PROFILE, SEC, Result, Violation

ADJUST = 600            # documented constants of the daemon
LOOP = 3
INF = float("inf")


def epoch(stamp):
    """Seconds of a time stamp in the metadata."""
    if stamp is None:
        return None
    main, _, frac = stamp.partition(".")
    return calendar.timegm(time.strptime(main, "%Y-%m-%dT%H:%M:%S")) + float("0." + (frac or "0"))


class Daemonic(Prop):
    """Histories in which a daemon runs beside everything else."""

    def bind(self, ex):
        super().bind(ex)
        self.wrong = None           # what a thread of the daemon did wrong
        self.d = None               # the daemon (or the last one)
        self.bg = []                # commands beside it
        self.k.child_plan = self.child_plan
        self.busy = []              # every other process: live ones and ended ones
        self.infos = []             # (clock, LastAdjust, LastSync) whenever the metadata changes
        self.last_info = None
        self.mounted = True
        self.jumps = []             # the machine was asleep

    # -- processes -------------------------------------------------------------------------------
    def child_plan(self, parent, child):
        if self.d is not None and parent is self.d["proc"]:
            i = len(self.d["kids"])
            self.d["kids"].append(child)
            plan = self.d["plans"][i] if i < len(self.d["plans"]) else []
            child.plan = [dict(f, left=f.get("times", 1)) for f in plan]
            self.busy.append(child)
            self.k.count("x:daemon syncs")
            try:
                self.kid_started(child)
            except Violation as e:      # in a thread of the daemon
                self.wrong = e

    def kid_started(self, child):
        pass

    def alive(self):
        return self.d is not None and not self.d["proc"].ended

    def op_daemon(self, n, plans=()):
        if self.alive() or not self.ex.ok(n):
            return
        info = self.sc.info(n)
        if info is None or info.get("Status") not in ("initialized",):
            return
        self.n = n
        c = self.sc.client(n)
        p = self.k.spawn_command(c, ["zielend", PROFILE], env=self.sc.env(n))
        self.k.forget()
        self.d = {"proc": p, "plans": [list(x) for x in plans], "kids": [], "start": self.k.world.clock,
                  "last_sync": epoch(info["LastSync"]), "told": None, "lost": not self.mounted}
        self.daemon_started()
        self.advance(1)

    def daemon_started(self):
        pass

    def op_bg(self, n, cmd, args=(), plan=()):
        if not self.ex.ok(n):
            return
        info = self.sc.info(n)
        if info is None or info.get("Status") != "initialized" or cmd not in ("sync", "empty-trash"):
            return
        p = self.sc.start(n, cmd, args, plan)
        self.busy.append(p)
        self.bg.append(p)
        self.ex.evals += 1
        self.advance(.01)

    def op_sig(self, sig):
        if not self.alive():
            return
        self.k.count("fault:daemon " + sig)
        import signal
        p = self.d["proc"]
        self.d["told"] = (sig, self.k.world.clock)
        self.k.signal(p, getattr(signal, "SIG" + sig))
        self.advance(.001)
        self.told(sig)

    def told(self, sig):
        self.advance(12, lambda: self.d["proc"].ended)

    def op_env(self, n, what):
        """Environment changes while processes live."""
        if not self.ex.ok(n):
            return False
        t = self.k.world.clock
        self.sc.world_event(self.sc.client(n), what)
        if what == "unmount":
            self.mounted = False
            if self.d is not None:
                self.d["lost"] = True       # nothing is watched there anymore
        elif what == "mount":
            self.mounted = True
        elif what.startswith("jump"):
            self.jumps.append((t, self.k.world.clock))

    OUT = "/home/u/elsewhere"

    def op_mvout(self, n, rel):
        """A directory is moved to somewhere else, and something in it is opened there."""
        if not self.ex.ok(n):
            return
        c = self.sc.client(n)
        v = self.sc.v
        try:
            if v.lookup(c, self.ex.lp(n, rel), False).inode.kind != "d":
                return
            v.makedirs(c, self.OUT)
            to = self.OUT + "/" + os.path.basename(rel)
            v.rename(c, self.ex.lp(n, rel), to)
        except OSError:
            return
        self.open_all(c, to)

    def op_mvin(self, n, rel):
        """It comes back under another name."""
        if not self.ex.ok(n):
            return
        c = self.sc.client(n)
        v = self.sc.v
        try:
            names = [x for x, _ in v.listdir(c, self.OUT)]
            if not names or v.resolve(c, self.ex.lp(n, rel), False).inode is not None:
                return
            for p, i in list(v.tree(c, self.OUT + "/" + sorted(names)[0]).items()):
                if i.kind == "l":
                    return
            v.rename(c, self.OUT + "/" + sorted(names)[0], self.ex.lp(n, rel))
        except OSError:
            return

    def op_peek(self, n):
        """Someone opens files of the remote directory, which is hidden."""
        if self.ex.ok(n):
            self.open_all(self.sc.client(n), "/home/u/.hidden-remote")

    def open_all(self, c, top):
        v = self.sc.v
        try:
            for p, i in sorted(v.tree(c, top).items()):
                if i.kind == "f" and not p.startswith(".zielen/"):
                    v.open(c, top + "/" + p, os.O_RDONLY)
        except OSError:
            pass

    def op_wait(self, secs):
        self.advance(secs)

    def op_pass(self, secs, preempts=()):
        end = self.k.world.clock + int(secs * SEC)
        first = True
        while True:
            left = (end - self.k.world.clock) / SEC
            if left <= 0:
                break
            self.advance(min(left, 20), preempts=preempts if first else ())
            first = False
            self.look()
        return True

    def look(self):
        """Called every now and then while time passes."""

    def advance(self, secs, done=None, preempts=()):
        def poll():
            self.poll()
            return done is not None and done()
        self.sc.run(poll, until=self.k.world.clock + int(secs * SEC),
                    preempts=[tuple(x) for x in preempts], max_steps=3_000_000)
        self.poll()
        self.check_alive()

    def poll(self):
        n = getattr(self, "n", 0)
        try:
            i = self.sc.v.lookup(self.sc.client(n), self.sc.profile_dir(n) + "/info.json").inode
        except OSError:
            return
        key = (i.ino, i.mtime, i.data)
        if key != self.last_info:
            self.last_info = key
            info = self.sc.info(n)
            if info is None:
                return
            x = (self.k.world.clock, info.get("LastAdjust"), info.get("LastSync"))
            if not self.infos or self.infos[-1][1:] != x[1:]:
                self.infos.append(x)
                self.info_changed()

    def info_changed(self):
        pass

    def check_alive(self):
        if self.wrong:
            raise self.wrong
        if self.d is None:
            return
        p = self.d["proc"]
        errs = getattr(p, "thread_errors", [])
        if errs:
            self.fail("daemon", "a thread of the daemon ends with %s\n%s" % (errs[0], p.tb[-1500:]))
        if p.ended and self.d["told"] is None:
            self.fail("daemon", "the daemon ends by itself: rc=%s\n%s" % (
                p.rc, (p.tb or p.stderr.getvalue())[-1500:]))

    def stop_all(self):
        """Kill everything and check nothing more."""
        for p in self.k.live():
            self.k.kill(p, "SIGKILL")
        self.sc.run(lambda: all(p.ended for p in self.k.procs), max_steps=100_000)
        self.k.forget()
        self.d = None
        self.bg = []

    def op_end(self):
        self.stop_all()

    def live_work(self):
        return [p for p in self.busy if not p.ended]

    # -- generation --------------------------------------------------------------------------------
    def preempts(self, rng):
        if rng.random() < .5:
            return []
        k = rng.choice([1, 2, 5, 15, 40])
        return [[h, rng.randrange(4)] for h in sorted(rng.sample(range(1, rng.choice([60, 300, 2000])),
                                                                 k))]

    def a_plan(self, rng, calls=400):
        """A fault in a sync."""
        x = rng.random()
        at = rng.randint(1, calls)
        if x < .35:
            return []
        if x < .65:
            return [{"at": at, "unit": "s", "do": "stall:%s" % rng.choice([1, 4, 7, 15, 40, 100, 400])}]
        if x < .75:
            return [{"at": at, "unit": "s", "do": "kill"}]
        if x < .85:
            return [{"at": at, "unit": "s", "do": "sig:" + rng.choice(["TERM", "INT", "HUP"])}]
        return [{"at": rng.randint(1, 60), "unit": rng.choice("mxrl"),
                 "do": "errno:" + rng.choice(["EIO", "EACCES", "ENOSPC"])}]


class C13(Daemonic):
    id = "C13"
    quick = 900
    thorough = 20000
    rule = "a run counts if the daemon counted an access in it; counted by configuration, operations " \
           "and preemptions"

    def nontrivial(self, ex):
        return ex.counted > 0

    def cfg(self, rng):
        cfg = self.swarm(rng, 1)
        cfg["gap"] = 0.01
        c = cfg["clients"][0]
        c["interval"] = rng.choice(["1", "2", "5", "30", "600"])
        c["halflife"] = rng.choice(["1", "1", "2", "12", "120"])
        c["limit"] = rng.choice(["10MB", "10MB", "60KiB", "30K", "0K"])
        c["tty"] = False
        return cfg

    def bind(self, ex):
        super().bind(ex)
        ex.counted = 0
        self.base = None            # database rows at the last checkpoint
        self.accesses = []          # (clock, path) by the user since then
        self.marks = []             # (clock, "start" | "stop")
        self.created = {}           # path -> time a user made it, not synced yet
        self.remote_new = {}        # the same for the remote directory
        self.failed = 0             # when a sync last failed
        self.halves = [(0, int(ex.cfg["clients"][0]["halflife"]))]
        self.nlog = 0

    # -- what users do -----------------------------------------------------------------------------
    def op_touch(self, n, rel, how="read", remote=False):
        """Open a file."""
        if not self.ex.ok(n):
            return
        c = self.sc.client(n)
        path = (self.rp if remote else self.lp)(n, rel)
        try:
            x = self.sc.v.lookup(c, path)
            if x.inode.kind != "f":
                return
            real = rel
            l = self.sc.v.lookup(c, path, False)
            far = remote or l.inode.kind == "l"
            if l.inode.kind == "l" and (remote or not self.sc.is_placeholder(n, rel, l.inode.target)):
                return
            if self.sc.v.lookup(c, self.rp(n, rel), False).inode.kind == "l" if far else False:
                return
        except OSError:
            return
        t = self.k.world.clock
        if how == "read":
            try:
                f = self.sc.v.open(c, path, os.O_RDONLY)
            except OSError:
                return
        else:
            if not self.sc.user_write(c, path, 300, 0o644, "write"):
                return
        if not (far and self.d is not None and self.d["lost"]):
            self.accesses.append((t, real))

    def lp(self, n, rel):
        return self.ex.lp(n, rel)

    def rp(self, n, rel):
        return self.ex.rp(n, rel)

    def op_new(self, n, rel, size):
        if rel in (self.base or {}):
            return
        t = self.k.world.clock
        if self.ex.op_write(n, rel, size, 0o644, "write"):
            self.created[rel] = t

    def op_rnew(self, n, rel, size):
        if rel in (self.base or {}) or rel in self.created:
            return
        if self.ex.op_rwrite(n, rel, size) and not self.live_work():
            self.remote_new[rel] = self.k.world.clock

    def op_half(self, n, h):
        self.ex.op_config(n, {"halflife": str(h)})
        self.halves.append((self.k.world.clock, h))

    def daemon_started(self):
        self.marks.append((self.k.world.clock, "start"))

    def told(self, sig):
        super().told(sig)
        self.marks.append((self.d["told"][1], "stop"))

    # -- generation --------------------------------------------------------------------------------
    def gen(self, ex, g, rng):
        g.do_edits(0, rng.randint(2, 7), {"rwrite": 0, "rnew": 0, "rrm": 0, "rrmtree": 0, "rmkdir": 0,
                                          "symlink": .2})
        ex.do(["cmd", 0, "init", []])
        if rng.random() < .5:
            ex.do(["cmd", 0, "sync", []])
        plans = [self.a_plan(rng) for _ in range(rng.choice([0, 0, 3, 10]))]
        ex.do(["daemon", 0, plans])
        ex.do(["pass", 10])
        for _ in range(rng.randint(5, 14)):
            x = rng.random()
            files = sorted(p for p, r in (self.sc.db_rows(0) or {}).items() if not r[0]) \
                if not self.live_work() else sorted(p for p, r in (self.base or {}).items() if not r[0])
            if x < .45 and files:
                some = rng.sample(files, min(len(files), rng.choice([1, 1, 2, 3])))
                for _ in range(rng.choice([1, 2, 3, 6])):
                    for f in some:
                        ex.do(["touch", 0, f, rng.choice(["read", "read", "write"]), rng.random() < .15])
                    ex.do(["pass", rng.choice([.05, .2, 1.3, 1.3, 2.5, 5]), self.preempts(rng)])
            elif x < .57:
                ex.do(["new", 0, g.some_dir() + g.newname(), g.size()])
            elif x < .63:
                ex.do(["rnew", 0, g.some_dir() + g.newname(), g.size()])
            elif x < .68:
                g.do_edits(0, 1, {"write": 0, "empty": 0, "mv": 0, "rnew": 0, "rwrite": .3,
                                  "symlink": 0})
            elif x < .69:
                d = g.some_dir(1).rstrip("/")
                if d and not self.live_work():
                    ex.do(["mvout", 0, d])
            elif x < .7:
                ex.do(["mvin", 0, "in%d" % rng.randrange(100)])
            elif x < .8:
                ex.do(["bg", 0, "sync", [], self.a_plan(rng)])
                ex.do(["pass", rng.choice([.02, .3, 3, 12]), self.preempts(rng)])
            elif x < .86:
                ex.do(["sig", rng.choice(["TERM", "KILL"])])
                ex.do(["pass", rng.choice([.1, 5, 800])])
                ex.do(["daemon", 0, plans])
                ex.do(["pass", rng.choice([2, 10])])
            elif x < .9:
                ex.do(["env", 0, rng.choice(["overflow", "unmount", "jump,%d" % rng.choice([700, 10000])])])
                ex.do(["pass", rng.choice([1, 9])])
                ex.do(["env", 0, "mount"])
                if rng.random() < .6:
                    ex.do(["sig", "TERM"])
                    ex.do(["daemon", 0, plans])
            elif x < .93:
                ex.do(["half", 0, rng.choice([1, 3, 50])])
            ex.do(["pass", rng.choice([.5, 2, 6, 14, 30, 30, 100, 300]), self.preempts(rng)])
        ex.do(["settle"])
        ex.do(["end"])

    def op_settle(self):
        """Wait until everything is over, then look."""
        if not self.alive():
            return
        self.advance(600, lambda: not self.live_work())
        self.op_pass(13)

    # -- the oracle ----------------------------------------------------------------------------------
    def look(self):
        n = 0
        now = self.k.world.clock
        if not self.alive() or self.live_work():
            return
        last = max([p.ended_at for p in self.busy] + [t for t, _ in self.accesses]
                   + [x[0] for x in self.k.inotify.log[-1:]] + [self.d["start"]])
        self.late(now)
        if now - last < 12 * SEC:
            return
        rows = self.sc.db_rows(n)
        if rows is None:
            self.fail("database", "the profile database can't be read while nothing is running")
        self.failed = max([self.failed] + [p.ended_at for p in self.busy if p.rc != 0])
        if self.base is not None:
            self.check(rows, now)
        # start over from here
        self.base = rows
        self.accesses = []
        alive = self.alive()
        self.marks = [(now, "on")] if alive else []
        self.busy = []
        self.jumps = []
        self.since = now
        self.infos = self.infos[-1:]
        self.halves = self.halves[-2:]
        self.k.inotify.log = []
        R = self.sc.remote_tree()
        for p in list(self.created):
            if p in rows or p not in self.sc.local_raw(n):
                del self.created[p]
        self.remote_new = {p: t for p, t in self.remote_new.items() if p not in rows}

    since = 0

    def late(self, now):
        if not self.infos or self.infos[-1][1] is None:
            return
        skew = self.sc.client(0).skew
        due = epoch(self.infos[-1][1]) * SEC - skew + ADJUST * SEC
        ref = max([due, self.d["start"]] + [p.ended_at for p in self.busy])
        if now - ref > 15 * SEC and self.infos[-1][0] < now - 15 * SEC:
            self.fail("late", "priorities were last adjusted %.1f s ago, and the daemon does not do it" % (
                (now - due) / SEC + ADJUST))

    def applied_by(self, t):
        """When the daemon has surely written down an access made at t."""
        x = t + 4 * SEC
        again = True
        while again:
            again = False
            for s, e in self.spans:
                if s <= x and e >= t - 2 * SEC and e + 10 * SEC > x:
                    x = e + 10 * SEC
                    again = True
        return x

    def timeline(self):
        """The events since the last checkpoint: [(time, kind, ..)]."""
        sc = self.sc
        self.spans = [(p.started, p.ended_at) for p in self.busy] + self.jumps
        ev = []                       # (t, path)
        log = []
        pre = [(sc.local_path(0) + "/"), (sc.remote_path(0) + "/")]
        for t, proc, path, isdir, mask in self.k.inotify.log:
            if isdir or not mask & 0x120:
                continue
            for x in pre:
                if path.startswith(x):
                    log.append((t, path[len(x):]))
                    break
        used = set()
        byp = {}
        for i, (t, p) in enumerate(log):
            byp.setdefault(p, []).append((t, i))
        running = []
        up = None
        for t, what in sorted(self.marks):
            if what in ("start", "on"):
                up = t + (int(.9 * SEC) if what == "start" else 0)
            elif up is not None:
                running.append((up, t))
                up = None
        if up is not None:
            running.append((up, INF))
        for t, p in self.accesses:
            if not any(a <= t <= b for a, b in running):
                continue
            m = [x for x in byp.get(p, []) if x[0] >= t and x[1] not in used]
            if m and m[0][0] < t + 5 * SEC:
                used.add(m[0][1])
                ev.append((m[0][0], p))
            else:
                ev.append((t, p))
        for i, (t, p) in enumerate(log):
            if i not in used:
                ev.append((t, p))
        return sorted(ev), running

    def adjustments(self):
        """[(time, factor lo, factor hi)] from the metadata."""
        skew = self.sc.client(0).skew
        out = []
        for a, b in zip(self.infos, self.infos[1:]):
            if a[1] == b[1]:
                continue
            x, y = epoch(a[1]), epoch(b[1])
            if x is not None and y - x < ADJUST:
                self.fail("adjust", "priorities are adjusted %.1f s after the last time" % (y - x))
            t = y * SEC - skew
            hs = [h for i, (w, h) in enumerate(self.halves)
                  if w <= t + SEC and (i + 1 == len(self.halves) or self.halves[i + 1][0] >= t - 15 * SEC
                                       or any(s <= t and e >= t - 15 * SEC and self.halves[i + 1][0] >= s - 15 * SEC
                                              for s, e in self.spans))]
            fs = [.5 ** (ADJUST / (h * 3600)) for h in hs]
            lo, hi = min(fs), max(fs)
            for m, what in self.marks:
                if what == "stop" and -SEC <= m - t <= 4 * SEC:
                    hi = 1.0          # killed between the two
            out.append((t, lo, hi))
        return out

    def walk(self, start, events, adj, optional):
        """All values a priority can have: [lo, hi]."""
        stops = [(t, "stop") for t, w in self.marks if w == "stop"] + \
            [(t, "start") for t, w in self.marks if w == "start"]
        states = {None: (start, start)}      # time of the last counted access -> interval
        n = 0
        items = [(t, 0, None) for t in events] + [(t, 1, (lo, hi)) for t, lo, hi in adj] + \
            [(t, 2, w) for t, w in stops]
        for t, kind, x in sorted(items, key=lambda y: (y[0], y[1])):
            new = {}

            def put(last, lo, hi):
                if last in new:
                    a, b = new[last]
                    lo, hi = min(a, lo), max(b, hi)
                new[last] = (lo, hi)
            if kind == 1:
                for last, (lo, hi) in states.items():
                    put(last, lo * x[0], hi * x[1])
            elif kind == 2:
                for last, (lo, hi) in states.items():
                    put(None, lo, hi)
            else:
                n += 1
                by = self.applied_by(t)
                # adjustments and stops that come before it is surely written down
                plus_lo = 1.0
                for s, w in stops:
                    if w == "stop" and t - SEC <= s <= by:
                        plus_lo = 0.0
                inc_lo = plus_lo
                inc_hi = 1.0
                for a, lo, hi in adj:
                    # the walk multiplies by every later adjustment; undo that for those that may
                    # come before the access is written down
                    if t <= a <= by:
                        inc_hi = inc_hi / lo
                for last, (lo, hi) in states.items():
                    sure = last is None or t > last + 1.02 * SEC
                    never = last is not None and t < last + .98 * SEC
                    if not never:
                        put(t, lo + inc_lo, hi + inc_hi)
                    if not sure or optional(t) or inc_lo == 0:
                        put(last, lo, hi)
            states = new
        return (min(lo for lo, hi in states.values()), max(hi for lo, hi in states.values()), n)

    def check(self, rows, now):
        ex = self.ex
        events, running = self.timeline()
        adj = self.adjustments()
        syncs = [p for p in self.busy if "sync" in p.argv]
        done = [p for p in syncs if p.rc == 0]
        files = {p: r[1] for p, r in rows.items() if not r[0]}
        old = {p: r[1] for p, r in self.base.items() if not r[0]}
        byp = {}
        for t, p in events:
            byp.setdefault(p, []).append(t)
        if not syncs and set(rows) != set(self.base):
            self.fail("rows", "the daemon changed which files are recorded: %s" % sorted(
                set(rows) ^ set(self.base)))
        inflate = ex.setting(0, "inflate") == "yes"
        hi_max = max([v for v in old.values()] + [0])
        lo_max = 0
        for p, v in old.items():
            lo, hi, _ = self.walk(v, [], adj, lambda t: True)
            hi_max = max(hi_max, v + 2 * len(byp.get(p, [])))
            if p in rows and not any(orig_name(b) == p for b in rows):
                lo_max = max(lo_max, lo)
        if len(syncs) > 1:
            hi_max += 2 * len(events)
        eps = 1e-6
        bad = []
        for p in sorted(files):
            v = files[p]
            ts = byp.get(p, [])
            if p in old:
                gone = [b for b in rows if orig_name(b) == p and b not in self.base]
                if len(done) > 1 or gone:
                    lo, hi, _ = self.walk(old[p], ts, adj, lambda t: bool(done))
                    lo, hi = 0, max(hi, hi_max + len(ts))
                else:
                    lo, hi, n = self.walk(old[p], ts, adj, lambda t: False)
                    self.k.count("x:intervals exact" if hi - lo < 1e-9 else "x:intervals wide")
                    ex.counted += bool(n)
                if not lo - eps <= v <= hi + eps:
                    bad.append("%s: %r, which should be between %r and %r (it was %r; opened at %s)" % (
                        p, v, lo, hi, old[p], ["%.2f" % ((t - now) / SEC) for t in ts]))
            else:
                # after the sync that added it
                f = 1.0
                for t, lo, hi in adj:
                    f *= lo
                lo, hi = 0, (hi_max if inflate else 0) + 2 * len(ts)
                if inflate and p in self.created and p not in self.remote_new and not any(
                        orig_name(b) == p for b in rows) and orig_name(p) is None:
                    lo = lo_max * f
                    if lo > 0:
                        self.k.count("x:inflated")
                elif self.remote_new.get(p, 0) > self.failed and p not in self.created:
                    hi = 2 * len(ts)
                if not lo - eps <= v <= hi + eps:
                    bad.append("new file %s: %r, which should be between %r and %r" % (p, v, lo, hi))
        for p, r in rows.items():
            if r[0]:
                kids = [rows[q][1] for q in rows if os.path.dirname(q) == p]
                if kids:
                    if abs(sum(kids) - r[1]) > eps * max(1, abs(r[1])):
                        bad.append("directory %s: %r, but what is in it adds up to %r" % (
                            p, r[1], sum(kids)))
        if bad:
            self.fail("count", "priorities after %.1f s with %d adjustments (%s), %d accesses and "
                      "syncs %s:\n  %s" % (
                          (now - self.since) / SEC, len(adj),
                          ", ".join("%.2f" % ((t - now) / SEC) for t, lo, hi in adj), len(events),
                          ["%.2f..%.2f rc=%s" % ((p.started - now) / SEC, (p.ended_at - now) / SEC, p.rc)
                           for p in self.busy], "\n  ".join(bad)))
