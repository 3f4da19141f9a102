"""C15 the metadata of a profile."""
import json
import os

from .base import Prop, NAMES, M
from .c13 import Daemonic, epoch, ADJUST
from ..scen import SEC, PROFILE, Violation

KEYS = ("Status", "LastSync", "LastAdjust", "ID")
NEXT = {                    # state -> those it may change to, and by what
    "partial": {"initialized": "init", "resetting": "reset"},
    "initialized": {"resetting": "reset"},
    "resetting": {"removed": "reset"},
    "removed": {},
}
PLACES = ("info.json", "profiles/", "local.db")


class C15(Daemonic):
    id = "C15"
    quick = 600
    thorough = 20000
    rule = "a run counts if the metadata was changed at least three times in it; counted by configuration, " \
           "operations and preemptions"

    def nontrivial(self, ex):
        return ex.changes >= 3

    def cfg(self, rng):
        cfg = self.swarm(rng, rng.choice([1, 1, 1, 2]))
        cfg["gap"] = 0.01
        for c in cfg["clients"]:
            c["tty"] = False
            c["skew"] = rng.choice([0, 0, 0, .4, -.4])
        c = cfg["clients"][0]
        c["interval"] = rng.choice(["1", "2", "5", "30", "600"])
        c["halflife"] = rng.choice(["1", "12", "120"])
        return cfg

    def bind(self, ex):
        super().bind(ex)
        ex.changes = 0
        self.n = 0
        nc = len(ex.cfg["clients"])
        self.meta = [None] * nc             # as of now
        self.seen = [None] * nc             # the file and its content
        self.wrote = {}                     # process -> faults it had had when it stored a sync
        self.calls = {}                     # (process, place) -> calls there
        self.usual = {}                     # (command, place) -> calls there when it completes
        self.k.on_step = self.step

    # -- every instant ------------------------------------------------------------------------------
    def step(self, k, p, name, path, mut):
        for n in range(len(self.meta)):
            self.observe(n)
        path = str(path)
        for key in PLACES:
            if key in path:
                self.calls[p, key] = self.calls.get((p, key), 0) + 1
        if mut and p in self.wrote and not self.wrong:
            n = NAMES.index(p.client.name)
            path = os.path.normpath(path)
            for d in (self.sc.local_path(n), self.sc.remote_path(n)):
                if path.startswith(d + "/") and not path.startswith(d + "/.zielen"):
                    self.wrong = Violation("early", "%s %s stores the time of the sync, then changes %s" % (
                        p.client.name, " ".join(p.argv[1:]), path))

    def observe(self, n):
        c = self.sc.client(n)
        try:
            i = self.sc.v.lookup(c, self.sc.profile_dir(n) + "/info.json").inode
        except OSError:
            i = None
        key = (None, None) if i is None else (i.ino, i.data)
        if key == self.seen[n]:
            return
        self.seen[n] = key
        try:
            self.changed(n, i)
        except Violation as e:
            self.wrong = self.wrong or e

    def wall(self, n, t):
        return t + int(self.ex.cfg["clients"][n]["skew"] * SEC)

    def changed(self, n, i):
        old = self.meta[n]
        p = self.k.acting
        cmd = ("daemon" if "zielend" in p.argv[0] else next(
            (a for a in p.argv[1:] if not a.startswith("-")), "?")) if p else "?"
        who = "%s %s" % (NAMES[n], cmd)
        self.k.count("x:changes by " + cmd)
        if i is None:
            if old is not None and cmd != "reset":
                self.fail("gone", "%s: the metadata is gone" % who)
            self.meta[n] = None
            return
        try:
            new = json.loads(i.data.decode())
            assert all(key in new for key in KEYS), "keys are missing"
            for key in ("LastSync", "LastAdjust"):
                if new[key] is not None:
                    epoch(new[key])
        except Exception as e:
            self.fail("unreadable", "%s: the metadata can't be read (%s): %r" % (who, e, i.data[:120]))
        if new == old:
            return
        self.ex.changes += 1
        self.meta[n] = new
        if old is None:
            if cmd != "init" or new["Status"] != "partial" or new["LastSync"] is not None:
                self.fail("change", "%s: metadata %s appears" % (who, new))
            if any(m is not None and m["ID"] == new["ID"] for j, m in enumerate(self.meta) if j != n):
                self.fail("change", "%s: the identity of another profile" % who)
            return
        diff = sorted(key for key in set(old) | set(new) if old.get(key) != new.get(key))
        now = self.wall(n, self.k.world.clock) / SEC
        start = self.wall(n, p.started) / SEC
        for key in diff:
            a, b = old.get(key), new.get(key)
            what = "%s changes %s from %s to %s" % (who, key, a, b)
            if key == "Status":
                if NEXT.get(a, {}).get(b) != cmd:
                    self.fail("change", what)
            elif key == "LastSync":
                if cmd not in ("sync", "init") or b is None:
                    self.fail("change", what)
                if not start - .01 <= epoch(b) <= now + .01:
                    self.fail("time", "%s; it was started %.3f s before and it is %.3f s later" % (
                        what, epoch(b) - start, now - epoch(b)))
                if a is not None and epoch(a) > epoch(b):
                    self.fail("time", "%s, backwards" % what)
                if cmd == "sync":
                    self.wrote[p] = len(p.fired)
            elif key == "LastAdjust":
                if cmd not in ("daemon", "init") or b is None:
                    self.fail("change", what)
                if not start - .01 <= epoch(b) <= now + .01:
                    self.fail("time", "%s: a time when it was not running" % what)
                if a is not None and cmd == "daemon" and epoch(b) < epoch(a) + ADJUST - .01:
                    self.fail("time", "%s, after %.1f s" % (what, epoch(b) - epoch(a)))
            else:
                self.fail("change", what)
        if cmd == "init" and "Status" not in diff or cmd == "init" and new["LastSync"] is None:
            self.fail("change", "%s leaves %s" % (who, new))

    # -- ends of commands -----------------------------------------------------------------------------
    def ended(self, n, r, p):
        """A command has ended (p: its process)."""
        self.observe(n)
        if self.wrong:
            raise self.wrong
        if "sync" in r.argv and not any(a in r.argv for a in ("init", "reset")):
            if p in self.wrote:
                # (the disk may be too full to store the records after it)
                if r.rc != 0 and not r.killed and len(r.fired) == self.wrote[p] and not (
                        self.full and "disk is full" in r.err + r.tb):
                    self.fail("failed", "%s: a sync that fails stores the time of the sync" % r.brief())
            elif r.rc == 0 and not r.killed:
                self.fail("stored", "%s: a completed sync does not store its time" % r.brief())
        if r.rc == 0 and not r.killed:
            for cmd in {"sync", "empty-trash"} & set(r.argv):
                for key in PLACES:
                    self.usual[cmd, key] = self.calls.get((p, key), 0)
        rows = self.sc.db_rows(n)
        if self.meta[n] is not None and self.meta[n]["Status"] == "initialized":
            if rows is None:
                self.fail("unreadable", "after %s the records can't be read" % r.brief())

    def after(self, n, cmd, args, plan, ctx, r):
        p = self.k.acting
        if cmd == "list":
            if r.rc != 0 and not r.fired:
                self.expect_ok(r, "list")
        self.ended(n, r, p)

    def check_alive(self):
        if self.wrong:
            raise self.wrong
        self.ex.evals += 0
        from ..scen import Result
        for p in [p for p in self.bg if p.ended]:
            self.bg.remove(p)
            self.ended(NAMES.index(p.client.name), Result(p), p)
        if self.d is not None:
            for p in [p for p in self.d["kids"] if p.ended and p not in self.checked]:
                self.checked.append(p)
                self.ended(NAMES.index(p.client.name), Result(p), p)
            p = self.d["proc"]
            if p.ended and self.d["told"] is None and not p.fired and not self.full:
                super().check_alive()

    full = False

    def daemon_started(self):
        self.checked = []
        p = self.d["proc"]
        p.plan = [dict(f, left=f.get("times", 1)) for f in self.dplan]

    def op_daemon(self, n, plans=(), dplan=()):
        self.dplan = dplan
        super().op_daemon(n, plans)

    def op_env(self, n, what):
        super().op_env(n, what)
        if self.ex.ok(n) and what.startswith("full"):
            self.full = True

    def told(self, sig):
        self.advance(12, lambda: self.d["proc"].ended)

    # -- generation ---------------------------------------------------------------------------------
    def info_plan(self, rng):
        """Something happens while the metadata is read or written."""
        do = rng.choice(["stall:2", "stall:4.5", "stall:7", "stall:20", "kill", "torn", "errno:ENOSPC",
                         "errno:EIO", "sig:TERM"])
        f = {"at": 1, "unit": "s", "path": rng.choice(["info.json", "info.json", "profiles/", "local.db"]),
             "nth": rng.choice([1, 1, 2, 3, 4, 5, 6, 8, 10, 14, 20, 40]), "do": do}
        if do[0] != "s" and rng.random() < .7:
            f["unit"] = "m"
            f["nth"] = rng.choice([1, 1, 2, 3, 4])
        return [f]

    def some_plan(self, rng):
        return self.info_plan(rng) if rng.random() < .5 else self.a_plan(rng)

    def gen(self, ex, g, rng):
        nc = len(ex.cfg["clients"])
        g.do_edits(0, rng.randint(2, 6), {"rwrite": 0, "rnew": 0, "rrm": 0, "rrmtree": 0, "rmkdir": 0})
        for n in range(nc):
            a = ["-a"] if n else []
            for _ in range(2):
                if rng.random() < .4:
                    ex.do(["cmd", n, "init", a, rng.choice([self.some_plan(rng),
                                                           [{"at": rng.randint(1, 150), "unit": "m",
                                                             "do": rng.choice(["kill", "torn"])}]])])
            ex.do(["cmd", n, "init", a])
        for _ in range(rng.randint(0, 3)):
            g.do_edits(0, rng.randint(0, 3), {"symlink": .2})
            if rng.random() < .15:
                ex.do(["env", 0, "full,A,%d" % rng.choice([0, 0, 1, 2])])
            ex.do(["cmd", rng.randrange(nc), rng.choice(["sync", "sync", "sync", "empty-trash"]), [],
                   self.some_plan(rng)])
            ex.do(["env", 0, "unfull,A"])
        if rng.random() < .75:
            self.gen_daemon(ex, g, rng, nc)
        if rng.random() < .3:
            n = rng.randrange(nc)
            for _ in range(rng.choice([1, 2])):
                ex.do(["cmd", n, "reset", rng.choice([[], ["-k"], ["-n"]]), self.some_plan(rng)])
            ex.do(["cmd", n, "reset", []])
            if rng.random() < .5:
                ex.do(["cmd", n, "init", [] if nc == 1 else ["-a"]])

    def duel(self, ex, rng):
        """An adjustment becomes due while a command is held up."""
        m = self.meta[0]
        if not self.alive() or m is None or not m["LastAdjust"]:
            return
        left = epoch(m["LastAdjust"]) + ADJUST - self.wall(0, self.k.world.clock) / SEC
        if left < 5:
            return
        cmd = rng.choice(["sync", "sync", "empty-trash"])
        place = rng.choice(["info.json", "info.json", "profiles/", "local.db"])
        calls = self.usual.get((cmd, place), 12)
        nth = rng.randint(1, calls + 1) if rng.random() < .5 else max(1, calls + 1 - rng.randint(0, 8))
        wait = rng.choice([1, 4, 6])
        ex.do(["pass", round(left - rng.uniform(0, wait), 2)])
        ex.do(["bg", 0, cmd, [], [{"at": 1, "unit": "s", "path": place, "nth": nth,
                                   "do": "stall:%s" % wait}]])
        ex.do(["pass", rng.choice([.3, 3, 12])])

    def gen_daemon(self, ex, g, rng, nc):
        def start():
            dplan = []
            for _ in range(rng.choice([0, 1, 1, 2])):
                dplan += self.info_plan(rng)
                # the first calls are those of the start
                dplan[-1]["at"] = rng.choice([1, 100, 1000, 3000])
            ex.do(["daemon", 0, [self.some_plan(rng) for _ in range(rng.choice([0, 2, 6, 12]))], dplan])
            # the next adjustment becomes due during what follows
            m = self.meta[0]
            if m is not None and m["LastAdjust"] and rng.random() < .7:
                left = epoch(m["LastAdjust"]) + ADJUST - self.wall(0, self.k.world.clock) / SEC
                if left > 10:
                    ex.do(["pass", round(left - rng.uniform(0, 8), 2)])
        start()
        for _ in range(rng.randint(3, 8)):
            x = rng.random()
            if x < .25:
                self.duel(ex, rng)
            elif x < .4:
                g.do_edits(0, 1, {"symlink": .2})
            elif x < .6:
                ex.do(["bg", 0, rng.choice(["sync", "sync", "sync", "empty-trash"]), [],
                       self.some_plan(rng)])
                ex.do(["pass", rng.choice([.02, .3, 3, 6]), self.preempts(rng)])
            elif x < .66:
                if not self.live_work():
                    ex.do(["sig", rng.choice(["TERM", "KILL", "INT"])])
                    ex.do(["pass", rng.choice([.1, 30, 650])])
                    start()
            elif x < .72 and nc > 1:
                ex.do(["bg", 1, "sync", [], self.a_plan(rng, 250)])
            elif x < .76:
                ex.do(["env", 0, "full,A,%d" % rng.choice([0, 1])])
                ex.do(["pass", rng.choice([5, 610]), self.preempts(rng)])
                ex.do(["env", 0, "unfull,A"])
            if not self.alive():
                start()
            ex.do(["pass", rng.choice([.3, 3, 6, 20, 70, 590, 610]), self.preempts(rng)])
        ex.do(["end"])
