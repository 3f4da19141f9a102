"""C09 deleting a placeholder trashes the remote file; C10 purging the trash."""
import os
import re

from .base import Prop, NAMES, M
from ..ops import DIRS, FILES, users
from ..scen import SEC

DAY = 86400
NOREMOTE = {"rwrite": 0, "rnew": 0, "rrm": 0, "rrmtree": 0, "rmkdir": 0}


def named_after(name, path):
    """Is this the name, or a numbered name, of a deleted path in the trash?"""
    base = path.rsplit("/", 1)[-1]
    if name == base:
        return True
    stem = os.path.splitext(base)[0]
    return re.fullmatch(re.escape(stem) + r".*\d+.*", name, re.S) is not None


def pair(wanted, have):
    """Match each wanted (path, tree) with a different entry {name: tree}. -> unmatched, unused."""
    got = {}

    def place(i, seen):
        p, t = wanted[i]
        for name in sorted(have, key=lambda x: (x != p.rsplit("/", 1)[-1], x)):
            if name in seen or have[name] != t or not named_after(name, p):
                continue
            seen.add(name)
            if name not in got or place(got[name], seen):
                got[name] = i
                return True
        return False
    for i in range(len(wanted)):
        place(i, set())
    done = set(got.values())
    return [w for i, w in enumerate(wanted) if i not in done], [x for x in have if x not in got]


class Trashing(Prop):
    def trash(self):
        """{name: {relative path: entry}} of the trash ("" is the entry itself)."""
        out = {}
        for p, i in self.sc.trash_tree().items():
            top, _, rest = p.partition("/")
            out.setdefault(top, {})[rest] = self.sc._entry(i)
        return out

    @staticmethod
    def sub(tree, p):
        out = {"": tree[p]}
        for q, e in tree.items():
            if q.startswith(p + "/"):
                out[q[len(p) + 1:]] = e
        return out

    def op_tput(self, n, name, kind, size=20, days=0, mode=0o644):
        """The user puts something into the trash."""
        sc, v = self.sc, self.sc.v
        c = sc.client(n)
        d = sc.remote_path(n) + "/.zielen/Trash"
        path = d + "/" + name
        try:
            if v.lexists(c, path):
                return False
            if kind == "f":
                if not sc.user_write(c, path, size, mode):
                    return False
            elif kind == "d":
                v.makedirs(c, path + "/deep/er")
                sc.user_write(c, path + "/deep/f", size, mode)
                if days % 2:
                    v.symlink(c, "nothing", path + "/deep/l")
            elif kind == "e":
                v.makedirs(c, path)
            else:
                v.symlink(c, {"ldir": sc.remote_path(n), "lfile": "../../a", "lnone": "nowhere",
                              "lself": ".", "lout": "/home/u/diary", "lodir": "/home/u"}[kind], path)
            if days:
                v.utime(c, path, (self.now() - days * DAY * SEC,) * 2, False)
        except OSError:
            return False
        return True

    def now(self):
        return self.k.world.clock

    def op_old(self, n, rel, days):
        """A file copied with its old modification time (before it was ever synced)."""
        base = self.sc.st["base"].get(NAMES[n], {})
        if rel in base or rel in self.sc.remote_tree():
            return False
        c = self.sc.client(n)
        try:
            if self.sc.v.lookup(c, self.ex.lp(n, rel), False).inode.kind != "f":
                return False
            self.sc.v.utime(c, self.ex.lp(n, rel), (self.now() - days * DAY * SEC,) * 2, False)
        except OSError:
            return False
        return True


class C09(Trashing):
    id = "C09"
    quick = 1300
    thorough = 40000
    rule = "a run counts if a placeholder was deleted in it; counted by configuration and operations"

    def nontrivial(self, ex):
        return self.hits > 0

    def cfg(self, rng):
        cfg = self.swarm(rng, rng.choice([1, 1, 2]))
        for c in cfg["clients"]:
            c["limit"] = rng.choice(["0K", "0K", "30K", "40KB", "60KiB", "100K", "10MB"])
            c["period"] = rng.choice(["30", "-1"])
            c["trash"] = rng.choice(["yes", "yes", "yes", "no"])
        return cfg

    def bind(self, ex):
        super().bind(ex)
        self.hits = 0
        ex.sc.st["seen"] = {}         # client -> paths at which there was a placeholder
        ex.sc.st["raced"] = {}
        ex.sc.st["dirty"] = {}        # client -> a sync was interrupted since the last completed one

    # -- oracle ----------------------------------------------------------------------------------
    def note_seen(self, n, fresh):
        st = self.sc.st
        now = {p: True for p, e in self.sc.local_tree(n).items() if e[0] == "P"}
        if not fresh:
            now = dict(st["seen"].get(NAMES[n], {}), **now)
        st["seen"] = dict(st["seen"], **{NAMES[n]: now})
        st["dirty"] = dict(st["dirty"], **{NAMES[n]: {"x": True} if not fresh else {}})
        if not fresh:
            self.race(n)
        else:
            st["raced"] = dict(st["raced"], **{NAMES[n]: {}})

    def race(self, n):
        """When a sync is repeated, others may take what it synced before for changed meanwhile."""
        self.sc.st["raced"] = {x: {"x": True} for x in NAMES[:len(self.ex.cfg["clients"])] if x != NAMES[n]}

    def before(self, n, cmd, args, plan):
        if cmd == "sync":
            b = self.sync_before(n)
            b["trash"] = self.trash()
            b["seen"] = set(self.sc.st["seen"].get(NAMES[n], {}))
            b["raced"] = bool(self.sc.st["raced"].get(NAMES[n]))
            b["dirty"] = bool(self.sc.st["dirty"].get(NAMES[n]))
            return b
        return None

    def after(self, n, cmd, args, plan, ctx, r):
        if cmd == "empty-trash":
            return
        if r.killed or (plan and r.rc != 0):
            self.note_seen(n, False)
            if cmd == "sync":
                self.keeps(ctx, "an interrupted sync of " + NAMES[n])
            return
        self.expect_ok(r)
        if cmd == "sync":
            self.check_trash(n, ctx)
            if not ctx["dirty"] and not ctx["raced"]:
                self.check_merge(n, ctx)
        self.completed(n)
        self.note_seen(n, True)

    def keeps(self, b, what):
        have = self.trash()
        for name, t in sorted(b["trash"].items()):
            if have.get(name) != t:
                self.fail("overwritten", "%s: %s was in the trash and is now %s" % (
                    what, name, "gone" if name not in have else "something else"))
        return {x: t for x, t in have.items() if x not in b["trash"]}

    def check_trash(self, n, b):
        what = "a completed sync of " + NAMES[n]
        new = self.keeps(b, what)
        if self.ex.setting(n, "trash") == "no":
            if new:
                self.fail("trashed", "%s moves %s to the trash although it is disabled" % (
                    what, ", ".join(sorted(new))))
            return
        m = self.merge_of(b)
        dead = {p for p in b["R"] if p not in m.tree and p in b["base"] and p not in b["L"]}
        if b["raced"]:
            dead -= set(self.sc.remote_tree())
        top = {p for p in dead if os.path.dirname(p) not in dead}
        if b["dirty"]:
            # something of an unfinished sync may be taken for known, or a directory for more than it was
            datas = [e[1] for t in new.values() for e in t.values() if e[0] == "f"]
            for p in sorted(dead & b["seen"]):
                e = b["R"][p]
                if e[0] == "f" and e[1] and e[1] not in datas:
                    self.fail("not-trashed", "%s: the placeholder %s was deleted, but its remote file "
                              "%s is not in the trash" % (what, p, M.show(e)))
                self.hits += 1
            return
        must, may = [], []
        for p in sorted(top):
            sub = self.sub(b["R"], p)
            below = [p] + [p + "/" + q for q in sub if q]
            if any(q in b["seen"] for q in below):
                must.append((p, sub))
                self.hits += 1
            elif any(e[0] == "d" and not any(r2.startswith(q + "/") for r2 in b["R"]) for q, e in
                     [(q, b["R"][q]) for q in below]) or any(q.startswith(p + "/") for q in b["seen"]):
                # an empty directory, or a placeholder of what is gone, is as good as a placeholder
                may.append((p, sub))
        lost, rest = pair(must, new)
        for p, sub in lost:
            self.fail("not-trashed", "%s: the placeholder %s was deleted, but %s is not in the trash: %s" % (
                what, p, M.show(sub[""]), sorted(new)))
        _, rest = pair(must + may, new)
        if rest:
            self.fail("trashed", "%s moves %s to the trash, which is not what placeholders stood for" % (
                what, ", ".join("%s (%s)" % (x, M.show(new[x].get(""))) for x in sorted(rest))))

    # -- runs --------------------------------------------------------------------------------------
    def gen(self, ex, g, rng):
        if rng.random() < .5:         # many equal names
            names = rng.sample(FILES, 2)
            g.some_path = lambda: g.some_dir() + rng.choice(names)
        self.start_clients(ex, g, rng, rng.randint(4, 14), weights={"symlink": .2, "rm": 1, "rmtree": .1})
        nc = len(ex.cfg["clients"])
        w = {"rm": 7, "rmtree": 1.5, "rwrite": .5, "rrm": .3, "rrmtree": .05}
        for _ in range(rng.randint(3, 7)):
            for n in range(nc):
                if rng.random() < .8:
                    g.do_edits(n, rng.randint(0, 5), w)
            if rng.random() < .3:
                n = rng.randrange(nc)
                es = g.local_entries(n, rng.choice(["P", "P", "fP"]))
                for p in rng.sample(es, min(len(es), rng.randint(2, 8))):
                    ex.do(["rm", n, p])
            if rng.random() < .25:
                ps = [p.rsplit("/", 1)[-1] for p in self.sc.remote_tree()]
                name = rng.choice(ps + FILES)
                if rng.random() < .5:
                    s, e = os.path.splitext(name)
                    name = "%s(%d)%s" % (s, rng.randint(1, 3), e)
                ex.do(["tput", rng.randrange(nc), name, rng.choice("fffde"), 20])
            n = rng.randrange(nc)
            x = rng.random()
            if x < .2:
                ex.do(["config", n, {"limit": rng.choice(["0K", "30K", "10MB", "100K"])}])
            elif x < .3:
                ex.do(["config", n, {"trash": rng.choice(["yes", "no"])}])
            elif x < .35:
                ex.do(["cmd", n, "empty-trash", []])
            elif x < .42:
                ex.do(["wait", rng.choice([100, 90000])])
            for n in rng.sample(range(nc), rng.randint(1, nc)):
                if rng.random() < .2:
                    r = self.dry(ex, n)
                    k = rng.choice(["cut", "cut", "cmd"])
                    ex.do([k, n] + (["sync", []] if k == "cmd" else []) + [[self.plan_at(rng, r.counts)]])
                    if k == "cmd":
                        g.do_edits(n, rng.randint(1, 3), {"rm": 12})
                        ex.do(["cmd", n, "sync", []])
                else:
                    ex.do(["cmd", n, "sync", []])

    def dry(self, ex, n):
        with ex.branch():
            return self.sc.cmd(n, "sync")

    def plan_at(self, rng, counts):
        if rng.random() < .7:
            return {"at": rng.randint(1, max(1, counts.get("m", 1))), "unit": "m",
                    "do": rng.choice(["kill", "kill", "torn"])}
        return {"at": rng.randint(1, max(1, counts.get("s", 1))), "unit": "s",
                "do": rng.choice(["kill", "sig:TERM", "sig:INT"])}

    def op_cut(self, n, plan):
        """A sync that is interrupted and run again at once has the same effect on the trash."""
        b = self.before(n, "sync", [], plan)
        r = self.ex.op_cmd(n, "sync", [], plan, {"quiet": True})
        if r is None:
            return
        if r.killed or r.rc != 0:
            self.race(n)
            self.k.world.clock += int(self.ex.gap * SEC)
            r = self.ex.op_cmd(n, "sync", [], [], {"quiet": True})
        self.expect_ok(r)
        self.check_trash(n, b)
        self.completed(n)
        self.note_seen(n, True)


class C10(Trashing):
    id = "C10"
    quick = 1300
    thorough = 40000
    rule = "a run counts if something was in the trash during it; counted by configuration and operations"

    def nontrivial(self, ex):
        return self.hits > 0

    def cfg(self, rng):
        cfg = self.swarm(rng, rng.choice([1, 1, 2]))
        for c in cfg["clients"]:
            c["limit"] = rng.choice(["0K", "0K", "30K", "10MB"])
            c["period"] = rng.choice(["30", "1", "1", "0", "-1", "365"])
            c["trash"] = rng.choice(["yes", "yes", "yes", "no"])
        return cfg

    def bind(self, ex):
        super().bind(ex)
        self.hits = self.cuts = 0
        ex.sc.st["entered"] = {}       # inode number of a top-level entry -> [earliest, latest]

    def inos(self):
        """{inode number: (name, tree)} of the top-level entries in the trash."""
        t = self.trash()
        return {i.ino: (p, t[p]) for p, i in self.sc.trash_tree().items() if "/" not in p}

    def note(self, start, end):
        """What appeared in the trash did so between these times."""
        old = self.sc.st["entered"]
        self.sc.st["entered"] = {ino: old.get(ino, [start, end]) for ino in self.inos()}

    def op_tput(self, n, name, kind, size=20, days=0, mode=0o644):
        x = super().op_tput(n, name, kind, size, days, mode)
        self.note(self.now(), self.now())
        return x

    def op_tmv(self, n, rel, name):
        """The user moves something from the remote directory into the trash."""
        c = self.sc.client(n)
        b = self.sc.remote_path(n)
        try:
            if self.sc.v.lexists(c, b + "/.zielen/Trash/" + name):
                return False
            if not all(users(p) for p in self.sc.v.tree(c, b + "/" + rel)):
                return False              # what an interrupted sync left there
            self.sc.v.rename(c, b + "/" + rel, b + "/.zielen/Trash/" + name)
        except OSError:
            return False
        self.note(self.now(), self.now())
        return True

    def op_near(self, n, secs):
        """Wait until the youngest or oldest entry is as old as the period of n, and some seconds."""
        P = int(self.ex.setting(n, "period")) * DAY * SEC
        es = sorted(self.sc.st["entered"].values())
        if P < 0 or not es:
            return
        e = es[0] if secs % 2 else es[-1]
        self.k.world.clock = max(self.k.world.clock, e[1] + P + int(secs * SEC))

    def before(self, n, cmd, args, plan):
        b = {"t0": self.now(), "trash": self.inos()}
        if cmd == "sync":
            b.update(self.sync_before(n))
        else:
            b["all"] = self.trees(trash=False)
            b["dirs"] = self.profile_files()
        return b

    def profile_files(self):
        out = {}
        for n in range(len(self.ex.cfg["clients"])):
            for p, i in self.sc.v.tree(self.sc.client(n), self.sc.conf_dir(n)).items():
                if i.kind == "f" and ("config" in p or "exclude" in p or "info" in p):
                    out[NAMES[n] + p] = i.data
        return out

    def after(self, n, cmd, args, plan, ctx, r):
        have = self.inos()
        t0, t1 = ctx["t0"], self.now()
        cut = r.killed or (plan and r.rc != 0)
        if not cut:
            self.expect_ok(r)
        if cmd == "empty-trash":
            if not cut and have:
                self.fail("left", "empty-trash leaves %s in the trash" % ", ".join(
                    sorted(x for x, _ in have.values())))
            d = self.diff_state(ctx["all"], self.trees(trash=False))
            d += [p for p in sorted(set(ctx["dirs"]) | set(x for x in self.profile_files()))
                  if ctx["dirs"].get(p) != self.profile_files().get(p)]
            if d:
                self.fail("elsewhere", "empty-trash changes something else:\n  " + "\n  ".join(d))
        elif cmd == "sync":
            self.aged(n, ctx, have, t0, t1, cut)
            if not cut:
                if not self.cuts:
                    self.check_merge(n, ctx)
                else:
                    self.check_mirror(n)
            else:
                self.cuts += 1
        if cmd in ("init", "sync") and not cut:
            self.completed(n)
        if cut:                  # what was partly removed is not the same any more
            for ino, x in ctx["trash"].items():
                if have.get(ino, x) != x:
                    self.sc.st["entered"][ino] = [self.sc.st["entered"][ino][0], t1]
        self.note(t0, t1)

    def aged(self, n, ctx, have, t0, t1, cut):
        P = int(self.ex.setting(n, "period"))
        slack = 2 * SEC
        for ino, (name, tree) in sorted(ctx["trash"].items()):
            e = self.sc.st["entered"][ino]
            self.hits += 1
            here = ino in have
            young = P < 0 or t1 - e[0] < P * DAY * SEC - slack
            old = P >= 0 and t0 - e[1] >= P * DAY * SEC + (slack if P else 0)
            if here and cut and not young:
                continue          # partly removed
            if here and have[ino] != (name, tree):
                self.fail("changed", "a sync changes %s in the trash" % name)
            if young and not here:
                self.fail("early", "a sync of %s removes %s (%s), which has been in the trash for "
                          "%.5f days, with a period of %d days" % (
                              NAMES[n], name, M.show(tree[""]), (t1 - e[0]) / SEC / DAY, P))
            if old and here and not cut:
                self.fail("late", "a sync of %s leaves %s (%s), which has been in the trash for "
                          "%.5f days, with a period of %d days" % (
                              NAMES[n], name, M.show(tree[""]), (t0 - e[1]) / SEC / DAY, P))

    def gen(self, ex, g, rng):
        self.start_clients(ex, g, rng, weights={"symlink": .2})
        nc = len(ex.cfg["clients"])
        w = {"rm": 6, "rmtree": 1.5, "rwrite": .3, "rrm": .3, "rrmtree": .05}
        for _ in range(rng.randint(3, 8)):
            n = rng.randrange(nc)
            for _ in range(rng.randint(0, 3)):
                op = g.edit(n, w)
                if op is None:
                    continue
                ex.do(op)
                if rng.random() < .3:
                    p = g.some_dir() + g.newname()
                    ex.do(["write", n, p, g.size(), 0o644, "write"])
                    ex.do(["old", n, p, rng.choice([1, 40, 4000])])
            for _ in range(rng.randint(0, 3) if rng.random() < .5 else 0):
                name = rng.choice(FILES + DIRS + [g.newname("t")])
                ex.do(["tput", n, name, rng.choice(["f", "f", "d", "e", "ldir", "lfile", "lnone", "lself",
                                                    "lout", "lodir"]), 30,
                       rng.choice([0, 0, 1, 29, 31, 900]), rng.choice([0o644, 0o444, 0o400, 0o000])])
            if rng.random() < .15:
                es = g.remote_entries("fd")
                if es:
                    ex.do(["tmv", n, rng.choice(es), g.newname("t")])
            x = rng.random()
            if x < .45:
                ex.do(["near", rng.randrange(nc), rng.choice([-4, -3, 3, 4, -3600, 3601, 90001])])
            elif x < .65:
                ex.do(["wait", rng.choice([100, DAY // 2, DAY - 5, DAY + 5, 2 * DAY, 31 * DAY])])
            elif x < .72:
                ex.do(["config", n, {"period": rng.choice(["30", "1", "0", "-1", "2"])}])
            if rng.random() < .15:
                plan = []
                if rng.random() < .4:
                    plan = [{"at": rng.randint(1, 12), "unit": "m", "do": "kill"}]
                ex.do(["cmd", rng.randrange(nc), "empty-trash", [], plan])
            for n in rng.sample(range(nc), rng.randint(1, nc)):
                plan = []
                x = rng.random()
                if x < .15:
                    with ex.branch():
                        c = self.sc.cmd(n, "sync").counts
                    plan = [{"at": rng.randint(1, max(1, c.get("m", 1))), "unit": "m", "do": "kill"}]
                elif x < .25:
                    plan = [{"at": rng.randint(1, 400), "unit": "s", "do": "stall:%d" % rng.choice(
                        [30, 4000, DAY])}]
                ex.do(["cmd", n, "sync", [], plan])
