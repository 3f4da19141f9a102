"""C07 clients that sync a shared remote directory at the same time."""
from .base import Prop, NAMES, M
from .c03 import orig_name
from ..ops import users


def stems(q, p):
    """Is q a conflict name of p (or a conflict name of one)?"""
    while not M.conflict_name_matches(q, p):
        q = orig_name(q)
        if q is None:
            return False
    return True


class C07(Prop):
    id = "C07"
    quick = 900
    thorough = 20000
    rule = "a run counts if commands of different clients ran at the same time in it; counted by " \
           "configuration, operations and switches between the clients"

    def nontrivial(self, ex):
        return any(op[0] == "race" for op in ex.trace)

    def cfg(self, rng):
        cfg = self.swarm(rng, rng.choice([2, 2, 2, 3]))
        cfg["gap"] = rng.choice([0.3, 1.5, 1.5, 40])
        cfg["rlocal"] = False
        return cfg

    def start_race(self, ex, g, rng):
        """A client is initialised while another one syncs. -> paths changed by that one"""
        g.do_edits(0, rng.randint(2, 6), {"rwrite": 0, "rnew": 0, "rrm": 0, "rrmtree": 0, "rmkdir": 0})
        ex.do(["cmd", 0, "init", []])
        if rng.random() < .6:
            ex.do(["cmd", 0, "sync", []])
        hot = rng.sample(g.local_entries(0, "fP"), min(len(g.local_entries(0, "fP")), rng.randint(1, 2)))
        for p in hot:
            ex.do(["write", 0, p, g.size(), g.mode(), "save"])
        g.do_edits(0, rng.randint(0, 2))
        self.pair(ex, g, rng, [[0, "sync", []], [1, "init", ["-a"]]])
        for n in range(2, len(ex.cfg["clients"])):
            ex.do(["cmd", n, "init", ["-a"]])
        return hot

    def pair(self, ex, g, rng, cmds):
        """Two commands at the same time, the order of which is known afterwards."""
        markers = []
        for n, cmd, args in cmds:
            markers.append(g.newname("m") if cmd == "sync" else None)
            if markers[-1]:
                ex.do(["write", n, markers[-1], 20, 0o644, "save"])
        counts = []
        with ex.branch():
            for n, cmd, args in cmds:
                counts.append(self.sc.cmd(n, cmd, args).counts["s"])
        style, late = rng.random(), rng.choice([0, 1, 1])
        specs = []
        for i, (n, cmd, args) in enumerate(cmds):
            plan, delay = [], rng.choice([0, 0, .001, .01])
            if style < .6:
                if i == late:
                    delay = 0
                    plan = [{"at": max(1, counts[i] - rng.randint(0, 20)), "unit": "s",
                             "do": "stall:%s" % rng.choice([2, 10, 30])}]
                    if rng.random() < .7:       # just before it looks at the clock
                        plan[0].update(at=1, only="clock", nth=rng.choice([1, 2, 3, 3]))
                else:
                    delay = rng.choice([.01, .1, 1])
            elif style < .7:
                plan = [{"at": rng.randint(1, counts[i]), "unit": "s", "do": "stall:%s" % rng.choice([.5, 4, 30])}]
            elif style < .8 and cmd == "init":
                plan = [{"at": rng.randint(1, counts[i]), "unit": "s", "do": rng.choice(["kill", "sig:TERM"])}]
            specs.append({"c": n, "cmd": cmd, "args": args, "plan": plan, "delay": delay})
        hooks = sorted(rng.sample(range(1, sum(counts) + 20), rng.choice([0, 1, 2, 3, 6, 12, 40])
                                  if style >= .6 else 0))
        ex.do(["pair", specs, [[h, rng.randrange(4)] for h in hooks], markers])

    def op_pair(self, specs, preempts, markers):
        sc = self.sc
        if len(specs) != 2:
            return
        for s in specs:
            if s["cmd"] == "sync" and (not self.ex.ok(s["c"]) or "start" in sc.st["notes"]):
                return
        alone, R0 = [], sc.remote_tree()
        for s in specs:
            with self.ex.branch():
                sc.cmd(s["c"], s["cmd"], s["args"])
                alone.append(sc.remote_tree())
        rs = sc.par(specs, [tuple(x) for x in preempts])
        self.ex.evals += len(rs)
        self.check_ledger("lost", "after two commands at the same time (%s)" % "; ".join(r.brief() for r in rs))
        good = [r.rc == 0 and not r.killed for r in rs]
        for i, (s, r) in enumerate(zip(specs, rs)):
            n = s["c"]
            if not good[i] and not r.killed and not any(f[0].startswith("sig") for f in r.fired) \
                    and (not any(x["plan"] for x in specs) or "locked" not in r.err):
                self.expect_ok(r, "%s beside another client's command" % s["cmd"])
            if s["cmd"] == "init" and (sc.info(n) or {}).get("Status") != "initialized":
                r = sc.cmd(n, "init", ["-a"])
                self.expect_ok(r, "init after an interrupted one")
                self.completed(n)
            elif good[i] or s["cmd"] == "init":
                self.completed(n)
                other = markers[1 - i]
                if other and good[1 - i] and other not in sc.db_rows(n):
                    sc.st["base"][NAMES[n]] = alone[i]      # it came first
                    if any(M.CONFLICT.match(p.rsplit("/", 1)[-1]) for p in set(alone[i]) - set(R0)):
                        r = sc.cmd(n, "sync", [])
                        self.expect_ok(r, "sync after concurrent ones")
                        self.completed(n)

    def gen(self, ex, g, rng):
        nc = len(ex.cfg["clients"])
        race = rng.random() < .35
        if race:
            first = self.start_race(ex, g, rng)
        else:
            self.start_clients(ex, g, rng, rng.randint(2, 6))
        for phase in range(rng.randint(1, 3)):
            hot = [g.some_path() for _ in range(2)]
            if race and not phase:
                hot += first
                for n in [1] + rng.sample(range(nc), rng.randint(0, nc)):
                    if rng.random() < .8 and first:
                        ex.do(["write", n, rng.choice(first), g.size(), g.mode(), "save"])
            elif rng.random() < .25:
                who = rng.sample(range(nc), 2)
                for n in who:
                    g.do_edits(n, rng.randint(0, 2))
                    ex.do(["write", n, rng.choice(hot), g.size(), g.mode(), "save"])
                self.pair(ex, g, rng, [[n, "sync", []] for n in who])
                for n in who:
                    ex.do(["write", n, rng.choice(hot), g.size(), g.mode(), "save"])
            for n in range(nc):
                g.do_edits(n, rng.randint(0, 4))
                if rng.random() < .35:
                    ex.do(["write", n, rng.choice(hot), g.size(), g.mode(), "save"])
            if rng.random() < .3:
                ex.do(["config", rng.randrange(nc), {"limit": rng.choice(["10MB", "40KB", "0K"])}])
            if rng.random() < .4:
                ex.do(["cmd", rng.randrange(nc), "sync", []])
                g.do_edits(rng.randrange(nc), 2)
            if rng.random() < .3:
                ex.do(["wait", rng.choice([3, 100, 90000])])
            for _ in range(rng.choice([1, 1, 2])):
                ex.do(self.a_race(ex, rng, nc))
            ex.do(["converge"])

    def a_race(self, ex, rng, nc):
        who = rng.sample(range(nc), rng.choice([2, nc]))
        specs, total = [], 0
        with ex.branch():
            for n in who:
                total += self.sc.cmd(n, "sync", []).counts["s"]
        style = rng.random()
        for n in who:
            plan = []
            x = rng.random()
            each = max(2, total // len(who))
            if style < .25 and x < .6:
                plan = [{"at": rng.randint(1, each), "unit": "s",
                         "do": "stall:%s" % rng.choice([0.5, 2, 4.9, 6, 30])}
                        for _ in range(rng.choice([1, 1, 2]))]
                if rng.random() < .3:
                    plan[0].update(at=1, only="clock", nth=rng.randint(1, 4))
            elif style < .4 and x < .6:
                plan = [{"at": rng.randint(1, each), "unit": "s", "do": rng.choice(
                    ["kill", "kill", "torn", "sig:TERM", "sig:INT"])}]
            specs.append({"c": n, "cmd": "sync", "args": [], "plan": plan,
                          "delay": rng.choice([0, 0, 0, .001, .01, .05])})
        hooks = sorted(rng.sample(range(1, int(total * 1.1) + 20), rng.choice([0, 1, 1, 2, 3, 6, 12, 40])))
        return ["race", specs, [[h, rng.randrange(4)] for h in hooks]]

    # -- one race ---------------------------------------------------------------------------
    def observe(self):
        """What every side looks like, seen by the clients' own last syncs."""
        sc = self.sc
        meta = {}
        out = {"R": sc.remote_tree(meta), "rmeta": meta, "L": [], "base": [], "lmeta": []}
        for n in range(len(sc.cfg["clients"])):
            b = dict(sc.st["base"].get(NAMES[n], {}))
            l, m = sc.logical_local(n, b)
            out["L"].append(l)
            out["base"].append(b)
            out["lmeta"].append(m)
        for t in [out["R"]] + out["L"] + out["base"]:     # what an interrupted copy left
            for p in [p for p in t if not users(p)]:
                del t[p]
        return out

    def before(self, n, cmd, args, plan):
        return self.sync_before(n) if cmd == "sync" else None

    def after(self, n, cmd, args, plan, ctx, r):
        if r.rc == 0 and not r.killed:
            self.completed(n)

    def op_race(self, specs, preempts):
        specs = [s for s in specs if self.ex.ok(s["c"])]
        if not specs:
            return
        notes = self.sc.st["notes"]
        if "start" not in notes:
            notes["start"] = self.observe()
        rs = self.sc.par(specs, [tuple(x) for x in preempts])
        self.ex.evals += len(rs)
        self.ex.note_state()
        self.check_ledger("lost", "after concurrent syncs (%s)" % "; ".join(r.brief() for r in rs))
        faulty = any(s["plan"] for s in specs)
        for r in rs:
            if r.thread_errors:
                self.fail("error", "%s: %s" % (r.brief(), r.thread_errors))
            self.k.count("x:sync rc %s%s" % (r.rc, " killed" if r.killed else ""))
            if r.rc != 0 and not faulty and not r.killed:
                self.expect_ok(r, "sync beside another client's")
            if r.rc != 0 and not r.killed and not any(
                    f[0].startswith("sig") for f in r.fired) and "locked" not in r.err:
                self.expect_ok(r, "sync beside another client's")
        notes["killed"] = sorted(set(notes.get("killed", ())) | {
            s["c"] for s, r in zip(specs, rs) if r.killed or any(
                f[0].startswith(("sig", "kill", "torn")) for f in r.fired)})
        good = [s["c"] for s, r in zip(specs, rs) if r.rc == 0 and not r.killed]
        if good and len(good) == len(specs):
            from ..scen import Violation
            err = None
            for n in good:
                try:
                    self.check_mirror(n, "race")
                    break
                except Violation as v:
                    err = v
            else:
                raise err

    def op_converge(self):
        ex, sc = self.ex, self.sc
        nc = len(sc.cfg["clients"])
        start = sc.st["notes"].pop("start", None)
        self.killed = sorted(sc.st["notes"].pop("killed", ()))
        if start is None:
            return
        for _ in range(2):
            for n in range(nc):
                ex.op_wait(2)
                r = sc.cmd(n, "sync", [])
                ex.evals += 1
                self.expect_ok(r, "sync after concurrent ones")
                self.check_ledger("lost", "after " + r.brief())
        for n in range(nc):
            self.check_mirror(n, "converge")
            self.completed(n)
        self.check_records()
        want, problems = self.everyones(start)
        R = sc.remote_tree()
        for p in sorted(set(want) | set(R)):
            if p in want:
                if R.get(p) not in want[p]:
                    problems.append("%s: %s instead of %s" % (
                        p, M.show(R.get(p)), " or ".join(M.show(e) for e in want[p])))
        for p, versions in sorted(self.losers.items()):
            have = [R[q] for q in R if q == p or stems(q, p)]
            for v in versions:
                if v not in have:
                    problems.append("%s: version %s is under neither its name nor a conflict name" % (
                        p, M.show(v)))
        for p in sorted(set(R) - set(want)):
            if not any(stems(p, q) for q in (self.losers if not self.killed else want)):
                problems.append("%s: %s, which nobody made" % (p, M.show(R[p])))
        if problems:
            self.fail("merge", "after all clients have synced, the remote directory is not the merge of "
                      "everyone's changes:\n  %s" % "\n  ".join(problems[:12]))

    def check_records(self):
        """The clients' records list the files that are there."""
        sc = self.sc
        R = set(sc.remote_tree())
        for n in range(len(sc.cfg["clients"])):
            rows = sc.db_rows(n)
            if rows is None:
                self.fail("records", "the records of %s can't be read" % NAMES[n])
            if set(rows) - R:
                self.fail("records", "%s has records of files that do not exist: %s" % (
                    NAMES[n], sorted(set(rows) - R)))
            if set(rows) != R:
                self.fail("records", "%s has no records of %s" % (NAMES[n], sorted(R - set(rows))))

    def everyones(self, s):
        """-> {path: acceptable entries of the merge}, []"""
        want = {}
        self.losers = {}
        R = s["R"]
        nc = len(s["L"])
        paths = set(R)
        for t in s["L"] + s["base"]:
            paths |= set(t)
        dirs = {p for p in paths for t in [R] + s["L"] + s["base"] if t.get(p, "x")[0] == "d"}
        keep, perhaps = set(), set()
        for p in sorted(paths - dirs):
            vs = {}                   # version -> mtime
            r = R.get(p)
            replaced = against = dropped = False
            for n in range(nc):
                l, b = s["L"][n].get(p), s["base"][n].get(p)
                if l == b:
                    continue
                if l is None:
                    dropped = dropped or b == r
                    continue
                vs[l] = max(s["lmeta"][n].get(p, (0,))[0], vs.get(l, 0))
                if b == r:
                    replaced = True
                else:
                    against = True
            maybe = []
            if r is not None and against:
                t = s["rmeta"].get(p, (0,))[0]
                if replaced or dropped:
                    maybe = [(r, t)]
                else:
                    vs[r] = max(t, vs.get(r, 0))
            if not vs:
                want[p] = [None if dropped else r]
                if dropped and any(s["base"][n].get(p) != r for n in self.killed):
                    want[p].append(r)      # it had just come to a client that was killed
            else:
                top = max(vs.values())
                want[p] = [e for e in vs if vs[e] == top] + [
                    e for e, t in maybe if t >= top]
                if dropped and any(t >= top for e, t in maybe):
                    want[p].append(None)     # the other one kept R's name, then R was deleted
                if len(vs) > 1 or maybe:
                    self.losers[p] = list(vs)
            up = ["/".join(p.split("/")[:i]) for i in range(1, p.count("/") + 1)]
            if None not in want[p]:
                keep.update(up)
            elif want[p] != [None]:
                perhaps.update(up)
        for p in sorted(dirs):
            inall = all(p in t for t in [R] + s["L"])
            if p in keep or inall:
                want[p] = [("d",)]
                continue
            gone = any(p in s["base"][n] and p not in s["L"][n] for n in range(nc)) or (
                p not in R and any(p in b for b in s["base"]))
            new = any(p not in s["base"][n] and p in s["L"][n] for n in range(nc)) or (
                p in R and any(p not in b for b in s["base"]))
            held = any(q.startswith(p + "/") and R[q][0] != "d" for q in R)
            want[p] = [None, ("d",)] if gone and (new or held or p in perhaps) else [None] if gone else [("d",)]
        # a kept directory's parents
        for p in sorted(dirs):
            if ("d",) in want[p]:
                for i in range(1, p.count("/") + 1):
                    q = "/".join(p.split("/")[:i])
                    if ("d",) not in want[q]:
                        want[q] = want[q] + [("d",)] if len(want[p]) > 1 else [("d",)]
        return want, []
