"""C08 one operation at a time per profile."""
import copy

from .base import Prop, NAMES, M, default_cfg
from .c03 import orig_name
from ..scen import PROFILE, SEC


class C08(Prop):
    id = "C08"
    quick = 700
    thorough = 20000
    rule = "a run counts if several commands ran at the same time in it; counted by configuration, " \
           "operations and switches between the processes"

    def nontrivial(self, ex):
        return any(op[0] == "race" for op in ex.trace)

    def cfg(self, rng):
        cfg = self.swarm(rng, 1)
        cfg["gap"] = rng.choice([0.3, 1.5, 40])
        cfg["rsub"] = "sub"
        cfg["rlocal"] = False
        cfg["other"] = rng.choice(["q", "p2", "pp", "P", "p-p", "0"])
        c = cfg["clients"][0]
        c["localdisk"] = False
        return cfg

    # -- two profiles -------------------------------------------------------------------------
    def template(self, prof):
        sc = self.sc
        if prof == PROFILE:
            return sc.template(0)
        return sc.template(0, localdir="/home/u/second", remotedir="/mnt/r/second")

    def where(self, prof):
        return (self.sc.local_path(0), self.sc.remote_path(0)) if prof == PROFILE else (
            "/home/u/second", "/mnt/r/second")

    def spec(self, prof, cmd, args=(), **kw):
        args = list(args)
        if cmd == "init":
            args = ["-t", "/home/u/tmpl-" + prof] + args
        return dict(kw, c=0, cmd=cmd, args=args, profile=prof)

    def solo(self, s, plan=()):
        return self.sc.cmd(0, s["cmd"], s["args"], plan, profile=s["profile"])

    def op_templates(self):
        c = self.sc.client(0)
        for prof in (PROFILE, self.ex.cfg["other"]):
            self.sc.v.write_file(c, "/home/u/tmpl-" + prof, self.template(prof))
        self.sc.v.makedirs(c, "/home/u/second")
        self.sc.v.makedirs(c, "/mnt/r/second")

    def op_put(self, prof, rel, size):
        """A user's file in a local directory."""
        c = self.sc.client(0)
        path = self.where(prof)[0] + "/" + rel
        try:
            self.sc.v.makedirs(c, path.rsplit("/", 1)[0])
        except OSError:
            return
        self.sc.user_write(c, path, size, 0o644, "save")

    def op_trash(self, k):
        """Files in the trash."""
        for i in range(k):
            try:
                self.sc.v.write_file(self.sc.client(0), self.where(PROFILE)[1] + "/.zielen/Trash/t%d" % i,
                                     b"trash")
            except OSError:
                return

    def op_alone(self, prof, cmd, args=()):
        r = self.solo(self.spec(prof, cmd, args))
        self.ex.evals += 1
        self.expect_ok(r)

    def gen(self, ex, g, rng):
        other = ex.cfg["other"]
        ex.do(["templates"])
        for prof in (PROFILE, other):
            for i in range(rng.randint(1, 4)):
                ex.do(["put", prof, g.some_path(), g.size()])
        started = []
        for prof in rng.choice([[PROFILE], [PROFILE, other], [other], []]):
            ex.do(["alone", prof, "init", []])
            started.append(prof)
        if rng.random() < .3 and PROFILE in started:
            g.do_edits(0, 2)
            ex.do(["alone", PROFILE, "sync", []])
        for prof in started:
            if prof == PROFILE:
                g.do_edits(0, rng.randint(0, 3))
            else:
                ex.do(["put", prof, g.some_path(), g.size()])
        if rng.random() < .5:
            ex.do(["trash", rng.randint(1, 5)])
        for _ in range(4):
            with ex.branch():
                ex.do(self.a_race(ex, rng, g))
                if rng.random() < .3:
                    ex.do(self.a_race(ex, rng, g))

    def exists(self, prof):
        i = self.sc.info(0, prof)
        return i is not None

    def a_race(self, ex, rng, g):
        other = ex.cfg["other"]
        specs = []
        k = rng.choice([2, 2, 2, 3, 3])
        for i in range(k):
            prof = PROFILE if rng.random() < .75 else other
            if self.exists(prof):
                cmd = rng.choice(["sync", "sync", "reset", "empty-trash", "init"])
            else:
                cmd = rng.choice(["init", "init", "init", "sync", "reset"])
            args = []
            if cmd == "reset":
                args = rng.choice([[], [], ["-k"], ["-n"]])
            specs.append(self.spec(prof, cmd, args,
                                   delay=rng.choice([0, 0, .002, .01, .03, .06]), plan=[]))
        total = 400
        with ex.branch():
            muts = []
            for s in specs:
                r = self.solo(s)
                total += r.counts["s"]
                muts.append(r.counts["m"])
        x = rng.random()
        if x < .5:
            # one of them is slow, and the others come meanwhile
            i = rng.randrange(k)
            specs[i]["plan"] = [{"at": rng.randint(1, max(1, muts[i])), "unit": "m",
                                 "do": "stall:%s" % rng.choice([2.5, 4, 20])}]
            specs[i]["delay"] = 0
            for j in range(k):
                if j != i and rng.random() < .8:
                    specs[j]["delay"] = rng.choice([.1, .2, 1, 1.4])
                    specs[j]["plan"] = []
        elif x < .65:
            # one of them pauses just after it was started, and the others come and go meanwhile
            i = rng.randrange(k)
            specs[i]["delay"] = 0
            specs[i]["plan"] = [{"at": rng.randint(1, 120), "unit": "s", "do": "stall:20"}]
            for j in range(k):
                specs[j]["profile"], specs[j]["args"] = specs[i]["profile"], [
                    "/home/u/tmpl-" + specs[i]["profile"] if str(a).startswith("/home/u/tmpl-") else a
                    for a in specs[j]["args"]]
            rest = [j for j in range(k) if j != i]
            if len(rest) > 1 and rng.random() < .6 and self.exists(specs[i]["profile"]):
                a, b = rest
                specs[a] = self.spec(specs[i]["profile"], "reset", [], plan=[])
                specs[b] = self.spec(specs[i]["profile"], "init", [], plan=[])
            for n, j in enumerate(rest):
                specs[j]["delay"] = [.5, 6][n]
        elif x < .8:
            s = rng.choice(specs)
            s["plan"] = [{"at": rng.randint(1, total // k), "unit": "s", "do": rng.choice(
                ["kill", "sig:TERM", "sig:INT", "sig:HUP", "stall:0.2", "stall:3", "stall:20"])}]
        hooks = sorted(rng.sample(range(1, int(total * 1.1)), rng.choice([0, 1, 1, 2, 3, 6, 12, 40])))
        return ["race", specs, [[h, rng.randrange(4)] for h in hooks]]

    # -- the race -----------------------------------------------------------------------------
    def state(self):
        """Everything but times; conflict copies under their original names."""
        sc = self.sc
        c = sc.client(0)
        out = []
        for prof in (PROFILE, self.ex.cfg["other"]):
            for root in self.where(prof):
                try:
                    t = sc.v.tree(c, root)
                except OSError:
                    t = {}
                for p, i in t.items():
                    if p.split("/")[0] == ".zielen":
                        if p.startswith(".zielen/Trash/") and i.kind == "f":
                            out.append((root, "trash", repr(sc._entry(i))))
                        continue
                    q = p
                    while orig_name(q):
                        q = orig_name(q)
                    e = sc._entry(i)
                    while e[0] == "l" and orig_name(e[1]):     # the placeholder of one
                        e = ("l", orig_name(e[1]))
                    out.append((root, q, repr(e)))
            info = sc.info(0, prof)
            out.append((prof, "status", info and info.get("Status")))
            if info is not None:
                for p, row in sorted((sc.db_rows(0, prof) or {}).items()):
                    while orig_name(p):
                        p = orig_name(p)
                    out.append((prof, "record", (p, row[0], row[2])))
        return sorted(out, key=repr)

    def op_race(self, specs, preempts):
        ex, sc, k = self.ex, self.sc, self.k
        snap = sc.snapshot()
        muts = []
        k.vfs.monitor = lambda client, op, real: muts.append(
            (len(muts), k.current.proc if k.current is not None else None, op, real, k.world.clock))
        procs = []
        orig = sc.start

        def start(*a, **kw):
            p = orig(*a, **kw)
            procs.append(p)
            return p
        sc.start = start
        try:
            rs = sc.par(specs, [tuple(x) for x in preempts])
        finally:
            k.vfs.monitor = None
            del sc.start
        ex.evals += len(rs)
        ex.note_state()
        lab = ["%s %s (pid %d)" % (s["cmd"], s["profile"], p.pid) for s, p in zip(specs, procs)]
        brief = "; ".join(r.brief() for r in rs)
        prof_root = sc.conf_dir(0) + "/profiles"
        touched = [[m for m in muts if m[1] is p and not (
            m[2] == "mkdir" and prof_root.startswith(m[3][1] if isinstance(m[3], tuple) else m[3]))]
            for p in procs]
        for i, r in enumerate(rs):
            self.k.count("x:rc %s" % r.rc)
            if r.killed or r.fired:
                continue
            if r.thread_errors:
                self.fail("error", brief)
            if r.rc != 0:
                beside = [j for j in range(len(rs)) if j != i
                          and specs[j]["profile"] == specs[i]["profile"]
                          and rs[j].started <= r.ended and r.started <= rs[j].ended]
                last = (r.err.strip().splitlines() or [""])[-1]
                if "Traceback" in r.err and "zielen.exceptions." not in r.err or not last:
                    self.fail("error", "%s: fails with a program error beside %s:\n%s" % (
                        lab[i], [lab[j] for j in beside], r.err[-3000:]))
        # at most one process at work at a time
        for i in range(len(rs)):
            for j in range(i):
                if specs[i]["profile"] != specs[j]["profile"] or not touched[i] or not touched[j]:
                    continue
                a, b = sorted([touched[i], touched[j]])
                if a[-1][0] > b[0][0]:
                    self.fail("together", "%s and %s work on the profile at the same time:\n  %s" % (
                        lab[i], lab[j], "\n  ".join(
                            "%s %s %s" % (m[1].pid, m[2], m[3]) for m in muts
                            if b[0][0] - 3 <= m[0] <= b[0][0] + 3)))
        # whoever comes while another one is at work fails
        for i in range(len(rs)):
            for j in range(len(rs)):
                if i == j or specs[i]["profile"] != specs[j]["profile"] or specs[j]["plan"]:
                    continue
                came = rs[j].started + int((specs[j].get("delay") or 0) * SEC)
                if touched[i] and touched[i][0][4] < came and touched[i][-1][4] > came + SEC:
                    if rs[j].rc == 0:
                        self.fail("beside", "%s succeeds although it was started while %s was at work "
                                  "(at work %.3f-%.3f, started %.3f)" % (
                                      lab[j], lab[i], touched[i][0][4] / SEC, touched[i][-1][4] / SEC,
                                      came / SEC))
                    if touched[j]:
                        self.fail("beside", "%s, started while %s was at work, fails but changes %s" % (
                            lab[j], lab[i], touched[j][:3]))
        # the refused ones did nothing
        for i, r in enumerate(rs):
            if "another operation" in r.err and touched[i]:
                self.fail("refused", "%s is refused, but changes something: %s" % (
                    lab[i], touched[i][:3]))
        # the others did what they do when run one after the other
        order = sorted((i for i in range(len(rs)) if rs[i].rc == 0), key=lambda i: rs[i].ended)
        failed = [i for i in range(len(rs)) if rs[i].rc != 0 and not rs[i].killed
                  and not rs[i].fired]
        if not any(r.killed or r.fired and any(f[0].startswith(("sig", "kill")) for f in r.fired)
                   for r in rs):
            have = self.state()
            with ex.branch():
                sc.restore(snap)
                # each failed one must have had a reason at some point of that order
                excuse = set()
                for n in range(len(order) + 1):
                    for i in failed:
                        if i in excuse:
                            continue
                        with ex.branch():
                            if self.solo(specs[i]).rc != 0:
                                excuse.add(i)
                    if n < len(order):
                        i = order[n]
                        self.k.world.clock += int(1e9)
                        r = self.solo(specs[i])
                        if r.rc != 0:
                            self.fail("serial", "%s succeeds beside the others, but not after them:\n%s"
                                      % (lab[i], r.err[-600:]))
                want = self.state()
            for i in failed:
                if i in excuse:
                    continue
                beside = [j for j in range(len(rs)) if j != i
                          and specs[j]["profile"] == specs[i]["profile"]
                          and rs[j].started <= rs[i].ended and rs[i].started <= rs[j].ended]
                if not beside:
                    self.fail("refused", "%s is refused although no other operation on its profile is "
                              "running: %s" % (lab[i], rs[i].brief()))
            if want != have:
                d = ["only if run one by one: %s" % (x,) for x in want if x not in have]
                d += ["only if run together: %s" % (x,) for x in have if x not in want]
                self.fail("serial", "%s\nrunning the successful ones one after the other gives another "
                          "result:\n  %s" % (brief, "\n  ".join(d[:12])))
        # afterwards nothing is locked
        for prof in (PROFILE, ex.cfg["other"]):
            ex.op_wait(1)
            info = sc.info(0, prof)
            st = info.get("Status") if info else None
            cmd = {"initialized": "sync", "resetting": "reset", "removed": "reset"}.get(st, "init")
            with ex.branch():
                args = []
                if info is None and sc.v.exists_at(sc.client(0), self.where(prof)[1] + "/.zielen"):
                    args = ["-a"]
                    sc._rmtree(sc.client(0), self.where(prof)[0])
                    sc.v.makedirs(sc.client(0), self.where(prof)[0])
                r = self.solo(self.spec(prof, cmd, args))
                if "another operation" in r.err:
                    self.fail("locked", "after %s, %s %s is refused" % (brief, cmd, prof))
                if r.rc != 0:
                    self.expect_ok(r, "completes after %s" % brief)
