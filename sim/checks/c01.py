"""C01 merge and convergence; C02 conflicts."""
from .base import Prop, NAMES, M


class C01(Prop):
    id = "C01"
    quick = 1500
    thorough = 40000
    weights = {}

    def cfg(self, rng):
        return self.swarm(rng, rng.choice([1, 1, 2, 2, 3]))

    def before(self, n, cmd, args, plan):
        if cmd == "sync":
            return self.sync_before(n)
        return None

    def after(self, n, cmd, args, plan, ctx, r):
        if cmd == "init":
            self.expect_ok(r)
            self.check_mirror(n)
            self.completed(n)
        elif cmd == "sync":
            self.expect_ok(r)
            self.check_merge(n, ctx)
            self.completed(n)

    def gen(self, ex, g, rng):
        self.start_clients(ex, g, rng)
        nc = len(ex.cfg["clients"])
        for _ in range(rng.randint(2, 6)):
            for n in range(nc):
                if rng.random() < .75:
                    g.do_edits(n, rng.randint(0, 4), self.weights)
            if rng.random() < .15:
                n = rng.randrange(nc)
                ex.do(["config", n, {"limit": rng.choice(["10MB", "40KB", "100K", "0K"])}])
            if rng.random() < .2:
                ex.do(["wait", rng.choice([100, 90000])])
            for n in rng.sample(range(nc), rng.randint(1, nc)):
                ex.do(["cmd", n, "sync", []])
        ex.do(["rounds"])

    def op_rounds(self):
        """Each client syncs twice in turn; then everything agrees and nothing changes any more."""
        nc = len(self.ex.cfg["clients"])
        for _ in range(2 if nc > 1 else 1):
            for n in range(nc):
                self.ex.op_wait(2)
                self.ex.op_cmd(n, "sync")
        for n in range(nc):
            self.check_mirror(n, "converge")
        for n in range(nc):
            before = self.trees()
            self.ex.op_wait(2)
            self.ex.op_cmd(n, "sync")
            d = self.diff_state(before, self.trees(trash=self.ex.setting(n, "period") == "-1"
                                                   or True))
            d = [x for x in d if not x.startswith("T:")]
            if d:
                self.fail("idempotence", "a sync of %s with nothing to do changes:\n  %s" % (
                    NAMES[n], "\n  ".join(d)))


class C02(C01):
    """Runs in which most edits collide."""
    id = "C02"
    quick = 1500

    def cfg(self, rng):
        cfg = self.swarm(rng, rng.choice([1, 2, 2, 3]))
        cfg["gap"] = rng.choice([0.001, 0.05, 0.3, 1.5, 5000])
        return cfg

    def gen(self, ex, g, rng):
        self.start_clients(ex, g, rng, rng.randint(1, 4), {"rm": 0, "rmtree": 0})
        nc = len(ex.cfg["clients"])
        pool = [g.some_path() for _ in range(3)]
        for _ in range(rng.randint(2, 5)):
            t = sorted(p for p, e in self.sc.remote_tree().items() if e[0] == "f")
            hot = rng.sample(t, min(len(t), 2)) + [rng.choice(pool)]
            who = rng.sample(range(nc), rng.randint(1, nc))
            for p in hot:
                acts = []
                for n in who:
                    if rng.random() < .8:
                        acts.append(["write", n, p, g.size(), g.mode(), rng.choice(["write", "save", "save"])])
                if rng.random() < (.9 if nc == 1 else .35):
                    acts.append(["rwrite", rng.randrange(nc), p, g.size(), g.mode(),
                                 rng.choice(["write", "save"])])
                if rng.random() < .1:
                    acts.append(["rm", rng.choice(who), p])
                rng.shuffle(acts)
                for a in acts:
                    ex.do(a)
            if rng.random() < .3:
                g.do_edits(rng.randrange(nc), 2)
            for n in rng.sample(range(nc), rng.randint(1, nc)):
                ex.do(["cmd", n, "sync", []])
                if rng.random() < .15:
                    ex.do(["cmd", n, "sync", []])
        ex.do(["rounds"])
