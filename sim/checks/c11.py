"""C11 what is kept in the local directory."""
from .base import Prop, NAMES, M
from .. import patch
from ..scen import SEC

UNITS = {"K": 1024, "KB": 1000, "KIB": 1024, "M": 1 << 20, "MB": 10**6, "MIB": 1 << 20}


def limit_of(text):
    """Bytes of a StorageLimit setting, as documented (KB = 1000, KiB = K = 1024)."""
    num = ""
    while text and (text[0].isdigit() or text[0] == " "):
        num, text = num + text[0], text[1:]
    return int(num) * UNITS[text.strip().upper()]


class C11(Prop):
    id = "C11"
    quick = 1500
    thorough = 40000
    rule = "a run counts if a sync in it had to choose (some files kept, others not); counted by " \
           "configuration and operations"

    def nontrivial(self, ex):
        return self.chose > 0

    def cfg(self, rng):
        cfg = self.swarm(rng, rng.choice([1, 1, 1, 2]))
        same = rng.random() < .8
        for c in cfg["clients"]:
            c["limit"] = self.some_limit(rng)
            if same:
                c["block"] = cfg["rblock"]
            if rng.random() < .15:
                c["exclude"] = rng.sample(["*.txt", "d", "/a", "dd/*", "ab"], rng.randint(1, 2))
        cfg["big"] = rng.random() < .7          # no file smaller than a block
        cfg["shape"] = rng.choice(["any", "any", "flat", "deep", "dirs"])
        return cfg

    @staticmethod
    def some_limit(rng):
        return rng.choice(["10MB", "0K", "30K", "60KiB", "%dK" % rng.randint(8, 200),
                           "%dKB" % rng.randint(8, 200), "%dK" % (4 * rng.randint(2, 40)),
                           "%dKiB" % (4 * rng.randint(2, 40))])

    def bind(self, ex):
        super().bind(ex)
        self.chose = 0

    # -- operations ------------------------------------------------------------------------------
    def op_access(self, n, prios):
        """Priorities as the daemon would have left them: {file: priority}, directories are sums."""
        sc = self.sc
        rows = sc.db_rows(n)
        if not rows:
            return
        prio = {p: prios.get(p, r[1]) for p, r in rows.items() if not r[0]}
        for p in sorted((p for p, r in rows.items() if r[0]), key=lambda p: -p.count("/")):
            prio[p] = sum(x for q, x in prio.items() if q.rsplit("/", 1)[0] == p and "/" in q)
        i = sc.v.lookup(sc.client(n), sc.profile_dir(n) + "/local.db").inode
        patch.db_exec(self.k.world, i, [("UPDATE nodes SET priority = ? WHERE path = ?", (x, p))
                                        for p, x in sorted(prio.items())])

    # -- oracle ------------------------------------------------------------------------------------
    def before(self, n, cmd, args, plan):
        if cmd != "sync":
            return None
        sc = self.sc
        ex = sc.excludes(n)
        esize = 0
        fs = sc.v.lookup(sc.client(n), sc.local_path(n)).fs
        R = self.remote_sizes()
        raw = sc.local_raw(n)
        files = 0
        for p, i in raw.items():
            if M.excluded(ex, p):
                if i.kind == "l" and sc.is_placeholder(n, p, i.target):
                    s = R.get(p, (0, 0))[0]
                else:
                    s = fs.blocks_of(i) * fs.block
                esize += s
                files += s if i.kind != "d" else 0
        for p, (s, d) in R.items():
            if p not in raw and M.excluded(ex, p):
                esize += s
                files += 0 if d else s
        # files that were synced before the user excluded them still count for their directories
        newly = any(M.excluded(ex, p) for p in sc.db_rows(n) or ())
        return {"esize": esize, "efiles": files, "newly": newly}

    def remote_sizes(self):
        """{path: (bytes used, is directory)}"""
        r = self.sc.remote_root()
        if r is None:
            return {}
        fs, root = r
        out = {}
        todo = [("", root)]
        while todo:
            pre, d = todo.pop()
            for name, ino in d.entries.items():
                if not pre and name == ".zielen":
                    continue
                i = fs.inodes[ino]
                out[pre + name] = (fs.blocks_of(i) * fs.block, i.kind == "d")
                if i.kind == "d":
                    todo.append((pre + name + "/", i))
        return out

    def after(self, n, cmd, args, plan, ctx, r):
        if plan and (r.killed or r.rc != 0):
            return
        self.expect_ok(r)
        if cmd in ("init", "sync"):
            self.completed(n)
        if cmd == "sync":
            self.check_selection(n, ctx)

    def kept(self, n, files):
        L = self.sc.local_tree(n)
        return {p for p in files if L.get(p, ("P",))[0] != "P"}

    def check_selection(self, n, ctx):
        sc = self.sc
        blk = sc.v.lookup(sc.client(n), sc.local_path(n)).fs.block
        limit = limit_of(self.ex.setting(n, "limit"))
        ex = sc.excludes(n)
        R = self.remote_sizes()
        rows = sc.db_rows(n)
        links = {p for p, e in sc.remote_tree().items()
                 if e[0] == "l" and not sc.safe_link(n, p, e[1])}
        files = {p: s for p, (s, d) in R.items() if not d and not M.excluded(ex, p) and p not in links}
        dirs = {p: s for p, (s, d) in R.items() if d and not M.excluded(ex, p)}
        kept = self.kept(n, files)
        what = "after a completed sync of %s (limit %d, block %d, excluded %d)" % (
            NAMES[n], limit, blk, ctx["esize"])
        used = sum(files[p] for p in kept) + blk * (len(files) - len(kept)) + ctx["efiles"]
        least = blk * len(files) + ctx["esize"]
        if used > max(limit, least):
            self.fail("limit", "%s the local directory uses %d:\n  kept %s\n  placeholders %s" % (
                what, used, sorted((p, files[p]) for p in kept), sorted(set(files) - kept)))
        if kept and len(kept) < len(files):
            self.chose += 1
        most = sum(max(s, blk) for s in files.values()) + sum(dirs.values()) + ctx["esize"]
        if most < limit and len(kept) < len(files):
            self.fail("not-all", "%s everything fits (%d), but these are placeholders: %s" % (
                what, most, sorted(set(files) - kept)))
        if any(s < blk for s in files.values()) or least > limit:
            return
        self.check_order(n, ctx, what, files, dirs, kept, rows, limit, blk)
        if ctx["newly"] or self.before(n, "sync", [], [])["esize"] != ctx["esize"]:
            return      # excluded files were copied to or removed from where they are counted
        before = self.kept(n, files)
        with self.ex.branch():
            self.k.world.clock += int(3e9)
            r = sc.cmd(n, "sync")
            self.ex.evals += 1
            self.expect_ok(r)
            if self.kept(n, files) != before:
                self.fail("unstable", "%s, another sync with nothing changed keeps %s instead of %s" % (
                    what, sorted(self.kept(n, files)), sorted(before)))

    def check_order(self, n, ctx, what, files, dirs, kept, rows, limit, blk):
        bysize = self.ex.setting(n, "bysize") == "yes"

        def below(d):
            return [p for p in files if p.startswith(d + "/")]

        def sub(d):
            return [p for p in dirs if p.startswith(d + "/")]
        need = {d: sum(files[p] for p in below(d)) + dirs[d] + sum(dirs[x] for x in sub(d)) for d in dirs}
        # the directory's share of what it takes; the program counts a directory's own blocks with it
        whole = {d for d in dirs if all(p in kept for p in below(d))}
        top = {d for d in whole if not any(d.startswith(x + "/") for x in whole)}
        inwhole = {p for d in top for p in below(d)}
        # room that would be there if only whole directories were kept
        base = limit - ctx["esize"] - sum(need[d] for d in top) - blk * (len(files) - len(inwhole))
        for d in sorted(set(dirs) - whole):
            inner = [x for x in top if x.startswith(d + "/")]
            done = {p for x in inner for p in below(x)}
            more = need[d] - sum(need[x] for x in inner) - blk * len([p for p in below(d) if p not in done])
            if need[d] <= limit and more <= base:
                self.fail("dir-first", "%s the directory %s (%d more) would fit as a whole into the %d "
                          "left by the directories that are kept: %s" % (
                              what, d, more, base, sorted(top)))
        # files
        single = [p for p in files if p in kept and p not in inwhole]
        left = [p for p in files if p not in kept]
        room = base - sum(files[p] - blk for p in single)
        for p in left:
            if files[p] - blk < room:
                self.fail("room", "%s %s (%d) is a placeholder though it would fit into the %d left" % (
                    what, p, files[p], room))

        def key(p, s):
            x = rows[p][1]
            return (x / s if s else 0) if bysize else x
        for p in left:
            for q in single:
                if p in rows and q in rows and files[q] >= files[p] and \
                        key(p, files[p]) > key(q, files[q]) * (1 + 1e-9):
                    self.fail("priority", "%s %s (priority %s, %d bytes) is kept rather than %s "
                              "(priority %s, %d bytes)" % (
                                  what, q, rows[q][1], files[q], p, rows[p][1], files[p]))
        # directories, where both have no directories below them
        plain = [d for d in dirs if not sub(d) and d in rows and below(d)]
        for d in plain:
            if d in whole:
                continue
            for e in plain:
                if e not in top or any(e.startswith(x + "/") for x in dirs):
                    continue
                ecost = sum(files[p] - blk for p in below(e))
                dcost = need[d] - blk * len(below(d))
                if ecost >= dcost and need[d] <= limit and \
                        key(d, need[d]) > key(e, need[e]) * (1 + 1e-9):
                    self.fail("dir-priority", "%s the directory %s (priority %s, %d) is kept as a whole "
                              "rather than %s (priority %s, %d)" % (
                                  what, e, rows[e][1], need[e], d, rows[d][1], need[d]))

    # -- runs --------------------------------------------------------------------------------------
    def edits(self, ex, g, rng, n, k, big):
        w = {"symlink": 0, "empty": 0} if big else {}
        g.do_edits(n, k, dict({"rm": 1.5, "rmtree": .3}, **w))

    def gen(self, ex, g, rng):
        big = ex.cfg["big"]
        if big:
            top = max([ex.cfg["rblock"]] + [c["block"] for c in ex.cfg["clients"]])
            sizes = [top - 100, top, top + 1, 2 * top, 3 * top, 5 * top, 17 * top]
            if ex.cfg["rblock"] != top:
                sizes = [x for x in sizes if x >= top]
            g.size = lambda: rng.choice(sizes)
        shape = ex.cfg["shape"]
        if shape == "flat":
            g.some_path = lambda: ("" if rng.random() < .8 else "d/") + "f%d" % rng.randint(1, 12)
        elif shape == "dirs":
            g.some_path = lambda: "d%d/" % rng.randint(1, 8) + rng.choice(["a", "b"])
        elif shape == "deep":
            g.some_path = lambda: "".join(rng.choice(["d/", "dd/"]) for _ in range(rng.choice([1, 2, 3, 3, 4]))) + \
                rng.choice(["a", "b", "c"])
        nc = len(ex.cfg["clients"])
        for n in range(nc):
            if ex.cfg["clients"][n]["exclude"]:
                ex.do(["exclude", n, ex.cfg["clients"][n]["exclude"]])
        for n in range(nc):
            e = ["-e", "/home/u/exclude"] if ex.cfg["clients"][n]["exclude"] else []
            if n == 0:
                g.do_edits(0, rng.randint(4, 16), {"rwrite": 0, "rnew": 0, "rrm": 0, "rrmtree": 0,
                                                   "rmkdir": 0, "rm": .5, "rmtree": .1, "write": 10,
                                                   **({"symlink": 0, "empty": 0} if big else {})})
                ex.do(["cmd", 0, "init", e])
            else:
                ex.do(["cmd", n, "init", ["-a"] + e])
        for _ in range(rng.randint(2, 6)):
            for n in range(nc):
                if rng.random() < .6:
                    self.edits(ex, g, rng, n, rng.randint(0, 4), big)
            n = rng.randrange(nc)
            x = rng.random()
            if x < .5:
                ex.do(["config", n, {"limit": self.near_limit(rng, n)}])
            elif x < .6:
                ex.do(["config", n, {"bysize": rng.choice(["yes", "no"])}])
            if any(c["exclude"] for c in ex.cfg["clients"]) and rng.random() < .2:
                ex.do(["exclude", n, rng.sample(["*.txt", "d", "/a", "dd/*", "ab"], rng.randint(0, 2))])
            if rng.random() < .7:
                fs = sorted(p for p, r in (self.sc.db_rows(n) or {}).items() if not r[0])
                few = rng.choice([[0, 1], [0, 1, 2, 5], list(range(20)), list(range(20)),
                                  [0.5, 0.25, 7.125, 1e-9, 1e6]])
                ex.do(["access", n, {p: float(rng.choice(few)) for p in fs if rng.random() < .8}])
            for n in rng.sample(range(nc), rng.randint(1, nc)):
                plan = []
                if rng.random() < .1:
                    plan = [{"at": rng.randint(1, 60), "unit": "m", "do": "kill"}]
                ex.do(["cmd", n, "sync", [], plan])

    def near_limit(self, rng, n):
        """A limit at which there is something to choose."""
        fs = [s for s, d in self.remote_sizes().values()]
        if not fs or rng.random() < .3:
            return self.some_limit(rng)
        t = sum(rng.sample(fs, rng.randint(1, len(fs)))) + 4096 * rng.randint(0, len(fs))
        return "%dK" % max(0, t // 1024 + rng.choice([0, 0, 0, 1, 4, -1, 8]))
