"""Scenarios: a deployment, explicit operations on it, observations of it."""
import errno
import os
import stat as _stat
import contextlib
import sys

from . import boot
from . import kernel as KN
from . import model as M
from . import patch
from . import vfs as V

SEC = 10**9
PROFILE = "p"


class Violation(Exception):
    """The property is broken (the message says how)."""

    def __init__(self, kind, msg):
        super().__init__(msg)
        self.kind = kind        # class of violation, stable under minimisation
        self.msg = msg


class Result:
    """What a finished command did, as its user sees it."""

    def __init__(self, p):
        self.client = p.client.name
        self.argv = p.argv
        self.rc = p.rc
        self.out = p.stdout.getvalue()
        self.err = p.stderr.getvalue()
        self.exc = p.exc
        self.tb = p.tb
        self.killed = p.killed
        self.counts = dict(p.counts)
        self.fired = list(p.fired)
        self.started = p.started
        self.ended = p.ended_at
        self.thread_errors = getattr(p, "thread_errors", [])

    def brief(self):
        last = (self.err.strip().splitlines() or [""])[-1]
        return "%s %s: rc=%s%s %s" % (self.client, " ".join(self.argv[1:]), self.rc,
                                      " killed" if self.killed else "", last[:200])


DEFAULT_CLIENT = {
    "skew": 0.0, "limit": "10MB", "trash": "yes", "period": "30", "inflate": "yes",
    "bysize": "yes", "interval": "20", "halflife": "120", "exclude": [], "xdg": False,
    "tty": False, "block": 4096, "dirblocks": 1, "salt": 1, "mpowner": "u", "localdisk": False,
    "local": "/home/u/l", "spill": False,
}
DEFAULT_CFG = {
    "clients": [dict(DEFAULT_CLIENT)],
    "rblock": 4096, "rdirblocks": 1, "rskew": 0.0, "rsalt": 2, "rsub": "", "rlocal": False,
    "seed": 0,
}


class Scenario:
    """A world plus the user-visible bookkeeping needed by the oracles."""

    def __init__(self, kernel, cfg):
        self.k = kernel
        self.v = kernel.vfs
        self.cfg = cfg
        self.trace = []
        self.build()

    # -- construction ---------------------------------------------------------
    def build(self):
        cfg = self.cfg
        w = KN.World()
        k = self.k
        for p in k.procs:
            assert p.ended
        k.procs = []
        k.threads = []
        k.set_world(w)
        k.inotify.log = []
        k.proc_seed = cfg.get("seed", 0)
        v = self.v
        w.fss["R"] = V.FS("R", cfg["rblock"], cfg["rdirblocks"], None,
                          int(cfg["rskew"] * SEC), cfg["rsalt"])
        w.fss["R"].inodes[V.ROOT_INO].uid = 1000
        k.remote_prefix = {}
        for n, cc in enumerate(cfg["clients"]):
            name = "ABCDEF"[n]
            fs = w.fss[name] = V.FS(name, cc["block"], cc["dirblocks"], None,
                                    int(cc["skew"] * SEC), cc["salt"])
            c = w.clients[name] = V.Client(name, name, 1000, int(cc["skew"] * SEC))
            c.spill = cc.get("spill", False)
            root = V.Client("root", name, 0)
            for d in ("/home/u", "/tmp", "/mnt/r", "/etc", "/var/data",
                      sys.prefix + "/share/zielen", "/run/user/1000"):
                v.makedirs(root, d)
            v.lookup(root, "/home/u").inode.uid = 1000
            v.lookup(root, "/tmp").inode.mode = 0o777
            v.lookup(root, "/var/data").inode.uid = 1000
            v.write_file(root, sys.prefix + "/share/zielen/config-template", boot.PROGRAM.template)
            v.write_file(root, "/etc/passwd", b"system file")
            v.write_file(c, "/home/u/diary", b"a file outside")
            mp = v.lookup(root, "/mnt/r").inode
            if cc["mpowner"] == "u":
                mp.uid = 1000
            if cc.get("localdisk"):
                lf = w.fss[name + "L"] = V.FS(name + "L", cc["block"], cc["dirblocks"], None,
                                              int(cc["skew"] * SEC), cc["salt"])
                lf.inodes[V.ROOT_INO].uid = 1000
                v.makedirs(root, "/home/u/disk")
                c.mounts[(name, v.lookup(root, "/home/u/disk").inode.ino)] = name + "L"
            if not cfg["rlocal"]:
                c.mounts[(name, mp.ino)] = "R"
            k.remote_prefix[name] = self.remote_path(n)
            v.makedirs(c, self.local_path(n))
        if cfg["rsub"] or cfg["rlocal"]:
            v.makedirs(w.clients["A"], self.remote_path(0))
        # bookkeeping, copied by snapshot()
        self.st = {
            "tokens": {},        # tok -> (size, live)
            "ntok": 0,
            "base": {},          # client name -> logical tree at its last completed sync
            "synced": {},        # client name -> True after a completed init
            "notes": {},
        }
        k.world_handler = self.world_event

    def client(self, n):
        return self.k.world.clients["ABCDEF"[n]]

    def local_path(self, n):
        cc = self.cfg["clients"][n]
        if cc.get("localdisk"):
            return "/home/u/disk/l"
        return cc["local"]

    def remote_path(self, n):
        if self.cfg["rlocal"]:
            return "/home/u/remote"
        return "/mnt/r" + ("/" + self.cfg["rsub"] if self.cfg["rsub"] else "")

    def conf_dir(self, n):
        return ("/home/u/xdg" if self.cfg["clients"][n]["xdg"] else "/home/u/.config") + "/zielen"

    def profile_dir(self, n, name=PROFILE):
        return self.conf_dir(n) + "/profiles/" + name

    def env(self, n):
        e = {"LINES": "24"}
        if self.cfg["clients"][n]["xdg"]:
            e["XDG_CONFIG_HOME"] = "/home/u/xdg"
        return e

    def template(self, n, **over):
        cc = dict(self.cfg["clients"][n])
        cc.update(over)
        return ("LocalDir=%s\nRemoteDir=%s\nStorageLimit=%s\nSyncInterval=%s\nPriorityHalfLife=%s\n"
                "UseTrash=%s\nTrashCleanupPeriod=%s\nInflatePriority=%s\nAccountForSize=%s\n" % (
                    cc.get("localdir", self.local_path(n)), cc.get("remotedir", self.remote_path(n)),
                    cc["limit"], cc["interval"], cc["halflife"], cc["trash"], cc["period"],
                    cc["inflate"], cc["bysize"])).encode()

    # -- snapshots --------------------------------------------------------------
    def snapshot(self):
        st = {}
        for k, v in self.st.items():
            if isinstance(v, dict):
                v = {a: (dict(b) if isinstance(b, dict) else list(b) if isinstance(b, list) else b)
                     for a, b in v.items()}
            elif isinstance(v, list):
                v = list(v)
            st[k] = v
        return (self.k.world.clone(), st)

    def restore(self, snap):
        self.k.set_world(snap[0].clone())
        st = {}
        for k, v in snap[1].items():
            if isinstance(v, dict):
                v = {a: (dict(b) if isinstance(b, dict) else list(b) if isinstance(b, list) else b)
                     for a, b in v.items()}
            elif isinstance(v, list):
                v = list(v)
            st[k] = v
        self.st = st

    # -- commands ---------------------------------------------------------------
    def argv(self, n, cmd, args=(), profile=PROFILE):
        a = ["zielen", "--debug"]
        if cmd == "init":
            if "-t" not in args and "prompt" not in args:
                args = ["-t", "/home/u/tmpl"] + list(args)
                with self.roomy():
                    self.v.write_file(self.client(n), "/home/u/tmpl", self.template(n))
            args = [x for x in args if x != "prompt"]
        return a + [cmd] + list(args) + ([profile] if cmd != "list" else [])

    def start(self, n, cmd, args=(), plan=(), profile=PROFILE, stdin="", tty=None):
        c = self.client(n)
        return self.k.spawn_command(
            c, self.argv(n, cmd, args, profile), plan=plan, stdin=stdin,
            tty=self.cfg["clients"][n]["tty"] if tty is None else tty, env=self.env(n))

    def cmd(self, n, cmd, args=(), plan=(), profile=PROFILE, stdin="", tty=None, max_steps=200_000):
        p = self.start(n, cmd, args, plan, profile, stdin, tty)
        self.run(lambda: p.ended, max_steps=max_steps)
        self.k.forget()
        return Result(p)

    def run(self, done, **kw):
        try:
            return self.k.run(done=done, **kw)
        except (KN.StepLimit, KN.Deadlock) as e:
            what = ", ".join("%s %s" % (p.client.name, " ".join(p.argv[1:]))
                             for p in self.k.live()) or "a command"
            self.k.abort()
            raise Violation("hang", "%s does not come to an end (%s)" % (what, e)) from None

    def par(self, specs, preempts=(), max_steps=600_000):
        """specs: [dict(c, cmd, args, plan, profile, delay)] run concurrently."""
        ps = []
        for s in specs:
            plan = list(s.get("plan", ()))
            if s.get("delay"):
                plan.append({"at": 1, "unit": "s", "do": "stall:%s" % s["delay"]})
            ps.append(self.start(s["c"], s["cmd"], s.get("args", ()), plan,
                                 s.get("profile", PROFILE), s.get("stdin", "")))
        self.k.schedule_trace = []
        self.run(lambda: all(p.ended for p in ps), preempts=preempts, max_steps=max_steps)
        self.k.forget()
        return [Result(p) for p in ps]

    # -- environment --------------------------------------------------------------
    def world_event(self, client, what):
        """Environment changes: at once, or as a fault planned inside a command."""
        w = self.k.world
        parts = what.split(",")
        a = parts[0]
        if a == "unmount":
            for key, fs in list(client.mounts.items()):
                if fs == "R":
                    self.k.inotify.unmounted(client, "R")
                    del client.mounts[key]
        elif a == "mount":
            root = V.Client("root", client.name, 0)
            ino = self.v.lookup(root, "/mnt/r").inode.ino
            client.mounts[(client.name, ino)] = "R"
        elif a in ("hide", "unhide"):
            x, y = self.remote_path(0), "/home/u/.hidden-remote"
            try:
                if a == "hide":
                    self.v.lookup(client, x)
                    self.v.rename(client, x, y)
                else:
                    self.v.lookup(client, y)
                    try:
                        self.v.lookup(client, x)
                    except OSError:
                        pass
                    else:
                        self._rmtree(client, x)
                    self.v.rename(client, y, x)
            except OSError:
                return
        elif a == "overflow":
            self.k.inotify.overflow(client)
        elif a == "fail":
            w.fss[parts[1]].fail = getattr(errno, parts[2])
        elif a == "unfail":
            w.fss[parts[1]].fail = None
        elif a == "full":
            fs = w.fss[parts[1]]
            fs.capacity = fs.used() + int(parts[2]) * fs.block
        elif a == "unfull":
            w.fss[parts[1]].capacity = None
        elif a == "skew":
            client.skew += int(float(parts[1]) * SEC)
            for f in w.fss:
                if f.startswith(client.name):
                    w.fss[f].skew += int(float(parts[1]) * SEC)
        elif a == "jump":
            w.clock += int(float(parts[1]) * SEC)
        else:
            raise KN.HarnessError("world event " + what)
        self.k.count("env:" + a)

    # -- user actions ----------------------------------------------------------------
    @contextlib.contextmanager
    def roomy(self):
        """Users only save what fits; what they write here doesn't take up the room."""
        caps = [(f, f.capacity, f.used()) for f in self.k.world.fss.values() if f.capacity is not None]
        for f, _, _ in caps:
            f.capacity = None
        try:
            yield
        finally:
            for f, c, u in caps:
                f.capacity = max(0, c + f.used() - u)

    def new_token(self, size):
        self.st["ntok"] += 1
        t = self.st["ntok"]
        data = M.content(t, size)
        if size > 0:
            self.st["tokens"][t] = (len(data), True)
            return t, data
        return None, b""

    def release_data(self, data):
        t, ok = M.token_of(data)
        if t is not None and t in self.st["tokens"]:
            self.st["tokens"][t] = (self.st["tokens"][t][0], False)

    def release_at(self, client, path, n=None):
        """The user gives up what is at path (seen through links).

        What is behind a placeholder is given up only if it is the version that was there at the
        last sync: a version the user has never seen is not the user's to delete.
        """
        if n is not None:
            try:
                l = self.v.lookup(client, path, False)
            except OSError:
                return
            if l.inode.kind == "l":
                rel = path[len(self.local_path(n)) + 1:]
                if self.is_placeholder(n, rel, l.inode.target):
                    b = self.st["base"].get(client.name, {}).get(rel)
                    if b is not None and b != self.remote_tree().get(rel):
                        return
                    if b is not None and b[0] == "f":
                        self.release_data(b[1])
                        return
        try:
            x = self.v.lookup(client, path, True)
        except OSError:
            return
        if x.inode.kind == "f":
            self.release_data(x.inode.data)
        elif x.inode.kind == "d":
            try:
                l = self.v.lookup(client, path, False)
            except OSError:
                return
            if l.inode.kind == "l":
                return
            for p, i in self.v.tree(client, path).items():
                if i.kind == "f":
                    self.release_data(i.data)
                elif i.kind == "l":
                    self.release_at(client, path + "/" + p, n)

    def user_write(self, client, path, size, mode=0o644, how="write"):
        """Write a new version of a file the way an editor does. False if impossible."""
        with self.roomy():
            return self._user_write(client, path, size, mode, how)

    def _user_write(self, client, path, size, mode, how):
        v = self.v
        t, data = None, None
        try:
            d = path.rsplit("/", 1)[0]
            if how == "save":
                n = v.resolve(client, path, False)
                if n.inode is not None and n.inode.kind == "d":
                    return False
                self.release_at(client, path)
                t, data = self.new_token(size)
                tmp = d + "/.#save"
                v.write_file(client, tmp, data, mode)
                v.rename(client, tmp, path)
            else:
                n = v.resolve(client, path, True)
                if n.inode is not None:
                    if n.inode.kind == "d":
                        return False
                    if not v._may(client, n.inode, 2):
                        return False
                    self.release_data(n.inode.data)
                t, data = self.new_token(size)
                v.write_file(client, path, data, mode)
        except OSError:
            if t is not None:
                self.st["tokens"].pop(t, None)
            return False
        return True

    def user_rm(self, client, path, tree=False, n=None):
        v = self.v
        try:
            x = v.lookup(client, path, False)
        except OSError:
            return False
        if x.inode.kind == "d":
            if not tree:
                if x.inode.entries:
                    return False
                v.rmdir(client, path)
                return True
            self.release_at(client, path, n)
            self._rmtree(client, path)
            return True
        self.release_at(client, path, n)
        v.unlink(client, path)
        return True

    def _rmtree(self, client, path):
        v = self.v
        n = v.lookup(client, path, False)
        for name in sorted(n.inode.entries):
            p = path + "/" + name
            if v.lookup(client, p, False).inode.kind == "d":
                self._rmtree(client, p)
            else:
                v.unlink(client, p)
        v.rmdir(client, path)

    # -- observations ------------------------------------------------------------------
    def remote_tree(self, meta=None, n=0):
        """Logical tree of the remote directory, the util directory left out."""
        base = self.remote_root()
        out = {}
        if base is None:
            return out
        fs, root = base
        todo = [("", root)]
        while todo:
            pre, d = todo.pop()
            for name, ino in d.entries.items():
                if not pre and name == ".zielen":
                    continue
                i = fs.inodes[ino]
                p = pre + name
                out[p] = self._entry(i)
                if meta is not None:
                    meta[p] = (i.mtime, i.mode)
                if i.kind == "d":
                    todo.append((p + "/", i))
        return out

    @staticmethod
    def _entry(i):
        if i.kind == "f":
            return ("f", i.data)
        if i.kind == "l":
            return ("l", i.target)
        return ("d",)

    def remote_root(self):
        w = self.k.world
        if self.cfg["rlocal"]:
            c = w.clients["A"]
            try:
                n = self.v.lookup(c, "/home/u/.hidden-remote")
            except OSError:
                try:
                    n = self.v.lookup(c, "/home/u/remote")
                except OSError:
                    return None
            return n.fs, n.inode
        fs = w.fss["R"]
        i = fs.inodes[V.ROOT_INO]
        for part in [x for x in self.cfg["rsub"].split("/") if x]:
            ino = i.entries.get(part)
            if ino is None:
                return None
            i = fs.inodes[ino]
        return (fs, i) if i.kind == "d" else None

    def util_dir(self):
        r = self.remote_root()
        if r is None:
            return None
        fs, i = r
        ino = i.entries.get(".zielen")
        return (fs, fs.inodes[ino]) if ino is not None else None

    def excludes(self, n):
        return self.st.get("exclude", {}).get(str(n), [])

    def trash_tree(self):
        """{relative path: Inode} of the remote trash."""
        u = self.util_dir()
        out = {}
        if u is None:
            return out
        fs, i = u
        ino = i.entries.get("Trash")
        if ino is None:
            return out
        todo = [("", fs.inodes[ino])]
        while todo:
            pre, d = todo.pop()
            for name, ino in d.entries.items():
                x = fs.inodes[ino]
                out[pre + name] = x
                if x.kind == "d":
                    todo.append((pre + name + "/", x))
        return out

    def is_placeholder(self, n, rel, target):
        return target.startswith("/") and os.path.normpath(target) == self.remote_path(n) + "/" + rel

    def points_to_remote(self, n, rel, target):
        t = target if target.startswith("/") else os.path.join(
            self.local_path(n), os.path.dirname(rel), target)
        t = os.path.normpath(t)
        return t == self.remote_path(n) or t.startswith(self.remote_path(n) + "/")

    def safe_link(self, n, rel, target):
        """Does a relative link stay inside the directory?"""
        if target.startswith("/"):
            return False
        return os.path.normpath(os.path.join(os.path.dirname(rel), target)).split("/")[0] != ".."

    def local_raw(self, n):
        """{relative path: Inode} of a local directory."""
        return self.v.tree(self.client(n), self.local_path(n))

    def local_tree(self, n, meta=None, links=None):
        """Logical local tree: placeholders are ("P",); unsafe links left out (put into links)."""
        out = {}
        for p, i in self.local_raw(n).items():
            if i.kind == "l":
                if self.is_placeholder(n, p, i.target):
                    out[p] = ("P",)
                elif self.safe_link(n, p, i.target):
                    out[p] = ("l", i.target)
                elif links is not None:
                    links[p] = i.target
                    continue
                else:
                    continue
            else:
                out[p] = self._entry(i)
            if meta is not None:
                meta[p] = (i.mtime, i.mode)
        return out

    def logical_local(self, n, base, remote=None):
        """Local tree with placeholders read as 'unchanged since base'."""
        meta = {}
        t = self.local_tree(n, meta)
        out = {}
        for p, e in t.items():
            if e[0] == "P":
                if p in base:
                    out[p] = base[p]
                elif remote is not None and p in remote:
                    out[p] = remote[p]
                # else: a dangling placeholder of a file never synced
            else:
                out[p] = e
        return out, meta

    def live_tokens(self):
        return {t for t, (s, live) in self.st["tokens"].items() if live}

    def found_tokens(self, where=None):
        """Tokens present complete in a local directory, the remote directory or the trash."""
        out = {}

        def see(data, loc):
            t, ok = M.token_of(data)
            if t is not None and ok:
                out.setdefault(t, []).append(loc)
        for n in range(len(self.cfg["clients"])):
            for p, i in self.local_raw(n).items():
                if i.kind == "f":
                    see(i.data, "%s:%s" % ("ABCDEF"[n], p))
        for p, e in self.remote_tree().items():
            if e[0] == "f":
                see(e[1], "remote:" + p)
        for p, i in self.trash_tree().items():
            if i.kind == "f":
                see(i.data, "trash:" + p)
        return out

    def db_rows(self, n, profile=PROFILE):
        """{path: (directory, priority, local)} of a profile database, {} if unreadable."""
        try:
            i = self.v.lookup(self.client(n), self.profile_dir(n, profile) + "/local.db").inode
            rows = patch.db_query(self.k.world, i,
                                  "SELECT path, directory, priority, local FROM nodes")
        except Exception:
            return None
        return {r[0]: (bool(r[1]), r[2], bool(r[3])) for r in rows}

    def info(self, n, profile=PROFILE):
        import json
        try:
            return json.loads(self.v.read_file(
                self.client(n), self.profile_dir(n, profile) + "/info.json").decode())
        except Exception:
            return None

    def describe(self):
        out = []
        for n in range(len(self.cfg["clients"])):
            out.append("local %s:" % "ABCDEF"[n])
            for p, i in sorted(self.local_raw(n).items()):
                e = self._entry(i)
                out.append("  %s %s" % (p, M.show(e)))
        out.append("remote:")
        for p, e in sorted(self.remote_tree().items()):
            out.append("  %s %s" % (p, M.show(e)))
        out.append("trash:")
        for p, i in sorted(self.trash_tree().items()):
            out.append("  %s %s" % (p, M.show(self._entry(i))))
        return "\n".join(out)
