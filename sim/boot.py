"""Loads the real program and runs it inside simulated processes."""
import errno
import gc
import importlib
import importlib.abc
import importlib.util
import os
import random
import sys
import traceback
import warnings

from . import kernel as KN
from . import patch
from . import vfs as V

REPO = os.environ.get("ZSIM_REPO", "/repo")
STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs")


class _Loader(importlib.abc.Loader):
    def __init__(self, code, path, ispkg):
        self.code = code
        self.path = path
        self.ispkg = ispkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(self.code, module.__dict__)


class Program:
    """Compiled sources of the repository (read once per worker)."""

    def __init__(self):
        self.codes = {}
        base = os.path.join(REPO, "zielen")
        for root, dirs, files in os.walk(base):
            dirs[:] = [d for d in dirs if d != "__pycache__"]
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(root, f)
                rel = os.path.relpath(path, REPO)[:-3].replace("/", ".")
                ispkg = rel.endswith(".__init__")
                if ispkg:
                    rel = rel[:-9]
                with open(path, "rb") as fh:
                    self.codes[rel] = (compile(fh.read(), path, "exec", dont_inherit=True), path, ispkg)
        self.scripts = {}
        for s in ("zielen", "zielend"):
            path = os.path.join(REPO, "scripts", s)
            with open(path, "rb") as fh:
                self.scripts[s] = compile(fh.read(), path, "exec", dont_inherit=True)
        with open(os.path.join(REPO, "docs/templates/config-template"), "rb") as fh:
            self.template = fh.read()
        self.pool = []
        self.loads = 0
        sys.meta_path.insert(0, self)

    def find_spec(self, name, path=None, target=None):
        c = self.codes.get(name)
        if c is None:
            return None
        return importlib.util.spec_from_loader(
            name, _Loader(*c), origin=c[1], is_package=c[2])

    def load(self):
        """A fresh set of the program's modules (never shared by two live processes)."""
        if self.pool:
            return self.pool.pop()
        self.loads += 1
        for n in [n for n in sys.modules if n == "zielen" or n.startswith("zielen.")]:
            del sys.modules[n]
        patch.loading = True
        try:
            importlib.import_module("zielen.cli")
        finally:
            patch.loading = False
        mods = {n: m for n, m in sys.modules.items()
                if n == "zielen" or n.startswith("zielen.")}
        for n in self.codes:
            if n not in mods:
                patch.loading = True
                try:
                    mods[n] = importlib.import_module(n)
                finally:
                    patch.loading = False
        return Modules(mods)

    def give_back(self, mods):
        """Reuse module instances whose state is as it was after loading."""
        if len(self.pool) < 8 and mods.state() == mods.initial:
            self.pool.append(mods)


class Modules(dict):
    def __init__(self, d):
        super().__init__(d)
        self.initial = self.state()

    def state(self):
        out = []
        for n in sorted(self):
            for k, v in self[n].__dict__.items():
                if k.startswith("__") or k == "__warningregistry__":
                    continue
                out.append((n, k, id(v)))
                if isinstance(v, (dict, list, set, bytearray)):
                    out.append(repr(v))
                elif isinstance(v, type) and getattr(v, "__module__", "").startswith("zielen"):
                    for a, x in v.__dict__.items():
                        out.append((a, id(x)))
                        if isinstance(x, (dict, list, set)) and a != "__dict__":
                            out.append(repr(x))
                elif type(v).__module__.startswith("zielen"):
                    out.append(repr(sorted(map(repr, getattr(v, "__dict__", {}).items()))))
                elif callable(v) and getattr(v, "__module__", "") == n:
                    for a, x in getattr(v, "__dict__", {}).items():
                        out.append((a, repr(x)))
                    for x in (getattr(v, "__defaults__", None) or ()):
                        if isinstance(x, (dict, list, set)):
                            out.append(repr(x))
        return out


PROGRAM = None


class Inotify:
    """Delivers file system events to the stub pyinotify of one machine."""

    def __init__(self, kernel):
        self.k = kernel
        self.log = []            # (clock, proc, pathname, isdir, mask): what was handed over

    def attach(self, wm):
        wm.proc = self.k.current.proc
        self.k.watchers.append(wm)
        self.k.vfs.watch = self.event

    def detach(self, wm):
        if wm in self.k.watchers:
            self.k.watchers.remove(wm)

    def add(self, wm, path, mask, rec, auto_add):
        k = self.k
        p = wm.proc
        k.enter("inotify.add", path)
        try:
            n = k.vfs.lookup(p.client, path, True, p.cwd)
        except OSError:
            return
        self._rec(wm, n.fs, n.inode, path, mask, auto_add, rec)

    def _rec(self, wm, fs, inode, path, mask, auto_add, rec):
        from pyinotify import IN_CREATE
        wm._w[(fs.name, inode.ino)] = [path, mask | (IN_CREATE if auto_add else 0), rec, auto_add]
        if not rec or inode.kind != "d":
            return
        for name, ino in list(inode.entries.items()):
            i = fs.inodes[ino]
            if i.kind == "d":
                self._rec(wm, fs, i, path.rstrip("/") + "/" + name, mask, auto_add, True)

    def event(self, client, fs, parent, name, kind, isdir, to=None):
        """What the kernel reports to those who watch."""
        import pyinotify as N
        for wm in self.k.watchers:
            if wm.proc.dead or wm.proc.client is not client:
                continue

            def put(fs, inode, bit, name, isdir, cookie=0):
                w = wm._w.get((fs.name, inode.ino))
                if w and w[1] & bit:
                    wm._buf.append((bit, name, isdir, w, fs, inode, cookie))
            if kind == "removed":            # a watched directory is gone
                if (fs.name, parent.ino) in wm._w:
                    self._ignored(wm, fs, parent)
            elif kind == "move":
                self.cookie += 1
                put(fs, parent, N.IN_MOVED_FROM, name, isdir, self.cookie)
                put(to[0], to[1], N.IN_MOVED_TO, to[2], isdir, self.cookie)
                if isdir:
                    put(fs, to[3], N.IN_MOVE_SELF, "", False)
            else:
                put(fs, parent, N.IN_OPEN if kind == "open" else N.IN_CREATE, name, isdir)

    cookie = 0

    def _ignored(self, wm, fs, inode):
        from pyinotify import IN_IGNORED
        w = wm._w.pop((fs.name, inode.ino))
        wm._buf.append((IN_IGNORED, "", False, w, fs, inode, 0))

    def overflow(self, client):
        """More events than the kernel keeps."""
        from pyinotify import IN_Q_OVERFLOW
        for wm in self.k.watchers:
            if not wm.proc.dead and wm.proc.client is client:
                wm._buf.append((IN_Q_OVERFLOW, None, False, None, None, None, 0))

    def unmounted(self, client, fsname):
        from pyinotify import IN_UNMOUNT
        for wm in self.k.watchers:
            if wm.proc.dead or wm.proc.client is not client:
                continue
            for f, ino in [x for x in wm._w if x[0] == fsname]:
                fs = self.k.world.fss[f]
                w = wm._w[(f, ino)]
                inode = fs.inodes.get(ino)
                if inode is None:
                    continue
                wm._buf.append((IN_UNMOUNT, "", False, w, fs, inode, 0))
                self._ignored(wm, fs, inode)

    def next_event(self, wm):
        """What pyinotify makes of the next event (as its version 0.9.6 does)."""
        k = self.k
        k.enter("inotify.read")
        k.block(lambda: bool(wm._buf))
        import pyinotify as N
        mask, name, isdir, w, fs, inode, cookie = wm._buf.pop(0)
        if mask & N.IN_Q_OVERFLOW:
            return N.Event(mask, None, None, False)
        path = w[0]
        ev = N.Event(mask, path, name, isdir)
        if mask & (N.IN_IGNORED | N.IN_UNMOUNT):
            return ev
        if mask & N.IN_CREATE and isdir and w[3]:
            # the new directory is watched as well, and what is already in it is new
            ino = inode.entries.get(name)
            new = fs.inodes.get(ino)
            if new is not None and new.kind == "d":
                self._rec(wm, fs, new, ev.pathname, w[1], True, False)
                for x in reversed(sorted(new.entries)):
                    i = fs.inodes[new.entries[x]]
                    if (fs.name, i.ino) in wm._w:
                        continue
                    y = wm._w[(fs.name, new.ino)]
                    wm._buf.insert(0, (N.IN_CREATE, x, i.kind == "d", y, fs, new, 0))
        elif mask & N.IN_MOVED_FROM:
            wm._cookies[cookie] = ev.pathname
        elif mask & N.IN_MOVED_TO:
            if cookie in wm._cookies:
                wm._moved[wm._cookies[cookie]] = ev.pathname
            elif isdir and w[3]:
                self.add(wm, ev.pathname, w[1], True, True)
        elif mask & N.IN_MOVE_SELF:
            if path in wm._moved:
                w[0] = new = wm._moved[path]
                for x in wm._w.values():
                    if x[0].startswith(path + "/"):
                        x[0] = new + x[0][len(path):]
            elif not path.endswith("-unknown-path"):
                w[0] = path + "-unknown-path"
        self.log.append((k.world.clock, wm.proc, ev.pathname, ev.dir, ev.mask))
        return ev


def format_exc(k, e):
    """The traceback, formatted outside the simulation (it looks at source files)."""
    cur, k.current = k.current, None
    try:
        return "".join(traceback.format_exception(type(e), e, e.__traceback__))
    finally:
        k.current = cur


def boot(p):
    """Runs in the main simulated thread of a process: the real script, then atexit."""
    k = p.k
    prog = PROGRAM
    random.seed("%d/%d" % (p.seed, p.pid))
    code = prog.scripts[p.argv[0]]
    rc = 0
    try:
        exec(code, {"__name__": "__main__", "__builtins__": __builtins__})
    except SystemExit as e:
        c = e.code
        if c is None:
            rc = 0
        elif isinstance(c, int):
            rc = c & 0xff
        else:
            print(c, file=sys.stderr)
            rc = 1
    except KN.SimKill:
        raise
    except KN.HarnessError:
        raise
    except BaseException as e:
        if p.dead:
            raise KN.SimKill()
        p.exc = "%s: %s" % (type(e).__name__, e)
        p.tb += format_exc(k, e)
        p.stderr.write(p.tb)
        e.__traceback__ = None
        rc = 1
    if p.dead:
        raise KN.SimKill()
    p.in_atexit = True
    # the interpreter waits for non-daemon threads first
    k.block(lambda: all(t.state == "done" or t.daemon for t in p.threads if t is not p.main_thread))
    while p.atexit:
        f, a, kw = p.atexit.pop()
        try:
            f(*a, **kw)
        except KN.SimKill:
            raise
        except KN.HarnessError:
            raise
        except SystemExit as e:
            if isinstance(e.code, int):
                rc = e.code
        except BaseException as e:
            if p.dead:
                raise KN.SimKill()
            p.tb += format_exc(k, e)
            p.stderr.write("Error in atexit: %r\n" % (e,))
    return rc


class SimKernel(KN.Kernel):
    def __init__(self, world, scratch):
        super().__init__(world, boot)
        self.scratch = scratch
        self.inotify = Inotify(self)
        self.world_handler = None
        self.proc_seed = 0

    def world_event(self, client, what):
        self.world_handler(client, what)

    def spawn_command(self, client, argv, **kw):
        saved = self.current
        self.current = None
        real_std = None
        if saved is not None:
            self._save(saved.proc)
            real_std = (sys.stdout, sys.stderr, os.environ)
            sys.stdout, sys.stderr, os.environ = self._driver_out
        try:
            mods = PROGRAM.load()
            kw.setdefault("seed", self.proc_seed)
            p = self.spawn(client, argv, **kw)
            p.modules = mods
        finally:
            self.current = saved
            if real_std is not None:
                sys.stdout, sys.stderr, os.environ = real_std
        return p

    def enter_process(self, p):
        super().enter_process(p)
        self._argv = sys.argv
        sys.argv = p.argv

    def leave_process(self):
        super().leave_process()
        sys.argv = self._argv

    def _finish(self, p):
        super()._finish(p)
        p.stdout_cur = p.stderr_cur = None
        p.threads = []
        mods, p.modules = p.modules, None
        if self.cur_modules is mods:
            self.cur_modules = None
        if mods is not None:
            PROGRAM.give_back(mods)


def init(scratch):
    """Prepare this (real) process for simulation; returns a kernel with an empty world."""
    global PROGRAM
    warnings.simplefilter("ignore")
    os.environ["TZ"] = "UTC"
    import time
    time.tzset()
    sys.path.insert(0, STUBS)
    sys.dont_write_bytecode = True
    gc.disable()
    # modules the program or the standard library may import lazily
    import argparse, ast, bisect, bz2, concurrent.futures, contextlib, copy, csv, ctypes  # noqa
    import dataclasses, difflib, enum, filecmp, fnmatch, functools, getpass, gettext, glob  # noqa
    import grp, gzip, hashlib, heapq, inspect, itertools, json, locale, logging, logging.handlers  # noqa
    import lzma, operator, pathlib, pickle, posixpath, pprint, pwd, queue, re, secrets, select  # noqa
    import shelve, shlex, shutil, signal, socket, sqlite3, stat, string, subprocess, tarfile  # noqa
    import tempfile, textwrap, threading, traceback, types, typing, unicodedata, uuid, weakref  # noqa
    import zipfile, zlib, multiprocessing, configparser, collections.abc, encodings.idna  # noqa
    import linecache, tokenize, errno as _e, fcntl  # noqa
    # sqlite converters are process wide; the program registers them itself
    k = SimKernel(KN.World(), scratch)
    patch.install(k, scratch)
    patch.loading = True         # its threads are simulated ones
    try:
        import pyinotify
    finally:
        patch.loading = False
    pyinotify._sim = k.inotify
    PROGRAM = Program()
    return k
