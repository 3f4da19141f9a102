"""Puts the simulator behind the standard library.

Every patched function asks whether a simulated thread is running (kernel.current); if not, the original is
called, so that the harness itself can go on using the standard library.
"""
import atexit as _atexit
import builtins
import datetime as _datetime
import errno
import fcntl as _fcntl
import glob as _glob
import io
import os
import pathlib as _pathlib
import queue as _queue
import random as _random
import shutil
import signal as _signal
import socket as _socket
import sqlite3
import urllib.parse
import stat as _stat
import subprocess as _subprocess
import sys
import tempfile
import threading
import time as _time
import traceback
import uuid as _uuid
import collections

from . import vfs as V
from .kernel import SimKill, HarnessError, TICK_NS, STEP_NS, ProcOut, EPOCH

K = None            # the kernel
SCRATCH = None      # real directory for sqlite files

ORIG = {}


BOOTED = (EPOCH - 5000) * 10**9

def _cur():
    return K is not None and K.current is not None


def _p():
    return K.current.proc


def _path(path):
    p = os.fspath(path)
    return os.fsdecode(p) if isinstance(p, bytes) else p


def _abs(p, path):
    if path.startswith("/"):
        return path
    return p.cwd + "/" + path


def _stale(client, fs):
    """The disk is no longer mounted on this machine."""
    return fs.name != client.root and fs.name not in client.mounts.values()


def _wrap(module, name, follow=False):
    def deco(fn):
        orig = getattr(module, name)
        ORIG[(module.__name__, name)] = orig

        def wrapper(*a, **kw):
            if K is None or K.current is None:
                return orig(*a, **kw)
            return fn(*a, **kw)
        wrapper.__name__ = name
        wrapper.__qualname__ = name
        wrapper._sim = fn
        setattr(module, name, wrapper)
        if module is os:
            for s in ("supports_follow_symlinks", "supports_dir_fd", "supports_fd",
                      "supports_effective_ids"):
                ss = getattr(os, s)
                if orig in ss and s == "supports_follow_symlinks":
                    ss.add(wrapper)
        return wrapper
    return deco


def _nodirfd(kw):
    for k in ("dir_fd", "src_dir_fd", "dst_dir_fd"):
        if kw.get(k) is not None:
            raise HarnessError("dir_fd is not simulated")


# ---------------------------------------------------------------- descriptors

class Fd:
    def __init__(self, f):
        self.f = f


def _fd(fd):
    try:
        return _p().fds[fd].f
    except KeyError:
        raise V.err(errno.EBADF)


def _newfd(f):
    p = _p()
    fd = p.next_fd
    p.next_fd += 1
    p.fds[fd] = Fd(f)
    return fd


def _do_read(f, n):
    K.enter("read", f.path)
    if _stale(f.client, f.fs):
        raise V.err(errno.EIO, f.path)
    return K.vfs.read(f, n)


def _do_write(f, b):
    act = K.enter("write", f.path, True)
    if _stale(f.client, f.fs):
        raise V.err(errno.EIO, f.path)
    if act == "torn":
        K.vfs.write(f, bytes(b)[:max(1, len(b) // 2)])
        K.kill(_p(), "SIGKILL")
        raise SimKill()
    return K.vfs.write(f, b)


class SimRaw(io.RawIOBase):
    """An unbuffered simulated file."""

    def __init__(self, f, fd, mode, name, closefd=True):
        self._f = f
        self._fdno = fd
        self._proc = _p()
        self.name = name
        self.mode = mode
        self._closefd = closefd

    def readable(self):
        return self._f.flags & os.O_ACCMODE != os.O_WRONLY

    def writable(self):
        return self._f.flags & os.O_ACCMODE != os.O_RDONLY

    def seekable(self):
        return True

    def fileno(self):
        return self._fdno

    def isatty(self):
        return False

    def readinto(self, b):
        if not self.readable():
            raise io.UnsupportedOperation("not readable")
        d = _do_read(self._f, len(b))
        b[:len(d)] = d
        return len(d)

    def write(self, b):
        if not self.writable():
            raise io.UnsupportedOperation("not writable")
        if self._proc.dead or K.current is None:
            return len(b)           # a dead process' buffers go nowhere
        return _do_write(self._f, b)

    def seek(self, off, whence=0):
        f = self._f
        if whence == 0:
            f.pos = off
        elif whence == 1:
            f.pos += off
        else:
            f.pos = len(f.inode.data) + off
        return f.pos

    def tell(self):
        return self._f.pos

    def truncate(self, size=None):
        if size is None:
            size = self._f.pos
        K.enter("ftruncate", self._f.path, True)
        K.vfs.truncate_file(self._f, size)
        return size

    def close(self):
        if not self.closed:
            super().close()
            if self._closefd:
                self._proc.fds.pop(self._fdno, None)


def _open_flags(mode):
    m = set(mode) - set("bt")
    if "x" in m:
        fl = os.O_CREAT | os.O_EXCL
    elif "w" in m:
        fl = os.O_CREAT | os.O_TRUNC
    elif "a" in m:
        fl = os.O_CREAT | os.O_APPEND
    elif "r" in m:
        fl = 0
    else:
        raise ValueError("must have exactly one of create/read/write/append mode")
    if "+" in m:
        fl |= os.O_RDWR
    elif "r" in m:
        fl |= os.O_RDONLY
    else:
        fl |= os.O_WRONLY
    return fl


PASS = ("/repo/", "/usr/lib/python3", "/usr/local/lib/python3", "/opt/", "/verif/")


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    flags = _open_flags(mode)
    if isinstance(file, int):
        fd = file
        f = _fd(fd)
        name = file
    else:
        name = file
        path = _path(file)
        if opener is not None:
            fd = opener(path, flags | os.O_CLOEXEC)
            f = _fd(fd)
        else:
            if path.startswith(PASS) and flags & os.O_ACCMODE == os.O_RDONLY:
                return ORIG[("builtins", "open")](file, mode, buffering, encoding, errors,
                                                  newline, closefd)
            fd = _os_open(path, flags, 0o666)
            f = _fd(fd)
        if f.inode.kind == "d":
            _p().fds.pop(fd, None)
            raise V.err(errno.EISDIR, path)
    raw = SimRaw(f, fd, mode, name, closefd)
    if flags & os.O_APPEND:
        f.pos = len(f.inode.data)
    binary = "b" in mode
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if "+" in mode:
        buf = io.BufferedRandom(raw, size)
    elif raw.writable():
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    txt = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, buffering == 1)
    txt.mode = mode
    return txt


def _os_open(path, flags, mode=0o777, **kw):
    _nodirfd(kw)
    p = _p()
    path = _path(path)
    if path == os.devnull or path == "/dev/null":
        # no effects: an anonymous file
        K.enter("open", path)
        f = V.OpenFile(p.client, K.world.fss[p.client.root],
                       V.Inode(0, "f", 0o666, 0, 0), flags, path, path)
        return _newfd(f)
    acc = flags & os.O_ACCMODE
    # an open that creates or truncates is an effect
    K.enter("open", path, bool(flags & (os.O_CREAT | os.O_TRUNC)) and acc != os.O_RDONLY)
    f = K.vfs.open(p.client, path, flags, mode, p.cwd)
    return _newfd(f)


# ---------------------------------------------------------------- directory entries

class SimDirEntry:
    __slots__ = ("name", "path", "_kind", "_st", "_lst", "_proc")

    def __init__(self, name, path, kind, proc):
        self.name = name
        self.path = path
        self._kind = kind
        self._st = None
        self._lst = None
        self._proc = proc

    def __fspath__(self):
        return self.path

    def __repr__(self):
        return "<DirEntry %r>" % self.name

    def stat(self, *, follow_symlinks=True):
        if not follow_symlinks or self._kind != "l":
            if self._lst is None:
                self._lst = os.stat(self.path, follow_symlinks=False)
            return self._lst
        if self._st is None:
            self._st = os.stat(self.path)
        return self._st

    def inode(self):
        return self.stat(follow_symlinks=False).st_ino

    def is_symlink(self):
        return self._kind == "l"

    def is_junction(self):
        return False

    def is_dir(self, *, follow_symlinks=True):
        if self._kind != "l" or not follow_symlinks:
            return self._kind == "d"
        try:
            return _stat.S_ISDIR(self.stat().st_mode)
        except FileNotFoundError:
            return False

    def is_file(self, *, follow_symlinks=True):
        if self._kind != "l" or not follow_symlinks:
            return self._kind == "f"
        try:
            return _stat.S_ISREG(self.stat().st_mode)
        except FileNotFoundError:
            return False


class SimScandir:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._it = iter(())


# ---------------------------------------------------------------- sqlite

class DBReg:
    """Scratch files behind simulated database inodes."""

    def __init__(self):
        self.open = {}      # id(inode) -> [real path, count, inode, fs]
        self.n = 0

    def attach(self, fs, inode):
        key = id(inode)
        r = self.open.get(key)
        if r is None:
            self.n += 1
            real = os.path.join(SCRATCH, "db%d" % self.n)
            with ORIG[("builtins", "open")](real, "wb") as f:
                f.write(inode.data)
            r = self.open[key] = [real, 0, inode, fs]
        r[1] += 1
        return r

    def detach(self, inode):
        r = self.open[id(inode)]
        r[1] -= 1
        if r[1] == 0:
            del self.open[id(inode)]
            with ORIG[("builtins", "open")](r[0], "rb") as f:
                inode.data = f.read()
            for suffix in ("", "-wal", "-shm", "-journal"):
                try:
                    ORIG[("os", "unlink")](r[0] + suffix)
                except FileNotFoundError:
                    pass

    def sync_size(self, inode):
        pass


DBS = DBReg()


class SimCursor(sqlite3.Cursor):
    def execute(self, sql, params=()):
        if K.current is None:
            return super().execute(sql, params)
        return self.connection._op("execute", sql, lambda: super(SimCursor, self).execute(sql, params))

    def executemany(self, sql, params):
        if K.current is None:
            return super().executemany(sql, params)
        params = list(params)
        if not params:
            # no statement is run, but an implicit transaction is still opened
            return super().executemany(sql, params)
        return self.connection._op("executemany", sql,
                                   lambda: super(SimCursor, self).executemany(sql, params))

    def executescript(self, sql):
        if K.current is None:
            return super().executescript(sql)
        return self.connection._op("executescript", sql,
                                   lambda: super(SimCursor, self).executescript(sql))


_READ = ("SELECT", "PRAGMA", "EXPLAIN")


class SimConnection(sqlite3.Connection):
    _sim = False
    _wrote = False

    def _setup(self, proc, fs, inode, reg, timeout, path):
        self._sim = True
        self._proc = proc
        self._thread = K.current
        self._fs = fs
        self._inode = inode
        self._reg = reg
        self._timeout = timeout
        self._path = path
        self._shut = False
        proc.conns.append(self)

    def _fast(self):
        """The scratch file need not reach a disk. Not possible while it is locked."""
        c = super().cursor()
        try:
            c.execute("PRAGMA synchronous=OFF")
            if self._proc.client.spill:
                # the database is larger than the cache: what is written in a transaction goes to
                # the file, which keeps readers out, before it is committed
                c.execute("PRAGMA cache_size=1")
            self._quick = True
        except sqlite3.OperationalError:
            self._quick = False
        c.close()

    def cursor(self, factory=SimCursor):
        return super().cursor(factory)

    def _op(self, name, sql, call):
        if self._shut:
            if self._proc.dead:
                raise SimKill()
            raise sqlite3.ProgrammingError("Cannot operate on a closed database.")
        if K.current is not self._thread:
            raise sqlite3.ProgrammingError(
                "SQLite objects created in a thread can only be used in that same thread.")
        write = not sql.lstrip().upper().startswith(_READ)
        if write and not sql.lstrip().upper().startswith("BEGIN"):
            self._wrote = True
        mut = write and name in ("executescript",)
        remote = self._is_remote()
        waited = 0.0
        while True:
            act = K.enter("sqlite." + name, self._path, mut, remote)
            self._check_io(act, write)
            if not self._quick and not self.in_transaction:
                self._fast()
            try:
                r = call()
                if self._proc.client.spill and write and self.in_transaction and \
                        not sql.lstrip().upper().startswith("BEGIN"):
                    self._spill()
                return r
            except sqlite3.OperationalError as e:
                code = getattr(e, "sqlite_errorcode", None)
                if code not in (5, 6):
                    raise
                if waited >= self._timeout:
                    K.count("db_busy_timeout")
                    raise
                K.count("db_busy_wait")
                step = 0.02 if waited < 0.1 else 0.1
                K.sleep(step)
                waited += step

    def _spill(self):
        """The transaction is larger than the cache: it starts writing to the file now, which keeps
        readers out until it is over."""
        c = super().cursor()
        try:
            c.execute("SAVEPOINT spill")
            c.execute("CREATE TABLE spill(x)")
            c.execute("INSERT INTO spill VALUES(zeroblob(60000))")
            c.execute("ROLLBACK TO spill")
            c.execute("RELEASE spill")
        finally:
            c.close()

    def _is_remote(self):
        return self._fs.name != self._proc.client.root

    def _check_io(self, act, write):
        if act == "dberr" or self._fs.fail is not None or _stale(self._proc.client, self._fs):
            self._real_rollback()
            raise sqlite3.OperationalError("disk I/O error")
        if write and self._fs.capacity is not None and self._fs.free() < 3 * self._fs.block:
            self._real_rollback()
            K.count("db_full")
            raise sqlite3.OperationalError("database or disk is full")

    def _real_rollback(self):
        try:
            super().rollback()
        except sqlite3.Error:
            pass

    def commit(self):
        if not self._sim or K.current is None:
            return super().commit()
        # an empty commit has no effect and cannot fail
        if not self.in_transaction and not self._shut:
            K.enter("sqlite.commit0", self._path, False, self._is_remote())
            return super().commit()
        if self._shut:
            return self._op("commit", "COMMIT", lambda: None)
        waited = 0.0
        while True:
            act = K.enter("sqlite.commit", self._path, True, self._is_remote())
            self._check_io(act, self._wrote)
            self._wrote = False
            try:
                r = super().commit()
                K.vfs._mon(self._proc.client, "write", self._real)
                self._inode.mtime = K.vfs.now(self._fs)
                return r
            except sqlite3.OperationalError as e:
                if getattr(e, "sqlite_errorcode", None) not in (5, 6):
                    raise
                if waited >= self._timeout:
                    K.count("db_busy_timeout")
                    raise
                K.count("db_busy_wait")
                K.sleep(0.1)
                waited += 0.1

    def rollback(self):
        if not self._sim or K.current is None:
            return super().rollback()
        K.enter("sqlite.rollback", self._path)
        return super().rollback()

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            self.commit()
        elif not self._shut and not self._proc.dead:
            super().rollback()
        return False

    def close(self):
        if not self._sim or K.current is None:
            return super().close()
        K.enter("sqlite.close", self._path)
        self._sim_close()

    def _sim_close(self):
        if self._shut:
            return
        self._shut = True
        try:
            super().rollback()
        except sqlite3.Error:
            pass
        super().close()
        DBS.detach(self._inode)
        if self in self._proc.conns:
            self._proc.conns.remove(self)

    def __del__(self):
        if self._sim and not self._shut:
            self._sim_close()


def sim_connect(database, timeout=5.0, detect_types=0, isolation_level="", check_same_thread=True,
                factory=None, cached_statements=128, uri=False, **kw):
    path = _path(database)
    if path == ":memory:":
        return ORIG[("sqlite3", "connect")](database, timeout, detect_types, isolation_level,
                                            **kw)
    p = _p()
    mode = "rwc"
    if uri and path.startswith("file:"):
        u = urllib.parse.urlsplit(path)
        path = urllib.parse.unquote(u.path)
        mode = urllib.parse.parse_qs(u.query).get("mode", ["rwc"])[0]
    K.enter("sqlite.connect", path, False)
    try:
        n = K.vfs.resolve(p.client, path, True, p.cwd)
        if n.inode is None and mode != "rwc":
            raise V.err(errno.ENOENT, path)
        if n.inode is None:
            f = K.vfs.open(p.client, path, os.O_RDWR | os.O_CREAT, 0o644, p.cwd)
            n = K.vfs.resolve(p.client, path, True, p.cwd)
        if n.inode.kind != "f":
            raise V.err(errno.EISDIR, path)
    except OSError:
        raise sqlite3.OperationalError("unable to open database file") from None
    n.inode.isdb = True
    reg = DBS.attach(n.fs, n.inode)
    conn = ORIG[("sqlite3", "connect")](
        reg[0], timeout=0, detect_types=detect_types, isolation_level=isolation_level,
        check_same_thread=False, factory=SimConnection, cached_statements=cached_statements)
    conn._setup(p, n.fs, n.inode, reg, timeout, path)
    conn._real = n.real
    conn._fast()
    return conn


def db_query(world, inode, sql, params=()):
    """Read a database from the driver (no simulated process involved)."""
    r = DBS.open.get(id(inode))
    if r is not None:
        c = ORIG[("sqlite3", "connect")](r[0])
        try:
            return c.execute(sql, params).fetchall()
        finally:
            c.close()
    c = ORIG[("sqlite3", "connect")](":memory:")
    try:
        data = bytearray(inode.data)
        if len(data) > 20 and data[18] == 2:      # WAL mode flag: read as rollback journal
            data[18] = data[19] = 1
        c.deserialize(bytes(data))
        return c.execute(sql, params).fetchall()
    finally:
        c.close()


def db_exec(world, inode, stmts):
    """Change a database nobody has open. stmts: [(sql, params)]"""
    assert DBS.open.get(id(inode)) is None
    c = ORIG[("sqlite3", "connect")](":memory:")
    try:
        data = bytearray(inode.data)
        if len(data) > 20 and data[18] == 2:
            data[18] = data[19] = 1
        c.deserialize(bytes(data))
        for sql, params in stmts:
            c.execute(sql, params)
        c.commit()
        inode.data = c.serialize()
    finally:
        c.close()


# ---------------------------------------------------------------- threads and queues

class SimThreadObj:
    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target = target
        self._args = args
        self._kwargs = kwargs or {}
        self.name = name or "Thread"
        self.daemon = bool(daemon)
        self._t = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if self._t is not None:
            raise RuntimeError("threads can only be started once")
        p = _p()
        K.enter("thread.start", self.name)

        def main():
            try:
                self.run()
            except SimKill:
                raise
            except SystemExit:
                pass
            except BaseException as e:
                p.thread_errors = getattr(p, "thread_errors", [])
                p.thread_errors.append("%s: %s" % (type(e).__name__, e))
                cur, K.current = K.current, None
                tb = traceback.format_exc()
                K.current = cur
                p.tb += tb
                try:
                    p.stderr.write("Exception in thread %s:\n%s" % (self.name, tb))
                except SimKill:
                    pass
        self._t = K.start_thread(p, main, self.name, self.daemon)

    def join(self, timeout=None):
        K.enter("thread.join", self.name)
        K.block(lambda: self._t.state == "done", timeout)

    def is_alive(self):
        return self._t is not None and self._t.state != "done"

    def setDaemon(self, v):
        self.daemon = v

    def getName(self):
        return self.name

    @property
    def ident(self):
        return self._t.idx if self._t else None


class SimLock:
    def __init__(self):
        self._owner = None
        self._n = 0
        self._re = False

    def acquire(self, blocking=True, timeout=-1):
        K.enter("lock.acquire")
        if self._owner is not None and not (self._re and self._owner is K.current):
            if not blocking:
                return False
            if not K.block(lambda: self._owner is None, None if timeout < 0 else timeout):
                return False
        self._owner = K.current
        self._n += 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._n -= 1
        if self._n == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    def __init__(self):
        super().__init__()
        self._re = True


class SimEvent:
    def __init__(self):
        self._f = False

    def is_set(self):
        return self._f
    isSet = is_set

    def set(self):
        self._f = True

    def clear(self):
        self._f = False

    def wait(self, timeout=None):
        K.enter("event.wait")
        return K.block(lambda: self._f, timeout)


class SimCondition:
    def __init__(self, lock=None):
        self._lock = lock or SimRLock()
        self._w = []
        self.acquire = self._lock.acquire
        self.release = self._lock.release

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        tok = [False]
        self._w.append(tok)
        n, self._lock._n, self._lock._owner = self._lock._n, 0, None
        ok = K.block(lambda: tok[0] and self._lock._owner is None, timeout)
        K.block(lambda: self._lock._owner is None)
        self._lock._n, self._lock._owner = n, K.current
        if tok in self._w:
            self._w.remove(tok)
        return ok

    def wait_for(self, pred, timeout=None):
        while not pred():
            if not self.wait(timeout):
                return pred()
        return True

    def notify(self, n=1):
        for t in self._w[:n]:
            t[0] = True
        del self._w[:n]

    def notify_all(self):
        self.notify(len(self._w))
    notifyAll = notify_all


class SimQueue:
    def __init__(self, maxsize=0):
        self.maxsize = maxsize
        self.queue = collections.deque()
        self._unfinished = 0

    def qsize(self):
        K.enter("queue.qsize")
        return len(self.queue)

    def empty(self):
        K.enter("queue.empty")
        return not self.queue

    def full(self):
        return 0 < self.maxsize <= len(self.queue)

    def put(self, item, block=True, timeout=None):
        K.enter("queue.put")
        if self.maxsize > 0 and len(self.queue) >= self.maxsize:
            if not block or not K.block(lambda: len(self.queue) < self.maxsize, timeout):
                raise _queue.Full
        self.queue.append(item)
        self._unfinished += 1

    def put_nowait(self, item):
        self.put(item, False)

    def get(self, block=True, timeout=None):
        K.enter("queue.get")
        if not self.queue:
            if not block or not K.block(lambda: bool(self.queue), timeout):
                raise _queue.Empty
        return self.queue.popleft()

    def get_nowait(self):
        return self.get(False)

    def task_done(self):
        self._unfinished -= 1

    def join(self):
        K.block(lambda: self._unfinished == 0)


# ---------------------------------------------------------------- pipes and subprocesses

class SimPipe:
    CAP = 65536

    def __init__(self, text=True):
        self.buf = ""
        self.eof = False
        self.readers = True
        self.closed = False

    # write side (in the child)
    def write(self, s):
        if not _cur():
            self.buf += s
            return len(s)
        while s:
            room = self.CAP - len(self.buf)
            if room <= 0:
                K.block(lambda: len(self.buf) < self.CAP or not self.readers)
                if not self.readers:
                    raise BrokenPipeError(errno.EPIPE, "Broken pipe")
                continue
            self.buf += s[:room]
            s = s[room:]

    def close_write(self):
        self.eof = True

    def flush(self):
        pass

    # read side (in the parent)
    def readline(self, limit=-1):
        K.enter("pipe.readline")
        K.block(lambda: "\n" in self.buf or self.eof or len(self.buf) >= self.CAP)
        i = self.buf.find("\n")
        n = i + 1 if i >= 0 else len(self.buf)
        s, self.buf = self.buf[:n], self.buf[n:]
        return s

    def read(self, n=-1):
        K.enter("pipe.read")
        out = ""
        while True:
            K.block(lambda: self.buf or self.eof)
            out += self.buf
            self.buf = ""
            if self.eof:
                return out

    def readlines(self):
        return self.read().splitlines(True)

    def __iter__(self):
        return self

    def __next__(self):
        s = self.readline()
        if not s:
            raise StopIteration
        return s

    def close(self):
        self.closed = True
        self.readers = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def fileno(self):
        raise io.UnsupportedOperation("fileno")


class SimStdin:
    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def close(self):
        pass


class SimPopen:
    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None,
                 preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None,
                 universal_newlines=None, *a, text=None, encoding=None, errors=None, **kw):
        p = _p()
        self.args = args
        if isinstance(args, str):
            args = args.split()
        args = [os.fspath(x) for x in args]
        K.enter("spawn", args[0])
        name = os.path.basename(args[0])
        if name not in ("zielen", "zielend"):
            raise V.err(errno.ENOENT, args[0])
        self._text = bool(text or universal_newlines or encoding)
        child = K.spawn_command(p.client, ["zielen"] + list(args[1:]) if name == "zielen" else
                                ["zielend"] + list(args[1:]), parent=p,
                                env=p.env if env is None else env)
        if K.child_plan is not None:
            K.child_plan(p, child)
        self._proc = child
        self.pid = child.pid
        self.stdin = SimStdin() if stdin == _subprocess.PIPE else None
        self.stdout = self._mk(child.stdout, stdout, p.stdout)
        self.stderr = self._mk(child.stderr, stderr, p.stderr)
        if stderr == _subprocess.STDOUT:
            child.stderr.pipe = child.stdout.pipe or _Fwd(child.stdout)
        self.returncode = None

    @staticmethod
    def _mk(out, spec, inherit):
        if spec == _subprocess.PIPE:
            out.pipe = SimPipe()
            return out.pipe
        if spec is None:
            out.pipe = _Fwd(inherit)
        return None

    def poll(self):
        K.enter("poll")
        if self._proc.ended:
            self.returncode = self._proc.rc
        return self.returncode

    def wait(self, timeout=None):
        K.enter("wait")
        if not K.block(lambda: self._proc.ended, timeout):
            raise _subprocess.TimeoutExpired(self.args, timeout)
        self.returncode = self._proc.rc
        return self.returncode

    def communicate(self, input=None, timeout=None):
        out = ["", ""]
        pipes = [self.stdout, self.stderr]
        while True:
            ok = K.block(lambda: self._proc.ended or any(x and x.buf for x in pipes), timeout)
            if not ok:
                raise _subprocess.TimeoutExpired(self.args, timeout)
            for i, x in enumerate(pipes):
                if x:
                    out[i] += x.buf
                    x.buf = ""
            if self._proc.ended:
                break
        self.returncode = self._proc.rc
        res = [o if x else None for o, x in zip(out, pipes)]
        if not self._text:
            res = [o.encode() if o is not None else None for o in res]
        return tuple(res)

    def terminate(self):
        self.send_signal(_signal.SIGTERM)

    def kill(self):
        self.send_signal(_signal.SIGKILL)

    def send_signal(self, sig):
        K.enter("kill")
        if not self._proc.ended:
            K.signal(self._proc, sig)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()


class _Fwd:
    def __init__(self, out):
        self.out = out

    def write(self, s):
        self.out.write(s)

    def close_write(self):
        pass


# ---------------------------------------------------------------- sockets

class SimSocket:
    def __init__(self, family=-1, type=-1, proto=-1, fileno=None):
        K.enter("socket")
        self._proc = _p()
        self._bound = None
        self._proc.socks.append(self)

    def bind(self, addr):
        K.enter("bind", None)
        if isinstance(addr, bytes):
            addr = addr.decode()
        if not isinstance(addr, str) or not addr.startswith("\0"):
            raise HarnessError("only abstract sockets are simulated: %r" % (addr,))
        if self._bound is not None:
            raise V.err(errno.EINVAL)
        locks = self._proc.client.locks
        if addr in locks:
            K.count("lock_refused")
            raise V.err(errno.EADDRINUSE)
        locks[addr] = self._proc.pid
        self._bound = addr

    def listen(self, n=0):
        pass

    def close(self):
        self._sim_close()

    def _sim_close(self):
        if self._bound is not None:
            self._proc.client.locks.pop(self._bound, None)
            self._bound = None
        if self in self._proc.socks:
            self._proc.socks.remove(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        # the descriptor is closed when the object is collected
        self._sim_close()

    def setblocking(self, *a):
        pass

    def settimeout(self, *a):
        pass

    def setsockopt(self, *a):
        pass

    def fileno(self):
        return 999

    def detach(self):
        # the descriptor stays open until the process ends
        b, self._bound = self._bound, None
        return 999


# ---------------------------------------------------------------- clocks

class SimDatetime(_datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        if not _cur():
            return super().now(tz)
        return _datetime.datetime.fromtimestamp(_time.time(), tz)

    @classmethod
    def utcnow(cls):
        if not _cur():
            return super().utcnow()
        return _datetime.datetime.fromtimestamp(
            _time.time(), _datetime.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


def _sim_ns():
    t = K.current
    if t.proc.dead:
        raise SimKill()
    K.world.clock += TICK_NS
    return K.world.clock + t.proc.client.skew


# ---------------------------------------------------------------- installation

def install(kernel, scratch):
    global K, SCRATCH
    K = kernel
    SCRATCH = scratch
    if ORIG:
        return

    def W(name):
        return _wrap(os, name)

    # --- os: queries
    @W("stat")
    def _(path, *, dir_fd=None, follow_symlinks=True):
        p = _p()
        if isinstance(path, int):
            f = _fd(path)
            K.enter("fstat", f.path)
            return K.vfs.stat_inode(f.fs, f.inode)
        path = _path(path)
        K.enter("stat", path)
        return K.vfs.stat(p.client, path, follow_symlinks, p.cwd)

    @W("lstat")
    def _(path, *, dir_fd=None):
        p = _p()
        path = _path(path)
        K.enter("lstat", path)
        return K.vfs.stat(p.client, path, False, p.cwd)

    @W("fstat")
    def _(fd):
        f = _fd(fd)
        K.enter("fstat", f.path)
        return K.vfs.stat_inode(f.fs, f.inode)

    @W("access")
    def _(path, mode, *, dir_fd=None, effective_ids=False, follow_symlinks=True):
        p = _p()
        path = _path(path)
        K.enter("access", path)
        return K.vfs.access(p.client, path, mode, p.cwd, follow_symlinks)

    @W("readlink")
    def _(path, *, dir_fd=None):
        p = _p()
        path = _path(path)
        K.enter("readlink", path)
        return K.vfs.readlink(p.client, path, p.cwd)

    @W("listdir")
    def _(path="."):
        p = _p()
        path = _path(path)
        K.enter("listdir", path)
        return [n for n, k in K.vfs.listdir(p.client, path, p.cwd)]

    @W("scandir")
    def _(path="."):
        p = _p()
        if isinstance(path, int):
            raise HarnessError("scandir(fd) is not simulated")
        path = _path(path)
        K.enter("scandir", path)
        ents = K.vfs.listdir(p.client, path, p.cwd)
        return SimScandir([SimDirEntry(n, os.path.join(path, n), k, p) for n, k in ents])

    @W("statvfs")
    def _(path):
        p = _p()
        if isinstance(path, int):
            path = _fd(path).real
        path = _path(path)
        K.enter("statvfs", path)
        return K.vfs.statvfs(p.client, path, p.cwd)

    @W("getcwd")
    def _():
        return _p().cwd

    @W("chdir")
    def _(path):
        p = _p()
        path = _path(path)
        n = K.vfs.lookup(p.client, path, True, p.cwd)
        if n.inode.kind != "d":
            raise V.err(errno.ENOTDIR, path)
        if not K.vfs._may(p.client, n.inode, 1):
            raise V.err(errno.EACCES, path)
        p.cwd = n.real

    # --- os: effects
    @W("mkdir")
    def _(path, mode=0o777, *, dir_fd=None):
        p = _p()
        path = _path(path)
        K.enter("mkdir", path, True)
        K.vfs.mkdir(p.client, path, mode, p.cwd)

    @W("rmdir")
    def _(path, *, dir_fd=None):
        p = _p()
        path = _path(path)
        K.enter("rmdir", path, True)
        K.vfs.rmdir(p.client, path, p.cwd)

    def unlink(path, *, dir_fd=None):
        p = _p()
        path = _path(path)
        K.enter("unlink", path, True)
        K.vfs.unlink(p.client, path, p.cwd)
    W("unlink")(unlink)
    W("remove")(unlink)

    def rename(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        p = _p()
        src, dst = _path(src), _path(dst)
        K.enter("rename", dst, True)
        K.vfs.rename(p.client, src, dst, p.cwd)
    W("rename")(rename)
    W("replace")(rename)

    @W("link")
    def _(src, dst, *, src_dir_fd=None, dst_dir_fd=None, follow_symlinks=True):
        p = _p()
        src, dst = _path(src), _path(dst)
        K.enter("link", dst, True)
        K.vfs.link(p.client, src, dst, p.cwd, follow_symlinks and False)

    @W("symlink")
    def _(src, dst, target_is_directory=False, *, dir_fd=None):
        p = _p()
        src, dst = _path(src), _path(dst)
        K.enter("symlink", dst, True)
        K.vfs.symlink(p.client, src, dst, p.cwd)

    @W("utime")
    def _(path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
        p = _p()
        if times is not None:
            ns = tuple(int(round(x * 1e9)) for x in times)
        if isinstance(path, int):
            f = _fd(path)
            K.enter("utime", f.path, True)
            f.inode.mtime = ns[1] if ns else K.vfs.now(f.fs)
            return
        path = _path(path)
        K.enter("utime", path, True)
        K.vfs.utime(p.client, path, ns, follow_symlinks, p.cwd)

    @W("chmod")
    def _(path, mode, *, dir_fd=None, follow_symlinks=True):
        p = _p()
        if isinstance(path, int):
            f = _fd(path)
            K.enter("chmod", f.path, True)
            f.inode.mode = mode & 0o7777
            return
        path = _path(path)
        K.enter("chmod", path, True)
        K.vfs.chmod(p.client, path, mode, follow_symlinks, p.cwd)

    @W("fchmod")
    def _(fd, mode):
        f = _fd(fd)
        K.enter("chmod", f.path, True)
        f.inode.mode = mode & 0o7777

    for name in ("chown", "lchown", "fchown"):
        @W(name)
        def _(path, uid, gid, **kw):
            K.enter("chown", None, True)

    @W("truncate")
    def _(path, length):
        fd = path if isinstance(path, int) else _os_open(path, os.O_WRONLY)
        K.enter("ftruncate", _fd(fd).path, True)
        K.vfs.truncate_file(_fd(fd), length)

    W("open")(_os_open)

    @W("close")
    def _(fd):
        if _p().fds.pop(fd, None) is None:
            raise V.err(errno.EBADF)

    @W("read")
    def _(fd, n):
        return _do_read(_fd(fd), n)

    @W("write")
    def _(fd, b):
        return _do_write(_fd(fd), b)

    @W("lseek")
    def _(fd, pos, how):
        f = _fd(fd)
        f.pos = pos if how == 0 else f.pos + pos if how == 1 else len(f.inode.data) + pos
        return f.pos

    @W("ftruncate")
    def _(fd, length):
        K.enter("ftruncate", _fd(fd).path, True)
        K.vfs.truncate_file(_fd(fd), length)

    for name in ("fsync", "fdatasync"):
        @W(name)
        def _(fd):
            K.enter("fsync", _fd(fd).path)

    @W("sync")
    def _():
        K.enter("sync", None)

    for name in ("sendfile", "copy_file_range", "splice", "posix_fallocate", "pread", "pwrite",
                 "mkfifo", "mknod", "chroot", "fork", "execv", "execve", "system", "dup", "dup2",
                 "pipe", "fwalk", "posix_spawn", "popen"):
        if hasattr(os, name):
            def mk(name):
                def f(*a, **kw):
                    raise V.err(errno.ENOSYS, name)
                return f
            _wrap(os, name)(mk(name))

    @W("fdopen")
    def _(fd, mode="r", buffering=-1, encoding=None, *a, **kw):
        return sim_open(fd, mode, buffering, encoding, *a, **kw)

    @W("listxattr")
    def _(path=None, *, follow_symlinks=True):
        return []

    for name in ("getxattr", "setxattr", "removexattr"):
        @W(name)
        def _(*a, **kw):
            raise V.err(errno.ENOTSUP)

    @W("isatty")
    def _(fd):
        return False

    @W("umask")
    def _(mask):
        return 0o022

    for name in ("getuid", "geteuid", "getgid", "getegid"):
        @W(name)
        def _():
            return _p().client.uid

    @W("getpid")
    def _():
        return _p().pid

    @W("getppid")
    def _():
        return 1

    @W("kill")
    def _(pid, sig):
        for q in K.procs:
            if q.pid == pid and not q.ended and q.client is _p().client:
                if sig:
                    K.signal(q, sig)
                return
        raise V.err(errno.ESRCH)

    @W("urandom")
    def _(n):
        return _p().randbytes(n)

    @W("get_terminal_size")
    def _(fd=1):
        raise V.err(errno.ENOTTY)

    @W("cpu_count")
    def _():
        return 4

    @W("_exit")
    def _(code):
        p = _p()
        p.rc = code
        K.kill(p, "_exit")
        raise SimKill()

    # random.SystemRandom, uuid4
    _random._urandom = lambda n: os.urandom(n)
    _uuid._generate_time_safe = None

    # --- files
    ORIG[("builtins", "open")] = builtins.open

    def dispatch_open(*a, **kw):
        if K.current is None:
            return ORIG[("builtins", "open")](*a, **kw)
        return sim_open(*a, **kw)
    dispatch_open.__name__ = "open"
    builtins.open = dispatch_open
    io.open = dispatch_open

    class IoShim:
        open = staticmethod(dispatch_open)

        def __getattr__(self, name):
            return getattr(io, name)
    tempfile._io = IoShim()

    class Names:
        def __iter__(self):
            return self

        def __next__(self):
            if _cur():
                return _p().randbytes(4).hex()
            return os.urandom(4).hex()
    tempfile._name_sequence = Names()
    tempfile.tempdir = "/tmp"
    shutil._USE_CP_SENDFILE = False
    shutil._use_fd_functions = False
    if hasattr(shutil, "_rmtree_use_fd_functions"):
        shutil._rmtree_use_fd_functions = False
    shutil.rmtree.avoids_symlink_attacks = False

    @_wrap(_fcntl, "flock")
    def _(fd, op):
        _sim_flock(fd, op)

    @_wrap(_fcntl, "lockf")
    def _(fd, op, *a):
        _sim_flock(fd, op)

    # --- sqlite
    ORIG[("sqlite3", "connect")] = sqlite3.connect

    def connect(*a, **kw):
        if K.current is None:
            return ORIG[("sqlite3", "connect")](*a, **kw)
        return sim_connect(*a, **kw)
    sqlite3.connect = connect

    # --- time
    @_wrap(_time, "time")
    def _():
        K.enter("clock")
        return _sim_ns() / 1e9

    @_wrap(_time, "time_ns")
    def _():
        return _sim_ns()

    # the machine was booted some time ago
    for name in ("monotonic", "perf_counter"):
        @_wrap(_time, name)
        def _():
            _sim_ns()
            return (K.world.clock - BOOTED) / 1e9
        @_wrap(_time, name + "_ns")
        def _():
            _sim_ns()
            return K.world.clock - BOOTED

    @_wrap(_time, "sleep")
    def _(secs):
        if secs < 0:
            raise ValueError("sleep length must be non-negative")
        K.enter("sleep")
        K.sleep(secs)

    def conv(name):
        orig = getattr(_time, name)

        @_wrap(_time, name)
        def _(secs=None):
            return orig(_sim_ns() / 1e9 if secs is None else secs)
    for name in ("localtime", "gmtime", "ctime"):
        conv(name)
    orig_strftime = _time.strftime

    @_wrap(_time, "strftime")
    def _(fmt, t=None):
        return orig_strftime(fmt, _time.localtime() if t is None else t)
    _datetime.datetime = SimDatetime

    # --- processes, threads
    class ThreadMeta(type):
        def __instancecheck__(cls, obj):
            return isinstance(obj, (SimThreadObj, ORIG[("threading", "Thread")]))

    ORIG[("threading", "Thread")] = threading.Thread

    class Thread(SimThreadObj, metaclass=ThreadMeta):
        """threading.Thread as simulated code sees it."""
    threading_proxy(threading, "Thread", Thread)
    for name, sim in (("Lock", SimLock), ("RLock", SimRLock), ("Event", SimEvent),
                      ("Condition", SimCondition)):
        threading_proxy(threading, name, sim)
    for name in ("Queue", "SimpleQueue"):
        threading_proxy(_queue, name, SimQueue)
    ORIG[("subprocess", "Popen")] = _subprocess.Popen
    threading_proxy(_subprocess, "Popen", SimPopen)
    threading_proxy(_socket, "socket", SimSocket)

    @_wrap(_signal, "signal")
    def _(sig, handler):
        p = _p()
        K.enter("signal")
        old = p.handlers.get(sig, _signal.SIG_DFL)
        p.handlers[sig] = handler
        return old

    @_wrap(_signal, "getsignal")
    def _(sig):
        return _p().handlers.get(sig, _signal.SIG_DFL)

    @_wrap(_atexit, "register")
    def _(func, *a, **kw):
        _p().atexit.append((func, a, kw))
        return func

    @_wrap(_atexit, "unregister")
    def _(func):
        p = _p()
        p.atexit[:] = [x for x in p.atexit if x[0] != func]

    @_wrap(builtins, "input")
    def _(prompt=""):
        p = _p()
        K.enter("input")
        if prompt:
            sys.stdout.write(str(prompt))
        s = p.stdin.readline()
        if not s:
            raise EOFError("EOF when reading a line")
        return s.rstrip("\n")


_flocks = {}


def _sim_flock(fd, op):
    if hasattr(fd, "fileno"):
        fd = fd.fileno()
    f = _fd(fd)
    K.enter("flock", f.path)
    p = _p()
    key = id(f.inode)
    ent = _flocks.setdefault(key, {})
    for k in [k for k, v in ent.items() if v[0].ended or k[1] not in v[0].fds]:
        del ent[k]
    me = (p.pid, fd)

    def free():
        for k in [k for k, v in ent.items() if v[0].ended or k[1] not in v[0].fds]:
            del ent[k]
        return all(k == me or (v[1] == _fcntl.LOCK_SH and op & _fcntl.LOCK_SH)
                   for k, v in ent.items())
    if op & _fcntl.LOCK_UN:
        ent.pop(me, None)
        return
    if not free():
        if op & _fcntl.LOCK_NB:
            raise V.err(errno.EWOULDBLOCK)
        K.block(free)
    ent[me] = (p, op & (_fcntl.LOCK_SH | _fcntl.LOCK_EX))


class _Switch:
    """Stands for a class; simulated code gets the simulated one."""

    def __init__(self, orig, sim):
        self.__dict__["_orig"] = orig
        self.__dict__["_simc"] = sim

    def _pick(self):
        return self._simc if K is not None and K.current is not None else self._orig

    def __call__(self, *a, **kw):
        return self._pick()(*a, **kw)

    def __getattr__(self, name):
        return getattr(self._pick(), name)

    def __instancecheck__(self, obj):
        return isinstance(obj, (self._orig, self._simc)) if isinstance(self._orig, type) else False

    def __mro_entries__(self, bases):
        # classes defined by simulated modules are loaded by the driver; they derive
        # from the simulated class
        return (self._simc,) if loading else (self._orig,)


loading = False


def threading_proxy(module, name, sim):
    orig = getattr(module, name)
    ORIG.setdefault((module.__name__, name), orig)
    setattr(module, name, _Switch(orig, sim))
