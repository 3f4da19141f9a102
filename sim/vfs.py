"""An in-memory POSIX file system: several disks, mounted into per-client name spaces.

Pure data and functions; knows nothing of processes, faults or scheduling (see kernel.py). All state
is plain Python objects that World.clone() copies.
"""
import errno
import os
import stat as _stat
import zlib

ROOT_INO = 1


def err(code, path=None, path2=None):
    if path2 is not None:
        return OSError(code, os.strerror(code), path, None, path2)
    return OSError(code, os.strerror(code), path)


class Inode:
    __slots__ = ("ino", "kind", "mode", "uid", "nlink", "mtime", "ctime",
                 "atime", "data", "target", "entries", "isdb", "wver")

    def __init__(self, ino, kind, mode, uid, now):
        self.ino = ino
        self.kind = kind          # f d l
        self.mode = mode
        self.uid = uid
        self.nlink = 1
        self.mtime = self.ctime = self.atime = now   # ns
        self.data = b""
        self.target = None
        self.entries = {} if kind == "d" else None
        self.isdb = False
        self.wver = 0             # counts content changes

    def copy(self):
        n = Inode.__new__(Inode)
        n.ino = self.ino
        n.kind = self.kind
        n.mode = self.mode
        n.uid = self.uid
        n.nlink = self.nlink
        n.mtime = self.mtime
        n.ctime = self.ctime
        n.atime = self.atime
        n.data = self.data
        n.target = self.target
        n.entries = dict(self.entries) if self.entries is not None else None
        n.isdb = self.isdb
        n.wver = self.wver
        return n


class FS:
    """One disk."""

    def __init__(self, name, block=4096, dirblocks=1, capacity=None, skew=0,
                 salt=0, gran=1):
        self.name = name
        self.block = block
        self.dirblocks = dirblocks      # blocks taken by a directory (0 on tmpfs)
        self.capacity = capacity        # bytes, None: unlimited
        self.skew = skew                # ns, clock of the machine that stamps mtimes
        self.salt = salt                # listing order
        self.gran = gran                # ns, time stamp granularity
        self.fail = None                # errno every access gets
        self.inodes = {}
        self.next_ino = ROOT_INO
        self.new_inode("d", 0o755, 0, 0)

    def clone(self):
        n = FS.__new__(FS)
        n.__dict__.update(self.__dict__)
        n.inodes = {k: v.copy() for k, v in self.inodes.items()}
        return n

    def new_inode(self, kind, mode, uid, now):
        ino = self.next_ino
        self.next_ino += 1
        i = Inode(ino, kind, mode, uid, now)
        self.inodes[ino] = i
        return i

    def blocks_of(self, i):
        if i.kind == "f":
            return -(-len(i.data) // self.block)
        if i.kind == "d":
            return self.dirblocks
        return 0

    def used(self):
        return sum(self.blocks_of(i) for i in self.inodes.values()) * self.block

    def free(self):
        if self.capacity is None:
            return 1 << 50
        return max(0, self.capacity - self.used())


class Node:
    """Result of a path resolution."""
    __slots__ = ("client", "parent", "name", "fs", "inode", "real", "pfs")

    def __init__(self, client, pfs, parent, name, fs, inode, real):
        self.client = client
        self.pfs = pfs
        self.parent = parent      # Inode of the parent directory (None for a root)
        self.name = name
        self.fs = fs
        self.inode = inode        # None if it does not exist
        self.real = real          # absolute path without symlinks


class OpenFile:
    __slots__ = ("fs", "inode", "flags", "pos", "real", "closed", "client", "path")

    def __init__(self, client, fs, inode, flags, real, path):
        self.client = client
        self.fs = fs
        self.inode = inode
        self.flags = flags
        self.pos = 0
        self.real = real
        self.path = path
        self.closed = False


class Client:
    """A machine: name space, clock skew, user."""

    def __init__(self, name, rootfs, uid=1000, skew=0):
        self.name = name
        self.root = rootfs            # FS name
        self.mounts = {}              # (fsname, ino) -> fsname
        self.uid = uid
        self.skew = skew
        self.home = "/home/u"
        self.spill = False            # databases are larger than SQLite's cache
        self.locks = {}               # abstract socket name -> pid

    def clone(self):
        n = Client.__new__(Client)
        n.__dict__.update(self.__dict__)
        n.mounts = dict(self.mounts)
        n.locks = {}
        return n


class VFS:
    """System calls on a set of disks. `now` is a callable giving world ns."""

    def __init__(self, world):
        self.w = world
        self.monitor = None       # callable(client, op, real path)
        self.watch = None         # callable(client, fs, inode(dir), name, kind, isdir)

    # -- helpers -----------------------------------------------------------
    def now(self, fs):
        t = self.w.clock + fs.skew
        return t - t % fs.gran

    def _mon(self, client, op, real):
        m = self.monitor
        if m is not None:
            m(client, op, real)

    def _may(self, client, inode, bit):
        """bit: 4 read, 2 write, 1 search."""
        if client.uid == 0:
            return True
        mode = inode.mode
        if inode.uid == client.uid:
            return bool((mode >> 6) & bit)
        return bool(mode & bit)

    def resolve(self, client, path, follow=True, cwd="/"):
        """Walk a path. The last component may be missing (inode None)."""
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if path == "":
            raise err(errno.ENOENT, path)
        if "\0" in path:
            raise ValueError("embedded null byte")
        fss = self.w.fss
        mounts = client.mounts
        fs = fss[client.root]
        inode = fs.inodes[ROOT_INO]
        stack = [(None, None, "", fs, inode)]    # (pfs, parent, name, fs, inode)
        full = path if path[0] == "/" else cwd + "/" + path
        parts = [x for x in full.split("/") if x and x != "."]
        parts.reverse()
        tail = full.rsplit("/", 1)[1]
        must_dir = tail == "" or tail == "."
        links = 0
        uid = client.uid
        while parts:
            name = parts.pop()
            if inode.kind != "d":
                raise err(errno.ENOTDIR, path)
            if uid:
                m = inode.mode
                if not ((m >> 6) & 1 if inode.uid == uid else m & 1):
                    raise err(errno.EACCES, path)
            if fs.fail is not None:
                raise err(fs.fail, path)
            if name == "..":
                if len(stack) > 1:
                    stack.pop()
                    fs, inode = stack[-1][3], stack[-1][4]
                continue
            if len(name) > 63 and len(name.encode("utf-8", "surrogateescape")) > 255:
                raise err(errno.ENAMETOOLONG, path)
            last = not parts
            child = inode.entries.get(name)
            if child is None:
                if last:
                    real = "/".join(x[2] for x in stack) + "/" + name
                    return Node(client, fs, inode, name, fs, None, real)
                raise err(errno.ENOENT, path)
            cfs = fs
            ci = fs.inodes[child]
            if mounts and ci.kind == "d":
                m = mounts.get((fs.name, child))
                if m is not None:
                    cfs = fss[m]
                    ci = cfs.inodes[ROOT_INO]
            if ci.kind == "l" and (not last or follow or must_dir):
                links += 1
                if links > 40:
                    raise err(errno.ELOOP, path)
                t = ci.target
                tp = [x for x in t.split("/") if x and x != "."]
                tp.reverse()
                parts.extend(tp)
                if t.endswith("/"):
                    must_dir = True
                if t.startswith("/"):
                    del stack[1:]
                    fs, inode = stack[0][3], stack[0][4]
                continue
            stack.append((fs, inode, name, cfs, ci))
            fs, inode = cfs, ci
        pfs, parent, name, fs, inode = stack[-1]
        if must_dir and inode.kind != "d":
            raise err(errno.ENOTDIR, path)
        if fs.fail is not None:
            raise err(fs.fail, path)
        real = "/".join(x[2] for x in stack) or "/"
        return Node(client, pfs, parent, name, fs, inode, real)

    def exists_at(self, client, path):
        try:
            self.lookup(client, path, False)
        except OSError:
            return False
        return True

    def lookup(self, client, path, follow=True, cwd="/"):
        n = self.resolve(client, path, follow, cwd)
        if n.inode is None:
            raise err(errno.ENOENT, path)
        return n

    def _need_write_dir(self, n, path):
        if n.parent is None:
            raise err(errno.EBUSY, path)
        if not self._may(n.client, n.parent, 3 & 2) or not self._may(n.client, n.parent, 1):
            raise err(errno.EACCES, path)

    def _space(self, fs, blocks, path):
        if fs.capacity is not None and blocks * fs.block > fs.free():
            raise err(errno.ENOSPC, path)

    def _touch(self, fs, inode):
        inode.mtime = inode.ctime = self.now(fs)

    def _drop(self, fs, inode):
        inode.nlink -= 1
        if inode.nlink <= 0:
            # open files keep a reference to the Inode object itself
            fs.inodes.pop(inode.ino, None)

    # -- system calls ------------------------------------------------------
    def stat(self, client, path, follow=True, cwd="/"):
        return self.stat_node(self.lookup(client, path, follow, cwd))

    def stat_node(self, n):
        return self.stat_inode(n.fs, n.inode)

    def stat_inode(self, fs, i):
        kind = {"f": _stat.S_IFREG, "d": _stat.S_IFDIR, "l": _stat.S_IFLNK}[i.kind]
        if i.kind == "f":
            size = len(i.data)
        elif i.kind == "l":
            size = len(i.target.encode("utf-8", "surrogateescape"))
        else:
            size = 4096 if fs.dirblocks else 40
        mode = kind | i.mode
        nlink = i.nlink
        return os.stat_result(
            (mode, i.ino, zlib.crc32(fs.name.encode()) & 0xffff, nlink, i.uid, i.uid, size,
             i.atime // 10**9, i.mtime // 10**9, i.ctime // 10**9),
            {"st_atime": i.atime / 1e9, "st_mtime": i.mtime / 1e9, "st_ctime": i.ctime / 1e9,
             "st_atime_ns": i.atime, "st_mtime_ns": i.mtime, "st_ctime_ns": i.ctime,
             "st_blksize": fs.block, "st_blocks": fs.blocks_of(i) * fs.block // 512,
             "st_rdev": 0})

    def access(self, client, path, mode, cwd="/", follow=True):
        try:
            n = self.lookup(client, path, follow, cwd)
        except OSError:
            return False
        return all(self._may(client, n.inode, b) for b in (1, 2, 4) if mode & b)

    def mkdir(self, client, path, mode=0o777, cwd="/"):
        n = self.resolve(client, path, False, cwd)
        if n.inode is not None:
            raise err(errno.EEXIST, path)
        if path.endswith("/."):
            raise err(errno.ENOENT, path)
        self._need_write_dir(n, path)
        self._space(n.pfs, n.pfs.dirblocks, path)
        i = n.pfs.new_inode("d", mode & ~0o022, client.uid, self.now(n.pfs))
        n.parent.entries[n.name] = i.ino
        self._touch(n.pfs, n.parent)
        self._mon(client, "mkdir", n.real)
        if self.watch:
            self.watch(client, n.pfs, n.parent, n.name, "create", True)

    def rmdir(self, client, path, cwd="/"):
        n = self.lookup(client, path, False, cwd)
        if n.inode.kind != "d":
            raise err(errno.ENOTDIR, path)
        if n.parent is None or n.inode.ino == ROOT_INO:
            raise err(errno.EBUSY, path)
        if n.inode.entries:
            raise err(errno.ENOTEMPTY, path)
        self._need_write_dir(n, path)
        del n.parent.entries[n.name]
        n.fs.inodes.pop(n.inode.ino, None)
        n.inode.nlink = 0
        self._touch(n.pfs, n.parent)
        if self.watch:
            self.watch(client, n.fs, n.inode, "", "removed", True)
        self._mon(client, "rmdir", n.real)

    def unlink(self, client, path, cwd="/"):
        n = self.lookup(client, path, False, cwd)
        if n.inode.kind == "d":
            raise err(errno.EISDIR, path)
        self._need_write_dir(n, path)
        del n.parent.entries[n.name]
        self._drop(n.fs, n.inode)
        self._touch(n.pfs, n.parent)
        self._mon(client, "unlink", n.real)

    def rename(self, client, src, dst, cwd="/"):
        def parent(path):          # both parents are looked up first
            try:
                return self.resolve(client, path, False, cwd)
            except OSError:
                x = path.rstrip("/")
                if os.path.dirname(x):
                    self.lookup(client, os.path.dirname(x) + "/", True, cwd)
                return None
        s = parent(src)
        d = parent(dst)
        if os.path.basename(src) in (".", "..") or os.path.basename(dst) in (".", ".."):
            raise err(errno.EBUSY, src, dst)
        if s is None:
            s = self.resolve(client, src, False, cwd)
        if s.inode is None:
            raise err(errno.ENOENT, src, dst)
        if d is None:
            d = self.resolve(client, dst, False, cwd)
        if s.parent is None or d.parent is None or s.inode.ino == ROOT_INO:
            raise err(errno.EBUSY, src, dst)
        if s.pfs is not d.pfs:
            raise err(errno.EXDEV, src, dst)
        self._need_write_dir(s, src)
        self._need_write_dir(d, dst)
        if s.inode.kind != "d" and dst.endswith("/"):
            raise err(errno.ENOTDIR, src, dst)
        if d.inode is not None:
            if d.inode is s.inode:
                return
            if d.inode.kind == "d":
                if (s.real + "/").startswith(d.real + "/"):
                    raise err(errno.ENOTEMPTY, src, dst)
                if s.inode.kind != "d":
                    raise err(errno.EISDIR, src, dst)
                if d.inode.ino == ROOT_INO:
                    raise err(errno.EBUSY, src, dst)
                if d.inode.entries:
                    raise err(errno.ENOTEMPTY, src, dst)
            elif s.inode.kind == "d":
                raise err(errno.ENOTDIR, src, dst)
        if s.inode.kind == "d" and (d.real + "/").startswith(s.real + "/"):
            raise err(errno.EINVAL, src, dst)
        if d.inode is not None:
            if d.inode.kind == "d":
                d.fs.inodes.pop(d.inode.ino, None)
            else:
                self._drop(d.fs, d.inode)
        del s.parent.entries[s.name]
        d.parent.entries[d.name] = s.inode.ino
        s.inode.ctime = self.now(s.fs)
        self._touch(s.pfs, s.parent)
        self._touch(d.pfs, d.parent)
        if self.watch:
            self.watch(client, s.pfs, s.parent, s.name, "move", s.inode.kind == "d",
                       (d.pfs, d.parent, d.name, s.inode))
        self._mon(client, "rename_from", s.real)
        self._mon(client, "rename_to", d.real)

    def link(self, client, src, dst, cwd="/", follow=False):
        s = self.lookup(client, src, follow, cwd)
        d = self.resolve(client, dst, False, cwd)
        if d.inode is not None:
            raise err(errno.EEXIST, src, dst)
        if dst.endswith(("/", "/.")):
            raise err(errno.ENOENT, src, dst)
        if s.inode.kind == "d":
            raise err(errno.EPERM, src, dst)
        if s.fs is not d.pfs:
            raise err(errno.EXDEV, src, dst)
        self._need_write_dir(d, dst)
        s.inode.nlink += 1
        d.parent.entries[d.name] = s.inode.ino
        self._touch(d.pfs, d.parent)
        self._mon(client, "link", d.real)

    def symlink(self, client, target, path, cwd="/"):
        if isinstance(target, bytes):
            target = os.fsdecode(target)
        if target == "":
            raise err(errno.ENOENT, target, path)
        n = self.resolve(client, path, False, cwd)
        if n.inode is not None:
            raise err(errno.EEXIST, target, path)
        if path.endswith(("/", "/.")):
            raise err(errno.ENOENT, target, path)
        self._need_write_dir(n, path)
        if n.pfs.capacity is not None and n.pfs.free() <= 0:
            raise err(errno.ENOSPC, target, path)
        i = n.pfs.new_inode("l", 0o777, client.uid, self.now(n.pfs))
        i.target = target
        n.parent.entries[n.name] = i.ino
        self._touch(n.pfs, n.parent)
        self._mon(client, "symlink", n.real)
        if self.watch:
            self.watch(client, n.pfs, n.parent, n.name, "create", False)

    def readlink(self, client, path, cwd="/"):
        n = self.lookup(client, path, False, cwd)
        if n.inode.kind != "l":
            raise err(errno.EINVAL, path)
        return n.inode.target

    def listdir(self, client, path, cwd="/"):
        """[(name, kind)] in an order that is stable but not sorted."""
        n = self.lookup(client, path, True, cwd)
        if n.inode.kind != "d":
            raise err(errno.ENOTDIR, path)
        if not self._may(client, n.inode, 4):
            raise err(errno.EACCES, path)
        out = []
        for name, ino in n.inode.entries.items():
            key = (n.fs.name, ino)
            kind = "d" if key in client.mounts else n.fs.inodes[ino].kind
            out.append((name, kind))
        salt = n.fs.salt
        out.sort(key=lambda x: zlib.crc32(x[0].encode("utf-8", "surrogateescape"), salt))
        if self.watch:
            # inotify reports opening a directory too
            self.watch(client, n.fs, n.inode, "", "open", True)
        return out

    def open(self, client, path, flags, mode=0o666, cwd="/"):
        acc = flags & os.O_ACCMODE
        excl = flags & os.O_CREAT and flags & os.O_EXCL
        nofollow = flags & os.O_NOFOLLOW
        n = self.resolve(client, path, not (excl or nofollow), cwd)
        created = False
        if n.inode is None:
            if not flags & os.O_CREAT:
                raise err(errno.ENOENT, path)
            if path.endswith(("/", "/.", "/./")):
                raise err(errno.EISDIR if path.endswith("/") and not path.endswith("/./") else errno.ENOENT, path)
            self._need_write_dir(n, path)
            if n.pfs.capacity is not None and n.pfs.free() <= 0:
                raise err(errno.ENOSPC, path)
            i = n.pfs.new_inode("f", mode & ~0o022, client.uid, self.now(n.pfs))
            n.parent.entries[n.name] = i.ino
            self._touch(n.pfs, n.parent)
            n.inode = i
            n.fs = n.pfs
            created = True
            self._mon(client, "create", n.real)
        else:
            if excl:
                raise err(errno.EEXIST, path)
            if n.inode.kind == "l":
                raise err(errno.ELOOP, path)
            if n.inode.kind == "d":
                if acc != os.O_RDONLY or flags & os.O_CREAT:
                    raise err(errno.EISDIR, path)
            elif flags & os.O_DIRECTORY:
                raise err(errno.ENOTDIR, path)
            if acc != os.O_WRONLY and not self._may(client, n.inode, 4):
                raise err(errno.EACCES, path)
            if acc != os.O_RDONLY and not self._may(client, n.inode, 2):
                raise err(errno.EACCES, path)
        f = OpenFile(client, n.fs, n.inode, flags, n.real, path)
        if flags & os.O_TRUNC and not created and n.inode.kind == "f" and acc != os.O_RDONLY:
            if n.inode.data:
                n.inode.wver += 1
            n.inode.data = b""
            self._touch(n.fs, n.inode)
            self._mon(client, "truncate", n.real)
        if self.watch and n.parent is not None:
            if created:
                self.watch(client, n.pfs, n.parent, n.name, "create", False)
            self.watch(client, n.pfs, n.parent, n.name, "open", n.inode.kind == "d")
        return f

    def read(self, f, size):
        if f.fs.fail is not None:
            raise err(f.fs.fail, f.path)
        if f.inode.kind == "d":
            raise err(errno.EISDIR, f.path)
        data = f.inode.data[f.pos:f.pos + size] if size >= 0 else f.inode.data[f.pos:]
        f.pos += len(data)
        return data

    def write(self, f, b):
        if f.fs.fail is not None:
            raise err(f.fs.fail, f.path)
        fs, i = f.fs, f.inode
        if f.flags & os.O_APPEND:
            f.pos = len(i.data)
        b = bytes(b)
        if fs.capacity is not None:
            have = fs.blocks_of(i)
            room = have * fs.block + (fs.free() // fs.block) * fs.block - f.pos
            if room <= 0 and b:
                raise err(errno.ENOSPC, f.path)
            b = b[:room]                    # short write
        if b:
            pos = f.pos
            d = i.data
            if pos > len(d):
                d = d + b"\0" * (pos - len(d))
            i.data = d[:pos] + b + d[pos + len(b):]
            f.pos = pos + len(b)
            i.wver += 1
            self._touch(fs, i)
            self._mon(f.client, "write", f.real)
        return len(b)

    def truncate_file(self, f, size):
        i = f.inode
        if size <= len(i.data):
            i.data = i.data[:size]
        else:
            i.data = i.data + b"\0" * (size - len(i.data))
        i.wver += 1
        self._touch(f.fs, i)
        self._mon(f.client, "truncate", f.real)

    def utime(self, client, path, ns, follow=True, cwd="/"):
        n = self.lookup(client, path, follow, cwd)
        if client.uid != 0 and n.inode.uid != client.uid:
            raise err(errno.EPERM, path)
        if ns is None:
            t = self.now(n.fs)
            ns = (t, t)
        n.inode.atime, n.inode.mtime = ns[0], ns[1] - ns[1] % n.fs.gran
        n.inode.ctime = self.now(n.fs)
        self._mon(client, "utime", n.real)

    def chmod(self, client, path, mode, follow=True, cwd="/"):
        n = self.lookup(client, path, follow, cwd)
        if client.uid != 0 and n.inode.uid != client.uid:
            raise err(errno.EPERM, path)
        if n.inode.kind == "l":
            raise err(errno.ENOTSUP, path)
        n.inode.mode = mode & 0o7777
        n.inode.ctime = self.now(n.fs)
        self._mon(client, "chmod", n.real)

    def statvfs(self, client, path, cwd="/"):
        n = self.lookup(client, path, True, cwd)
        fs = n.fs
        total = (fs.capacity if fs.capacity is not None else 1 << 50) // fs.block
        free = fs.free() // fs.block
        return os.statvfs_result(
            (fs.block, fs.block, total, free, free, 1 << 30, 1 << 29, 1 << 29, 0, 255))

    # -- conveniences for the driver ----------------------------------------
    def makedirs(self, client, path):
        cur = ""
        for part in path.strip("/").split("/"):
            cur += "/" + part
            try:
                self.mkdir(client, cur)
            except FileExistsError:
                pass

    def read_file(self, client, path, follow=True):
        n = self.lookup(client, path, follow)
        if n.inode.kind != "f":
            raise err(errno.EISDIR, path)
        return n.inode.data

    def write_file(self, client, path, data, mode=0o666):
        f = self.open(client, path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, mode)
        pos = 0
        while pos < len(data):
            n = self.write(f, data[pos:])
            pos += n

    def lexists(self, client, path):
        try:
            return self.resolve(client, path, False).inode is not None
        except OSError:
            return False

    def tree(self, client, path):
        """{relative path: Inode} below a directory, not following links or crossing mounts."""
        out = {}
        try:
            n = self.lookup(client, path, True)
        except OSError:
            return out
        if n.inode.kind != "d":
            return out
        fs = n.fs
        todo = [("", n.inode)]
        while todo:
            pre, d = todo.pop()
            for name, ino in d.entries.items():
                i = fs.inodes[ino]
                out[pre + name] = i
                if i.kind == "d":
                    todo.append((pre + name + "/", i))
        return out
