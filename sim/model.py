"""Executable reference models: contents, trees, three-way merge. Plain data only."""
import fnmatch
import functools
import os
import re

TOK = re.compile(rb"T(\d+):(\d+):")


@functools.lru_cache(maxsize=4096)
def content(tok, size):
    """Unique content of one written version: a head and filler that depends on the token."""
    head = b"T%d:%d:" % (tok, size)
    if size <= len(head):
        return head[:size] if size == 0 else head
    fill = (b"%07d." % (tok * 7919 % 10**7)) * (1 + (size - len(head)) // 8)
    return head + fill[:size - len(head)]


def token_of(data):
    """(tok, intact) of some file content; (None, True) for empty, (None, False) for foreign."""
    if not data:
        return None, True
    m = TOK.match(data)
    if not m:
        return None, False
    tok, size = int(m.group(1)), int(m.group(2))
    return tok, content(tok, size) == data


# An entry of a logical tree: ("f", data) ("l", target) ("d",)

def show(e):
    if e is None:
        return "-"
    if e[0] == "f":
        t, ok = token_of(e[1])
        if t is None:
            return "file(%r)" % e[1][:20] if e[1] else "file(empty)"
        return "file(v%d%s)" % (t, "" if ok else " TRUNCATED/CORRUPT %d bytes" % len(e[1]))
    if e[0] == "l":
        return "link->%s" % e[1]
    return {"P": "placeholder", "dangling": "dangling"}.get(e[0], "dir")


CONFLICT = re.compile(r"^(?P<name>.*)_conflict-(?P<ts>\d{8}-\d{6})(-\d+|_\d+|\(\d+\))?(?P<ext>(\.[^./]*)?)$")


def conflict_name_matches(path, orig):
    """Is `path` a conflict name for `orig` (as documented: name, 'conflict', date and time)?"""
    name, ext = os.path.splitext(orig)
    return re.match(re.escape(name) + r"_conflict-\d{8}-\d{6}(-\d+|_\d+|\(\d+\))?" + re.escape(ext) + "$",
                    path) is not None


def parents(path):
    out = []
    while "/" in path:
        path = path.rsplit("/", 1)[0]
        out.append(path)
    return out


class Merge:
    """Result of merging two sides against a base."""

    def __init__(self):
        self.tree = {}            # path -> entry
        self.mtimes = {}          # path -> expected mtime ns (where determined)
        self.modes = {}
        self.conflicts = {}       # path -> (winner, loser, loser side)
        self.optional_dirs = set()   # directories that may or may not be there

    def expect(self):
        return dict(self.tree)


def merge(base, local, remote, lmeta=None, rmeta=None):
    """Three-way merge. Trees are {path: entry}; metas {path: (mtime ns, mode)}."""
    m = Merge()
    lmeta = lmeta or {}
    rmeta = rmeta or {}
    paths = set(base) | set(local) | set(remote)
    for p in paths:
        b, l, r = base.get(p), local.get(p), remote.get(p)
        if any(e is not None and e[0] == "d" for e in (b, l, r)):
            continue
        lc, rc = l != b, r != b
        side = None
        if not lc and not rc:
            res = b
            side = "r"
        elif lc and not rc:
            res, side = l, "l"
        elif rc and not lc:
            res, side = r, "r"
        elif l == r:
            res, side = l, None
        elif l is None:
            res, side = r, "r"
        elif r is None:
            res, side = l, "l"
        else:
            lt, rt = lmeta.get(p, (0, 0))[0], rmeta.get(p, (0, 0))[0]
            if lt >= rt:
                res, side = l, "l"
                m.conflicts[p] = (l, r, "r")
            else:
                res, side = r, "r"
                m.conflicts[p] = (r, l, "l")
        if res is not None:
            m.tree[p] = res
            meta = {"l": lmeta, "r": rmeta}.get(side)
            if meta and p in meta and res[0] == "f":
                m.mtimes[p], m.modes[p] = meta[p]
    # directories
    need = set()
    for p in m.tree:
        need.update(parents(p))
    for p in paths:
        b, l, r = base.get(p), local.get(p), remote.get(p)
        isd = [e is not None and e[0] == "d" for e in (b, l, r)]
        if not any(isd):
            continue
        if p in m.tree:
            continue              # a file took the name
        if isd[0]:
            keep = isd[1] and isd[2]
        else:
            keep = isd[1] or isd[2]
        if keep:
            need.add(p)
            need.update(parents(p))
    for p in need:
        m.tree.setdefault(p, ("d",))
    return m


def diff_trees(want, have, optional=()):
    out = []
    for p in sorted(set(want) | set(have)):
        if want.get(p) != have.get(p):
            if p in optional and (want.get(p) in (None, ("d",))) and have.get(p) in (None, ("d",)):
                continue
            out.append("%s: expected %s, found %s" % (p, show(want.get(p)), show(have.get(p))))
    return out


# -- exclude patterns ------------------------------------------------------------------

@functools.lru_cache(maxsize=65536)
def _component(pat, name):
    if name.startswith(".") and not pat.startswith("."):
        return False
    return fnmatch.fnmatchcase(name, pat)


@functools.lru_cache(maxsize=65536)
def _match(pat, path):
    if not pat:
        return not path
    if pat[0] == "**":
        if _match(pat[1:], path):
            return True
        return bool(path) and not path[0].startswith(".") and _match(pat, path[1:])
    return bool(path) and _component(pat[0], path[0]) and _match(pat[1:], path[1:])


def excluded(patterns, path):
    """Is the relative path, or a directory above it, matched by one of the patterns?"""
    for line in patterns:
        line = line.strip()
        if not line or line.startswith("#"):
            continue
        comps = tuple(c for c in line.split("/") if c)
        if not line.startswith("/"):
            comps = ("**",) + comps
        parts = tuple(path.split("/"))
        if any(_match(comps, parts[:i]) for i in range(1, len(parts) + 1)):
            return True
    return False
