"""pyinotify as far as zielen uses it, fed by the simulated file system."""
import errno
import os
import threading

IN_ACCESS = 0x1
IN_MODIFY = 0x2
IN_ATTRIB = 0x4
IN_CLOSE_WRITE = 0x8
IN_CLOSE_NOWRITE = 0x10
IN_OPEN = 0x20
IN_MOVED_FROM = 0x40
IN_MOVED_TO = 0x80
IN_CREATE = 0x100
IN_DELETE = 0x200
IN_DELETE_SELF = 0x400
IN_MOVE_SELF = 0x800
IN_UNMOUNT = 0x2000
IN_Q_OVERFLOW = 0x4000
IN_IGNORED = 0x8000
IN_ISDIR = 0x40000000
ALL_EVENTS = 0xfff

_sim = None        # set by the simulator: object with attach(manager), kernel


NAMES = [(n, v) for n, v in sorted(globals().items()) if n.startswith("IN_")]


class Event:
    def __init__(self, mask, path, name, isdir):
        self.mask = mask | (IN_ISDIR if isdir else 0)
        if mask & IN_Q_OVERFLOW:        # these events have nothing but a mask
            self.maskname = "IN_Q_OVERFLOW"
            return
        self.path = path
        self.name = name
        self.dir = isdir
        self.pathname = os.path.normpath(os.path.join(path, name)) if name else path
        self.maskname = "|".join(n for n, v in NAMES if mask & v)

    def __repr__(self):
        return "<Event %s %s>" % (self.maskname, getattr(self, "pathname", None))


class ProcessEvent:
    def __call__(self, event):
        pass


class WatchManager:
    def __init__(self, exclude_filter=None):
        self._w = {}        # (fsname, ino) -> [path, mask, rec, auto_add]
        self._buf = []
        self._cookies = {}
        self._moved = {}
        _sim.attach(self)

    def add_watch(self, path, mask, proc_fun=None, rec=False, auto_add=False, do_glob=False,
                  quiet=True, exclude_filter=None):
        paths = [path] if isinstance(path, str) else path
        for p in paths:
            _sim.add(self, p, mask, rec, auto_add)
        return {p: 1 for p in paths}

    def close(self):
        _sim.detach(self)


class ThreadedNotifier(threading.Thread):
    def __init__(self, watch_manager, default_proc_fun=None, read_freq=0, threshold=0, timeout=None):
        super().__init__(name="Notifier")
        self._wm = watch_manager
        self._fun = default_proc_fun
        self._stopped = False

    def stop(self):
        self._stopped = True

    def run(self):
        while not self._stopped:
            ev = _sim.next_event(self._wm)
            if ev is None:
                continue
            self._fun(ev)


class Notifier(ThreadedNotifier):
    pass
