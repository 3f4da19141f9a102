"""The simulator: worlds, processes, threads, scheduling, faults.

One simulated thread runs at a time (real threads, parked on locks and released one by one). All
scheduling decisions, fault positions and the clock belong to the Kernel, so that an execution is a
function of the world it starts from and the explicit plan it is given.
"""
import builtins
import errno
import gc
import hashlib
import io
import os
import random
import signal as _signal
import sys
import threading
import time
import traceback

from . import vfs as V

REAL_THREAD = threading.Thread
REAL_LOCK = threading.Lock
REAL_TIME = time.monotonic
REAL_SLEEP = time.sleep

EPOCH = 1_750_000_000
STEP_NS = 20_000            # every intercepted call takes 20 us
TICK_NS = 1_000             # reading a clock takes 1 us


class SimKill(BaseException):
    """The simulated process is dead; unwinds its real thread."""


class HarnessError(Exception):
    """The simulator itself failed (never reported as a violation)."""


class Deadlock(HarnessError):
    """Every thread waits for another one."""


class StepLimit(HarnessError):
    pass


class World:
    """Everything durable: disks, machines, the clock."""

    def __init__(self):
        self.clock = EPOCH * 10**9
        self.fss = {}
        self.clients = {}
        self.pid = 1000
        self.steps = 0
        self.extra = {}           # bookkeeping of the scenario layer (cloned by deepcopy-free convention)

    def clone(self):
        n = World.__new__(World)
        n.__dict__.update(self.__dict__)
        n.fss = {k: f.clone() for k, f in self.fss.items()}
        n.clients = {k: c.clone() for k, c in self.clients.items()}
        n.extra = dict(self.extra)
        return n

    def digest(self):
        h = hashlib.sha1()
        h.update(str(self.clock).encode())
        for name in sorted(self.fss):
            fs = self.fss[name]
            for ino in sorted(fs.inodes):
                i = fs.inodes[ino]
                data = b"" if i.isdb else i.data
                h.update(repr((name, ino, i.kind, i.mode, i.mtime, i.target,
                               sorted(i.entries.items()) if i.entries is not None else None)).encode())
                h.update(hashlib.sha1(data).digest())
        return h.hexdigest()


class Proc:
    """A simulated process."""

    def __init__(self, kernel, client, argv, plan=(), tty=False, stdin="", env=None, parent=None,
                 seed=0):
        w = kernel.world
        w.pid += 1
        self.k = kernel
        self.pid = w.pid
        self.client = client
        self.argv = list(argv)
        self.tty = tty
        self.cwd = client.home
        self.env = {"HOME": client.home, "LANG": "C.UTF-8", "PATH": "/usr/bin:/bin", "USER": "u",
                    "COLUMNS": "80"}
        if env:
            self.env.update(env)
        self.stdin = io.StringIO(stdin)
        self.stdout = ProcOut(self)
        self.stderr = ProcOut(self)
        self.out_pipe = None
        self.err_pipe = None
        self.threads = []
        self.main_thread = None
        self.dead = False          # no more effects
        self.ended = False         # exit code known
        self.rc = None
        self.exc = None            # repr of an uncaught exception
        self.tb = ""
        self.killed = None         # how it was killed
        self.handlers = {}
        self.sigpending = []
        self.atexit = []
        self.in_atexit = False
        self.conns = []
        self.socks = []
        self.fds = {}
        self.next_fd = 1000
        self.modules = None
        self.seed = seed
        self.parent = parent
        self.nrand = 0
        # counters of intercepted calls: s all, m changing something, r touching the
        # remote directory, x changing the remote directory
        self.counts = {"s": 0, "m": 0, "r": 0, "x": 0, "l": 0}
        self.plan = [dict(f) for f in plan]
        for f in self.plan:
            f["left"] = f.get("times", 1)
        self.fired = []
        self.started = w.clock
        self.ended_at = None
        self.trace = None

    def randbytes(self, n):
        self.nrand += 1
        return random.Random("%d/%d/%d" % (self.seed, self.pid, self.nrand)).randbytes(n)


class ProcOut(io.StringIO):
    def __init__(self, proc):
        super().__init__()
        self.proc = proc
        self.pipe = None

    def isatty(self):
        return self.proc.tty

    def write(self, s):
        if self.proc.dead:
            return len(s)
        if self.pipe is not None:
            self.pipe.write(s)
            return len(s)
        return super().write(s)

    def fileno(self):
        raise io.UnsupportedOperation("fileno")


class SimThread:
    def __init__(self, proc, target, name, daemon):
        self.proc = proc
        self.target = target
        self.name = name
        self.daemon = daemon
        self.sem = REAL_LOCK()
        self.sem.acquire()
        self.state = "new"         # new ready sleeping blocked done
        self.wake = None
        self.waiting = None        # predicate for blocked
        self.real = None
        self.error = None
        self.idx = None
        self.prio = 0


class Kernel:
    """Runs simulated processes in one world at a time."""

    def __init__(self, world, boot):
        self.world = world
        self.boot = boot           # callable(proc): runs the program inside the thread
        self.vfs = V.VFS(world)
        self.current = None
        self.driver_sem = REAL_LOCK()
        self.driver_sem.acquire()
        self.threads = []
        self.procs = []
        self.next_thread = 0
        self.op_hooks = 0
        self.preempts = []         # [(hook number, choice)] sorted
        self.next_preempt = None
        self.force_switch = None
        self.max_steps = 400_000
        self.steps0 = 0
        self.log = None            # list of strings when tracing
        self.loghash = None
        self.acting = None
        self.on_step = None        # callable(kernel, proc, name, path, mut) invariant hook
        self.stats = {}
        self.remote_prefix = {}    # client name -> path of the remote mount point
        self.watchers = []         # inotify stubs
        self.vfs.watch = None
        self.switches = 0
        self.child_plan = None     # callable(parent, child) when a process starts another one
        self.born = []             # processes started by other processes
        self.schedule_trace = []

    def set_world(self, world):
        assert not self.live()
        self.world = world
        self.vfs.w = world
        self.watchers = []
        self.vfs.watch = None
        self.threads = []
        self.procs = []
        self.born = []

    def live(self):
        return [p for p in self.procs if not p.ended]

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    # -- inside simulated threads -------------------------------------------
    def enter(self, name, path=None, mut=False, remote=None):
        """Called before every intercepted call of the current process."""
        t = self.current
        p = t.proc
        if p.dead:
            raise SimKill()
        w = self.world
        w.clock += STEP_NS
        w.steps += 1
        if w.steps - self.steps0 > self.max_steps:
            raise StepLimit("more than %d steps" % self.max_steps)
        self.op_hooks += 1
        c = p.counts
        c["s"] += 1
        if mut:
            c["m"] += 1
        if remote is None:
            pre = self.remote_prefix.get(p.client.name)
            remote = bool(pre and path and isinstance(path, str) and path.startswith(pre))
        if remote:
            c["r"] += 1
            if mut:
                c["x"] += 1
        elif mut:
            c["l"] += 1
        if self.log is not None:
            self.log.append("%d %s/%d %s %s%s" % (
                w.clock, p.client.name, p.pid, name, path, " *" if mut else ""))
        if self.on_step is not None:
            self.on_step(self, p, name, path, mut)
        action = None
        if p.plan:
            for f in p.plan:
                if not f["left"]:
                    continue
                n = c[f.get("unit", "s")]
                if f["at"] <= n and self._unit_match(f, mut, remote):
                    if f.get("only") and not name.startswith(tuple(f["only"].split(","))):
                        continue
                    if f.get("path") and f["path"] not in str(path):
                        continue
                    if f.get("nth", 1) > 1:       # of the calls that match
                        f["nth"] -= 1
                        continue
                    f["left"] -= 1
                    p.fired.append((f["do"], name, path))
                    self.count("fault:" + f["do"].split(":")[0])
                    action = self._fault(t, p, f, name, path) or action
        if self.next_preempt is not None and self.op_hooks >= self.next_preempt:
            self._preempted(t)
        if p.dead:
            raise SimKill()
        if p.sigpending and t is p.main_thread:
            self._deliver(p)
        self.acting = p            # what happens until the next call is its doing
        return action

    @staticmethod
    def _unit_match(f, mut, remote):
        u = f.get("unit", "s")
        return (u == "s" or (u == "m" and mut) or (u == "r" and remote)
                or (u == "x" and mut and remote) or (u == "l" and mut and not remote))

    def _fault(self, t, p, f, name, path):
        do = f["do"]
        if do == "kill":
            self.kill(p, "SIGKILL")
            raise SimKill()
        if do == "torn":           # a write stops half-way and the process dies
            if name == "write":
                return "torn"
            self.kill(p, "SIGKILL")
            raise SimKill()
        if do.startswith("sig:"):
            self.signal(p, getattr(_signal, "SIG" + do[4:]))
            return None
        if do.startswith("errno:"):
            code = getattr(errno, do[6:])
            if name.startswith("sqlite"):
                return "dberr"
            if name in ("close",):
                return None
            raise V.err(code, path)
        if do.startswith("stall:"):
            self.sleep(float(do[6:]))
            return None
        if do.startswith("world:"):   # environment changes, done by the scenario layer
            self.world_event(p.client, do[6:])
            return None
        raise HarnessError("unknown fault " + do)

    def world_event(self, client, what):
        raise HarnessError("no handler for " + what)

    def _deliver(self, p):
        sig = p.sigpending.pop(0)
        h = p.handlers.get(sig, _signal.SIG_DFL)
        if h is _signal.SIG_IGN:
            return
        if h is _signal.SIG_DFL or h is None:
            if sig == _signal.SIGINT:
                raise KeyboardInterrupt()
            if sig in (_signal.SIGCHLD, _signal.SIGWINCH):
                return
            self.kill(p, _signal.Signals(sig).name)
            raise SimKill()
        h(sig, None)

    def signal(self, p, sig):
        if p.ended:
            return
        if sig == _signal.SIGKILL:
            self.kill(p, "SIGKILL")
            return
        p.sigpending.append(sig)
        m = p.main_thread
        if m is not None and m.state in ("sleeping", "blocked") and m is not self.current:
            m.state = "ready"      # interrupted sleep; delivered on resumption
            m.interrupted = True

    def kill(self, p, how):
        if p.dead:
            return
        p.dead = True
        p.killed = how
        self.count("killed")
        for t in p.threads:
            if t.state in ("sleeping", "blocked"):
                t.state = "ready"

    def _park(self, t):
        """Give the baton to the driver and wait to be resumed."""
        self.current = None
        self._save(t.proc)
        self.driver_sem.release()
        t.sem.acquire()
        if t.proc.dead:
            raise SimKill()
        if t.proc.sigpending and t is t.proc.main_thread:
            self._deliver(t.proc)

    def _preempted(self, t):
        choice = None
        while self.preempts and self.preempts[0][0] <= self.op_hooks:
            choice = self.preempts.pop(0)[1]
        self.next_preempt = self.preempts[0][0] if self.preempts else None
        if choice is None:
            return
        others = [x for x in self.threads if x is not t and self._runnable(x)]
        if not others:
            return
        self.force_switch = others[choice % len(others)]
        self.switches += 1
        self.schedule_trace.append((self.op_hooks, self.force_switch.idx))
        self._park(t)

    def sleep(self, secs):
        t = self.current
        t.state = "sleeping"
        t.wake = self.world.clock + int(max(0, secs) * 1e9)
        self._park(t)

    def block(self, pred, timeout=None):
        """Block the current thread until pred() holds; False on timeout."""
        t = self.current
        if pred():
            return True
        t.state = "blocked"
        t.waiting = pred
        t.wake = None if timeout is None else self.world.clock + int(timeout * 1e9)
        self._park(t)
        t.waiting = None
        return bool(pred())

    def start_thread(self, proc, target, name, daemon):
        t = SimThread(proc, target, name, daemon)
        t.idx = self.next_thread
        self.next_thread += 1
        proc.threads.append(t)
        self.threads.append(t)
        t.real = REAL_THREAD(target=self._thread_main, args=(t,), daemon=True)
        t.state = "ready"
        t.real.start()
        return t

    def _thread_main(self, t):
        t.sem.acquire()
        try:
            if not t.proc.dead:
                t.target()
        except SimKill:
            pass
        except BaseException as e:           # noqa: harness trouble
            self.current = None
            t.error = e
            t.error_tb = traceback.format_exc()
        t.state = "done"
        self.current = None
        self._save(t.proc)
        self.driver_sem.release()

    # -- processes ------------------------------------------------------------
    def spawn(self, client, argv, **kw):
        p = Proc(self, client, argv, **kw)
        self.procs.append(p)
        if p.parent is not None:
            self.born.append(p)
        p.main_thread = self.start_thread(p, lambda: self._proc_main(p), "MainThread", False)
        self.count("procs")
        return p

    def _proc_main(self, p):
        try:
            rc = self.boot(p)
        except SimKill:
            raise
        p.rc = rc

    def _finish(self, p):
        """Release everything a process holds once its main thread is done."""
        p.dead = True
        for c in list(p.conns):
            c._sim_close()
        p.conns = []
        for s in list(p.socks):
            s._sim_close()
        p.socks = []
        p.fds.clear()
        p.ended = True
        p.ended_at = self.world.clock
        if p.killed and p.rc is None:
            p.rc = -9 if p.killed == "SIGKILL" else -15
        if p.rc is None:
            p.rc = 1
        for o in (p.stdout, p.stderr):
            if o.pipe is not None:
                o.pipe.close_write()
        self.watchers = [x for x in self.watchers if x.proc is not p]
        if not self.watchers:
            self.vfs.watch = None

    # -- the driver's side -------------------------------------------------------
    def _runnable(self, t):
        if t.state == "ready":
            return True
        if t.state == "sleeping":
            return t.wake <= self.world.clock
        if t.state == "blocked":
            return t.waiting() or (t.wake is not None and t.wake <= self.world.clock)
        return False

    def _save(self, p):
        p.stdout_cur = sys.stdout
        p.stderr_cur = sys.stderr

    def _resume(self, t):
        p = t.proc
        t.state = "ready"
        self.current = t
        self.enter_process(p)
        t.sem.release()
        self.driver_sem.acquire()
        self.leave_process()
        if t.state == "done":
            self.threads.remove(t)
            if t.error is not None and not isinstance(t.error, SimKill):
                if isinstance(t.error, HarnessError):
                    err = t.error
                    self.abort()
                    raise err
                if t is p.main_thread or True:
                    # an exception escaped the boot layer: harness bug
                    msg = t.error_tb
                    self.abort()
                    raise HarnessError("uncaught in thread %s of %s:\n%s" % (t.name, p.argv, msg))
        # a dead process' threads only unwind
        if not p.ended:
            if p.dead:
                for x in p.threads:
                    if x.state in ("sleeping", "blocked"):
                        x.state = "ready"
                if all(x.state == "done" for x in p.threads):
                    self._finish(p)
            elif p.main_thread.state == "done":
                rest = [x for x in p.threads if x.state != "done" and not x.daemon]
                if not rest:
                    p.dead = True
                    for x in p.threads:
                        if x.state in ("sleeping", "blocked"):
                            x.state = "ready"
                    if all(x.state == "done" for x in p.threads):
                        self._finish(p)

    def abort(self):
        """Unwind every thread (after a harness error)."""
        for p in self.procs:
            p.dead = True
        for t in list(self.threads):
            while t.state != "done":
                t.state = "ready"
                self.current = t
                self.enter_process(t.proc)
                t.sem.release()
                self.driver_sem.acquire()
                self.leave_process()
        self.threads = []
        for p in self.procs:
            if not p.ended:
                self._finish(p)

    def enter_process(self, p):
        self._driver_out = (sys.stdout, sys.stderr, os.environ)
        sys.stdout = getattr(p, "stdout_cur", None) or p.stdout
        sys.stderr = getattr(p, "stderr_cur", None) or p.stderr
        os.environ = p.env
        if p.modules is not None and p.modules is not self.cur_modules:
            sys.modules.update(p.modules)
            self.cur_modules = p.modules

    cur_modules = None

    def leave_process(self):
        sys.stdout, sys.stderr, os.environ = self._driver_out

    def run(self, done=None, until=None, preempts=(), max_steps=None):
        """Run until done() (default: every process has ended), or the clock reaches `until`.

        Returns True if done() holds at the end.
        """
        if done is None:
            def done():
                return all(p.ended for p in self.procs)
        self.preempts = sorted([tuple(x) for x in preempts])
        self.op_hooks = 0
        self.next_preempt = self.preempts[0][0] if self.preempts else None
        self.steps0 = self.world.steps
        if max_steps is not None:
            self.max_steps = max_steps
        last = None
        while True:
            if done():
                return True
            if self.force_switch is not None:
                t, self.force_switch = self.force_switch, None
                if t not in self.threads or not self._runnable(t):
                    t = None
            else:
                t = None
            if t is None:
                if last is not None and last in self.threads and self._runnable(last):
                    t = last
                else:
                    for x in self.threads:
                        if self._runnable(x):
                            t = x
                            break
            if t is None:
                wakes = [x.wake for x in self.threads
                         if x.state in ("sleeping", "blocked") and x.wake is not None]
                if not wakes:
                    if until is not None:
                        self.world.clock = max(self.world.clock, until)
                        return done()
                    raise Deadlock("deadlock: " + ", ".join(
                        "%s/%s %s" % (x.proc.argv, x.name, x.state) for x in self.threads))
                nxt = min(wakes)
                if until is not None and nxt > until:
                    self.world.clock = max(self.world.clock, until)
                    return done()
                self.world.clock = max(self.world.clock, nxt)
                continue
            if until is not None and self.world.clock >= until:
                return done()
            self._resume(t)
            last = t
            if t.state != "ready":
                last = None

    def forget(self):
        """Drop ended processes."""
        self.procs = [p for p in self.procs if not p.ended]
        self.threads = [t for t in self.threads if t.state != "done"]
