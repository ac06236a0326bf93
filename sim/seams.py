"""Puts the simulator behind the standard library.

install() must run before pyx is imported.  It replaces, once per process,
the sources of nondeterminism pyx can reach -- threads and locks, the clock,
child processes, file access, temporary names, exit handlers -- by front ends
which ask the active Sim (and its World).  Nothing in /repo is changed: the
seams are the standard library names pyx itself uses.
"""

import atexit
import builtins
import datetime
import errno
import io
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

from . import core
from .core import Sim, SimLock, SimRLock, SimThread

real = {}
REPO = os.environ.get("VERIF_REPO", "/repo")


class Escape(OSError):
    """a destructive call outside of the scratch directory"""


class World:
    """Everything outside of the interpreter for one run: scratch directory,
    programs, file faults, exit handlers."""

    current = None

    def __init__(self, sim, scratch):
        self.sim = sim
        self.scratch = os.path.realpath(scratch)
        self.tmp = os.path.join(self.scratch, "tmp")
        self.cwd = os.path.join(self.scratch, "cwd")
        real["mkdir"](self.tmp)
        real["mkdir"](self.cwd)
        self.programs = {}        # basename -> factory(popen) -> generator
        self.processes = []
        self.handles = []         # files opened by the code under test
        self.track = lambda path: path.startswith(self.scratch)
        self.rules = []           # file fault rules
        self.atexit = []
        self.atexit_errors = []
        self.names = 0
        self.escapes = []
        self.listdir_order = None
        self.spawn_errors = {}    # program -> list of OSError to raise (or None)
        self.opens = []           # (path, mode) of every tracked open

    # -- file faults -----------------------------------------------------
    def decide(self, op, path):
        """returns an OSError instance to raise, or None"""
        for r in self.rules:
            if r["op"] == op and r.get("left", 1) > 0 and r["match"](path):
                if r.get("skip", 0) > 0:
                    r["skip"] -= 1
                    continue
                r["left"] = r.get("left", 1) - 1
                e = r["errno"]
                self.sim.fault("%s:%s" % (op, errno.errorcode[e]), os.path.basename(str(path)))
                return OSError(e, os.strerror(e), path)
        return None

    def add_rule(self, op, match, err, skip=0, times=1):
        if isinstance(match, str):
            m = match
            match = lambda path: str(path).endswith(m)
        self.rules.append({"op": op, "match": match, "errno": err, "skip": skip, "left": times})

    def guard(self, path, dir_fd=None):
        """destructive calls stay inside of the scratch directory"""
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if dir_fd is not None:
            path = os.path.join(os.readlink("/proc/self/fd/%d" % dir_fd), path)
        p = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(path))), os.path.basename(path))
        if not (p + "/").startswith(self.scratch + "/"):
            self.escapes.append(p)
            self.sim.violation("escape", "destructive call on %s" % p)
            raise Escape(errno.EACCES, "outside of the scratch directory", path)
        if p in (self.scratch, self.tmp, self.cwd):
            self.escapes.append(p)
            self.sim.violation("escape", "destructive call on the scratch root %s" % os.path.basename(p))
            raise Escape(errno.EACCES, "a scratch root", path)
        return p

    def run_atexit(self):
        """what the interpreter does at exit"""
        while self.atexit:
            f, a, k = self.atexit.pop()
            try:
                f(*a, **k)
            except Exception as e:
                self.atexit_errors.append(e)
                self.sim.log("atexit handler died:", type(e).__name__, str(e)[:100])


def world():
    w = World.current
    if w is not None and Sim.current is w.sim and not w.sim.aborting:
        return w
    return None


class _CountingRaw(io.RawIOBase):
    """raw file with injected faults at chosen byte positions"""

    def __init__(self, w, f, path, mode):
        self.w, self.f, self.path, self.mode_ = w, f, path, mode
        self.name = f.name
        self.count = 0

    def where(self):
        return self.name if isinstance(self.name, str) else self.path

    def readable(self):
        return self.f.readable()

    def writable(self):
        return self.f.writable()

    def seekable(self):
        return self.f.seekable()

    def fileno(self):
        return self.f.fileno()

    def isatty(self):
        return False

    def readinto(self, b):
        e = self.w.decide("read", self.where())
        if e:
            raise e
        n = len(b)
        lim = getattr(self.w, "max_read", None)
        if lim:
            n = min(n, lim(self.path, n))
        data = self.f.read(n)
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        e = self.w.decide("write", self.where())
        if e:
            raise e
        lim = getattr(self.w, "max_write", None)
        b = bytes(b)
        if lim:
            n = lim(self.path, len(b))
            if n is None:
                e = OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), self.path)
                raise e
            b = b[:n]
        return self.f.write(b)

    def seek(self, *a):
        return self.f.seek(*a)

    def tell(self):
        return self.f.tell()

    def truncate(self, *a):
        return self.f.truncate(*a)

    def close(self):
        if not self.closed:
            super().close()
            self.f.close()
            e = self.w.decide("close", self.where()) if World.current is self.w else None
            if e:
                raise e


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    w = world()
    if w is None or isinstance(file, int):
        return real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    path = os.fspath(file)
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    full = os.path.abspath(path)
    if opener is not None:
        full = os.path.join(full, "<named by opener>")
    if set(mode) & set("wax+"):
        w.guard(full)
    if not w.track(full):
        return real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    w.opens.append((full, mode))
    e = w.decide("open", full)
    if e:
        e.filename = path
        raise e
    rawmode = mode.replace("t", "").replace("b", "").replace("U", "")
    f = real["FileIO"](path, rawmode, closefd, opener)
    raw = _CountingRaw(w, f, full, mode)
    w.handles.append(raw)
    if buffering == 0:
        return raw
    size = w.buffer_size if getattr(w, "buffer_size", None) else io.DEFAULT_BUFFER_SIZE
    if "+" in mode:
        buf = io.BufferedRandom(raw, size)
    elif set(mode) & set("wax"):
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if "b" in mode:
        return buf
    t = io.TextIOWrapper(buf, encoding, errors, newline)
    t.mode = mode
    return t


def _destructive(name, npaths, op=None):
    orig = real[name]

    def f(*args, **kwargs):
        w = world()
        if w is None:
            return orig(*args, **kwargs)
        dir_fd = kwargs.get("dir_fd")
        for p in args[:npaths]:
            if isinstance(p, (str, bytes, os.PathLike)):
                w.guard(os.fspath(p), dir_fd)
        e = w.decide(op or name, os.path.abspath(os.fspath(args[0])))
        if e:
            raise e
        w.sim.log("os." + name, *[w.short(a) for a in args[:npaths]])
        return orig(*args, **kwargs)
    f.__name__ = name
    return f


def _short(self, p):
    p = str(p)
    return p.replace(self.scratch, "$S")


World.short = _short


def sim_listdir(path="."):
    w = world()
    r = sorted(real["listdir"](path))
    if w is None or isinstance(path, int):
        return r
    e = w.decide("listdir", os.path.abspath(os.fspath(path)))
    if e:
        raise e
    if w.listdir_order:
        r = w.listdir_order(r)
    return r


class _Scan:
    def __init__(self, entries):
        self.entries = iter(entries)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.entries)

    def close(self):
        pass


def sim_scandir(path="."):
    w = world()
    if w is None or isinstance(path, int):
        return real["scandir"](path)
    e = w.decide("listdir", os.path.abspath(os.fspath(path)))
    if e:
        raise e
    with real["scandir"](path) as it:
        entries = sorted(it, key=lambda x: x.name)
    if w.listdir_order:
        names = w.listdir_order([x.name for x in entries])
        d = {x.name: x for x in entries}
        entries = [d[n] for n in names]
    return _Scan(entries)


class _Names:
    """temporary names are a function of the run"""

    rng = None

    def __iter__(self):
        return self

    def __next__(self):
        w = world()
        if w is None:
            real["names"] = real.get("names", 0) + 1
            return "h%d_%d" % (os.getpid(), real["names"])
        w.names += 1
        return "t%06d" % w.names


class PopenFront:
    """subprocess.Popen for simulated programs only"""

    def __new__(cls, *args, **kwargs):
        w = world()
        if w is None:
            return real["Popen"](*args, **kwargs)
        from . import procs
        return procs.SimPopen(w, *args, **kwargs)


def _vtime(name, f):
    orig = getattr(time, name)

    def g():
        s = Sim.current
        return orig() if s is None else f(s)
    g.__name__ = name
    return g


def _clock(s):
    """one reading of the wall clock"""
    s.clock_reads = getattr(s, "clock_reads", 0) + 1
    if getattr(s, "clock_hook", None):
        s.clock_hook()
    return s.epoch + s.now


class SimDatetime(datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(time.time(), tz)

    @classmethod
    def today(cls):
        return cls.fromtimestamp(time.time())

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(time.time(), datetime.timezone.utc).replace(tzinfo=None)


class SimDate(datetime.date):
    @classmethod
    def today(cls):
        return cls.fromtimestamp(time.time())


def install():
    if real:
        return
    real.update(open=builtins.open, FileIO=io.FileIO, mkdir=os.mkdir, listdir=os.listdir,
                scandir=os.scandir, Popen=subprocess.Popen)
    for n in ["rename", "unlink", "remove", "rmdir", "replace", "symlink", "link", "truncate", "chmod", "mkdir"]:
        real[n] = getattr(os, n)
    builtins.open = sim_open
    io.open = sim_open
    for n, k, op in [("rename", 2, None), ("unlink", 1, None), ("remove", 1, "unlink"), ("rmdir", 1, None),
                     ("replace", 2, "rename"), ("symlink", 2, None), ("link", 2, None), ("truncate", 1, None),
                     ("chmod", 1, None), ("mkdir", 1, None)]:
        setattr(os, n, _destructive(n, k, op))
    os.listdir = sim_listdir
    os.scandir = sim_scandir
    shutil._use_fd_functions = False
    if hasattr(shutil, "rmtree") and hasattr(shutil.rmtree, "avoids_symlink_attacks"):
        shutil.rmtree.avoids_symlink_attacks = False

    # clock
    start = time.time
    rt = {n: getattr(time, n) for n in ["time", "monotonic", "perf_counter", "sleep", "localtime", "gmtime", "asctime", "ctime", "strftime", "time_ns", "monotonic_ns"]}
    real["time"] = rt
    time.time = _vtime("time", _clock)
    time.time_ns = _vtime("time_ns", lambda s: int(_clock(s) * 10**9))
    time.monotonic = _vtime("monotonic", lambda s: 1000.0 + s.now)
    time.monotonic_ns = _vtime("monotonic_ns", lambda s: int((1000.0 + s.now) * 10**9))
    time.perf_counter = _vtime("perf_counter", lambda s: 1000.0 + s.now)

    def sleep(secs):
        s = Sim.current
        if s is None:
            return rt["sleep"](secs)
        s.sleep(secs)
    time.sleep = sleep

    def clocked(name):
        orig = rt[name]

        def f(secs=None):
            s = Sim.current
            if secs is None and s is not None:
                secs = _clock(s)
            return orig(secs)
        return f
    time.localtime = clocked("localtime")
    time.gmtime = clocked("gmtime")
    time.ctime = clocked("ctime")

    def asctime(t=None):
        return rt["asctime"](time.localtime() if t is None else t)
    time.asctime = asctime

    def strftime(fmt, t=None):
        return rt["strftime"](fmt, time.localtime() if t is None else t)
    time.strftime = strftime
    datetime.datetime = SimDatetime
    datetime.date = SimDate

    # threads
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    threading._CRLock = None
    threading.Thread = SimThread
    threading._time = time.monotonic
    queue.time = time.monotonic
    if getattr(queue, "_PySimpleQueue", None):
        queue.SimpleQueue = queue._PySimpleQueue
    queue.threading = threading

    # processes
    subprocess.Popen = PopenFront

    # temporary names
    tempfile._name_sequence = _Names()
    tempfile._get_candidate_names = lambda: tempfile._name_sequence

    # exit handlers
    real["atexit"] = (atexit.register, atexit.unregister)

    def register(f, *a, **k):
        w = world()
        if w is None:
            return real["atexit"][0](f, *a, **k)
        w.atexit.append((f, a, k))
        return f

    def unregister(f):
        w = world()
        if w is None:
            return real["atexit"][1](f)
        w.atexit = [x for x in w.atexit if x[0] != f]
    atexit.register = register
    atexit.unregister = unregister

    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True


def line_tracer(sim, filenames, permille):
    """preempt the running thread between any two lines of the given files"""

    def local(frame, event, arg):
        if event == "line" and Sim.current is sim and not sim.aborting and sim.in_sim_thread():
            if sim.choices.chance(permille):
                sim.yield_point("line")
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.endswith(filenames):
            return local
        return None
    return tracer
