"""Deterministic simulation core: choices, virtual clock, scheduler.

One seed is one execution.  Every decision the environment makes (which task
runs next, how many bytes a pipe delivers, how long a process thinks, when a
fault fires) is drawn from a Choices object.  A Choices object either draws
from one PRNG and records what it drew, or replays a recorded list (falling
back to the simplest alternative, 0, once the list is used up), so that an
execution is a pure function of (plan, schedule list, code under test).
"""

import heapq
import os
import random
import sys
import _thread
import threading as _real_threading
import time as _real_time
import traceback

REAL_LOCK = _thread.allocate_lock
REAL_THREAD = _real_threading.Thread
real_monotonic = _real_time.monotonic
real_perf = _real_time.perf_counter


class SimError(BaseException):
    """An error of the harness itself (never a verdict)."""


class SimAbort(BaseException):
    """Unwinds a simulated task when its run is over."""


class Choices:
    def __init__(self, rng=None, replay=None):
        self.rng = rng
        self.replay = replay
        self.pos = 0
        self.taken = []

    def pick(self, n, weights=None):
        """an integer in range(n); 0 is the simplest alternative"""
        if n <= 1:
            return 0
        if self.replay is not None:
            if self.pos < len(self.replay):
                v = self.replay[self.pos] % n
            else:
                v = 0
            self.pos += 1
        elif weights is not None:
            v = self.rng.choices(range(n), weights)[0]
        else:
            v = self.rng.randrange(n)
        self.taken.append(v)
        return v

    def chance(self, permille):
        if self.replay is not None:
            return bool(self.pick(2))
        v = 1 if self.rng.randrange(1000) < permille else 0
        self.taken.append(v)
        return bool(v)


class Task:
    """A schedulable entity: a caller thread of the code under test or a
    generator modelling another process."""

    def __init__(self, sim, name):
        self.sim = sim
        self.name = name
        self.ready = None        # predicate, None = runnable
        self.deadline = None     # virtual time at which it is woken anyway
        self.done = False
        self.killed = False
        self.why = ""


class ThreadTask(Task):
    def __init__(self, sim, name):
        Task.__init__(self, sim, name)
        self.baton = REAL_LOCK()
        self.baton.acquire()


class GenTask(Task):
    def __init__(self, sim, name, gen):
        Task.__init__(self, sim, name)
        self.gen = gen


class Deadlock(BaseException):
    "No task can make progress (raised in the main task)."


class Sim:
    """One simulated execution."""

    current = None      # the active Sim of this (real) process

    def __init__(self, choices, start=1.6e9, max_steps=200000, preempt=0):
        self.choices = choices
        self.now = 0.0
        self.epoch = start
        self.steps = 0
        self.max_steps = max_steps
        self.tasks = []
        self.running = None
        self.main = None
        self.events = []          # the event log of the run
        self.faults = {}          # kind -> times it really fired
        self.probes = {}          # rare conditions reached
        self.violations = []      # (class, detail)
        self.switches = 0
        self.aborting = False
        self.thread_errors = []   # uncaught exceptions of simulated threads
        self.sched_hash = 0
        self.preempt = preempt    # permille chance for a line level preemption
        self.current_op = None
        self.harness_errors = []
        self.giveup = None
        self.tracer = None
        self.interrupt_after = None
        self.interrupt_any = None

    # -- log -------------------------------------------------------------
    def log(self, *what):
        self.events.append("%.3f %s" % (self.now, " ".join(str(w) for w in what)))

    def fault(self, kind, detail=""):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.log("FAULT", kind, detail)

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def violation(self, cls, detail):
        self.log("VIOLATION", cls, detail)
        self.violations.append((cls, detail))

    # -- scheduling --------------------------------------------------------
    def enter(self):
        assert Sim.current is None
        Sim.current = self
        self.main = ThreadTask(self, "main")
        self.main.ident = _thread.get_ident()
        self.tasks.append(self.main)
        self.running = self.main

    def leave(self):
        """End of the run: unwind every remaining thread task."""
        self.aborting = True
        for t in list(self.tasks):
            if t is self.main or t.done:
                continue
            if isinstance(t, GenTask):
                t.gen.close()
                t.done = True
            else:
                # hand the baton to the thread; its next sim call raises SimAbort
                self.running = t
                self.resume_to = self.main
                t.ready = None
                t.baton.release()
                self.main.baton.acquire()
        for t in self.tasks:
            real = getattr(t, "real", None)
            if real is not None:
                real._sim_real_join()
            elif hasattr(t, "gate2"):
                t.gate2.acquire()
        self.tasks = []
        Sim.current = None

    def me(self):
        t = self.running
        return t

    def in_sim_thread(self):
        r = self.running
        return r is not None and isinstance(r, ThreadTask) and r.ident == _thread.get_ident()

    def spawn_gen(self, name, gen):
        t = GenTask(self, name, gen)
        self.tasks.append(t)
        return t

    def spawn_thread(self, name, fn):
        """a simulated process written as straight line code"""
        task = ThreadTask(self, name)
        task.killed = False
        task.gate2 = REAL_LOCK()
        task.gate2.acquire()
        gate = REAL_LOCK()
        gate.acquire()

        def boot():
            try:
                task.ident = _thread.get_ident()
                gate.release()
                task.baton.acquire()
                try:
                    if not self.aborting and not task.killed:
                        fn()
                except SimAbort:
                    pass
                except BaseException as e:
                    self.harness_errors.append("".join(traceback.format_exception(e)))
                finally:
                    self.finish_thread(task)
            finally:
                task.gate2.release()
        self.tasks.append(task)
        _thread.start_new_thread(boot, ())
        gate.acquire()
        return task

    def kill_task(self, task):
        task.killed = True
        task.ready = None

    def block(self, ready, timeout=None, why=""):
        """Block the calling task until ready() or the timeout; True if ready."""
        t = self.running
        if timeout is not None and t is self.main and self.interrupt_after is not None:
            # Ctrl-C while the program waits
            self.interrupt_after -= 1
            if self.interrupt_after < 0:
                self.interrupt_after = None
                self.fault("SIGINT")
                raise KeyboardInterrupt()
        if t is self.main and self.interrupt_any is not None:
            self.interrupt_any -= 1
            if self.interrupt_any < 0:
                self.interrupt_any = None
                self.fault("SIGINT")
                raise KeyboardInterrupt()
        t.ready = ready
        t.why = why
        t.deadline = None if timeout is None else self.now + max(timeout, 0)
        self._switch(t)
        t.ready = None
        t.deadline = None
        return ready()

    def yield_point(self, why=""):
        if self.aborting:
            raise SimAbort()
        t = self.running
        self._switch(t)

    def sleep(self, secs):
        self.block(lambda: False, secs, "sleep")

    def _runnable(self):
        r = []
        for t in self.tasks:
            if t.done:
                continue
            if t.ready is None or t.ready():
                r.append(t)
            elif t.deadline is not None and t.deadline <= self.now:
                r.append(t)
        return r

    def _switch(self, me):
        """Run other tasks until the scheduler picks `me` again."""
        while True:
            if self.aborting and isinstance(me, ThreadTask) and me is not self.main:
                raise SimAbort()
            self.steps += 1
            if self.steps > self.max_steps:
                self._give_up("livelock", "more than %d scheduling steps" % self.max_steps)
            run = self._runnable()
            if not run:
                dls = [t.deadline for t in self.tasks if not t.done and t.deadline is not None]
                if not dls:
                    self._give_up("deadlock", "; ".join("%s waits for %s" % (t.name, t.why) for t in self.tasks if not t.done))
                self.now = max(self.now, min(dls))
                continue
            # put the current task first: choice 0 = no context switch
            if me in run:
                run.remove(me)
                run.insert(0, me)
            i = self.choices.pick(len(run))
            nxt = run[i]
            self.sched_hash = (self.sched_hash * 1000003 + self.tasks.index(nxt) + 1) & 0xffffffffffff
            if nxt is me:
                if me.killed:
                    raise SimAbort()
                return
            self.switches += 1
            if isinstance(nxt, GenTask):
                self._step_gen(nxt)
                continue
            self.running = nxt
            nxt.baton.release()
            if me.done:
                return
            me.baton.acquire()
            # whoever woke us has set self.running = me
            if self.aborting and me is not self.main:
                raise SimAbort()
            if me.killed:
                raise SimAbort()
            if self.giveup and me is self.main:
                g = self.giveup
                self.giveup = None
                raise Deadlock(*g)
            return

    def _step_gen(self, t):
        saved, self.running = self.running, t
        try:
            t.ready, t.deadline, t.why = None, None, ""
            cmd = next(t.gen)
        except StopIteration:
            t.done = True
        else:
            if cmd is not None:
                ready, timeout, why = cmd
                t.ready = ready
                t.why = why
                t.deadline = None if timeout is None else self.now + timeout
        finally:
            self.running = saved

    def _give_up(self, cls, detail):
        """No progress is possible: raise in the main task."""
        self.log("GIVEUP", cls, detail)
        me = self.running
        if me is self.main:
            raise Deadlock(cls, detail)
        # switch to main, which raises
        self.giveup = (cls, detail)
        self.running = self.main
        self.main.ready = None
        self.main.baton.release()
        if not me.done:
            me.baton.acquire()
            raise SimAbort()
        raise SimAbort()

    def finish_thread(self, t):
        """called at the end of a simulated thread, still holding the baton"""
        t.done = True
        if self.aborting:
            self.running = self.main
            self.main.baton.release()
            return
        try:
            self._switch_away(t)
        except SimAbort:
            pass

    def _switch_away(self, me):
        while True:
            self.steps += 1
            run = self._runnable()
            if not run:
                dls = [t.deadline for t in self.tasks if not t.done and t.deadline is not None]
                if not dls:
                    detail = "; ".join("%s waits for %s" % (t.name, t.why) for t in self.tasks if not t.done)
                    self.log("GIVEUP deadlock", detail)
                    self.giveup = ("deadlock", detail)
                    self.running = self.main
                    self.main.ready = None
                    self.main.baton.release()
                    return
                self.now = max(self.now, min(dls))
                continue
            if self.steps > self.max_steps:
                self.giveup = ("livelock", "more than %d scheduling steps" % self.max_steps)
                self.running = self.main
                self.main.baton.release()
                return
            nxt = run[self.choices.pick(len(run))]
            self.sched_hash = (self.sched_hash * 1000003 + self.tasks.index(nxt) + 1) & 0xffffffffffff
            self.switches += 1
            if isinstance(nxt, GenTask):
                self._step_gen(nxt)
                continue
            self.running = nxt
            nxt.baton.release()
            return


# ---------------------------------------------------------------------------
# simulated threading primitives (fall back to trivial behaviour outside a run)

class SimLock:
    """Lock whose waiters are chosen by the scheduler."""

    def __init__(self):
        self._locked = False

    def acquire(self, blocking=True, timeout=-1):
        sim = Sim.current
        if sim is None or not sim.in_sim_thread():
            # outside a run everything is single threaded
            if self._locked and blocking:
                raise SimError("lock held outside of a simulation")
            if self._locked:
                return False
            self._locked = True
            return True
        if sim.aborting:
            if sim.running is not sim.main:
                raise SimAbort()
            self._locked = True
            return True
        sim.yield_point("lock")
        if not self._locked:
            self._locked = True
            return True
        if not blocking:
            return False
        t = None if timeout is None or timeout < 0 else timeout
        sim.block(lambda: not self._locked, t, "lock")
        if self._locked:
            return False
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        sim = Sim.current
        if sim is not None and not sim.aborting and sim.in_sim_thread():
            sim.yield_point("unlock")

    def locked(self):
        return self._locked

    __enter__ = acquire

    def __exit__(self, *args):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False


class SimRLock:
    def __init__(self):
        self._lock = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        r = self._lock.acquire(blocking, timeout)
        if r:
            self._owner = me
            self._count = 1
        return r

    __enter__ = acquire

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._lock.release()

    def __exit__(self, *args):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        count, self._count = self._count, 0
        owner, self._owner = self._owner, None
        self._lock.release()
        return count, owner

    def _acquire_restore(self, state):
        self._lock.acquire()
        self._count, self._owner = state

    def _at_fork_reinit(self):
        self.__init__()


class SimThread(REAL_THREAD):
    """threading.Thread whose execution is owned by the scheduler"""

    def start(self):
        sim = Sim.current
        if sim is None:
            raise SimError("thread started outside of a simulation")
        task = ThreadTask(sim, "thread:%d" % len(sim.tasks))
        self._sim_task = task
        self._sim = sim
        self._sim_done = False
        task.real = self
        sim.tasks.append(task)
        gate = REAL_LOCK()
        gate.acquire()

        def boot():
            task.ident = _thread.get_ident()
            gate.release()
            task.baton.acquire()
            try:
                if not sim.aborting:
                    if sim.tracer is not None:
                        sys.settrace(sim.tracer)
                    try:
                        self.run()
                    finally:
                        sys.settrace(None)
            except SimAbort:
                pass
            except BaseException as e:
                sim.thread_errors.append((self.name, e))
                sim.log("thread", self.name, "died:", type(e).__name__, str(e)[:200])
            finally:
                self._sim_done = True
                sim.finish_thread(task)
        self._sim_gate2 = REAL_LOCK()
        self._sim_gate2.acquire()

        def boot2():
            try:
                boot()
            finally:
                self._sim_gate2.release()
        _thread.start_new_thread(boot2, ())
        gate.acquire()
        self._started.set()
        sim.log("thread started", self.name)
        sim.yield_point("thread start")

    def _sim_real_join(self):
        self._sim_gate2.acquire()
        self._sim_gate2.release()

    def join(self, timeout=None):
        if not hasattr(self, "_sim_task"):
            raise RuntimeError("cannot join thread before it is started")
        sim = self._sim
        if Sim.current is not sim or sim.aborting:
            return
        sim.block(lambda: self._sim_done, timeout, "join of %s" % self.name)

    def is_alive(self):
        if not hasattr(self, "_sim_task"):
            return False
        sim = self._sim
        if Sim.current is sim and not sim.aborting and sim.in_sim_thread():
            sim.yield_point("is_alive")
        return not self._sim_done

    @property
    def ident(self):
        t = getattr(self, "_sim_task", None)
        return getattr(t, "ident", None)

    @property
    def daemon(self):
        return True

    @daemon.setter
    def daemon(self, value):
        self.__dict__["_sim_daemon"] = value

    def __repr__(self):
        return "<SimThread %s>" % self.name


