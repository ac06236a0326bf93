"""One worker interpreter: imports pyx once behind the seams and executes
simulated runs, each in a forked child."""

import gc
import hashlib
import importlib
import json
import logging
import os
import pickle
import random
import re
import select
import signal
import struct
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
real_time = time.monotonic
SCRATCH_BASE = os.environ.get("VERIF_SCRATCH", "/tmp")
CPU_LIMIT = 40
WALL_LIMIT = 150


class Ctx:
    """what a check's run() function gets"""

    def __init__(self, sim, world, plan, choices, check):
        self.sim, self.world, self.plan, self.choices, self.check = sim, world, plan, choices, check
        self.warnings = []
        self.logs = []            # (virtual time, level, message)
        self.stats = {}
        self.nontrivial = True
        self.key = None
        self.note = None

    def fail(self, cls, detail):
        self.sim.violation(cls, detail)

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def log(self, *a):
        self.sim.log(*a)


class _LogHandler(logging.Handler):
    def __init__(self, ctx):
        logging.Handler.__init__(self, logging.INFO)
        self.ctx = ctx
        self.lock = None

    def createLock(self):
        self.lock = None

    def handle(self, record):
        try:
            msg = record.getMessage()
        except Exception as e:
            self.ctx.fail("logging", "a log call is broken: %s" % e)
            return
        self.ctx.logs.append((self.ctx.sim.now, record.levelno, msg))
        if record.levelno >= logging.WARNING:
            self.ctx.warnings.append(msg)
        if not msg.startswith(getattr(self.ctx.check, "UNORDERED", "\0")):
            self.ctx.sim.log(record.levelname, self.ctx.world.short(msg).replace("\n", "|")[:300])


def derive(*a):
    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:8], "big")


def rmtree(path):
    from . import seams
    r = seams.real
    for d, dirs, files in os.walk(path, topdown=False, followlinks=False):
        try:
            r["chmod"](d, 0o700)
        except OSError:
            pass
        for f in files:
            r["unlink"](os.path.join(d, f))
        for f in dirs:
            p = os.path.join(d, f)
            r["unlink"](p) if os.path.islink(p) else r["rmdir"](p)
    r["rmdir"](path)


def blame(sim, e, out):
    """an exception nobody expected: of the code under test or of the harness?"""
    # anything raised below a frame of the code under test is caused by what that
    # code did (the innermost frame may be a seam), anything else by the harness
    where = None
    for fr in reversed(traceback.extract_tb(e.__traceback__)):
        f = os.path.abspath(fr.filename)
        if f.startswith(os.path.abspath(REPO) + os.sep):
            where = "%s:%s" % (os.path.basename(f), fr.name)
            break
    text = "".join(traceback.format_exception(e))
    if where is None or isinstance(e, (KeyboardInterrupt, SystemExit)):
        out["error"] = text
    else:
        sim.violation("exception:%s" % type(e).__name__, "unexpected exception in %s: %s | %s" % (where, str(e)[:300], text[-700:]))


def run_inline(mod, plan, seed=None, sched=None, hashes=True):
    """executes one run in this process (a forked child)"""
    from . import core, seams
    gc.disable()
    scratch = os.path.join(SCRATCH_BASE, "vsim%08x" % os.getpid())
    seams.real["mkdir"](scratch)
    choices = core.Choices(random.Random(seed) if sched is None else None, sched)
    sim = core.Sim(choices, start=plan.get("epoch", 1.6e9), max_steps=plan.get("max_steps", 200000))
    world = seams.World(sim, scratch)
    seams.World.current = world
    ctx = Ctx(sim, world, plan, choices, mod)
    root = logging.getLogger()
    for l in [root] + [logging.getLogger(n) for n in ("pyx", "pyx.execute", "pyx.filelocator")]:
        l.handlers = []
        l.propagate = True
        l.setLevel(logging.INFO)
    root.handlers = [_LogHandler(ctx)]
    logging.raiseExceptions = False
    os.chdir(world.cwd)
    tempdir = seams.tempfile
    tempdir.tempdir = world.tmp
    out = {}
    t0 = real_time()
    sim.enter()
    try:
        try:
            mod.run(ctx)
        except core.Deadlock as e:
            sim.violation("deadlock", "%s: %s" % e.args)
        except core.SimAbort:
            out["error"] = "SimAbort in main: " + traceback.format_exc()
        except seams.Escape:
            pass
        except core.SimError:
            out["error"] = traceback.format_exc()
        except BaseException as e:
            blame(sim, e, out)
        sys.settrace(None)
    finally:
        try:
            sim.leave()
        except BaseException:
            out.setdefault("error", traceback.format_exc())
        os.chdir("/")
        try:
            rmtree(scratch)
        except OSError as e:
            out.setdefault("error", "scratch: %s" % e)
    if sim.harness_errors:
        out.setdefault("error", "process model: " + sim.harness_errors[0])
    # what is left of a truncated scratch path differs from run to run
    ev = [re.sub(r"/tmp/vs[^/'\" ]*(/vs[^/'\" ]*)?", "/SCRATCH", world.short(e)) for e in sim.events]
    out.update(violations=sim.violations, faults=sim.faults, probes=sim.probes, steps=sim.steps,
               switches=sim.switches, sim_time=sim.now, sched=choices.taken, sched_hash=sim.sched_hash,
               log_hash=hashlib.sha256("\n".join(ev).encode("utf8", "replace")).hexdigest()[:16],
               stats=ctx.stats, nontrivial=bool(ctx.nontrivial), key=ctx.key, note=ctx.note, wall=real_time() - t0)
    out["events"] = ev[-400:]
    return out


def run_child(mod, plan, seed=None, sched=None):
    """fork, run, collect"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0

        def cpu(sig, frame):
            st = "".join(traceback.format_stack(frame)[-6:])
            from . import core
            sim = core.Sim.current
            res = {"violations": [("hang", "no progress within %d s of CPU time: %s" % (CPU_LIMIT, st))],
                   "faults": sim.faults if sim else {}, "probes": {}, "steps": 0, "switches": 0, "sim_time": 0,
                   "sched": sim.choices.taken if sim else [], "sched_hash": 0, "log_hash": "hang", "stats": {}, "nontrivial": True,
                   "key": None, "note": None, "wall": CPU_LIMIT, "events": []}
            data = pickle.dumps(res)
            os.write(w, struct.pack(">I", len(data)))
            while data:
                data = data[os.write(w, data):]
            try:
                os.chdir("/")
                rmtree(os.path.join(SCRATCH_BASE, "vsim%08x" % os.getpid()))
            except OSError:
                pass
            os._exit(0)
        try:
            signal.signal(signal.SIGPROF, cpu)
            signal.setitimer(signal.ITIMER_PROF, getattr(mod, "CPU_LIMIT", CPU_LIMIT))
            try:
                import resource
                resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
            except Exception:
                pass
            res = run_inline(mod, plan, seed, sched)
            signal.setitimer(signal.ITIMER_PROF, 0)
            data = pickle.dumps(res)
        except BaseException:
            data = pickle.dumps({"error": "child: " + traceback.format_exc()})
            code = 3
        try:
            os.write(w, struct.pack(">I", len(data)))
            while data:
                data = data[os.write(w, data):]
        except OSError:
            pass
        os._exit(code)
    os.close(w)
    buf = b""
    end = real_time() + WALL_LIMIT
    timeout = False
    while True:
        left = end - real_time()
        if left <= 0:
            timeout = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            continue
        d = os.read(r, 1 << 20)
        if not d:
            break
        buf += d
    os.close(r)
    if timeout:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    sp = os.path.join(SCRATCH_BASE, "vsim%08x" % pid)
    if os.path.isdir(sp):
        try:
            rmtree(sp)
        except OSError:
            pass
    if timeout:
        return {"error": "wall clock limit"}
    if len(buf) < 4 or len(buf) - 4 != struct.unpack(">I", buf[:4])[0]:
        return {"error": "child died without a result"}
    return pickle.loads(buf[4:])


def load(check):
    from . import seams
    seams.install()
    sys.path.insert(0, VERIF)
    home = os.path.join(SCRATCH_BASE, "vsimhome%d" % os.getpid())
    # a home without ~/.pyxrc
    os.environ["HOME"] = "/nonexistent"
    fonts = os.path.join(VERIF, "data", "fonts")
    rc = os.path.join(SCRATCH_BASE, "vsimrc%d" % os.getpid())
    with seams.real["open"](rc, "w") as f:
        f.write("[filelocator]\nmethods = local internal ls-R\nls-R = %s/ls-R\n"
                "[text]\npsfontmaps = sim.map\npdffontmaps = sim.map\n" % fonts)
    os.environ["PYXRC"] = rc
    for k in ("SOURCE_DATE_EPOCH",):
        os.environ.pop(k, None)
    os.environ["TZ"] = "UTC"
    time.tzset()
    try:
        mod = importlib.import_module("checks." + check.lower())
        if hasattr(mod, "warm"):
            mod.warm()
    finally:
        seams.real["unlink"](rc)
    import pyx
    assert os.path.dirname(os.path.dirname(os.path.abspath(pyx.__file__))) == os.path.abspath(REPO), pyx.__file__
    return mod


def plan_for(mod, verif_seed, index, tier):
    s = derive(verif_seed, mod.ID, index)
    rng = random.Random(s)
    plan = mod.gen(rng, tier)
    plan = json.loads(json.dumps(plan))
    return plan, derive(s, "sched")


def batch(check, tier, seed, w, W, count, wall, sample_every):
    """runs indices w, w+W, ... and reports one JSON line each"""
    mod = load(check)
    t0 = real_time()
    out = sys.stdout
    print(json.dumps({"ready": True}), file=out, flush=True)
    i = w
    done = 0
    while i < count and real_time() - t0 < wall:
        plan, ss = plan_for(mod, seed, i, tier)
        r = run_child(mod, plan, ss)
        report(out, i, plan, r, w)
        done += 1
        i += W
    # determinism self check on runs of the neighbour worker (other hash seed)
    j = (w + 1) % W
    n = 0
    while j < count and n < sample_every and real_time() - t0 < wall + 15:
        plan, ss = plan_for(mod, seed, j, tier)
        r = run_child(mod, plan, ss)
        print(json.dumps({"again": j, "log_hash": r.get("log_hash"), "error": r.get("error")}), file=out, flush=True)
        n += 1
        j += W * 7
    print(json.dumps({"end": w, "runs": done}), file=out, flush=True)


def report(out, i, plan, r, w):
    d = {"i": i}
    if "error" in r:
        d["error"] = r["error"]
        d["plan"] = plan
    if r.get("violations"):
        d["violations"] = r["violations"]
        d["plan"] = plan
        d["sched"] = r["sched"]
        d["hashseed"] = os.environ.get("PYTHONHASHSEED")
    for k in ("faults", "probes", "steps", "switches", "sim_time", "sched_hash", "log_hash", "stats", "nontrivial", "key", "note", "wall"):
        if k in r:
            d[k] = r[k]
    if i < 3 and "plan" not in d:
        d["plan"] = plan
    d["keyhash"] = derive(r.get("key") or json.dumps(plan, sort_keys=True), r.get("sched_hash")) & 0xffffffffffff
    print(json.dumps(d), file=out, flush=True)


def serve(check):
    """executes (plan, sched) requests from stdin, for the minimiser and replay"""
    mod = load(check)
    print(json.dumps({"ready": True}), flush=True)
    for line in sys.stdin:
        req = json.loads(line)
        r = run_child(mod, req["plan"], req.get("seed"), req.get("sched"))
        print(json.dumps({k: r.get(k) for k in ("violations", "error", "sched", "log_hash", "events", "faults", "note")}), flush=True)


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    import sim.worker as me      # one copy of this module
    a = sys.argv[1:]
    if a[0] == "batch":
        me.batch(a[1], a[2], int(a[3]), int(a[4]), int(a[5]), int(a[6]), float(a[7]), int(a[8]))
    else:
        me.serve(a[1])
