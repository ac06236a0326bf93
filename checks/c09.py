"""C09: errors of an output target are reported, success means a complete file."""

import errno
import io
import logging
import os
import sys

from sim import docwork as dw, drawing, refdoc, seams

ID = "C09"
ERRNOS = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG, errno.EPIPE]
SUFFIX = {"eps": "eps", "ps": "ps", "pdf": "pdf", "svg": "svg"}


def warm():
    logging.getLogger("pyx").setLevel(logging.CRITICAL)
    drawing.warm()
    logging.getLogger("pyx").setLevel(logging.NOTSET)
    refdoc.start()


def gen(rng, tier):
    spec = drawing.gen(rng)
    for p in spec["pages"]:
        if rng.random() < 0.15:
            p["items"].insert(rng.randint(0, len(p["items"])), {"t": "bomb"})
    steps = []
    for i in range(rng.randint(1, 4)):
        fmt = rng.choice(spec["formats"])
        kind = rng.choice(["file", "file", "file", "noext", "tofile", "auto", "stdout", "buffered", "raw", "raw", "plain", "named", "gzip"])
        api = "canvas" if rng.random() < 0.4 and len(spec["pages"]) == 1 else "document"
        fault = None
        if rng.random() < 0.8:
            k = rng.choice(["open", "write", "write", "write", "full", "full", "close", "interrupt", "none", "zero", "item", "dir"])
            fault = [k, rng.choice(ERRNOS), int(2**rng.uniform(0, 17)) if k == "full" else int(2**rng.uniform(0, 10)) if k in ("write", "interrupt", "none", "zero", "item") else 0]
        old = rng.choice([None, None, 10, 200000])
        steps.append([fmt, kind, api, fault, old])
    return {"spec": spec, "steps": steps, "buffer": rng.choice([None, None, 512, 64, 8]), "short": rng.choice([0, 0, 300]),
            "epoch": 1.6e9 + rng.randrange(10**6), "simple": {"buffer": None, "short": 0, "epoch": 1.6e9}}


class Stream:
    """what the user's stream is made of: counts and fails"""

    def __init__(self, ctx, fault, short):
        self.ctx, self.fault, self.short = ctx, fault, short
        self.got = io.BytesIO()
        self.n = 0
        self.fired = False
        self.armed = True

    def write(self, data):
        data = bytes(data)
        f = self.fault
        if data:
            self.n += 1
        if f and self.armed:
            if f[0] == "full":
                room = f[2] - len(self.got.getvalue())
                if room < len(data):
                    self.got.write(data[:max(0, room)])
                    if room > 0 and self.short >= 0:
                        self.ctx.sim.fault("short_write")
                        return room
                    self.fire()
                    raise OSError(f[1], os.strerror(f[1]))
            elif data and self.n == f[2] and f[0] in ("write", "interrupt", "none", "zero"):
                self.fire()
                if f[0] == "interrupt":
                    raise KeyboardInterrupt
                if f[0] == "write":
                    raise OSError(f[1], os.strerror(f[1]))
                return None if f[0] == "none" else 0
        n = len(data)
        if self.short > 0 and n > 1 and self.ctx.sim.choices.chance(self.short):
            n = 1 + self.ctx.sim.choices.pick(n-1)
            self.ctx.sim.fault("short_write")
        self.got.write(data[:n])
        return n

    def fire(self):
        self.fired = True
        self.ctx.sim.fault("stream:" + self.fault[0])


class RawStream(io.RawIOBase):
    def __init__(self, s):
        self.s = s
        self.closes = 0

    def writable(self):
        return True

    def write(self, data):
        return self.s.write(data)

    def close(self):
        self.closes += 1
        super().close()


class Plain:
    """no more than a write method which takes everything and returns nothing"""

    def __init__(self, s):
        self.s = s
        self.closes = 0
        self.closed = False

    def write(self, data):
        # a stream of the user's own either takes everything or fails
        f = self.s.fault
        if f and f[0] in ("none", "zero", "full"):
            f = None
        if f and self.s.armed and data:
            self.s.n += 1
            if self.s.n == f[2] and f[0] in ("write", "interrupt"):
                self.s.fire()
                raise KeyboardInterrupt if f[0] == "interrupt" else OSError(f[1], os.strerror(f[1]))
        self.s.got.write(data)

    def close(self):
        self.closes += 1
        self.closed = True


def run(ctx):
    plan, w, sim = ctx.plan, ctx.world, ctx.sim
    spec = plan["spec"]
    if plan["buffer"]:
        w.buffer_size = plan["buffer"]
    doc = drawing.Builder(spec, "").document()
    fmts = sorted({s[0] for s in plan["steps"]})
    ref = dict(zip(fmts, refdoc.ask([spec], [[0, f, spec["options"][f]] for f in fmts], plan["epoch"])))
    if plan["short"]:
        def max_write(path, n):
            if n > 1 and sim.choices.chance(plan["short"]):
                sim.fault("short_write")
                return 1 + sim.choices.pick(n-1)
            return n
    else:
        max_write = None
    for n, (fmt, kind, api, fault, old) in enumerate(plan["steps"]):
        what = "step %d %s to %s, fault %r" % (n, fmt, kind, fault)
        r = ref[fmt]
        # first with the fault, then again without
        for again in (False, True):
            f = None if again else fault
            w.rules.clear()
            w.max_write = max_write
            if not step(ctx, doc, spec, n, fmt, kind, api, f, None if again else old, max_write, what + (" (again)" if again else ""), r):
                return
            if not fault:
                break
    ctx.nontrivial = True


def step(ctx, doc, spec, n, fmt, kind, api, fault, old, max_write, what, r):
    w, sim = ctx.world, ctx.sim
    opt = spec["options"][fmt]
    suffix = SUFFIX[fmt]
    path = os.path.join(w.cwd, "out%d.%s" % (n, suffix))
    fired = [False]
    faults0 = dict(sim.faults)
    stream = None
    raw = None
    byname = kind in ("file", "noext", "tofile", "auto")
    real = seams.real["open"]
    if fault and fault[0] == "dir":
        if not byname:
            fault = None
        else:
            path = os.path.join(w.cwd, "nodir%d" % n, "out.%s" % suffix)
    if byname:
        if old and not (fault and fault[0] == "dir"):
            with real(path, "wb") as f:
                f.write(b"x" * old)
        if fault:
            if fault[0] in ("open", "close"):
                w.add_rule(fault[0], path, fault[1] if fault[0] == "close" else errno.EACCES)
            elif fault[0] == "write":
                w.add_rule("write", path, fault[1], skip=min(fault[2]-1, 20))
            elif fault[0] == "full":
                used = [0]

                def max_write(p, k, inner=max_write):
                    room = fault[2] - used[0]
                    if room <= 0:
                        fired[0] = True
                        sim.fault("disk_full")
                        return None
                    k = min(k, room)
                    if inner:
                        k = min(k, inner(p, k) or 0)
                    used[0] += k
                    return k
                w.max_write = max_write
            elif fault[0] == "interrupt":
                def max_write(p, k, inner=max_write):
                    fault[2] -= 20
                    if fault[2] <= 0 and not fired[0]:
                        fired[0] = True
                        sim.fault("interrupt")
                        raise KeyboardInterrupt
                    return inner(p, k) if inner else k
                w.max_write = max_write
        arg = {"file": path, "tofile": path, "noext": path[:-len(suffix)-1], "auto": None}[kind]
        if kind == "auto":
            sys.argv = [path[:-len(suffix)-1] + ".py"]
    else:
        stream = Stream(ctx, fault, ctx.plan["short"])
        if kind == "plain":
            arg = Plain(stream)
        elif kind == "named":
            # an open file of the user's own
            if fault and fault[0] == "open":
                fault = None
            arg = open(path, "wb")
            if fault and fault[0] in ("write", "full"):
                w.add_rule("write", path, fault[1], skip=min(fault[2] % 20, 20))
                stream.fault = None
        else:
            raw = RawStream(stream)
            if kind == "raw":
                arg = raw
            elif kind == "buffered":
                arg = io.BufferedWriter(raw, 8192 if not ctx.plan["buffer"] else ctx.plan["buffer"])
            elif kind == "gzip":
                import gzip
                stream.armed = False
                raw = io.BufferedWriter(RawStream(stream), 8192)
                raw.closes = 0
                arg = gzip.GzipFile("x", "wb", 1, raw, mtime=0)
                raw.flush()
                stream.armed = True
                stream.n = 0
            else:
                arg = "-"
                stdout, sys.stdout = sys.stdout, io.TextIOWrapper(io.BufferedWriter(raw, 8192), "ascii")
    if fault and fault[0] == "item":
        drawing.BOMB.update(left=fault[2] % 2 + 1, error=MemoryError if fault[2] % 3 else ArithmeticError)
    error = None
    target = doc.pages[0].canvas if api == "canvas" else doc
    opens = len(w.handles)
    try:
        if kind == "tofile":
            if api == "canvas":
                target = doc
            target.writetofile(path, **opt)
        elif api == "canvas" and kind != "tofile":
            pg = spec["pages"][0]
            if set(pg) - {"items"}:
                target = doc
                getattr(target, dw.METHODS[fmt])(arg, **opt)
            else:
                getattr(target, dw.METHODS[fmt])(arg, **{"write_"+k: v for k, v in opt.items()})
        else:
            getattr(target, dw.METHODS[fmt])(arg, **opt)
    except (Exception, KeyboardInterrupt) as e:
        error = e
    finally:
        drawing.BOMB.update(left=0)
        if arg == "-":
            out = sys.stdout
            sys.stdout = stdout
    # what an undisturbed call does
    new = {k: v - faults0.get(k, 0) for k, v in sim.faults.items() if v != faults0.get(k, 0) and k != "short_write"}
    injected = bool(new) or fault and fault[0] == "dir"
    item = isinstance(error, (MemoryError, ArithmeticError)) and str(error) == "item failed"
    if item:
        sim.fault("item_error")
    # handles
    if byname:
        for h in w.handles[opens:]:
            if not h.closed:
                ctx.fail("open-file", "%s: %s is left open" % (what, w.short(h.path)))
                return False
    else:
        if arg == "-":
            if out.closed or raw.closes:
                ctx.fail("closed", "%s: standard output was closed" % what)
                return False
        elif kind in ("buffered", "gzip", "named", "plain") and arg.closed or kind != "gzip" and raw is not None and raw.closes:
            ctx.fail("closed", "%s: the stream passed was closed" % what)
            return False
    if error is not None:
        if isinstance(r, str) and type(error).__name__ == r[1:]:
            ctx.count("refused")
            return cleanup(ctx, arg, kind, stream, raw)
        if not injected and not item:
            if isinstance(error, KeyboardInterrupt):
                raise RuntimeError("nothing was injected")
            ctx.count("raised")
            raise error
        ctx.count("reported:%s" % (fault[0] if fault else "?"))
        if not (item or isinstance(error, (OSError, KeyboardInterrupt, ValueError, io.UnsupportedOperation))):
            ctx.fail("wrong-error", "%s: %s: %s" % (what, type(error).__name__, error))
            return False
        return cleanup(ctx, arg, kind, stream, raw)
    # success: everything arrived
    if arg == "-" or kind in ("buffered", "gzip", "named"):
        # the rest is with the owner of the stream
        try:
            if kind == "gzip":
                arg.close()
                raw.flush()
            elif arg == "-":
                out.flush()
            else:
                arg.flush()
        except (OSError, KeyboardInterrupt, ValueError):
            ctx.count("error after the call")
            return cleanup(ctx, arg, kind, stream, raw)
    if kind == "named":
        arg.close()
    if byname or kind == "named":
        with real(path, "rb") as f:
            data = f.read()
    else:
        data = stream.got.getvalue()
        if kind == "gzip":
            import gzip
            data = gzip.decompress(data)
    if isinstance(r, str):
        ctx.fail("exception", "%s: is written while elsewhere it is %s" % (what, r[1:]))
        return False
    a, x = refdoc.undated(fmt, data)
    b, y = refdoc.undated(fmt, r)
    if a != b or x != 1:
        if injected:
            ctx.fail("lost-error", "%s returned although %r was injected: %s" % (what, new, refdoc.differ(a, b)))
        else:
            ctx.fail("incomplete", "%s: %s" % (what, refdoc.differ(a, b)))
        return False
    ctx.count("complete")
    if injected and fault[0] in ("close",):
        ctx.fail("lost-error", "%s returned although close failed" % what)
        return False
    return cleanup(ctx, arg, kind, stream, raw)


def cleanup(ctx, arg, kind, stream, raw):
    if stream is not None:
        stream.armed = False
        if raw is not None:
            try:
                raw.close()
            except Exception:
                pass
    if kind == "named":
        ctx.world.rules.clear()
        ctx.world.max_write = None
        try:
            arg.close()
        except Exception:
            pass
    return True
