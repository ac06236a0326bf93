"""C12: Ghostscript output is complete or an error is raised."""

import errno
import hashlib
import io
import logging
import os
import random
import re
import signal
import sys

from sim import docwork as dw, drawing, refdoc, seams

ID = "C12"
PHASES = ["start", "read", "read", "read", "write", "write", "end"]


def warm():
    logging.getLogger("pyx").setLevel(logging.CRITICAL)
    drawing.warm()
    import PIL.PngImagePlugin
    logging.getLogger("pyx").setLevel(logging.NOTSET)


def g_behaviour(rng):
    k = rng.random()
    size = int(2**rng.uniform(0, 17))
    if k < 0.4:
        return ["exit", rng.choice([1, 1, 1, 2, 255]), rng.choice(PHASES), size]
    if k < 0.65:
        return ["kill", rng.choice([signal.SIGKILL, signal.SIGSEGV, signal.SIGTERM, signal.SIGABRT]), rng.choice(PHASES), size]
    return ["closein", rng.choice([0, 0, 1, 3]), "read", size]


def g_mesh(rng):
    cm = rng.choice(["gray", "rgb", "cmyk"])
    nc = {"gray": 1, "rgb": 3, "cmyk": 4}[cm]
    pts = [[[rng.randint(-20, 20), rng.randint(-20, 20)], [rng.randint(0, 10)/10 for i in range(nc)]] for j in range(rng.randint(3, 6))]
    pts[0][0] = [-21, rng.randint(-9, 9)]
    pts[1][0] = [rng.randint(-9, 9), 21]
    pts[2][0] = [21, -21]
    return {"t": "mesh", "cm": cm, "pts": pts, "els": [[0, 1, 2]] + [rng.sample(range(len(pts)), 3) for i in range(rng.randint(0, 3))]}


def gen(rng, tier):
    while True:
        spec = drawing.gen(rng)
        inputs = [f for f in ("eps", "pdf") if f in spec["formats"]]
        if len(spec["pages"]) == 1 and not set(spec["pages"][0]) - {"items"} and inputs:
            break
    items = spec["pages"][0]["items"]
    if rng.random() < 0.25:
        items.insert(rng.randint(0, len(items)), {"t": "bomb"})
    if rng.random() < 0.06:
        items.clear()
    spec["eps"] = ["\n".join(["%!PS-Adobe-3.0 EPSF-3.0", "%%%%BoundingBox: %d %d %d %d" % (x, y, x+rng.randint(1, 20), y+rng.randint(1, 20)),
                              "%%EndComments", "newpath %d %d moveto 1 1 rlineto stroke" % (x, y), "%%EOF", ""])
                   for x, y in [(rng.randint(-9, 9), rng.randint(-9, 9)) for i in range(2)]]
    steps = []
    for n in range(rng.randint(1, 4)):
        call = rng.choice(["file", "file", "file", "auto", "stdout", "pipe", "pipe", "pipe", "repr", "mesh", "eps"])
        s = {"call": call, "input": rng.choice(inputs)}
        if call in ("mesh", "eps"):
            s["fmt"] = rng.choice(["svg", "pdf", "ps", "eps"] if call == "mesh" else ["pdf"])
            s["items"] = [g_mesh(rng) if call == "mesh" else
                          {"t": "eps", "i": rng.randrange(2), "x": rng.randint(-3, 3), "y": rng.randint(-3, 3), "scale": None, "clip": rng.random() < 0.5, "align": "bl"}
                          for i in range(rng.choice([1, 1, 2]))]
            s["res"] = rng.choice([None, 72, 150])
        else:
            if call == "repr" and "eps" not in inputs:
                s["call"] = call = "pipe"
            s["device"] = rng.choice([None, "png16m", "jpeg", "pngalpha", "pdfwrite"]) if call == "file" else rng.choice(["png16m", "pngalpha", "jpeg", "tiff24nc"])
            s["name"] = "out%d" % n + (rng.choice([".png", ".jpg"]) if not s["device"] or rng.random() < 0.5 else rng.choice([".x", "", " with blank.png", ".png.old"]))
            o = {}
            if call != "repr":
                for k, p, v in [("resolution", 0.4, [72, 100, 300]), ("textalphabits", 0.2, [None, 1, 2]), ("graphicsalphabits", 0.2, [None, 1, 2]),
                                ("ciecolor", 0.2, [True, False]), ("gsoptions", 0.2, [["-dFirst=1"], ["-c", "x y"], []]), ("gs", 0.15, ["gs2", "/opt/gs 9/bin/gs"])]:
                    if rng.random() < p:
                        o[k] = rng.choice(v)
            s["options"] = o
            w = {}
            if call != "repr":
                w.update(("write_"+k, v) for k, v in spec["options"][s["input"]].items())
                if rng.random() < 0.2:
                    w["page_bboxenlarge"] = rng.randint(1, 20)
            s["write"] = w
        fault = None
        k = rng.random()
        m = rng.choice([0, 0, 1]) if call in ("mesh", "eps") else 0
        if k < 0.45:
            fault = ["gs", m, g_behaviour(rng)]
        elif k < 0.55:
            fault = ["spawn", m, rng.choice([errno.ENOENT, errno.EACCES, errno.EAGAIN, errno.ENOMEM])]
        elif k < 0.72:
            op = rng.choice(["open", "write", "write", "full", "full", "close", "unlink"])
            fault = ["tmp", op, rng.choice([errno.ENOSPC, errno.EIO, errno.EDQUOT]) if op != "open" else rng.choice([errno.EACCES, errno.EMFILE, errno.ENOSPC]), int(2**rng.uniform(0, 15))]
        elif k < 0.8:
            fault = ["interrupt", rng.choice([0, 0, 1, 2, 3, 5, 9])]
        elif k < 0.85:
            fault = ["bomb", rng.choice([1, 1, 2]), rng.random() < 0.5]
        s["fault"] = fault
        s["old"] = rng.random() < 0.3
        steps.append(s)
    return {"spec": spec, "steps": steps, "buffer": rng.choice([None, None, 512, 64]), "capacity": rng.choice([65536, 65536, 4096, 512, 16 if rng.random() < 0.2 else 4096]),
            "slow": rng.choice([0, 0, 100, 400]), "chatter": rng.choice([0, 0, 0, 100, 100000]), "epoch": 1.6e9 + rng.randrange(10**6),
            "simple": {"buffer": None, "capacity": 65536, "slow": 0, "chatter": 0, "epoch": 1.6e9}}


def png(key, data, res):
    """what the program makes of a file: depends on everything it was told"""
    from PIL import Image
    m = re.search(rb"%%HiResBoundingBox: (-?[0-9.]+) (-?[0-9.]+) (-?[0-9.]+) (-?[0-9.]+)\n", data)
    if m:
        b = [float(x) for x in m.groups()]
        w, h = [max(1, min(1500, int(-(-(b[i+2]-b[i])*res // 72)))) for i in (0, 1)]
    else:
        w, h = 31, 17
    while w*h > 90000:
        w, h = (w+1)//2, (h+1)//2
    r = random.Random(hashlib.sha256(repr(key).encode() + data).hexdigest())
    n = w*h*4
    raw = r.randbytes(min(n, int(2**r.uniform(3, 18))))
    raw += bytes(n - len(raw))
    im = Image.frombytes("RGBA", (w, h), raw)
    f = io.BytesIO()
    im.save(f, "png", compress_level=1, dpi=(res, res))
    return f.getvalue(), im


class Die(BaseException):
    pass


class GS:
    """the simulated program"""

    def __init__(self, run):
        self.run = run
        self.ctx = run.ctx
        self.sim = run.ctx.sim

    def __call__(self, popen, args):
        call = {"args": args, "behaviour": self.run.behaviours.pop(0) if self.run.behaviours else None, "input": None, "output": None,
                "popen": popen, "failed": False, "bad": None, "image": None}
        self.run.calls.append(call)
        return lambda: self.body(popen, args, call)

    def at(self, call, phase, n=0):
        b = call["behaviour"]
        if b and b[2] == phase and n >= b[3] and not call["failed"] and b[0] != "closein":
            call["failed"] = True
            self.sim.fault("gs:%s:%s" % (b[0], phase))
            raise Die()

    def tick(self):
        if self.ctx.plan["slow"] and self.sim.choices.chance(self.ctx.plan["slow"]):
            self.sim.sleep(0.5)
            self.sim.probe("slow_gs")

    def body(self, popen, args, call):
        try:
            return self.work(popen, args, call)
        except Die:
            b = call["behaviour"]
            return b[1] if b[0] == "exit" else -b[1]

    def work(self, popen, args, call):
        b = call["behaviour"]
        sim = self.sim
        say = self.ctx.plan["chatter"]
        if say and popen.err_pipe:
            popen.err_pipe.b_write(b"x" * say)
        self.at(call, "start", 10**9)
        opts = {}
        source = None
        it = iter(args[1:])
        for a in it:
            if a == "-c":
                opts["-c"] = next(it, None)
            elif a == "-" or not a.startswith("-"):
                if source is not None:
                    call["bad"] = "two input files: %r" % (args,)
                    return 1
                source = a
            elif source is not None:
                call["bad"] = "options after the input file: %r" % (args,)
            elif a == "-q":
                opts["-dQUIET"] = ""
            else:
                k, eq, v = a.partition("=")
                if a[:2] == "-r":
                    k, v = "-r", a[2:]
                opts[k] = v
        if source is None:
            call["bad"] = "no input: %r" % (args,)
            return 1
        if "-dBATCH" not in opts or "-dNOPAUSE" not in opts:
            call["bad"] = "the program would wait for the user: %r" % (args,)
        if opts.get("-sDEVICE", "") == "" or opts.get("-sOutputFile", "") == "":
            call["bad"] = "no device or output: %r" % (args,)
            return 1
        # read
        got = bytearray()
        if source == "-":
            if not popen.in_pipe:
                call["bad"] = "nothing to read: %r" % (args,)
                return 1
            while True:
                self.at(call, "read", len(got))
                if b and b[0] == "closein" and len(got) >= b[3]:
                    # it has seen enough
                    if popen.in_pipe.buf or popen.in_pipe.writer_open:
                        call["closed"] = True
                        sim.fault("gs:closein")
                    popen.in_pipe.reader_open = False
                    self.tick()
                    if b[1]:
                        call["failed"] = True
                        return b[1]
                    break
                limit = 1 + sim.choices.pick(9000)
                if b and b[2] == "read" and len(got) < b[3]:
                    limit = max(1, min(limit, b[3]-len(got)))
                d = popen.in_pipe.b_read(limit)
                if not d:
                    break
                got += d
                self.tick()
        else:
            try:
                f = seams.real["open"](source, "rb")
            except OSError as e:
                call["bad"] = "the input cannot be read: %s" % e
                return 1
            with f:
                while True:
                    self.at(call, "read", len(got))
                    d = f.read(1 + sim.choices.pick(90000))
                    if not d:
                        break
                    got += d
                    sim.yield_point("gs read")
                    self.tick()
        call["input"] = bytes(got)
        self.at(call, "read", 10**9)
        # write
        out = opts.pop("-sOutputFile")
        res = float(opts.get("-r") or 72)
        key = sorted((k, v) for k, v in opts.items())
        call["options"] = dict(key)
        data, call["image"] = png(key, bytes(got), res)
        call["output"] = data
        n = 0
        if out == "-":
            if "-dQUIET" not in opts:
                data = b"GPL Ghostscript\n" + data
            f = None
        else:
            f = seams.real["open"](os.path.join(popen.cwd or self.ctx.world.cwd, out), "wb")
        try:
            while n < len(data):
                self.at(call, "write", n)
                m = 1 + sim.choices.pick(60000)
                if b and b[2] == "write" and n < b[3]:
                    m = max(1, min(m, b[3]-n))
                if f:
                    f.write(data[n:n+m])
                elif popen.out_pipe:
                    popen.out_pipe.b_write(data[n:n+m])
                else:
                    self.run.stdout += data[n:n+m]
                n += len(data[n:n+m])
                if f:
                    sim.yield_point("gs write")
                self.tick()
        finally:
            if f:
                f.close()
        self.at(call, "write", 10**9)
        if sim.choices.chance(300):
            # exits only some time after its output is complete
            if popen.out_pipe:
                popen.out_pipe.writer_open = False
            sim.sleep(0.1)
        self.at(call, "end", 10**9)
        return 0


class Run:
    def __init__(self, ctx):
        self.ctx = ctx
        self.behaviours = []
        self.calls = []
        self.stdout = bytearray()


DEFAULTS = {"resolution": 100, "textalphabits": 4, "graphicsalphabits": 4, "ciecolor": False, "gsoptions": []}


def told(device, o):
    """the options the program should get"""
    o = dict(DEFAULTS, **o)
    r = {"-sDEVICE": device, "-r": "%d" % o["resolution"]}
    if o["textalphabits"] is not None:
        r["-dTextAlphaBits"] = "%d" % o["textalphabits"]
    if o["graphicsalphabits"] is not None:
        r["-dGraphicsAlphaBits"] = "%d" % o["graphicsalphabits"]
    if o["ciecolor"]:
        r["-dUseCIEColor"] = ""
    g = o["gsoptions"]
    if g[:1] == ["-c"]:
        r["-c"] = g[1]
    elif g:
        k, eq, v = g[0].partition("=")
        r[k] = v
    return r


def run(ctx):
    plan, w, sim = ctx.plan, ctx.world, ctx.sim
    spec = plan["spec"]
    if plan["buffer"]:
        w.buffer_size = plan["buffer"]
    w.pipe_capacity = plan["capacity"]
    r = Run(ctx)
    gs = GS(r)
    for p in ("gs", "gs2"):
        w.programs[p] = gs
    b = drawing.Builder(spec, "")
    r.canvas = b.canvas(spec["pages"][0])
    r.builder = b
    for n, s in enumerate(plan["steps"]):
        for again in (False, True):
            f = None if again else s["fault"]
            what = "step %d %s%s, fault %r%s" % (n, s["call"], " of " + (s.get("fmt") or s["input"]), s["fault"], " (again)" if again else "")
            if not step(ctx, r, s, f, n, what):
                return
            if not s["fault"]:
                break
    ctx.nontrivial = True


def reference(c, fmt, kw):
    f = io.BytesIO()
    try:
        getattr(c, dw.METHODS[fmt])(f, **kw)
    except Exception as e:
        return e
    return f.getvalue()


def step(ctx, r, s, fault, n, what):
    from pyx import canvas, unit
    w, sim = ctx.world, ctx.sim
    call = s["call"]
    nested = call in ("mesh", "eps")
    # what the program has to get
    kw = {}
    if nested:
        c = canvas.canvas()
        r.builder.fill(c, s["items"])
        refs = []
        for item in c.items:
            x = canvas.canvas()
            x.insert(item)
            refs.append((reference(x, "eps", {}), item))
        fmt = "eps"
    else:
        c = r.canvas
        fmt = "eps" if call == "repr" else s["input"]
        kw = dict(s["write"])
        if "page_bboxenlarge" in kw:
            kw["page_bboxenlarge"] *= unit.t_pt
        rkw = dict(kw)
        if call == "repr":
            rkw["page_bboxenlarge"] = 1*unit.t_pt
        refs = [(reference(c, fmt, rkw), None)]
    r.calls.clear()
    r.behaviours.clear()
    r.stdout.clear()
    w.rules.clear()
    w.max_write = None
    w.spawn_errors.clear()
    path = None
    faults0 = dict(sim.faults)
    procs0, opens0 = len(w.processes), len(w.handles)
    # the fault
    if fault:
        if fault[0] == "gs":
            r.behaviours[:] = [None]*fault[1] + [fault[2]]
        elif fault[0] == "spawn":
            for p in ("gs", "gs2"):
                w.spawn_errors[p] = [None]*fault[1] + [OSError(fault[2], os.strerror(fault[2]), p)]
        elif fault[0] == "tmp":
            intmp = lambda p: str(p).startswith(w.tmp)
            if fault[1] == "full":
                used = [0]

                def max_write(p, k):
                    if not intmp(p):
                        return k
                    room = fault[3] - used[0]
                    if room <= 0:
                        sim.fault("disk_full")
                        return None
                    k = min(k, room)
                    used[0] += k
                    return k
                w.max_write = max_write
            else:
                w.add_rule(fault[1], intmp, fault[2], skip=min(fault[3], 20) if fault[1] == "write" else 0)
        elif fault[0] == "interrupt":
            sim.interrupt_any = fault[1]
        elif fault[0] == "bomb":
            drawing.BOMB.update(left=1, error=MemoryError if fault[2] else ArithmeticError)
    error = result = None
    o = dict(s.get("options", {}))
    try:
        if nested:
            f = io.BytesIO()
            wkw = {}
            if call == "mesh":
                if s["fmt"] != "svg":
                    wkw["write_meshasbitmap"] = True
                if s["res"]:
                    wkw["write_meshasbitmapresolution"] = s["res"]
            try:
                getattr(c, dw.METHODS[s["fmt"]])(f, **wkw)
            finally:
                result = f.getvalue()
        elif call == "repr":
            result = c._repr_png_()
        elif call == "pipe":
            result = c.pipeGS(s["device"], **dict({"input": s["input"]} if s["input"] != "eps" or n % 2 else {}, **o), **kw)
        else:
            a = {}
            if s["input"] != "eps" or n % 2:
                a["input"] = s["input"]
            if call == "file":
                path = os.path.join(w.cwd, s["name"])
                if s["old"]:
                    with seams.real["open"](path, "wb") as f:
                        f.write(b"x"*10**5)
                c.writeGSfile(path if n % 2 else s["name"], s["device"], **a, **o, **kw)
            elif call == "stdout":
                c.writeGSfile("-", device=s["device"], **a, **o, **kw)
            else:
                sys.argv = [os.path.join(w.cwd, "script%d.py" % n)]
                path = sys.argv[0][:-2] + {"png": "png", "jpe": "jpg", "tif": s["device"]}[s["device"][:3]]
                c.writeGSfile(device=s["device"], **a, **o, **kw)
    except (Exception, KeyboardInterrupt) as e:
        error = e
    finally:
        drawing.BOMB.update(left=0)
        sim.interrupt_any = None
    fired = {k: v - faults0.get(k, 0) for k, v in sim.faults.items() if v != faults0.get(k, 0) and k != "short_write"}
    item = isinstance(error, (MemoryError, ArithmeticError)) and str(error) == "item failed"
    if item:
        sim.fault("item_error")
    text = "%s: %s" % (what, "returned" if error is None else "raised %s (%s)" % (type(error).__name__, w.short(error)))
    # nothing is left behind
    for p in w.processes[procs0:]:
        if not p.exited:
            ctx.fail("process", "%s while the program is running" % text)
            return False
        if not p.reaped:
            ctx.fail("zombie", "%s and nobody waited for the program" % text)
            return False
        for name in ("stdin", "stdout", "stderr"):
            f = getattr(p, name)
            if f is not None and not f.closed:
                ctx.fail("open-pipe", "%s and %s of the program is left open" % (text, name))
                return False
    for h in w.handles[opens0:]:
        if not h.closed:
            ctx.fail("open-file", "%s and %s is left open" % (text, w.short(h.path)))
            return False
    left = seams.real["listdir"](w.tmp)
    if left and not any(k.startswith("unlink") for k in fired):
        ctx.fail("temporary-file", "%s and %d files are left in the temporary directory" % (text, len(left)))
        return False
    for x in left:
        seams.real["unlink"](os.path.join(w.tmp, x))
    for x in r.calls:
        if x["bad"] and (error is None or not fired):
            ctx.fail("arguments", "%s: %s" % (text, w.short(x["bad"])))
            return False
    refused = next((x for x, item in refs if isinstance(x, Exception)), None)
    if error is not None:
        if isinstance(error, KeyboardInterrupt) and "SIGINT" not in fired:
            raise RuntimeError("nothing was injected")
        if fired or item:
            ctx.count("reported")
            for k in fired:
                ctx.count("reported after " + k.split(":")[0])
            return True
        if refused is not None and type(refused) is type(error):
            ctx.count("refused")
            return True
        if isinstance(error, ValueError) and not ctx.plan["spec"]["pages"][0]["items"] and call == "file" and False:
            return True
        raise error
    if refused is not None:
        ctx.fail("accepted", "%s although the document cannot be written: %r" % (text, refused))
        return False
    if [x for x in r.calls if x["failed"]] or any(not k.startswith(("unlink", "gs:closein")) for k in fired):
        ctx.fail("lost-error", "%s although %s" % (text, ", ".join(sorted(fired))))
        return False
    if len(r.calls) != len(refs):
        ctx.fail("calls", "%s after %d calls of the program for %d" % (text, len(r.calls), len(refs)))
        return False
    for x, (ref, item) in zip(r.calls, refs):
        if x.get("closed"):
            # all it left was in the pipe already: nobody can know
            ctx.count("closed after the last write")
            continue
        a, k = refdoc.undated(fmt, x["input"])
        b, k = refdoc.undated(fmt, ref)
        if a != b:
            ctx.fail("input", "%s, the program got another file: %s" % (text, refdoc.differ(a, b)))
            return False
    if nested:
        return nested_result(ctx, r, s, c, refs, result, text)
    x = r.calls[0]
    if path:
        try:
            with seams.real["open"](path, "rb") as f:
                got = f.read()
        except FileNotFoundError:
            got = None
        seams.real["unlink"](path) if got is not None else None
    elif call == "stdout":
        got = bytes(r.stdout)
    else:
        got = result if call == "repr" else result.read()
    if got != x["output"]:
        ctx.fail("output", "%s, result %s, the program made %s" % (text, "missing" if got is None else "%d bytes %r" % (len(got), got[:30]), "%d bytes" % len(x["output"])))
        return False
    device = "png16m" if call == "repr" else s["device"] or {".png": "png16m", ".jpg": "jpeg"}[s["name"][-4:]]
    want = told(device, o)
    gives = {k: v for k, v in x["options"].items() if k in set(want) | {"-sDEVICE", "-r", "-dTextAlphaBits", "-dGraphicsAlphaBits", "-dUseCIEColor"}}
    if gives != want:
        ctx.fail("options", "%s: the program was told %r instead of %r" % (text, gives, want))
        return False
    prog = os.path.basename(o.get("gs", "gs"))
    if x["popen"].prog != prog or x["args"][0] != o.get("gs", "gs"):
        ctx.fail("options", "%s: %s was executed" % (text, x["args"][0]))
        return False
    ctx.count("complete")
    return True


def nested_result(ctx, r, s, c, refs, result, text):
    """the bitmaps of the program are in the file"""
    fmt = s["fmt"]
    page = dw.Painted(fmt, result).pages[0]
    marks = [m for m in page if m.kind == "image"]
    if len(marks) != len(refs) or len(page) != len(marks):
        ctx.fail("nested", "%s: the file has %d marks, %d are images, for %d items" % (text, len(page), len(marks), len(refs)))
        return False
    for m, x, (ref, item) in zip(marks, r.calls, refs):
        im = x["image"]
        rgb = im.convert("RGB").tobytes()
        alpha = im.getchannel("A").tobytes()
        data, a8 = m.data, m.alpha8
        if m.mode == "RGBA":
            data, a8 = b"".join(m.data[i:i+3] for i in range(0, len(m.data), 4)), m.data[3::4]
        if tuple(m.size) != im.size or bytes(data) != rgb or a8 is not None and bytes(a8) != alpha:
            ctx.fail("nested", "%s: the image in the file is not the one the program made (%s %r, %r)" % (text, m.mode, m.size, im.size))
            return False
        if x["options"].get("-sDEVICE") != "pngalpha" or s.get("res") and s["call"] == "mesh" and x["options"].get("-r") != "%d" % s["res"]:
            ctx.fail("options", "%s: the program was told %r" % (text, x["options"]))
            return False
        # in the middle of the item
        mx = m.matrix
        box = item.bbox()
        want = [(box.llx_pt+box.urx_pt)/2, (box.lly_pt+box.ury_pt)/2]
        got = [mx[4]+(mx[0]+mx[2])/2, mx[5]+(mx[1]+mx[3])/2]
        res = float(x["options"]["-r"])
        if abs(abs(mx[0]) - im.size[0]*72/res) > 0.02*im.size[0]*72/res + 0.01:
            ctx.fail("nested", "%s: the image is %g wide, %d pixels at %g" % (text, mx[0], im.size[0], res))
            return False
        if max(abs(a-b) for a, b in zip(want, got)) > 0.02:
            ctx.fail("nested", "%s: the image is at %r instead of %r" % (text, got, want))
            return False
    ctx.count("nested")
    return True
