"""C13: EPS files are taken over completely, with the box they declare, or rejected."""

import errno
import io
import logging
import os
import random
import re

from sim import docwork as dw, drawing, paint, seams

ID = "C13"
EOLS = ["\n", "\r\n", "\r"]


def warm():
    logging.getLogger("pyx").setLevel(logging.CRITICAL)
    drawing.warm()
    from pyx import epsfile
    logging.getLogger("pyx").setLevel(logging.NOTSET)


# -- files -------------------------------------------------------------------
# a file is a list of [kind, ...] segments and is stored in the plan as latin-1 text

def g_box(rng, trailer=False):
    a, b = rng.randint(-60, 60), rng.randint(-60, 60)
    v = [a, b, a+rng.choice([1, 5, 30, 144, 400]), b+rng.choice([1, 7, 50, 200])]
    if trailer and rng.random() < 0.3:
        return " ".join("%g" % (x+rng.choice([0, 0.25, 0.5])) for x in v)
    k = rng.random()
    if k < 0.03:
        return " ".join(str(x) for x in v[:3])
    if k < 0.06:
        return rng.choice(["", "none", "1 2 3 x", "1 2 3 4 5", "(atend) 1"])
    return rng.choice([" ", " ", "  ", "\t"]).join(str(x) for x in v)


def g_text(rng, eol):
    k = rng.random()
    if k < 0.1:
        return "%" + "x" * rng.choice([0, 10, 255, 256, 257, 258, 513, 1000])
    if k < 0.2:
        return rng.choice(["% a comment", "%", "", " ", "%%", "%%Title: (x", "%%%BoundingBox: 1 2 3 4", " %%BoundingBox: 1 2 3 4"])
    return rng.choice(["newpath 0 0 moveto 10 10 lineto stroke", "gsave", "/q {moveto} bind def", "showpage", "q 1 2", "x", "10 dict begin", "(%%BoundingBox: 1 2 3 4) pop",
                       "% %%Trailer", "1 0 0 setrgbcolor"])


def g_data(rng, eol):
    """a section of data which is not to be looked at"""
    inner = rng.choice(["%%Trailer", "%%BoundingBox: 9 9 99 99", "%%EndData", "%%EndBinary", "%%EOF", "%%BeginDocument: x", "%%EndDocument", "\0\r\n\xff"])
    k = rng.choice(["Bytes", "Lines", "none", "type", "binary"])
    if k == "Lines":
        lines = [rng.choice([inner, "ab", ""]) + eol for i in range(rng.randint(0, 4))]
        return ["%%%%BeginData: %d Hex Lines" % len(lines) + eol] + lines + ["%%EndData" + eol]
    data = "".join(chr(rng.randrange(256)) for i in range(rng.choice([0, 1, 7, 300]))) + rng.choice(["", eol]) + inner + rng.choice(["", eol, "\xff" * 20])
    end = rng.choice(["", eol])
    if data.endswith("\r") and not end:
        end = eol
    if k == "binary":
        return ["%%%%BeginBinary: %d" % len(data) + eol, data + end, "%%EndBinary" + eol]
    return ["%%%%BeginData: %d" % len(data) + {"Bytes": " Binary Bytes", "none": "", "type": " ASCII"}[k] + eol, data + end, "%%EndData" + eol]


def g_file(rng, depth=0):
    eol = rng.choice(EOLS)
    r = [rng.choice(["%!PS-Adobe-3.0 EPSF-3.0", "%!PS-Adobe-2.0 EPSF-1.2", "%!"]) + eol]
    where = rng.choice(["head", "head", "atend", "atend", "none" if rng.random() < 0.3 else "head"])
    head = []
    if where == "head":
        head.append("%%BoundingBox:" + rng.choice([" ", "", "  "]) + g_box(rng))
        if rng.random() < 0.15:
            head.append("%%BoundingBox: " + g_box(rng))
    elif where == "atend":
        head.append("%%BoundingBox: (atend)")
        if rng.random() < 0.15:
            head.append("%%BoundingBox: " + g_box(rng))
    for i in range(rng.randint(0, 4)):
        head.insert(rng.randint(0, len(head)) if rng.random() < 0.8 else 0, rng.choice(
            ["%%Title: x", "%%HiResBoundingBox: 1.5 1.5 2.5 2.5", "%%Creator: (y)", "%%CreationDate: now", "%%+ more", "%%BoundingBoxes: 1 2 3 4", "%%Title: " + "y" * rng.choice([200, 241, 242, 243, 244, 250, 600])]))
    r += [x + eol for x in head]
    if rng.random() < 0.85 and depth == 0 or depth:
        r.append("%%EndComments" + rng.choice(["", " "]) + eol)
    else:
        r.append("/x 1 def" + eol)
    for i in range(rng.randint(0, 6)):
        k = rng.random()
        if k < 0.5:
            r.append(g_text(rng, eol) + eol)
        elif k < 0.75:
            r += g_data(rng, eol)
        elif depth < 2:
            r.append("%%BeginDocument: inner.eps" + eol)
            sub = g_file(rng, depth+1)
            if not sub[-1].endswith(("\n", "\r")):
                sub[-1] += eol
            r += sub
            r.append("%%EndDocument" + eol)
    if where == "atend" and rng.random() < 0.95 or rng.random() < 0.5:
        r.append("%%Trailer" + eol)
        for i in range(rng.choice([0, 0, 1])):
            r.append(g_text(rng, eol) + eol)
        if where == "atend" and rng.random() < 0.95 or rng.random() < 0.1:
            r.append("%%BoundingBox: " + g_box(rng, True) + eol)
            if rng.random() < 0.15:
                r.append("%%BoundingBox: " + g_box(rng, True) + eol)
    if rng.random() < 0.7:
        r.append("%%EOF" + eol)
    if rng.random() < 0.2 and depth == 0:
        r[-1] = r[-1].rstrip("\r\n")
    return r


def g_source(rng):
    s = "".join(g_file(rng))
    k = rng.random()
    if k < 0.12:
        s = s[:rng.randint(0, len(s))]
    elif k < 0.2 and s:
        i = rng.randrange(len(s))
        s = s[:i] + chr(rng.choice([0, 10, 13, 32, 37, 48, 255, rng.randrange(256)])) + s[i+1:]
    elif k < 0.22:
        s = ""
    return s


def gen(rng, tier):
    names = rng.sample(["a.eps", "b.eps", "noext", "sub/c.eps", "with (blank).eps", "(d).eps", "f\xfcr.eps", "\u4e2d.eps"], 3)
    steps = [["file", n, g_source(rng)] for n in names]
    for i in range(rng.randint(2, 8)):
        k = rng.random()
        n = rng.choice(names)
        fault = None
        if rng.random() < 0.3:
            fault = [rng.choice(["open", "read", "read", "close", "interrupt"]), rng.choice([errno.EIO, errno.EACCES, errno.ENOENT, errno.ESTALE]), rng.choice([0, 0, 1, 2, 5])]
        if k < 0.5:
            p = {"x": rng.choice([0, 0, 2, -1.5]), "y": rng.choice([0, 0, 1, -3.25])}
            m = rng.random()
            if m < 0.2:
                p["scale"] = rng.choice([0.5, 2, 1])
            elif m < 0.5:
                if rng.random() < 0.7:
                    p["width"] = rng.choice([1, 5, 0.7])
                if rng.random() < 0.7:
                    p["height"] = rng.choice([1, 4, 0.3])
            elif m < 0.53:
                p.update(scale=2, width=3)
            if rng.random() < 0.5:
                p["align"] = rng.choice("bct") + rng.choice("lcr")
            if rng.random() < 0.3:
                p["clip"] = False
            if rng.random() < 0.2:
                p["translatebbox"] = False
            if rng.random() < 0.15:
                p["bbox"] = [rng.randint(-9, 9), rng.randint(-9, 9), rng.randint(10, 50), rng.randint(10, 50)]
            if rng.random() < 0.25 and n.endswith(".eps"):
                p["kpsearch"] = rng.choice(["full", "bare"])
            steps.append(["include", n, p, fault])
        elif k < 0.85:
            steps.append(["write", rng.choice(["eps", "eps", "ps"]), fault])
        elif k < 0.95:
            steps.append(["file", n, g_source(rng)])
        else:
            steps.append(["remove", n])
    steps.append(["write", rng.choice(["eps", "ps"]), None])
    return {"steps": steps, "buffer": rng.choice([None, None, 64, 16, 1]), "short": rng.choice([0, 0, 300, 800]),
            "simple": {"buffer": None, "short": 0}}


# -- what a file declares ----------------------------------------------------

class Bad(Exception):
    pass


LINE = re.compile(rb"[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+\Z")


def values(b, floats):
    v = b.split()
    if len(v) != 4:
        raise Bad("%d values" % len(v))
    for x in v:
        if not re.match(rb"[+-]?\d+$" if not floats else rb"[+-]?(\d+\.?\d*|\.\d+)$", x):
            raise Bad("value %r" % x)
    return [float(x) for x in v]


def number(l):
    m = re.match(rb"\s*\+?(\d+)\s*$", l)
    if not m:
        raise Bad("count %r" % l)
    return int(m.group(1))


def declared(data):
    """(box or the reason why there is none, whether it may be rejected nevertheless)"""
    try:
        return declared_(data), False
    except Bad as e:
        return e, False
    except Ellipsis_ as e:
        return e.args[0], True


class Ellipsis_(Exception):
    pass


def declared_(data):
    pos = 0

    def line(must=True):
        nonlocal pos
        m = LINE.match(data, pos)
        if not m:
            if must:
                raise Bad("end of file")
            return None
        pos = m.end()
        return m.group()
    if not line().startswith(b"%!"):
        raise Bad("no header")
    atend = False
    while True:
        l = line()
        if l.startswith(b"%%BoundingBox:"):
            if atend:
                continue
            v = l[14:]
            if v.split() == [b"(atend)"]:
                atend = True
                continue
            try:
                return values(v, False)
            except Bad:
                # real numbers are not allowed here, but could be understood
                raise Ellipsis_(values(v, True)) from None
        if l.rstrip() == b"%%EndComments" or l.strip() and not l.startswith(b"%"):
            break
    if not atend:
        raise Bad("no box")
    depth = 0
    while True:
        l = line()
        m = re.match(rb"%%Begin(Data|Binary):", l)
        if m:
            v = l[m.end():].split()
            lines = False
            if m.group(1) == b"Binary":
                n = number(l[m.end():])
            else:
                if not 1 <= len(v) <= 3:
                    raise Bad("data")
                n = number(v[0])
                if len(v) == 3:
                    if v[2] not in (b"Lines", b"Bytes"):
                        raise Bad("data")
                    lines = v[2] == b"Lines"
            if lines:
                for i in range(n):
                    line()
                l = line()
            else:
                if pos + n > len(data):
                    raise Bad("short data")
                pos += n
                l = line()
                if not l.strip():
                    l = line()
            if l.rstrip() != b"%%End" + m.group(1):
                raise Bad("end of data")
        elif l.startswith(b"%%BeginDocument:"):
            depth += 1
        elif l.rstrip() == b"%%EndDocument":
            if not depth:
                raise Bad("end of document")
            depth -= 1
        elif not depth and l.rstrip() == b"%%Trailer":
            break
    box = None
    while True:
        l = line(False)
        if l is None:
            break
        if l.startswith(b"%%BoundingBox:"):
            box = values(l[14:], True)
    if box is None:
        raise Bad("no box in the trailer")
    return box


# -- the run -----------------------------------------------------------------

def run(ctx):
    from pyx import canvas, epsfile, bbox, unit
    plan, w, sim = ctx.plan, ctx.world, ctx.sim
    if plan["buffer"]:
        w.buffer_size = plan["buffer"]
    short = plan["short"]

    def max_read(path, n):
        if short and n > 1 and sim.choices.chance(short):
            sim.fault("short_read")
            return 1 + sim.choices.pick(n-1)
        return n
    w.max_read = max_read
    real = seams.real
    real["mkdir"](os.path.join(w.cwd, "sub"))
    files = {}
    items = []        # (item, name, params, box)
    drawn = 0
    for n, st in enumerate(plan["steps"]):
        op = st[0]
        what = "step %d %s" % (n, op)
        if op == "file":
            files[st[1]] = st[2].encode("latin-1")
            with real["open"](st[1], "wb") as f:
                f.write(files[st[1]])
            continue
        if op == "remove":
            if files.pop(st[1], None) is not None:
                real["unlink"](st[1])
            continue
        fault = st[-1]
        for again in (False, True):
            w.rules.clear()
            before = dict(sim.faults)
            opens = len(w.handles)
            w.max_read = max_read
            if fault and not again:
                target = [st[1]] if op == "include" else [i[1] for i in items]
                match = lambda p: any(str(p).endswith("/" + t) for t in target)
                if fault[0] == "interrupt":
                    left = [fault[2]]

                    def reading(path, k):
                        left[0] -= 1
                        if left[0] == -1:
                            sim.fault("interrupt")
                            raise KeyboardInterrupt
                        return max_read(path, k)
                    w.max_read = reading
                else:
                    w.add_rule(fault[0], match, fault[1], skip=fault[2])
            err = res = None
            try:
                if op == "include":
                    res = include(st[1], st[2])
                else:
                    c = canvas.canvas()
                    for i in items:
                        c.insert(i[0])
                    b = io.BytesIO()
                    getattr(c, dw.METHODS[st[1]])(b)
                    res = b.getvalue()
            except (Exception, KeyboardInterrupt) as e:
                err = e
            fired = {k for k, v in sim.faults.items() if v != before.get(k, 0) and k != "short_read"}
            text = "%s, fault %r%s: %s" % (what, fault, " (again)" if again else "", "returned" if err is None else "raised %s (%s)" % (type(err).__name__, w.short(err)))
            for h in w.handles[opens:]:
                if not h.closed:
                    ctx.fail("open-file", "%s and %s is left open" % (text, w.short(h.path)))
                    return
            if isinstance(err, KeyboardInterrupt) and not fired:
                raise RuntimeError("nothing was injected")
            if err is not None and fired:
                ctx.count("reported")
                continue
            if op == "include":
                if not included(ctx, text, st[1], st[2], files, res, err, fired, items):
                    return
            else:
                gone = [i[1] for i in items if i[1] not in files]
                if err is not None:
                    if gone and isinstance(err, OSError):
                        ctx.count("gone")
                        items = [i for i in items if i[1] in files]
                    else:
                        raise err
                elif gone:
                    ctx.fail("gone", "%s although %s does not exist any more" % (text, gone[0]))
                    return
                elif lost(fired, [i[2] for i in items]):
                    ctx.fail("lost-error", "%s although %s" % (text, sorted(fired)))
                    return
                elif items:
                    if not written(ctx, text, st[1], res, items, files):
                        return
                    drawn += 1
            if not fault:
                break
    ctx.nontrivial = drawn > 0


def given(name, p):
    """what the user says"""
    return name[:-4] if p.get("kpsearch") == "bare" else name


def include(name, p):
    from pyx import epsfile, bbox
    kw = {k: v for k, v in p.items() if k not in ("x", "y")}
    name = given(name, p)
    if "kpsearch" in kw:
        kw["kpsearch"] = True
    if "bbox" in kw:
        kw["bbox"] = bbox.bbox_pt(*kw["bbox"])
    return epsfile.epsfile(p["x"], p["y"], name, **kw)


def lost(fired, ps):
    # the search for a file may go on when it cannot be opened in one place
    return any(k.split(":")[0] in ("read", "interrupt") or k.startswith("open") and not any("kpsearch" in p for p in ps) for k in fired)


def included(ctx, text, name, p, files, item, err, fired, items):
    """was the file judged right?"""
    if lost(fired, [p]):
        ctx.fail("lost-error", "%s although %s" % (text, sorted(fired)))
        return False
    if "bbox" in p:
        box, maybe = p["bbox"], False
    elif name not in files:
        box, maybe = Bad("no such file"), False
    else:
        box, maybe = declared(files[name])
    if not isinstance(box, Bad):
        if "scale" in p and ("width" in p or "height" in p):
            box = Bad("scale and size")
        elif "height" in p and box[3] == box[1] or "width" in p and box[2] == box[0]:
            box = Bad("no size")
    if not isinstance(box, Bad) and (box[2] < box[0] or box[3] < box[1]):
        # what such a box means is not specified
        ctx.count("reversed")
        return True
    if err is not None:
        if isinstance(box, Bad) or maybe:
            ctx.count("rejected")
            if isinstance(err, (OSError, ValueError, IndexError, ZeroDivisionError)):
                return True
            ctx.fail("wrong-error", text)
            return False
        raise err
    if isinstance(box, Bad):
        ctx.fail("accepted", "%s: %s has no valid bounding box (%s): %r" % (text, name, box, files.get(name, b"")[:300]))
        return False
    got = [item.mybbox.llx_pt, item.mybbox.lly_pt, item.mybbox.urx_pt, item.mybbox.ury_pt]
    e = expected(p, box)
    b = item.bbox()
    got2 = [b.llx_pt, b.lly_pt, b.urx_pt, b.ury_pt]
    if got != [float(x) for x in box] or max(abs(x-y) for x, y in zip(got2, e)) > 1e-6*max(1, max(abs(x) for x in e)):
        ctx.fail("box", "%s: %s declares %r: box %r, placed %r instead of %r" % (text, name, box, got, got2, e))
        return False
    ctx.count("included")
    items.append((item, name, p, box))
    return True


def expected(p, box):
    """the box on the page"""
    cm = 72/2.54
    w, h = box[2]-box[0], box[3]-box[1]
    sx = sy = p.get("scale", 1)
    if "width" in p:
        sx = p["width"]*cm/w
        if "height" not in p:
            sy = sx
    if "height" in p:
        sy = p["height"]*cm/h
        if "width" not in p:
            sx = sy
    x, y = p["x"]*cm, p["y"]*cm
    a = p.get("align", "bl")
    y -= {"b": 0, "c": 0.5, "t": 1}[a[0]] * h*sy
    x -= {"l": 0, "c": 0.5, "r": 1}[a[1]] * w*sx
    if p.get("translatebbox") is False:
        x += sx*box[0]
        y += sy*box[1]
    return [x, y, x+w*sx, y+h*sy]


BEGIN = re.compile(rb"%%BeginDocument: ([^\n]*)\n")


def plainname(b):
    b = b.decode("latin-1")
    if b.startswith("("):
        b = re.sub(r"\\([0-7]{3})", lambda m: chr(int(m.group(1), 8)), b[1:-1])
        b = b.replace("\\(", "(").replace("\\)", ")").replace("\\\\", "\\")
    return b


def written(ctx, text, fmt, out, items, files):
    """the file contains all of the included ones"""
    rest = b""
    pos = 0
    for item, name, p, box in items:
        m = re.compile(rb"(?:^|\n)%%BeginDocument: ([^\n]*)\n").search(out, pos)
        if not m:
            ctx.fail("missing", "%s: %s is not in the output" % (text, name))
            return False
        if plainname(m.group(1)) != given(name, p).encode("latin-1", "replace").decode("latin-1"):
            ctx.fail("name", "%s: %r instead of %s" % (text, m.group(1), name))
            return False
        data = files[name]
        end = b"%%EndDocument\nEndEPSF\n"
        if data and not data.endswith((b"\n", b"\r")):
            end = b"\n" + end
        if out[m.end():m.end()+len(data)+len(end)] != data + end:
            ctx.fail("content", "%s: %s is not copied: %r follows" % (text, name, out[m.end():m.end()+200]))
            return False
        # a rectangle is easier to look at
        rest += out[pos:m.end()] + b"newpath %f %f moveto %f 0 rlineto 0 %f rlineto %f 0 rlineto closepath stroke\n" % (
            box[0], box[1], box[2]-box[0], box[3]-box[1], box[0]-box[2])
        pos = m.end() + len(data) + (len(end) - len(b"%%EndDocument\nEndEPSF\n"))
    if BEGIN.search(out, pos):
        ctx.fail("content", "%s: there is another document" % text)
        return False
    rest += out[pos:]
    try:
        painted = dw.Painted(fmt, rest)
    except paint.Problem as e:
        ctx.fail("broken", "%s: %s" % (text, e))
        return False
    marks = painted.pages[0]
    if len(marks) != len(items):
        ctx.fail("broken", "%s: %d of %d files are painted" % (text, len(marks), len(items)))
        return False
    for m, (item, name, p, box) in zip(marks, items):
        pts = m.path[0][0]
        e = expected(p, box)
        got = [min(x for x, y in pts), min(y for x, y in pts), max(x for x, y in pts), max(y for x, y in pts)]
        tol = 2e-4 * max(1, max(abs(x) for x in e + box))
        if max(abs(a-b) for a, b in zip(got, e)) > tol:
            ctx.fail("place", "%s: %s is at %r instead of %r" % (text, name, got, e))
            return False
        clip = p.get("clip", True)
        if bool(m.clip) != clip:
            ctx.fail("clip", "%s: %s is %sclipped" % (text, name, "" if m.clip else "not "))
            return False
    if fmt == "eps":
        b = [f(x) for f, x in zip((min, min, max, max), zip(*[expected(p, box) for i, n, p, box in items]))]
        got = painted.boxes[0]
        b = [b[0]-72/72.27, b[1]-72/72.27, b[2]+72/72.27, b[3]+72/72.27] if False else b
        if got is None or got[0] > b[0]+0.01 or got[1] > b[1]+0.01 or got[2] < b[2]-0.01 or got[3] < b[3]-0.01 or max(abs(x-y) for x, y in zip(got, b)) > 2:
            ctx.fail("page-box", "%s: bounding box %r for %r" % (text, got, b))
            return False
    ctx.count("written")
    return True
