"""C14: fonts, metrics and DVI files are read exactly, and damage to them neither
goes unnoticed (when data is missing) nor hangs nor has any effect later."""

import errno
import io
import logging
import math
import os
import sys

from sim import docwork as dw
from sim import drawing, fonts, paint, seams

ID = "C14"


def warm():
    logging.getLogger("pyx").setLevel(logging.CRITICAL)
    drawing.warm()
    import pyx.dvi.dvifile
    import pyx.font.t1file
    logging.getLogger("pyx").setLevel(logging.NOTSET)


# -- plans -------------------------------------------------------------------

def g_ops(rng, n, unit, nested, specials=True):
    """unit: length of a typical move"""
    out = []

    def move():
        return round(rng.uniform(-1, 1.3) * unit * rng.choice([1, 1, 0.1, 3]), rng.choice([0, 2, 4]))

    for i in range(n):
        k = rng.random()
        b = rng.choice([1, 1, 1, 2, 3, 4])
        if k < 0.42:
            out.append(["set", rng.randrange(300), rng.choice([0, 0, 0, 0, 1, 2, 3, 4])])
        elif k < 0.46:
            out.append(["put", rng.randrange(300), rng.choice([0, 0, 2, 4])])
        elif k < 0.52:
            out.append([rng.choice(["rule", "prule"]), round(rng.uniform(-0.2, 1)*unit, 3), round(rng.uniform(-0.1, 1)*unit, 3)])
        elif k < 0.60:
            out.append([rng.choice(["right", "down"]), move(), b])
        elif k < 0.74:
            out.append([rng.choice("wxyz"), move() if rng.random() < 0.6 else None, b])
        elif k < 0.80:
            out.append(["push"])
        elif k < 0.86:
            out.append(["pop"])
        elif k < 0.92:
            out.append(["fnt", rng.randrange(9), rng.choice([0, 0, 1, 2, 3, 4])])
        elif not specials:
            out.append(["nop"])
        elif k < 0.94:
            out.append(["color", rng.choice(sorted(fonts.COLORS))])
        elif k < 0.96:
            out.append(["end"])
        elif nested:
            out.append(["nop"])
        elif k < 0.97:
            out.append(["rotate", rng.choice([30, 90, -45.5])])
        elif k < 0.98:
            out.append(["scale", rng.choice([[2, 1], [0.5, 0.75], [-1, 1]])])
        elif k < 0.99:
            out.append(["marker", rng.choice(["a", "b", "m@1"])])
        else:
            out.append(["special", rng.choice(["foo bar", "header=l3backend-dvips.pro", "color push gray 0"])])
    return out


def g_t1(rng, i):
    form = rng.choice(["pfb", "pfb", "pfa"])
    d = {"name": "Sim-%d" % i if rng.random() < 0.5 else "Font%d" % i, "file": "s%d.%s" % (i, form), "form": form, "seed": rng.randrange(10**6),
         "n": rng.randint(0, 8), "std": rng.random() < 0.3, "leniv": rng.choice([None, 4, 4, 4, 0, 1]), "subrs": rng.choice(["flex", "flex", "plain", "none"]),
         "tokens": rng.choice(["RD", "-|", "na"]), "uid": rng.random() < 0.3, "nl": rng.choice(["\n", "\n", "\r", "\r\n"]), "segments": rng.choice([1, 1, 2, 4])}
    if rng.random() < 0.06:
        # segments of more than 64 KiB
        d["pad"] = rng.choice([50, 2600])
    if rng.random() < 0.75:
        d["afm"] = {"seed": rng.randrange(10**6), "version": rng.choice(["2.0", "4.1", "3.0"]), "nl": rng.choice(["\n", "\n", "\r\n"]),
                    "direction": rng.random() < 0.2,
                    "kern": [[rng.randrange(99), rng.randrange(99), rng.choice([-80, -27.5, 40, 0])] for _ in range(rng.choice([0, 4, 12]))],
                    "lig": [[rng.randrange(99), rng.randrange(99), rng.randrange(99)] for _ in range(rng.choice([0, 2, 5]))]}
    if rng.random() < 0.4:
        d["pfm"] = {"seed": rng.randrange(10**6), "symbol": rng.random() < 0.5, "first": rng.choice([32, 0, 255, 100]), "last": rng.choice([255, 127, 0]),
                    "ascent": rng.choice([683, 900]), "descent": rng.choice([194, 0, 250]),
                    "kern": [[rng.randrange(99), rng.randrange(99), rng.choice([-80, 27, 40])] for _ in range(rng.choice([0, 4, 12]))]}
    if rng.random() < 0.5:
        d["bb"] = rng.choice(["/FontBBox [-100 -100 1000 1000] readonly def", "/FontBBox {-100 -100.5 1000 1000 } def", "/FontBBox[ -100 -100 1000 1000]readonly def"])
    return d


def g_unicode(rng):
    def glyphs():
        return [rng.randrange(99) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
    parts = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.random()
        if k < 0.4:
            parts.append(["plain", [g if rng.random() < 0.8 else -1 for g in glyphs()]])
        elif k < 0.75:
            parts.append(["text", [g if rng.random() < 0.9 else -1 for g in glyphs()], rng.choice([1, 0.7, 1.5]), rng.choice([0, 0, 0.3, -0.2])])
        else:
            n = rng.choice([2, 2, 1, 3])
            parts.append(["stack", [[glyphs(), rng.choice([1, 0.6]), rng.choice([0, 0.5, -0.6])] for _ in range(n)], n == 2 and rng.random() < 0.6, rng.choice([0, 0.5, 1])])
    return {"t1": rng.randrange(9), "parts": parts, "math": rng.random() < 0.4, "x": rng.choice([0, 10.5, -30]), "y": rng.choice([0, 20.25]), "size": rng.choice([10, 7.5, 30]),
            "metric": rng.choice(["afm", "afm", "pfm"]), "color": rng.random() < 0.3, "rotate": rng.choice([0, 0, 0, 30, 90]), "path": rng.random() < 0.2, "single": rng.random() < 0.3,
            "fresh": rng.random() < 0.3, "multi": rng.random() < 0.2}


def gen(rng, tier):
    t1 = [g_t1(rng, i) for i in range(rng.randint(1, 3))]
    tex = []
    for i in range(rng.randint(1, 3)):
        n = rng.randrange(len(t1))
        d = {"name": t1[n]["name"] if rng.random() < 0.1 and not any(t["name"] == t1[n]["name"] for t in tex) else "tf%d" % i, "t1": n,
             "ds": rng.choice([10, 10, 5, 12, 17.28, 9.5]), "cs": rng.choice([0, 1234567, 99, 2**31-5]),
             "lh": rng.choice([2, 12, 17, 18, 20]), "seed": rng.randrange(10**6)}
        if rng.random() < 0.4:
            d["enc"] = {"file": "e%d.%s" % (i, rng.choice(["enc", "enc", "ps"])), "name": rng.choice(["EncX", "TeXBase1Encoding"]), "seed": rng.randrange(10**6)}
        if rng.random() < 0.25:
            d["slant"] = rng.choice([0.167, -0.1, 0.5])
        tex.append(d)
    for i in range(rng.choice([0, 0, 1, 1, 2])):
        local = [[rng.choice([0, 1, 7, 200, 70000, 2**24, -3]), rng.randrange(9), rng.choice([1, 1, 0.7, 1.2, 0.5])] for _ in range(rng.choice([1, 1, 2, 3]))]
        chars = [{"code": rng.randrange(256), "w": rng.choice([0, 0.5, 1, round(rng.uniform(0, 2), 3)]), "ops": g_ops(rng, rng.choice([0, 1, 2, 4, 8]), 0.5, True),
                  "long": rng.random() < 0.3} for _ in range(rng.choice([1, 2, 5]))]
        tex.append({"name": "vf%d" % i, "fonts": local, "chars": chars, "ds": rng.choice([10, 12, 7]), "cs": rng.choice([0, 77]), "lh": rng.choice([2, 18]), "seed": rng.randrange(10**6)})
    dvi = []
    for i in range(rng.choice([1, 1, 2])):
        dvi.append({"k": rng.choice([1, 1, 2, 4]), "mag": rng.choice([1000, 1000, 1200, 2074, 500]), "seed": rng.randrange(10**6),
                    "numbers": rng.sample([0, 1, 2, 5, 63, 64, 255, 256, 70000, 2**24+1, -1, -77], 6), "sizes": [rng.choice([1, 1, 1, 1.2, 0.5, 2.5, 25]) for _ in range(3)],
                    "pages": [{"ops": g_ops(rng, rng.choice([1, 4, 8, 16, 30]), 20, False, rng.random() < 0.6)} for _ in range(rng.choice([1, 1, 2, 3]))]})
    steps = []
    for i in range(rng.randint(2, 6)):
        fmt = rng.choice(["eps", "pdf", "svg", "ps"])
        opt = {}
        if rng.random() < 0.25:
            opt["write_textaspath"] = fmt != "svg"
        if rng.random() < 0.2 and fmt in ("ps", "pdf", "eps"):
            opt["write_stripfonts"] = False
        k = rng.random()
        fault = None
        if i < 4 and rng.random() < 0.55:
            f = rng.random()
            n = rng.randrange(99)
            if f < 0.25:
                fault = ["trunc", n, rng.choice([rng.randint(0, 1000), rng.randint(900, 1000)])]
            elif f < 0.45:
                fault = ["flip", n, [[rng.choice([rng.randint(0, 1000), rng.randint(0, 60)]), rng.choice([1, 2, 128, 255, rng.randint(1, 255)])] for _ in range(rng.choice([1, 1, 2, 6]))]]
            elif f < 0.6:
                fault = ["read", n, rng.choice([errno.EIO, errno.EIO, errno.ENOMEM]), rng.choice([0, 0, 1, 2, 5])]
            elif f < 0.7:
                fault = ["open", n, rng.choice([errno.EACCES, errno.EIO, errno.EMFILE]), rng.choice([0, 0, 0, 1])]
            elif f < 0.75:
                fault = ["gone", n]
            elif f < 0.83:
                fault = ["interrupt", rng.choice([0, 1, 2, 4, 9, 20])]
            else:
                fault = ["line", rng.randint(0, 1000), "KeyboardInterrupt"]
        if k < 0.62:
            steps.append(["dvi", rng.randrange(9), rng.randrange(9), rng.choice(["shared", "shared", "fresh", "writer"]), fmt, opt, rng.random() < 0.2, rng.random() < 0.3, fault])
        elif k < 0.78:
            steps.append(["unicode", g_unicode(rng), fmt, opt, fault])
        elif k < 0.92:
            n = rng.randint(1, 7)
            steps.append(["text", {"t1": rng.randrange(9), "glyphs": [rng.randrange(99) for _ in range(n)], "codes": rng.random() < 0.3, "x": rng.choice([0, 10.5, -30]), "y": rng.choice([0, 20.25, -7]),
                                   "size": rng.choice([10, 7.5, 30]), "slant": rng.choice([None, None, 0.2]), "kerning": rng.random() < 0.5, "ligatures": rng.random() < 0.4,
                                   "spaced": rng.choice([0, 0, 2.5]), "metric": rng.choice(["afm", "afm", "afm", "pfm", None]), "fresh": rng.random() < 0.4}, fmt, opt, fault])
        else:
            steps.append(["again", rng.randrange(9), fmt, opt, fault])
    return {"t1": t1, "tex": tex, "dvi": dvi, "mapseed": rng.randrange(10**6), "mapnl": rng.choice(["\n", "\n", "\r\n"]), "steps": steps, "short": rng.choice([0, 0, 0, 200, 700]),
            "simple": {"short": 0, "mapnl": "\n"}}


# -- what is shown -------------------------------------------------------------

def key(pts):
    """position and extent of a polygon"""
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    area = cx = cy = 0.0
    x0, y0 = pts[0]
    for (xa, ya), (xb, yb) in zip(pts, list(pts[1:]) + [pts[0]]):
        k = (xa-x0)*(yb-y0) - (xb-x0)*(ya-y0)
        area += k/2
        cx += (xa+xb-2*x0)*k/6
        cy += (ya+yb-2*y0)*k/6
    if abs(area) > 1e-9:
        cx, cy = x0+cx/area, y0+cy/area
    else:
        cx, cy = sum(xs)/len(xs), sum(ys)/len(ys)
    return (min(xs), min(ys), max(xs), max(ys), cx, cy, abs(area))


def match(want, marks, tol0):
    """what is wrong, or None"""
    got = []
    for m in marks:
        if m.kind != "fill" or m.clip:
            return "there is %r" % m
        for sub in m.path:
            got.append((key(sub[0]), paint.torgb(m.color)))
    want = [(key(p), c) for p, c in want]
    # what has almost no extent might be shown or not
    small = 1.2e-3
    n, m = len([w for w in want if w[0][6] > small]), len([g for g in got if g[0][6] > small])
    detail = "%d shapes instead of %d" % (m, n) if m != n else None
    free = list(got)
    want.sort(key=lambda w: -w[0][6])
    for k, c in want:
        best = None
        # six digits
        tol = max(tol0, 2.5e-5*max(map(abs, k[:4])))
        for i, (k2, c2) in enumerate(free):
            e = max(abs(a-b) for a, b in zip(k[:6], k2[:6]))
            size = max(1, k[2]-k[0], k[3]-k[1])
            if e < tol and abs(k[6]-k2[6]) < 2*tol*size and max(abs(a-b) for a, b in zip(c, c2)) < 5e-3 and (best is None or e < best[0]):
                best = (e, i)
        if best is None:
            if k[6] <= small:
                continue
            near = min(free, key=lambda g: max(abs(a-b) for a, b in zip(k[:6], g[0][:6])), default=None)
            return "%s; missing %s %r; next is %s" % (detail or "a shape is wrong", r(k), c, near and (r(near[0]), near[1]))
        del free[best[1]]
    free = [g for g in free if g[0][6] > small*1.5]
    if free:
        return "%s; too much: %s" % (detail, [(r(k), c) for k, c in free[:2]])
    return None


def r(k):
    return tuple(round(x, 3) for x in k)


class Tracer:
    """counts the lines executed in PyX, one of which might be interrupted"""

    def __init__(self, at, exc):
        self.n, self.at, self.exc = 0, at, exc
        self.raised = None

    def __call__(self, frame, event, arg):
        if "/pyx/" not in frame.f_code.co_filename or frame.f_code.co_name == "__del__":
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n == self.at:
                self.raised = "%s:%d" % (frame.f_code.co_name, frame.f_lineno)
                sys.settrace(None)
                raise self.exc("injected")
        return self.local


EXC = {"KeyboardInterrupt": KeyboardInterrupt}


class User:
    """somebody using PyX"""

    def __init__(self, ctx, world):
        self.ctx, self.world = ctx, world
        self.shared = None
        self.fonts = {}
        self.engines = {}
        self.kept = []

    def map(self, how):
        from pyx.dvi import mapfile
        if how == "writer":
            return None
        if how == "fresh":
            return mapfile.readfontmap(["my.map"])
        if self.shared is None:
            self.shared = mapfile.readfontmap(["my.map"])
        return self.shared

    def dvi(self, n, pages, how, single, pageid):
        """canvases of the pages"""
        from pyx.dvi import dvifile
        fontmap = self.map(how)
        d = dvifile.DVIfile("f%d.dvi" % n)
        out = []
        for i in range(pages):
            out.append(d.readpage([i+1] + [0]*9 if pageid else None, fontmap=fontmap, singlecharmode=single))
        if d.readpage(None) is not None:
            self.ctx.fail("pages", "there are more than %d pages in f%d.dvi" % (pages, n))
        return out

    def font(self, n, fresh, metric):
        from pyx import font
        from pyx.font import t1file, afmfile, pfmfile
        if (n, metric) in self.fonts and not fresh:
            return self.fonts[n, metric]
        t = self.world.t1[n]
        with open(t.file, "rb") as f:
            t1 = t1file.T1File.from_PF_bytes(f.read())
        m = None
        if metric == "afm":
            with open(t.file.rsplit(".", 1)[0] + ".afm", encoding="ascii", errors="surrogateescape") as f:
                m = afmfile.AFMfile(f)
        elif metric == "pfm":
            with open(t.file.rsplit(".", 1)[0] + ".pfm", "rb") as f:
                m = pfmfile.PFMfile(f, t1)
        r = font.T1font(t1, m)
        if not fresh:
            self.fonts[n, metric] = r
        return r

    def text(self, n, spec):
        from pyx import canvas
        f = self.font(n, spec["fresh"], spec["metric"])
        kw = {k: spec[k] for k in ("slant",)}
        if spec["codes"]:
            item = f.text_pt(spec["x"], spec["y"], spec["charcodes"], spec["size"], decoding=None, ignorebbox=True, spaced_pt=spec["spaced"], **kw)
        else:
            d = dict(enumerate(spec["glyphs"]))
            item = f.text_pt(spec["x"], spec["y"], list(d), spec["size"], decoding=d, kerning=spec["kerning"], ligatures=spec["ligatures"], spaced_pt=spec["spaced"], **kw)
        c = canvas.canvas()
        c.insert(item)
        return c

    def unicode(self, n, spec):
        from pyx import canvas, text, color, trafo
        k = (n, spec["metric"], spec["size"])
        e = self.engines.get(k)
        if e is None or spec["fresh"]:
            m = text.FontMetricType.afm if spec["metric"] == "afm" else text.FontMetricType.pfm
            e = text.UnicodeEngine(self.world.t1[n].file.rsplit(".", 1)[0], spec["size"], m)
            if not spec["fresh"]:
                self.engines[k] = e
        texts = []
        for p in spec["api"]:
            if p[0] == "plain":
                texts.append(p[1])
            elif p[0] == "text":
                texts.append(text.Text(p[1], scale=p[2], shift=p[3]))
            else:
                texts.append(text.StackedText([text.Text(t, scale=a, shift=b) for t, a, b in p[1]], frac=p[2], align=p[3]))
        if len(texts) == 1 and spec["single"]:
            texts = texts[0]
        if spec["multi"]:
            texts = text.MultiEngineText("not used", texts)
        attrs = []
        if spec["math"]:
            attrs.append(text.mathmode)
        if spec["color"]:
            attrs.append(color.rgb(0, 0.5, 1))
        if spec["rotate"]:
            attrs.append(trafo.rotate(spec["rotate"]))
        b = e.text_pt(spec["x"], spec["y"], texts, attrs)
        c = canvas.canvas()
        if spec["path"]:
            c.fill(b.textpath(), [color.rgb(0, 0.5, 1)] if spec["color"] else [])
        else:
            c.insert(b)
        return c, cleaned(b.bbox())

    def write(self, c, fmt, opt):
        b = io.BytesIO()
        opt = dict(opt)
        if fmt == "ps":
            opt["page_paperformat"] = self.paper
            opt["page_centered"] = False
        if fmt in ("eps", "svg"):
            opt["page_bboxenlarge"] = 0
        getattr(c, dw.METHODS[fmt])(b, **opt)
        return b.getvalue()


def compare(ctx, world, what, fmt, data, want):
    """is the output right?"""
    try:
        p = dw.Painted(fmt, data)
        marks = paint.flatten(p.pages[0], 1e-6)
        if marks is None:
            return "there is text in a font which is not embedded"
    except paint.Problem as e:
        return "broken output: %s" % e
    except paint.PDFProblem as e:
        return "broken output: %s" % e
    return match(want, marks, 0.012)


def cleaned(v):
    return [v.llx_pt, v.lly_pt, v.urx_pt, v.ury_pt]


def run(ctx):
    from pyx import config, document, unit
    plan = ctx.plan
    sim, w = ctx.sim, ctx.world
    real = seams.real
    world = fonts.World(plan)
    short = plan["short"]

    def save(name):
        with real["open"](name, "wb") as f:
            f.write(world.files[name])
    for name in world.files:
        save(name)
    config.config.set("text", "psfontmaps", "my.map")
    config.config.set("text", "pdffontmaps", "my.map")
    config.config.set("text", "svgfontmaps", "my.map") if config.config.has_option("text", "svgfontmaps") else None
    u = User(ctx, world)
    u.paper = document.paperformat.A4
    names = sorted(world.files)
    shown = {}
    judged = 0

    def model(i, page):
        if (i, page) not in shown:
            try:
                shown[i, page] = world.dvi[i].show(page)
            except fonts.TooMuch:
                shown[i, page] = None
        return shown[i, page]

    out = io.StringIO()
    stdout, sys.stdout = sys.stdout, out
    try:
        for n, st in enumerate(plan["steps"]):
            op, fault = st[0], st[-1]
            if op == "again" and not u.kept:
                continue
            for again in (False, True):
                f = fault if not again else None
                if again and not fault:
                    break
                j = step(ctx, plan, u, names, n, st, f, model, save, short, out)
                if j is None:
                    return
                judged += j
                if out.getvalue():
                    ctx.fail("stdout", "step %d %s prints %r" % (n, op, out.getvalue()[:200]))
                    return
    finally:
        sys.stdout = stdout
        sys.settrace(None)
    ctx.nontrivial = judged > 0


def step(ctx, plan, u, names, n, st, fault, model, save, short, out):
    """one use; returns how many outputs were judged, None after a violation"""
    from pyx import unit
    sim, w, world = ctx.sim, ctx.world, u.world
    real = seams.real
    op = st[0]
    what = "step %d %s%s" % (n, op, " with fault %r" % (fault,) if fault else "")
    if op == "dvi":
        i = st[1] % len(world.dvi)
        pages = len(world.dvi[i].pages)
        page, how, fmt, opt = st[2] % pages, st[3], st[4], st[5]
        models = [model(i, p) for p in range(pages)]
        if None in models:
            ctx.count("too much")
            return 0
    elif op == "text":
        i = st[1]["t1"] % len(world.t1)
        t = world.t1[i]
        spec = dict(st[1])
        spec["glyphs"] = [world.pick(t, g) for g in spec["glyphs"]]
        fmt, opt = st[2], st[3]
        m = spec["metric"]
        if m == "pfm" and not t.pfm:
            m = "afm"
        if m == "afm" and not t.metric:
            m = None
        spec["metric"] = m
        if m is None:
            spec["kerning"] = spec["ligatures"] = False
        if m == "pfm":
            # the metric only knows encoded glyphs
            spec["glyphs"] = [g for g in spec["glyphs"] if g in t.pfmglyphs]
        # the box is needed, which is not available from the metric without names
        spec["codes"] = spec["codes"] and m is None
        if spec["codes"]:
            spec["charcodes"] = [t.encoding.index(g) for g in spec["glyphs"] if g in t.encoding]
            spec["glyphs"] = [t.encoding[c] for c in spec["charcodes"]]
        if not spec["glyphs"]:
            return 0
    elif op == "unicode":
        i = st[1]["t1"] % len(world.t1)
        t = world.t1[i]
        spec = dict(st[1])
        fmt, opt = st[2], st[3]
        if not t.metric and not t.pfm:
            return 0
        if not t.metric or not t.pfm:
            spec["metric"] = "afm" if t.metric else "pfm"
        known = [g for g in t.glyphs if g in fonts.CHARS and (spec["metric"] == "afm" or g in t.pfmglyphs)]
        hyphen = "hyphen" in known
        rule = "equal" in known
        if spec["math"]:
            # a hyphen is a minus
            known = [g for g in known if g != "hyphen"]
        if not known:
            return 0
        spec["api"], parts = [], []
        string = lambda gs: "".join("-" if g == "hyphen" else fonts.CHARS[g] for g in gs)
        for q in spec["parts"]:
            if q[0] == "stack":
                ls = [[[known[g % len(known)] for g in l], a, b] for l, a, b in q[1]]
                frac = q[2] and rule
                parts.append(["stack", ls, frac, q[3]])
                spec["api"].append(["stack", [[string(l), a, b] for l, a, b in ls], frac, q[3]])
            else:
                scale, shift = q[2:] or (1, 0)
                gs = [known[g % len(known)] if g >= 0 or not (rule if spec["math"] else hyphen) else "hyphen" for g in q[1]]
                spec["api"].append([q[0], string(gs), scale, shift])
                while spec["math"] and "hyphen" in gs:
                    k = gs.index("hyphen")
                    parts += [["text", gs[:k], scale, shift]]*(k > 0) + [["minus"]]
                    gs = gs[k+1:]
                if gs:
                    parts.append(["text", gs, scale, shift])
        spec["parts"] = parts
    else:
        kept, want = u.kept[st[1] % len(u.kept)]
        fmt, opt = st[2], st[3]

    # faults
    damaged = fault and fault[0] == "flip"
    name = names[fault[1] % len(names)] if fault and fault[0] not in ("line", "interrupt") else None
    if fault and fault[0] == "trunc" and name == "my.map":
        damaged = True
    if fault and fault[0] in ("gone", "open") and name.endswith(".vf"):
        # another font, then
        damaged = True
    v = u
    if damaged:
        # what has been read from damaged files is not used again
        v = User(ctx, world)
        v.paper = u.paper
        if op == "again":
            return 0
    w.rules.clear()
    reads = [0]

    def max_read(path, k):
        if fault and fault[0] == "interrupt" and str(path).startswith(w.cwd):
            reads[0] += 1
            if reads[0] == fault[1]+1:
                sim.fault("interrupt")
                raise KeyboardInterrupt
        if short and k > 1 and sim.choices.chance(short):
            sim.fault("short_read")
            return 1 + sim.choices.pick(k-1)
        return k
    w.max_read = max_read
    before = dict(sim.faults)
    changed = False
    if name is not None:
        data = world.files[name]
        match_ = lambda p: str(p).endswith("/" + name) or str(p) == name
        if fault[0] == "trunc":
            cut = len(data)*fault[2]//1001
            with real["open"](name, "wb") as f:
                f.write(data[:cut])
            sim.fault("truncated", name)
            what += " (%s cut at %d of %d)" % (name, cut, len(data))
        elif fault[0] == "flip":
            b = bytearray(data)
            for p, x in fault[2]:
                if b:
                    b[len(b)*p//1001] ^= x
            with real["open"](name, "wb") as f:
                f.write(bytes(b))
            sim.fault("corrupted", name)
            what += " (%s corrupted)" % name
        elif fault[0] == "gone":
            real["unlink"](name)
            sim.fault("missing", name)
            what += " (%s)" % name
        elif fault[0] == "read":
            w.add_rule("read", match_, fault[2], skip=fault[3])
            what += " (%s)" % name
        elif fault[0] == "open":
            w.add_rule("open", match_, fault[2], skip=fault[3])
            what += " (%s)" % name
        changed = fault[0] in ("trunc", "flip", "gone")
    tracer = None
    ctx.warnings.clear()
    opens = len(w.handles)

    def act():
        if op == "dvi":
            cs = v.dvi(i, pages, how, st[6], st[7])
            boxes = [cleaned(c.bbox()) if c.bbox() else None for c in cs]
            marks = [{k: (unit.topt(x), unit.topt(y)) for k, (x, y) in c.markers.items()} for c in cs]
            return cs[page], boxes, marks, v.write(cs[page], fmt, opt) if models[page].boxes else b""
        if op == "text":
            c = v.text(i, spec)
            return c, cleaned(c.bbox()) if spec["metric"] else None, None, v.write(c, fmt, opt)
        if op == "unicode":
            c, b = v.unicode(i, spec)
            return c, b, None, v.write(c, fmt, opt)
        return kept, None, None, v.write(kept, fmt, opt)
    if fault and fault[0] == "line":
        # how much is there to do?
        lines = Tracer(None, None)
        sys.settrace(lines)
        try:
            v = User(ctx, world)
            v.paper = u.paper
            act()
        finally:
            sys.settrace(None)
        v = u
        tracer = Tracer(1 + fault[1]*lines.n//1001, EXC[fault[2]])
        ctx.warnings.clear()
    err = res = None
    if tracer:
        sys.settrace(tracer)
    try:
        res = act()
    except (Exception, KeyboardInterrupt) as e:
        err = e
    finally:
        sys.settrace(None)
        w.rules.clear()
        if changed:
            save(name)
    if tracer and tracer.raised:
        sim.fault("line:" + fault[2])
        what += " (at %s)" % tracer.raised
        if err is not None:
            # files open at that line are closed when they are not used any longer
            err = err.with_traceback(None)
    fired = {k for k, x in sim.faults.items() if x != before.get(k, 0) and k != "short_read"}
    for h in w.handles[opens:]:
        if not h.closed and not str(h.path).endswith(".dvi"):
            ctx.fail("open-file", "%s: %s is left open" % (what, w.short(h.path)))
            return None
    if err is not None:
        if fired:
            ctx.count("raised:" + fault[0])
            return 0
        raise err
    if damaged:
        ctx.count("damaged")
        return 0
    c, boxes, marks, data = res
    if op == "dvi":
        want = models[page].rects
        if not fired:
            warned = [x for x in ctx.warnings if x.startswith("ignoring special")]
            if len(warned) != sum(m.warnings for m in models):
                ctx.fail("warnings", "%s: %d warnings about specials instead of %d" % (what, len(warned), sum(m.warnings for m in models)))
                return None
        for p in range(pages):
            if fired and p != page:
                continue
            m = models[p]
            got = marks[p]
            if set(got) != set(m.markers) or any(math.dist(got[k], m.markers[k]) > 0.004+4e-6*math.hypot(*got[k]) for k in got):
                ctx.fail("markers", "%s: the markers of page %d are %r instead of %r" % (what, p, got, m.markers))
                return None
            if bool(boxes[p]) != bool(m.boxes):
                ctx.fail("box", "%s: the box of page %d is %r, there are %d items" % (what, p, boxes[p], len(m.boxes)))
                return None
            if m.boxes and not m.turned:
                e = [f([b[k] for b in m.boxes]) for k, f in enumerate((min, min, max, max))]
                if max(abs(a-b) for a, b in zip(e, boxes[p])) > 0.004+4e-6*max(map(abs, e)):
                    ctx.fail("box", "%s: the box of page %d is %r instead of %r" % (what, p, boxes[p], e))
                    return None
        if not models[page].boxes:
            return 0
    elif op == "text":
        want, glyphs, end, b = fonts.textrects(t, spec)
        if b and max(abs(p-q) for p, q in zip(b, boxes)) > 1e-6:
            ctx.fail("box", "%s: the box is %r instead of %r" % (what, boxes, b))
            return None
    elif op == "unicode":
        polys, bs = fonts.engine(t, spec)
        a = math.radians(spec["rotate"])
        # boxes are turned around the corner of their extent
        cx, cy = min([0] + [q[0] for q in bs]), min([0] + [q[1] for q in bs])
        move = lambda u, v: (spec["x"]+cx+(u-cx)*math.cos(a)-(v-cy)*math.sin(a), spec["y"]+cy+(u-cx)*math.sin(a)+(v-cy)*math.cos(a))
        want = [([move(*q) for q in p], (0, 0.5, 1) if spec["color"] else (0, 0, 0)) for p in polys]
        b = [f([q[k] for q in bs]) for k, f in enumerate((min, min, max, max))]
        b = [move(b[j], b[k]) for j in (0, 2) for k in (1, 3)]
        b = [min(q[0] for q in b), min(q[1] for q in b), max(q[0] for q in b), max(q[1] for q in b)]
        if max(abs(p-q) for p, q in zip(b, boxes)) > 1e-6:
            ctx.fail("box", "%s: the box is %r instead of %r" % (what, boxes, b))
            return None
    if not data:
        return 0
    e = compare(ctx, world, what, fmt, data, want)
    if e:
        ctx.fail("output" if not fired else "silent", "%s, %s: %s" % (what, fmt, e))
        return None
    ctx.count("judged:" + op)
    if op != "again" and not fired:
        u.kept.append((c, want))
    return 1
