"""Writing generated documents to simulated targets and reading them back."""

import io
import os
import sys

from . import drawing, paint, pdfparse, seams

FONTDIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "fonts")
TARGETS = ["bytesio", "offset", "raw", "chunks", "file", "file", "noext", "stdout"]
METHODS = {"eps": "writeEPSfile", "ps": "writePSfile", "pdf": "writePDFfile", "svg": "writeSVGfile"}


class Raw(io.RawIOBase):
    """an unbuffered stream which takes a part of the data at a time"""

    def __init__(self, sim, data, seek):
        self.sim = sim
        self.b = io.BytesIO(data)
        self.b.seek(0, 2)
        self.seek_ = seek

    def writable(self):
        return True

    def seekable(self):
        return self.seek_

    def tell(self):
        if not self.seek_:
            raise io.UnsupportedOperation("tell")
        return self.b.tell()

    def seek(self, *a):
        if not self.seek_:
            raise io.UnsupportedOperation("seek")
        return self.b.seek(*a)

    def write(self, data):
        data = bytes(data)
        n = len(data)
        if n > 1:
            k = self.sim.choices.pick(4, [5, 1, 1, 1])
            if k:
                n = [n, 1, (n+1)//2, n-1][k]
                self.sim.fault("short_write", n)
        self.b.write(data[:n])
        return n


class Target:
    """a place to write a document to"""

    def __init__(self, ctx, kind, fmt, n):
        self.ctx, self.kind, self.fmt = ctx, kind, fmt
        self.prefix = b""
        self.path = None
        if kind in ("offset", "raw"):
            self.prefix = b"what was there before\n%%EOF\n"
        if kind in ("bytesio", "offset"):
            self.arg = io.BytesIO()
            self.arg.write(self.prefix)
        elif kind == "raw":
            self.arg = Raw(ctx.sim, self.prefix, True)
        elif kind == "chunks":
            self.arg = Raw(ctx.sim, b"", False)
        elif kind == "stdout":
            self.arg = "-"
            self.out = io.BytesIO()
        else:
            self.arg = self.path = os.path.join(ctx.world.cwd, "out%d.%s" % (n, fmt))
            if kind == "noext":
                self.arg = self.path[:-len(fmt)-1]

    def __enter__(self):
        if self.kind == "stdout":
            self.old = sys.stdout
            sys.stdout = io.TextIOWrapper(self.out, "ascii")
        return self

    def __exit__(self, *a):
        if self.kind == "stdout":
            try:
                sys.stdout.flush()
            except ValueError:
                self.ctx.fail("stdout", "standard output was closed")
            self.data_ = None if self.out.closed else self.out.getvalue()
            if not self.out.closed:
                sys.stdout.detach()
            sys.stdout = self.old

    def data(self):
        """what was written"""
        if self.kind == "stdout":
            return self.data_
        if self.path:
            with seams.real["open"](self.path, "rb") as f:
                return f.read()
        if self.arg.closed:
            self.ctx.fail("target", "writing %s closed the stream passed by the user" % self.fmt)
            return None
        r = (self.arg if self.kind in ("bytesio", "offset") else self.arg.b).getvalue()
        if not r.startswith(self.prefix):
            self.ctx.fail("target", "writing %s changed the data in front of it" % self.fmt)
            return None
        return r[len(self.prefix):]


class Painted:
    """what a written file shows"""

    def __init__(self, fmt, data, base=0):
        self.fmt = fmt
        self.boxes = []
        paint.ZOOM[0] = 1.0
        if fmt == "pdf":
            self.pdf = pdfparse.PDF(data, base=base)
            p = paint.PDFPainter(self.pdf)
            self.pages = [p.page(d) for n, d in self.pdf.pages]
            self.boxes = [tuple(float(x) for x in self.pdf.get(d["MediaBox"])) for n, d in self.pdf.pages]
            self.crops = [tuple(float(x) for x in self.pdf.get(d["CropBox"])) if "CropBox" in d else None for n, d in self.pdf.pages]
        elif fmt == "svg":
            s = paint.SVG(data)
            self.pages = [s.page()]
            self.boxes = [s.box]
        else:
            self.header, self.labels = paint.dsc(data, fmt == "eps")
            self.pages = paint.PS(data).run()
            if fmt == "eps":
                b = [self.header.get(k) for k in (b"HiResBoundingBox", b"BoundingBox")]
                b = [None if x is None else tuple(float(v) for v in x.split()) for x in b]
                self.boxes = [b[0]]
                self.low = b[1]
        self.zoom = paint.ZOOM[0]


_orig = {}


def original(name):
    """the font program of a font of the test tree"""
    if name not in _orig:
        try:
            with seams.real["open"](os.path.join(FONTDIR, name.lower() + ".pfb"), "rb") as f:
                _orig[name] = paint.Type1(*paint.pfb(f.read())[:2])
        except FileNotFoundError:
            _orig[name] = None
    return _orig[name]


def badfont(marks):
    """first glyph whose program differs from the one of the original font"""
    seen = set()
    for m in marks:
        if m.kind == "glyph" and m.t1 is not None and (id(m.t1), m.glyph) not in seen:
            seen.add((id(m.t1), m.glyph))
            o = original(m.font)
            if o is None:
                continue
            if paint.outline(m.t1, m.glyph) != paint.outline(o, m.glyph):
                return "glyph %s of font %s is not the one of the font file" % (m.glyph, m.font)
            if m.t1.width(m.glyph) != o.width(m.glyph):
                return "glyph %s of font %s has width %r, not %r" % (m.glyph, m.font, m.t1.width(m.glyph), o.width(m.glyph))
        for c in (getattr(m, "color", None),):
            if c and c[0] == "pattern":
                r = badfont(c[2]["marks"])
                if r:
                    return r
    return None


def outside(marks, box, tol):
    """an unclipped mark which is not inside of the box"""
    for m in marks:
        if m.clip:
            continue
        if m.kind in ("fill", "stroke"):
            pts = [p for s in m.path for p in s[0]]
        elif m.kind == "image":
            pts = [paint.apply(m.matrix, x, y) for x in (0, 1) for y in (0, 1)]
        else:
            continue
        for x, y in pts:
            if not (box[0]-tol <= x <= box[2]+tol and box[1]-tol <= y <= box[3]+tol):
                return "%r reaches (%.3f, %.3f), outside of the box %r" % (m, x, y, box)
    return None


def images(marks):
    return sorted((m.size, m.mode, m.data, m.alpha8 or b"", m.palette or ("", b"")) for m in marks if m.kind == "image")


DEV = {"L": "DeviceGray", "RGB": "DeviceRGB", "CMYK": "DeviceCMYK"}


def wanted(b, im):
    """(size, mode, samples, alpha, palette) of a bitmap item or None if the
    samples are not determined (lossy compression)"""
    w, h = b["w"], b["h"]
    mode = b["mode"]
    if b["compress"] == "DCT" or mode == "jpeg":
        return None
    import random
    rng = random.Random(b["seed"])
    raw = lambda n: bytes(rng.choice([0, 255, rng.randrange(256)]) for i in range(n))
    if mode == "P":
        pm, n, s = b["pal"]
        r2 = random.Random(s)
        data = bytes(rng.randrange(n) for i in range(w*h))
        return (w, h), "P", data, b"", (DEV[pm], bytes(r2.randrange(256) for i in range(n * len(pm))))
    if mode == "PIL:P":
        r2 = random.Random(b["pal"][2])
        data = bytes(rng.randrange(b["pal"][1]) for i in range(w*h))
        return (w, h), "P", data, b"", ("DeviceRGB", bytes(r2.randrange(256) for i in range(3*b["pal"][1])))
    if mode == "PIL:1":
        rows = raw((w+7)//8*h)
        n = (w+7)//8
        return (w, h), "DeviceGray", bytes(255 if rows[y*n+x//8] >> (7-x % 8) & 1 else 0 for y in range(h) for x in range(w)), b"", ("", b"")
    m = mode.split(":")[-1]
    data = raw(w*h*len(m))
    a = m.find("A")
    c = [i for i in range(len(m)) if i != a]
    samples = bytes(data[k+i] for k in range(0, len(data), len(m)) for i in c)
    return (w, h), DEV[m.replace("A", "")], samples, b"" if a < 0 else data[a::len(m)], ("", b"")


class Walk:
    """the items of each page of a description, in the order of insertion"""

    def __init__(self, spec):
        self.spec = spec
        self.building = []
        self.cache = {}

    def items(self, items):
        for x in items:
            k = x["t"]
            if k in ("canvas", "layer"):
                yield from self.items(x["items"])
            elif k == "ref":
                i = x["i"] % len(self.spec["shared"])
                if self.building:
                    if not self.building[-1]:
                        continue
                    i %= self.building[-1]
                self.building.append(i)
                r = self.cache.get(i)
                if r is None:
                    r = self.cache[i] = list(self.items([self.spec["shared"][i]]))
                self.building.pop()
                yield from r
            else:
                yield x


def fields(items):
    """[(full name, type, default value)] of the widgets"""
    r = []
    for x in items:
        if x["t"] != "field":
            continue
        if x["f"] == "text":
            r.append((x["name"], "Tx", x["value"]))
        elif x["f"] == "choice":
            r.append((x["name"], "Ch", x["default"]))
        elif x["f"] == "check":
            r.append((x["name"], "Btn", x["on"]))
        else:
            for v in x["values"]:
                r.append((x["name"], "Btn", v == (x["default"] or x["values"][0])))
    return sorted(r, key=repr)


def text(s):
    """a PDF text string"""
    if s is None:
        return None
    if s.startswith(b"\xfe\xff"):
        return s[2:].decode("utf-16-be")
    return s.decode("latin-1")


def widgets(pdf, page):
    """the same of a page of a PDF file"""
    r = []
    for a in pdf.get(page.get("Annots")) or []:
        d = pdf.get(a)
        if d.get("Subtype") != "Widget":
            raise paint.Problem("annotation %r" % d)
        par = pdf.get(d.get("Parent")) or {}
        get = lambda k: pdf.get(d.get(k, par.get(k)))
        t = get("FT")
        name = text(get("T"))
        rect = pdf.get(d.get("Rect"))
        if not rect or len(rect) != 4:
            raise paint.Problem("widget %r with Rect %r" % (name, rect))
        if t == "Btn":
            state = d.get("AS")
            ap = pdf.get(pdf.get(d["AP"])["N"])
            if state not in ap:
                raise paint.Problem("widget %r has state %r of %r" % (name, state, sorted(ap)))
            r.append((name, "Btn", state != "Off"))
        else:
            v = get("V")
            r.append((name, str(t), None if v is None else text(v)))
    return sorted(r, key=repr)
