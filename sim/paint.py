"""Independent interpreters for the files PyX writes.

Each yields, page by page, the marks painted on the page in device space:

  Mark(kind, ...)  kind fill | stroke | glyph | image | shade | text | eps

so that the output formats can be compared with each other.  The
interpreters are strict: a missing resource, an unbalanced stack, an undefined
name, data of the wrong length raise Problem.
"""

import binascii
import math
import re
import struct
import xml.etree.ElementTree as ET
import zlib

from . import pdfparse
from .pdfparse import PDFProblem, mul, IDENT


class Problem(Exception):
    pass


# ---------------------------------------------------------------------------
# geometry

def apply(m, x, y):
    return m[0]*x + m[2]*y + m[4], m[1]*x + m[3]*y + m[5]


def det(m):
    return m[0]*m[3] - m[1]*m[2]


def invert(m):
    d = det(m)
    if not d:
        raise Problem("singular matrix")
    return (m[3]/d, -m[1]/d, -m[2]/d, m[0]/d, (m[2]*m[5]-m[3]*m[4])/d, (m[1]*m[4]-m[0]*m[5])/d)


class Path:
    """current path in device coordinates: list of [points, closed]"""

    def __init__(self):
        self.subs = []
        self.cur = None      # current point, device
        self.start = None

    def copy(self):
        p = Path()
        p.subs = [[list(s[0]), s[1]] for s in self.subs]
        p.cur, p.start = self.cur, self.start
        return p

    def move(self, x, y):
        self.subs.append([[(x, y)], False])
        self.cur = self.start = (x, y)

    def need(self):
        if self.cur is None:
            raise Problem("path operation without a current point")
        if not self.subs or self.subs[-1][1]:
            self.subs.append([[self.cur], False])

    def line(self, x, y):
        self.need()
        self.subs[-1][0].append((x, y))
        self.cur = (x, y)

    def curve(self, x1, y1, x2, y2, x3, y3, n=None):
        self.need()
        x0, y0 = self.cur
        bend = n is None and max(math.hypot(x0-2*x1+x2, y0-2*y1+y2), math.hypot(x1-2*x2+x3, y1-2*y2+y3))
        n = n or max(4, min(128, int(math.sqrt(0.75*bend/0.002))+1))
        pts = self.subs[-1][0]
        for i in range(1, n+1):
            t = i/n
            a, b, c, d = (1-t)**3, 3*t*(1-t)**2, 3*t*t*(1-t), t**3
            pts.append((a*x0+b*x1+c*x2+d*x3, a*y0+b*y1+c*y2+d*y3))
        self.cur = (x3, y3)

    def close(self):
        if self.subs and not self.subs[-1][1]:
            self.subs[-1][1] = True
            self.cur = self.start

    def shape(self):
        """subpaths which have an extent"""
        return tuple((tuple(p), c) for p, c in self.subs)


SAMPLES = 12


def sample(pts, closed):
    """(length, SAMPLES+1 points at equal distances)"""
    if closed:
        pts = list(pts) + [pts[0]]
    ls = [0.0]
    for (x0, y0), (x1, y1) in zip(pts, pts[1:]):
        ls.append(ls[-1] + math.hypot(x1-x0, y1-y0))
    total = ls[-1]
    out = []
    j = 0
    for i in range(SAMPLES+1):
        want = total*i/SAMPLES
        while j < len(ls)-2 and ls[j+1] < want:
            j += 1
        if len(pts) == 1:
            out.append(pts[0])
            continue
        d = ls[j+1]-ls[j]
        t = (want-ls[j])/d if d > 0 else 0
        out.append((pts[j][0]+t*(pts[j+1][0]-pts[j][0]), pts[j][1]+t*(pts[j+1][1]-pts[j][1])))
    return total, out


class Mark:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def __repr__(self):
        d = {k: v for k, v in self.__dict__.items() if k not in ("kind", "clip", "path", "data", "t1")}
        if "path" in self.__dict__:
            d["path"] = [("%.1f,%.1f" % p[0], "%.1f,%.1f" % p[-1], len(p), c) for p, c in (x[:2] for x in self.path)][:3]
        return "%s %s" % (self.kind, d)


# ---------------------------------------------------------------------------
# comparison

def close(a, b, tol):
    return abs(a-b) <= tol


def cmpshape(a, b, what, tol, rel, closed=True):
    """compares two shapes"""
    def big(s):
        r = []
        for sub in s:
            pts, c = sub[:2]
            l, p = sample(pts, c)
            if l > 3*tol:
                r.append((l, p, c, sub[2] if len(sub) > 2 else 0.0))
        return r
    a, b = big(a), big(b)
    if len(a) != len(b):
        # tiny subpaths next to the limit
        a = [x for x in a if x[0] > 10*tol]
        b = [x for x in b if x[0] > 10*tol]
        if len(a) != len(b):
            return "%s: %d and %d subpaths" % (what, len(a), len(b))
    for i, ((la, pa, ca, ea), (lb, pb, cb, eb)) in enumerate(zip(a, b)):
        t = tol + rel*max(la, lb) + ea + eb
        if not close(la, lb, 3*t):
            return "%s: subpath %d has length %.4f and %.4f" % (what, i, la, lb)
        for (xa, ya), (xb, yb) in zip(pa, pb):
            tt = t + 1e-5*max(abs(xa), abs(ya))
            if not (close(xa, xb, tt) and close(ya, yb, tt)):
                return "%s: subpath %d passes (%.3f, %.3f) and (%.3f, %.3f)" % (what, i, xa, ya, xb, yb)
        if closed and ca != cb:
            return "%s: subpath %d closed %r and %r" % (what, i, ca, cb)
    return None


def cmpcolor(a, b, what, tol, flat=None):
    if a == b or a is None or b is None:
        return None
    if a[0] == "pattern" or b[0] == "pattern":
        if a[0] != b[0]:
            return "%s: color %r and %r" % (what, a[:1] if a[0] == "pattern" else a, b[:1] if b[0] == "pattern" else b)
        return cmppattern(a[2], b[2], what, tol, flat)
    if a[0] == b[0]:
        ca, cb = a[1], b[1]
    else:
        ca, cb = torgb(a), torgb(b)
    if len(ca) == len(cb) and all(close(x, y, tol) for x, y in zip(ca, cb)):
        return None
    return "%s: color %r and %r" % (what, a, b)


def torgb(c):
    k, v = c
    if k == "gray":
        return (v[0],)*3
    if k == "rgb":
        return v
    c, m, y, k = v
    return tuple(1-min(1, x+k) for x in (c, m, y))


def cmppattern(a, b, what, ctol, flat=None):
    w = what + " (tiling pattern)"
    for n, t in (("paint", 0), ("tiling", 0), ("xstep", 2e-3), ("ystep", 2e-3)):
        if n not in a or n not in b:
            continue       # SVG has only one kind of patterns
        x, y = a[n], b[n]
        if abs(x-y) > t + 1e-4*abs(x):
            return "%s: %s %r and %r" % (w, n, x, y)
    for x, y in zip(a["matrix"], b["matrix"]):
        if not close(x, y, 1e-4+1e-5*abs(x)):
            return "%s: matrix %r and %r" % (w, a["matrix"], b["matrix"])
    for x, y in zip(a["bbox"], b["bbox"]):
        if not close(x, y, 2e-3+1e-4*abs(x)):
            return "%s: bounding box %r and %r" % (w, a["bbox"], b["bbox"])
    la, lb = a["marks"], b["marks"]
    if flat is not None:
        la, lb = flatten(la, flat), flatten(lb, flat)
        if la is None or lb is None:
            return None
    return compare(la, lb, w + " mark", ctol, flat=flat)


def compare(la, lb, what="mark", ctol=1e-5, scale=1.0, opacity=False, flat=None):
    """first difference of two lists of marks or None"""
    for i, (a, b) in enumerate(zip(la, lb)):
        r = cmpmark(a, b, "%s %d" % (what, i), ctol, scale, opacity, flat)
        if r:
            return r + "\n   of %r\n  and %r" % (a, b)
    if len(la) != len(lb):
        x = (la if len(la) > len(lb) else lb)[min(len(la), len(lb))]
        return "%s: %d and %d marks; extra %r" % (what, len(la), len(lb), x)
    return None


def cmpmark(a, b, what, ctol, scale, opacity, flat=None):
    if a.kind != b.kind:
        return "%s: %s and %s" % (what, a.kind, b.kind)
    tol, rel = 0.02*scale, 3e-4
    if len(a.clip) != len(b.clip):
        return "%s: %d and %d clip paths" % (what, len(a.clip), len(b.clip))
    for x, y in zip(a.clip, b.clip):
        if x is not y:
            r = cmpshape(x[0], y[0], what + " clip path", tol, rel, False)
            if r:
                return r
            if x[1] != y[1]:
                return what + ": clip rule"
    if opacity and not close(a.alpha, b.alpha, 2e-3):
        return "%s: opacity %r and %r" % (what, a.alpha, b.alpha)
    if a.kind in ("fill", "stroke"):
        r = cmpshape(a.path, b.path, what, tol, rel, a.kind == "stroke")
        if r:
            return r
    if a.kind in ("fill", "glyph"):
        r = cmpcolor(a.color, b.color, what, ctol, flat)
        if r:
            return r
    if a.kind == "fill":
        if a.rule != b.rule:
            return "%s: fill rule %r and %r" % (what, a.rule, b.rule)
    elif a.kind == "stroke":
        if not (a.color and b.color and "pattern" in (a.color[0], b.color[0])):
            r = cmpcolor(a.color, b.color, what, ctol, flat)
            if r:
                return r
        for n in ("width", "cap", "join", "miter"):
            x, y = getattr(a, n), getattr(b, n)
            if not close(x, y, 1e-5+1e-4*abs(x)):
                return "%s: %s %r and %r" % (what, n, x, y)
        if len(a.dash[0]) != len(b.dash[0]) or not all(close(x, y, 1e-4+1e-4*abs(x)) for x, y in zip(a.dash[0]+(a.dash[1],), b.dash[0]+(b.dash[1],))):
            return "%s: dash %r and %r" % (what, a.dash, b.dash)
        for x, y in zip(a.matrix, b.matrix):
            if not close(x, y, 1e-4+1e-4*abs(x)):
                return "%s: pen matrix %r and %r" % (what, a.matrix, b.matrix)
    elif a.kind == "glyph":
        if (a.font, a.glyph) != (b.font, b.glyph):
            return "%s: glyph %r and %r" % (what, (a.font, a.glyph), (b.font, b.glyph))
        for x, y in zip(a.matrix[:4], b.matrix[:4]):
            if not close(x, y, 1e-3+1e-3*abs(x)):
                return "%s: glyph %s matrix %r and %r" % (what, a.glyph, a.matrix, b.matrix)
        s = max(map(abs, a.matrix[:4]))
        for x, y in zip(a.matrix[4:], b.matrix[4:]):
            if not close(x, y, 0.02*scale + 1e-5*abs(x) + 1.2e-3*s*a.n):
                return "%s: glyph %s (number %d of its text) at %r and %r" % (what, a.glyph, a.n, a.matrix[4:], b.matrix[4:])
    elif a.kind == "image":
        for n in ("size", "mode", "data", "alpha8", "palette"):
            if getattr(a, n) != getattr(b, n):
                x, y = getattr(a, n), getattr(b, n)
                if isinstance(x, bytes) and isinstance(y, bytes):
                    x, y = "%d bytes" % len(x), "%d bytes" % len(y)
                return "%s: image %s %r and %r" % (what, n, x, y)
        for x, y in zip(a.matrix, b.matrix):
            if not close(x, y, 2e-2+1e-3*abs(x)):
                return "%s: image matrix %r and %r" % (what, a.matrix, b.matrix)
    elif a.kind == "shade":
        if a.space != b.space or len(a.verts) != len(b.verts):
            return "%s: shading %r %d vertices and %r %d vertices" % (what, a.space, len(a.verts), b.space, len(b.verts))
        for (pa, ca), (pb, cb) in zip(a.verts, b.verts):
            if not all(close(x, y, 0.02+1e-4*abs(x)) for x, y in zip(pa, pb)) or ca != cb:
                return "%s: shading vertex %r %r and %r %r" % (what, pa, ca, pb, cb)
    return None


# ---------------------------------------------------------------------------
# Type 1 font programs

def t1decrypt(data, r, n):
    out = bytearray()
    for c in data:
        out.append(c ^ (r >> 8))
        r = ((c + r) * 52845 + 22719) & 65535
    return bytes(out[n:])


_t1cache = {}


class Type1:
    """a Type 1 font program: clear text part, encrypted binary part"""

    def __init__(self, clear, cipher):
        self.clear = clear
        private = t1decrypt(cipher, 55665, 4)
        m = re.search(rb"/FontName\s+/(\S+)", clear)
        if not m:
            raise Problem("font program without FontName")
        self.name = m.group(1).decode("latin-1")
        m = re.search(rb"/FontMatrix\s*\[([^\]]*)\]", clear)
        if not m:
            raise Problem("font %s without FontMatrix" % self.name)
        self.matrix = tuple(float(x) for x in m.group(1).split())
        if re.search(rb"/Encoding\s+StandardEncoding", clear):
            self.encoding = [STANDARD.get(i, ".notdef") for i in range(256)]
        else:
            m = re.search(rb"/Encoding\s+256\s+array(.*?)\breadonly\s+def", clear, re.S)
            if not m:
                raise Problem("font %s without Encoding" % self.name)
            self.encoding = [".notdef"]*256
            for c, g in re.findall(rb"\bdup\s+(\d+)\s*/(\S+)\s+put", m.group(1)):
                self.encoding[int(c)] = g.decode("latin-1")
        m = re.search(rb"/lenIV\s+(\d+)", private)
        leniv = int(m.group(1)) if m else 4
        p = private.find(b"/CharStrings")
        if p < 0:
            raise Problem("font %s without CharStrings" % self.name)
        q = private.find(b"/Subrs")
        self.subrs = {}
        if q >= 0:
            m = re.match(rb"/Subrs\s+(\d+)\s+array\s*", private[q:])
            if not m:
                raise Problem("font %s: bad Subrs" % self.name)
            pos = q + m.end()
            n = int(m.group(1))
            while True:
                m = re.compile(rb"\s*dup\s+(\d+)\s+(\d+)\s+(?:RD|-\||\S+) ").match(private, pos)
                if not m:
                    break
                i, l = int(m.group(1)), int(m.group(2))
                if i >= n:
                    raise Problem("font %s: subroutine %d of %d" % (self.name, i, n))
                self.subrs[i] = t1decrypt(private[m.end():m.end()+l], 4330, leniv)
                pos = m.end()+l
                m = re.compile(rb"\s*(NP|\||noaccess\s+put|put)").match(private, pos)
                if not m:
                    raise Problem("font %s: subroutine %d is not put" % (self.name, i))
                pos = m.end()
        self.glyphs = {}
        m = re.compile(rb"/CharStrings\s+(\d+)\s+dict\s+dup\s+begin").match(private, p)
        if not m:
            raise Problem("font %s: bad CharStrings" % self.name)
        n = int(m.group(1))
        pos = m.end()
        r1 = re.compile(rb"\s*/(\S+)\s+(\d+)\s+(?:RD|-\||\S+) ")
        r2 = re.compile(rb"\s*(ND|\|-|noaccess\s+def|def)")
        while True:
            m = r1.match(private, pos)
            if not m:
                break
            l = int(m.group(2))
            self.glyphs[m.group(1).decode("latin-1")] = t1decrypt(private[m.end():m.end()+l], 4330, leniv)
            pos = m.end()+l
            m2 = r2.match(private, pos)
            if not m2:
                raise Problem("font %s: glyph %s is not defined" % (self.name, m.group(1)))
            pos = m2.end()
        if not re.compile(rb"\s*end\b").match(private, pos):
            raise Problem("font %s: CharStrings dictionary is not ended: %r" % (self.name, private[pos:pos+30]))
        if len(self.glyphs) > n:
            raise Problem("font %s: %d glyphs in a dictionary of %d" % (self.name, len(self.glyphs), n))
        if ".notdef" not in self.glyphs:
            raise Problem("font %s without .notdef" % self.name)
        self.widths = {}

    @classmethod
    def of(cls, clear, cipher):
        k = (bytes(clear), bytes(cipher))
        if k not in _t1cache:
            if len(_t1cache) > 300:
                _t1cache.clear()
            _t1cache[k] = cls(*k)
        return _t1cache[k]

    def width(self, glyph):
        """advance in glyph units"""
        if glyph not in self.widths:
            self.widths[glyph] = self._width(glyph)
        return self.widths[glyph]

    def _width(self, glyph):
        st = []
        d = self.glyphs.get(glyph)
        if d is None:
            raise Problem("font %s has no glyph %s" % (self.name, glyph))
        i = 0
        while i < len(d):
            v = d[i]
            i += 1
            if v >= 32:
                if v <= 246:
                    st.append(v-139)
                elif v <= 250:
                    st.append((v-247)*256+d[i]+108)
                    i += 1
                elif v <= 254:
                    st.append(-(v-251)*256-d[i]-108)
                    i += 1
                else:
                    st.append(struct.unpack(">i", d[i:i+4])[0])
                    i += 4
            elif v == 13:
                return st[1]
            elif v == 12:
                i += 1
                if d[i-1] == 12:
                    b = st.pop()
                    st.append(st.pop()/b)
                elif d[i-1] == 7:
                    return st[2]
                else:
                    raise Problem("glyph %s starts with escape %d" % (glyph, d[i-1]))
            else:
                raise Problem("glyph %s starts with command %d" % (glyph, v))
        raise Problem("glyph %s has no width" % glyph)


# Adobe standard encoding
STANDARD = {}
for _i, _n in enumerate("""space exclam quotedbl numbersign dollar percent ampersand quoteright parenleft parenright asterisk plus comma hyphen
    period slash zero one two three four five six seven eight nine colon semicolon less equal greater question at A B C D E F G H I J K L M N
    O P Q R S T U V W X Y Z bracketleft backslash bracketright asciicircum underscore quoteleft a b c d e f g h i j k l m n o p q r s t u v
    w x y z braceleft bar braceright asciitilde""".split()):
    STANDARD[32+_i] = _n
for _i, _n in enumerate("""exclamdown cent sterling fraction yen florin section currency quotesingle quotedblleft guillemotleft guilsinglleft
    guilsinglright fi fl .notdef endash dagger daggerdbl periodcentered .notdef paragraph bullet quotesinglbase quotedblbase quotedblright
    guillemotright ellipsis perthousand .notdef questiondown .notdef grave acute circumflex tilde macron breve dotaccent dieresis .notdef
    ring cedilla .notdef hungarumlaut ogonek caron emdash""".split()):
    STANDARD[161+_i] = _n
STANDARD.update({225: "AE", 227: "ordfeminine", 232: "Lslash", 233: "Oslash", 234: "OE", 235: "ordmasculine", 241: "ae", 245: "dotlessi",
                 248: "lslash", 249: "oslash", 250: "oe", 251: "germandbls"})


def outline(t1, glyph, depth=0):
    """Path of a glyph in glyph units"""
    cache = t1.__dict__.setdefault("outlines", {})
    if glyph in cache:
        return cache[glyph]
    path = Path()
    state = {"x": 0.0, "y": 0.0, "flex": None, "ps": [], "st": [], "n": 0}

    def rmove(dx, dy):
        state["x"] += dx
        state["y"] += dy
        if state["flex"] is not None:
            state["flex"].append((state["x"], state["y"]))
        else:
            path.move(state["x"], state["y"])

    def rline(dx, dy):
        state["x"] += dx
        state["y"] += dy
        path.line(state["x"], state["y"])

    def rcurve(a, b, c, d, e, f):
        x1, y1 = state["x"]+a, state["y"]+b
        x2, y2 = x1+c, y1+d
        state["x"], state["y"] = x2+e, y2+f
        path.curve(x1, y1, x2, y2, state["x"], state["y"], 12)

    def run(d, level):
        if level > 10:
            raise Problem("font %s: recursive subroutines" % t1.name)
        st = state["st"]
        i = 0
        while i < len(d):
            v = d[i]
            i += 1
            if v >= 32:
                if v <= 246:
                    st.append(v-139)
                elif v <= 250:
                    st.append((v-247)*256+d[i]+108)
                    i += 1
                elif v <= 254:
                    st.append(-(v-251)*256-d[i]-108)
                    i += 1
                else:
                    st.append(struct.unpack(">i", d[i:i+4])[0])
                    i += 4
                continue
            if v == 12:
                v = 100+d[i]
                i += 1
            if v in (1, 3, 100, 101, 102):
                pass
            elif v == 13:
                state["x"], state["y"] = state["sb"], state["sby"] = st[0], 0
            elif v == 107:
                state["x"], state["y"] = state["sb"], state["sby"] = st[0], st[1]
            elif v == 4:
                rmove(0, st[-1])
            elif v == 21:
                rmove(st[-2], st[-1])
            elif v == 22:
                rmove(st[-1], 0)
            elif v == 5:
                rline(*st)
            elif v == 6:
                rline(st[0], 0)
            elif v == 7:
                rline(0, st[0])
            elif v == 8:
                rcurve(*st)
            elif v == 30:
                rcurve(0, st[0], st[1], st[2], st[3], 0)
            elif v == 31:
                rcurve(st[0], 0, st[1], st[2], 0, st[3])
            elif v == 9:
                path.close()
            elif v == 10:
                k = int(st.pop())
                if k not in t1.subrs:
                    raise Problem("font %s: glyph %s calls the missing subroutine %d" % (t1.name, glyph, k))
                if run(t1.subrs[k], level+1):
                    return True
                continue
            elif v == 11:
                return False
            elif v == 112:
                b = st.pop()
                st.append(st.pop()/b)
                continue
            elif v == 116:
                k, n = int(st.pop()), int(st.pop())
                args = [st.pop() for _ in range(n)][::-1]
                if k == 1:
                    state["flex"] = []
                elif k == 0:
                    f = state["flex"]
                    state["flex"] = None
                    if len(f) != 7:
                        raise Problem("font %s: flex of %d points" % (t1.name, len(f)))
                    path.curve(*(f[1]+f[2]+f[3]), n=12)
                    path.curve(*(f[4]+f[5]+f[6]), n=12)
                    state["ps"] = [args[2], args[1]]
                elif k == 3:
                    state["ps"] = [3]
                elif k != 2:
                    state["ps"] = args[::-1]
                continue
            elif v == 117:
                st.append(state["ps"].pop(0) if state["ps"] else 0)
                continue
            elif v == 133:
                pass
            elif v == 14:
                return True
            elif v == 106:
                if depth:
                    raise Problem("glyph %s: nested accented character" % glyph)
                asb, adx, ady, b, a = st
                parts = []
                for code, dx, dy in ((b, None, 0), (a, state["sb"] + adx - asb, ady)):
                    name = STANDARD.get(int(code))
                    if name is None:
                        raise Problem("glyph %s: component %d" % (glyph, code))
                    sub = outline(t1, name, 1)
                    # both start at their own origins
                    parts += [(tuple((x + (dx or 0), y + dy) for x, y in pts), c) for pts, c in sub]
                state["parts"] = parts
                return True
            else:
                raise Problem("glyph %s: command %d" % (glyph, v))
            del st[:]
        return False
    d = t1.glyphs.get(glyph)
    if d is None:
        raise Problem("font %s has no glyph %s" % (t1.name, glyph))
    try:
        if not run(d, 0):
            raise Problem("font %s: glyph %s does not end" % (t1.name, glyph))
    except (IndexError, TypeError):
        raise Problem("font %s: bad program of glyph %s" % (t1.name, glyph))
    cache[glyph] = state.get("parts", []) + [(tuple(pts), c) for pts, c in path.subs]
    return cache[glyph]


def flatten(marks, small=0.06):
    """glyphs become fills and fills become one mark for each subpath, leaving
    out the small ones; None when some glyph has no embedded font"""
    out = []
    for m in marks:
        if m.kind == "text" and m.shapes is None or m.kind == "glyph" and m.t1 is None:
            return None
        sub = None
        if m.kind == "text":
            e = 2e-3*max(map(abs, m.matrix[:4]))
            sub = [(pts, c, e) for pts, c in m.shapes]
        elif m.kind == "glyph":
            s = max(map(abs, m.matrix[:4]))
            e = 1.2e-3*s*m.n + 2e-3*s
            sub = [(tuple(apply(m.matrix, x*0.001, y*0.001) for x, y in pts), c, e) for pts, c in outline(m.t1, m.glyph)]
        elif m.kind == "fill" and not m.rule:
            sub = m.path
        if sub is None:
            out.append(m)
            continue
        for x in sub:
            if sample(x[0], x[1])[0] > small:
                out.append(Mark("fill", path=(x,), clip=m.clip, rule=False, color=m.color, alpha=m.alpha))
    return out


def compareflat(la, lb, **kw):
    """as compare, for text written in different ways; "" if not comparable"""
    for small in 0.06, 0.1, 0.17:
        a, b = flatten(la, small), flatten(lb, small)
        if a is None or b is None:
            return ""
        r = compare(a, b, flat=small, **kw)
        if not r:
            return None
    return r


def pfb(data):
    """(clear, cipher, tail) of a PFB file"""
    segs, p = [], 0
    while data[p:p+1] == b"\x80":
        t = data[p+1]
        if t == 3:
            break
        n = struct.unpack("<I", data[p+2:p+6])[0]
        segs.append((t, data[p+6:p+6+n]))
        p += 6+n
    clear = b"".join(s for t, s in segs[:[t for t, s in segs].index(2)])
    cipher = b"".join(s for t, s in segs if t == 2)
    return clear, cipher


# ---------------------------------------------------------------------------
# graphics state shared by the interpreters

ZOOM = [1.0]      # largest scale of any coordinate system so far


class State:
    @property
    def ctm(self):
        return self._ctm

    @ctm.setter
    def ctm(self, m):
        self._ctm = m
        z = max(abs(m[0]), abs(m[1]), abs(m[2]), abs(m[3]))
        if z > ZOOM[0]:
            ZOOM[0] = z

    def __init__(self):
        self.ctm = IDENT
        self.clip = ()
        self.fill = ("gray", (0.0,))
        self.stroke = ("gray", (0.0,))
        self.fillalpha = self.strokealpha = 1.0
        self.fop = self.sop = 1.0
        self.width = 1.0
        self.cap = self.join = 0
        self.miter = 10.0
        self.dash = ((), 0.0)
        self.font = None
        self.size = None
        self.fillspace = self.strokespace = "DeviceGray"
        self.path = None

    def copy(self):
        s = State.__new__(State)
        s.__dict__.update(self.__dict__)
        return s


def strokemark(gs, path, color, alpha):
    d = tuple(gs.dash[0])
    if d and not any(d):
        d = ()
    return Mark("stroke", path=path, clip=gs.clip, color=color, alpha=alpha, width=gs.width, cap=gs.cap, join=gs.join, miter=gs.miter,
                dash=(d, gs.dash[1] if d else 0.0), matrix=gs.ctm[:4])


def unpacksamples(data, w, h, ncomp, bits, what):
    if bits != 8:
        raise Problem("%s with %r bits per component" % (what, bits))
    if len(data) != w*h*ncomp:
        raise Problem("%s of %dx%d pixels with %d components has %d bytes" % (what, w, h, ncomp, len(data)))
    return data


NCOMP = {"DeviceGray": 1, "DeviceRGB": 3, "DeviceCMYK": 4}


def meshverts(data, decode, ncomp, m, what):
    n = 1+6+ncomp
    if not data or len(data) % n:
        raise Problem("%s: %d bytes are no vertices of %d bytes" % (what, len(data), n))
    verts = []
    for i in range(0, len(data), n):
        if data[i] != 0:
            raise Problem("%s: vertex flag %d" % (what, data[i]))
        x = int.from_bytes(data[i+1:i+4], "big")/16777215.0
        y = int.from_bytes(data[i+4:i+7], "big")/16777215.0
        x = decode[0]+x*(decode[1]-decode[0])
        y = decode[2]+y*(decode[3]-decode[2])
        verts.append((apply(m, x, y), bytes(data[i+7:i+n])))
    if len(verts) % 3:
        raise Problem("%s: %d vertices are no triangles" % (what, len(verts)))
    return tuple(verts)


# ---------------------------------------------------------------------------
# PDF

STD14 = {"Times-Roman", "Times-Bold", "Times-Italic", "Times-BoldItalic", "Helvetica", "Helvetica-Bold", "Helvetica-Oblique",
         "Helvetica-BoldOblique", "Courier", "Courier-Bold", "Courier-Oblique", "Courier-BoldOblique", "Symbol", "ZapfDingbats"}


def inflate(pdf, ref, what):
    """decoded data of a stream and its dictionary"""
    if not isinstance(ref, pdfparse.Ref) or ref[0] not in pdf.streams:
        raise Problem("%s is not a stream" % what)
    return pdf.get(ref), pdf.streams[ref[0]]


class PDFPainter:
    def __init__(self, pdf):
        self.pdf = pdf
        self.fonts = {}
        self.depth = 0

    def page(self, page):
        res = self.pdf.get(page.get("Resources"))
        if not isinstance(res, dict):
            raise Problem("page without Resources")
        return self.stream(self.pdf.content(page), res, IDENT, "page content")

    def resource(self, res, kind, name, what):
        d = self.pdf.get(res.get(kind))
        if not isinstance(d, dict) or name not in d:
            raise Problem("%s: %s resource /%s missing" % (what, kind, name))
        return d[name]

    def font(self, ref):
        key = ref[0] if isinstance(ref, pdfparse.Ref) else id(ref)
        if key in self.fonts:
            return self.fonts[key]
        f = self.pdf.get(ref)
        if f.get("Type") != "Font" or f.get("Subtype") != "Type1":
            raise Problem("font dictionary %r" % f)
        base = str(f.get("BaseFont"))
        t1 = None
        if "FontDescriptor" not in f:
            if base not in STD14:
                raise Problem("font %s without descriptor" % base)
            r = (base, None, None, None, None)
            self.fonts[key] = r
            return r
        first, last = f.get("FirstChar"), f.get("LastChar")
        widths = self.pdf.get(f.get("Widths"))
        if not isinstance(widths, list) or len(widths) != last-first+1 or not 0 <= first <= last <= 255:
            raise Problem("font %s: %r widths for characters %r to %r" % (base, widths and len(widths), first, last))
        fd = self.pdf.get(f["FontDescriptor"])
        if fd.get("Type") != "FontDescriptor" or str(fd.get("FontName")) != base:
            raise Problem("font %s: descriptor %r" % (base, fd))
        for n in ("Flags", "FontBBox", "ItalicAngle", "Ascent", "Descent", "CapHeight", "StemV"):
            if n not in fd:
                raise Problem("font descriptor of %s without %s" % (base, n))
        ff = fd.get("FontFile")
        if ff is not None:
            d, data = inflate(self.pdf, ff, "font file")
            l1, l2, l3 = d.get("Length1"), d.get("Length2"), d.get("Length3")
            if l1 is None or l2 is None or l3 is None or l1+l2+l3 != len(data):
                raise Problem("font file of %s: parts of %r, %r and %r bytes, %d bytes of data" % (base, l1, l2, l3, len(data)))
            if not data[:l1].rstrip().endswith(b"eexec"):
                raise Problem("font file of %s: first part ends with %r" % (base, data[:l1][-20:]))
            t1 = Type1.of(data[:l1], data[l1:l1+l2])
            if l3 and not re.match(rb"(?:\s*0){512}\s*cleartomark\s*(\{restore\}if\s*)?$", data[l1+l2:]):
                raise Problem("font file of %s: bad tail: %r (%d %d %d)" % (base, data[l1+l2:][-30:], l1, l2, l3))
            if t1.name != base:
                raise Problem("font %s with font program %s" % (base, t1.name))
        enc = t1.encoding if t1 else None
        if "Encoding" in f:
            e = self.pdf.get(f["Encoding"])
            if isinstance(e, dict):
                if e.get("Type") not in (None, "Encoding"):
                    raise Problem("encoding %r" % e)
                enc = list(enc or [None]*256)
                code = None
                for x in self.pdf.get(e.get("Differences")) or []:
                    if isinstance(x, pdfparse.Name):
                        if code is None or code > 255:
                            raise Problem("bad encoding differences of %s" % base)
                        enc[code] = str(x)
                        code += 1
                    else:
                        code = x
        r = (base, t1, enc, first, widths)
        self.fonts[key] = r
        return r

    def stream(self, data, res, base, what):
        pdf = self.pdf
        self.depth += 1
        if self.depth > 12:
            raise Problem("recursive content")
        marks = []
        gs = State()
        gs.ctm = base
        stack = []
        path = None
        pendclip = None
        intext = None
        marked = 0
        tm = tlm = IDENT
        tl = 0
        for op, a, at in pdfparse.operators(data):
            w = "%s, %s at %d" % (what, op, at)
            # allowed context
            if intext is not None and op in ("q", "Q", "cm", "m", "l", "c", "re", "S", "f", "B", "n", "W", "Do", "sh", "BT", "h", "f*", "B*", "s", "b", "b*"):
                raise Problem("%s: inside of a text object" % w)
            if intext is None and op in ("ET", "Tj", "TJ", "Tm", "Td", "'", '"', "TD", "T*"):
                raise Problem("%s: outside of a text object" % w)
            if path is not None and op not in ("m", "l", "c", "v", "y", "h", "re", "S", "s", "f", "F", "f*", "B", "B*", "b", "b*", "n", "W", "W*"):
                # PyX sets styles between path and painting: only the
                # graphics state stack must stay the same for painting
                if op in ("Q", "cm", "Do", "sh", "BT") :
                    raise Problem("%s: inside of a path" % w)
            if op == "q":
                stack.append((gs.copy(), path.copy() if path else None))
            elif op == "Q":
                if not stack:
                    raise Problem("%s: without q" % w)
                gs, p0 = stack.pop()
            elif op == "cm":
                gs.ctm = mul(tuple(a), gs.ctm)
                if not det(gs.ctm):
                    raise Problem("%s: singular matrix" % w)
            elif op == "w":
                gs.width = a[0]
            elif op == "J":
                gs.cap = a[0]
            elif op == "j":
                gs.join = a[0]
            elif op == "M":
                gs.miter = a[0]
            elif op == "d":
                gs.dash = (tuple(a[0]), a[1])
                if any(x < 0 for x in a[0]):
                    raise Problem("%s: negative dash" % w)
            elif op == "gs":
                d = pdf.get(self.resource(res, "ExtGState", a[0], w))
                if "CA" in d:
                    gs.strokealpha = d["CA"]
                if "ca" in d:
                    gs.fillalpha = d["ca"]
            elif op in ("m", "l", "c", "h", "re", "v", "y"):
                if path is None:
                    path = Path()
                    if op not in ("m", "re"):
                        raise Problem("%s: path without m" % w)
                if pendclip is not None:
                    raise Problem("%s: after W" % w)
                pts = [apply(gs.ctm, a[i], a[i+1]) for i in range(0, len(a)//2*2, 2)] if op != "re" else None
                if op == "m":
                    path.move(*pts[0])
                elif op == "l":
                    path.line(*pts[0])
                elif op == "c":
                    path.curve(*pts[0], *pts[1], *pts[2])
                elif op == "h":
                    path.close()
                elif op == "re":
                    x, y, ww, hh = a
                    path.move(*apply(gs.ctm, x, y))
                    for px, py in ((x+ww, y), (x+ww, y+hh), (x, y+hh)):
                        path.line(*apply(gs.ctm, px, py))
                    path.close()
                else:
                    raise Problem("%s: unsupported" % w)
            elif op in ("W", "W*"):
                if path is None:
                    path = Path()    # an empty clip path
                pendclip = op
            elif op in ("S", "s", "f", "F", "f*", "B", "B*", "b", "b*", "n"):
                if path is None:
                    path = Path()
                if op in ("s", "b", "b*"):
                    path.close()
                sh = path.shape()
                if op[0] in "fFBb":
                    marks.append(Mark("fill", path=sh, clip=gs.clip, rule=op.endswith("*"), color=gs.fill, alpha=gs.fillalpha))
                if op[0] in "SsBb":
                    marks.append(strokemark(gs, sh, gs.stroke, gs.strokealpha))
                if pendclip:
                    gs.clip = gs.clip + ((sh, pendclip.endswith("*")),)
                    pendclip = None
                path = None
            elif op in ("g", "rg", "k"):
                gs.fillspace = {"g": "DeviceGray", "rg": "DeviceRGB", "k": "DeviceCMYK"}[op]
                gs.fill = ({"g": "gray", "rg": "rgb", "k": "cmyk"}[op], self.comps(a, w))
            elif op in ("G", "RG", "K"):
                gs.strokespace = {"G": "DeviceGray", "RG": "DeviceRGB", "K": "DeviceCMYK"}[op]
                gs.stroke = ({"G": "gray", "RG": "rgb", "K": "cmyk"}[op], self.comps(a, w))
            elif op == "cs":
                gs.fillspace = self.space(a[0], res, w)
                gs.fill = None
            elif op == "CS":
                gs.strokespace = self.space(a[0], res, w)
                gs.stroke = None
            elif op in ("scn", "SCN", "sc", "SC"):
                space = gs.fillspace if op[0] == "s" else gs.strokespace
                if a and isinstance(a[-1], pdfparse.Name):
                    if space != "Pattern" or op in ("sc", "SC"):
                        raise Problem("%s: pattern /%s in color space %s" % (w, a[-1], space))
                    v = ("pattern", "pdf", self.pattern(self.resource(res, "Pattern", a[-1], w), base, w))
                else:
                    if space == "Pattern" or len(a) != NCOMP[space]:
                        raise Problem("%s: %r in color space %s" % (w, a, space))
                    v = ({1: "gray", 3: "rgb", 4: "cmyk"}[len(a)], self.comps(a, w))
                if op[0] == "s":
                    gs.fill = v
                else:
                    gs.stroke = v
            elif op == "BT":
                intext = at
                tm = tlm = IDENT
            elif op == "ET":
                intext = None
            elif op == "Tf":
                gs.font = self.font(self.resource(res, "Font", a[0], w))
                gs.size = a[1]
            elif op == "Tm":
                tm = tlm = tuple(a)
            elif op == "Td":
                tm = tlm = mul((1, 0, 0, 1, a[0], a[1]), tlm)
            elif op == "TL":
                tl = a[0]
            elif op in ("Tj", "TJ", "'"):
                if gs.font is None:
                    raise Problem("%s: no font is selected" % w)
                if op == "'":
                    tm = tlm = mul((1, 0, 0, 1, 0, -tl), tlm)
                fname, t1, enc, first, widths = gs.font
                n = 0
                for it in (a[0] if op == "TJ" else a):
                    if not isinstance(it, bytes):
                        tm = mul((1, 0, 0, 1, -it*gs.size/1000.0, 0), tm)
                        n += 1
                        continue
                    for c in it:
                        g = c
                        wd = 0.5
                        if widths is not None:
                            if not first <= c < first+len(widths):
                                raise Problem("%s: character %d outside of the widths of %s" % (w, c, fname))
                            wd = widths[c-first]/1000.0
                            g = enc[c] if enc else c
                            if t1 is not None and g not in t1.glyphs:
                                raise Problem("%s: glyph %s is not in the embedded font %s" % (w, g, fname))
                        m = mul((gs.size, 0, 0, gs.size, 0, 0), mul(tm, gs.ctm))
                        marks.append(Mark("glyph", font=fname, glyph=g, matrix=m, color=gs.fill, alpha=gs.fillalpha, clip=gs.clip, n=n, t1=t1))
                        n += 1
                        tm = mul((1, 0, 0, 1, wd*gs.size, 0), tm)
            elif op == "Do":
                ref = self.resource(res, "XObject", a[0], w)
                d, data2 = inflate(pdf, ref, "XObject /%s" % a[0])
                if d.get("Subtype") == "Image":
                    marks.append(self.image(d, data2, gs, w))
                elif d.get("Subtype") == "Form":
                    marks.extend(self.stream(data2, pdf.get(d.get("Resources")) or res, gs.ctm, w))
                else:
                    raise Problem("%s: XObject %r" % (w, d.get("Subtype")))
            elif op == "sh":
                d, data2 = inflate(pdf, self.resource(res, "Shading", a[0], w), "shading /%s" % a[0])
                if d.get("ShadingType") != 4 or (d.get("BitsPerCoordinate"), d.get("BitsPerComponent"), d.get("BitsPerFlag")) != (24, 8, 8):
                    raise Problem("%s: shading %r" % (w, d))
                nc = NCOMP[str(d.get("ColorSpace"))]
                dec = d.get("Decode")
                if len(dec) != 4+2*nc:
                    raise Problem("%s: decode %r" % (w, dec))
                marks.append(Mark("shade", space=str(d["ColorSpace"]), verts=meshverts(data2, dec, nc, gs.ctm, w), clip=gs.clip, alpha=gs.fillalpha))
            elif op == "BMC":
                marked += 1
            elif op == "EMC":
                if not marked:
                    raise Problem("%s: without BMC" % w)
                marked -= 1
            else:
                raise Problem("%s: unexpected operator" % w)
        if stack or intext is not None or path is not None or marked:
            raise Problem("%s ends inside of q, BT, BMC or a path" % what)
        self.depth -= 1
        return marks

    def comps(self, a, w):
        if not all(isinstance(x, (int, float)) and -1e-6 <= x <= 1.000001 for x in a):
            raise Problem("%s: color %r" % (w, a))
        return tuple(float(x) for x in a)

    def space(self, name, res, w):
        if name == "Pattern" or name in NCOMP:
            return str(name)
        raise Problem("%s: color space %s" % (w, name))

    def pattern(self, ref, base, w):
        d, data = inflate(self.pdf, ref, "pattern")
        if d.get("PatternType") != 1 or not isinstance(self.pdf.get(d.get("Resources")), dict):
            raise Problem("%s: pattern %r" % (w, d))
        bb = self.pdf.get(d["BBox"])
        if not (len(bb) == 4 and bb[0] < bb[2] and bb[1] < bb[3]):
            raise Problem("%s: pattern with BBox %r" % (w, bb))
        if not d["XStep"] or not d["YStep"]:
            raise Problem("%s: pattern with zero step" % w)
        return {"paint": d["PaintType"], "tiling": d["TilingType"], "bbox": tuple(bb), "xstep": d["XStep"], "ystep": d["YStep"],
                "matrix": tuple(d.get("Matrix", IDENT)), "marks": self.stream(data, self.pdf.get(d["Resources"]), IDENT, "pattern")}

    def image(self, d, data, gs, w):
        pdf = self.pdf
        ww, hh, bits = d.get("Width"), d.get("Height"), d.get("BitsPerComponent")
        cs = pdf.get(d.get("ColorSpace"))
        pal = None
        f = d.get("Filter")
        if isinstance(cs, list):
            if cs[0] != "Indexed" or len(cs) != 4:
                raise Problem("%s: color space %r" % (w, cs))
            look = cs[3]
            look = pdf.streams[look[0]] if isinstance(look, pdfparse.Ref) else look
            n = NCOMP[str(cs[1])]
            if len(look) != n*(cs[2]+1):
                raise Problem("%s: palette of %d bytes for %s with highest value %d" % (w, len(look), cs[1], cs[2]))
            pal = (str(cs[1]), look)
            mode, nc = "P", 1
        else:
            mode, nc = str(cs), NCOMP[str(cs)]
        if f in ("DCTDecode", ["DCTDecode"]):
            if data[:2] != b"\xff\xd8" or data[-2:] != b"\xff\xd9":
                raise Problem("%s: no JPEG data" % w)
        else:
            data = unpacksamples(data, ww, hh, nc, bits, w)
            if pal and data and max(data) > cs[2]:
                raise Problem("%s: pixel beyond the palette" % w)
        alpha = None
        if "SMask" in d:
            sd, alpha = inflate(pdf, d["SMask"], "SMask")
            if (sd.get("Width"), sd.get("Height"), sd.get("ColorSpace")) != (ww, hh, "DeviceGray"):
                raise Problem("%s: SMask %r of a %dx%d image" % (w, sd, ww, hh))
            if sd.get("Filter") != "DCTDecode":
                alpha = unpacksamples(alpha, ww, hh, 1, sd.get("BitsPerComponent"), w + " SMask")
        return Mark("image", size=(ww, hh), mode=mode, data=bytes(data), alpha8=None if alpha is None else bytes(alpha), palette=pal, matrix=gs.ctm, clip=gs.clip, alpha=gs.fillalpha)


# ---------------------------------------------------------------------------
# PostScript

class PSName(str):
    """literal name"""
    __slots__ = ()


class PSExec(str):
    """executable name"""
    __slots__ = ()


class PSProc(list):
    __slots__ = ()


class PSStr:
    def __init__(self, data):
        self.data = bytearray(data)

    def __repr__(self):
        return "PSStr(%r)" % bytes(self.data[:40])


class _Mark:
    def __repr__(self):
        return "-mark-"


PSMark = _Mark()


class PSFile:
    """currentfile"""

    def __init__(self, ps):
        self.ps = ps


class PSFilter:
    def __init__(self, src, kinds):
        self.src, self.kinds = src, kinds


class PSDict(dict):
    # a dictionary is an object with identity
    __hash__ = object.__hash__

    def __eq__(self, other):
        return self is other


STDFONTS = STD14
_ws = b" \t\r\n\f\0"
_delim = b"()<>[]{}/%"
_tok = re.compile(rb"[^ \t\r\n\f\0()<>\[\]{}/%]+")
_num = re.compile(rb"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$")
_skipws = re.compile(rb"(?:[ \t\r\n\f\0]+|%[^\r\n]*)*")


class PS:
    """interprets one PostScript file; pages is the list of mark lists"""

    def __init__(self, data, maxops=3000000):
        self.data = data
        self.p = 0
        self.stack = []
        self.marks = []
        self.pages = []
        self.system = {}
        self.user = PSDict()
        self.dicts = [self.user]
        self.gs = State()
        self.gs.path = Path()
        self.gstack = []
        self.saves = []
        self.fontdir = {}
        self.ops = 0
        self.maxops = maxops
        self.exiting = False

    # -- scanner

    inpattern = 0

    def skip(self):
        self.p = _skipws.match(self.data, self.p).end()
        return self.p < len(self.data)

    def token(self):
        """next object or None at the end"""
        if not self.skip():
            return None
        d, p = self.data, self.p
        c = d[p:p+1]
        if c == b"/":
            m = _tok.match(d, p+1)
            if d[p+1:p+2] == b"/":
                raise self.problem("immediate name")
            self.p = m.end() if m else p+1
            return PSName(m.group().decode("latin-1") if m else "")
        if c == b"(":
            return PSStr(self.string())
        if c == b"{":
            self.p += 1
            r = PSProc()
            while True:
                t = self.token()
                if t is None:
                    raise self.problem("unterminated procedure")
                if isinstance(t, PSExec) and t == "}":
                    return r
                r.append(t)
        if c in (b"}", b"[", b"]"):
            self.p += 1
            return PSExec(c.decode())
        if c == b"<":
            if d[p:p+2] == b"<<":
                self.p += 2
                return PSExec("<<")
            if d[p:p+2] == b"<~":
                e = d.find(b"~>", p+2)
                if e < 0:
                    raise self.problem("unterminated ASCII85 string")
                self.p = e+2
                return PSStr(a85(d[p+2:e]))
            e = d.find(b">", p)
            self.p = e+1
            return PSStr(hexdecode(d[p+1:e]))
        if d[p:p+2] == b">>":
            self.p += 2
            return PSExec(">>")
        if c in (b")", b">"):
            raise self.problem("stray %r" % c)
        m = _tok.match(d, p)
        self.p = m.end()
        t = m.group()
        if _num.match(t):
            return float(t) if any(x in t for x in b".eE") else int(t)
        return PSExec(t.decode("latin-1"))

    def string(self):
        d, p = self.data, self.p+1
        out = bytearray()
        depth = 1
        while True:
            if p >= len(d):
                raise self.problem("unterminated string")
            c = d[p]
            p += 1
            if c == 0x5c:
                c = d[p:p+1]
                p += 1
                if c in b"01234567" and c:
                    m = re.compile(rb"[0-7]{1,3}").match(d, p-1)
                    out.append(int(m.group(), 8) & 255)
                    p = m.end()
                elif c == b"\n":
                    pass
                else:
                    out += {b"n": b"\n", b"r": b"\r", b"t": b"\t", b"b": b"\b", b"f": b"\f"}.get(c, c)
                continue
            if c == 0x28:
                depth += 1
            elif c == 0x29:
                depth -= 1
                if not depth:
                    self.p = p
                    return out
            out.append(c)

    def problem(self, what):
        line = self.data.count(b"\n", 0, self.p)+1
        return Problem("PostScript line %d: %s (near %r)" % (line, what, bytes(self.data[max(0, self.p-60):self.p])))

    # -- execution

    def run(self):
        while True:
            t = self.token()
            if t is None:
                break
            self.do(t)
        if self.stack:
            raise self.problem("%d objects are left on the stack: %r" % (len(self.stack), self.stack[:5]))
        if len(self.dicts) != 1:
            raise self.problem("%d dictionaries are left open" % (len(self.dicts)-1))
        if self.gstack or self.saves:
            raise self.problem("gsave/save without restore at the end")
        if self.marks:
            raise self.problem("marks without showpage")
        return self.pages

    def do(self, t):
        if isinstance(t, PSExec):
            self.exec(t)
        else:
            self.stack.append(t)

    def lookup(self, n):
        for d in reversed(self.dicts):
            if n in d:
                return d[n]
        return None

    def exec(self, n):
        self.ops += 1
        if self.ops > self.maxops:
            raise self.problem("too many operations")
        v = self.lookup(n)
        if v is not None:
            if isinstance(v, PSProc):
                self.call(v)
            elif isinstance(v, PSExec):
                self.exec(v)
            else:
                self.stack.append(v)
            return
        f = OPS.get(n)
        if f is None:
            raise self.problem("%s is not defined" % n)
        try:
            f(self)
        except (IndexError, TypeError, KeyError, AttributeError, ValueError) as e:
            raise self.problem("%s fails: %s: %s" % (n, type(e).__name__, e))

    def fail(self, what):
        raise self.problem(what)

    def write(self, d, k, v):
        if getattr(d, "readonly", False):
            raise self.problem("write to a read-only dictionary")
        d[k] = v

    def call(self, proc):
        for t in proc:
            self.do(t)

    def pop(self, *kinds):
        if not self.stack:
            raise self.problem("stack underflow")
        v = self.stack.pop()
        if kinds and not isinstance(v, kinds) or isinstance(v, bool) and kinds == (int, float):
            raise self.problem("%r instead of %s" % (v, "/".join(k.__name__ for k in kinds)))
        return v

    def num(self):
        return self.pop(int, float)

    def nums(self, n):
        r = [self.num() for i in range(n)]
        r.reverse()
        return r

    def procedure(self):
        return self.pop(PSProc)

    def points(self, n):
        a = self.nums(2*n)
        return [apply(self.gs.ctm, a[2*i], a[2*i+1]) for i in range(n)]

    def userpoint(self):
        if self.gs.path.cur is None:
            raise self.problem("no current point")
        return apply(invert(self.gs.ctm), *self.gs.path.cur)

    def truth(self):
        v = self.stack.pop()
        if not isinstance(v, bool):
            raise self.problem("%r is no boolean" % (v,))
        return v

    def matrix(self):
        a = self.stack.pop()
        if not isinstance(a, list) or len(a) != 6 or isinstance(a, PSProc) or not all(isinstance(x, (int, float)) for x in a):
            raise self.problem("%r is no matrix" % (a,))
        return tuple(a)

    def gsave(self):
        g = self.gs.copy()
        g.path = self.gs.path.copy()
        self.gstack.append(("g", g))

    def grestore(self):
        if not self.gstack or self.gstack[-1][0] != "g":
            raise self.problem("grestore without gsave")
        self.gs = self.gstack.pop()[1]

    def source(self, src, what):
        """all data of an image source"""
        kinds = []
        while isinstance(src, PSFilter):
            kinds.append(src.kinds)
            src = src.src
        if isinstance(src, PSFile):
            # the outermost decoder reads the file
            k = kinds.pop()
            self.p = _skipws.match(self.data, self.p).end() if self.data[self.p:self.p+1] in b" \n\r\t" else self.p
            if k == "ASCII85Decode":
                e = self.data.find(b"~>", self.p)
                if e < 0:
                    raise self.problem("%s: ASCII85 data without end" % what)
                raw = a85(self.data[self.p:e])
                self.p = e+2
            elif k == "ASCIIHexDecode":
                e = self.data.find(b">", self.p)
                if e < 0:
                    raise self.problem("%s: hexadecimal data without end" % what)
                raw = hexdecode(self.data[self.p:e])
                self.p = e+1
            else:
                raise self.problem("%s: %s directly on the file" % (what, k))
        elif isinstance(src, PSStr):
            raw = bytes(src.data)
        elif isinstance(src, PSProc):
            raw = b""
            self.chunkproc = src
            while True:
                if kinds == [] and len(raw) >= self.wanted:
                    break
                n = len(self.stack)
                try:
                    self.call(src)
                except Problem:
                    if kinds and raw:
                        break        # the decoders know the end of their data
                    raise
                if len(self.stack) != n+1:
                    raise self.problem("%s: data procedure leaves %d objects" % (what, len(self.stack)-n))
                s = self.pop(PSStr)
                if not s.data:
                    break
                raw += bytes(s.data)
            del self.stack[n:]
        else:
            raise self.problem("%s: data source %r" % (what, src))
        for k in reversed(kinds):
            if k == "FlateDecode":
                try:
                    z = zlib.decompressobj()
                    raw = z.decompress(raw) + z.flush()
                except zlib.error as e:
                    raise self.problem("%s: %s" % (what, e))
                if not z.eof:
                    raise self.problem("%s: truncated data" % what)
            elif k == "DCTDecode":
                self.dct = True
            elif k == "ASCIIHexDecode":
                raw = hexdecode(raw)
            elif k == "ASCII85Decode":
                raw = a85(raw)
            else:
                raise self.problem("filter %s" % k)
        return raw


def a85(data):
    data = bytes(c for c in data if c not in _ws)
    out = bytearray()
    g = []
    for c in data:
        if c == 0x7a and not g:
            out += b"\0\0\0\0"
            continue
        if not 33 <= c <= 117:
            raise Problem("ASCII85 character %d" % c)
        g.append(c-33)
        if len(g) == 5:
            v = 0
            for x in g:
                v = v*85+x
            if v > 0xffffffff:
                raise Problem("ASCII85 group overflow")
            out += v.to_bytes(4, "big")
            g = []
    if len(g) == 1:
        raise Problem("ASCII85 final group of one character")
    if g:
        n = len(g)
        v = 0
        for x in g + [84]*(5-n):
            v = v*85+x
        out += (v & 0xffffffff).to_bytes(4, "big")[:n-1] if v <= 0xffffffff else b""
    return bytes(out)


def hexdecode(data):
    h = bytes(c for c in data if c not in _ws)
    if len(h) % 2:
        h += b"0"
    try:
        return binascii.unhexlify(h)
    except binascii.Error as e:
        raise Problem("hexadecimal data: %s" % e)


OPS = {}


def op(*names):
    def f(g):
        for n in names:
            OPS[n] = g
        return g
    return f


def _simple():
    def push(v):
        return lambda ps: ps.stack.append(v() if callable(v) else v)
    OPS["true"], OPS["false"], OPS["null"] = push(True), push(False), push(lambda: None)
    OPS["["] = OPS["mark"] = OPS["<<"] = push(lambda: PSMark)
    OPS["currentfile"] = lambda ps: ps.stack.append(PSFile(ps)) if not ps.inpattern else ps.fail("currentfile used while a pattern is painted")
    OPS["matrix"] = lambda ps: ps.stack.append(list(IDENT))
    OPS["userdict"] = lambda ps: ps.stack.append(ps.user)
    OPS["languagelevel"] = push(3)
    OPS["pop"] = lambda ps: ps.pop()
    OPS["clear"] = lambda ps: ps.stack.clear()
    OPS["count"] = lambda ps: ps.stack.append(len(ps.stack))
    OPS["countdictstack"] = lambda ps: ps.stack.append(len(ps.dicts)+2)
    OPS["bind"] = OPS["readonly"] = OPS["noaccess"] = OPS["executeonly"] = OPS["cvx_none"] = lambda ps: None
    OPS["currentdict"] = lambda ps: ps.stack.append(ps.dicts[-1])
    del OPS["cvx_none"]
    import operator as o

    def ar(f):
        def g(ps):
            a, b = ps.nums(2)
            ps.stack.append(f(a, b))
        return g
    for n, f in (("add", o.add), ("sub", o.sub), ("mul", o.mul), ("div", o.truediv), ("idiv", o.floordiv), ("mod", o.mod)):
        OPS[n] = ar(f)

    def eq(a, b):
        if isinstance(a, (str, PSStr)) and isinstance(b, (str, PSStr)):
            a = a if isinstance(a, str) else a.data.decode("latin-1")
            b = b if isinstance(b, str) else b.data.decode("latin-1")
            return str(a) == str(b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a == b
        return a is b

    def cmp(f):
        def g(ps):
            b, a = ps.pop(), ps.pop()
            ps.stack.append(f(a, b))
        return g
    OPS["eq"], OPS["ne"] = cmp(eq), cmp(lambda a, b: not eq(a, b))
    for n, f in (("gt", o.gt), ("lt", o.lt), ("ge", o.ge), ("le", o.le)):
        OPS[n] = cmp(f)
    OPS["and"], OPS["or"] = cmp(lambda a, b: a & b), cmp(lambda a, b: a | b)
    OPS["not"] = lambda ps: ps.stack.append(not ps.truth())
    OPS["neg"] = lambda ps: ps.stack.append(-ps.num())


_simple()


@op("dup")
def _(ps):
    ps.stack.append(ps.stack[-1])


@op("exch")
def _(ps):
    ps.stack[-1], ps.stack[-2] = ps.stack[-2], ps.stack[-1]


@op("index")
def _(ps):
    ps.stack.append(ps.stack[-1-ps.pop(int)])


@op("copy")
def _(ps):
    n = ps.pop(int)
    if n > len(ps.stack):
        raise ps.problem("copy beyond the stack")
    if n:
        ps.stack += ps.stack[-n:]


@op("roll")
def _(ps):
    j, n = ps.pop(int), ps.pop(int)
    if n > len(ps.stack):
        raise ps.problem("roll beyond the stack")
    if n:
        s = ps.stack[-n:]
        j %= n
        ps.stack[-n:] = s[-j:] + s[:-j] if j else s


@op("]")
def _(ps):
    r = []
    while True:
        v = ps.pop()
        if v is PSMark:
            break
        r.append(v)
    r.reverse()
    ps.stack.append(r)


def key(k):
    return k.data.decode("latin-1") if isinstance(k, PSStr) else str(k) if isinstance(k, str) else k


@op(">>")
def _(ps):
    r = []
    while True:
        v = ps.pop()
        if v is PSMark:
            break
        r.append(v)
    r.reverse()
    if len(r) % 2:
        raise ps.problem("odd number of objects in a dictionary")
    ps.stack.append(PSDict((key(r[i]), r[i+1]) for i in range(0, len(r), 2)))


@op("cleartomark")
def _(ps):
    while ps.pop() is not PSMark:
        pass


@op("dict")
def _(ps):
    ps.pop(int)
    ps.stack.append(PSDict())


@op("array")
def _(ps):
    ps.stack.append([None]*ps.pop(int))


@op("maxlength", "length")
def _(ps):
    v = ps.pop()
    ps.stack.append(len(v.data) if isinstance(v, PSStr) else len(v))


@op("begin")
def _(ps):
    ps.dicts.append(ps.pop(PSDict))


@op("end")
def _(ps):
    if len(ps.dicts) == 1:
        raise ps.problem("end without begin")
    ps.dicts.pop()


@op("def")
def _(ps):
    v = ps.pop()
    k = ps.pop(PSName, PSStr)
    ps.write(ps.dicts[-1], key(k), v)


@op("store")
def _(ps):
    v = ps.pop()
    k = key(ps.pop(PSName, PSStr))
    for d in reversed(ps.dicts):
        if k in d:
            ps.write(d, k, v)
            return
    ps.write(ps.dicts[-1], k, v)


@op("load")
def _(ps):
    k = key(ps.pop(PSName, PSStr))
    v = ps.lookup(k)
    if v is None:
        raise ps.problem("%s is not defined" % k)
    ps.stack.append(v)


@op("where")
def _(ps):
    k = key(ps.pop(PSName, PSStr))
    for d in reversed(ps.dicts):
        if k in d:
            ps.stack += [d, True]
            return
    if k in OPS:
        ps.stack += [PSDict(), True]
    else:
        ps.stack.append(False)


@op("known")
def _(ps):
    k = key(ps.pop())
    ps.stack.append(k in ps.pop(PSDict))


@op("get")
def _(ps):
    k = ps.pop()
    v = ps.pop()
    if isinstance(v, PSDict):
        if key(k) not in v:
            raise ps.problem("no entry %r" % (k,))
        ps.stack.append(v[key(k)])
    else:
        x = v.data if isinstance(v, PSStr) else v
        if not 0 <= k < len(x):
            raise ps.problem("index %r of %d" % (k, len(x)))
        ps.stack.append(x[k])


@op("put")
def _(ps):
    x, k, v = ps.pop(), ps.pop(), ps.pop()
    if isinstance(v, PSDict):
        v[key(k)] = x
    else:
        (v.data if isinstance(v, PSStr) else v)[k] = x


@op("if")
def _(ps):
    p = ps.procedure()
    if ps.truth():
        ps.call(p)


@op("ifelse")
def _(ps):
    q, p = ps.procedure(), ps.procedure()
    ps.call(p if ps.truth() else q)


@op("for")
def _(ps):
    p = ps.procedure()
    a, s, b = ps.nums(3)
    while (a <= b) if s > 0 else (a >= b):
        ps.stack.append(a)
        ps.call(p)
        a += s


@op("repeat")
def _(ps):
    p = ps.procedure()
    for i in range(ps.pop(int)):
        ps.call(p)


@op("forall")
def _(ps):
    p = ps.procedure()
    v = ps.pop()
    if isinstance(v, PSDict):
        for k, x in list(v.items()):
            ps.stack += [PSName(k) if isinstance(k, str) else k, x]
            ps.call(p)
    else:
        for x in (v.data if isinstance(v, PSStr) else list(v)):
            ps.stack.append(x)
            ps.call(p)


@op("exec")
def _(ps):
    v = ps.pop()
    if isinstance(v, PSProc):
        ps.call(v)
    else:
        ps.do(v)


# graphics state

OPS["gsave"] = PS.gsave
OPS["grestore"] = PS.grestore


class PSSave:
    def __init__(self, user):
        self.user = user


@op("save")
def _(ps):
    ps.gsave()
    g = ps.gstack.pop()[1]
    s = PSSave(dict(ps.user))
    ps.gstack.append(("s", g))
    ps.saves.append(s)
    ps.stack.append(s)


@op("restore")
def _(ps):
    s = ps.pop(PSSave)
    if s not in ps.saves:
        raise ps.problem("invalid restore")
    while ps.saves.pop() is not s:
        pass
    n = len(ps.saves)
    # back to the graphics state of that save
    while sum(1 for k, g in ps.gstack if k == "s") > n:
        k, g = ps.gstack.pop()
    ps.gs = g
    ps.user.clear()
    ps.user.update(s.user)


@op("concat")
def _(ps):
    m = ps.matrix()
    ps.gs.ctm = mul(m, ps.gs.ctm)
    if not det(ps.gs.ctm):
        raise ps.problem("singular matrix")


@op("translate")
def _(ps):
    x, y = ps.nums(2)
    ps.gs.ctm = mul((1, 0, 0, 1, x, y), ps.gs.ctm)


@op("scale")
def _(ps):
    x, y = ps.nums(2)
    ps.gs.ctm = mul((x, 0, 0, y, 0, 0), ps.gs.ctm)


@op("rotate")
def _(ps):
    a = math.radians(ps.num())
    ps.gs.ctm = mul((math.cos(a), math.sin(a), -math.sin(a), math.cos(a), 0, 0), ps.gs.ctm)


def setter(name, n=1):
    def f(ps):
        setattr(ps.gs, name, ps.num())
    return f


OPS["setlinewidth"], OPS["setlinecap"], OPS["setlinejoin"], OPS["setmiterlimit"] = map(setter, ("width", "cap", "join", "miter"))
OPS["setstrokeadjust"] = OPS["setoverprint"] = lambda ps: ps.truth()
OPS["setflat"] = lambda ps: ps.num()


@op(".setshapealpha")
def _(ps):
    ps.gs.fillalpha = ps.gs.strokealpha = ps.num()


@op("setdash")
def _(ps):
    o = ps.num()
    a = ps.pop(list)
    if any(x < 0 for x in a):
        raise ps.problem("negative dash")
    ps.gs.dash = (tuple(a), o)


def setcolor(ps, kind, v):
    if not all(-1e-6 <= x <= 1.000001 for x in v):
        raise ps.problem("color %r" % (v,))
    ps.gs.fill = ps.gs.stroke = (kind, tuple(float(x) for x in v))
    ps.gs.fillspace = {"gray": "DeviceGray", "rgb": "DeviceRGB", "cmyk": "DeviceCMYK"}[kind]


OPS["setgray"] = lambda ps: setcolor(ps, "gray", ps.nums(1))
OPS["setrgbcolor"] = lambda ps: setcolor(ps, "rgb", ps.nums(3))
OPS["setcmykcolor"] = lambda ps: setcolor(ps, "cmyk", ps.nums(4))


@op("sethsbcolor")
def _(ps):
    import colorsys
    setcolor(ps, "rgb", colorsys.hsv_to_rgb(*ps.nums(3)))


@op("setcolorspace")
def _(ps):
    v = ps.pop()
    if isinstance(v, list):
        if v[0] == "Indexed":
            n = NCOMP.get(v[1])
            if n is None or not isinstance(v[3], PSStr) or len(v[3].data) != n*(v[2]+1):
                raise ps.problem("palette %r of %r bytes for %s" % (v[2], len(v[3].data), v[1]))
            ps.gs.fillspace = ("Indexed", str(v[1]), v[2], bytes(v[3].data))
        else:
            ps.gs.fillspace = v[0]
    elif v in NCOMP or v == "Pattern":
        ps.gs.fillspace = str(v)
    else:
        raise ps.problem("color space %r" % (v,))


# paths

OPS["newpath"] = lambda ps: setattr(ps.gs, "path", Path())


@op("moveto")
def _(ps):
    (p,) = ps.points(1)
    if ps.gs.path.subs and len(ps.gs.path.subs[-1][0]) == 1 and not ps.gs.path.subs[-1][1]:
        ps.gs.path.subs.pop()
    ps.gs.path.move(*p)


@op("lineto")
def _(ps):
    (p,) = ps.points(1)
    ps.gs.path.line(*p)


@op("curveto")
def _(ps):
    a, b, c = ps.points(3)
    ps.gs.path.curve(*a, *b, *c)


def rel(ps, n):
    x, y = ps.userpoint()
    a = ps.nums(2*n)
    return [apply(ps.gs.ctm, x+a[2*i], y+a[2*i+1]) for i in range(n)]


@op("rmoveto")
def _(ps):
    (p,) = rel(ps, 1)
    if ps.gs.path.subs and len(ps.gs.path.subs[-1][0]) == 1 and not ps.gs.path.subs[-1][1]:
        ps.gs.path.subs.pop()
    ps.gs.path.move(*p)


@op("rlineto")
def _(ps):
    (p,) = rel(ps, 1)
    ps.gs.path.line(*p)


@op("rcurveto")
def _(ps):
    a, b, c = rel(ps, 3)
    ps.gs.path.curve(*a, *b, *c)


def arc(ps, sign):
    x, y, r, a, b = ps.nums(5)
    if sign > 0:
        while b < a:
            b += 360
    else:
        while b > a:
            b -= 360
    m = ps.gs.ctm
    size = max(abs(r)*math.hypot(m[0], m[1]), abs(r)*math.hypot(m[2], m[3]), 1e-9)
    step = math.degrees(math.sqrt(8*0.002/size))
    n = max(2, min(720, int(abs(b-a)/min(20, step))+1))
    pts = [apply(ps.gs.ctm, x+r*math.cos(math.radians(a+(b-a)*i/n)), y+r*math.sin(math.radians(a+(b-a)*i/n))) for i in range(n+1)]
    if ps.gs.path.cur is None:
        ps.gs.path.move(*pts[0])
    else:
        ps.gs.path.line(*pts[0])
    for p in pts[1:]:
        ps.gs.path.line(*p)


OPS["arc"] = lambda ps: arc(ps, 1)
OPS["arcn"] = lambda ps: arc(ps, -1)


@op("arct")
def _(ps):
    x1, y1, x2, y2, r = ps.nums(5)
    x0, y0 = ps.userpoint()
    d1 = (x0-x1, y0-y1)
    d2 = (x2-x1, y2-y1)
    l1, l2 = math.hypot(*d1), math.hypot(*d2)
    cosb = (d1[0]*d2[0]+d1[1]*d2[1])/(l1*l2) if l1*l2 else 1
    if abs(cosb) > 1-1e-9:
        ps.gs.path.line(*apply(ps.gs.ctm, x1, y1))
        return
    beta = math.acos(cosb)
    t = r/math.tan(beta/2)
    t1 = (x1+d1[0]/l1*t, y1+d1[1]/l1*t)
    t2 = (x1+d2[0]/l2*t, y1+d2[1]/l2*t)
    bis = (d1[0]/l1+d2[0]/l2, d1[1]/l1+d2[1]/l2)
    lb = math.hypot(*bis)
    c = (x1+bis[0]/lb*r/math.sin(beta/2), y1+bis[1]/lb*r/math.sin(beta/2))
    a1 = math.atan2(t1[1]-c[1], t1[0]-c[0])
    a2 = math.atan2(t2[1]-c[1], t2[0]-c[0])
    da = (a2-a1+math.pi) % (2*math.pi) - math.pi
    for i in range(25):
        a = a1+da*i/24
        ps.gs.path.line(*apply(ps.gs.ctm, c[0]+abs(r)*math.cos(a), c[1]+abs(r)*math.sin(a)))


OPS["closepath"] = lambda ps: ps.gs.path.close()


def fill(ps, eo):
    ps.marks.append(Mark("fill", path=ps.gs.path.shape(), clip=ps.gs.clip, rule=eo, color=ps.gs.fill, alpha=ps.gs.fillalpha))
    ps.gs.path = Path()


OPS["fill"] = lambda ps: fill(ps, False)
OPS["eofill"] = lambda ps: fill(ps, True)


@op("stroke")
def _(ps):
    ps.marks.append(strokemark(ps.gs, ps.gs.path.shape(), ps.gs.stroke, ps.gs.strokealpha))
    ps.gs.path = Path()


OPS["clip"] = lambda ps: setattr(ps.gs, "clip", ps.gs.clip + ((ps.gs.path.shape(), False),))
OPS["eoclip"] = lambda ps: setattr(ps.gs, "clip", ps.gs.clip + ((ps.gs.path.shape(), True),))


@op("rectclip")
def _(ps):
    x, y, w, h = ps.nums(4)
    p = Path()
    p.move(*apply(ps.gs.ctm, x, y))
    for a, b in ((x+w, y), (x+w, y+h), (x, y+h)):
        p.line(*apply(ps.gs.ctm, a, b))
    p.close()
    ps.gs.clip = ps.gs.clip + ((p.shape(), False),)
    ps.gs.path = Path()


@op("showpage")
def _(ps):
    ps.pages.append(ps.marks)
    ps.marks = []
    ps.gs = State()
    ps.gs.path = Path()


# fonts

class PSFont(PSDict):
    pass


@op("findfont")
def _(ps):
    n = key(ps.pop(PSName))
    if n not in ps.fontdir:
        if n in STDFONTS:
            f = PSDict({"FontName": PSName(n), "FontMatrix": [0.001, 0, 0, 0.001, 0, 0], "Encoding": None, "FID": 0, "%t1": None, "%base": n})
            ps.fontdir[n] = f
        else:
            raise ps.problem("font %s is not defined" % n)
    ps.stack.append(ps.fontdir[n])


@op("definefont")
def _(ps):
    f = ps.pop(PSDict)
    n = ps.pop(PSName)
    if "FontMatrix" not in f or "%base" not in f:
        raise ps.problem("definefont of a dictionary which is no font")
    f = PSDict(f)
    f["FID"] = 0
    ps.fontdir[key(n)] = f
    ps.stack.append(f)


@op("selectfont")
def _(ps):
    s = ps.num()
    n = ps.pop(PSName)
    ps.stack.append(n)
    OPS["findfont"](ps)
    ps.gs.font, ps.gs.size = ps.stack.pop(), s


@op("setfont")
def _(ps):
    ps.gs.font, ps.gs.size = ps.pop(PSDict), 1


@op("scalefont")
def _(ps):
    s = ps.num()
    f = PSDict(ps.pop(PSDict))
    f["FontMatrix"] = [x*s for x in f["FontMatrix"]]
    ps.stack.append(f)


@op("makefont")
def _(ps):
    m = ps.matrix()
    f = PSDict(ps.pop(PSDict))
    f["FontMatrix"] = list(mul(tuple(f["FontMatrix"]), m))
    ps.stack.append(f)


@op("eexec")
def _(ps):
    """an embedded Type 1 font program"""
    ps.pop(PSFile)
    d = ps.data
    start = d.rfind(b"%!", 0, ps.p)
    e = d.find(b"cleartomark", ps.p)
    z = re.compile(rb"(?:[\r\n \t]*0){512}[\r\n \t]*cleartomark").search(d, ps.p)
    if start < 0 or not z:
        raise ps.problem("font program without end")
    cipher = hexdecode(d[ps.p:z.start()])
    t1 = Type1.of(d[start:ps.p], cipher)
    ps.p = z.end()
    # what the font program does: define the font of the dictionary on the stack
    f = ps.pop(PSDict)
    if str(f.get("FontName")) != t1.name:
        raise ps.problem("eexec without a font dictionary")
    ps.fontdir[t1.name] = PSDict({"FontName": PSName(t1.name), "FontMatrix": list(t1.matrix), "FID": 0, "%t1": t1, "%base": t1.name,
                                  "Encoding": [PSName(x) for x in t1.encoding]})


@op("StandardEncoding")
def _(ps):
    ps.stack.append([PSName(STANDARD.get(i, ".notdef")) for i in range(256)])


@op("show")
def _(ps):
    s = ps.pop(PSStr)
    f = ps.gs.font
    if f is None:
        raise ps.problem("show without a font")
    if ps.gs.path.cur is None:
        raise ps.problem("show without a current point")
    fm = tuple(f["FontMatrix"])
    t1 = f["%t1"]
    base = t1.matrix if t1 else (0.001, 0, 0, 0.001, 0, 0)
    # the glyph coordinate system is 1/1000 em as in PDF
    gm = mul(invert(mul(base, (1000, 0, 0, 1000, 0, 0))), mul(fm, (1000, 0, 0, 1000, 0, 0)))
    gm = mul(gm, (ps.gs.size, 0, 0, ps.gs.size, 0, 0))
    x, y = ps.userpoint()
    if not hasattr(ps, "runs"):
        ps.runs = 0
    for n, c in enumerate(s.data):
        g = c
        if f["Encoding"] is not None:
            if c >= len(f["Encoding"]):
                raise ps.problem("character %d is not in the encoding of %s" % (c, f["FontName"]))
            g = str(f["Encoding"][c])
        w = 500
        if t1 is not None:
            if g not in t1.glyphs:
                raise ps.problem("glyph %s is not in font %s" % (g, f["FontName"]))
            w = t1.width(g)
        m = mul(gm, mul((1, 0, 0, 1, x, y), ps.gs.ctm))
        ps.marks.append(Mark("glyph", font=f["%base"], glyph=g, matrix=m, color=ps.gs.fill, alpha=ps.gs.fillalpha, clip=ps.gs.clip, n=n, t1=t1))
        dx, dy = w*fm[0]*ps.gs.size, w*fm[1]*ps.gs.size
        x, y = x+dx, y+dy
    ps.gs.path.move(*apply(ps.gs.ctm, x, y))


# patterns, images, shadings

@op("makepattern")
def _(ps):
    m = ps.matrix()
    d = PSDict(ps.pop(PSDict))
    for k in ("PatternType", "PaintType", "TilingType", "BBox", "XStep", "YStep", "PaintProc"):
        if k not in d:
            raise ps.problem("pattern without %s" % k)
    d["%matrix"] = mul(m, ps.gs.ctm)
    d.readonly = True
    ps.stack.append(d)


@op("setpattern")
def _(ps):
    d = ps.pop(PSDict)
    if "%matrix" not in d:
        raise ps.problem("setpattern without makepattern")
    if "%marks" not in d:
        # the paint procedure runs in its own graphics state
        gs, marks, n = ps.gs, ps.marks, len(ps.stack)
        ng = len(ps.gstack)
        ps.gs = State()
        ps.gs.path = Path()
        ps.marks = []
        ps.stack.append(d)
        ps.inpattern += 1
        ps.call(d["PaintProc"])
        ps.inpattern -= 1
        if len(ps.stack) != n or len(ps.gstack) != ng:
            raise ps.problem("the pattern procedure leaves its stacks changed")
        d["%marks"] = ps.marks
        ps.gs, ps.marks = gs, marks
    bb = d["BBox"]
    if not (bb[0] < bb[2] and bb[1] < bb[3]) or not d["XStep"] or not d["YStep"]:
        raise ps.problem("pattern with box %r and steps %r %r" % (bb, d["XStep"], d["YStep"]))
    ps.gs.fill = ps.gs.stroke = ("pattern", "ps", {"paint": d["PaintType"], "tiling": d["TilingType"], "bbox": tuple(bb), "xstep": d["XStep"],
                                                   "ystep": d["YStep"], "matrix": d["%matrix"], "marks": d["%marks"]})


@op("filter")
def _(ps):
    n = key(ps.pop(PSName))
    src = ps.pop()
    if isinstance(src, PSDict):
        src = ps.pop()
    if not isinstance(src, (PSFile, PSFilter, PSStr, PSProc)):
        raise ps.problem("filter on %r" % (src,))
    ps.stack.append(PSFilter(src, n))


@op("image")
def _(ps):
    d = ps.pop(PSDict)
    alpha = None
    masked = False
    if d.get("ImageType") == 3:
        mask = d["MaskDict"]
        if d.get("InterleaveType") != 1 or list(mask["Decode"]) != [1, 0]:
            raise ps.problem("image mask %r" % mask)
        d = d["DataDict"]
        masked = True
        if (mask["Width"], mask["Height"], mask["BitsPerComponent"]) != (d["Width"], d["Height"], d["BitsPerComponent"]):
            raise ps.problem("image mask of another size")
        if list(mask["ImageMatrix"]) != list(d["ImageMatrix"]):
            raise ps.problem("image mask at another place")
    elif d.get("ImageType") != 1:
        raise ps.problem("image type %r" % d.get("ImageType"))
    w, h = d["Width"], d["Height"]
    space = ps.gs.fillspace
    pal = None
    if isinstance(space, tuple):
        pal, mode, nc = (space[1], space[3]), "P", 1
    else:
        mode, nc = space, NCOMP[space]
    dec = list(d["Decode"])
    if dec != ([0, 255] if pal else [0, 1]*nc):
        raise ps.problem("decode %r" % dec)
    n = nc + masked
    ps.dct = False
    ps.wanted = w*h*n
    data = ps.source(d["DataSource"], "image")
    if ps.dct:
        if data[:2] != b"\xff\xd8" or data[-2:] != b"\xff\xd9":
            raise ps.problem("no JPEG data")
    else:
        if d["BitsPerComponent"] != 8:
            raise ps.problem("%r bits per component" % d["BitsPerComponent"])
        if len(data) != w*h*n:
            raise ps.problem("image of %dx%d pixels with %d components has %d bytes" % (w, h, n, len(data)))
        if masked:
            alpha = bytes(data[::n])
            data = bytes(c for i, c in enumerate(data) if i % n)
        if pal and data and max(data) > space[2]:
            raise ps.problem("pixel beyond the palette")
    m = mul(invert(tuple(d["ImageMatrix"])), ps.gs.ctm)      # image space (w x h, y down) to device
    # to the unit square with y up, as in PDF
    m = mul((w, 0, 0, -h, 0, h), m)
    ps.marks.append(Mark("image", size=(w, h), mode=mode, data=bytes(data), alpha8=alpha, palette=pal, matrix=m, clip=ps.gs.clip, alpha=ps.gs.fillalpha))


@op("shfill")
def _(ps):
    d = ps.pop(PSDict)
    if d.get("ShadingType") != 4 or (d["BitsPerCoordinate"], d["BitsPerComponent"], d["BitsPerFlag"]) != (24, 8, 8):
        raise ps.problem("shading %r" % d)
    nc = NCOMP[d["ColorSpace"]]
    if len(d["Decode"]) != 4+2*nc:
        raise ps.problem("shading decode %r" % d["Decode"])
    data = ps.source(d["DataSource"], "shading")
    ps.marks.append(Mark("shade", space=str(d["ColorSpace"]), verts=meshverts(data, d["Decode"], nc, ps.gs.ctm, "shading"), clip=ps.gs.clip, alpha=ps.gs.fillalpha))


# document structuring comments

def dsc(data, eps):
    """checks the comment structure; [(label, ordinal)] of the pages"""
    lines = re.split(rb"\r\n|\r|\n", data)
    if not lines[0].startswith(b"%!PS-Adobe-3.0"):
        raise Problem("first line %r" % lines[0])
    if eps and not lines[0].startswith(b"%!PS-Adobe-3.0 EPSF-3.0"):
        raise Problem("no EPS header: %r" % lines[0])
    if lines[-1] == b"":
        lines.pop()
    if lines[-1] != b"%%EOF":
        raise Problem("last line %r" % lines[-1])
    section = "header"
    pages, stack = [], []
    header = {}
    i = 1
    order = ["header", "prolog", "endprolog", "page", "trailer"]
    while i < len(lines):
        l = lines[i]
        if stack and stack[-1][0] == b"BeginDocument" and not l.startswith((b"%%EndDocument", b"%%BeginDocument")):
            i += 1
            continue
        if stack and stack[-1][0] == b"BeginFont" and l != b"%%EndFont":
            i += 1
            continue
        if section == "header" and l[:2] not in (b"%%", b"%!") and not l.startswith(b"%"):
            raise Problem("line %d of the header: %r" % (i+1, l))
        if l.startswith(b"%%") and l[2:3].isalpha():
            k, _, v = l[2:].partition(b":")
            k = k.strip()
            if k == b"EndComments":
                if section != "header":
                    raise Problem("line %d: %r" % (i+1, l))
                section = "body"
            elif section == "header":
                if k in header and k != b"Title":
                    raise Problem("header comment %s twice" % k.decode())
                header[k] = v.strip()
            elif k in (b"BeginProlog", b"BeginSetup", b"BeginPageSetup", b"BeginResource", b"BeginRessource", b"BeginFont", b"BeginDocument", b"BeginProcSet", b"BeginDefaults"):
                stack.append((k, i+1))
            elif k == b"BeginData":
                m = re.match(rb"\s*(\d+)\s+(\w+)\s+(Lines|Bytes)$", v)
                if not m:
                    raise Problem("line %d: %r" % (i+1, l))
                n = int(m.group(1))
                j = i+1+n
                if m.group(3) != b"Lines" or j >= len(lines) or lines[j] != b"%%EndData":
                    e = next((x for x in range(i, len(lines)) if lines[x] == b"%%EndData"), None)
                    raise Problem("line %d: %r, but EndData follows after %r lines" % (i+1, l, e and e-i-1))
                i = j
            elif k.startswith(b"End") and k != b"EndComments":
                if not stack or stack[-1][0][5:] != k[3:]:
                    raise Problem("line %d: %r inside of %r" % (i+1, l, stack[-1:]))
                stack.pop()
                if k == b"EndProlog":
                    section = "pages"
            elif k == b"Page":
                if stack or section == "body":
                    raise Problem("line %d: page inside of %r" % (i+1, stack))
                m = re.match(rb"\s*(\(.*\)|\S+)\s+(\d+)$", v)
                if not m:
                    raise Problem("line %d: %r" % (i+1, l))
                pages.append((m.group(1), int(m.group(2))))
                if pages[-1][1] != len(pages):
                    raise Problem("page %d is number %d" % (len(pages), pages[-1][1]))
            elif k == b"Trailer":
                if stack:
                    raise Problem("trailer inside of %r" % stack)
                section = "trailer"
            elif k == b"EOF" and i != len(lines)-1:
                raise Problem("EOF comment in line %d of %d" % (i+1, len(lines)))
            elif k == b"EndData":
                raise Problem("line %d: EndData" % (i+1))
        i += 1
    if stack:
        raise Problem("%r is not ended" % (stack,))
    if section != "trailer":
        raise Problem("no trailer")
    if not eps and header.get(b"Pages") != b"%d" % len(pages):
        raise Problem("%r pages in the header, %d pages" % (header.get(b"Pages"), len(pages)))
    for k in (b"BoundingBox", b"HiResBoundingBox"):
        if k in header:
            b = [float(x) for x in header[k].split()]
            if len(b) != 4 or b[0] > b[2] or b[1] > b[3]:
                raise Problem("%s %r" % (k.decode(), header[k]))
    for k in header:
        if any(c < 32 or c > 126 for c in header[k]):
            raise Problem("header comment %s: %r" % (k.decode(), header[k]))
    return header, pages


# ---------------------------------------------------------------------------
# SVG

_SVG = "{http://www.w3.org/2000/svg}"
_XLINK = "{http://www.w3.org/1999/xlink}"
_snum = re.compile(r"[+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?")
FLIP = (1.0, 0.0, 0.0, -1.0, 0.0, 0.0)

# allowed attributes of the elements
SVGATTRS = {
    "svg": {"version", "viewBox", "x", "y", "width", "height"},
    "defs": set(), "g": {"clip-path", "transform", "opacity"},
    "path": {"d", "transform", "opacity", "clip-path"},
    "image": {"preserveAspectRatio", "x", "y", "width", "height", _XLINK + "href", "transform", "opacity", "clip-path"},
    "text": {"x", "y", "font-size", "font-family", "opacity", "transform", "{http://www.w3.org/XML/1998/namespace}space"},
    "tspan": {"dx"},
    "clipPath": {"id"},
    "pattern": {"id", "patternUnits", "viewBox", "width", "height", "patternTransform", "x", "y"},
    "font": {"id", "horiz-adv-x"}, "font-face": {"font-family", "units-per-em"},
    "glyph": {"unicode", "horiz-adv-x", "d", "glyph-name"},
}
_SVGCOLORS = {"black": (0.0, 0.0, 0.0), "white": (1.0, 1.0, 1.0), "red": (1.0, 0.0, 0.0), "lime": (0.0, 1.0, 0.0), "blue": (0.0, 0.0, 1.0)}
SVGSTYLES = {"fill", "fill-opacity", "stroke-opacity", "opacity", "stroke", "stroke-width", "stroke-linecap", "stroke-linejoin", "stroke-miterlimit", "stroke-dasharray",
             "stroke-dashoffset", "fill-rule"}


def svgnums(s, n, what):
    t = s.strip()
    r = []
    p = 0
    while p < len(t):
        m = _snum.match(t, p)
        if not m:
            raise Problem("SVG %s: %r is no list of numbers" % (what, s))
        r.append(float(m.group()))
        p = m.end()
        m = re.compile(r"\s*,?\s*").match(t, p)
        p = m.end()
    if n is not None and len(r) != n:
        raise Problem("SVG %s: %r has not %d numbers" % (what, s, n))
    return r


def svgpath(d, m):
    """Path of SVG path data, transformed by m"""
    path = Path()
    p = 0
    cmd = None
    x = y = sx = sy = 0.0
    sep = re.compile(r"[\s,]*")
    flag = re.compile(r"[01]")

    def number(rx=_snum):
        nonlocal p
        p = sep.match(d, p).end()
        mm = rx.match(d, p)
        if not mm:
            raise Problem("SVG path data: number expected at %r" % d[p:p+20])
        p = mm.end()
        return float(mm.group())
    first = True
    after = False       # after closepath
    while True:
        p = sep.match(d, p).end()
        if p >= len(d):
            break
        if d[p] in "MmLlHhVvCcSsQqTtAaZz":
            cmd = d[p]
            p += 1
        elif cmd is None or cmd in "Zz":
            raise Problem("SVG path data: command expected at %r" % d[p:p+20])
        if first and cmd not in "Mm":
            raise Problem("SVG path data starts with %s" % cmd)
        rel = cmd.islower()
        k = cmd.upper()
        ox, oy = (x, y) if rel else (0.0, 0.0)
        if k == "M":
            x, y = number()+ox, number()+oy
            sx, sy = x, y
            path.move(*apply(m, x, y))
            cmd = "l" if rel else "L"
        elif k == "Z":
            path.close()
            x, y = sx, sy
        elif k in "LHV":
            if k == "L":
                x, y = number()+ox, number()+oy
            elif k == "H":
                x = number()+ox
            else:
                y = number()+oy
            path.line(*apply(m, x, y))
        elif k == "C":
            a = [number() + (ox, oy)[i % 2] for i in range(6)]
            path.curve(*apply(m, a[0], a[1]), *apply(m, a[2], a[3]), *apply(m, a[4], a[5]))
            x, y = a[4], a[5]
        elif k == "A":
            rx, ry, phi = number(), number(), number()
            large, sweep = number(flag), number(flag)
            x2, y2 = number()+ox, number()+oy
            for px, py in svgarc(x, y, rx, ry, phi, large, sweep, x2, y2):
                path.line(*apply(m, px, py))
            x, y = x2, y2
        else:
            raise Problem("SVG path data: unsupported command %s" % cmd)
        first = False
    return path


def svgarc(x1, y1, rx, ry, phi, large, sweep, x2, y2):
    """points of an elliptical arc (SVG implementation notes F.6)"""
    rx, ry = abs(rx), abs(ry)
    if (x1, y1) == (x2, y2):
        return []
    if not rx or not ry:
        return [(x2, y2)]
    f = math.radians(phi)
    c, s = math.cos(f), math.sin(f)
    dx, dy = (x1-x2)/2, (y1-y2)/2
    xp, yp = c*dx+s*dy, -s*dx+c*dy
    lam = xp*xp/rx/rx+yp*yp/ry/ry
    if lam > 1:
        rx *= math.sqrt(lam)
        ry *= math.sqrt(lam)
    num = max(0, rx*rx*ry*ry-rx*rx*yp*yp-ry*ry*xp*xp)
    den = rx*rx*yp*yp+ry*ry*xp*xp
    k = math.sqrt(num/den) if den else 0
    if bool(large) == bool(sweep):
        k = -k
    cxp, cyp = k*rx*yp/ry, -k*ry*xp/rx
    cx, cy = c*cxp-s*cyp+(x1+x2)/2, s*cxp+c*cyp+(y1+y2)/2
    t1 = math.atan2((yp-cyp)/ry, (xp-cxp)/rx)
    t2 = math.atan2((-yp-cyp)/ry, (-xp-cxp)/rx)
    dt = t2-t1
    if sweep and dt < 0:
        dt += 2*math.pi
    if not sweep and dt > 0:
        dt -= 2*math.pi
    n = max(8, min(720, int(abs(dt)/math.sqrt(8*0.002/max(rx, ry)))+1))
    r = []
    for i in range(1, n):
        t = t1+dt*i/n
        a, b = rx*math.cos(t), ry*math.sin(t)
        r.append((cx+c*a-s*b, cy+s*a+c*b))
    return r+[(x2, y2)]


class SVG:
    """marks of an SVG document; coordinates with y up"""

    def __init__(self, data):
        try:
            self.root = ET.fromstring(data)
        except ET.ParseError as e:
            raise Problem("SVG is not well-formed: %s" % e)
        if not data.startswith(b"<?xml") or not data.endswith(b"\n"):
            raise Problem("SVG: starts with %r, ends with %r" % (data[:20], data[-20:]))
        if self.root.tag != _SVG+"svg":
            raise Problem("SVG: root element %s" % self.root.tag)
        self.ids = {}
        self.fonts = {}
        self.depth = 0
        self.pats = {}
        for e in self.root.iter():
            if not e.tag.startswith(_SVG) or e.tag[len(_SVG):] not in SVGATTRS:
                raise Problem("SVG: unexpected element %s" % e.tag)
            n = e.tag[len(_SVG):]
            for a in e.attrib:
                if a not in SVGATTRS[n] and a not in SVGSTYLES:
                    raise Problem("SVG: unexpected attribute %s of %s" % (a, n))
            i = e.get("id")
            if i is not None:
                if i in self.ids:
                    raise Problem("SVG: id %s twice" % i)
                self.ids[i] = e
            if n not in ("text", "tspan") and (e.text or "").strip() or n != "tspan" and (e.tail or "").strip():
                raise Problem("SVG: stray text %r" % ((e.text or "")+(e.tail or "")))
        for e in self.root.iter(_SVG+"font"):
            ff = e.find(_SVG+"font-face")
            if ff is None:
                raise Problem("SVG: font without font-face")
            fam = ff.get("font-family")
            if fam in self.fonts:
                raise Problem("SVG: font %s twice" % fam)
            g = {}
            for x in e.findall(_SVG+"glyph"):
                u = x.get("unicode")
                if not u:
                    raise Problem("SVG: glyph of font %s without character" % fam)
                v = (svgpath(x.get("d"), IDENT).shape() if x.get("d") else (), float(x.get("horiz-adv-x")))
                if g.setdefault(u, v) != v:
                    raise Problem("SVG: two glyphs of font %s for %r" % (fam, u))
            self.fonts[fam] = g
        self.header()

    def header(self):
        r = self.root
        self.box = None
        if "viewBox" in r.attrib:
            x, y, w, h = svgnums(r.get("viewBox"), 4, "viewBox")
            if w < 0 or h < 0:
                raise Problem("SVG: viewBox %s" % r.get("viewBox"))
            for n, v in (("width", w), ("height", h)):
                m = re.match(r"([-+0-9.eE]+)pt$", r.get(n, ""))
                if not m or abs(float(m.group(1))-v) > 1e-3+1e-5*abs(v):
                    raise Problem("SVG: %s %r and viewBox %r" % (n, r.get(n), r.get("viewBox")))
            self.box = (x, -y-h, x+w, -y)

    def page(self):
        gs = State()
        gs.ctm = FLIP
        gs.fill = ("gray", (0.0,))
        gs.stroke = None
        gs.rule = False
        gs.dashes = ((), 0.0)
        gs.miter = 4.0
        gs.width = 1.0
        self.style(self.root, gs)
        marks = []
        self.children(self.root, gs, marks)
        return marks

    def ref(self, v, tag):
        m = re.match(r"url\(#([^)]+)\)$", v)
        if not m or m.group(1) not in self.ids or self.ids[m.group(1)].tag != _SVG+tag:
            raise Problem("SVG: reference %s to a %s" % (v, tag))
        return self.ids[m.group(1)]

    def paint(self, v, gs):
        if v == "none":
            return None
        m = re.match(r"#([0-9a-fA-F]{2})([0-9a-fA-F]{2})([0-9a-fA-F]{2})$", v)
        if m:
            return ("rgb", tuple(int(x, 16)/255.0 for x in m.groups()))
        m = re.match(r"#([0-9a-fA-F])([0-9a-fA-F])([0-9a-fA-F])$", v)
        if m:
            return ("rgb", tuple(int(x, 16)/15.0 for x in m.groups()))
        if v in _SVGCOLORS:
            return ("rgb", _SVGCOLORS[v])
        return ("pattern", "svg", self.pattern(self.ref(v, "pattern")))

    def pattern(self, e):
        i = e.get("id")
        if i in self.pats:
            return self.pats[i]
        self.depth += 1
        if self.depth > 8:
            raise Problem("SVG: recursive pattern")
        if e.get("patternUnits") != "userSpaceOnUse":
            raise Problem("SVG: patternUnits %r" % e.get("patternUnits"))
        x, y, w, h = svgnums(e.get("viewBox", ""), 4, "pattern viewBox")
        if not (w > 0 and h > 0):
            raise Problem("SVG: pattern with viewBox %s" % e.get("viewBox"))
        pw, ph = float(e.get("width")), float(e.get("height"))
        px, py = float(e.get("x", 0)), float(e.get("y", 0))
        if abs(pw-w) > 1e-9*w or abs(ph-h) > 1e-9*h:
            raise Problem("SVG: scaled pattern")
        gs = State()
        # from the pattern content (y down) to pattern space (y up)
        gs.ctm = mul((1, 0, 0, 1, px-x, py-y), FLIP)
        gs.fill = ("gray", (0.0,))
        gs.stroke = None
        gs.rule = False
        gs.miter, gs.width = 4.0, 1.0
        self.style(self.root, gs)
        marks = []
        self.children(e, gs, marks)
        pt = e.get("patternTransform")
        m = self.transform(pt) if pt else IDENT
        m = mul(mul(FLIP, m), FLIP)
        self.pats[i] = {"bbox": (x, -y-h, x+w, -y), "xstep": pw, "ystep": ph, "matrix": m, "marks": marks}
        self.depth -= 1
        return self.pats[i]

    def transform(self, v):
        m = re.match(r"matrix\(([^()]*)\)$", v)
        if not m:
            raise Problem("SVG: transform %s" % v)
        return tuple(svgnums(m.group(1), 6, "transform"))

    def style(self, e, gs):
        a = e.attrib
        for n in SVGSTYLES:
            if n not in a:
                continue
            v = a[n]
            if n == "fill":
                gs.fill = self.paint(v, gs)
            elif n == "stroke":
                gs.stroke = self.paint(v, gs)
            elif n == "fill-rule":
                gs.rule = {"nonzero": False, "evenodd": True}[v]
            elif n == "stroke-width":
                gs.width = float(v)
            elif n == "stroke-linecap":
                gs.cap = ("butt", "round", "square").index(v)
            elif n == "stroke-linejoin":
                gs.join = ("miter", "round", "bevel").index(v)
            elif n == "stroke-miterlimit":
                gs.miter = float(v)
            elif n == "stroke-dasharray":
                d = () if v == "none" else tuple(svgnums(v, None, "dash"))
                if any(x < 0 for x in d):
                    raise Problem("SVG: dash %s" % v)
                gs.dash = (d, gs.dash[1])
            elif n == "stroke-dashoffset":
                gs.dash = (gs.dash[0], float(v))
            elif n in ("opacity", "fill-opacity", "stroke-opacity"):
                o = float(v)
                if not 0 <= o <= 1:
                    raise Problem("SVG: %s %s" % (n, v))
                if n == "opacity":
                    gs.fillalpha *= o
                    gs.strokealpha *= o
                elif n == "fill-opacity":
                    gs.fop = o
                else:
                    gs.sop = o
        if "transform" in a:
            gs.ctm = mul(self.transform(a["transform"]), gs.ctm)
        if "clip-path" in a:
            c = self.ref(a["clip-path"], "clipPath")
            ps = list(c)
            if len(ps) != 1 or ps[0].tag != _SVG+"path":
                raise Problem("SVG: clipPath of %d elements" % len(ps))
            gs.clip = gs.clip + ((svgpath(ps[0].get("d"), gs.ctm).shape(), False),)

    def children(self, e, gs, marks):
        for x in e:
            n = x.tag[len(_SVG):]
            if n == "defs":
                continue
            g = gs.copy()
            try:
                self.style(x, g)
            except (KeyError, ValueError) as err:
                raise Problem("SVG: %s: %s of %r" % (type(err).__name__, err, x.attrib))
            if n == "g":
                self.children(x, g, marks)
                continue
            if n not in ("text",) and len(x):
                raise Problem("SVG: %s with children" % n)
            if n == "path":
                sh = svgpath(x.get("d"), g.ctm).shape()
                if g.fill is not None:
                    marks.append(Mark("fill", path=sh, clip=g.clip, rule=g.rule, color=g.fill, alpha=g.fillalpha*g.fop))
                if g.stroke is not None:
                    gg = g.copy()
                    gg.ctm = mul(FLIP, g.ctm)
                    marks.append(strokemark(gg, sh, g.stroke, g.strokealpha*g.sop))
            elif n == "image":
                marks.append(self.image(x, g))
            elif n == "text":
                self.text(x, g, marks)
            else:
                raise Problem("SVG: %s is no drawing" % n)

    def image(self, e, gs):
        import base64
        import io
        from PIL import Image
        x, y, w, h = (float(e.get(k)) for k in ("x", "y", "width", "height"))
        if e.get("preserveAspectRatio") != "none":
            raise Problem("SVG: image keeps its aspect ratio")
        m = re.match(r"data:image/(png|jpeg);base64,([A-Za-z0-9+/=]*)$", e.get(_XLINK+"href", ""))
        if not m:
            raise Problem("SVG: image %r" % e.get(_XLINK+"href", "")[:40])
        raw = base64.b64decode(m.group(2), validate=True)
        im = Image.open(io.BytesIO(raw))
        if im.format != {"png": "PNG", "jpeg": "JPEG"}[m.group(1)]:
            raise Problem("SVG: %s image in %s format" % (m.group(1), im.format))
        im.load()
        alpha = pal = None
        if im.format == "JPEG":
            mode, data = {"L": "DeviceGray", "RGB": "DeviceRGB", "CMYK": "DeviceCMYK"}[im.mode], raw
        else:
            mm = im.mode
            if mm == "1":
                im, mm = im.convert("L"), "L"
            if mm == "P":
                mode, data, pal = "P", im.tobytes(), ("DeviceRGB", bytes(im.getpalette()))
            else:
                if mm in ("LA", "RGBA"):
                    alpha = im.getchannel("A").tobytes()
                    im = Image.merge("RGB", im.split()[:3]) if mm == "RGBA" else im.getchannel("L")
                mode, data = {"L": "DeviceGray", "RGB": "DeviceRGB"}[im.mode], im.tobytes()
        # the unit square with y up, as in PDF
        mat = mul((w, 0, 0, -h, x, y+h), gs.ctm)
        return Mark("image", size=im.size, mode=mode, data=data, alpha8=alpha, palette=pal, matrix=mat, clip=gs.clip, alpha=gs.fillalpha)

    def text(self, e, gs, marks):
        fam = e.get("font-family")
        x, y, size = (float(e.get(k)) for k in ("x", "y", "font-size"))
        runs = [(0.0, e.text or "")]
        for t in e:
            if t.tag != _SVG+"tspan" or len(t):
                raise Problem("SVG: %s inside of text" % t.tag)
            runs.append((float(t.get("dx", 0)), t.text or ""))
            if t.tail:
                # not nested: continues the line
                runs.append((0.0, t.tail))
        if gs.fill is None:
            raise Problem("SVG: text without fill color")
        font = self.fonts.get(fam)
        chars = "".join(r[1] for r in runs)
        if font is not None:
            known = set("".join(font))
            for c in chars:
                if c not in known:
                    raise Problem("SVG: character %r is not in font %s" % (c, fam))
        m = mul((size, 0, 0, -size, x, y), gs.ctm)
        # white space is collapsed
        keep = e.get("{http://www.w3.org/XML/1998/namespace}space") == "preserve"
        shapes = [] if font is not None and (keep or chars == re.sub("  +", " ", chars.strip(" \t\n").replace("\n", "").replace("\t", " "))) else None
        if shapes is not None and size:
            at = 0.0
            for dx, s in runs:
                at += dx/size
                i = 0
                while i < len(s):
                    # the first glyph which fits
                    u = next(u for u in font if s.startswith(u, i))
                    shapes += [(tuple(apply(m, px*0.001+at, py*0.001) for px, py in pts), c) for pts, c in font[u][0]]
                    at += font[u][1]*0.001
                    i += len(u)
        marks.append(Mark("text", font=fam, text=chars, matrix=m, color=gs.fill, alpha=gs.fillalpha*gs.fop, clip=gs.clip, shapes=shapes))
