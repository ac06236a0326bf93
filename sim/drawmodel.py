"""What a drawing of drawing.gen(simple=True) shows: an independent model.

The description is evaluated without the code under test: nested canvases with
transformations, clipping and styles, layers, shared items, strokes and fills,
their colors, pens and geometry, bitmaps, the extents and the place on the
page.  The result is a list of paint.Mark, which is compared with what the
written files show.
"""

import cmath
import colorsys
import math

from . import paint

CM = 72/2.54
IDENT = (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)
NAMED = {"rgb.red": ("rgb", (1.0, 0.0, 0.0)), "rgb.green": ("rgb", (0.0, 1.0, 0.0)), "cmyk.NavyBlue": ("cmyk", (0.94, 0.54, 0.0, 0.0)),
         "gray.black": ("gray", (0.0,)), "cmyk.Apricot": ("cmyk", (0.0, 0.32, 0.52, 0.0)), "grey.white": ("gray", (1.0,))}
WIDTHS = {"THIN": -5, "Thin": -2, "thin": -1, "normal": 0, "thick": 1, "Thick": 2, "THICK": 6}
LINESTYLES = {"solid": (0, []), "dashed": (0, [2]), "dotted": (1, [0, 2]), "dashdotted": (1, [0, 2, 2, 2])}
NORMAL = 0.02*CM
PAPER = {"A0b": (910, 1370), "A3": (297, 420), "A4": (210, 297), "A5": (148.5, 210), "Letter": (215.9, 279.4), "own": (120, 150)}


CLEAR = {"color": ("hsb", "gray", "rgb", "cmyk", "named"), "linewidth": ("lw", "lwu"), "linecap": ("cap",), "linejoin": ("join",), "miterlimit": ("miter",),
         "dash": ("dash",), "linestyle": ("ls",), "fillrule": ("rule",), "stroked": ("stroked",), "filled": ("filled",)}


def mul(m, n):
    """first m, then n"""
    return (m[0]*n[0]+m[1]*n[2], m[0]*n[1]+m[1]*n[3], m[2]*n[0]+m[3]*n[2], m[2]*n[1]+m[3]*n[3],
            m[4]*n[0]+m[5]*n[2]+n[4], m[4]*n[1]+m[5]*n[3]+n[5])


def trafo(a, u):
    k = a[0]
    if k == "translate":
        return (1, 0, 0, 1, a[1]*CM*u, a[2]*CM*u)
    if k == "rotate":
        c, s = math.cos(math.radians(a[1])), math.sin(math.radians(a[1]))
        return (c, s, -s, c, 0, 0)
    if k == "scale":
        return (a[1], 0, 0, a[2], 0, 0)
    if k == "slant":
        return (1, 0, a[1], 1, 0, 0)
    c, s = math.cos(2*math.radians(a[1])), math.sin(2*math.radians(a[1]))
    return (c, s, s, -c, 0, 0)


# -- extents: (llx, lly, urx, ury) or None

def join(a, b):
    if a is None or b is None:
        return a or b
    return (min(a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), max(a[3], b[3]))


def meet(a, b):
    if a is None or b is None:
        return None
    r = (max(a[0], b[0]), max(a[1], b[1]), min(a[2], b[2]), min(a[3], b[3]))
    return r if r[0] <= r[2] and r[1] <= r[3] else None


def mapbox(m, b):
    if b is None:
        return None
    p = [paint.apply(m, x, y) for x in (b[0], b[2]) for y in (b[1], b[3])]
    return (min(x for x, y in p), min(y for x, y in p), max(x for x, y in p), max(y for x, y in p))


def grow(b, d):
    return b and (b[0]-d, b[1]-d, b[2]+d, b[3]+d)


# -- paths

def arcpoints(x, y, r, a, b, cw):
    if cw:
        while b > a:
            b -= 360
    else:
        while b < a:
            b += 360
    # (as a chain whose length differs from the one of the arc by less than 1e-5)
    n = max(8, int(abs(b-a)))
    return [(x + r*math.cos(math.radians(a+(b-a)*i/n)), y + r*math.sin(math.radians(a+(b-a)*i/n))) for i in range(n+1)]


def path(p, out=None):
    """paint.Path in points; returns (path, is a normpath)"""
    out = paint.Path() if out is None else out
    k, a = p[0], [v*CM if isinstance(v, (int, float)) and not isinstance(v, bool) else v for v in p[1:]]
    if k == "line":
        out.move(*a[:2])
        out.line(*a[2:])
    elif k == "rect":
        x, y, w, h = a
        out.move(x, y)
        out.line(x+w, y)
        out.line(x+w, y+h)
        out.line(x, y+h)
        out.close()
    elif k == "circle":
        pts = arcpoints(a[0], a[1], a[2], 0, 360, False)
        out.move(*pts[0])
        for q in pts[1:]:
            out.line(*q)
        out.close()
    elif k in ("arc", "normarc"):
        pts = arcpoints(a[0], a[1], a[2], p[4], p[5], p[6])
        if k == "normarc" or out.cur is None:
            out.move(*pts[0])
        else:
            out.line(*pts[0])
        for q in pts[1:]:
            out.line(*q)
        return out, k == "normarc"
    elif k == "curve":
        out.move(*a[:2])
        out.curve(*a[2:])
    elif k == "poly":
        pts = [(x*CM, y*CM) for x, y in p[1]]
        out.move(*pts[0])
        for q in pts[1:]:
            out.line(*q)
        if p[2]:
            out.close()
    elif k == "steps":
        if p[2] == "norm":
            out.cur = None
        steps(p[1], out)
        return out, p[2] == "norm"
    elif k == "multi":
        norm = False
        for q in p[1]:
            if norm:
                # what is added to a normpath begins anew
                new, n = path(q)
                out.subs += new.subs
            elif q[0] == "multi" and first(q):
                # the sum of the inner paths is a normpath of its own
                if out.subs:
                    new, n = path(q)
                    out.subs += new.subs
                    out.cur, out.start = new.cur, new.start
                else:
                    out, norm = path(q, out)
            elif q[0] == "multi":
                out, n = path(q, out)
            else:
                begin = not out.subs
                out, n = path(q, out)
                norm = norm or n and begin
        return out, norm
    elif k != "empty":
        raise KeyError(k)
    return out, False


def steps(ops, out):
    for o in ops:
        k, a = o[0], [v*CM if not isinstance(v, list) else v for v in o[1:]]
        x, y = out.cur or (0.0, 0.0)
        if k == "m":
            out.move(*a)
        elif k == "rm":
            out.move(x+a[0], y+a[1])
        elif k == "l":
            out.line(*a)
        elif k == "rl":
            out.line(x+a[0], y+a[1])
        elif k == "c":
            out.curve(*a)
        elif k == "rc":
            out.curve(x+a[0], y+a[1], x+a[2], y+a[3], x+a[4], y+a[5])
        elif k == "z":
            out.close()
        elif k in ("arc", "arcn"):
            pts = arcpoints(a[0], a[1], a[2], o[4], o[5], k == "arcn")
            if out.cur is None:
                out.move(*pts[0])
            else:
                out.line(*pts[0])
            for q in pts[1:]:
                out.line(*q)
        elif k == "ml":
            for q in a[0]:
                out.line(*[v*CM for v in q])
        elif k == "mc":
            for q in a[0]:
                out.curve(*[v*CM for v in q])
        elif k == "arct":
            x1, y1, x2, y2, r = a
            # on both sides of the corner, where the distance to the center is r
            u, v = complex(x-x1, y-y1), complex(x2-x1, y2-y1)
            u, v = u/abs(u), v/abs(v)
            half = 0.5*math.acos(max(-1, min(1, (u*v.conjugate()).real)))
            corner = complex(x1, y1)
            center = corner + (u+v)/abs(u+v)*r/math.sin(half)
            a, b = corner + u*r/math.tan(half), corner + v*r/math.tan(half)
            turn = cmath.phase((b-center)/(a-center))
            n = max(8, int(abs(math.degrees(turn))))
            for i in range(n+1):
                q = center + (a-center)*cmath.rect(1, turn*i/n)
                out.line(q.real, q.imag)
        else:
            raise KeyError(k)


def first(q):
    """whether a path starts as a normpath"""
    while q[0] == "multi":
        q = q[1][0]
    return q[0] == "normarc" or q[0] == "steps" and q[2] == "norm"


def extent(shape):
    b = None
    for pts, closed in shape:
        for x, y in pts:
            b = join(b, (x, y, x, y))
    return b


def mapped(shape, m):
    return tuple((tuple(paint.apply(m, x, y) for x, y in pts), c) for pts, c in shape)


# -- state

class State:
    def __init__(self, u=1.0, w=1.0):
        self.u, self.w = u, w
        self.fill = self.stroke = ("gray", (0.0,))
        self.fa = self.sa = 1.0
        self.width, self.cap, self.join, self.miter, self.dash = NORMAL*w, 0, 0, 10.0, ((), 0.0)
        self.rule = False
        self.ctm = IDENT
        self.clip = ()

    def copy(self):
        s = State.__new__(State)
        s.__dict__.update(self.__dict__)
        return s

    def apply(self, attrs, stroke=True, fill=True):
        """styles only"""
        for a in attrs:
            if a[0] in ("lw", "lwu"):
                # comes before the dashes
                self.width = self.w*(NORMAL*2**(WIDTHS[a[1]]/2) if a[0] == "lw" else a[1]*CM)
        for a in attrs:
            k = a[0]
            c = None
            if k == "hsb":
                c = ("rgb", colorsys.hsv_to_rgb(*a[1:]))
            elif k in ("gray", "rgb", "cmyk"):
                c = (k, tuple(a[1:]))
            elif k == "named":
                c = NAMED[a[1]]
            elif k == "tr":
                if fill:
                    self.fa = 1-a[1]
                if stroke:
                    self.sa = 1-a[1]
            elif k == "cap":
                self.cap = a[1]
            elif k == "join":
                self.join = a[1]
            elif k == "miter":
                self.miter = a[1]
            elif k == "dash":
                self.setdash(a[1], a[2], a[3])
            elif k == "ls":
                self.cap = LINESTYLES[a[1]][0]
                self.setdash(LINESTYLES[a[1]][1], 0, True)
            elif k == "rule":
                self.rule = bool(a[1])
            if c is not None:
                if fill:
                    self.fill = c
                if stroke:
                    self.stroke = c

    def setdash(self, d, offset, rel):
        f = self.width/NORMAL if rel else 1
        self.dash = (tuple(x*f for x in d), offset) if any(d) else ((), 0.0)


# -- drawings

class Node:
    def __init__(self, attrs=()):
        self.attrs = attrs
        self.items = []
        self.layers = {}

    def layer(self, name, above, below):
        group, dot, rest = name.partition(".")
        if dot:
            if group not in self.layers:
                self.layers[group] = Node()
                self.items.append(self.layers[group])
            return self.layers[group].layer(rest, above and above.partition(".")[2], below and below.partition(".")[2])
        if name not in self.layers:
            self.layers[name] = Node()
        elif above or below:
            self.items.remove(self.layers[name])
        l = self.layers[name]
        if above:
            self.items.insert(self.items.index(self.layers[above])+1, l)
        elif below:
            self.items.insert(self.items.index(self.layers[below]), l)
        elif l not in self.items:
            self.items.append(l)
        return l


class Model:
    def __init__(self, spec):
        self.spec = spec
        unit = spec.get("unit") or {"u": 1, "w": 1, "default": "cm"}
        self.w = unit["w"]
        self.u = unit["u"]*{"m": 100, "cm": 1, "mm": 0.1, "inch": 2.54, "pt": 2.54/72}[unit["default"]]
        self.shared = {}
        self.building = []

    def build(self, node, items):
        for x in items:
            k = x["t"]
            if k == "canvas":
                n = Node(x["attrs"])
                self.build(n, x["items"])
                node.items.append(n)
            elif k == "layer":
                above, below = neighbour(node.layers, x)
                self.build(node.layer(x["name"], above, below), x["items"])
            elif k == "ref":
                i = x["i"] % len(self.spec["shared"])
                if self.building:
                    if not self.building[-1]:
                        continue
                    i %= self.building[-1]
                if i not in self.shared:
                    self.building.append(i)
                    n = Node()
                    self.build(n, [self.spec["shared"][i]])
                    self.building.pop()
                    self.shared[i] = n
                node.items.append(self.shared[i])
            else:
                node.items.append(x)

    def page(self, i):
        """(marks, extent without pens, extent) before the place on the page is known"""
        root = Node()
        self.build(root, self.spec["pages"][i]["items"])
        self.marks = []
        self.text = False
        thin, thick = self.show(root, State(self.u, self.w))
        return self.marks, thin, thick

    def show(self, node, gs):
        clip = None
        if node.attrs:
            gs = gs.copy()
            inner = IDENT
            # the first transformation of the list is the one next to the content
            for a in node.attrs:
                if a[0] == "clip":
                    clip = a[1], inner
                    inner = IDENT
                elif a[0] in ("translate", "rotate", "scale", "slant", "mirror"):
                    inner = mul(inner, trafo(a, self.u))
            if clip:
                shape = mapped(self.shape(clip[0]), mul(inner, gs.ctm))
                clipbox = extent(mapped(self.shape(clip[0]), inner))
                gs.clip = gs.clip + ((shape, False),)
                inner = mul(clip[1], inner)
            gs.ctm = mul(inner, gs.ctm)
            gs.apply(node.attrs)
        else:
            inner = IDENT
        thin = thick = None
        for x in node.items:
            if isinstance(x, Node):
                a, b = self.show(x, gs)
            else:
                a, b = getattr(self, "show_" + x["t"])(x, gs)
            thin, thick = join(thin, a), join(thick, b)
        thin, thick = mapbox(inner, thin), mapbox(inner, thick)
        if clip:
            thin, thick = meet(thin, clipbox), meet(thick, clipbox)
        return thin, thick

    def shape(self, p):
        u = self.u
        return mapped(path(p)[0].shape(), (u, 0, 0, u, 0, 0))

    def show_path(self, x, gs):
        shape = self.shape(x["p"])
        box = thick = extent(shape)
        filled = stroked = None
        attrs = []
        for a in {"stroke": [["stroked", []]], "fill": [["filled", []]], "draw": []}[x["how"]] + x["attrs"]:
            if a[0] == "clear":
                attrs = [b for b in attrs if a[1] != "all" and b[0] not in CLEAR[a[1]]]
            else:
                attrs.append(a)
        styles = []
        for a in attrs:
            if a[0] == "filled":
                filled = a[1]
            elif a[0] == "stroked":
                stroked = a[1]
            else:
                styles.append(a)
        gs = gs.copy()
        gs.apply(styles)
        dev = mapped(shape, gs.ctm)
        if filled is not None:
            s = gs.copy()
            s.apply(filled, stroke=False)
            self.marks.append(paint.Mark("fill", path=dev, clip=s.clip, color=s.fill, alpha=s.fa, rule=s.rule))
        if stroked is not None:
            s = gs.copy()
            s.apply(stroked, fill=False)
            self.marks.append(paint.Mark("stroke", path=dev, clip=s.clip, color=s.stroke, alpha=s.sa, width=s.width, cap=s.cap, join=s.join,
                                         miter=s.miter, dash=s.dash, matrix=gs.ctm[:4]))
            thick = grow(box, 0.5*s.width)
        return box, thick if filled is not None or stroked is not None else None

    def show_t1(self, x, gs):
        self.text = True
        # where the text begins; the font writing it is not of interest here
        z = x["size"]
        m = (z, 0, (x["slant"] or 0)*z, z, x["x"]*CM*self.u, x["y"]*CM*self.u)
        self.marks.append(paint.Mark("glyph", matrix=mul(m, gs.ctm), clip=gs.clip, color=gs.fill, alpha=gs.fa, n=0))
        return None, None

    def show_bitmap(self, x, gs):
        if "trafo" in x:
            a = x["trafo"]
            m = (a[0], a[2], a[1], a[3], x["x"]*CM*self.u, x["y"]*CM*self.u)
        else:
            w = x["width"]*CM*self.u
            h = w*x["h"]/x["w"] if x["height"] is None else x["height"]*CM*self.u
            m = (w, 0, 0, h, x["x"]*CM*self.u, x["y"]*CM*self.u)
        box = mapbox(m, (0, 0, 1, 1))
        self.marks.append(paint.Mark("image", clip=gs.clip, matrix=mul(m, gs.ctm), alpha=gs.fa))
        return box, box


def neighbour(layers, x):
    """the layers above or below of which a layer is put"""
    r = []
    group = x["name"].rpartition(".")[0]
    for k in "above", "below":
        n = x.get(k)
        if n is not None and group:
            n = "%s.%s" % (group, n)
        if n is not None:
            d = layers
            for q in n.split("."):
                d = d.get(q) if d is not None else None
                last, d = d, d.layers if d is not None else None
            if last is None or n == x["name"]:
                n = None
        r.append(n)
    return (r[0], None) if r[0] else r


class Refused(Exception):
    pass


def exceeds(page, thin, u=1.0):
    """whether the content is larger than the paper (None: hardly decidable)"""
    if "paper" not in page or page["fit"] or not (page["rotated"] or page["centered"]) or page["rotated"] and not page["centered"]:
        return False
    box = page.get("bbox") or grow(thin, page.get("enlarge", 1))
    if box is None:
        return False
    w, h = (v*CM/10*(u if page["paper"] == "own" else 1) for v in PAPER[page["paper"]])
    if page["rotated"]:
        w, h = h, w
    d = max(box[2]-box[0]-w, box[3]-box[1]-h)
    return None if abs(d) < 0.1 else d > 0


def place(page, thin, u=1.0):
    """(transformation of a page with a paper format, problem)"""
    if "paper" not in page:
        return IDENT
    if not (page["rotated"] or page["centered"] or page["fit"]):
        return IDENT
    w, h = (v*CM/10*(u if page["paper"] == "own" else 1) for v in PAPER[page["paper"]])
    box = page.get("bbox") or grow(thin, page.get("enlarge", 1))
    if box is None:
        return IDENT
    m = IDENT
    if page["rotated"]:
        m = (0, 1, -1, 0, w, 0)
        if page["centered"] or page["fit"]:
            b = mapbox(m, box)
            m = mul(m, (1, 0, 0, 1, 0.5*w-0.5*(b[0]+b[2]), 0.5*h-0.5*(b[1]+b[3])))
    else:
        m = (1, 0, 0, 1, 0.5*w-0.5*(box[0]+box[2]), 0.5*h-0.5*(box[1]+box[3]))
    if page["fit"]:
        b = mapbox(m, box)
        g = 2*page["margin"]*CM
        if g > min(w, h):
            raise Refused("margins")
        s = min((w-g)/(b[2]-b[0]), (h-g)/(b[3]-b[1]))
        m = mul(m, (s, 0, 0, s, 0.5*w*(1-s), 0.5*h*(1-s)))
    return m


def moved(marks, m):
    """marks on a transformed page"""
    if m == IDENT:
        return marks
    out = []
    for k in marks:
        d = dict(k.__dict__)
        kind = d.pop("kind")
        d["clip"] = tuple((mapped(s, m), r) for s, r in d["clip"])
        if "path" in d:
            d["path"] = mapped(d["path"], m)
        if "matrix" in d:
            a = tuple(d["matrix"])
            r = mul(a + (0, 0) if len(a) == 4 else a, m)
            d["matrix"] = r[:4] if len(a) == 4 else r
        out.append(paint.Mark(kind, **d))
    return out


def visible(marks, small):
    """without the further letters of a text and what is too small to be seen"""
    out = []
    for m in marks:
        if m.kind == "glyph" and m.n:
            continue
        if m.kind in ("fill", "stroke"):
            p = tuple(s for s in m.path if paint.sample(s[0], s[1])[0] > small)
            if not p:
                continue
        out.append(m)
    return out


def compare(want, got, ctol, scale, opacity):
    """first difference between the model and a file"""
    r = None
    for small in 0.06, 0.1, 0.17:
        a, b = visible(want, small*scale), visible(got, small*scale)
        r = None
        for i, (x, y) in enumerate(zip(a, b)):
            what = "mark %d (expected, found)" % i
            if x.kind == "glyph" and y.kind in ("glyph", "text"):
                t = paint.Mark("glyph", font="", glyph="", n=0, **{k: getattr(x, k) for k in ("matrix", "clip", "color", "alpha")})
                u = paint.Mark("glyph", font="", glyph="", n=0, **{k: getattr(y, k) for k in ("matrix", "clip", "color", "alpha")})
                r = paint.cmpmark(t, u, what, ctol, scale, opacity)
            elif x.kind == y.kind == "image":
                if len(x.clip) != len(y.clip) or any(abs(p-q) > 0.03*scale + 1e-3*abs(p) for p, q in zip(x.matrix, y.matrix)) or opacity and abs(x.alpha-y.alpha) > 2e-3:
                    r = "%s: image at %r (opacity %r), %r (%r)" % (what, x.matrix, x.alpha, y.matrix, y.alpha)
            else:
                r = paint.cmpmark(x, y, what, ctol, scale, opacity)
            if r:
                r += "\n   expected %r\n   found %r" % (x, y)
                break
        if not r and len(a) != len(b):
            r = "%d marks are expected, %d are found; %r" % (len(a), len(b), ((a if len(a) > len(b) else b)[min(len(a), len(b))]))
        if not r:
            return None
    return r
