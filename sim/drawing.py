"""Seeded random drawings: a JSON description and its PyX document.

gen(rng) describes a document (pages, items, attributes, writer options) as
plain JSON; Builder(...).document(spec) makes it with the code under test.
The descriptions contain everything PyX can draw without an external
program: paths with styles, decorators and deformers, all color models,
transparency, tiling patterns, clipping, nested canvases and layers, text in
Type 1 fonts (through the fonts directly, the Unicode engine and DVI files),
bitmaps of every mode, meshes, embedded EPS files, form fields and graphs.
"""

import copy
import io
import math
import os
import traceback
import struct
import zlib

from . import drawmodel, seams

FORMATS = ("eps", "ps", "pdf", "svg")
FONTS = ["cmr10", "cmmi10", "cmr7", "cmsy10"]
TEXT = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789()[]+=/,;:!?&%#@"
SIMPLE = "ABCabcxyzfiflffi019"


def num(rng, lo, hi, digits=3):
    return round(rng.uniform(lo, hi), digits)


# -- description ---------------------------------------------------------

def g_steps(rng):
    """a path of single steps"""
    c = lambda: num(rng, -8, 8)
    d = lambda: num(rng, -4, 4)
    ops = []
    arc = lambda: [rng.choice(["arc", "arcn"]), c(), c(), num(rng, 0.1, 4), num(rng, -90, 400, 1), num(rng, -90, 400, 1)]

    def begin(first):
        if rng.random() < 0.2:
            ops.append(arc())
        else:
            ops.append([rng.choice(["m", "m", "rm"]) if not first else "m", c(), c()])
            segment()

    def segment():
        k = rng.choice(["l", "l", "c", "rl", "rl", "rc", "arc", "arct", "arct", "ml", "mc"])
        if k in ("l", "rl"):
            ops.append([k, d(), d()])
        elif k in ("c", "rc"):
            ops.append([k] + [d() for i in range(6)])
        elif k == "arc":
            ops.append(arc())
        elif k == "ml":
            ops.append([k, [[c(), c()] for i in range(rng.randint(1, 3))]])
        elif k == "mc":
            ops.append([k, [[c() for i in range(6)] for i in range(rng.randint(1, 2))]])
        else:
            # with corners whose tangents do not meet too far away
            x, y = place() or (c(), c())
            a = rng.uniform(0, 360)
            b = a + rng.choice([-1, 1])*rng.uniform(20, 140)
            f, g = rng.uniform(0.5, 4), rng.uniform(0.5, 4)
            x1, y1 = x + f*math.cos(math.radians(a)), y + f*math.sin(math.radians(a))
            x2, y2 = x1 + g*math.cos(math.radians(b)), y1 + g*math.sin(math.radians(b))
            if not place():
                ops.append(["l", x, y])
            ops.append([k] + [round(v, 3) for v in (x1, y1, x2, y2)] + [num(rng, 0.1, 1.5)])

    def place():
        """where the path is (if this is simple)"""
        at = None
        for o in ops:
            k, a = o[0], o[-1][-1][-2:] if o[0] in ("ml", "mc") else o[-2:]
            if k in ("m", "l", "c", "ml", "mc"):
                at = a
            elif k in ("rm", "rl", "rc") and at:
                at = [at[0]+a[0], at[1]+a[1]]
            else:
                at = None
        return at

    begin(True)
    for i in range(rng.randint(0, 5)):
        k = rng.random()
        if k < 0.25 and ops[-1][0] != "z":
            ops.append(["z"])
        elif ops[-1][0] == "z":
            # there is no current point
            if rng.random() < 0.5:
                ops.append(arc())
            else:
                ops.append(["m", c(), c()])
                segment()
        elif k < 0.4:
            begin(False)
        else:
            segment()
    return ["steps", ops, rng.choice(["all", "all", "append", "extend", "norm", "add", "iadd"]), rng.randint(1, len(ops))]


def g_path(rng, simple=False):
    if simple and rng.random() < 0.3:
        return g_steps(rng)
    k = rng.choice(["line", "line", "rect", "circle", "arc", "curve", "poly", "multi", "bbox", "smooth", "normarc", "empty", "point"])
    c = lambda: num(rng, -8, 8)
    if k == "empty" and rng.random() < 0.6:
        k = "line"
    if k == "line":
        return [k, c(), c(), c(), c()]
    if k == "rect":
        return [k, c(), c(), num(rng, 0.1, 6), num(rng, 0.1, 6)]
    if k == "circle":
        return [k, c(), c(), num(rng, 0.1, 4)]
    if k in ("arc", "normarc"):
        return [k, c(), c(), num(rng, 0.1, 4), num(rng, 0, 360, 1), num(rng, 0, 360, 1), rng.random() < 0.3]
    if k == "curve":
        return [k] + [c() for i in range(8)]
    if k == "poly":
        return [k, [[c(), c()] for i in range(rng.randint(3, 6))], rng.random() < 0.6]
    if k == "multi":
        return [k, [g_path(rng, simple) for i in range(rng.randint(2, 3))]]
    if k == "smooth":
        return [k, [[c(), c()] for i in range(rng.randint(3, 5))], rng.random() < 0.4]
    if k == "point":
        return ["line", c(), c()] + [0.001, 0.001]
    return ["rect", c(), c(), 1, 1] if k == "bbox" else [k]


def g_color(rng):
    k = rng.choice(["gray", "rgb", "cmyk", "hsb", "named"])
    v = lambda: rng.choice([0, 1, num(rng, 0, 1), num(rng, 0, 1)])
    if k == "gray":
        return [k, v()]
    if k == "rgb" or k == "hsb":
        return [k, v(), v(), v()]
    if k == "cmyk":
        return [k, v(), v(), v(), v()]
    return [k, rng.choice(["rgb.red", "rgb.green", "cmyk.NavyBlue", "gray.black", "cmyk.Apricot", "grey.white"])]


def g_stroke(rng):
    k = rng.choice(["lw", "lw", "lwu", "cap", "join", "miter", "dash", "ls", "ls"])
    if k == "lw":
        return [k, rng.choice(["THIN", "Thin", "thin", "normal", "thick", "THICK", "Thick"])]
    if k == "lwu":
        return [k, num(rng, 0.01, 0.5)]
    if k == "cap" or k == "join":
        return [k, rng.randrange(3)]
    if k == "miter":
        return [k, num(rng, 1, 12)]
    if k == "dash":
        return [k, [rng.randint(0, 4) for i in range(rng.randint(1, 3))] + [1], num(rng, 0, 3, 1), rng.random() < 0.5]
    return [k, rng.choice(["solid", "dashed", "dotted", "dashdotted"])]


def g_styles(rng, spec, stroke=True, fill=True, n=None, pattern=True):
    r = []
    for i in range(rng.choice([0, 0, 1, 1, 2, 3]) if n is None else n):
        k = rng.random()
        if k < 0.35:
            r.append(g_color(rng))
        elif k < 0.43:
            r.append(["tr", rng.choice([0, 0.25, 0.5, 0.5, 0.9, num(rng, 0, 1)])])
        elif stroke and (k < 0.75 or not fill):
            r.append(g_stroke(rng))
        elif fill and k < 0.85:
            r.append(["rule", rng.randrange(2)])
        elif fill and pattern and spec["patterns"]:
            r.append(["pattern", rng.randrange(len(spec["patterns"]))])
    return r


def g_trafo(rng):
    r = []
    for i in range(rng.randint(1, 2)):
        k = rng.choice(["translate", "rotate", "scale", "slant", "mirror"])
        r.append({"translate": lambda: [k, num(rng, -5, 5), num(rng, -5, 5)], "rotate": lambda: [k, rng.choice([90, 180, num(rng, -180, 180)])],
                  "scale": lambda: [k, num(rng, 0.3, 2), num(rng, 0.3, 2)], "slant": lambda: [k, num(rng, -1, 1)],
                  "mirror": lambda: [k, num(rng, 0, 180)]}[k]())
    return r


def g_decos(rng, spec):
    r = []
    for i in range(rng.choice([0, 0, 0, 1, 1, 2])):
        k = rng.choice(["earrow", "barrow", "arrow", "filled", "filled", "stroked", "shownp", "hatch", "text", "text", "brace", "smoothed", "cycloid", "gradient"])
        if k in [x[0] for x in r]:
            continue
        if k in ("earrow", "barrow"):
            r.append([k, rng.choice(["normal", "small", "large"]), g_styles(rng, spec, n=rng.choice([0, 0, 1]))])
        elif k == "arrow":
            r.append([k, num(rng, 0.2, 1), num(rng, 0.02, 0.5), rng.random() < 0.5])
        elif k == "filled":
            r.append([k, g_styles(rng, spec, stroke=False)])
        elif k == "stroked":
            r.append([k, g_styles(rng, spec, fill=False)])
        elif k == "hatch":
            r.append([k, num(rng, 0.1, 0.8), num(rng, 0, 180), rng.random() < 0.3])
        elif k == "text":
            r.append([k, g_str(rng), rng.choice([None, 0, 45])])
        elif k == "smoothed":
            r.append([k, num(rng, 0.02, 0.5)])
        elif k == "cycloid":
            r.append([k, num(rng, 0.05, 0.3), rng.randint(2, 12)])
        elif k == "gradient":
            r.append([k, rng.choice(["Rainbow", "Gray", "Hue"]), rng.randint(2, 6)])
        else:
            r.append([k])
    return r


def g_str(rng):
    return "".join(rng.choice(SIMPLE if rng.random() < 0.7 else TEXT) for i in range(rng.randint(1, 8)))


def g_item(rng, spec, fmts, depth):
    kinds = ["path"] * 8 + ["t1"] * 4 + ["utext"] * 2 + ["canvas"] * 4 + ["bitmap"] * 3 + ["ref"] * 2 + ["layer"] + ["graph"]
    if "svg" not in fmts:
        kinds += ["mesh"] * 2
        if "pdf" not in fmts:
            kinds += ["eps"] * 2
        elif len(fmts) == 1:
            kinds += ["field"] * 4
    if spec.get("dvi"):
        kinds += ["dvi"] * 2
    if spec.get("simple"):
        kinds = ["path"] * 7 + ["canvas"] * 4 + ["bitmap", "ref", "ref"] + ["layer"] * 4
        if "t1" in spec["simple"]:
            kinds += ["t1"]
    k = rng.choice(kinds)
    if depth > 2 and k in ("canvas", "layer"):
        k = "path"
    if depth == 0 and k == "ref":
        k = "path"
    if k == "path":
        how = rng.choice(["stroke", "stroke", "fill", "fill", "draw"])
        r = {"t": k, "p": g_path(rng, "simple" in spec), "how": how, "attrs": g_styles(rng, spec)}
        if spec.get("simple"):
            for d in "filled", "stroked":
                if rng.random() < 0.15:
                    r["attrs"].insert(rng.randint(0, len(r["attrs"])), [d, g_styles(rng, spec, stroke=d == "stroked", fill=d == "filled", n=rng.choice([0, 1, 2]))])
            if rng.random() < 0.12:
                r["attrs"].insert(rng.randint(0, len(r["attrs"])), ["clear", rng.choice(list(drawmodel.CLEAR) + ["all"])])
            while "smooth" in str(r["p"]):
                r["p"] = g_path(rng, True)
        elif r["p"][0] != "empty":
            # an arrow beyond the end of a short subpath is not defined
            r["attrs"] += [d for d in g_decos(rng, spec) if r["p"][0] != "multi" or d[0] not in ("earrow", "barrow", "arrow")]
        return r
    if k == "t1":
        r = {"t": k, "font": rng.choice(FONTS), "x": num(rng, -5, 5), "y": num(rng, -5, 5), "size": rng.choice([5, 10, 10, 12, 17.28])}
        if rng.random() < 0.35 or r["font"] in ("cmmi10", "cmsy10"):
            # (beginning with a letter)
            r["codes"] = [rng.choice([rng.randrange(128), rng.randrange(65, 91), rng.randrange(97, 123)]) for i in range(rng.randint(1, 8))]
            r["ignore"] = rng.random() < 0.7
        else:
            r["s"] = g_str(rng) if rng.random() < 0.8 else "".join(rng.choice(TEXT) for i in range(60))
            r["kern"] = rng.random() < 0.3 and not spec.get("simple")
            r["lig"] = rng.random() < 0.3
        r["slant"] = rng.choice([None, None, None, 0.25, -0.1, 0])
        r["spaced"] = rng.choice([0, 0, 0, 1.5, -0.3]) if not spec.get("simple") else 0
        r["fresh"] = rng.random() < 0.15
        r["metric"] = rng.random() < 0.85
        return r
    if k == "utext":
        return {"t": k, "x": num(rng, -5, 5), "y": num(rng, -5, 5), "s": g_str(rng), "attrs": g_styles(rng, spec, stroke=False, n=rng.choice([0, 0, 1]), pattern=False) if 1 else []}
    if k == "canvas":
        attrs = []
        if rng.random() < 0.6:
            attrs += g_trafo(rng)
        if rng.random() < 0.3:
            attrs.insert(rng.randrange(len(attrs)+1), ["clip", g_path(rng, "simple" in spec)])
        attrs += g_styles(rng, spec)
        if rng.random() < 0.25:
            attrs = []
        if spec.get("simple"):
            while "smooth" in str(attrs):
                attrs = [a for a in attrs if a[0] != "clip"]
            if rng.random() < 0.4:
                attrs += g_trafo(rng)
                rng.shuffle(attrs)
        r = {"t": k, "attrs": attrs, "items": g_items(rng, spec, fmts, depth+1)}
        if spec.get("simple"):
            r["insert"] = rng.random() < 0.4
        return r
    if k == "layer":
        name = rng.choice(["a", "b", "a.x", "b.y", "c"])
        r = {"t": k, "name": name, "items": g_items(rng, spec, fmts, depth+1)}
        if rng.random() < (0.7 if spec.get("simple") else 0.4):
            r["name"] = rng.choice(["a", "b", "c", "a.x", "a.y", "b.y", "b.x", "b.x.z"] + ["a", "b", "c"]*2*bool(spec.get("simple")))
            r[rng.choice(["above", "below"])] = rng.choice(["a", "b", "c"] if "." not in r["name"] else ["x", "y", "z"])
        return r
    if k == "bitmap":
        return g_bitmap(rng, fmts)
    if k == "mesh":
        cm = rng.choice(["gray", "rgb", "cmyk"])
        nc = {"gray": 1, "rgb": 3, "cmyk": 4}[cm]
        pts = [[[num(rng, -20, 20), num(rng, -20, 20)], [num(rng, 0, 1) for i in range(nc)]] for j in range(rng.randint(3, 6))]
        return {"t": k, "cm": cm, "pts": pts, "els": [rng.sample(range(len(pts)), 3) for i in range(rng.randint(1, 4))]}
    if k == "eps":
        return {"t": k, "i": rng.randrange(2), "x": num(rng, -3, 3), "y": num(rng, -3, 3), "scale": rng.choice([None, 0.5, 2]),
                "clip": rng.random() < 0.5, "align": rng.choice(["bl", "cc", "tr"])}
    if k == "field":
        f = rng.choice(["text", "text", "check", "radio", "choice"])
        esc = rng.random() < 0.25
        name = rng.choice(["f", "g", "h"]) + str(rng.randrange(100)) + (rng.choice(["(x", "y)", "b\\", "(ok)", "\\)"]) if esc else "")
        r = {"t": k, "f": f, "name": name, "x": num(rng, -3, 3), "y": num(rng, -3, 3)}
        if f == "text":
            r["value"] = rng.choice(["", "hello", "a(b", "two\nlines", "back\\", "\n"]) if esc else rng.choice(["", "hello", "two\nlines", "x\ny\nz"])
            r["multiline"] = rng.random() < 0.4
            r["font"] = rng.choice(["Helvetica", "Courier", None])
            r["border"] = rng.choice([0, 1])
        elif f in ("choice", "radio"):
            r["values"] = rng.sample(["one", "two", "three (3)", "fo)ur", "five"] if esc else ["one", "two", "three", "four"], rng.randint(2, 3))
            r["default"] = rng.choice(r["values"] + [None])
        else:
            r["on"] = rng.random() < 0.5
        return r
    if k == "dvi":
        return {"t": k, "i": rng.randrange(len(spec["dvi"])), "x": num(rng, -3, 3), "y": num(rng, -3, 3), "attrs": g_styles(rng, spec, stroke=False, n=rng.choice([0, 1]), pattern=False)}
    if k == "graph":
        return {"t": k, "kind": rng.choice(["xy", "xy", "bar", "fn", "split"]), "w": num(rng, 2, 8), "h": num(rng, 2, 6),
                "data": [[num(rng, -10, 10), num(rng, 0.1, 50)] for i in range(rng.randint(2, 8))], "styles": rng.sample(["symbol", "line", "impulses", "histogram"], 1),
                "log": rng.random() < 0.3, "title": rng.choice([None, "x", "abc"]), "key": rng.random() < 0.3}
    return {"t": "ref", "i": rng.randrange(4)}


def g_bitmap(rng, fmts):
    w, h = rng.choice([1, 1, 2, 3, 4, 7, 16, 33]), rng.choice([1, 2, 3, 5, 8, 20])
    mode = rng.choice(["L", "RGB", "CMYK", "LA", "RGBA", "P", "PIL:L", "PIL:RGB", "PIL:P", "PIL:RGBA", "PIL:1", "PIL:CMYK", "jpeg", "CMYKA", "AL", "ARGB", "ACMYK"])
    if "svg" in fmts:
        mode = rng.choice(["L", "RGB", "LA", "RGBA", "PIL:RGB", "PIL:L", "PIL:RGBA", "jpeg", "PIL:P"])
    r = {"t": "bitmap", "mode": mode, "w": w, "h": h, "seed": rng.randrange(6), "x": num(rng, -4, 4), "y": num(rng, -4, 4),
         "width": num(rng, 0.2, 5), "height": rng.choice([None, num(rng, 0.2, 5)])}
    r["compress"] = None if mode == "jpeg" else "Flate" if "svg" in fmts else rng.choice(["Flate", "Flate", None])
    if mode.startswith("PIL:") and mode[4:] in ("L", "RGB") and rng.random() < 0.25:
        r["compress"] = "DCT"
    r["store"] = rng.random() < 0.4
    r["maxstr"] = rng.choice([4093, 4093, 64, 120, 7])
    r["expand"] = rng.choice([1, 1, 2])
    if mode in ("P", "PIL:P"):
        r["pal"] = [rng.choice(["L", "RGB", "CMYK", "RGB"]) if mode == "P" and "svg" not in fmts else "RGB", rng.choice([2, 5, 256]), rng.randrange(3)]
    if mode == "jpeg":
        r["jmode"] = rng.choice(["L", "RGB", "CMYK"]) if "svg" not in fmts else "RGB"
        r["dpi"] = rng.choice([None, 100])
    if rng.random() < 0.3:
        r["trafo"] = [num(rng, -3, 3) for i in range(4)]
        if abs(r["trafo"][0]*r["trafo"][3]-r["trafo"][1]*r["trafo"][2]) < 0.05:
            del r["trafo"]
    return r


def g_items(rng, spec, fmts, depth):
    return [g_item(rng, spec, fmts, depth) for i in range(rng.choice([0, 1, 1, 2, 3]) if depth > 1 else rng.randint(1, 5))]


def g_page(rng, spec, fmts):
    r = {"items": g_items(rng, spec, fmts, 1)}
    if spec.get("simple") and rng.random() < 0.2:
        # layers moved again and again
        r["items"] = []
        for i in range(rng.randint(3, 9)):
            x = {"t": "path", "p": ["rect", num(rng, -8, 8), num(rng, -8, 8), 1, 1], "how": rng.choice(["stroke", "fill"]), "attrs": [g_color(rng)]}
            if rng.random() < 0.7:
                x = {"t": "layer", "name": rng.choice(["a", "b", "c", "a", "b", "c", "a.x", "a.y"]), "items": [x] if rng.random() < 0.8 else []}
                if rng.random() < 0.6:
                    x[rng.choice(["above", "below"])] = rng.choice(["a", "b", "c"] if "." not in x["name"] else ["x", "y"])
            r["items"].append(x)
    if rng.random() < 0.04:
        r["items"] = []
    if rng.random() < 0.5:
        r["paper"] = rng.choice(["A5", "A4", "A3", "Letter", "A0b", "own"])
        r["rotated"] = rng.random() < 0.3
        r["fit"] = rng.random() < 0.3
        r["centered"] = rng.random() < 0.8
        r["margin"] = rng.choice([1, 0.5])
    if rng.random() < 0.2:
        r["bbox"] = [num(rng, -300, -10), num(rng, -300, -10), num(rng, 10, 300), num(rng, 10, 300)]
    if rng.random() < 0.2:
        r["name"] = rng.choice(["title", "ii", "A-1"])
    if rng.random() < 0.2:
        r["enlarge"] = num(rng, 0, 20)
    return r


def g_options(rng, fmts):
    o = {}
    for f in fmts:
        d = {}
        if f != "svg":
            if rng.random() < 0.35:
                d["textaspath"] = rng.random() < 0.6
            if rng.random() < 0.35:
                d["stripfonts"] = rng.random() < 0.4
            if rng.random() < 0.2:
                d["title"] = rng.choice(["A title", "x (y) \\ z", "caf\u00e9"])
        elif rng.random() < 0.5:
            d["textaspath"] = False
        if f == "pdf":
            if rng.random() < 0.5:
                d["compress"] = False
            if rng.random() < 0.2:
                d["author"] = "J. D\u00f6rfler"
                d["keywords"] = "a, b (c)"
                d["subject"] = "[x]"
            if rng.random() < 0.2:
                d["writebbox"] = True
            if rng.random() < 0.1:
                d["fullscreen"] = True
        if f == "ps" and rng.random() < 0.4:
            d["writebbox"] = True
        o[f] = d
    return o


def gen(rng, size=None, dvi=None, simple=False):
    """simple: only what drawmodel knows"""
    k = rng.random()
    fmts = ["pdf"] if k < 0.2 else ["eps", "ps"] if k < 0.35 else ["eps", "ps", "pdf"] if k < 0.68 else ["eps", "ps", "pdf", "svg"]
    spec = {"formats": fmts, "patterns": [], "shared": [], "dvi": dvi or []}
    if simple:
        spec["simple"] = ["t1"] if rng.random() < 0.2 else ["no t1"]
        if rng.random() < 0.25:
            spec["unit"] = {"u": rng.choice([1, 0.5, 1.7]), "w": rng.choice([1, 0.5, 2.5]), "default": rng.choice(["cm", "cm", "mm", "inch", "pt", "m"])}
            if spec["unit"]["default"] == "m":
                spec["unit"]["u"] = 0.01
    elif "svg" not in fmts or rng.random() < 0.4:
        for i in range(rng.choice([0, 0, 1, 2])):
            kind = rng.choice(["hatched", "crosshatched", "own", "own", "named"])
            if "svg" in fmts:
                kind = "own"
            p = {"k": kind, "dist": num(rng, 0.05, 0.5), "angle": rng.choice([0, 45, 90, num(rng, 0, 180)])}
            if kind == "named":
                p["name"] = rng.choice(["hatched0", "hatched45.large", "crosshatched0.SMALL", "crosshatched45", "hatched135.Thin" if 0 else "hatched135"])
            if kind == "own":
                # a pattern must have an extent
                sub = {"patterns": [], "shared": [], "dvi": []}
                p["items"] = [{"t": "path", "p": ["rect", 0, 0, num(rng, 0.2, 1), num(rng, 0.2, 1)], "how": "fill", "attrs": [g_color(rng)]}]
                p["items"] += [x for x in g_items(rng, sub, fmts, 3) if x["t"] in ("path", "t1", "utext", "bitmap", "canvas")]
                p["step"] = None if "svg" in fmts or rng.random() < 0.5 else [num(rng, 0.3, 2), num(rng, 0.3, 2)]
                p["enlarge"] = None if "svg" in fmts or rng.random() < 0.6 else num(rng, 0, 5)
                p["bbox"] = "svg" not in fmts and rng.random() < 0.2
                p["tiling"] = rng.choice([1, 2, 3])
                p["trafo"] = g_trafo(rng) if rng.random() < 0.4 else None
            spec["patterns"].append(p)
    for i in range(4):
        spec["shared"].append(g_item(rng, spec, fmts, 0))
    n = rng.choice([1, 1, 1, 2, 3]) if "svg" not in fmts and "eps" not in fmts else 1
    if rng.random() < 0.4:
        n = rng.choice([2, 3])
        spec["formats"] = fmts = [f for f in fmts if f in ("ps", "pdf")]
    if n > 1 and rng.random() < 0.03:
        n = 0
    spec["pages"] = [g_page(rng, spec, fmts) for i in range(n)]
    # the same again on another page or later on the page
    if n and rng.random() < 0.4:
        a, b = rng.choice(spec["pages"])["items"], rng.choice(spec["pages"])["items"]
        if a:
            if rng.random() < 0.6:
                a = a[-1:]
            b.insert(rng.choice([0, 0, rng.randint(0, len(b))]), copy.deepcopy(rng.choice(a)))
    spec["eps"] = [g_epsfile(rng) for i in range(2)]
    spec["options"] = g_options(rng, fmts)
    if simple:
        for o in spec["options"].values():
            o["textaspath"] = False
    return spec


def g_epsfile(rng):
    eol = rng.choice(["\n", "\n", "\r\n", "\r"])
    llx, lly = rng.randint(-50, 50), rng.randint(-50, 50)
    lines = ["%!PS-Adobe-3.0 EPSF-3.0", "%%%%BoundingBox: %d %d %d %d" % (llx, lly, llx+rng.randint(1, 200), lly+rng.randint(1, 200)),
             "%%EndComments", "newpath %d %d moveto 1 1 rlineto stroke" % (llx, lly), "%%EOF"]
    return eol.join(lines) + eol


# -- construction ------------------------------------------------------------

class Builder:
    """makes PyX objects of a description"""

    fonts = {}       # shared by the documents of a process

    def __init__(self, spec, where=None):
        self.spec = spec
        self.where = where      # directory of the EPS files
        self.patterns = [None] * len(spec["patterns"])
        self.shared = [None] * len(spec["shared"])
        self.building = []
        self.files = []
        self.boxes = None       # text boxes of DVI files
        if spec.get("unit"):
            from pyx import unit
            unit.set(uscale=spec["unit"]["u"], wscale=spec["unit"]["w"], defaultunit=spec["unit"]["default"])

    def font(self, name, fresh, metric):
        from pyx import config
        from pyx.font.font import T1font
        from pyx.font.t1file import T1File
        from pyx.font.afmfile import AFMfile
        key = (name, metric)
        if fresh or key not in self.fonts:
            with config.open(name, [config.format.type1]) as f:
                t1 = T1File.from_PF_bytes(f.read())
            m = None
            if metric:
                with config.open(name, [config.format.afm], ascii=True) as f:
                    m = AFMfile(f)
            font = T1font(t1, m)
            if fresh:
                return font
            self.fonts[key] = font
        return self.fonts[key]

    def path(self, p):
        from pyx import path, metapost, unit
        k, a = p[0], p[1:]
        if k == "line":
            return path.line(*a)
        if k == "rect":
            return path.rect(*a)
        if k == "circle":
            return path.circle(*a)
        if k in ("arc", "normarc"):
            r = path.path((path.arcn if a[5] else path.arc)(*a[:5]))
            return r.normpath() if k == "normarc" else r
        if k == "curve":
            return path.curve(*a)
        if k == "poly":
            es = [path.moveto(*a[0][0])] + [path.lineto(*q) for q in a[0][1:]]
            if a[1]:
                es.append(path.closepath())
            return path.path(*es)
        if k == "steps":
            names = {"m": "moveto", "l": "lineto", "c": "curveto", "rm": "rmoveto", "rl": "rlineto", "rc": "rcurveto", "z": "closepath"}
            ops = []
            for o in a[0]:
                if o[0] in ("ml", "mc"):
                    ops.append({"ml": path.multilineto_pt, "mc": path.multicurveto_pt}[o[0]]([tuple(map(unit.topt, q)) for q in o[1]]))
                else:
                    ops.append(getattr(path, names.get(o[0], o[0]))(*o[1:]))
            how, n = a[1:]
            if how == "all":
                return path.path(*ops)
            r = path.path(*ops[:n])
            # what is known about the path must follow what is added
            r.bbox()
            r = r.normpath() if how == "norm" else r
            r.normpath()
            if how == "extend":
                r.extend(ops[n:])
            elif how in ("append", "norm"):
                for o in ops[n:]:
                    r.append(o)
            elif how == "iadd":
                r += path.path(*ops[n:])
            else:
                r = r + path.path(*ops[n:])
            return r
        if k == "multi":
            r = self.path(a[0][0])
            for q in a[0][1:]:
                r = r + self.path(q)
            return r
        if k == "smooth":
            from pyx.metapost.path import path as mp, beginknot, endknot, smoothknot, tensioncurve
            pts = a[0]
            es = []
            for i, (x, y) in enumerate(pts):
                if a[1]:
                    es += [smoothknot(x, y), tensioncurve()]
                else:
                    es.append(beginknot(x, y) if i == 0 else endknot(x, y) if i == len(pts)-1 else smoothknot(x, y))
                    if i < len(pts)-1:
                        es.append(tensioncurve())
            return mp(es)
        return path.path()

    def trafo(self, a):
        from pyx import trafo
        return getattr(trafo, a[0])(*a[1:])

    def attrs(self, l):
        from pyx import attr, color, style, deco, deformer, canvas, unit
        r = []
        for a in l:
            k = a[0]
            if k in ("gray", "rgb", "cmyk", "hsb"):
                r.append(getattr(color, k)(*a[1:]))
            elif k == "named":
                m, n = a[1].split(".")
                r.append(getattr(getattr(color, m), n))
            elif k == "tr":
                r.append(color.transparency(a[1]))
            elif k == "lw":
                r.append(getattr(style.linewidth, a[1]))
            elif k == "lwu":
                r.append(style.linewidth(a[1] * unit.w_cm))
            elif k == "cap":
                r.append(style.linecap(a[1]))
            elif k == "join":
                r.append(style.linejoin(a[1]))
            elif k == "miter":
                r.append(style.miterlimit(a[1]))
            elif k == "dash":
                r.append(style.dash(a[1], a[2], a[3]))
            elif k == "ls":
                r.append(getattr(style.linestyle, a[1]))
            elif k == "rule":
                r.append(style.fillrule(a[1]))
            elif k == "pattern":
                r.append(self.pattern(a[1]))
            elif k == "clip":
                r.append(canvas.clip(self.path(a[1])))
            elif k in ("translate", "rotate", "scale", "slant", "mirror"):
                r.append(self.trafo(a))
            elif k == "filled":
                r.append(deco.filled(self.attrs(a[1])))
            elif k == "stroked":
                r.append(deco.stroked(self.attrs(a[1])))
            elif k in ("earrow", "barrow"):
                d = getattr(getattr(deco, k), a[1])
                r.append(d(self.attrs(a[2])) if a[2] else d)
            elif k == "arrow":
                r.append(deco.arrow(pos=a[1], size=a[2]*unit.v_cm, reversed=a[3]))
            elif k == "shownp":
                r.append(deco.shownormpath())
            elif k == "hatch":
                r.append(deco.linehatched(a[1], a[2], cross=a[3]))
            elif k == "text":
                r.append(deco.text(a[1], relangle=a[2]))
            elif k == "brace":
                r.append(deco.brace())
            elif k == "smoothed":
                r.append(deformer.smoothed(a[1]))
            elif k == "cycloid":
                r.append(deformer.cycloid(a[1], a[2]))
            elif k == "clear":
                m = {"filled": deco.filled, "stroked": deco.stroked, "color": color, "all": attr}
                r.append((m.get(a[1]) or getattr(style, a[1])).clear)
            elif k == "gradient":
                r.append(deco.colorgradient(getattr(color.gradient, a[1]), steps=a[2]))
            else:
                raise KeyError(k)
        return r

    def pattern(self, i):
        from pyx import pattern, unit, trafo, bbox
        if self.patterns[i] is None:
            p = self.spec["patterns"][i]
            if p["k"] in ("hatched", "crosshatched"):
                r = getattr(pattern, p["k"])(p["dist"] * unit.v_cm, p["angle"])
            elif p["k"] == "named":
                r = pattern
                for n in p["name"].split("."):
                    r = getattr(r, n)
            else:
                kw = {}
                if p["step"]:
                    kw.update(xstep=p["step"][0], ystep=p["step"][1])
                if p["bbox"]:
                    kw["bbox"] = bbox.bbox(0, 0, 1, 1)
                if p["trafo"]:
                    t = self.trafo(p["trafo"][0])
                    for x in p["trafo"][1:]:
                        t = self.trafo(x) * t
                    kw["trafo"] = t
                if p["enlarge"] is not None:
                    kw["bboxenlarge"] = p["enlarge"] * unit.t_pt
                r = pattern.pattern(tilingtype=p["tiling"], **kw)
                self.fill(r, p["items"])
            self.patterns[i] = r
        return self.patterns[i]

    def image(self, b):
        from pyx import bitmap
        import random
        rng = random.Random(b["seed"])
        mode, w, h = b["mode"], b["w"], b["h"]
        raw = lambda n: bytes(rng.choice([0, 255, rng.randrange(256)]) for i in range(n))
        if mode == "P":
            pm, n, s = b["pal"]
            r2 = random.Random(s)
            data = bytes(rng.randrange(n) for i in range(w*h))
            pal = bitmap.palette(pm, bytes(r2.randrange(256) for i in range(n * {"L": 1, "RGB": 3, "CMYK": 4}[pm])))
            return bitmap.image(w, h, "P", data, palette=pal)
        if mode.startswith("PIL:"):
            from PIL import Image
            m = mode[4:]
            if m == "P":
                im = Image.frombytes("P", (w, h), bytes(rng.randrange(b["pal"][1]) for i in range(w*h)))
                r2 = random.Random(b["pal"][2])
                im.putpalette(bytes(r2.randrange(256) for i in range(3*b["pal"][1])))
                return im
            if m == "1":
                return Image.frombytes("1", (w, h), raw((w+7)//8*h))
            return Image.frombytes(m, (w, h), raw(w*h*len(m)))
        if mode == "jpeg":
            from PIL import Image
            m = b["jmode"]
            im = Image.frombytes(m, (w, h), raw(w*h*len(m)))
            f = io.BytesIO()
            im.save(f, "jpeg", **({"dpi": (b["dpi"], b["dpi"])} if b.get("dpi") else {}))
            f.seek(0)
            return bitmap.jpegimage(f)
        return bitmap.image(w, h, mode, raw(w*h*len(mode)))

    def item(self, c, x):
        """adds one item to the canvas c"""
        from pyx import canvas, bitmap, mesh, color, epsfile, pdfextra, unit, trafo, text
        k = x["t"]
        if k == "path":
            attrs = self.attrs(x["attrs"])
            how = x["how"]
            kinds = [a[0] for a in x["attrs"]]
            try:
                getattr(c, how)(self.path(x["p"]), attrs)
            except Exception as e:
                # an arrow longer than its path is not defined
                if not any(f.name == "_arrowhead" for f in traceback.extract_tb(e.__traceback__)):
                    raise
                getattr(c, how)(self.path(x["p"]), self.attrs([a for a in x["attrs"] if a[0] not in ("earrow", "barrow", "arrow")]))
        elif k == "t1":
            font = self.font(x["font"], x["fresh"], x["metric"] or "kern" in x and (x["kern"] or x["lig"]))
            if "codes" in x:
                t = font.text(x["x"], x["y"], x["codes"], x["size"], decoding=None, slant=x["slant"], spaced_pt=x["spaced"], ignorebbox=x["ignore"] or font.metric is not None)
                t.bbox_ok = False
                c.insert(Unboxed(t) if font.metric is not None else t)
            else:
                t = font.text(x["x"], x["y"], x["s"], x["size"], slant=x["slant"], kerning=x["kern"], ligatures=x["lig"], spaced_pt=x["spaced"])
                c.insert(t)
        elif k == "utext":
            c.text(x["x"], x["y"], x["s"], self.attrs(x["attrs"]))
        elif k == "canvas":
            ins = x.get("insert")
            sc = canvas.canvas([] if ins else self.attrs(x["attrs"]))
            self.fill(sc, x["items"])
            c.insert(sc, *([self.attrs(x["attrs"])] if ins else []))
        elif k == "layer":
            above, below = drawmodel.neighbour(c.layers, x)
            l = c.layer(x["name"], above=above, below=below)
            self.fill(l, x["items"])
        elif k == "ref":
            i = x["i"] % len(self.shared)
            if self.building:
                # only items with a lower number can be part of a shared item
                if not self.building[-1]:
                    return
                i %= self.building[-1]
            if self.shared[i] is None:
                sc = canvas.canvas()
                self.building.append(i)
                self.fill(sc, [self.spec["shared"][i]])
                self.building.pop()
                self.shared[i] = sc
            c.insert(self.shared[i])
        elif k == "bitmap":
            im = self.image(x)
            kw = dict(compressmode=x["compress"], PSstoreimage=x["store"], PSmaxstrlen=x["maxstr"], PSbinexpand=x["expand"])
            if "trafo" in x:
                a = x["trafo"]
                b = bitmap.bitmap_trafo(trafo.trafo(((a[0], a[1]), (a[2], a[3])), (x["x"], x["y"])), im, **kw)
            else:
                b = bitmap.bitmap(x["x"], x["y"], im, width=x["width"], height=x["height"], **kw)
            c.insert(b)
        elif k == "mesh":
            ns = [mesh.node_pt(p, getattr(color, x["cm"])(*v)) for p, v in x["pts"]]
            c.insert(mesh.mesh([mesh.element([ns[i] for i in e]) for e in x["els"]]))
        elif k == "eps":
            c.insert(epsfile.epsfile(x["x"], x["y"], self.epsname(x["i"]), scale=x["scale"], clip=x["clip"], align=x["align"]))
        elif k == "field":
            from pyx.font.font import PDFHelvetica, PDFCourier
            if x["f"] == "text":
                font = {"Helvetica": PDFHelvetica, "Courier": PDFCourier, None: None}[x["font"]]
                c.insert(pdfextra.textfield(x["x"], x["y"], 3, 1, x["name"], defaultvalue=x["value"], font=font, borderwidth=x["border"], multiline=x["multiline"]))
            elif x["f"] == "check":
                c.insert(pdfextra.checkbox(x["x"], x["y"], x["name"], defaulton=x["on"]))
            elif x["f"] == "radio":
                c.insert(pdfextra.radiobuttons([(x["x"], x["y"]+i) for i in range(len(x["values"]))], x["name"], x["values"], defaultvalue=x["default"] or x["values"][0]))
            else:
                c.insert(pdfextra.choicefield(x["x"], x["y"], 3, 1, x["name"], x["values"], defaultvalue=x["default"]))
        elif k == "dvi":
            b = self.dvibox(x)
            c.insert(b)
        elif k == "graph":
            c.insert(self.graph(x))
        elif k == "bomb":
            c.insert(Bomb())
        else:
            raise KeyError(k)

    def graph(self, x):
        from pyx import graph
        data = [tuple(d) for d in x["data"]]
        key = graph.key.key() if x["key"] else None
        if x["kind"] == "bar":
            g = graph.graphxy(width=x["w"], height=x["h"], x=graph.axis.bar(), key=key)
            g.plot(graph.data.points([(str(i), d[1]) for i, d in enumerate(data)], xname=1, y=2, title=x["title"]), [graph.style.bar()])
            return g
        kw = {}
        if x["log"] and x["kind"] not in ("fn", "bar") and x["styles"][0] in ("symbol", "line"):
            kw["y"] = graph.axis.log()
        if x["title"]:
            kw["x"] = graph.axis.lin(title=x["title"])
        g = graph.graphxy(width=x["w"], height=x["h"], key=key, **kw)
        if x["kind"] == "fn":
            g.plot(graph.data.function("y(x)=x*x+1", min=-3, max=3, points=8, title=x["title"]))
        else:
            st = {"symbol": graph.style.symbol, "line": graph.style.line, "impulses": graph.style.impulses, "histogram": graph.style.line}
            g.plot(graph.data.points(sorted(data), x=1, y=2, title=x["title"]), [st[s]() for s in x["styles"]])
        return g

    def epsname(self, i):
        p = os.path.join(self.where, "%sinc%d.eps" % (self.spec.get("prefix", ""), i))
        if p not in self.files:
            with seams.real["open"](p, "wb") as f:
                f.write(self.spec["eps"][i].encode("ascii"))
            self.files.append(p)
        return p

    def fill(self, c, items):
        for x in items:
            self.item(c, x)

    def canvas(self, page):
        from pyx import canvas
        c = canvas.canvas()
        self.fill(c, page["items"])
        return c

    def document(self):
        from pyx import document, unit, bbox
        pages = []
        for p in self.spec["pages"]:
            kw = {}
            if "paper" in p:
                kw["paperformat"] = document.paperformat(12, 15, None) if p["paper"] == "own" else getattr(document.paperformat, p["paper"])
                kw.update(rotated=p["rotated"], fittosize=p["fit"], centered=p["centered"], margin=p["margin"] * unit.t_cm)
            if "bbox" in p:
                kw["bbox"] = bbox.bbox_pt(*p["bbox"])
            if "name" in p:
                kw["pagename"] = p["name"]
            if "enlarge" in p:
                kw["bboxenlarge"] = p["enlarge"] * unit.t_pt
            pages.append(document.page(self.canvas(p), **kw))
        return document.document(pages)


BOMB = {"left": 0, "error": None}
_bomb = []


def Bomb():
    """an item of the user's own, which may fail"""
    if not _bomb:
        from pyx import baseclasses, bbox

        class B(baseclasses.canvasitem):
            def bbox(self):
                return bbox.empty()

            def process(self, *a):
                if BOMB["left"]:
                    BOMB["left"] -= 1
                    if not BOMB["left"]:
                        raise BOMB["error"]("item failed")

            processPS = processPDF = processSVG = process
        _bomb.append(B)
    return _bomb[0]()


_unboxed = []


def Unboxed(item):
    """text by character code has no metric extents: give it an empty box"""
    if not _unboxed:
        from pyx import baseclasses, bbox

        class U(baseclasses.canvasitem):
            def __init__(self, item):
                self.i = item

            def bbox(self):
                return bbox.empty()

            def requiretextregion(self):
                return self.i.requiretextregion()

            def processPS(self, *a):
                self.i.processPS(*a)

            def processPDF(self, *a):
                self.i.processPDF(*a)

            def processSVG(self, *a):
                self.i.processSVG(*a)
        _unboxed.append(U)
    return _unboxed[0](item)


def plainengine():
    """the Unicode engine, ignoring the alignments which only TeX provides
    (decorators and graphs ask for them always)"""
    from pyx import text, attr

    class Plain(text.UnicodeEngine):
        def text_pt(self, x_pt, y_pt, t, textattrs=[], *args, **kwargs):
            return text.UnicodeEngine.text_pt(self, x_pt, y_pt, t, [a for a in attr.mergeattrs(textattrs) if not isinstance(a, text.textattr)], *args, **kwargs)
    return Plain


def warm():
    """loads what every run needs, once per worker"""
    import pyx
    from pyx import text, canvas, pattern, mesh, bitmap, epsfile, pdfextra, graph, document, deco, deformer, box, connector, metapost
    import pyx.metapost.path
    import pyx.font.font
    text.set(cls=plainengine())
    b = Builder({"patterns": [], "shared": []})
    for f in FONTS:
        for m in (False, True):
            b.font(f, False, m)
    import PIL.Image


def write(doc, fmt, file, options):
    getattr(doc, {"eps": "writeEPSfile", "ps": "writePSfile", "pdf": "writePDFfile", "svg": "writeSVGfile"}[fmt])(file, **options)
