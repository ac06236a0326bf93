"""Workload and reference model shared by the TeX checks."""

import os

from . import minitex, seams, texproc, tfm
from .core import Sim

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FONTDIR = os.path.join(VERIF, "data", "fonts")
FONTS = {}


def warm():
    import pyx
    from pyx import text, canvas, document, trafo, unit
    from pyx.dvi import dvifile
    for f in sorted(os.listdir(FONTDIR)):
        if f.endswith(".tfm"):
            with seams.real["open"](os.path.join(FONTDIR, f), "rb") as fd:
                FONTS[f[:-4]] = fd.read()
    lfs()
    for f in FONTS:
        tfm.cached(FONTS[f])
    memo_t1()


def memo_t1():
    """Type 1 decryption is pure and slow: the results for the shipped fonts
    are computed once (by the code under test) and inherited by every run"""
    from pyx.font import t1file
    dec = getattr(t1file, "decoder", None)
    if dec is None or hasattr(dec, "memo"):
        return
    memo = {}

    def decoder(*args):
        try:
            r = memo.get(args)
        except TypeError:
            return dec(*args)
        if r is None:
            r = dec(*args)
            if Sim.current is None:
                memo[args] = r
        return r
    decoder.memo = memo
    t1file.decoder = decoder
    for f in sorted(os.listdir(FONTDIR)):
        if f.endswith(".pfb"):
            with seams.real["open"](os.path.join(FONTDIR, f), "rb") as fd:
                data = fd.read()
            try:
                t = t1file.T1File.from_PF_bytes(data)
                t.getdata2() if hasattr(t, "getdata2") else t._data2decode()
            except Exception:
                pass


_lfs = {}


def lfs(name="10pt"):
    if name not in _lfs:
        repo = os.environ.get("VERIF_REPO", "/repo")
        with seams.real["open"](os.path.join(repo, "pyx", "data", "lfs", name + ".lfs"), "rb") as f:
            _lfs[name] = f.read().decode("ascii")
    return _lfs[name]


TEXMF = ["article.cls", "size10.clo", "l3backend-dvips.def", "t1cmr.fd", "ot1cmss.fd", "umsa.fd", "fig.eps", "plot one.eps",
         "my macros.tex", "macros.tex", "graphicx.sty", "color.sty", "very/long/directory/name/for/a/package/named/reallylongname.sty",
         "my font.def", "utf8.def"]


def setup(ctx, cfg):
    """simulated tex and latex, a little texmf tree, fresh configuration"""
    from pyx import config
    w = ctx.world
    texmf = os.path.join(w.scratch, "texmf")
    seams.real["mkdir"](texmf)
    for name in TEXMF:
        p = os.path.join(texmf, name)
        d = os.path.dirname(p)
        todo = []
        while not os.path.isdir(d):
            todo.append(d)
            d = os.path.dirname(d)
        for d in reversed(todo):
            seams.real["mkdir"](d)
        with seams.real["open"](p, "w") as f:
            f.write("%\n")
    cfg = dict(cfg)
    cfg["texmf"] = texmf
    ctx.records = []
    w.programs["tex"] = texproc.program(FONTS, cfg, False, ctx.records)
    w.programs["latex"] = texproc.program(FONTS, cfg, True, ctx.records)
    w.pipe_capacity = cfg.get("pipe", 65536)
    w.eintr = cfg.get("eintr", 0)
    c = config.config
    if not c.has_section("text"):
        c.add_section("text")
    c.set("text", "wait", str(cfg.get("wait", 60)))
    c.set("text", "showwait", str(cfg.get("showwait", 5)))
    c.set("text", "chroot", "")
    c.set("text", "tmpdir", w.tmp)
    ctx.texcfg = cfg


# ---------------------------------------------------------------------------
# the reference model

class NullTerm:
    def __init__(self):
        self.lines = []
        self.out = []

    def write(self, data):
        self.out.append(data)

    def readline(self):
        return None

    def flush(self):
        pass

    close = flush

    def shipped(self, *a):
        pass

    def dvi(self, *a):
        pass

    def simout(self, tex, key):
        pass

    def sleep(self, t):
        pass

    def hang(self):
        pass

    def die(self, how):
        pass

    def load(self, *a):
        pass

    def begindocument(self, *a):
        pass

    def aux_written(self):
        return ""

    def phase(self, *a):
        pass


UNITY = 65536


class Oracle:
    """What a TeX session means: each expression typeset with its own
    attributes, independent of pyx's macros and of everything but explicitly
    global definitions."""

    def __init__(self, latex=False, lfsname="10pt"):
        self.t = minitex.MiniTeX(NullTerm(), FONTS, latex)
        self.t.emptyline = False
        self.latex = latex
        self.t.document = True
        self.run("\\def\\PyX{P\\kern-.3em\\lower.5ex\\hbox{Y}\\kern-.18em X}")
        self.run("\\def\\PyXMarker#1{\\hskip0pt\\special{PyX:marker #1}}")
        if not latex and lfsname:
            self.run(lfs(lfsname))
            self.run("\\normalsize")
        elif latex:
            self.run(LATEXSIZES)

    def tokens(self, s):
        t = self.t
        saved = t.line, getattr(t, "pos", 0), t.state
        r = []
        for line in s.split("\n"):
            t.line = line.rstrip(" ") + "\r"
            t.pos = 0
            t.state = "N"
            while True:
                x = t.lexline()
                if x is None:
                    break
                r.append(x)
        t.line, t.pos, t.state = saved
        return r

    def typeset(self, s, mode):
        t = self.t
        n = len(t.toks)
        end = (3, "$") if mode == "m" else (2, "}")
        t.toks.append([end] + self.tokens(s)[::-1])
        lst = []
        t.execute(lst, mode)
        del t.toks[n:]
        return lst

    def run(self, s):
        # definitions only: the trailing end of line of the last line is dropped
        toks = self.tokens(s)
        t = self.t
        n = len(t.toks)
        t.toks.append([(2, "}")] + toks[::-1])
        t.execute([], "v")
        del t.toks[n:]

    def nonl(self, s):
        # pyx sends the expression followed by "%": no space at its end
        return s + "%"

    def box(self, expr, attrs):
        """(lt, rt, ht, dp in sp, glyphs, rules, markers)"""
        t = self.t
        t.push()
        frac = 0.0
        a = {k: v for k, v in attrs}
        mode = "h"
        if "size" in a:
            self.run("\\" + a["size"])
        for k, v in attrs:
            if k == "halign":
                frac = v[0]
        flush = 0.0
        ragged = False
        for k, v in attrs:
            if k == "halign" and v[1] is not None:
                flush = v[1]
                ragged = True

        def inner(vert):
            t.push()
            if ragged:
                t.assign("skips", "leftskip", (0, flush))
                t.assign("skips", "rightskip", (0, 1.0 - flush))
                t.assign("skips", "parfillskip", (0, 0))
                for k, v in (("pretolerance", 9999), ("tolerance", 9999), ("hyphenpenalty", 9999), ("exhyphenpenalty", 9999)):
                    t.assign("ints", k, v)
                t.assign("params", "parindent", 0)
            e = expr
            if "phantom" in a:
                e = "\\phantom{%s}" % e
            if "mathmode" in a:
                e = "${%s}$" % e
            r = self.typeset(self.nonl(e), "v" if vert else "h")
            t.pop()
            return r

        if "parbox" in a:
            width, base = a["parbox"]
            sp = width

            def vb(top):
                t.push()
                t.assign("params", "hsize", sp)
                items = inner(True)
                b = t.vpack(items, top)
                t.pop()
                return b
            if base == "top":
                cur = [("box", vb(True), 0)]
            elif base == "bottom":
                cur = [("box", vb(False), 0)]
            else:
                b1, b2 = vb(True), vb(False)
                # a negative depth counts as zero
                sh = minitex.xn_over_d(max(0, b1.d), UNITY//2, UNITY) - minitex.xn_over_d(max(0, b2.d), UNITY//2, UNITY)
                cur = [("box", t.hpack([("box", b2, 0)]), sh)]
        else:
            cur = inner(False)
        if "valign" in a:
            v = a["valign"]
            b = t.hpack(cur)
            cur = [("box", b, self.mulf(1-v, b.h) - self.mulf(v, b.d))]
        for k, v in attrs[::-1]:
            if k == "vshift":
                b = t.hpack(cur)
                if v == "mathaxis":
                    f = t.style[2]
                    sh = tfm.scale(t.tfms[f[0]].param[21], f[1])
                else:
                    t.push()
                    h = t.hpack(self.typeset(self.nonl(v[1]), "h"))
                    t.pop()
                    sh = self.mulf(v[0], h.h)
                cur = [("box", b, sh)]
        b = t.hpack(cur)
        t.pop()
        lt = self.mulf(frac, b.w)
        page = {"glyphs": [], "rules": [], "specials": [], "counts": [0]}
        t.curfont = None
        t.wreg = None
        t.hout(b, -lt, 0, page, bytearray())
        return lt, b.w - lt, b.h, b.d, page["glyphs"], page["rules"], page["specials"]

    def mulf(self, f, v):
        """a factor given with five decimals times a dimension"""
        s = "%.5f" % f
        sign = -1 if s.startswith("-") else 1
        ip, fr = s.lstrip("-").split(".")
        ff = minitex.round_decimals([int(c) for c in fr])
        return sign*(int(ip)*v + minitex.xn_over_d(v, ff, UNITY))


LATEXSIZES = "\n".join(r"\def\%s{\font\pyxfont=%s\pyxfont\relax}" % (n, f) for n, f in
                       [("tiny", "cmr5"), ("scriptsize", "cmr7"), ("footnotesize", "cmr8"), ("small", "cmr9"), ("normalsize", "cmr10"),
                        ("large", "cmr12"), ("Large", "cmr12 at 14.4pt"), ("LARGE", "cmr17"), ("huge", "cmr17 at 20.74pt"),
                        ("Huge", "cmr17 at 24.88pt")])


# ---------------------------------------------------------------------------
# generated expressions

WORDS = ["a", "Hello", "office", "AVATAR", "fix", "Type", "waffle", "x1", "(0)", "2+2", "PyX!", "To", "WAY", "end.", "fluffy",
         "Kern", "q", "iiii", "mm", "It's", "``q''", "a--b", "1---2", "ff", "ffi"]
MATHS = ["x", "x^2", "a_1", "E=mc^2", "a+b", "x_{ij}", "2^{10}", "A<B", "-1"]
SIZES = ["tiny", "scriptsize", "footnotesize", "small", "normalsize", "large", "Large", "LARGE", "huge", "Huge"]


def gen_expr(rng, names=None, depth=0, math=False, markers=None):
    if math:
        return "".join(rng.choice(MATHS) for _ in range(rng.randint(1, 2)))
    parts = []
    for _ in range(rng.randint(1, 4)):
        k = rng.random()
        if k < 0.45:
            parts.append(rng.choice(WORDS))
        elif k < 0.55:
            parts.append("$%s$" % rng.choice(MATHS))
        elif k < 0.60:
            parts.append("\\PyX{}")
        elif k < 0.66 and depth < 2:
            parts.append("{\\%s %s}" % (rng.choice(SIZES), gen_expr(rng, names, depth+1)))
        elif k < 0.70 and depth < 2:
            parts.append("\\hbox{%s}" % gen_expr(rng, names, depth+1))
        elif k < 0.75:
            parts.append("\\vrule width%dpt height%dpt depth%dpt{}" % (rng.randint(1, 9), rng.randint(1, 9), rng.randint(0, 5)))
        elif k < 0.79:
            parts.append("\\kern%s%d.%dpt{}" % (rng.choice(["", "-"]), rng.randint(0, 20), rng.randint(0, 9)))
        elif k < 0.84 and depth < 2:
            parts.append("\\%s%dpt\\hbox{%s}" % (rng.choice(["raise", "lower"]), rng.randint(0, 9), gen_expr(rng, names, depth+1)))
        elif k < 0.90 and markers is not None:
            n = "m%d" % len(markers)
            markers.append(n)
            parts.append("\\PyXMarker{%s}" % n)
        elif names:
            parts.append("\\%s{}" % rng.choice(names))
        elif k > 0.97 and depth == 0:
            # extents which need a long line
            parts.append("\\vrule width%d.%05dpt height%d.%05dpt depth%d.%05dpt{}"
                         % sum(((rng.randint(1000, 14000), rng.randint(10000, 99999)) for i in range(3)), ()))
        else:
            parts.append(rng.choice(WORDS))
    return rng.choice([" ", "", " "]).join(parts)


def gen_attrs(rng):
    r = []
    if rng.random() < 0.3:
        r.append([rng.choice(["size", "size", "sizei"]), rng.choice(SIZES)])
    if rng.random() < 0.2:
        r.append(["vshift", rng.choice(["mathaxis", [0.5, "0"], [0.25, "Ag"], [1, "0"], [0, "0"], [-0.3, "x"]])])
    if rng.random() < 0.2:
        r.append(["valign", rng.choice([0, 0.5, 1, 0.3])])
    if rng.random() < 0.15:
        r.append(["parbox", [rng.choice([50, 80, 120, 300]), rng.choice(["top", "middle", "bottom"])]])
    if rng.random() < 0.35:
        r.append(["halign", rng.choice([[0, 0], [0.5, 0.5], [1, 1], [0.5, None], [1, None], [0.25, None]])])
    if rng.random() < 0.08:
        r.append(["phantom", True])
    if rng.random() < 0.12 and not any(k == "parbox" for k, v in r):
        r.append(["mathmode", True])
    return r


def parbox_sp(width_pt):
    """width in PyX pts (bp) -> scaled points, as a user means it"""
    w = width_pt * 72.27 / 72
    s = "%.5f" % w
    ip, fr = s.split(".")
    return int(ip)*UNITY + minitex.round_decimals([int(c) for c in fr])


def pyx_attrs(attrs):
    from pyx import text, unit
    r = []
    for k, v in attrs:
        if k == "size":
            r.append(getattr(text.size, v))
        elif k == "sizei":
            i = SIZES.index(v)-4
            r.append(text.size(i) if i % 2 else text.size(sizename=v))
        elif k == "vshift":
            r.append(text.vshift.mathaxis if v == "mathaxis" else text.vshift(v[0], v[1]))
        elif k == "valign":
            r.append(text.valign(v))
        elif k == "parbox":
            r.append(text.parbox_pt(v[0], baseline=getattr(text.parbox, v[1])))
        elif k == "halign":
            r.append(text.boxhalign(v[0]) if v[1] is None else text.halign(v[0], v[1]))
        elif k == "phantom":
            r.append(text.phantom)
        elif k == "mathmode":
            r.append(text.mathmode)
    return r


def oracle_attrs(attrs, xscale=1):
    return [("size" if k == "sizei" else k, (parbox_sp(v[0]/xscale), v[1]) if k == "parbox" else v) for k, v in attrs]


BP = 72/72.27


def check_extents(ctx, cls, box, exp, what):
    got = [box.left, box.right, box.height, box.depth]
    from pyx import unit
    got = [unit.topt(x) for x in got]
    want = [float(minitex.print_scaled(x))*BP*unit.scale["x"] for x in exp[:4]]
    for n, g, e in zip(("left", "right", "height", "depth"), got, want):
        if abs(g - e) > 3e-5:
            ctx.fail(cls, "%s: %s is %.5f, its expression has %.5f" % (what, n, g, e))
            return False
    return True


PSNAMES = {}


def psname(font):
    return font.upper()


_w = {}


def tfmwidth(psname, code, fontobj):
    f = psname.lower()
    if f not in _w:
        _w[f] = tfm.cached(FONTS[f])
    return _w[f].chars[code][0]/float(1 << 20)


def drawn(exp, trafo):
    """expected glyphs and rules in PDF coordinates; trafo maps TeX box bp coordinates"""
    g = []
    for font, size, code, x, y in exp[4]:
        px, py = trafo(x/UNITY*BP, -y/UNITY*BP)
        g.append((psname(font), size/UNITY*BP, code, px, py))
    r = []
    for x, y, w, h in exp[5]:
        x, y, w, h = x/UNITY*BP, -y/UNITY*BP, w/UNITY*BP, h/UNITY*BP
        r.append(sorted(trafo(a, b) for a, b in ((x, y), (x+w, y), (x+w, y+h), (x, y+h))))
    return g, r


def compare_drawn(ctx, cls, what, want, got_g, got_r, tol=2e-3):
    """multisets of glyphs and rules agree"""
    wg, wr = want
    # numbers are written with a fixed number of decimals, trafos included
    tol += 3e-6*max([abs(v) for r in wr for p in r for v in p] + [abs(v) for g in wg for v in g[3:5]] + [0])
    key = lambda g: (g[0], g[2], round(g[3], 1), round(g[4], 1))
    rest = list(got_g)
    for g in wg:
        for i, h in enumerate(rest):
            if h[0] == g[0] and h[2] == g[2] and abs(h[3]-g[3]) < tol and abs(h[4]-g[4]) < tol and abs(h[1]-g[1]) < 1e-3:
                del rest[i]
                break
        else:
            near = [h for h in rest if h[0] == g[0] and h[2] == g[2]]
            ctx.fail(cls, "%s: glyph %s %d expected at (%.4f, %.4f) size %.4f is not drawn there (same glyph elsewhere: %s)"
                     % (what, g[0], g[2], g[3], g[4], g[1], [(round(h[3], 4), round(h[4], 4), round(h[1], 4)) for h in near[:3]]))
            return False
    if rest:
        ctx.fail(cls, "%s: %d glyphs too many, first %s" % (what, len(rest), rest[0][:5]))
        return False
    rr = [sorted(r) for r in got_r]
    for r in wr:
        for i, h in enumerate(rr):
            if len(h) == len(r) and all(abs(a[0]-b[0]) < tol and abs(a[1]-b[1]) < tol for a, b in zip(r, h)):
                del rr[i]
                break
        else:
            ctx.fail(cls, "%s: rule %s is not drawn" % (what, [tuple(round(v, 4) for v in p) for p in r]))
            return False
    if rr:
        ctx.fail(cls, "%s: %d rules too many, first %s" % (what, len(rr), rr[0]))
        return False
    return True


def gen_tex(rng, calm=False):
    """tuning of the simulated TeX and of the pipes"""
    return {"flush": rng.choice(["stdio", "stdio", "stdio", "line", "char"]),
            "bufsize": rng.choice([4096, 4096, 512, 64]),
            "think": rng.choice([[0], [0], [0, 0.01], [0, 0.3, 1.0]]) if not calm else [0],
            "dvistyle": rng.choice([0, 1, 2]),
            "pipe": rng.choice([65536, 65536, 4096, 512, 80]),
            "eintr": rng.choice([0, 0, 0, 60])}


SIMPLE_TEX = {"tex.flush": "stdio", "tex.bufsize": 4096, "tex.think": [0], "tex.dvistyle": 0, "tex.pipe": 65536, "tex.eintr": 0, "preempt": 0}
