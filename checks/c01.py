"""C01: every TeX text box is the typeset form of its own expression."""

import io
import os

from sim import docwork as dw, paint, pdfparse, seams, texwork as tw
from sim.core import Sim

ID = "C01"
warm = tw.warm


COLORS = [None, None, None, [1, 0, 0], [0, 0.2, 1]]


def gen(rng, tier):
    n = rng.randint(2, 9)
    ops = []
    names = []
    markers_all = 0
    engines = []
    for e in range(rng.choice([1, 1, 1, 2])):
        engines.append({"latex": rng.random() < 0.25, "ipc": rng.random() < 0.4, "multi": rng.random() < 0.8,
                        "lfs": rng.choice(["10pt", "10pt", "12pt"])})
    for i in range(n):
        k = rng.random()
        e = rng.randrange(len(engines))
        if k < 0.12:
            nm = "my" + rng.choice("abcdefgh")
            names.append(nm)
            ops.append({"op": "preamble", "e": e, "expr": "\\def\\%s{%s}" % (nm, tw.gen_expr(rng, None, 1))})
        elif k < 0.70:
            m = []
            attrs = tw.gen_attrs(rng)
            math = any(a[0] == "mathmode" for a in attrs)
            ops.append({"op": "text", "e": e, "expr": tw.gen_expr(rng, None, math=math, markers=None if math or any(a[0] == "parbox" for a in attrs) else m),
                        "attrs": attrs, "markers": m,
                        "x": rng.choice([0, 0, 1, 2.5]), "y": rng.choice([0, 0, -1, 3]), "rot": rng.choice([0, 0, 0, 30, 90]),
                        "single": rng.random() < 0.1, "color": rng.choice(COLORS), "multi": rng.random() < 0.1})
        elif k < 0.78:
            ops.append({"op": "text", "e": e, "expr": rng.choice(["bad \\undefinedcs{} tail", "x^2 no math", "\\errmessage{stop}", "{\\it \\nofont x}", "not \u00e4scii"]),
                        "attrs": [], "markers": [], "x": 0, "y": 0, "rot": 0, "single": False, "fails": True})
        elif k < 0.84:
            ops.append({"op": "marker", "i": rng.randrange(8)})
        elif k < 0.88:
            ops.append({"op": "transform", "i": rng.randrange(8), "t": [[rng.choice([0, 30, 90, -45]), rng.choice([0, 10, -7.5]), rng.choice([0, 3])]
                                                                         for _ in range(rng.choice([1, 1, 2]))]})
        elif k < 0.93:
            ops.append({"op": "output", "fmt": rng.choice(["pdf", "pdf", "pdf", "eps", "svg", "ps"])})
        elif k < 0.96:
            ops.append({"op": "finish", "e": e})
        else:
            ops.append({"op": "leak", "e": e, "expr": rng.choice(["\\def\\mya{LOCAL}\\mya", "\\hsize=10pt \\parindent=7pt a", "\\font\\f=cmr7 \\f z",
                                                                 "\\gdef\\PyXGlobal{G}\\PyXGlobal", "\\count1=7 \\dimen0=3pt a"])})
    return {"ops": ops, "engines": engines, "xscale": rng.choice([1, 1, 1, 1, 2, 0.5, 1.3]), "last": rng.choice(["pdf"]*8 + ["eps", "svg"]), "tex": tw.gen_tex(rng), "preempt": rng.choice([0, 0, 20, 80]),
            "simple": dict(tw.SIMPLE_TEX, xscale=1, last="pdf")}


class Session:
    """one engine of the code under test and its model"""

    def __init__(self, ctx, spec):
        from pyx import text
        self.ctx = ctx
        self.spec = spec
        kw = {"texipc": spec["ipc"]}
        if not spec["latex"]:
            kw["lfs"] = spec["lfs"]
            cls = text.TexEngine if spec["multi"] else text.SingleTexEngine
        else:
            kw["pyxgraphics"] = False
            cls = text.LatexEngine if spec["multi"] else text.SingleLatexEngine
        if not spec["multi"]:
            kw["cmd"] = ["latex" if spec["latex"] else "tex"]
        self.engine = cls(**kw)
        self.preambles = []
        if spec["latex"]:
            self.preambles.append(tw.LATEXSIZES)
            self.engine.preamble(tw.LATEXSIZES)
        self.model = None
        self.typeset = False
        self.done = False

    def fresh(self):
        self.model = tw.Oracle(self.spec["latex"], self.spec.get("lfs"))
        for p in self.preambles:
            self.model.run(p)

    def single(self):
        return self.engine.instance if self.spec["multi"] else self.engine


def run(ctx):
    from pyx import text, canvas, trafo, unit, config, color, document
    plan = ctx.plan
    tw.setup(ctx, plan["tex"])
    sim = ctx.sim
    if plan.get("preempt"):
        import sys
        sim.tracer = seams.line_tracer(sim, ("pyx/text.py",), plan["preempt"])
        sys.settrace(sim.tracer)
    sessions = [Session(ctx, s) for s in plan["engines"]]
    boxes = []        # (box, expected, op, session)

    xscale = plan.get("xscale", 1)
    unit.set(xscale=xscale)

    def place(op, x, y):
        """box coordinates to page coordinates"""
        import math
        x0, y0 = op["x"]*72/2.54, op["y"]*72/2.54
        x, y = x*xscale, y*xscale
        for rot, dx, dy in [(op["rot"], x0, y0)] + op["moved"]:
            ca, sa = math.cos(math.radians(rot)), math.sin(math.radians(rot))
            x, y = dx + ca*x - sa*y, dy + sa*x + ca*y
        return x, y

    def verify_all(what, fmt="pdf"):
        if not boxes:
            return
        if fmt != "pdf":
            what += " (%s)" % fmt
        c = canvas.canvas()
        for b, exp, op, s in boxes:
            c.insert(b)
        buf = io.BytesIO()
        c.writePDFfile(buf, write_compress=False)
        pdf = pdfparse.PDF(buf.getvalue())
        g, r = pdfparse.glyphs(pdf, pdf.pages[0][1], tw.tfmwidth)
        wg, wr, wc = [], [], []
        for b, exp, op, s in boxes:
            f = lambda x, y: place(op, x, y)
            gg, rr = tw.drawn(exp, f)
            wc += [tuple(op.get("color") or (0, 0, 0))]*(len(gg) + len(rr))
            # the bounding box consists of the four corners
            lt, rt, ht, dp = (float(tw.minitex.print_scaled(v))*tw.BP for v in exp[:4])   # scaled by place
            cs = [f(x, y) for x in (-lt, rt) for y in (-dp, ht)]
            bb = b.bbox()
            want = [min(x for x, y in cs), min(y for x, y in cs), max(x for x, y in cs), max(y for x, y in cs)]
            got = [bb.llx_pt, bb.lly_pt, bb.urx_pt, bb.ury_pt]
            if any(abs(u-v) > 1e-4 for u, v in zip(want, got)):
                ctx.fail("bbox", "%s: %r has the bounding box %s instead of %s" % (what, op["expr"], got, want))
                return
            wg += gg
            wr += rr
        for s in sessions:
            if not s.single().texipc and s.single().state == text.STATE_DONE:
                s.done = True
        if not tw.compare_drawn(ctx, "content", what, (wg, wr), g, r):
            return
        if fmt == "pdf" and not any(any(c) for c in wc):
            return
        try:
            marks = dw.Painted("pdf", buf.getvalue()).pages[0]
            gc = sorted(c for m in marks for c in [tuple(round(v, 3) for v in paint.torgb(m.color))])
            if gc != sorted(wc):
                ctx.fail("color", "%s: the colors are %r instead of %r" % (what, gc, sorted(wc)))
                return
            far = max([abs(v) for h in wg for v in h[3:5]] + [abs(v) for p in wr for q in p for v in q] + [0])
            if fmt != "pdf" and far < 2000 and len(marks) < 80:
                o = io.BytesIO()
                opt = {"page_centered": False, "page_paperformat": document.paperformat.A4} if fmt == "ps" else {"page_bboxenlarge": 0}
                getattr(c, dw.METHODS[fmt])(o, **opt)
                e = paint.compareflat(marks, dw.Painted(fmt, o.getvalue()).pages[0])
                ctx.count("output:" + fmt)
                if e:
                    ctx.fail("format", "%s: %s" % (what, e))
                    return
        except (paint.Problem, paint.PDFProblem) as e:
            ctx.fail("broken", "%s: %s" % (what, e))
            return

    for n, op in enumerate(plan["ops"]):
        sim.log("op", n, op["op"], op.get("expr", "")[:60])
        k = op["op"]
        s = sessions[op["e"] % len(sessions)] if "e" in op else None
        if k == "preamble":
            if s.typeset or s.single().state == text.STATE_DONE:
                continue
            s.engine.preamble(op["expr"])
            s.preambles.append(op["expr"])
        elif k in ("text", "leak"):
            if s.single().state == text.STATE_DONE:
                if not s.spec["multi"]:
                    try:
                        s.engine.text(0, 0, "x")
                    except text.TexDoneError:
                        pass
                    else:
                        ctx.fail("done", "text on a finished engine does not raise TexDoneError")
                    continue
                s.typeset = False
                s.done = False
            if not s.typeset:
                s.fresh()
            s.typeset = True
            attrs = op.get("attrs", [])
            pa = tw.pyx_attrs(attrs)
            if op.get("rot"):
                pa.append(trafo.rotate(op["rot"]))
            if op.get("color"):
                pa.append(color.rgb(*op["color"]))
            expr = text.MultiEngineText(op["expr"], "not used") if op.get("multi") else op["expr"]
            try:
                b = s.engine.text(op.get("x", 0)*unit.t_cm, op.get("y", 0)*unit.t_cm, expr, pa, singlecharmode=op.get("single", False))
            except UnicodeEncodeError as e:
                if op["expr"].isascii():
                    raise
                ctx.count("failed_texts")
                continue
            except text.TexResultError as e:
                if not op.get("fails"):
                    ctx.fail("error", "op %d: correct expression %r raised %s" % (n, op["expr"], str(e)[:300]))
                    return
                ctx.count("failed_texts")
                continue
            if op.get("fails"):
                ctx.fail("noerror", "op %d: wrong expression %r did not raise" % (n, op["expr"]))
                return
            exp = s.model.box(op["expr"], tw.oracle_attrs(attrs, xscale))
            ctx.count("boxes")
            if not tw.check_extents(ctx, "extents", b, exp, "op %d %r %s" % (n, op["expr"], attrs)):
                return
            op = dict(op)
            op.setdefault("x", 0), op.setdefault("y", 0), op.setdefault("rot", 0), op.setdefault("moved", [])
            boxes.append((b, exp, op, s))
        elif k == "marker":
            cand = [x for x in boxes if any(sp[0].startswith("PyX:marker") for sp in x[1][6])]
            if not cand:
                continue
            b, exp, bop, s2 = cand[op["i"] % len(cand)]
            for sp, x, y in exp[6]:
                if not sp.startswith("PyX:marker"):
                    continue
                name = sp.split()[1]
                mx, my = b.marker(name)
                x, y = x/65536*tw.BP, -y/65536*tw.BP
                ex, ey = place(bop, x, y)
                if abs(unit.topt(mx)-ex) > 2e-3 or abs(unit.topt(my)-ey) > 2e-3:
                    ctx.fail("marker", "op %d: marker %s of %r at (%f, %f), expected (%f, %f)" % (n, name, bop["expr"], unit.topt(mx), unit.topt(my), ex, ey))
                    return
                ctx.count("markers")
        elif k == "transform":
            if not boxes:
                continue
            b, exp, bop, s2 = boxes[op["i"] % len(boxes)]
            b.transform(*[trafo.rotate(r).translated_pt(dx, dy) for r, dx, dy in op["t"]])
            bop["moved"] = bop["moved"] + [tuple(t) for t in op["t"]]
            ctx.count("transformed")
        elif k == "output":
            verify_all("op %d" % n, op.get("fmt", "pdf"))
        elif k == "finish":
            if s.single().state != text.STATE_START:
                s.single().do_finish()
        if sim.violations:
            return
    if not sim.violations:
        verify_all("at the end", plan.get("last", "pdf"))
    ctx.world.run_atexit()
    if os.environ.get("VERIF_FIDELITY"):
        ctx.note = [(r["term"].latex, bytes(r["received"]).decode("latin1"), bytes(r["term"].allout).decode("latin1"),
                     r["outdir"], ctx.texcfg["texmf"], r["pages"]) for r in ctx.records]
    ctx.nontrivial = bool(boxes)
