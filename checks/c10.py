"""C10: every format is written completely and all formats paint the same drawing."""

import logging

from sim import docwork as dw, drawing, drawmodel, paint, pdfparse, texwork

ID = "C10"


def warm():
    logging.getLogger("pyx").setLevel(logging.CRITICAL)
    texwork.memo_t1()
    drawing.warm()
    for n in drawing.FONTS:
        t = dw.original(n.upper())
    logging.getLogger("pyx").setLevel(logging.NOTSET)


def gen(rng, tier):
    spec = drawing.gen(rng, simple=rng.random() < 0.35)
    order = list(spec["formats"])
    rng.shuffle(order)
    if rng.random() < 0.15:
        order.append(rng.choice(order))
    return {"spec": spec, "order": [[f, rng.choice(dw.TARGETS)] for f in order], "buffer": rng.choice([None, None, 512, 64])}


def run(ctx):
    plan, spec, w = ctx.plan, ctx.plan["spec"], ctx.world
    if plan["buffer"]:
        w.buffer_size = plan["buffer"]
    build = drawing.Builder(spec, w.cwd)
    doc = build.document()
    npages = len(spec["pages"])
    walk = dw.Walk(spec)
    items = [list(walk.items(p["items"])) for p in spec["pages"]]
    model = drawmodel.Model(spec) if spec.get("simple") else None
    shown = []
    for i in range(npages if model else 0):
        m = model.page(i)
        shown.append(m + (model.text, model.u))
    wrote = []
    for n, (fmt, kind) in enumerate(plan["order"]):
        t = dw.Target(ctx, kind, fmt, n)
        heard = len(ctx.warnings)
        try:
            with t:
                drawing.write(doc, fmt, t.arg, spec["options"][fmt])
        except ValueError as e:
            if model and "Margins too broad" in str(e) and tight(spec, shown):
                ctx.count("refused: margins")
                continue
            if fmt == "pdf" and "empty bbox" in str(e) and any("paper" not in p and "bbox" not in p and not drawn(p["items"]) and not q.canvas.bbox() for p, q in zip(spec["pages"], doc.pages)):
                ctx.count("refused: empty page")
                continue
            if fmt == "pdf" and npages == 0:
                ctx.count("refused: no pages")
                continue
            raise
        if model and exceeds(ctx, spec, shown, heard, fmt):
            return
        data = t.data()
        if data is None:
            return
        for h in w.handles:
            if not h.closed:
                return ctx.fail("open-file", "%s left %s open" % (fmt, w.short(h.path)))
        what = "%s (to %s)" % (fmt, kind)
        try:
            p = dw.Painted(fmt, data)
        except (paint.Problem, pdfparse.PDFProblem) as e:
            return ctx.fail("invalid:%s" % fmt, "%s: %s" % (what, str(e)[:500]))
        ctx.count("written:%s" % fmt)
        wrote.append((what, fmt, p))
        if len(p.pages) != npages:
            return ctx.fail("pages", "%s has %d pages, not %d" % (what, len(p.pages), npages))
        for i, marks in enumerate(p.pages):
            ctx.count("marks", len(marks))
            r = dw.badfont(marks)
            if r:
                return ctx.fail("font", "%s, page %d: %s" % (what, i+1, r))
            bad = pictures(items[i], marks)
            if bad:
                return ctx.fail("bitmap", "%s, page %d: %s" % (what, i+1, bad))
            if not single(ctx, spec, p, i, what):
                return
            if model and not painted(ctx, spec, p, i, what, shown[i]):
                return
    pages = 0
    for (wa, fa, a), (wb, fb, b) in zip(wrote, wrote[1:]):
        oa, ob = spec["options"][fa], spec["options"][fb]
        ta, tb = oa.get("textaspath", fa == "svg"), ob.get("textaspath", fb == "svg")
        flat = ta != tb or "svg" in (fa, fb) and not ta and fa != fb
        for i, (x, y) in enumerate(zip(a.pages, b.pages)):
            # opacity is unknown to PostScript, SVG has 8 bit colors
            r = (paint.compareflat if flat else paint.compare)(x, y, ctol=0.0041 if "svg" in (fa, fb) else 1e-5, scale=max(1, a.zoom/5, b.zoom/5),
                                                               opacity=not {fa, fb} & {"ps", "eps"})
            if r:
                return ctx.fail("differ", "page %d of %s and %s: %s" % (i+1, wa, wb, r[:700]))
            if r == "":
                ctx.count("not comparable")
            else:
                pages += 1
    ctx.count("pages compared", pages)
    eb = [(wa, p.boxes[0], p) for wa, f, p in wrote if f in ("eps", "svg")]
    if npages == 1 and "paper" not in spec["pages"][0]:
        eb += [(wa, p.boxes[0], p) for wa, f, p in wrote if f == "pdf"]
    for (wa, a, pa), (wb, b, pb) in zip(eb, eb[1:]):
        if (a is None) != (b is None) or a and any(abs(x-y) > 5e-3+1e-5*max(map(abs, a)) for x, y in zip(a, b)):
            return ctx.fail("box", "%s has the box %r, %s has %r" % (wa, a, wb, b))
        ctx.count("boxes compared")
    if wrote and any(items):
        ctx.nontrivial = True


def tight(spec, shown):
    """whether the margins leave no space on a page"""
    for page, s in zip(spec["pages"], shown):
        try:
            drawmodel.place(page, s[1], s[4])
        except drawmodel.Refused:
            return True
    return False


def exceeds(ctx, spec, shown, heard, fmt):
    """a warning tells that the content is larger than the paper, and only then"""
    want = [drawmodel.exceeds(page, s[1], s[4]) if not s[3] or "bbox" in page else None for page, s in zip(spec["pages"], shown)]
    if None in want:
        return False
    n = sum(1 for x in ctx.warnings[heard:] if "content exceeds the papersize" in x)
    ctx.count("paper large enough" if not n else "paper too small")
    if n == want.count(True):
        return False
    ctx.fail("exceeds", "%s: %d warnings about content which exceeds the paper for pages of which %r do" % (fmt, n, want))
    return True


def painted(ctx, spec, p, i, what, shown):
    """the page shows what the drawing model says"""
    page = spec["pages"][i]
    marks, thin, thick, text, u = shown
    if text and "paper" in page and "bbox" not in page:
        # (the extent of the text is not known here)
        return True
    m = drawmodel.place(page, thin, u)
    r = drawmodel.compare(drawmodel.moved(marks, m), p.pages[i], 0.0041 if p.fmt == "svg" else 1e-5, max(1, p.zoom/5), p.fmt in ("pdf", "svg"))
    if r:
        ctx.fail("drawing", "%s, page %d: %s" % (what, i+1, r[:900]))
        return False
    ctx.count("pages as modelled")
    if p.fmt in ("eps", "svg") and "bbox" not in page and not text:
        want = drawmodel.mapbox(m, drawmodel.join(thick, drawmodel.grow(thin, page.get("enlarge", 1))))
        have = p.boxes[0]
        if (want is None) != (have is None) or want and any(s*(h-w) < -0.02-1e-4*abs(w) for s, w, h in zip((1, 1, -1, -1), want, have)):
            ctx.fail("box", "%s: the box %r is larger than %r, in which everything is" % (what, have, want))
            return False
    return True


def drawn(items):
    """whether the items surely have an extent"""
    return any(x["t"] in ("bitmap", "mesh", "eps", "graph", "field") or x["t"] in ("canvas", "layer") and not any(a[0] == "clip" for a in x.get("attrs", [])) and drawn(x["items"])
               for x in items)


def pictures(items, marks):
    """the samples of the bitmaps given arrive in the file"""
    want = []
    for x in items:
        if x["t"] == "bitmap":
            v = dw.wanted(x, None)
            want.append(v)
    have = [m for m in marks if m.kind == "image"]
    if len(have) != len(want):
        return "%d images instead of %d" % (len(have), len(want))
    # layers change the order
    for v in want:
        if v is None:
            continue
        bad = [samples(n, v, m) for n, m in enumerate(have)]
        if None not in bad:
            return "; ".join(bad)
        del have[bad.index(None)]
    return None


def samples(n, v, m):
    """difference between an image and the samples given"""
    if 1:
        size, mode, data, alpha, pal = v
        ms, mm, md, ma, mp = m.size, m.mode, m.data, m.alpha8 or b"", m.palette or ("", b"")
        if mode == "P" and mm == "P":
            # only what the pixels refer to counts
            k = {"DeviceGray": 1, "DeviceRGB": 3, "DeviceCMYK": 4}
            if mp[0] != pal[0] or ms != size or ma != alpha:
                return "image %d has %r" % (n, m)
            look = lambda d, p: [p[1][c*k[p[0]]:(c+1)*k[p[0]]] for c in d]
            if look(md, mp) != look(data, pal):
                return "image %d of %r pixels shows other colors" % (n, size)
        elif (ms, mm, md, ma) != (size, mode, data, alpha):
            return "image %d: %s %s with %d bytes of samples and %d of alpha; given were %s %s with %d and %d%s" % (
                n, ms, mm, len(md), len(ma), size, mode, len(data), len(alpha), "" if (ms, mm) != (size, mode) else " (other values)")
    return None


def single(ctx, spec, p, i, what):
    """checks on one page of one file"""
    page = spec["pages"][i]
    opt = spec["options"][p.fmt]
    if p.fmt == "pdf":
        walk = dw.Walk(spec)
        its = [list(walk.items(q["items"])) for q in spec["pages"]][i]
        a, b = dw.fields(its), dw.widgets(p.pdf, p.pdf.pages[i][1])
        if a != b:
            ctx.fail("fields", "%s, page %d has the form fields %r instead of %r" % (what, i+1, b, a))
            return False
        if a:
            ctx.count("fields", len(a))
    box = p.boxes[i] if p.boxes and "paper" not in page else p.crops[i] if p.fmt == "pdf" else None
    if box and "bbox" not in page and not opt.get("textaspath", p.fmt == "svg"):
        r = dw.outside(p.pages[i], box, 0.05+page.get("enlarge", 0)*0)
        if r:
            ctx.fail("bbox", "%s, page %d: %s" % (what, i+1, r[:500]))
            return False
        ctx.count("box covers")
    if p.fmt == "eps" and p.boxes[0]:
        if any(abs(x-y) > 1.0001+1e-5*abs(y) for x, y in zip(p.low, p.boxes[0])) or p.low[0] > p.boxes[0][0]+1e-3 or p.low[1] > p.boxes[0][1]+1e-3 or \
                p.low[2] < p.boxes[0][2]-1e-3 or p.low[3] < p.boxes[0][3]-1e-3:
            ctx.fail("bbox", "%s: bounding boxes %r and %r" % (what, p.low, p.boxes[0]))
            return False
    return True
