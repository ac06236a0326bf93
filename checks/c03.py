"""C03: no TeX output is silently swallowed."""

import io

from sim import seams, texwork as tw
from sim.core import Sim

ID = "C03"
warm = tw.warm

# kind -> (text, parsers which accept it, text which has to be logged)
# LaTeX and TeX start a new line for these, whatever the terminal shows; there
# may be a prompt "*" which TeX takes for terminated by the user's return
WARNINGS = {
    "box_warning": ["Overfull \\hbox (15.0pt too wide) in paragraph at lines 1--2\n[]\\tenrm some text \n\n",
                    "Underfull \\hbox (badness 10000) detected at line 7\n\n",
                    "Overfull \\vbox (3.2pt too high) detected at line 11\n\n"],
    "font_warning": ["LaTeX Font Warning: Font shape `OT1/cmss/m/it' undefined\n(Font)              using `OT1/cmss/m/n' instead on input line 3.\n",
                     "LaTeX Font Warning: Some font shapes were not available, defaults substituted.\n"],
    "package_warning": ["Package hyperref Warning: Token not allowed in a PDF string,\n(hyperref)                removing `math shift'.\n",
                        "Package foo warning: be careful\n"],
    "rerun_warning": ["LaTeX Warning: Label(s) may have changed. Rerun to get cross-references right.\n"],
    "nobbl_warning": ["No file texput.bbl.\n"],
    "pattern": ["Simulated Remark: number 42 seen\n", "Simulated Remark: nothing else (really)\n"],
}
SILENT = {
    "no_aux": ["No file texput.aux.", "No file ./texput.aux."],
    "no_nav": ["No file texput.nav."],
    "load": ["($TEXMF/macros.tex)", "($TEXMF/macros.tex some words)", "($TEXMF/article.cls ($TEXMF/size10.clo))",
             "(\"$TEXMF/my macros.tex\")", "(\"$TEXMF/my macros.tex\" and words (\"$TEXMF/plot one.eps\" in) side)",
             "($TEXMF/very/long/directory/name/for/a/package/named/reallylongname.sty)",
             "($TEXMF/very/long/directory/name/for/a/package/named/reallylongname.sty text after it which is long too)",
             "($TEXMF/macros.tex) ($TEXMF/graphicx.sty ($TEXMF/color.sty))"],
    "load_def": ["($TEXMF/t1cmr.fd)", "($TEXMF/utf8.def)", "(\"$TEXMF/my font.def\")", "($TEXMF/t1cmr.fd) ($TEXMF/ot1cmss.fd)",
                 "(\"$TEXMF/my font.def\") (\"$TEXMF/my font.def\")"],
    "load_graphics": ["<$TEXMF/fig.eps>", "<\"$TEXMF/plot one.eps\">", "<$TEXMF/fig.eps> <$TEXMF/fig.eps>",
                      "<\"$TEXMF/plot one.eps\"> <\"$TEXMF/plot one.eps\">", "<$TEXMF/fig.eps> <\"$TEXMF/plot one.eps\">"],
}
BAD = ["Simulated message nobody expects", "! Emergency: something went wrong", "LaTeX Warning: Citation `x' undefined.",
       "No file other.toc.", "($TEXMF/missing.sty)", "(\"$TEXMF/not there.tex\")", "($TEXMF/gone.fd)", "<$TEXMF/none.eps>",
       "<\"$TEXMF/no ne.eps\">", "x", "$TEXMF", "Missing character: There is no \\344 in font cmr10!", "Runaway argument?\n{abc",
       "word " * 40, "(unbalanced", "unbalanced)", "Error at ***", "a\nb\nc\nd\ne\nf\ng\nh\ni", "($TEXMF)", "Gr\xfc\xdfe \xa4",
       "overfull box", "Transcript kept", "Output is nothing", "PyXBox", "[81.1]"]
NEWLINE = ("box_warning", "font_warning", "package_warning", "rerun_warning", "pattern")
PARENS = ("box_warning", "font_warning", "package_warning", "rerun_warning", "pattern")
DEFAULT = {"text": ["font_warning", "box_warning", "package_warning", "load_def", "load_graphics"],
           "preamble": ["load"],
           "docclass": ["load"],
           "begindoc": ["load", "no_aux"],
           "end": ["end", "font_warning", "rerun_warning", "nobbl_warning"]}
ACCEPT = {k: {k} for k in list(WARNINGS) + list(SILENT)}
ACCEPT["load_def"] = {"load_def", "load"}
ALLPARSERS = ["no_aux", "no_nav", "load", "load_def", "load_graphics", "box_warning", "font_warning", "package_warning",
              "rerun_warning", "nobbl_warning", "pattern", "ignore", "warn"]


def gen(rng, tier):
    latex = rng.random() < 0.4
    frags = {}

    def fragment(badness):
        k = rng.random()
        if k < badness:
            f = {"kind": "bad", "text": rng.choice(BAD)}
        elif k < badness + (1-badness)*0.5:
            kind = rng.choice(sorted(SILENT))
            f = {"kind": kind, "text": rng.choice(SILENT[kind])}
        else:
            kind = rng.choice(sorted(WARNINGS))
            f = {"kind": kind, "text": rng.choice(WARNINGS[kind])}
        key = "f%d" % len(frags)
        frags[key] = f
        return key

    def parsers(keys):
        """mostly what the fragments need"""
        r = []
        for k in keys:
            kind = frags[k]["kind"]
            if kind != "bad" and rng.random() < 0.85:
                r.append(rng.choice(sorted(ACCEPT[kind])))
            elif kind == "bad" and rng.random() < 0.15:
                r.append(rng.choice(["ignore", "warn"]))
        while rng.random() < 0.15:
            r.append(rng.choice(ALLPARSERS))
        rng.shuffle(r)
        return list(dict.fromkeys(r))
    engine = {"latex": latex, "ipc": rng.random() < 0.2, "detail": rng.choice(["none", "default", "full", "full"])}
    phase = {}
    for ph, slot in (("docclass", "docclass"), ("begindoc", "begindoc"), ("end", "end")):
        if not latex and ph != "end":
            continue
        phase[ph] = [fragment(0.25) for i in range(rng.choice([0, 0, 0, 1, 2]))]
        engine[slot] = parsers(phase[ph])
    engine["text"] = rng.sample(ALLPARSERS[:-2], rng.choice([0, 0, 1, 3]))
    engine["preamble"] = rng.sample(ALLPARSERS[:-2], rng.choice([0, 0, 1]))
    ops = []
    for i in range(rng.randint(1, 6)):
        keys = [fragment(rng.choice([0.1, 0.4])) for i in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]
        if rng.random() < 0.2 and i < 2:
            ops.append({"op": "preamble", "frags": keys, "parsers": parsers(keys)})
        else:
            ops.append({"op": "text", "frags": keys, "parsers": parsers(keys), "expr": tw.gen_expr(rng),
                        "pos": rng.choice(["before", "after"])})
    if rng.random() < 0.6:
        ops.append({"op": "finish"})
    return {"ops": ops, "engine": engine, "fragments": frags, "phase": phase, "tex": tw.gen_tex(rng), "preempt": rng.choice([0, 0, 0, 20]),
            "simple": dict(tw.SIMPLE_TEX)}


def flat(s):
    """without line structure"""
    return "".join("".join(s.split("\n")).split())


def run(ctx):
    import re
    from pyx import text, canvas
    plan = ctx.plan
    spec = plan["engine"]
    frags = plan["fragments"]
    cfg = dict(plan["tex"])
    cfg["fragments"] = {k: dict(f, text=("\n" if f["kind"] in NEWLINE else "") + f["text"]) for k, f in frags.items()}
    cfg["phase"] = plan["phase"]
    tw.setup(ctx, cfg)
    sim = ctx.sim
    texmf = ctx.texcfg["texmf"]
    if plan.get("preempt"):
        import sys
        sim.tracer = seams.line_tracer(sim, ("pyx/text.py",), plan["preempt"])
        sys.settrace(sim.tracer)
    pat = text.texmessage.pattern(re.compile(r"^Simulated Remark: .*$", re.MULTILINE), "simulated remarks")
    pars = lambda names: [pat if n == "pattern" else getattr(text.texmessage, n) for n in names]
    kw = {"texipc": spec["ipc"], "errordetail": getattr(text.errordetail, spec["detail"]),
          "texmessages_preamble": pars(spec["preamble"]), "texmessages_run": pars(spec["text"]), "texmessages_end": pars(spec["end"])}
    if spec["latex"]:
        kw.update(pyxgraphics=False, texmessages_docclass=pars(spec["docclass"]), texmessages_begindoc=pars(spec["begindoc"]), cmd=["latex"])
        engine = text.SingleLatexEngine(**kw)
    else:
        engine = text.SingleTexEngine(cmd=["tex"], **kw)

    def wrapped(f):
        return max(len(l) for l in f["text"].replace("$TEXMF", texmf).split("\n")) >= 79

    def judge(keys, names, outside=True):
        """False: has to raise, True: must not raise, None: not decided; and the messages to be logged"""
        if "ignore" in names or "warn" in names:
            # everything not recognised before is accepted; a parser may still refuse by raising
            return True, []
        logged = []
        undecided = False
        # the nobbl parser takes the empty line which ends a box warning
        if {"nobbl_warning", "box_warning"} <= {frags[k]["kind"] for k in keys} & set(names):
            return None, []
        for k in keys:
            f = frags[k]
            if f["kind"] == "bad":
                return False, []
            if not ACCEPT[f["kind"]] & set(names):
                return False, []
        if not keys:
            return True, []
        loading = "no_aux" in names[:2] or names is docnames or any(frags[j]["kind"] in ("load", "load_def") for j in keys)
        for k in keys:
            f = frags[k]
            if f["kind"] in WARNINGS:
                logged.append(f)
                if wrapped(f):
                    undecided = True
            # the parsers work one after the other: brackets of a message which is
            # to be accepted later hide file names from the load parsers
            if f["kind"] in PARENS and "(" in f["text"]:
                need = [i for i, n in enumerate(names) if n in ACCEPT[f["kind"]]]
                lo = [i for i, n in enumerate(names) if n in ("load", "load_def")]
                if lo and lo[0] < need[0] and loading:
                    undecided = True
        return (None if undecided else True), logged

    docnames = DEFAULT["docclass"] + spec.get("docclass", [])      # the class file is loaded in any case
    good = []
    began = False
    started = False
    model = tw.Oracle(spec["latex"], None if spec["latex"] else "10pt")
    ops = plan["ops"]
    if spec["latex"]:
        # the second one succeeds when the first one met complaints about the document class
        ops = [{"op": "preamble", "frags": [], "parsers": [], "expr": tw.LATEXSIZES}]*2 + ops
    for n, op in enumerate(ops):
        k = op["op"]
        keys, names = [], []
        sim.log("op", n, k, op.get("frags"), op.get("parsers"))
        state0 = engine.state
        steps = []      # the expressions passed to TeX by this call: fragments, parsers
        if spec["latex"] and not started and k != "finish":
            steps.append((plan["phase"]["docclass"], docnames))
        if k == "preamble":
            if began:
                continue
            steps.append((op["frags"], DEFAULT["preamble"] + spec["preamble"] + op["parsers"]))
        elif k == "text":
            if spec["latex"] and not began:
                steps.append((plan["phase"]["begindoc"], DEFAULT["begindoc"] + spec["begindoc"]))
            steps.append((op["frags"], DEFAULT["text"] + spec["text"] + op["parsers"]))
        else:
            if not began:
                continue
            steps.append((plan["phase"]["end"], DEFAULT["end"] + spec["end"]))
        outs = "".join("\\SimOut{%s}" % f for f in op.get("frags", []))
        err = None
        box = None
        log0 = len(ctx.logs)
        try:
            if k == "preamble":
                engine.preamble(outs + op.get("expr", ""), pars(op["parsers"]))
            elif k == "text":
                expr = op["expr"] + outs if op["pos"] == "after" else outs + op["expr"]
                box = engine.text(0, 0, expr, texmessages=pars(op["parsers"]))
            else:
                engine.do_finish()
        except text.TexResultError as e:
            err = e
        except text.TexDoneError:
            ctx.fail("done", "op %d: TexDoneError although TeX was not finished" % n)
            return
        warned = [m for t, l, m in ctx.logs[log0:] if l >= 30]
        # what was to be expected?  the first step which has to raise ends the call
        verdict, culprit, logged = True, None, []
        for keys, names in steps:
            v, lg = judge(keys, names)
            logged += lg
            if v is not True:
                verdict, culprit = v, (keys, names)
                break
        what = "op %d (%s) fragments %s parsers %s" % (n, k, [[frags[f]["text"][:40] for f in s[0]] for s in steps], [s[1] for s in steps])
        if verdict is False:
            if err is None:
                ctx.fail("swallowed", "%s: unacceptable output, but no error" % what)
                return
            ctx.count("raised")
            bad = [f for f in culprit[0] if frags[f]["kind"] == "bad" or not ACCEPT[frags[f]["kind"]] & set(culprit[1])]
            full = spec["detail"] == "full"
            few = spec["detail"] == "default" and len(culprit[0]) == 1 and frags[bad[0]]["text"].count("\n") < 2 and len(frags[bad[0]]["text"]) < 60
            if full or few:
                for f in bad:
                    t = frags[f]["text"].replace("$TEXMF", texmf).encode("latin1").decode("ascii", "surrogateescape")
                    if flat(t) not in flat(str(err)):
                        ctx.fail("notquoted", "%s: the error does not quote %r: %s" % (what, t, str(err)[-600:]))
                        return
        elif verdict is True:
            if err is not None:
                ctx.fail("refused", "%s: everything is acceptable, but: %s" % (what, str(err)[:900]))
                return
            ctx.count("accepted")
            names = [n for s in steps for n in s[1]]
            for f in logged:
                t = flat(f["text"].replace("$TEXMF", texmf))
                c = sum(t in flat(m) for m in warned)
                if c < 1:
                    ctx.fail("notlogged", "%s: %r is not logged" % (what, f["text"]))
                    return
            if "warn" in names and "ignore" not in names and k != "finish":
                for s in steps[-1:]:
                    if "warn" in s[1]:
                        for f in s[0]:
                            if frags[f]["kind"] == "bad":
                                t = frags[f]["text"].replace("$TEXMF", texmf).encode("latin1").decode("ascii", "surrogateescape")
                                if not any(flat(t) in flat(m) for m in warned):
                                    ctx.fail("notlogged", "%s: %r is accepted with a warning, but not logged" % (what, f and frags[f]["text"]))
                                    return
        else:
            ctx.count("undecided")
        if k in ("text", "preamble"):
            if len(steps) == 1 or engine.state >= text.STATE_PREAMBLE:
                started = True
            if k == "text" and engine.state == text.STATE_TYPESET:
                began = True
        if box is not None:
            exp = model.box(op["expr"], [])
            if not tw.check_extents(ctx, "extents", box, exp, "op %d %r after %d fragments" % (n, op["expr"], len(op["frags"]))):
                return
            good.append((box, exp))
            ctx.count("boxes")
        if k == "finish":
            if err is not None:
                ctx.world.run_atexit()
                ctx.nontrivial = True
                return
    if good and not sim.violations:
        try:
            c = canvas.canvas()
            for b, exp in good:
                c.insert(b)
            buf = io.BytesIO()
            c.writePDFfile(buf, write_compress=False)
        except text.TexResultError as e:
            v, lg = judge(plan["phase"]["end"], DEFAULT["end"] + spec["end"])
            if v is True:
                ctx.fail("refused", "finishing: everything is acceptable, but: %s" % str(e)[:600])
        else:
            from sim import pdfparse
            pdf = pdfparse.PDF(buf.getvalue())
            g, r = pdfparse.glyphs(pdf, pdf.pages[0][1], tw.tfmwidth)
            wg, wr = [], []
            for b, exp in good:
                gg, rr = tw.drawn(exp, lambda x, y: (x, y))
                wg += gg
                wr += rr
            tw.compare_drawn(ctx, "content", "at the end", (wg, wr), g, r)
    ctx.world.run_atexit()
    ctx.nontrivial = any(o.get("frags") for o in plan["ops"]) or any(plan["phase"].values())
