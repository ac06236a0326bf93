"""C05: restarting the TeX engine is transparent."""

import errno
import io
import os
import re

from sim import pdfparse, seams, texwork as tw
from sim.core import Sim

ID = "C05"
warm = tw.warm
PSIZES = "\\def\\mysize{}"


def gen(rng, tier):
    latex = rng.random() < 0.3
    engine = {"latex": latex, "ipc": rng.random() < 0.25, "via": rng.choice(["engine", "engine", "module"]),
              "copyinput": rng.random() < 0.1}
    frags = {"w0": {"text": "Simulated Remark: one"}, "w1": {"text": "($TEXMF/macros.tex)"}, "w2": {"text": "Simulated Note: two"}}
    ops = []
    serial = 0
    n = rng.randint(4, 14)
    for i in range(n):
        k = rng.random()
        if k < 0.22:
            serial += 1
            o = {"op": "preamble", "name": "my" + rng.choice("abcdef"), "body": rng.choice(tw.WORDS) + " %d" % serial,
                 "frag": rng.choice([None, None, None, "w0", "w1", "w2"])}
            o["glob"] = rng.choice(["\\def", "\\gdef"])
            old = [x for x in ops if x["op"] == "preamble"]
            if old and rng.random() < 0.4:
                o = dict(rng.choice(old))       # the same once more
            elif old and rng.random() < 0.4:
                o["name"] = rng.choice(old)["name"]      # another definition
            ops.append(o)
        elif k < 0.60:
            ops.append({"op": "text", "use": ["my" + rng.choice("abcdef") if rng.random() < 0.4 else rng.choice([x["name"] for x in ops if x["op"] == "preamble"] or ["mya"])
                                          for _ in range(rng.choice([0, 1, 2]))],
                        "expr": tw.gen_expr(rng), "mark": rng.random() < 0.4, "attrs": tw.gen_attrs(rng) if rng.random() < 0.4 else []})
        elif k < 0.66:
            ops.append({"op": "fail", "expr": rng.choice(["\\undefinedcs{}", "\\errmessage{no}", "x^2"])})
        elif k < 0.74:
            ops.append({"op": "finish"})
        elif k < 0.84:
            ops.append({"op": "output"})
        elif k < 0.90:
            ops.append({"op": "marker", "i": rng.randrange(6)})
        elif k < 0.93:
            ops.append({"op": "reset", "reinit": False})
        elif k < 0.96:
            ops.append({"op": "reset", "reinit": True})
        else:
            ops.append({"op": "die", "how": rng.choice(["flush", "lose", "hang"])})
    faults = []
    if rng.random() < 0.2:
        faults.append({"kind": "spawn", "n": rng.randint(0, 3), "errno": rng.choice(["ENOENT", "EAGAIN", "EACCES"])})
    tex = tw.gen_tex(rng)
    tex["wait"], tex["showwait"] = rng.choice([(60, 5), (60, 0), (200, 100)])
    return {"ops": ops, "engine": engine, "fragments": frags, "faults": faults, "tex": tex, "preempt": rng.choice([0, 0, 0, 30]),
            "simple": dict(tw.SIMPLE_TEX, **{"engine.copyinput": False, "engine.via": "engine"})}


def run(ctx):
    from pyx import text, canvas, unit
    plan = ctx.plan
    spec = plan["engine"]
    cfg = dict(plan["tex"])
    cfg["fragments"] = plan["fragments"]
    tw.setup(ctx, cfg)
    sim, w = ctx.sim, ctx.world
    if plan.get("preempt"):
        import sys
        sim.tracer = seams.line_tracer(sim, ("pyx/text.py",), plan["preempt"])
        sys.settrace(sim.tracer)
    for f in plan["faults"]:
        en = getattr(errno, f["errno"])
        err = {errno.ENOENT: FileNotFoundError, errno.EACCES: PermissionError}.get(en, OSError)(en, os.strerror(en))
        for prog in ("tex", "latex"):
            w.spawn_errors[prog] = [None]*f["n"] + [err]
    pat = text.texmessage.pattern(re.compile(r"^\**Simulated Remark: .*$", re.MULTILINE), "simulated remarks")
    pat2 = text.texmessage.pattern(re.compile(r"^\**Simulated Note: .*$", re.MULTILINE), "simulated notes")
    parsers = {None: [], "w0": [pat], "w1": [text.texmessage.load], "w2": [text.texmessage.load, pat2]}
    kw = {"texipc": spec["ipc"]}
    if spec["copyinput"]:
        kw["copyinput"] = os.path.join(w.cwd, "copy.tex")
    if spec["latex"]:
        kw["pyxgraphics"] = False
    if spec["via"] == "module":
        text.set(text.LatexEngine if spec["latex"] else text.TexEngine, **kw)
        api, eng = text, text.defaulttextengine
        reset = lambda **k: text.reset(**k)
    else:
        eng = (text.LatexEngine if spec["latex"] else text.TexEngine)(**kw)
        api = eng
        reset = eng.reset
    mypre = []        # preambles since the last reset: (expr, fragment)
    extra = []

    def preamble(entry, msgs=[]):
        """given again when TeX could not be started"""
        for i in range(4):
            try:
                api.preamble(entry[0], msgs)
            except OSError:
                if i == 3 or not any(f.startswith("spawn:") for f in sim.faults):
                    raise
                ctx.count("spawn_failed")
            else:
                break
        mypre.append(entry)
    if spec["latex"]:
        preamble((tw.LATEXSIZES, None, None))
    boxes = []
    model = None
    started = None    # the TeX process in use

    def fresh():
        m = tw.Oracle(spec["latex"], None if spec["latex"] else "10pt")
        for e, f, d in mypre:
            if d:
                m.run(d)
        return m
    typeset = False
    dead = False
    finished = False

    def check_replay(rec, what):
        """the process got exactly the preambles since the last reset, in order"""
        got = bytes(rec["received"]).decode("ascii", "replace")
        at = -1
        for e, f, d in mypre:
            i = got.find(e + "%\n", at + 1)
            if i < 0:
                ctx.fail("preamble", "%s: the new TeX did not get the preamble %r (in order)" % (what, e))
                return False
            at = i + len(e) - 1
        for e in extra:
            if e in got and not any(e == x for x, f, d in mypre):
                ctx.fail("preamble", "%s: the new TeX got the forgotten preamble %r" % (what, e))
                return False
        for e in set(x for x, f, d in mypre):
            if got.count(e + "%\n") != sum(x == e for x, f, d in mypre):
                ctx.fail("preamble", "%s: the new TeX got the preamble %r %d times" % (what, e, got.count(e + "%\n")))
                return False
        ctx.count("replays_checked")
        return True

    def verify(what):
        c = canvas.canvas()
        for b, exp, op, s in boxes:
            c.insert(b)
        buf = io.BytesIO()
        c.writePDFfile(buf, write_compress=False)
        pdf = pdfparse.PDF(buf.getvalue())
        g, r = pdfparse.glyphs(pdf, pdf.pages[0][1], tw.tfmwidth)
        wg, wr = [], []
        for b, exp, op, s in boxes:
            gg, rr = tw.drawn(exp, lambda x, y: (x, y))
            wg += gg
            wr += rr
        ctx.count("outputs")
        return tw.compare_drawn(ctx, "content", what, (wg, wr), g, r)

    class Stop(Exception):
        pass
    lost = set()
    nsess = 0
    for n, op in enumerate(plan["ops"]):
        k = op["op"]
        what = "op %d (%s)" % (n, k)
        sim.log("op", n, k, op.get("expr", "")[:50])
        nrec = len(ctx.records)
        state = eng.instance.state
        spawn_failed = sim.faults.copy()
        try:
            if k == "preamble":
                if typeset and not finished or finished:
                    # forbidden once text was typeset
                    continue
                d = "%s\\%s{%s}" % (op["glob"], op["name"], op["body"])
                e = d + ("\\SimOut{%s}" % op["frag"] if op["frag"] else "")
                preamble((e, op["frag"], d), parsers[op["frag"]])
            elif k == "text":
                if dead:
                    continue
                # only names which are defined
                known = {re.match(r"\\g?def\\(my[a-f])", d).group(1) for e, f, d in mypre if d and d.startswith(("\\def\\my", "\\gdef\\my"))}
                e = op["expr"] + "".join("\\%s{}" % u for u in op["use"] if u in known)
                if op["mark"] and not any(a[0] in ("parbox", "mathmode") for a in op["attrs"]):
                    e += "\\PyXMarker{mk}"
                if any(a[0] == "mathmode" for a in op["attrs"]):
                    e = "x+y"
                restarted = finished or not typeset
                b = api.text(0, 0, e, tw.pyx_attrs(op["attrs"]))
                if restarted:
                    model = fresh()
                    if not check_replay(ctx.records[-1], what):
                        return
                    finished = False
                typeset = True
                nsess += restarted
                exp = model.box(e, tw.oracle_attrs(op["attrs"]))
                if not tw.check_extents(ctx, "extents", b, exp, "%s %r %s" % (what, e, op["attrs"])):
                    return
                boxes.append((b, exp, op, nsess))
                ctx.count("boxes")
            elif k == "fail":
                if dead or finished or not typeset:
                    continue
                try:
                    api.text(0, 0, op["expr"])
                except text.TexResultError:
                    pass
                else:
                    ctx.fail("noerror", "%s: a wrong expression does not raise" % what)
                    return
            elif k == "die":
                # TeX breaks down: its boxes are lost, a reset brings a new one
                if dead or finished or not typeset:
                    continue
                try:
                    api.text(0, 0, "\\SimHang{}" if op["how"] == "hang" else "\\SimDie{%s}" % op["how"])
                except text.TexResultError:
                    pass
                else:
                    ctx.fail("noerror", "%s: the end of TeX is not noticed" % what)
                    return
                boxes = [x for x in boxes if x[3] != nsess]
                dead = True
            elif k == "finish":
                if dead or eng.instance.state == text.STATE_START:
                    continue
                eng.instance.do_finish()
                if typeset or mypre:
                    finished = True
            elif k == "output":
                if not boxes:
                    continue
                if not verify(what):
                    return
                if not spec["ipc"]:
                    finished = finished or eng.instance.state == text.STATE_DONE
            elif k == "marker":
                cand = [x for x in boxes if any(sp[0] == "PyX:marker mk" for sp in x[1][6])]
                if not cand:
                    continue
                b, exp, bop, s = cand[op["i"] % len(cand)]
                mx, my = b.marker("mk")
                pos = [(x/65536*tw.BP, -y/65536*tw.BP) for sp, x, y in exp[6] if sp == "PyX:marker mk"][-1]
                if abs(unit.topt(mx)-pos[0]) > 2e-3 or abs(unit.topt(my)-pos[1]) > 2e-3:
                    ctx.fail("marker", "%s: at (%.4f, %.4f) instead of %s" % (what, unit.topt(mx), unit.topt(my), pos))
                    return
                if not spec["ipc"]:
                    finished = finished or eng.instance.state == text.STATE_DONE
            elif k == "reset":
                if op["reinit"]:
                    # also replays at once
                    reset(reinit=True)
                    if len(ctx.records) > nrec and not check_replay(ctx.records[-1], what):
                        return
                else:
                    reset()
                    extra += [e for e, f, d in mypre]
                    mypre = []
                    if spec["latex"]:
                        preamble((tw.LATEXSIZES, None, None))
                typeset = False
                finished = False
                dead = False
        except text.TexResultError as ex:
            ctx.fail("error", "%s raised %s" % (what, str(ex)[:500]))
            return
        except text.TexDoneError as ex:
            ctx.fail("done", "%s raised TexDoneError" % what)
            return
        except (OSError, IOError) as ex:
            if any(f.startswith("spawn:") for f in sim.faults) and sim.faults != spawn_failed:
                ctx.count("spawn_failed")
                sim.log("spawn failed")
                # nothing happened, the next call tries again
                continue
            raise
        if len(ctx.records) > nrec + 1:
            ctx.fail("starts", "%s started %d TeX processes" % (what, len(ctx.records) - nrec))
            return
    if boxes:
        try:
            verify("at the end")
        except text.TexResultError as ex:
            ctx.fail("error", "at the end: %s" % str(ex)[:500])
    w.run_atexit()
    ctx.count("sessions", nsess)
    ctx.nontrivial = nsess > 1
