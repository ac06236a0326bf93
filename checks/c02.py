"""C02: waiting for TeX is bounded and reported."""

import io
import logging

from sim import pdfparse, seams, texwork as tw
from sim.core import Deadlock

ID = "C02"
warm = tw.warm
EXPRS = ["a", "Hello", "office $x^2$", "AVATAR", "\\hbox{fix}\\kern3pt{}q"]


def odd(rng, lo, hi):
    return round(rng.uniform(lo, hi), 0) + rng.choice([0.25, 0.5, 0.37])


def gen(rng, tier):
    wait = rng.choice([1, 2, 3, 5, 7, 10, 12, 30, 60])
    showwait = rng.choice([0, 1, 2, 3, 5, 7, 5, 61])
    tex = tw.gen_tex(rng, calm=rng.random() < 0.6)
    tex["pipe"] = rng.choice([65536, 65536, 4096])
    tex["wait"], tex["showwait"] = wait, showwait
    tex["ignore"] = rng.choice([[], [], ["SIGTERM"]])
    if rng.random() < 0.3:
        tex["hang_eof"] = True
    ops = []

    def inject():
        k = rng.random()
        if k < 0.45:
            return None
        if k < 0.80:
            return "sleep:%.2f" % rng.choice([odd(rng, 0, wait - 1), odd(rng, 0, wait - 1), odd(rng, wait, 2*wait)])
        if k < 0.88:
            return "hang"
        if k < 0.92:
            return "spew"
        return rng.choice(["flush", "lose", "partial"])
    for i in range(rng.randint(1, 6)):
        k = rng.random()
        if k < 0.15:
            ops.append({"op": "preamble", "expr": "\\def\\my%s{%s}" % (rng.choice("abc"), rng.choice(EXPRS)), "inject": inject()})
        elif k < 0.75:
            ops.append({"op": "text", "expr": rng.choice(EXPRS), "inject": inject()})
        elif k < 0.85:
            ops.append({"op": "output"})
        else:
            ops.append({"op": "finish", "inject": inject()})
    trap = {}
    if rng.random() < 0.25:
        a = inject()
        if a:
            trap[str(rng.randint(1, 130))] = a
    if rng.random() < 0.004:
        ops.append({"op": "long", "n": 90000})
    if rng.random() < 0.2:
        tex["hang_for"] = odd(rng, 0, 3*wait)
    tex["trap"] = trap
    return {"ops": ops, "latex": rng.random() < 0.3, "ipc": rng.random() < 0.3, "multi": rng.random() < 0.7, "tex": tex,
            "preempt": rng.choice([0, 0, 30, 120]),
            "simple": dict(tw.SIMPLE_TEX, **{"latex": False, "ipc": False, "multi": False, "tex.wait": 10, "tex.showwait": 5, "tex.hang_eof": False, "tex.ignore": []})}


def command(a):
    if a is None:
        return ""
    if a.startswith("sleep:"):
        return "\\SimSleep{%s}" % a[6:]
    if a == "hang":
        return "\\SimHang{}"
    if a == "spew":
        return "\\SimSpew{}"
    return "\\SimDie{%s}" % a


def run(ctx):
    from pyx import text, canvas
    plan = ctx.plan
    tw.setup(ctx, plan["tex"])
    sim = ctx.sim
    if plan.get("preempt"):
        import sys
        sim.tracer = seams.line_tracer(sim, ("pyx/text.py",), plan["preempt"])
        sys.settrace(sim.tracer)
    wait, showwait = plan["tex"]["wait"], plan["tex"]["showwait"]
    name = "LaTeX" if plan["latex"] else "TeX"
    kw = {"texipc": plan["ipc"]}
    if plan["latex"]:
        kw["pyxgraphics"] = False
    cls = {(False, False): text.SingleTexEngine, (False, True): text.TexEngine,
           (True, False): text.SingleLatexEngine, (True, True): text.LatexEngine}[plan["latex"], plan["multi"]]
    if not plan["multi"]:
        kw["cmd"] = ["latex" if plan["latex"] else "tex"]
    engine = cls(**kw)
    single = lambda: engine.instance if plan["multi"] else engine
    model = None
    preambles = []
    typeset = False
    broken = [False]
    boxes = []
    hard = ("tex_hang", "tex_spew", "tex_die_flush", "tex_die_lose", "tex_die_partial")

    def output():
        c = canvas.canvas()
        for b, e in boxes:
            c.insert(b)
        buf = io.BytesIO()
        c.writePDFfile(buf, write_compress=False)
        pdf = pdfparse.PDF(buf.getvalue())
        g, r = pdfparse.glyphs(pdf, pdf.pages[0][1], tw.tfmwidth)
        wg, wr = [], []
        for b, e in boxes:
            gg, rr = tw.drawn(e, lambda x, y: (x, y))
            wg += gg
            wr += rr
        tw.compare_drawn(ctx, "content", "output", (wg, wr), g, r)

    for n, op in enumerate(plan["ops"]):
        k = op["op"]
        inj = op.get("inject")
        inst = single()
        if k == "preamble" and (typeset or inst.state >= text.STATE_TYPESET):
            continue
        if k in ("text", "long") and inst.state == text.STATE_DONE:
            if not plan["multi"]:
                continue
            typeset = False
        if k == "output" and not boxes or k == "finish" and inst.state in (text.STATE_START, text.STATE_DONE):
            continue
        sim.log("op", n, k, op.get("expr", ""), inj)
        t0, log0 = sim.now, len(ctx.logs)
        faults0 = sum(sim.faults.get(f, 0) for f in hard)
        started0 = len(ctx.records)
        was_broken = broken[0]
        sim.stdin_blocked = 0
        err = res = None
        waits = 1
        try:
            if k == "preamble":
                preambles.append(op["expr"])
                engine.preamble(op["expr"] + "%\n" + command(inj))
            elif k == "text":
                typeset = True
                res = engine.text(0, 0, op["expr"] + command(inj))
            elif k == "long":
                res = engine.text(0, 0, "\\SimHang{}%\n" + ("a"*60 + "%\n")*(op["n"]//62))
            elif k == "finish":
                waits = 5
                if inj and inst.state == text.STATE_TYPESET:
                    for rec in ctx.records[-1:]:
                        # the injection hits the line with the end command
                        rec["term"].trap[str(rec["term"].lines + 1)] = {"lose": "lose"}.get(inj, inj)
                inst.do_finish()
            elif k == "output":
                waits = 5
                output()
        except Deadlock as e:
            bw = getattr(sim, "blocked_write", None)
            if bw is not None and bw[1] > bw[0].capacity and (sim.faults.get("tex_hang") or sim.faults.get("tex_spew")):
                ctx.fail("blocked_write", "op %d (%s): the caller is blocked for ever writing its input to a hung TeX (%d bytes for a pipe which takes %d)" % (n, k, bw[1], bw[0].capacity))
            else:
                ctx.fail("never", "op %d (%s): never returns (%s)" % (n, k, e.args[1]))
            return
        except Exception as e:
            err = e
        t1 = sim.now
        logs = ctx.logs[log0:]
        term = [r["term"] for r in ctx.records]
        sleeps = [s for r in ctx.records for s in r["sleeps"] if t0 <= s[0] <= t1]
        late = [s for r in ctx.records for s in r["sleeps"] if s[0] < t0 < s[0] + s[1]]
        hardnow = sum(sim.faults.get(f, 0) for f in hard) - faults0
        total = sum(s[1] for s in sleeps)
        sim.log("returned", type(err).__name__ if err else "ok", "after %.2f" % (t1-t0))
        # 1. bounded
        bound = waits*wait + (total if not was_broken else 0) + 0.01
        if was_broken:
            bound = 8*wait + 0.01
        if t1 - t0 > bound:
            if getattr(sim, "stdin_blocked", 0) >= t1 - t0 - bound:
                ctx.fail("blocked_write", "op %d (%s): the caller was blocked for %.1f s writing its input to a hung TeX" % (n, k, sim.stdin_blocked))
            else:
                ctx.fail("late", "op %d (%s): took %.2f s with wait = %d (TeX itself used %.2f s)" % (n, k, t1-t0, wait, total))
            return
        still = [(t, m) for t, l, m in logs if "till waiting for" in m]
        expired = [(t, m) for t, l, m in logs if "timeout" in m and "expired" in m]
        if any(l < logging.WARNING for t, l, m in logs if "till waiting for" in m or "expired" in m):
            ctx.fail("level", "op %d: waiting is not reported as a warning" % n)
            return
        if not was_broken and not hardnow and not late:
            # 2. a TeX which answers in time does no harm
            if total < wait:
                if isinstance(err, text.TexDoneError):
                    pass
                elif err is not None:
                    import traceback
                    ctx.fail("error", "op %d (%s): TeX used %.2f of %d s, but: %s %s" % (n, k, total, wait, type(err).__name__, str(err)[:300]))
                    return
                elif expired:
                    ctx.fail("spurious", "op %d (%s): timeout warning although TeX used %.2f of %d s only" % (n, k, total, wait))
                    return
                ctx.count("in_time")
            # 3. exact reporting for a single wait
            edge = lambda d: abs(d - wait) < 0.01 or showwait and abs(d/showwait - round(d/showwait)) < 1e-3
            if len(sleeps) == 1 and not edge(sleeps[0][1]):
                s, d = sleeps[0]
                if d > wait and err is None:
                    ctx.fail("notimeout", "op %d (%s): TeX did not answer for %.2f s, wait = %d, and no error was raised" % (n, k, d, wait))
                    return
                if d > wait and not isinstance(err, text.TexResultError):
                    ctx.fail("wrongerror", "op %d (%s): timeout raises %s (%s)" % (n, k, type(err).__name__, err))
                    return
                if abs(s - t0) < 1e-9:
                    want = []
                    if showwait:
                        i = 1
                        while i*showwait < min(d, wait):
                            want.append(t0 + i*showwait)
                            i += 1
                    got = [t for t, m in still]
                    if len(want) != len(got) or any(abs(a-b) > 1e-6 for a, b in zip(want, got)):
                        ctx.fail("progress", "op %d (%s): TeX needs %.2f s (wait %d, showwait %d): progress warnings after %s instead of %s"
                                 % (n, k, d, wait, showwait, [round(t-t0, 3) for t in got], [round(t-t0, 3) for t in want]))
                        return
                    for (t, m) in still:
                        num = [w.strip("().,") for w in m.split()]
                        if name not in num or str(int(round(t-t0))) not in num or str(wait) not in num:
                            ctx.fail("progress", "op %d: progress warning after %.2f s reads %r" % (n, t-t0, m))
                            return
                    wexp = bool(showwait) and d > wait
                    if bool(expired) != wexp or len(expired) > (2 if k in ("finish", "output") else 1):
                        ctx.fail("expiry", "op %d (%s): TeX needs %.2f s (wait %d, showwait %d): %d timeout warnings" % (n, k, d, wait, showwait, len(expired)))
                        return
                    if wexp and (abs(expired[0][0] - t0 - wait) > 1e-6 or name not in expired[0][1]):
                        ctx.fail("expiry", "op %d (%s): timeout warning after %.2f of %d s: %r" % (n, k, expired[0][0]-t0, wait, expired[0][1]))
                        return
                    ctx.count("exact_waits")
        elif hardnow and not was_broken and k != "output":
            # TeX is dead or hangs: an error, after a timeout warning if the call had to wait
            if err is None:
                ctx.fail("noerror", "op %d (%s): TeX %s, but the call returns" % (n, k, sorted(f for f in sim.faults if f in hard)))
                return
            elif t1 - t0 >= wait and showwait and not expired:
                ctx.fail("expiry", "op %d (%s): waited %.2f s in vain without a timeout warning" % (n, k, t1-t0))
                return
            elif not isinstance(err, (text.TexResultError, OSError)):
                ctx.fail("wrongerror", "op %d (%s): %s for a TeX which %s (%s)" % (n, k, type(err).__name__, sorted(f for f in sim.faults if f in hard), err))
                return
            ctx.count("hard_faults")
        # 4. what is returned is right in any case
        if res is not None and k == "text":
            if model is None or len(ctx.records) != started0:
                model = tw.Oracle(plan["latex"], "10pt")
                for p in preambles:
                    model.run(p)
            e = model.box(op["expr"], [])
            if not tw.check_extents(ctx, "extents", res, e, "op %d" % n):
                return
            if not was_broken and not hardnow:
                boxes.append((res, e))
        if err is not None or hardnow:
            broken[0] = True
            ctx.count("errors")
        if sim.violations:
            return
    t0 = sim.now
    try:
        ctx.world.run_atexit()
    except Deadlock as e:
        ctx.fail("never", "the exit handler never returns (%s)" % e.args[1])
        return
    n = 1 + len(ctx.records)
    if sim.now - t0 > n*6*wait + 0.01:
        ctx.fail("late", "the exit handlers took %.2f s with wait = %d" % (sim.now - t0, wait))
    ctx.nontrivial = any(op.get("inject") for op in plan["ops"]) or bool(plan["tex"]["trap"])
