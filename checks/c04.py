"""C04: no TeX process, temporary directory or user file is lost or left behind."""

import errno
import io
import os

from sim import seams, texwork as tw
from sim.core import Deadlock

ID = "C04"
warm = tw.warm
EXTS = [".aux", ".toc", ".xyz", ".idx", ".log", ".dat"]


def gen(rng, tier):
    wait = rng.choice([2, 5, 10, 60])
    tex = tw.gen_tex(rng, calm=rng.random() < 0.7)
    tex["pipe"] = 65536
    tex["wait"], tex["showwait"] = wait, rng.choice([0, 1, 5])
    tex["ignore"] = rng.choice([[], [], ["SIGTERM"]])
    if rng.random() < 0.15:
        tex["ignore_always"] = ["SIGTERM"]
    if rng.random() < 0.35:
        tex["hang_eof"] = True
    tex["extra_files"] = rng.sample(["aux", "toc", "xyz", "idx", "dat"], rng.randint(0, 3))
    names = [rng.choice(["my", "data", "my.run", "v1.2.3", "sub/index", "sub/a.b", "./notes"]) + ext for ext in EXTS]
    rng.shuffle(names)
    engines = []
    for e in range(rng.choice([1, 1, 1, 2, 3])):
        uf = []
        for i in range(rng.choice([0, 1, 1, 2])):
            if names:
                uf.append({"name": names.pop(), "exists": rng.random() < 0.6})
        engines.append({"latex": rng.random() < 0.3, "ipc": rng.random() < 0.2, "multi": rng.random() < 0.7, "usefiles": uf})
    ops = []
    bad = rng.random() < 0.75

    def inject():
        if not bad or rng.random() < 0.7:
            return None
        return rng.choice(["hang", "hang", "hang", "spew", "flush", "lose", "partial", "error", "sleep:%d.5" % rng.choice([1, wait, 3*wait])])
    for i in range(rng.randint(1, 6)):
        k = rng.random()
        e = rng.randrange(len(engines))
        if k < 0.1:
            ops.append({"op": "preamble", "e": e, "expr": "\\def\\mya{a}", "inject": inject()})
        elif k < 0.65:
            ops.append({"op": "text", "e": e, "expr": rng.choice(["a", "bc $x$", "\\hbox{d}"]), "inject": inject()})
        elif k < 0.78:
            ops.append({"op": "finish", "e": e, "inject": inject()})
        elif k < 0.88:
            ops.append({"op": "output", "e": e})
        elif k < 0.94:
            ops.append({"op": "cleanup_twice", "e": e})
        else:
            ops.append({"op": "reset", "e": e})
    faults = []
    if rng.random() < 0.25:
        faults.append({"kind": "spawn", "n": rng.randint(0, 2), "errno": rng.choice(["ENOENT", "EACCES", "EAGAIN", "ENOMEM"])})
    if rng.random() < 0.25:
        for _ in range(rng.choice([1, 1, 2])):
            faults.append({"kind": "file", "call": rng.choice(["rename", "rename", "rename", "unlink", "rmdir", "open", "write", "mkdir"]),
                           "skip": rng.randint(0, 4), "times": rng.choice([1, 1, 2, 8]),
                           "errno": rng.choice(["EXDEV", "EXDEV", "EACCES", "EPERM", "ENOSPC", "EIO"])})
    trap = {}
    if bad and rng.random() < 0.15:
        trap[str(rng.randint(1, 130))] = rng.choice(["hang", "flush", "lose", "spew"])
    tex["trap"] = trap
    return {"ops": ops, "engines": engines, "tex": tex, "faults": faults, "exdev": rng.random() < 0.1,
            "interrupt": rng.randint(0, 12) if rng.random() < 0.12 else None,
            "preempt": rng.choice([0, 0, 30]),
            "simple": dict(tw.SIMPLE_TEX, **{"tex.wait": 10, "tex.showwait": 5, "tex.hang_eof": False, "tex.ignore": [], "interrupt": None, "exdev": False})}


def run(ctx):
    from pyx import text, canvas
    plan = ctx.plan
    tw.setup(ctx, plan["tex"])
    sim, w = ctx.sim, ctx.world
    wait = plan["tex"]["wait"]
    if plan.get("preempt"):
        import sys
        sim.tracer = seams.line_tracer(sim, ("pyx/text.py",), plan["preempt"])
        sys.settrace(sim.tracer)
    seams.real["mkdir"](os.path.join(w.cwd, "sub"))
    # things which have nothing to do with pyx
    decoys = [os.path.join(w.tmp, "pyxother"), os.path.join(w.cwd, "texput.aux"), os.path.join(w.cwd, "texput.log"), os.path.join(w.cwd, "sub", "my.aux"), os.path.join(w.cwd, "my")]
    for d in decoys:
        with seams.real["open"](d, "w") as f:
            f.write("decoy")
    files = {}
    engines = []
    for i, e in enumerate(plan["engines"]):
        for u in e["usefiles"]:
            if u["exists"]:
                files[u["name"]] = "original %s" % u["name"]
                with seams.real["open"](os.path.join(w.cwd, u["name"]), "w") as f:
                    f.write(files[u["name"]])
            else:
                files[u["name"]] = None
        kw = {"texipc": e["ipc"], "usefiles": [u["name"] for u in e["usefiles"]]}
        if e["latex"]:
            kw["pyxgraphics"] = False
        cls = {(False, False): text.SingleTexEngine, (False, True): text.TexEngine,
               (True, False): text.SingleLatexEngine, (True, True): text.LatexEngine}[e["latex"], e["multi"]]
        if not e["multi"]:
            kw["cmd"] = ["latex" if e["latex"] else "tex"]
        engines.append({"obj": cls(**kw), "multi": e["multi"], "usefiles": [u["name"] for u in e["usefiles"]], "boxes": [],
                        "records": [], "spec": e})
    for f in plan["faults"]:
        if f["kind"] == "spawn":
            en = getattr(errno, f["errno"])
            err = {errno.ENOENT: FileNotFoundError, errno.EACCES: PermissionError}.get(en, OSError)(en, os.strerror(en))
            for prog in ("tex", "latex"):
                w.spawn_errors[prog] = [None]*f["n"] + [err]
        else:
            w.add_rule(f["call"], lambda p: True, getattr(errno, f["errno"]), f["skip"], f["times"])
    if plan.get("exdev"):
        # the temporary directory is on another file system
        def exdev(p):
            return not str(p).startswith(w.tmp) or "texput." in str(p)
        w.add_rule("rename", exdev, errno.EXDEV, 0, 10**6)
    fired = lambda: any(":" in k and not k.startswith("spawn") for k in sim.faults)
    sim.interrupt_after = plan.get("interrupt")
    finished = set()
    spawned_ok = 0
    nfail = 0
    try:
        for n, op in enumerate(plan["ops"]):
            e = engines[op["e"] % len(engines)]
            inst = e["obj"].instance if e["multi"] else e["obj"]
            k, inj = op["op"], op.get("inject")
            cmd = {None: "", "hang": "\\SimHang{}", "spew": "\\SimSpew{}", "error": "\\undefinedcs{}"}.get(inj)
            if cmd is None:
                cmd = "\\SimSleep{%s}" % inj[6:] if inj.startswith("sleep") else "\\SimDie{%s}" % inj
            sim.log("op", n, k, op.get("expr", ""), inj)
            r0 = len(ctx.records)
            t0 = sim.now
            try:
                if k == "preamble":
                    if inst.state >= text.STATE_TYPESET:
                        continue
                    e["obj"].preamble(op["expr"] + "%\n" + cmd)
                elif k == "text":
                    e["boxes"].append(e["obj"].text(0, 0, op["expr"] + cmd))
                elif k in ("finish", "cleanup_twice"):
                    if inst.state == text.STATE_START:
                        continue
                    if inj and inj != "error" and inst.state == text.STATE_TYPESET and e["records"]:
                        t = e["records"][-1]["term"]
                        t.trap[str(t.lines + 1)] = inj
                    inst.do_finish()
                    if k == "cleanup_twice":
                        inst.do_finish()
                elif k == "output":
                    if not e["boxes"]:
                        continue
                    c = canvas.canvas()
                    for b in e["boxes"]:
                        c.insert(b)
                    c.writePDFfile(io.BytesIO())
                elif k == "reset":
                    if not e["multi"]:
                        continue
                    e["obj"].reset()
            except Exception as ex:
                sim.log("raised", type(ex).__name__, w.short(str(ex)[:100]))
                nfail += 1
            e["records"] += ctx.records[r0:]
            if sim.now - t0 > 8*wait + 0.01 + sum(s[1] for r in ctx.records for s in r["sleeps"]):
                ctx.fail("late", "op %d (%s): took %.1f s with wait = %d" % (n, k, sim.now-t0, wait))
                return
    except KeyboardInterrupt:
        e["records"] += ctx.records[r0:]
        sim.log("interrupted by the user")
    sim.interrupt_after = None
    t0 = sim.now
    sim.log("exit")
    w.run_atexit()
    spent = sim.now - t0
    sim.log("exited")
    if spent > (1 + len(ctx.records))*6*wait + 0.01 + sum(s[1] for r in ctx.records for s in r["sleeps"]):
        ctx.fail("late", "the exit handlers took %.1f s with wait = %d" % (spent, wait))
    # 1. processes
    for p in w.processes:
        if not p.exited:
            ctx.fail("process", "%s (pid %d) is still running after exit" % (p.prog, p.pid))
        elif not p.reaped:
            ctx.fail("zombie", "%s (pid %d) was never waited for" % (p.prog, p.pid))
    # 2. asking before terminating before killing, nothing for the cooperative
    for r in ctx.records:
        p = r["term"].p
        sig = p.signals
        names = [s for t, s in sig]
        if 9 in names and (15 not in names or names.index(15) > names.index(9)):
            ctx.fail("escalation", "pid %d is killed without trying to terminate it" % p.pid)
        if 9 in names and sig[names.index(9)][0] - sig[names.index(15)][0] < min(wait, 1) - 0.01:
            ctx.fail("escalation", "pid %d is killed %.2f s after it was told to terminate" % (p.pid, sig[names.index(9)][0] - sig[names.index(15)][0]))
        if names and not p.in_pipe.closed_at is not None:
            ctx.fail("escalation", "pid %d gets signal %d although it was not asked to finish" % (p.pid, names[0]))
        if r.get("closed") and names and not any(s[1] >= wait for s in r["sleeps"]) and not r["term"].hung and sum(s[1] for s in r["sleeps"]) < wait:
            ctx.fail("escalation", "pid %d cooperates but gets signal %d" % (p.pid, names[0]))
    # and what is reported about it is true
    def said(start):
        return sum(m.startswith(start) for m in ctx.warnings)
    forced = [r for r in ctx.records if r["sleeps"] or 15 in [s for t, s in r["term"].p.signals]]
    if said("We tried to communicate") > len(forced) + (plan.get("interrupt") is not None):
        ctx.fail("escalation", "%d processes reported to be terminated, but only %d of them did not end when asked to" % (said("We tried to communicate"), len(forced)))
    forced = [r for r in forced if "SIGTERM" in plan["tex"].get("ignore_always", []) + (plan["tex"]["ignore"] if r["term"].hung else [])]
    if said("Failed, too.") > len(forced):
        ctx.fail("escalation", "%d processes reported to be killed, but only %d of them ignore the request to terminate" % (said("Failed, too."), len(forced)))
    if said("We tried very hard"):
        ctx.fail("escalation", "pyx says it could not get rid of a process, but all of them are gone")
    # 3. temporary directories
    left = [d for d in seams.real["listdir"](w.tmp) if d != "pyxother"]
    if left and not any(k.split(":")[0] in ("unlink", "rmdir") for k in sim.faults):
        ctx.fail("tmpdir", "temporary directories left behind: %s with %s" % (left, [sorted(os.path.basename(x) for x in seams.real["listdir"](os.path.join(w.tmp, d))) for d in left]))
    # 4. foreign files
    for d in decoys:
        try:
            with seams.real["open"](d) as f:
                ok = f.read() == "decoy"
        except OSError:
            ok = False
        if not ok:
            ctx.fail("foreign", "%s, which is none of pyx's files, is gone or changed" % w.short(d))
    # 5. user files
    messy = fired()
    for e in engines:
        exts = {u[u.rfind("."):]: u for u in e["usefiles"]}
        for ext, u in exts.items():
            cur = files[u]
            alt = []
            # an abandoned TeX (reset, failed finish) is cleaned up at exit: after its successors
            mine = [r["outdir"] for r in e["records"]]
            overlap = any(d in mine for r in e["records"] for d in r["uncleaned"])
            for r in e["records"]:
                if r.get("closed"):
                    if ext[1:] in plan["tex"]["extra_files"]:
                        cur = "content of %s by %d" % (ext[1:], r["term"].p.pid)
                    elif ext == ".log":
                        cur = ("log", r)
                if ext == ".aux" and e["spec"]["latex"] and r["term"].aux:
                    cur = "\\relax \n" if not (r.get("closed") and "aux" in plan["tex"]["extra_files"]) else cur
                alt.append(cur)
            try:
                with seams.real["open"](os.path.join(w.cwd, u)) as f:
                    got = f.read()
            except OSError:
                got = None
            warned = any("Could not save '%s'" % u in m for m in ctx.warnings)
            if isinstance(cur, tuple):
                good = got is not None and got.startswith("This is the log")
                good = good or overlap and got in alt
            else:
                good = got == cur or overlap and got in alt
            if good and (cur is not None or warned or not e["records"]):
                ctx.count("usefiles_ok")
                continue
            if good and cur is None:
                ctx.fail("nowarning", "%s could not be saved (TeX did not write it), but there is no warning" % u)
                continue
            if overlap and warned and got is None:
                ctx.count("usefiles_warned")
                continue
            if messy:
                spurious = any("Failed to remove spurious file '%s'" % u in m for m in ctx.warnings)
                if (warned and (got is None or spurious)) or got == files[u]:
                    ctx.count("usefiles_warned")
                    continue
            ctx.fail("usefile", "%s: %r at the end instead of %r (started %d times, before: %r, warned: %s)"
                     % (u, got, cur if not isinstance(cur, tuple) else "the log", len(e["records"]), files[u], warned))
    ctx.nontrivial = bool(ctx.records) or bool(plan["faults"])
    ctx.count("processes", len(w.processes))
    ctx.count("failed_calls", nfail)
