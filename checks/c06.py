"""C06: file location follows the configured order and survives bad sources."""

from sim import filework as fw

ID = "C06"


def warm():
    import pyx.config


def gen(rng, tier):
    p = fw.gen(rng)
    p["looks"] = [l + [rng.random() < 0.3] for l in p["looks"]]
    if rng.random() < 0.4:
        p["looks"].append(rng.choice(p["looks"]))
    return p


def run(ctx):
    env = fw.Env(ctx)
    plan = ctx.plan
    found = 0
    for n, (fn, fm, ascii) in enumerate(plan["looks"]):
        what = "lookup %d of %r as %s by %s" % (n, fn, fm, plan["methods"])
        want, best, where = None, None, None
        for m in plan["methods"]:
            c = [(p, o, env.value(p)) for p, o in env.candidates(m, fn, fm)]
            c = [x for x in c if x[2] is not None]
            best = [x for x in c if not any(fw.before(y[1], x[1]) for y in c)]
            if best:
                where = m
                break
        f, e, _ = env.lookup(fn, fm, ascii)
        if e is not None:
            if best:
                ctx.fail("notfound", "%s: %r although method %s has %s" % (what, str(e), where, [x[0] for x in best]))
                return
            if fn not in str(e):
                ctx.fail("message", "%s: the error %r does not name the file" % (what, str(e)))
                return
            ctx.count("not_found")
            continue
        if f is None:
            ctx.fail("nothing", "%s: no file but also no error" % what)
            return
        data = f.read()
        f.close()
        if ascii:
            if not isinstance(data, str):
                ctx.fail("ascii", "%s: no text" % what)
                return
            data = data.encode("ascii", "surrogateescape")
        if not best:
            ctx.fail("found", "%s: got %r although no source has it" % (what, data[:60]))
            return
        if data not in [x[2].replace(b"\r\n", b"\n") if ascii else x[2] for x in best]:
            ctx.fail("order", "%s: got %r, but the first one is %s of method %s" % (what, data[:60], [x[0] for x in best], where))
            return
        found += 1
        ctx.count("found_" + where)
    ctx.nontrivial = bool(found) or bool(ctx.sim.faults)
    ctx.count("found", found)
