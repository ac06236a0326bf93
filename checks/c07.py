"""C07: cached file lookups never return wrong or missing data."""

import os

from sim import filework as fw

ID = "C07"


def warm():
    import pyx.config


def gen(rng, tier):
    p = fw.gen(rng)
    looks = p["looks"]
    for x in p["lsr"].values():
        if x["state"] == "EIO" or x["state"] == "missing":
            x["state"] = "ok"
    files = sorted(p["files"])
    key = ["%s|%s" % (fw.KPSNAME[f], fn) for fn, fm in looks for f in fm]
    ops = []
    related = [f for f in files if not f.endswith("readme")] or files
    for i in range(rng.randint(3, 30)):
        k = rng.random()
        f = rng.choice(related)
        fn, fm = rng.choice(looks)
        if k < 0.45:
            ops.append(["lookup", rng.randrange(len(looks)), rng.random() < 0.2, rng.random() < 0.3])
        elif k < 0.53:
            ops.append(["delete", f])
        elif k < 0.60:
            n = rng.choice(fw.names_of(fn, fm))
            ops.append(["write", f if rng.random() < 0.6 else rng.choice(["loc/", "loc2/", "R0/s1/", "K/%s/" % fm[0], "X/a/", "R0/new/"]) + n])
        elif k < 0.66:
            ops.append(["fault", rng.choice(["open", "open", "open", "listdir"]), f, rng.choice(["EACCES", "EIO", "ENOENT", "EMFILE"])])
            if ops[-1][1] == "listdir":
                ops[-1][2] = rng.choice(["R0", "R0/s1", "R one", "R one/s1"])
        elif k < 0.72:
            ops.append(["heal"])
        elif k < 0.82:
            op = rng.choice(["open", "open", "open", "listdir", "listdir", "read"])
            p0 = {"open": f, "listdir": rng.choice(["R0", "R0/s1", "R one", "R2"]), "read": rng.choice(list(p["lsr"])) + "/ls-R"}[op]
            if op == "open" and rng.random() < 0.3:
                p0 = rng.choice(list(p["lsr"])) + "/ls-R"
            ops.append(["once", op, p0, rng.choice(["EACCES", "EIO", "EMFILE", "EINTR", "ENFILE"])])
        elif k < 0.86:
            ops.append(["spawnfail", rng.choice(["kpsewhich", "locate"]), rng.choice(["EAGAIN", "ENOMEM", "EMFILE"])])
        elif k < 0.90:
            ops.append(["prog", rng.choice(["kpsewhich", "locate"]), rng.choice(["ok", "ok", "missing", "crash"])])
        elif k < 0.96 and key:
            ops.append(["answer", rng.choice(["kps", "pyk", "loc"]), rng.choice(key), rng.choice([None, "K/new/" + os.path.basename(rng.choice(fw.names_of(fn, fm)))])])
        else:
            ops.append(["chdir", rng.choice(["loc", "loc2"])])
    p["ops"] = ops
    return p


def run(ctx):
    env = fw.Env(ctx)
    plan, sim = ctx.plan, ctx.sim
    methods = plan["methods"]
    files = []
    seen, changed, repeats = set(), True, 0
    if any(op == "listdir" for op, p, e in plan["faults"]):
        pass
    ever = {}     # programs' answers to a key, ever

    def note_answers():
        for i, (fn, fm) in enumerate(plan["looks"]):
            for m in ("kpsewhich", "pykpathsea", "locate"):
                ever.setdefault((i, m), set()).update(p for p, o in env.candidates(m, fn, fm))
    note_answers()
    static = {i: {p for p, o in env.candidates("ls-R", fn, fm, True)} for i, (fn, fm) in enumerate(plan["looks"])}
    for n, op in enumerate(plan["ops"]):
        k = op[0]
        if k == "delete":
            env.delete(op[1])
        elif k == "write":
            env.write(op[1])
        elif k == "fault":
            env.fault[op[1], op[2]] = op[3]
        elif k == "heal":
            env.fault.clear()
        elif k == "once":
            env.once[op[1], op[2]] = op[3]
        elif k == "spawnfail":
            env.w.spawn_errors[op[1]].transient.append(op[2])
        elif k == "prog":
            env.spawn[op[1]] = op[2]
        elif k == "chdir":
            env.cwd = op[1]
            os.chdir(env.path(op[1]))
        elif k == "answer":
            which, key, p = op[1:]
            if which == "kps":
                env.kps.pop(key, None)
                if p:
                    env.kps[key] = [p, "ok"]
            elif which == "pyk" and env.pyk is not None:
                env.pyk.pop(key, None)
                if p:
                    env.pyk[key] = p
            elif which == "loc" and p:
                env.locate.insert(0, p)
        note_answers()
        if k != "lookup":
            changed = True
            sim.log("op", n, *[str(x) for x in op])
            continue
        i, ascii, hold = op[1:]
        fn, fm = plan["looks"][i]
        what = "op %d: lookup of %r as %s by %s" % (n, fn, fm, methods)
        if i in seen and changed:
            repeats += 1
        seen.add(i)
        changed = False
        env.hit = set()
        pending = set(p for o, p in env.once)
        f, e, _ = env.lookup(fn, fm, ascii)
        # what is valid, what is certain
        valid, certain = {}, {}
        for m in methods:
            cand = [p for p, o in env.candidates(m, fn, fm, True)]
            if m == "ls-R":
                cand = static[i]
            for p in cand + sorted(ever.get((i, m), [])) if isinstance(cand, list) else sorted(cand):
                v = env.value(p)
                if v is not None:
                    valid[p] = v
                    if p not in cand or p in env.hit:
                        continue
                    if m == "recursivedir":
                        d = p.split("/")[:-1]
                        up = ["/".join(d[:j]) for j in range(1, len(d)+1)]
                        if p not in env.since or any(x in env.hit or ("listdir", x) in env.fault for x in up):
                            continue
                    elif m == "ls-R":
                        db = p.split("/")[0] + "/ls-R"
                        if ("open", db) in env.fault or ("read", db) in env.fault or db in env.hit:
                            continue
                    elif m in ("kpsewhich", "locate") and m in env.hit:
                        continue
                    certain[p] = m
        if e is not None:
            if certain:
                ctx.fail("notfound", "%s: %r although these are there: %s" % (what, str(e), certain))
                return
            if fn not in str(e):
                ctx.fail("message", "%s: the error %r does not name the file" % (what, str(e)))
                return
            ctx.count("not_found")
            continue
        if f is None:
            ctx.fail("nothing", "%s: no file but also no error" % what)
            return
        if f.closed or any(f is g for g in files):
            ctx.fail("stale", "%s: the same file object as before" % what)
            return
        files.append(f)
        data = f.read()
        if not hold:
            f.close()
        if isinstance(data, str) != ascii:
            ctx.fail("ascii", "%s: gives %s" % (what, type(data).__name__))
            return
        if ascii:
            data = data.encode("ascii", "surrogateescape")
        if data not in [v.replace(b"\r\n", b"\n") if ascii else v for v in valid.values()]:
            ctx.fail("wrong", "%s: got %r, but valid are %s" % (what, data[:60], {str(p): v[:30] for p, v in valid.items()}))
            return
        ctx.count("found")
    for f in files:
        f.close()
    ctx.nontrivial = repeats > 0
    ctx.count("repeats_after_change", repeats)
