"""C08: the same document gives the same bytes, always."""

import copy
import gc
import io
import logging
import os

from sim import docwork as dw, drawing, refdoc, seams

ID = "C08"


def warm():
    logging.getLogger("pyx").setLevel(logging.CRITICAL)
    drawing.warm()
    logging.getLogger("pyx").setLevel(logging.NOTSET)
    refdoc.start()


def lists(items, r):
    r.append(items)
    for x in items:
        if x["t"] in ("canvas", "layer"):
            lists(x["items"], r)
    return r


def gen(rng, tier):
    specs = [drawing.gen(rng)]
    share = False
    if rng.random() < 0.5:
        if rng.random() < 0.6:
            # another document, partly made of the same objects
            share = True
            s = copy.deepcopy(specs[0])
            t = drawing.gen(rng)
            for p in s["pages"]:
                p["items"] += [{"t": "ref", "i": rng.randrange(4)}]
                rng.shuffle(p["items"])
                if rng.random() < 0.4:
                    p["items"] = p["items"][:len(p["items"])//2 or 1]
            s["formats"] = [f for f in specs[0]["formats"]]
            specs.append(s)
        else:
            specs.append(drawing.gen(rng))
            specs[1]["prefix"] = "b"
    for s in specs:
        # an item which may be told to fail
        ls = []
        for p in s["pages"]:
            lists(p["items"], ls)
        for n in range(rng.choice([0, 1, 2])):
            if ls:
                l = rng.choice(ls)
                l.insert(rng.randint(0, len(l)), {"t": "bomb"})
        s["options"] = [s["options"], drawing.g_options(rng, s["formats"])]
    steps = []

    def which():
        d = rng.randrange(len(specs))
        return [d, rng.choice(specs[d]["formats"]), rng.choice([0, 0, 1])]
    for i in range(rng.randint(2, 7)):
        k = rng.random()
        if k < 0.55:
            steps.append(["write"] + which() + [rng.choice(dw.TARGETS)])
        elif k < 0.7:
            steps.append(["fail"] + which() + [rng.choice(["stream", "stream", "bomb", "bomb", "interrupt"]), int(2**rng.uniform(0, 9))])
        elif k < 0.78:
            steps.append(["bbox", rng.randrange(len(specs))])
        elif k < 0.84:
            steps.append(["rebuild", rng.randrange(len(specs))])
        elif k < 0.9:
            steps.append(["noise", rng.randrange(100)])
        else:
            steps.append(["nest"] + which() + which() + [int(2**rng.uniform(0, 7))])
    steps.append(["write"] + which() + ["bytesio"])
    return {"specs": specs, "share": share, "steps": steps, "buffer": rng.choice([None, None, 512, 64]), "epoch": 1.6e9 + rng.randrange(10**6),
            "simple": {"share": False, "buffer": None, "epoch": 1.6e9}}


class Boom(Exception):
    pass


class Breaking(io.RawIOBase):
    """fails (or does something else) at its nth write"""

    def __init__(self, n, do):
        self.n, self.do, self.b = n, do, io.BytesIO()
        self.fired = False

    def writable(self):
        return True

    def write(self, data):
        self.n -= bool(data)
        if not self.n and not self.fired:
            self.fired = True
            self.do()
        return self.b.write(data)


def run(ctx):
    plan, w = ctx.plan, ctx.world
    specs = plan["specs"]
    if plan["buffer"]:
        w.buffer_size = plan["buffer"]
    builders, docs = {}, {}

    def doc(d):
        if d not in docs:
            b = builders[d] = drawing.Builder(specs[d], "")
            if plan["share"] and 1-d in builders:
                b.shared, b.patterns = builders[1-d].shared, builders[1-d].patterns
            docs[d] = b.document()
        return docs[d]

    wanted = []
    for s in plan["steps"]:
        for q in ([s[1:4]] if s[0] in ("write",) else [s[1:4], s[4:7]] if s[0] == "nest" else []):
            if q not in wanted:
                wanted.append(q)
    ref = refdoc.ask(specs, [[d, f, specs[d]["options"][o].get(f, {})] for d, f, o in wanted], plan["epoch"])
    noise = []
    written = 0

    def judge(q, data, error, what):
        nonlocal written
        r = ref[wanted.index(q)]
        if error is not None:
            if r != "!" + type(error).__name__:
                if isinstance(r, str) or not isinstance(error, Exception):
                    raise error
                ctx.fail("exception", "%s: %s: %s, while it is written elsewhere" % (what, type(error).__name__, error))
                return False
            ctx.count("refused")
            return True
        if isinstance(r, str):
            ctx.fail("exception", "%s is written here, but %s elsewhere" % (what, r[1:]))
            return False
        a, n = refdoc.undated(q[1], data)
        b, m = refdoc.undated(q[1], r)
        if n != 1 or m != 1:
            ctx.fail("date", "%s: %d and %d creation dates" % (what, n, m))
            return False
        written += 1
        ctx.count("compared:" + q[1])
        if a != b:
            ctx.fail("bytes:" + q[1], "%s differs: %s" % (what, refdoc.differ(a, b)))
            return False
        return True

    for n, s in enumerate(plan["steps"]):
        what = "step %d %r" % (n, s)
        if s[0] == "write":
            d, fmt, o = q = s[1:4]
            t = dw.Target(ctx, s[4], fmt, n)
            error = data = None
            x = doc(d)
            try:
                with t:
                    drawing.write(x, fmt, t.arg, specs[d]["options"][o].get(fmt, {}))
            except Exception as e:
                error = e
            else:
                data = t.data()
                if data is None:
                    return
            if not judge(q, data, error, what):
                return
        elif s[0] == "fail":
            d, fmt, o, how, k = s[1:]
            x = doc(d)
            f = Breaking(-1 if how == "bomb" else k, lambda: fire(how))
            if how == "bomb":
                drawing.BOMB.update(left=k % 3 + 1, error=Boom)

            def fire(how):
                ctx.sim.fault("write_error" if how == "stream" else "interrupt")
                raise KeyboardInterrupt() if how == "interrupt" else OSError(28, "No space left on device")
            try:
                drawing.write(x, fmt, f, specs[d]["options"][o].get(fmt, {}))
            except (OSError, KeyboardInterrupt):
                if not f.fired:
                    raise
            except Boom:
                ctx.sim.fault("item_error")
            except ValueError as e:
                ctx.count("refused")
            finally:
                drawing.BOMB.update(left=0)
        elif s[0] == "bbox":
            for p in doc(s[1]).pages:
                p.canvas.bbox()
        elif s[0] == "rebuild":
            docs.pop(s[1], None)
            builders.pop(s[1], None)
            doc(s[1])
            gc.collect()
        elif s[0] == "noise":
            noise.append([bytearray(i*s[1] % 701) for i in range(200)])
            for l in noise:
                del l[s[1] % 2::2]
            gc.collect()
        elif s[0] == "nest":
            q, r, k = s[1:4], s[4:7], s[7]
            a, b = doc(q[0]), doc(r[0])
            inner = io.BytesIO()
            got = []

            def other():
                try:
                    drawing.write(b, r[1], inner, specs[r[0]]["options"][r[2]].get(r[1], {}))
                    got.append(None)
                except Exception as e:
                    got.append(e)
            f = Breaking(k, other)
            error = None
            try:
                drawing.write(a, q[1], f, specs[q[0]]["options"][q[2]].get(q[1], {}))
            except Exception as e:
                error = e
            if not judge(q, f.b.getvalue(), error, what + " outer"):
                return
            if got:
                ctx.count("nested writes")
                if not judge(r, inner.getvalue(), got[0], what + " inner"):
                    return
    ctx.nontrivial = written > 0
