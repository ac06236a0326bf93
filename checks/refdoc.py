"""The partner of C08 and C09: builds documents anew and writes them to memory."""

import gc
import io
import logging
import os

from sim import drawing, refdoc

ID = "REFDOC"


def warm():
    logging.getLogger("pyx").setLevel(logging.CRITICAL)
    drawing.warm()
    logging.getLogger("pyx").setLevel(logging.NOTSET)


def gen(rng, tier):
    return {}


def run(ctx):
    plan = ctx.plan
    gc.enable()
    noise = [bytearray(17*i % 1001) for i in range(997)]
    del noise[::3]
    for k, v in plan["env"].items():
        os.environ[k] = v
    out = []
    for d, fmt, opt in plan["wanted"]:
        doc = drawing.Builder(plan["specs"][d], "").document()
        f = io.BytesIO()
        try:
            drawing.write(doc, fmt, f, opt)
        except Exception as e:
            out.append("!" + type(e).__name__)
        else:
            out.append(refdoc.pack(f.getvalue()))
    ctx.note = [plan["id"], out]
