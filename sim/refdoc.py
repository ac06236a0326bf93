"""Reference bytes of documents, made by another interpreter.

Each worker has one partner with another hash seed (and another memory
layout), which builds each document anew and writes it once to memory."""

import base64
import json
import os
import re
import subprocess
import sys
import zlib

from . import seams

_p = None


def start():
    """called once per worker, before any run"""
    global _p
    if os.environ.get("VERIF_REF") or _p:
        return
    h = int(os.environ.get("PYTHONHASHSEED", "0"))
    env = dict(os.environ, VERIF_REF="1", PYTHONHASHSEED=str((h*2654435761 + 97) % 4294967295))
    env.pop("PYXRC", None)
    popen = seams.real["Popen"]
    _p = popen([sys.executable, "-m", "sim.worker", "serve", "REFDOC"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env,
               cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), bufsize=0)
    if not _line():
        raise RuntimeError("reference process does not start")


def _line():
    fd, r = _p.stdout.fileno(), b""
    while not r.endswith(b"\n"):
        d = os.read(fd, 1 << 20)
        if not d:
            return None
        r += d
    return r


class NoReference(Exception):
    pass


def ask(specs, wanted, epoch, env=None):
    """bytes (or the exception's name) of the wanted [doc, format, options]"""
    plan = {"specs": specs, "wanted": wanted, "epoch": epoch, "env": env or {}, "id": os.getpid()}
    data = (json.dumps({"plan": plan, "seed": 1}) + "\n").encode()
    fd = _p.stdin.fileno()
    while data:
        data = data[os.write(fd, data):]
    while True:
        l = _line()
        if l is None:
            raise NoReference("the reference process died")
        r = json.loads(l)
        if r.get("error"):
            raise NoReference(r["error"])
        if r.get("note") and r["note"][0] == os.getpid():
            break
    if r["violations"]:
        raise NoReference(str(r["violations"])[:600])
    return [x if x.startswith("!") else zlib.decompress(base64.b64decode(x)) for x in r["note"][1]]


def pack(data):
    return data if isinstance(data, str) else base64.b64encode(zlib.compress(data, 1)).decode("ascii")


DATE = [(re.compile(rb"/CreationDate \(D:[^)]{10,40}\)"), "pdf"), (re.compile(rb"(?m)^%%CreationDate: .*$"), "ps"), (re.compile(rb"(?m)^%%CreationDate: .*$"), "eps")]


def undated(fmt, data):
    """the file without its creation time"""
    for r, f in DATE:
        if f == fmt:
            head, tail = data, b""
            if fmt != "pdf":
                # embedded fonts have such comments as well
                n = data.find(b"%%EndComments")
                head, tail = data[:n], data[n:]
            head, n = r.subn(lambda m: b"#" * len(m.group()), head)
            if n != 1:
                return data, n
            data = head + tail
    return data, 1


def differ(a, b):
    """where two byte strings differ"""
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    s = max(0, n-60)
    return "%d and %d bytes, from byte %d: %r and %r" % (len(a), len(b), n, a[s:n+80], b[s:n+80])
