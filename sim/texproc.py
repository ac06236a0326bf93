r"""The simulated tex/latex executable: MiniTeX behind a SimPopen.

The plan's "tex" dictionary tunes it:
  flush      "stdio" (buffer flushed before reading the terminal, after every
             page and when it is full, as web2c does), "line", "char"
  bufsize    size of the stdio buffer
  think      list of thinking times; one is chosen per input line
  ignore     signals the process ignores once it hangs
  dvistyle   how positions are written to the DVI file
  fragments  key -> terminal text, or {"file": ..., ...} loading messages
"""

import os
import signal
import struct

from . import minitex
from .core import Sim
from .minitex import TeXEOF, TeXEnd


class Exit(Exception):
    def __init__(self, code):
        self.code = code


class TexTerm:
    def __init__(self, popen, args, fonts, cfg, latex, records):
        self.p = popen
        self.sim = popen.sim
        self.cfg = cfg
        self.args = args
        self.outbuf = bytearray()
        self.inbuf = bytearray()
        self.flushmode = cfg.get("flush", "stdio")
        self.bufsize = cfg.get("bufsize", 4096)
        self.think = cfg.get("think", [0])
        self.texipc = "--ipc" in args
        d = "."
        for i, a in enumerate(args):
            if a == "--output-directory":
                d = args[i+1]
        self.outdir = d
        self.latex = latex
        self.fragments = cfg.get("fragments", {})
        opt = {"outdir": d, "dvistyle": cfg.get("dvistyle", 0)}
        self.tex = minitex.MiniTeX(self, fonts, latex, opt)
        self.allout = bytearray()
        self.received = bytearray()       # everything PyX wrote
        self.lines = 0
        self.hung = False
        self.aux = False
        self.dvi_written = 0
        self.trap = dict(cfg.get("trap", {}))       # input line number -> action
        self.sleeps = []                  # (start, duration) of everything TeX needed time for
        self.record = {"pages": self.tex.pages, "sleeps": self.sleeps, "outdir": d, "received": self.received, "term": self,
                       # earlier sessions which are not cleaned up yet
                       "uncleaned": [r["outdir"] for r in records if os.path.isdir(r["outdir"])]}
        records.append(self.record)
        self.popen_ignore()

    def popen_ignore(self):
        for s in self.cfg.get("ignore_always", []):
            self.p.ignore.add(getattr(signal, s))

    # -- output ------------------------------------------------------------
    def write(self, data):
        self.outbuf += data
        if self.flushmode == "char":
            self.flush()
        elif self.flushmode == "line" and b"\n" in data:
            self.flush()
        elif len(self.outbuf) >= self.bufsize:
            self.flush(len(self.outbuf) - len(self.outbuf) % self.bufsize)

    def flush(self, n=None):
        if n is None:
            n = len(self.outbuf)
        data = bytes(self.outbuf[:n])
        self.allout += data
        del self.outbuf[:n]
        if data and self.p.out_pipe is not None:
            self.p.out_pipe.b_write(data)

    def close(self):
        # the log and DVI files are complete, the last output is on its way
        self.record["closed"] = True
        self.writefile("texput.log", b"This is the log\n" + bytes(self.received[-200:]))
        for ext in self.cfg.get("extra_files", []):
            self.writefile("texput." + ext, b"content of " + ext.encode() + b" by %d" % self.p.pid)
        self.flush()

    # -- input ---------------------------------------------------------------
    def readline(self):
        self.flush()
        if len(self.think) > 1 or self.think[0]:
            t = self.think[self.sim.choices.pick(len(self.think))]
            if t:
                self.dosleep(t)
        while b"\n" not in self.inbuf:
            data = self.p.in_pipe.b_read(4096)
            if not data:
                self.sim.log("tex: EOF on stdin")
                return None
            self.received += data
            self.inbuf += data
        i = self.inbuf.index(b"\n")
        line = bytes(self.inbuf[:i])
        del self.inbuf[:i+1]
        self.lines += 1
        act = self.trap.pop(str(self.lines), None)
        if act:
            self.action(act)
        return line

    def action(self, act):
        if act == "hang":
            self.hang()
        elif act == "spew":
            self.spew()
        elif act.startswith("sleep:"):
            self.sleep(float(act[6:]))
        else:
            self.die(act)

    # -- files -----------------------------------------------------------------
    def path(self, name):
        return os.path.join(self.outdir, name)

    def writefile(self, name, data, mode="wb"):
        # the process' own I/O, not an operation of the code under test
        try:
            fd = os.open(self.path(name), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        except FileNotFoundError:
            # the directory was removed while TeX is still running
            self.sim.log("tex: cannot write " + name)
            return
        try:
            os.write(fd, data)
        finally:
            os.close(fd)

    def dvi(self, data, final):
        self.writefile("texput.dvi", data)

    def shipped(self, page, n, data):
        if self.texipc:
            self.writefile("texput.dvi", self.tex.preamble() + b"".join(self.tex.dvi))
        self.flush()

    def aux_written(self):
        self.aux = True
        self.writefile("texput.aux", b"\\relax \n")
        return self.path("texput.aux")

    def load(self, tex, name, msg, sub):
        """terminal output of opening and closing an input file"""
        base = self.cfg.get("texmf", "")
        path = os.path.join(base, name)
        if not os.path.exists(path):
            tex.error("LaTeX Error: File `%s' not found" % name)
            return
        if " " in path:
            path = '"%s"' % path
        s = "(" + path
        if tex.offset + len(s) > 77:
            tex.println()
        elif tex.offset:
            tex.out(" ")
        tex.out(s)
        if msg:
            tex.println()
            tex.out(msg)
            tex.println()
        if sub:
            tex.out("(%s)" % os.path.join(base, sub))
        tex.out(")")

    def begindocument(self, tex):
        d = os.path.join(self.cfg.get("texmf", ""), "l3backend-dvips.def")
        if os.path.exists(d):
            self.load(tex, "l3backend-dvips.def", None, None)
        tex.nl("No file texput.aux.")
        tex.println()
        self.phase(tex, "begindoc")

    def phase(self, tex, name):
        for key in self.cfg.get("phase", {}).get(name, []):
            self.simout(tex, key)

    # -- plan controlled behaviour ----------------------------------------------
    def simout(self, tex, key):
        f = self.fragments[key]
        if f.get("nl", True):
            tex.nl("")
        text = f["text"].replace("$TEXMF", self.cfg.get("texmf", "")).replace("$OUT", self.outdir)
        if f.get("raw"):
            self.write(text.encode("latin1"))
            tex.offset = len(text) - text.rfind("\n") - 1
        else:
            tex.out(text)
        if f.get("nl", True):
            tex.nl("")

    def hang(self):
        self.flush()
        until = self.cfg.get("hang_for")
        if until is not None:
            # it just takes its time
            return self.sleep(until)
        self.hung = True
        self.sim.fault("tex_hang")
        for s in self.cfg.get("ignore", []):
            self.p.ignore.add(getattr(signal, s))
        if self.cfg.get("hang_eof"):
            # busy until its input is closed
            self.sim.block(lambda: not self.p.in_pipe.writer_open, None, "busy tex")
            raise Exit(1)
        self.sim.block(lambda: False, None, "hanging tex")

    def spew(self):
        """an endless loop writing to the terminal"""
        self.hung = True
        self.sim.fault("tex_spew")
        for s in self.cfg.get("ignore", []):
            self.p.ignore.add(getattr(signal, s))
        while True:
            self.p.out_pipe.b_write(b"spam " * 40 + b"\n")
            self.sim.sleep(1.0)

    def sleep(self, t):
        self.flush()
        self.sim.fault("tex_slow")
        self.dosleep(t)

    def dosleep(self, t):
        self.sleeps.append((self.sim.now, t))
        self.sim.sleep(t)

    def die(self, how):
        """dies: "flush" with its output delivered, "lose" without, "partial" in between"""
        self.sim.fault("tex_die_" + how)
        if how == "partial":
            self.flush(self.sim.choices.pick(len(self.outbuf) + 1))
        elif how == "flush":
            self.flush()
        raise Exit(-11)


def program(fonts, cfg, latex, records):
    def factory(popen, args):
        n = len(records)
        c = dict(cfg)
        c.update(cfg.get("inst", {}).get(str(n), {}))
        term = TexTerm(popen, args, fonts, c, latex, records)

        def body():
            try:
                return term.tex.main()
            except Exit as e:
                return e.code
        return body
    return factory
