r"""A small TeX for the simulated TeX process.

It executes the macros pyx really sends (\ProcessPyXBox and friends are not
known to it), reads its input line by line from a pipe, writes the terminal
output of a real TeX in scroll mode (prompts, \write16, error contexts, page
numbers, 79 column wrapping, closing lines) and a DVI file.  It records what
it shipped out, which is the ground truth of the correspondence check.
"""

import struct

from . import tfm

UNITY = 65536


class TeXEnd(Exception):
    pass


class TeXEOF(Exception):
    pass


class Box:
    __slots__ = ("kind", "w", "h", "d", "items")

    def __init__(self, kind, w=0, h=0, d=0, items=()):
        self.kind, self.w, self.h, self.d, self.items = kind, w, h, d, list(items)

    def copy(self):
        return Box(self.kind, self.w, self.h, self.d, self.items)


def xn_over_d(x, n, d):
    s = -1 if x < 0 else 1
    return s * ((abs(x) * n) // d)


def round_decimals(digits):
    a = 0
    for d in reversed(digits[:17]):
        a = (a + d * 131072) // 10
    return (a + 1) // 2


def print_scaled(s):
    r = ""
    if s < 0:
        r = "-"
        s = -s
    r += str(s // UNITY) + "."
    s = 10 * (s % UNITY) + 5
    delta = 10
    while True:
        if delta > UNITY:
            s = s + 32768 - 50000
        r += str(s // UNITY)
        s = 10 * (s % UNITY)
        delta *= 10
        if s <= delta:
            break
    return r


UNITS = {"in": (7227, 100), "pc": (12, 1), "cm": (7227, 254), "mm": (7227, 2540),
         "bp": (7227, 7200), "dd": (1238, 1157), "cc": (14856, 1157)}

CMR = {"exclamdown": 60}

PRIMS = set(r"""relax def gdef edef xdef long outer global let immediate write the setbox box copy hbox vbox vtop vcenter
advance multiply kern hskip vskip lower raise moveleft moveright vrule hrule shipout special par wd ht dp count dimen skip
font textfont scriptfont scriptscriptfont scrollmode nonstopmode batchmode message errmessage end leftskip rightskip parfillskip parskip
pretolerance tolerance parindent hyphenpenalty exhyphenpenalty hsize vsize begingroup endgroup displaystyle textstyle
phantom catcode newbox newdimen newcount newskip expandafter noexpand string number hfil hfill hss vfil quad qquad enspace thinspace
noindent indent unskip input baselineskip lineskip SimOut SimSpew SimHang SimDie SimSleep SimFlush SimAux mathsurround
bgroup egroup null strut ignorespaces unhbox unhcopy hrulefill jobname romannumeral char""".split())

LATEX = set(r"""documentclass begin makeatletter makeatother ProcessOptions usepackage @@end RequirePackage""".split())


class MiniTeX:

    def __init__(self, term, fonts, latex=False, options=None):
        """term: .readline() -> bytes or None, .write(bytes), .page(n) hooks
        fonts: name -> TFM bytes"""
        self.term = term
        self.fontdata = fonts
        self.latex = latex
        self.opt = options or {}
        self.tfms = {}
        self.offset = 0
        self.cat = {chr(i): 12 for i in range(256)}
        for c in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ":
            self.cat[c] = 11
        self.cat.update({"\\": 0, "{": 1, "}": 2, "$": 3, "&": 4, "\r": 5, "#": 6, "^": 7, "_": 8, " ": 10, "\t": 10, "~": 13, "%": 14})
        self.macros = {}
        self.fontcs = {}
        self.regs = {"count": {}, "dimen": {}, "skip": {}, "box": {}}
        self.alloc = {"box": 30, "dimen": 30, "count": 30, "skip": 30}
        self.params = {"hsize": 6.5*7227//100*0 + int(469.75499*UNITY), "vsize": int(643.20255*UNITY), "parindent": 20*UNITY,
                       "baselineskip": 12*UNITY, "lineskip": UNITY, "parskip": 0, "mathsurround": 0}
        self.skips = {"leftskip": (0, 0), "rightskip": (0, 0), "parfillskip": (0, 1.0)}
        self.ints = {"pretolerance": 100, "tolerance": 200, "hyphenpenalty": 50, "exhyphenpenalty": 50}
        self.style = {"font": None, 0: None, 1: None, 2: None, 3: None, 10: None}
        self.save = []
        self.toks = []          # stack of token lists (reversed)
        self.line = None
        self.state = "N"
        self.pages = []         # ground truth of shipped pages
        self.dvi = []
        self.fontnums = {}
        self.interaction = 3
        self.history = 0
        self.setfont_default()
        self.lines_read = 0
        self.outer_material = False
        self.document = not latex
        self.pdfname = None
        self.ended = False
        if latex:
            for n in ("linewidth", "textwidth"):
                self.macros[n] = ("reg", "dimen", self.alloc["dimen"])
                self.regs["dimen"][self.alloc["dimen"]] = 345*UNITY
                self.alloc["dimen"] += 1

    # -- fonts -------------------------------------------------------------
    def loadfont(self, name, at=None):
        if name not in self.tfms:
            if name not in self.fontdata:
                return None
            self.tfms[name] = tfm.cached(self.fontdata[name])
        t = self.tfms[name]
        ds = t.designsize >> 4
        return (name, at if at else ds)

    def setfont_default(self):
        self.macros_font("tenrm", "cmr10")
        self.style["font"] = self.loadfont("cmr10")
        for i, n in enumerate(["cmr", "cmmi", "cmsy"]):
            self.style[i] = self.loadfont(n + "10")
            self.style[10+i] = self.loadfont(n + "7")
        self.style[3] = self.style[13] = self.loadfont("cmex10")

    def macros_font(self, cs, name):
        self.fontcs[cs] = self.loadfont(name)

    def charinfo(self, font, c):
        t = self.tfms[font[0]]
        i = t.chars.get(c)
        if i is None:
            return None
        return tuple(tfm.scale(x, font[1]) for x in i[:4])

    # -- terminal output -----------------------------------------------------
    def out(self, s):
        r = []
        for c in s:
            if c == "\n":
                r.append("\n")
                self.offset = 0
            else:
                r.append(c)
                self.offset += 1
                if self.offset == 79:
                    r.append("\n")
                    self.offset = 0
        self.term.write("".join(r).encode("latin1"))

    def println(self):
        self.offset = 0
        self.term.write(b"\n")

    def nl(self, s=""):
        if self.offset:
            self.println()
        if s:
            self.out(s)

    def error(self, msg, ctx=None):
        self.history = 2
        self.nl("! " + msg + ".")
        self.println()
        if ctx is not None:
            before, after = ctx
            self.out("<*> " + before)
            self.println()
            self.out(" "*(4 + len(before)) + after)
        else:
            b = self.linepos_text()
            self.out("<*> " + b[0])
            self.println()
            self.out(" "*(4 + len(b[0])) + b[1])
        self.println()

    def linepos_text(self):
        if self.line is None:
            return "", ""
        return self.line[:self.pos][-40:], self.line[self.pos:].rstrip("\r")[:30]

    # -- reading ---------------------------------------------------------------
    def nextline(self):
        if self.lines_read:
            if self.offset == 0 and False:
                pass
            if self.emptyline:
                self.nl("(Please type a command or say `\\end')")
            self.println()
            self.out("*")
        data = self.term.readline()
        self.offset = 0
        if data is None:
            raise TeXEOF()
        self.lines_read += 1
        s = data.decode("latin1").rstrip(" \r")
        self.emptyline = (s == "")
        self.line = s + "\r"
        self.pos = 0
        self.state = "N"

    def lexline(self):
        """next token of the current line or None at its end"""
        while self.pos < len(self.line):
            c = self.line[self.pos]
            self.pos += 1
            k = self.cat.get(c, 12)
            if k == 0:
                if self.pos >= len(self.line):
                    return "cs", ""
                d = self.line[self.pos]
                if self.cat.get(d, 12) == 11:
                    j = self.pos
                    while j < len(self.line) and self.cat.get(self.line[j], 12) == 11:
                        j += 1
                    name = self.line[self.pos:j]
                    self.pos = j
                    self.state = "S"
                else:
                    name = d
                    self.pos += 1
                    self.state = "S" if self.cat.get(d, 12) == 10 else "M"
                return "cs", name
            if k == 5:
                self.pos = len(self.line)
                st, self.state = self.state, "N"
                if st == "N":
                    return "cs", "par"
                if st == "M":
                    return 10, " "
                return None
            if k == 14:
                self.pos = len(self.line)
                return None
            if k == 10:
                if self.state == "M":
                    self.state = "S"
                    return 10, " "
                continue
            if k == 9:
                continue
            self.state = "M"
            if k == 13:
                return "cs", c
            return k, c
        return None

    def get(self):
        """next unexpanded token"""
        while self.toks:
            l = self.toks[-1]
            if l:
                return l.pop()
            self.toks.pop()
        while True:
            if self.line is not None:
                t = self.lexline()
                if t is not None:
                    return t
            self.nextline()

    def unget(self, *ts):
        self.toks.append(list(reversed(ts)))

    def getx(self):
        """next token after macro expansion"""
        while True:
            t = self.get()
            if t[0] == "cs":
                m = self.macros.get(t[1])
                if m is not None and m[0] == "macro":
                    self.expand(t[1], m)
                    continue
                if m is not None and m[0] == "char":
                    return m[1], m[2]
                if m is not None and m[0] == "alias":
                    return "cs", m[1]
                if t[1] == "the":
                    self.unget(*[(10 if c == " " else 12, c) for c in self.the()])
                    continue
                if t[1] == "string":
                    u = self.get()
                    s = ("\\" + u[1]) if u[0] == "cs" else u[1]
                    self.unget(*[(12, c) for c in s])
                    continue
                if t[1] == "number":
                    self.unget(*[(12, c) for c in str(self.integer())])
                    continue
                if t[1] == "jobname":
                    self.unget(*[(12, c) for c in "texput"])
                    continue
                if t[1] == "expandafter":
                    a = self.get()
                    b = self.get()
                    if b[0] == "cs" and b[1] in self.macros and self.macros[b[1]][0] == "macro":
                        self.expand(b[1], self.macros[b[1]])
                    else:
                        self.unget(b)
                    self.unget(a)
                    continue
            return t

    def expand(self, name, m):
        _, params, body = m
        args = {}
        i = 0
        while i < len(params):
            p = params[i]
            if p[0] == "param":
                nxt = params[i+1] if i+1 < len(params) and params[i+1][0] != "param" else None
                if nxt is None:
                    t = self.get()
                    while t[0] == 10:
                        t = self.get()
                    if t[0] == 1:
                        args[p[1]] = self.balanced()
                    else:
                        args[p[1]] = [t]
                else:
                    acc, depth = [], 0
                    while True:
                        t = self.get()
                        if depth == 0 and t == nxt:
                            break
                        if t[0] == 1:
                            depth += 1
                        elif t[0] == 2:
                            depth -= 1
                        acc.append(t)
                    args[p[1]] = acc
                    i += 1
            else:
                t = self.get()
                if t != p:
                    self.error("Use of \\%s doesn't match its definition" % name)
                    return
            i += 1
        r = []
        for t in body:
            if t[0] == "param":
                r.extend(args[t[1]])
            else:
                r.append(t)
        self.toks.append(r[::-1])

    def balanced(self):
        """tokens up to the matching close brace (open brace already read)"""
        r, depth = [], 0
        while True:
            t = self.get()
            if t[0] == 1:
                depth += 1
            elif t[0] == 2:
                if depth == 0:
                    return r
                depth -= 1
            r.append(t)

    def nonspace(self):
        t = self.getx()
        while t[0] == 10:
            t = self.getx()
        return t

    def optspace(self):
        t = self.getx()
        if t[0] != 10:
            self.unget(t)

    def opteq(self):
        t = self.nonspace()
        if t == (12, "="):
            self.optspaces()
        else:
            self.unget(t)

    def optspaces(self):
        self.unget(self.nonspace())

    def keyword(self, w):
        got = []
        for i, c in enumerate(w):
            t = self.nonspace() if i == 0 else self.getx()
            got.append(t)
            if t[0] == "cs" or t[1].lower() != c:
                self.unget(*got)
                return False
        return True

    # -- quantities ----------------------------------------------------------
    def integer(self):
        sign = 1
        t = self.nonspace()
        while t in ((12, "-"), (12, "+")):
            if t[1] == "-":
                sign = -sign
            t = self.nonspace()
        if t == (12, "`"):
            t = self.get()
            v = ord(t[1][0])
            self.optspace()
            return sign*v
        if t[0] == "cs":
            v = self.internal(t[1])
            if v is None:
                self.unget(t)
                self.error("Missing number, treated as zero")
                return 0
            return sign*v
        s = ""
        while t[0] in (12, 11) and t[1].isdigit():
            s += t[1]
            t = self.getx()
        if t[0] != 10:
            self.unget(t)
        if not s:
            self.error("Missing number, treated as zero")
            return 0
        return sign*int(s)

    def internal(self, name):
        """value of an internal quantity or None"""
        m = self.macros.get(name)
        if m is not None and m[0] == "reg":
            if m[1] == "box":
                return m[2]
            return self.regs[m[1]].get(m[2], 0)
        if name in ("wd", "ht", "dp"):
            b = self.regs["box"].get(self.boxnum())
            return 0 if b is None else {"wd": b.w, "ht": b.h, "dp": b.d}[name]
        if name in ("count", "dimen", "skip"):
            return self.regs[name].get(self.integer(), 0)
        if name in self.params:
            return self.params[name]
        if name in self.ints:
            return self.ints[name]
        if name in self.skips:
            return self.skips[name][0]
        return None

    def boxnum(self):
        return self.integer()

    def dimen(self, fil=False):
        """a dimension in scaled points; with fil also (value, 'fil') is possible"""
        sign = 1
        t = self.nonspace()
        while t in ((12, "-"), (12, "+")):
            if t[1] == "-":
                sign = -sign
            t = self.nonspace()
        if t[0] == "cs":
            v = self.internal(t[1])
            if v is None:
                self.unget(t)
                self.error("Missing number, treated as zero")
                return 0
            return sign*v
        ip, frac, seen, dot = 0, [], False, False
        while t[0] in (11, 12) and (t[1].isdigit() or (t[1] in ".," and not dot)):
            if t[1] in ".,":
                dot = True
            elif dot:
                frac.append(int(t[1]))
                seen = True
            else:
                ip = ip*10 + int(t[1])
                seen = True
            t = self.getx()
        if t[0] != 10:
            self.unget(t)
        if not seen:
            self.error("Missing number, treated as zero")
        f = round_decimals(frac)
        # factor times an internal dimension?
        t = self.nonspace()
        if t[0] == "cs":
            v = self.internal(t[1])
            if v is not None:
                return sign*(ip*v + xn_over_d(v, f, UNITY))
        self.unget(t)
        if fil and self.keyword("fil"):
            while self.keyword("l"):
                pass
            self.optspace()
            return sign*(ip*UNITY + f), "fil"
        self.keyword("true")
        for u, i in (("em", 5), ("ex", 4)):
            if self.keyword(u):
                q = self.style["font"]
                v = tfm.scale(self.tfms[q[0]].param[i], q[1])
                self.optspace()
                return sign*(ip*v + xn_over_d(v, f, UNITY))
        if self.keyword("pt"):
            self.optspace()
            return sign*(ip*UNITY + f)
        if self.keyword("sp"):
            self.optspace()
            return sign*ip
        for u, (n, d) in UNITS.items():
            if self.keyword(u):
                q = ip*n
                v, rem = q//d, q % d
                ff = (n*f + UNITY*rem)//d
                v += ff//UNITY
                ff %= UNITY
                self.optspace()
                return sign*(v*UNITY + ff)
        self.error("Illegal unit of measure (pt inserted)")
        return sign*(ip*UNITY + f)

    def glue(self):
        """(natural, fil stretch)"""
        n = self.dimen()
        stretch = 0
        if self.keyword("plus"):
            v = self.dimen(fil=True)
            if isinstance(v, tuple):
                stretch = v[0]/UNITY
        if self.keyword("minus"):
            self.dimen(fil=True)
        return n, stretch

    def the(self):
        t = self.getx()
        if t[0] != "cs":
            self.error("You can't use `%s' after \\the" % t[1])
            return ""
        name = t[1]
        m = self.macros.get(name)
        kind = None
        if m is not None and m[0] == "reg":
            kind = m[1]
        elif name in ("wd", "ht", "dp", "dimen") or name in self.params:
            kind = "dimen"
        elif name in ("count",) or name in self.ints:
            kind = "count"
        elif name in ("skip",) or name in self.skips:
            kind = "dimen"
        v = self.internal(name)
        if v is None:
            self.error("You can't use `\\%s' after \\the" % name)
            return ""
        return str(v) if kind in ("count", "box") else print_scaled(v) + "pt"

    # -- groups and assignments -------------------------------------------------
    def push(self):
        self.save.append({})

    def pop(self):
        for (d, k), v in self.save.pop().items():
            tab = self.table(d)
            if v is None:
                tab.pop(k, None)
            else:
                tab[k] = v

    def table(self, d):
        if d in self.regs:
            return self.regs[d]
        return {"macros": self.macros, "params": self.params, "skips": self.skips, "ints": self.ints,
                "style": self.style, "fontcs": self.fontcs, "cat": self.cat}[d]

    def assign(self, d, k, v, glob=False):
        tab = self.table(d)
        if glob:
            for s in self.save:
                s.pop((d, k), None)
        elif self.save and (d, k) not in self.save[-1]:
            self.save[-1][(d, k)] = tab.get(k)
        tab[k] = v

    # -- the stomach -----------------------------------------------------------
    def main(self):
        try:
            if self.latex:
                # web2c does not wrap the banner
                self.term.write(b"This is pdfTeX, Version 3.141592653-2.6-1.40.25 (TeX Live 2023/Debian) (preloaded format=latex)\n")
                self.out(" restricted \\write18 enabled.\n")
            else:
                self.out("This is TeX, Version 3.141592653 (TeX Live 2023/Debian) (preloaded format=tex)\n")
            self.out("**")
            self.term.flush()
            self.emptyline = False
            self.nextline()
            self.lines_read = 1
            if self.latex:
                self.out("entering extended mode\nLaTeX2e <2023-11-01> patch level 1\nL3 programming layer <2024-01-22>\n")
            try:
                self.execute(None, "v")
            except TeXEnd:
                pass
            self.term.phase(self, "end")
            self.finish()
            return 1 if self.history >= 2 else 0
        except TeXEOF:
            self.nl("! Emergency stop.")
            self.println()
            self.out("<*> ")
            self.println()
            self.println()
            self.out("*** (job aborted, no legal \\end found)")
            self.println()
            self.history = 3
            self.finish(abort=True)
            return 1

    def finish(self, abort=False):
        if not abort:
            if self.outer_material:
                self.ship(Box("h"), [1])
        if self.history > 0:
            self.nl("(see the transcript file for additional information)")
        name = self.opt.get("outdir", ".") + "/texput"
        if self.pages:
            data = self.dvi_file()
            self.term.dvi(data, True)
            self.nl("Output written on %s.dvi (%d page%s, %d bytes)." % (name, len(self.pages), "" if len(self.pages) == 1 else "s", len(data)))
        else:
            self.nl("No pages of output.")
        self.nl("Transcript written on %s.log." % name)
        self.println()
        self.ended = True
        self.term.close()

    def execute(self, mode_list, mode):
        """executes tokens until the closing brace of this list (main: for ever).
        mode 'v': vertical list, 'h': horizontal list, 'm': math list"""
        lst = mode_list if mode_list is not None else []
        depth = 0
        self.para = None
        pending = []              # characters of a word, for ligatures and kerns

        def flush():
            if pending:
                lst.extend(self.word(pending))
                del pending[:]

        prefix_global = False
        while True:
            t = self.getx()
            k = t[0]
            if k == 11 or k == 12:
                if mode == "h":
                    f = self.style["font"]
                    if pending and pending[0][0] != f:
                        flush()
                    pending.append((f, ord(t[1])))
                elif mode == "m":
                    lst.append(self.mathchar(t[1], False))
                else:
                    if mode_list is None:
                        self.outer_material = True
                    else:
                        self.unget(t)
                        self.paragraph(lst)
                continue
            flush()
            if k == 10:
                if mode == "h":
                    sp = self.tfms[self.style["font"][0]].param[1]
                    lst.append(("glue", tfm.scale(sp, self.style["font"][1]), 0))
                continue
            if k == 1:
                self.push()
                depth += 1
                continue
            if k == 2:
                if depth == 0:
                    if mode_list is None:
                        self.error("Too many }'s")
                        continue
                    return lst
                depth -= 1
                self.pop()
                continue
            if k == 3:
                if mode == "m":
                    return lst
                if mode == "v":
                    if mode_list is None:
                        self.outer_material = True
                        self.push(); self.execute([], "m"); self.pop()
                    else:
                        self.unget(t)
                        self.paragraph(lst)
                    continue
                self.push()
                m = []
                self.execute(m, "m")
                self.pop()
                lst.extend(m)
                continue
            if k in (7, 8):
                if mode != "m":
                    self.error("Missing $ inserted")
                    continue
                self.script(lst, k == 7)
                continue
            if k in (4, 6):
                self.error("Misplaced alignment tab character &" if k == 4 else "You can't use `macro parameter character #' in horizontal mode")
                continue
            if k != "cs":
                continue
            name = t[1]
            if name == "par" and mode in ("h", "m"):
                if mode == "h" and getattr(self, "in_par", 0):
                    lst.append(("par",))
                continue
            r = self.command(name, lst, mode, mode_list is None)
            if r == "par":
                self.unget(t)
                self.paragraph(lst)
            elif r == "endgroup":
                if depth:
                    depth -= 1
                    self.pop()
            elif r == "begingroup":
                self.push()
                depth += 1

    def word(self, chars):
        """ligatures and kerns (TeX's main loop, simplified)"""
        f = chars[0][0]
        t = self.tfms[f[0]]
        codes = [c for _, c in chars]
        out = []
        i = 0
        while i < len(codes):
            c = codes[i]
            info = self.charinfo(f, c)
            if info is None:
                i += 1
                continue
            if i+1 < len(codes):
                lk = t.ligkern(c, codes[i+1])
                if lk is not None and lk[0] == "l" and lk[1] == 0:
                    codes[i:i+2] = [lk[2]]
                    continue
                out.append(("char", f, c, info[0], info[1], info[2]))
                if lk is not None and lk[0] == "k":
                    out.append(("kern", tfm.scale(lk[1], f[1])))
            else:
                out.append(("char", f, c, info[0], info[1], info[2]))
            i += 1
        return out

    def mathchar(self, c, script):
        if c.isalpha():
            fam, code = 1, ord(c)
        else:
            fam, code = 0, ord(c)
            if c == "-":
                fam, code = 2, 0
            elif c == "<":
                fam, code = 1, 60
            elif c == ">":
                fam, code = 1, 62
            elif c == "|":
                fam, code = 2, 106
        f = self.style[(10 if script else 0) + fam]
        info = self.charinfo(f, code)
        if info is None:
            f = self.style[10 if script else 0]
            info = self.charinfo(f, 63)
            code = 63
        return ("char", f, code, info[0] + info[3], info[1], info[2])

    def script(self, lst, sup):
        t = self.nonspace()
        items = []
        if t[0] == 1:
            depth = 1
            while depth:
                t = self.getx()
                if t[0] == 1:
                    depth += 1
                elif t[0] == 2:
                    depth -= 1
                elif t[0] in (11, 12):
                    items.append(self.mathchar(t[1], True))
        elif t[0] in (11, 12):
            items.append(self.mathchar(t[1], True))
        b = self.hpack(items)
        lst.append(("box", b, -int(3.62892*UNITY) if sup else int(1.49998*UNITY)))

    def paragraph(self, vlist):
        """collects a paragraph in vertical mode and appends its lines"""
        items = []
        indent = self.params["parindent"]
        if indent:
            items.append(("box", Box("h", indent, 0, 0), 0))
        self.in_par = getattr(self, "in_par", 0) + 1
        end = self.parlist(items)
        self.in_par -= 1
        # greedy line breaking
        hs = self.params["hsize"]
        lines, cur, width = [], [], 0
        unit = []
        def w(xs):
            return sum(self.width(x) for x in xs)
        words = []
        for x in items:
            if x[0] == "glue":
                words.append(("w", unit)); words.append(("g", x)); unit = []
            else:
                unit.append(x)
        words.append(("w", unit))
        glue = None
        for kind, x in words:
            if kind == "g":
                glue = x
                continue
            add = w(x) + (glue[1] if glue else 0)
            if cur and glue and width + add > hs:
                lines.append(cur)
                cur, width = list(x), w(x)
            else:
                if glue:
                    cur.append(glue)
                cur.extend(x)
                width += add
            glue = None
        lines.append(cur)
        for i, l in enumerate(lines):
            nat = w(l)
            left = self.skips["leftskip"]
            right = self.skips["rightskip"]
            ls, rs = left[1], right[1]
            if i == len(lines)-1:
                rs += self.skips["parfillskip"][1]
            rest = hs - nat - left[0] - right[0]
            off = left[0]
            if ls + rs:
                off += int(round(rest*ls/(ls+rs)))
            b = self.hpack([("kern", off)] + l)
            b.w = hs
            self.vappend(vlist, b, 0)
        return end

    def parlist(self, items):
        """reads the horizontal list of a paragraph up to \\par or the end of the group"""
        depth = 0
        pending = []

        def flush():
            if pending:
                items.extend(self.word(pending))
                del pending[:]
        while True:
            t = self.getx()
            k = t[0]
            if k in (11, 12):
                f = self.style["font"]
                if pending and pending[0][0] != f:
                    flush()
                pending.append((f, ord(t[1])))
                continue
            flush()
            if k == 10:
                sp = self.tfms[self.style["font"][0]].param[1]
                items.append(("glue", tfm.scale(sp, self.style["font"][1]), 0))
            elif k == 1:
                self.push(); depth += 1
            elif k == 2:
                if depth == 0:
                    self.unget(t)
                    break
                self.pop(); depth -= 1
            elif k == 3:
                self.push(); m = []
                self.execute(m, "m")
                self.pop(); items.extend(m)
            elif k == "cs":
                if t[1] == "par":
                    break
                self.command(t[1], items, "h", False)
            else:
                self.error("Misplaced character")
        while items and items[-1][0] == "glue":
            items.pop()

    def width(self, x):
        k = x[0]
        if k == "char":
            return x[3]
        if k in ("kern", "glue"):
            return x[1]
        if k == "rule":
            return x[1] or 0
        if k == "box":
            return x[1].w
        return 0

    def hpack(self, items):
        w = h = d = 0
        for x in items:
            k = x[0]
            if k == "char":
                w += x[3]; h = max(h, x[4]); d = max(d, x[5])
            elif k in ("kern", "glue"):
                w += x[1]
            elif k == "rule":
                w += x[1] or 0
                h = max(h, x[2] or 0); d = max(d, x[3] or 0)
            elif k == "box":
                b, s = x[1], x[2]
                w += b.w; h = max(h, b.h - s); d = max(d, b.d + s)
        return Box("h", w, h, d, items)

    def vappend(self, lst, b, shift):
        prev = None
        for x in reversed(lst):
            if x[0] == "box":
                prev = x[1].d
                break
            if x[0] == "rule":
                break
        if prev is not None:
            g = self.params["baselineskip"] - prev - b.h
            if g < 0:
                g = self.params["lineskip"]
            lst.append(("glue", g, 0))
        lst.append(("box", b, shift))

    def vpack(self, items, top):
        w = tot = d = 0
        first = None
        for x in items:
            if x[0] == "box":
                if first is None:
                    first = x[1].h
                tot += d + x[1].h
                d = x[1].d
                w = max(w, x[1].w + x[2])
            elif x[0] in ("kern", "glue"):
                if first is None:
                    first = 0
                tot += d + x[1]
                d = 0
            elif x[0] == "rule":
                if first is None:
                    first = x[2]
                tot += d + x[2]
                d = x[3]
        b = Box("v", w, tot, d, items)
        if top:
            h = 0
            if items:
                for x in items:
                    if x[0] == "special":
                        continue
                    if x[0] in ("box",):
                        h = x[1].h
                    elif x[0] == "rule":
                        h = x[2]
                    break
            b.d = tot + d - h
            b.h = h
        return b

    def readbox(self, name):
        """after \\hbox, \\vbox, \\vtop, \\box, \\copy"""
        if name in ("box", "copy"):
            n = self.integer()
            b = self.regs["box"].get(n)
            if b is not None and name == "copy":
                b = b.copy()
            if name == "box":
                self.regs["box"].pop(n, None)
            return b
        to = spread = None
        if self.keyword("to"):
            to = self.dimen()
        elif self.keyword("spread"):
            spread = self.dimen()
        t = self.nonspace()
        while t == ("cs", "relax"):
            t = self.nonspace()
        if t[0] != 1 and t != ("cs", "bgroup"):
            self.error("Missing { inserted")
            self.unget(t)
        self.push()
        lst = []
        par, self.in_par = getattr(self, "in_par", 0), 0
        self.execute(lst, "h" if name == "hbox" else "v")
        self.in_par = par
        self.pop()
        if name == "hbox":
            b = self.hpack(lst)
            if to is not None:
                b.w = to
            if spread is not None:
                b.w += spread
        else:
            b = self.vpack(lst, name == "vtop")
        return b

    def boxarg(self):
        t = self.nonspace()
        while t == ("cs", "relax"):
            t = self.nonspace()
        if t[0] == "cs" and t[1] in ("hbox", "vbox", "vtop", "box", "copy"):
            return self.readbox(t[1])
        self.error("A <box> was supposed to be here")
        self.unget(t)
        return None

    def appendbox(self, lst, mode, b, shift):
        if b is None:
            return
        if mode == "v":
            self.vappend(lst, b, shift)
        else:
            lst.append(("box", b, shift))

    def command(self, name, lst, mode, outer):
        glob = False
        while name in ("long", "outer", "global", "immediate"):
            if name == "global":
                glob = True
            t = self.nonspace()
            if t[0] != "cs":
                self.error("You can't use a prefix with `%s'" % t[1])
                self.unget(t)
                return
            name = t[1]
        m = self.macros.get(name)
        if m is not None and m[0] == "reg":
            kind, num = m[1], m[2]
            self.opteq()
            if kind == "box":
                self.error("Missing control sequence")
                return
            v = self.integer() if kind == "count" else self.dimen()
            if kind == "skip":
                if self.keyword("plus"):
                    self.dimen(fil=True)
                if self.keyword("minus"):
                    self.dimen(fil=True)
            self.assign(kind, num, v, glob)
            return
        if name in self.fontcs and self.fontcs[name] is not None and name not in self.macros:
            self.assign("style", "font", self.fontcs[name], glob)
            return
        if name not in PRIMS and not (self.latex and name in LATEX):
            if name == " ":
                if mode == "h":
                    sp = self.tfms[self.style["font"][0]].param[1]
                    lst.append(("glue", tfm.scale(sp, self.style["font"][1]), 0))
                return
            if name == "~":
                if mode == "h":
                    sp = self.tfms[self.style["font"][0]].param[1]
                    lst.append(("kern", tfm.scale(sp, self.style["font"][1])))
                return
            if name in ("$", "&", "#", "_", "%", "{", "}") and mode == "h":
                code = {"$": 36, "&": 38, "#": 35, "%": 37}.get(name)
                if code is not None:
                    lst.extend(self.word([(self.style["font"], code)]))
                    return
            if name in ("normalsize",) and self.latex:
                return
            self.undefined(name)
            return
        f = getattr(self, "do_" + {"@@end": "end"}.get(name, name), None)
        if f is not None:
            return f(lst, mode, outer, glob)
        if name in self.params:
            self.opteq()
            self.assign("params", name, self.dimen(), glob)
            if name in ("baselineskip", "lineskip", "parskip"):
                if self.keyword("plus"):
                    self.dimen(fil=True)
            return
        if name in self.skips:
            self.opteq()
            self.assign("skips", name, self.glue(), glob)
            return
        if name in self.ints:
            self.opteq()
            self.assign("ints", name, self.integer(), glob)
            return
        if name in ("count", "dimen", "skip"):
            n = self.integer()
            self.opteq()
            v = self.integer() if name == "count" else self.dimen()
            self.assign(name, n, v, glob)
            return
        if name in ("wd", "ht", "dp"):
            n = self.integer()
            self.opteq()
            v = self.dimen()
            b = self.regs["box"].get(n)
            if b is not None:
                setattr(b, name[0], v)
            return
        if name in ("hbox", "vbox", "vtop", "box", "copy"):
            b = self.readbox(name)
            if outer and b is not None:
                self.outer_material = True
            else:
                self.appendbox(lst, mode, b, 0)
            return
        if name in ("lower", "raise", "moveleft", "moveright"):
            v = self.dimen()
            b = self.boxarg()
            if name in ("raise", "moveleft"):
                v = -v
            self.appendbox(lst, mode, b, v)
            return
        if name in ("textfont", "scriptfont", "scriptscriptfont"):
            fam = self.integer()
            self.opteq()
            t = self.nonspace()
            fnt = self.fontcs.get(t[1]) if t[0] == "cs" else None
            if fnt is not None and fam <= 3 and name != "scriptscriptfont":
                self.assign("style", fam + (10 if name == "scriptfont" else 0), fnt, glob)
            return
        # everything else has no effect here

    def undefined(self, name):
        text = "\\" + name
        # the context of a terminal line: what was read and what is left
        if self.toks and any(self.toks):
            self.history = 2
            self.nl("! Undefined control sequence.")
            self.println()
            self.out("<argument> " + text + " ")
            self.println()
            self.out(" "*(12 + len(text)))
            self.println()
            a, b = self.linepos_text()
            self.out("<*> " + a)
            self.println()
            self.out(" "*(4 + len(a)) + b)
            self.println()
        else:
            self.error("Undefined control sequence", self.linepos_text())

    def do_relax(self, *a):
        pass

    do_ignorespaces = do_displaystyle = do_textstyle = do_indent = do_unskip = do_noexpand = do_relax

    def do_par(self, lst, mode, outer, glob):
        pass

    def do_begingroup(self, *a):
        return "begingroup"

    do_bgroup = do_begingroup

    def do_endgroup(self, *a):
        return "endgroup"

    do_egroup = do_endgroup

    def do_def(self, lst, mode, outer, glob, edef=False):
        t = self.get()
        while t[0] == 10:
            t = self.get()
        if t[0] != "cs":
            self.error("Missing control sequence inserted")
            return
        params = []
        while True:
            u = self.get()
            if u[0] == 1:
                break
            if u[0] == 6:
                n = self.get()
                params.append(("param", n[1]))
            else:
                params.append(u)
        body = self.balanced()
        if edef:
            self.toks.append([(2, "}")] + body[::-1])
            body = []
            d = 0
            while True:
                x = self.getx()
                if x[0] == 1:
                    d += 1
                elif x[0] == 2:
                    if d == 0:
                        break
                    d -= 1
                body.append(x)
        r, i = [], 0
        while i < len(body):
            if body[i][0] == 6 and i+1 < len(body):
                if body[i+1][0] == 6:
                    r.append(body[i+1])
                else:
                    r.append(("param", body[i+1][1]))
                i += 2
            else:
                r.append(body[i])
                i += 1
        self.assign("macros", t[1], ("macro", params, r), glob)

    def do_gdef(self, lst, mode, outer, glob):
        self.do_def(lst, mode, outer, True)

    def do_edef(self, lst, mode, outer, glob):
        self.do_def(lst, mode, outer, glob, True)

    def do_xdef(self, lst, mode, outer, glob):
        self.do_def(lst, mode, outer, True, True)

    def do_let(self, lst, mode, outer, glob):
        a = self.get()
        t = self.get()
        while t[0] == 10 or t == (12, "="):
            t = self.get()
        if t[0] == "cs":
            if t[1] in self.macros:
                self.assign("macros", a[1], self.macros[t[1]], glob)
            else:
                self.assign("macros", a[1], ("alias", t[1]), glob)
        else:
            self.assign("macros", a[1], ("char", t[0], t[1]), glob)

    def do_catcode(self, lst, mode, outer, glob):
        n = self.integer()
        self.opteq()
        v = self.integer()
        self.assign("cat", chr(n), v, glob)

    def _new(self, kind):
        t = self.get()
        while t[0] == 10:
            t = self.get()
        n = self.alloc[kind]
        self.alloc[kind] += 1
        self.assign("macros", t[1], ("reg", kind, n), True)

    def do_newbox(self, *a):
        self._new("box")

    def do_newdimen(self, *a):
        self._new("dimen")

    def do_newcount(self, *a):
        self._new("count")

    def do_newskip(self, *a):
        self._new("skip")

    def expanded_text(self):
        """text of a balanced, expanded argument"""
        t = self.nonspace()
        if t[0] != 1:
            self.error("Missing { inserted")
            self.unget(t)
            return ""
        r, depth = [], 0
        while True:
            t = self.getx()
            if t[0] == 1:
                depth += 1
            elif t[0] == 2:
                if depth == 0:
                    return "".join(r)
                depth -= 1
            if t[0] == "cs":
                r.append("\\" + t[1] + (" " if t[1][:1].isalpha() else ""))
            else:
                r.append(t[1])

    def do_write(self, lst, mode, outer, glob):
        self.integer()
        s = self.expanded_text()
        self.nl("")
        self.out(s)
        self.println()

    def do_message(self, lst, mode, outer, glob):
        s = self.expanded_text()
        if self.offset + len(s) > 77:
            self.println()
        elif self.offset:
            self.out(" ")
        self.out(s)

    def do_errmessage(self, lst, mode, outer, glob):
        self.error(self.expanded_text())

    def do_setbox(self, lst, mode, outer, glob):
        n = self.integer()
        self.opteq()
        b = self.boxarg()
        self.assign("box", n, b, glob)

    def do_advance(self, lst, mode, outer, glob):
        t = self.nonspace()
        name = t[1]
        m = self.macros.get(name)
        if m is not None and m[0] == "reg":
            self.keyword("by")
            if m[1] == "count":
                v = self.regs["count"].get(m[2], 0) + self.integer()
            else:
                v = self.regs[m[1]].get(m[2], 0) + self.dimen()
            self.assign(m[1], m[2], v, glob)
        elif name in ("count", "dimen"):
            n = self.integer()
            self.keyword("by")
            v = self.regs[name].get(n, 0) + (self.integer() if name == "count" else self.dimen())
            self.assign(name, n, v, glob)
        elif name in self.skips:
            self.keyword("by")
            a = self.skips[name]
            g = self.glue()
            self.assign("skips", name, (a[0]+g[0], a[1]+g[1]), glob)
        elif name in self.params:
            self.keyword("by")
            self.assign("params", name, self.params[name] + self.dimen(), glob)
        else:
            self.error("You can't use `%s' after \\advance" % name)

    def do_kern(self, lst, mode, outer, glob):
        v = self.dimen()
        lst.append(("kern", v))

    def do_hskip(self, lst, mode, outer, glob):
        if mode == "v":
            if outer:
                self.outer_material = True
                self.glue()
                return
            self.unget(("cs", "hskip"))
            self.paragraph(lst)
            return
        g = self.glue()
        lst.append(("kern", g[0]))

    def do_vskip(self, lst, mode, outer, glob):
        g = self.glue()
        if mode == "v":
            lst.append(("glue", g[0], 0))

    def do_quad(self, lst, mode, outer, glob):
        f = self.style["font"]
        lst.append(("kern", tfm.scale(self.tfms[f[0]].param[5], f[1])))

    def do_vrule(self, lst, mode, outer, glob):
        w, h, d = int(0.4*UNITY), None, None
        while True:
            if self.keyword("width"):
                w = self.dimen()
            elif self.keyword("height"):
                h = self.dimen()
            elif self.keyword("depth"):
                d = self.dimen()
            else:
                break
        if mode == "v":
            if outer:
                self.outer_material = True
                return
            b = self.hpack([("rule", w, h, d)])
            b.w = self.params["hsize"]
            self.vappend(lst, b, 0)
            return
        lst.append(("rule", w, h, d))

    def do_shipout(self, lst, mode, outer, glob):
        b = self.boxarg()
        c = [self.regs["count"].get(i, 0) for i in range(10)]
        while len(c) > 1 and c[-1] == 0:
            c.pop()
        self.ship(b, c)

    def do_special(self, lst, mode, outer, glob):
        s = self.expanded_text()
        if outer:
            self.outer_material = True
        lst.append(("special", s))

    def do_font(self, lst, mode, outer, glob):
        t = self.get()
        self.opteq()
        name = ""
        u = self.nonspace()
        while u[0] in (11, 12):
            name += u[1]
            u = self.getx()
        if u[0] != 10:
            self.unget(u)
        at = None
        if self.keyword("at"):
            at = self.dimen()
        elif self.keyword("scaled"):
            n = self.integer()
            f = self.loadfont(name)
            at = xn_over_d(f[1], n, 1000) if f else None
        f = self.loadfont(name, at)
        if f is None:
            self.error("Font \\%s=%s not loadable: Metric (TFM) file not found" % (t[1], name))
            return
        self.assign("fontcs", t[1], f, glob)
        self.macros.pop(t[1], None)

    def do_scrollmode(self, *a):
        self.println()
        self.interaction = 2

    def do_end(self, lst, mode, outer, glob):
        if self.latex:
            # \end{document}
            t = self.nonspace()
            if t[0] == 1:
                name = "".join(x[1] for x in self.balanced())
                if name != "document":
                    return
                if not self.document:
                    self.error("LaTeX Error: \\begin{document} ended by \\end{document}")
                aux = self.term.aux_written()
                if self.offset:
                    self.out(" ")
                self.out("(%s)" % aux)
            else:
                self.unget(t)
        raise TeXEnd()

    def do_phantom(self, lst, mode, outer, glob):
        t = self.nonspace()
        self.push()
        l = []
        if t[0] == 1:
            self.execute(l, "m" if mode == "m" else "h")
        else:
            self.unget(t)
        self.pop()
        b = self.hpack(l)
        lst.append(("box", Box("h", b.w, b.h, b.d), 0))

    def do_vcenter(self, lst, mode, outer, glob):
        b = self.readbox("vbox")
        axis = tfm.scale(self.tfms[self.style[2][0]].param[21], self.style[2][1])
        tot = b.h + b.d
        b.h = axis + tot//2
        b.d = tot - b.h
        lst.append(("box", b, 0))

    # -- LaTeX ------------------------------------------------------------------
    def brack(self):
        t = self.nonspace()
        if t != (12, "["):
            self.unget(t)
            return None
        r = ""
        while True:
            t = self.get()
            if t == (12, "]"):
                return r
            r += t[1]

    def do_documentclass(self, lst, mode, outer, glob):
        self.brack()
        t = self.nonspace()
        name = "".join(x[1] for x in self.balanced())
        self.term.load(self, name + ".cls", "Document Class: %s 2023/05/17 v1.4n Standard LaTeX document class" % name, "size10.clo")
        self.term.phase(self, "docclass")

    def do_usepackage(self, lst, mode, outer, glob):
        self.brack()
        t = self.nonspace()
        name = "".join(x[1] for x in self.balanced())
        self.term.load(self, name + ".sty", None, None)

    def do_makeatletter(self, *a):
        self.cat["@"] = 11

    def do_makeatother(self, *a):
        self.cat["@"] = 12

    def do_begin(self, lst, mode, outer, glob):
        t = self.nonspace()
        name = "".join(x[1] for x in self.balanced())
        if name == "document":
            if self.document:
                self.error("LaTeX Error: Can be used only in preamble")
                return
            self.document = True
            self.term.begindocument(self)

    # -- simulation control -----------------------------------------------------
    def simarg(self):
        t = self.nonspace()
        return "".join(x[1] for x in self.balanced())

    def do_SimOut(self, lst, mode, outer, glob):
        r"""\SimOut{key}: terminal output chosen by the plan"""
        self.term.simout(self, self.simarg())

    def do_SimHang(self, lst, mode, outer, glob):
        self.simarg()
        self.term.hang()

    def do_SimSpew(self, lst, mode, outer, glob):
        self.simarg()
        self.term.spew()

    def do_SimDie(self, lst, mode, outer, glob):
        self.term.die(self.simarg())

    def do_SimSleep(self, lst, mode, outer, glob):
        self.term.sleep(float(self.simarg()))

    def do_input(self, lst, mode, outer, glob):
        name = ""
        u = self.nonspace()
        while u[0] in (11, 12):
            name += u[1]
            u = self.getx()
        if u[0] != 10:
            self.unget(u)
        self.term.load(self, name, None, None)

    # -- output -------------------------------------------------------------------
    def ship(self, box, counts):
        if self.offset > 79-9:
            self.println()
        elif self.offset > 0:
            self.out(" ")
        self.out("[" + ".".join(str(c) for c in counts))
        page = {"counts": counts, "glyphs": [], "rules": [], "specials": []}
        code = bytearray()
        c10 = (list(counts) + [0]*10)[:10]
        prev = self.lastbop if self.pages else -1
        self.lastbop = sum(len(p) for p in self.dvi) + (len(self.preamble()))
        code += struct.pack(">B10ii", 139, *c10, prev)
        self.curfont = None
        self.wreg = None
        if box is not None:
            if box.kind == "h":
                self.hout(box, 0, 0, page, code)
            else:
                self.vout(box, 0, -box.h if False else 0, page, code)
        code += b"\x8c"
        self.pages.append(page)
        self.dvi.append(bytes(code))
        self.out("]")
        self.term.shipped(page, len(self.pages), (self.preamble() if len(self.pages) == 1 else b"") + bytes(code))

    def preamble(self):
        c = b" TeX output 2020.09.13:1226"
        return struct.pack(">BBIII", 247, 2, 25400000, 473628672, 1000) + bytes([len(c)]) + c

    def mv(self, code, op, v):
        """right (op 143) or down (157) with the shortest form"""
        if v == 0:
            return
        style = self.opt.get("dvistyle", 0)
        n = 1
        while n < 4 and not (-(1 << (8*n-1)) <= v < (1 << (8*n-1))):
            n += 1
        if style == 1:
            n = 4
        base = op
        code.append(base + n - 1)
        code += v.to_bytes(n, "big", signed=True)

    def right(self, code, v):
        if v == 0:
            return
        st = self.opt.get("dvistyle", 0)
        if st == 2:
            if self.wreg == v:
                code.append(147)
                return
            n = 1
            while n < 4 and not (-(1 << (8*n-1)) <= v < (1 << (8*n-1))):
                n += 1
            code.append(148 + n - 1)
            code += v.to_bytes(n, "big", signed=True)
            self.wreg = v
            return
        self.mv(code, 143, v)

    def setfont(self, code, f):
        if f == self.curfont:
            return
        if f not in self.fontnums:
            num = len(self.fontnums)
            self.fontnums[f] = num
            code += self.fntdef(f, num)
        n = self.fontnums[f]
        if n < 64:
            code.append(171 + n)
        else:
            code += bytes([235, n])
        self.curfont = f

    def fntdef(self, f, num):
        t = self.tfms[f[0]]
        return struct.pack(">BBIii", 243, num, t.checksum, f[1], t.designsize >> 4) + bytes([0, len(f[0])]) + f[0].encode()

    def hout(self, box, x, y, page, code):
        """box with its reference point at (x, y); the DVI position is there, too"""
        code.append(141)
        wsave, self.wreg = self.wreg, self.wreg
        cur = x
        dvix = x
        for it in box.items:
            k = it[0]
            if k == "char":
                self.right(code, cur - dvix)
                self.setfont(code, it[1])
                c = it[2]
                w = self.charinfo(it[1], c)[0]
                if c < 128:
                    code.append(c)
                else:
                    code += bytes([128, c])
                page["glyphs"].append((it[1][0], it[1][1], c, cur, y))
                dvix = cur + w
                cur += it[3]
            elif k in ("kern", "glue"):
                cur += it[1]
            elif k == "rule":
                h = it[2] if it[2] is not None else box.h
                d = it[3] if it[3] is not None else box.d
                w = it[1]
                if h + d > 0 and w > 0:
                    self.right(code, cur - dvix)
                    code.append(141)
                    self.mv(code, 157, d)
                    code += struct.pack(">Bii", 137, h + d, w)
                    code.append(142)
                    dvix = cur
                    page["rules"].append((cur, y + d, w, h + d))
                cur += w
            elif k == "box":
                b, s = it[1], it[2]
                self.right(code, cur - dvix)
                code.append(141)
                w0 = self.wreg
                self.mv(code, 157, s)
                if b.kind == "h":
                    self.hout(b, cur, y + s, page, code)
                else:
                    self.vout(b, cur, y + s, page, code)
                code.append(142)
                self.wreg = w0
                dvix = cur
                cur += b.w
            elif k == "special":
                self.right(code, cur - dvix)
                dvix = cur
                s = it[1].encode("latin1")
                code += bytes([239, len(s)]) + s
                page["specials"].append((it[1], cur, y))
        code.append(142)
        self.wreg = wsave

    def vout(self, box, x, y, page, code):
        code.append(141)
        wsave = self.wreg
        top = y - box.h
        cur = top
        dviy = y
        for it in box.items:
            k = it[0]
            if k == "box":
                b, s = it[1], it[2]
                cur += b.h
                self.mv(code, 157, cur - dviy)
                code.append(141)
                w0 = self.wreg
                self.right(code, s)
                if b.kind == "h":
                    self.hout(b, x + s, cur, page, code)
                else:
                    self.vout(b, x + s, cur, page, code)
                code.append(142)
                self.wreg = w0
                dviy = cur
                cur += b.d
            elif k in ("kern", "glue"):
                cur += it[1]
            elif k == "special":
                self.mv(code, 157, cur - dviy)
                dviy = cur
                s = it[1].encode("latin1")
                code += bytes([239, len(s)]) + s
                page["specials"].append((it[1], x, cur))
        code.append(142)
        self.wreg = wsave

    def dvi_file(self):
        pre = self.preamble()
        body = b"".join(self.dvi)
        post = len(pre) + len(body)
        r = struct.pack(">BiIIIiiHH", 248, self.lastbop, 25400000, 473628672, 1000, 0, 0, 20, len(self.dvi))
        for f, n in self.fontnums.items():
            r += self.fntdef(f, n)
        r += struct.pack(">BiB", 249, post, 2)
        data = pre + body + r
        pad = 4 + (4 - (len(data) + 4) % 4) % 4
        return data + b"\xdf"*pad
