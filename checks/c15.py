"""C15: graph data files are read completely, and cached data is right."""

import configparser
import copy
import errno
import io
import itertools
import locale
import logging
import math
import os
import re
import struct

from sim import docwork as dw, drawing, paint, seams

ID = "C15"
NAMES = ["a.dat", "b.dat", "./a.dat", "d1/a.dat", "ABS a.dat", "with blank_&.dat"]
DIRS = ["", "d1", "d2"]
HEADS = ["x", "y", "z", "a", "b", "e", "title", "points", "self", "addlinenumbers", "data", "x1", "1", "\"x y\"", "\u00e4", "$"]
# two patterns with the same beginning
LONG = "|".join("(?:%s)" % (c * 30) for c in "abcdefgh")
COMMENTS = {None: None, "semicolon": r";\s*", "long1": LONG + r"|;\s*", "long2": LONG + r"|#\s*"}
COLUMNS = {None: None, "csv": r"(.*?)(\s*,\s*|\s*$)", "colon": r"([^:]*)(:|$)"}
STRINGS = {None: None, "quote": r"'(.*?)'(\s+|$)", "csv": r"\"(.*?)\"\s*(,\s*|$)", "never": r"(?!)"}


def warm():
    logging.getLogger("pyx").setLevel(logging.CRITICAL)
    drawing.warm()
    from pyx import graph
    from pyx.graph import data
    logging.getLogger("pyx").setLevel(logging.NOTSET)


# -- plans -------------------------------------------------------------------

def g_value(rng, strings):
    k = rng.random()
    if k < 0.55:
        return rng.choice(["%d", "%.1f", "%.3f", "%g", "%e"]) % rng.choice([rng.uniform(0, 10), rng.uniform(0, 10), rng.uniform(-3, 14), rng.randint(0, 10)])
    if k < 0.65 or not strings:
        return rng.choice(["0", "10", "-0", "+5", "1e1", "5.", ".5", "1e400", "nan", "inf", "-inf", "0010"] if k < 0.6 else ["1", "2", "3"])
    return rng.choice(["x", "-", "eins", "\"two words\"", "\"\"", "\"3\"", "x\"x", "\"a\"b", "\"a\"b\" c", "#", "a#b", "1,5", "1;2", "'q'", "'a b'", "1:2", "\u4e2d\u6587", "\"unterminated", "0x10", "1_0", "None", "\"a # b\""])


def g_text(rng, size=None):
    eol = rng.choice(["\n", "\n", "\n", "\r\n", "\r"])
    n = size if size is not None else rng.choice([0, 1, 2, 3, 5, 8, 12, 20, 40])
    cols = rng.choice([1, 2, 2, 3, 3, 4, 6])
    strings = rng.random() < 0.5
    ragged = rng.random() < 0.3
    sep = rng.choice([" ", " ", "  ", "\t", " \t", ", ", ",", ":", "\x0c", "\u00a0"])
    out = []

    def comment():
        k = rng.random()
        c = rng.choice(["#", "#", "#", "##", "%", "!", "!!!", ";"])
        if k < 0.25:
            return c + rng.choice(["", " ", "\t"])
        if k < 0.5:
            return rng.choice(["", " "]) + c + " " + rng.choice(["made by a program", "2026-11-19", "units: m s", "#", "\"x y", ""])
        return c + rng.choice(["", " ", "  "]) + rng.choice([" ", sep, "\t"]).join(rng.choice(HEADS) for i in range(rng.choice([cols, cols, cols, rng.randint(1, 7)])))
    for i in range(rng.choice([0, 1, 1, 2, 3])):
        out.append(comment())
    for i in range(n):
        k = rng.random()
        if k < 0.06:
            out.append(comment())
        elif k < 0.12:
            out.append(rng.choice(["", " ", "\t "]))
        c = rng.randint(1, cols+1) if ragged and rng.random() < 0.4 else cols
        l = sep.join(g_value(rng, strings) for j in range(c))
        if rng.random() < 0.02:
            l += sep + "1" * rng.choice([60, 300]) + sep + "9"
        out.append(rng.choice(["", "", "", " ", "\t"]) + l + rng.choice(["", "", "", " ", sep]))
    for i in range(rng.choice([0, 0, 0, 1])):
        out.append(comment())
    s = "".join(l + eol for l in out)
    if rng.random() < 0.25 and s:
        s = s[:-len(eol)]
    return s


def g_conf(rng):
    out = []
    for i in range(rng.randint(0, 5)):
        out.append("[%s]" % rng.choice(["sec1", "sec2", "s3", "Zz", "a b", "DEFAULT", "1"]))
        for j in range(rng.randint(0, 4)):
            out.append("%s%s%s" % (rng.choice(["x", "y", "X", "title", "points", "self", "val", "a b"]), rng.choice(["=", " = ", ": "]), rng.choice(["1", "2.5", "text", "", "1e3", "a b", "\u4e2d", "nan"])))
        if rng.random() < 0.3:
            out.append(rng.choice(["", "# comment", "; comment"]))
    s = "\n".join(out) + "\n"
    if rng.random() < 0.15:
        s = s[:rng.randint(0, len(s))]
    return s


def g_cbd(rng):
    """a map, as segments [rank, orgx, orgy, [[dx, dy], ...]]"""
    segs = []
    for i in range(rng.choice([0, 1, 2, 3, 6])):
        jump = rng.random() < 0.2
        ox = rng.randint(-150*3600, 150*3600)
        strokes = []
        for j in range(rng.choice([0, 1, 2, 5, 20])):
            k = rng.random()
            if k < 0.6:
                strokes.append([rng.randint(-64, 63), rng.randint(-128, 127)])
            else:
                strokes.append([rng.choice([rng.randint(-100000, 100000), 64, -65, 0, 2**29, -2**29]) if not jump else rng.randint(-180*3600, 180*3600), rng.randint(-200000, 200000)])
        segs.append([rng.randint(0, 5), ox, rng.randint(-90*3600, 90*3600), strokes, jump])
    return segs


def g_column(rng):
    k = rng.random()
    if k < 0.4:
        return rng.choice([0, 1, 1, 2, 2, 3, 4, -1, 9])
    if k < 0.55:
        return rng.choice(HEADS[:-1]).strip("\"")
    return rng.choice(["$1", "2*$1", "$1+$2", "$0", "$(-1)", "$(1)*$(2)", "sqrt($1)", "1/$1", "log($2)", "x*x", "2*y", "k*$1", "x+k", "e", "pi*$1", "$(\"x y\")",
                       " $1 ", "splitatvalue($1, 3)[0]", "norm($1, $2)", "nothing+1", "f($2)", "-$1", "$-1", "neg($1)", "($1, $2)[1]"])


def g_options(rng):
    o = {}
    if rng.random() < 0.3:
        o["skiphead"] = rng.choice([0, 1, 2, 3, 7, 50])
    if rng.random() < 0.3:
        o["skiptail"] = rng.choice([0, 1, 2, 3, 4, 7, 50])
    if rng.random() < 0.3:
        o["every"] = rng.choice([1, 2, 3, 4, 7, 50])
    if rng.random() < 0.2:
        o["commentpattern"] = rng.choice([c for c in COMMENTS if c])
    if rng.random() < 0.15:
        o["columnpattern"] = rng.choice([c for c in COLUMNS if c])
    if rng.random() < 0.15:
        o["stringpattern"] = rng.choice([c for c in STRINGS if c])
    return o


def g_data_options(rng):
    o = {}
    if rng.random() < 0.3:
        o["title"] = rng.choice([None, "t", "a title"])
    if rng.random() < 0.2:
        o["copy"] = 0
    if rng.random() < 0.3:
        o["context"] = {"k": rng.choice([2, 0.5])}
        if rng.random() < 0.3:
            o["context"]["x"] = 77
    if rng.random() < 0.07:
        o["replacedollar"] = 0
    if rng.random() < 0.07:
        o["columncallback"] = "col"
    return o


def g_columns(rng, n=None):
    return {c: g_column(rng) for c in rng.sample(["x", "y", "z", "a", "b", "q"], rng.choice([0, 1, 2, 2, 3]))}


def gen(rng, tier):
    kinds = rng.choices(["file", "conf", "cbd"], [10, 1.3, 1.3], k=1)[0]
    big = rng.random() < 0.06
    huge = big and rng.random() < 0.2

    def content():
        if kinds == "conf":
            return g_conf(rng)
        if kinds == "cbd":
            return g_cbd(rng)
        t = g_text(rng, 400 if big and not huge else None)
        if huge and t:
            # a file of some hundred KB
            t = ["repeat", t, rng.choice([2, 100, 300000//len(t)])]
        return t
    steps = [["file", n, content()] for n in rng.sample(["a.dat", "b.dat", "d1/a.dat", "d2/a.dat", "with blank_&.dat"], 3)]
    names = [s[1] for s in steps]
    opts = [g_options(rng) for i in range(2)]
    for i in range(rng.randint(2, 12)):
        k = rng.random()
        n = rng.choice(names)
        if k < 0.5:
            fault = None
            if rng.random() < 0.35:
                fault = [rng.choice(["open", "read", "read", "read", "close", "interrupt", "interrupt"]), rng.choice([errno.EIO, errno.EACCES, errno.ESTALE, errno.EMFILE]), rng.choice([0, 0, 1, 2, 5, 20])]
            how = rng.choices(["name", "handle", "string", "lines"], [10, 1.5, 1.5, 1.5], k=1)[0] if kinds == "file" else rng.choice(["name", "name", "name", "handle"])
            if how == "string":
                fault = None
            if how == "lines" and fault:
                fault[0] = rng.choice(["read", "interrupt"])
            during = None
            if rng.random() < 0.12:
                during = [rng.choice(["replace", "remove"]), rng.choice([0, 1, 2]), content()]
            o = dict(rng.choice(opts)) if rng.random() < 0.7 else g_options(rng)
            if kinds == "cbd":
                o = {}
                if rng.random() < 0.4:
                    o["minrank"] = rng.randint(0, 4)
                if rng.random() < 0.4:
                    o["maxrank"] = rng.randint(0, 5)
            elif kinds == "conf":
                o = {}
            cols = g_columns(rng)
            if kinds == "cbd" and rng.random() < 0.7:
                cols = {"x": 1, "y": 2}
            elif kinds == "file" and rng.random() < 0.3:
                cols = {"x": 1, "y": 2}
            steps.append(["read", n, rng.choice([0, 0, 1, 2]), how, o, g_data_options(rng), cols, fault, during])
        elif k < 0.57:
            steps.append(["derive", rng.randrange(20), g_data_options(rng), g_columns(rng)])
        elif k < 0.61 and rng.random() < 0.6:
            j = rng.random()
            if j < 0.4:
                steps.append(["join", [rng.randrange(20) for j in range(rng.choice([1, 2, 2, 3]))], rng.choice(["-", "-", None, "joined"])])
            elif j < 0.7:
                n_, c_ = rng.choice([0, 1, 2, 5]), rng.choice([1, 2, 3])
                rows = [[rng.choice([rng.randint(0, 9), round(rng.uniform(0, 9), 2), None, "a"]) for q in range(c_)] for r in range(n_)]
                if rows and rng.random() < 0.1:
                    rows[rng.randrange(n_)].append(3)
                steps.append(["points", rows, rng.choice([0, 1, 1]), {c: rng.choice([0, 1, 1, 2, 2, -1, -2, 3, 4, -4]) for c in rng.sample(["x", "y", "z", "q"], rng.choice([1, 2, 2, 3]))}])
            elif j < 0.85:
                n_ = rng.choice([0, 1, 3, 6])
                steps.append(["values", {c: [rng.randint(0, 9) for q in range(n_ + (rng.random() < 0.05))] for c in rng.sample(["x", "y", "z", "q"], rng.choice([1, 2, 2, 3]))}])
            else:
                steps.append(["param", rng.choice(["t", "k", "x"]), rng.choice([0, -2, 1]), rng.choice([1, 4, 2.5]), rng.choice(["x, y = %s, k*%s", "x,y,z=(%s, 2*%s, 1)", "x,y,z=(%s, 2*%s)", " a , x = %s**2, sqrt(%s+2)", "x, y = %s+%s", "x = %s, k*%s"]),
                              rng.choice([2, 3, 7]), {"k": rng.choice([2, 3])}])
        elif k < 0.66 and kinds == "file":
            steps.append(["plot", [rng.randrange(20) for i in range(rng.choice([1, 1, 2]))], rng.choice(["pdf", "ps", "svg"])])
        elif k < 0.76:
            steps.append(["file", n, content()])
        elif k < 0.82 and kinds == "file":
            steps.append(["append", n, g_text(rng)])
        elif k < 0.88:
            steps.append(["remove", n])
        elif k < 0.95:
            steps.append(["chdir", rng.choice(DIRS)])
        else:
            steps.append(["read", n, 0, "name", {}, {}, {"x": 1, "y": 2}, None, None])
    return {"kind": kinds, "steps": steps, "buffer": rng.choice([None, None, 4096, 64, 16, 1]), "short": rng.choice([0, 0, 300, 800]),
            "simple": {"buffer": None, "short": 0}}


# -- what a file means -------------------------------------------------------

class Nothing(Exception):
    """there is no such data"""


def words(line, colpat, strpat, number):
    """the values of a line"""
    if not number:
        number = lambda s: s

    def value(s):
        try:
            return number(s)
        except ValueError:
            return s
    out = []
    if colpat is None and strpat is None:
        i, n = 0, len(line)
        while i < n:
            if line[i] == '"':
                # the first closing quote which is followed by a space or nothing
                j = i + 1
                while True:
                    j = line.find('"', j)
                    if j == -1 or j+1 == n or line[j+1].isspace():
                        break
                    j += 1
                if j != -1:
                    out.append(line[i+1:j])
                    i = j + 1
                    while i < n and line[i].isspace():
                        i += 1
                    continue
            j = i
            while j < n and not line[j].isspace():
                j += 1
            out.append(value(line[i:j]))
            i = j
            while i < n and line[i].isspace():
                i += 1
        return out
    colpat = re.compile(colpat or r"(\S*)(\s+|$)")
    strpat = re.compile(strpat or r'"(.*?)"(\s+|$)')
    while line:
        m = strpat.match(line)
        if m:
            out.append(m.group(1))
        else:
            m = colpat.match(line)
            if not m:
                raise Nothing("column pattern")
            out.append(value(m.group(1)))
        if not m.end():
            raise Nothing("empty match")
        line = line[m.end():]
    return out


def decode(b):
    try:
        return b.decode("utf-8")
    except UnicodeDecodeError:
        raise Nothing("encoding") from None


def lines_of(text, universal):
    if universal:
        text = text.replace("\r\n", "\n").replace("\r", "\n")
    l = text.split("\n")
    if not l[-1]:
        l.pop()
    return l


def tables(text, o, universal=True):
    """the possible meanings of a file: list of (rows, names) where the rows start with the line number"""
    cpat = COMMENTS[o.get("commentpattern")]
    colpat, strpat = COLUMNS[o.get("columnpattern")], STRINGS[o.get("stringpattern")]
    skip, tail, every = o.get("skiphead", 0), o.get("skiptail", 0), o.get("every", 1)
    rows = []
    early, late = [], []       # names before the first line, names before the first line used
    for l in lines_of(text, universal):
        l = l.strip()
        if cpat is None:
            n = 0
            if l[:1] in ("#", "!", "%"):
                n = len(l) - len(l.lstrip(l[0]))
                rest = l[n:].lstrip()
        else:
            m = re.match(cpat, l)
            n = m is not None
            if m:
                rest = l[m.end():]
        if n:
            names = words(rest, colpat, strpat, None)
            if names:
                if not rows:
                    early = names
                if len(rows) <= skip:
                    late = names
            continue
        r = words(l, colpat, strpat, float)
        if r:
            rows.append([len(rows)+1] + r)
    used = [r for i, r in enumerate(rows) if i >= skip and (i-skip) % every == 0 and i < len(rows)-tail]
    result = []
    widths = {max((len(r) for r in used), default=0), max((len(r) for i, r in enumerate(rows) if i >= skip and (i-skip) % every == 0), default=0), max((len(r) for r in rows), default=0)}
    for width in sorted(widths):
        for names in [early] if early == late else [early, late]:
            result.append(([r + [None]*(width-len(r)) for r in used], names))
    return result


MATH = {"sqrt": math.sqrt, "log": math.log, "e": math.e, "pi": math.pi, "norm": math.hypot, "neg": lambda x: -x, "splitatvalue": lambda v, p: (int(v > p), v)}


def context_of(d):
    c = dict(d.get("context", {}))
    return c


def evaluate(named, numbered, count, d, columns):
    """the columns dictionary resulting from named (dict) and numbered (list or None) columns"""
    out = {}
    for c, v in columns.items():
        if isinstance(v, str) and v in named:
            out[c] = named[v]
            continue
        if isinstance(v, int):
            if numbered is None or not numbered and not count:
                raise Nothing("no numbers")
            if not -len(numbered) <= v < len(numbered):
                raise Nothing("column %d" % v)
            out[c] = numbered[v]
            continue
        cb = d.get("columncallback", "__column__")
        text = v
        if d.get("replacedollar", 1):
            text = re.sub(r"\$(-?\d+)", r"COL(\1)", text).replace("$", "COL")
        try:
            code = compile(text.strip(), "<model>", "eval")
        except SyntaxError:
            raise Nothing("syntax") from None
        col = []
        for i in range(count):
            def get(x):
                if isinstance(x, int) and numbered is not None and -len(numbered) <= x < len(numbered):
                    return numbered[x][i]
                if x in named:
                    return named[x][i]
                raise LookupError(x)
            env = context_of(d)
            env["COL"] = get
            env[cb] = get
            if "f" in text:
                env.setdefault("f", FUNC)
            env.update({k: x[i] for k, x in named.items()})
            try:
                col.append(eval(code, dict(MATH), env))
            except (ArithmeticError, ValueError):
                col.append(None)
            except Exception as e:
                raise Nothing("%s: %s" % (type(e).__name__, e)) from None
        out[c] = col
    if d.get("copy", 1):
        for k, x in named.items():
            out.setdefault(k, x)
    return out


def FUNC(x):
    return 2*x + 1


def meanings_text(text, o, d, columns, universal=True):
    """list of results (dict or Nothing)"""
    try:
        ts = tables(text, o, universal)
    except Nothing as e:
        return [e]
    out = []
    for rows, names in ts:
        width = len(rows[0]) if rows else 0
        numbered = [[r[i] for r in rows] for i in range(width)]
        named = {}
        for i, n in enumerate(names):
            if i+1 < width or not rows:
                named[n] = numbered[i+1] if rows else []
        out += attempt(named, numbered, len(rows), d, columns)
        if not rows:
            # whether names are known without data does not matter
            out += attempt({}, numbered, 0, d, columns)
            w = [Nothing("no data")]
            out += w
            for k in sorted(set(range(1, min(len(names), 40)+1)) | {len(names)} - {0}):
                out += attempt({n: [] for n in names[:k]}, [[] for i in range(20)], 0, d, columns)
    return out


def attempt(*a):
    try:
        return [evaluate(*a)]
    except Nothing as e:
        return [e]


def meanings_conf(text, o, d, columns):
    cp = configparser.ConfigParser(strict=False)
    cp.optionxform = str
    try:
        cp.read_string(text.replace("\r\n", "\n"))
        secs = sorted(cp.sections())
        names = []
        rows = {}
        for s in secs:
            for k in cp.options(s):
                if k not in names:
                    names.append(k)
                v = cp.get(s, k)
                try:
                    v = float(v)
                except ValueError:
                    pass
                rows[s, k] = v
    except configparser.Error as e:
        return [Nothing(str(e))]
    named = {k: [rows.get((s, k)) for s in secs] for k in names}
    r = attempt(named, [secs], len(secs), d, columns)
    if not secs:
        r += attempt({}, [[]], 0, d, columns) + [Nothing("no data")]
    return r


def cbd_bytes(segs):
    """(file, list of points per segment)"""
    dictaddr = 40
    body = b""
    heads = b""
    pos = dictaddr + 28*len(segs)
    pts = []
    for i, (rank, ox, oy, strokes, jump) in enumerate(segs):
        b = b""
        x, y = ox, oy
        p = [(x, y)]
        for dx, dy in strokes:
            if -64 <= dx < 64 and -128 <= dy < 128:
                # short: one byte for latitude, seven bits for longitude (bit 6 marks the short form, bit 7 is the sign)
                c2 = (dx + 64) | 0x40 if dx >= 0 else (dx + 256)
                if dx >= 0:
                    c2 = 64 + dx
                b += bytes([dy & 0xff, c2])
            else:
                d = struct.pack("<i", dx)
                e = struct.pack("<i", dy)
                # high word of dx first, with bit 6 of its upper byte clear
                c = bytearray(d[2:4])
                c[1] &= 0xbf
                b += bytes(c) + d[0:2] + e[2:4] + e[0:2]
            x += dx
            y += dy
            p.append((x, y))
        lo, hi = min(q[0] for q in p), max(q[0] for q in p)
        if lo < -150*3600 and hi > 150*3600:
            p = [(q[0] + 360*3600 if q[0] < 0 else q[0], q[1]) for q in p]
        pts.append((rank, [(q[0]/3600.0, q[1]/3600.0) for q in p]))
        heads += struct.pack("<6i2h", i+1, max(-2**31, min(2**31-1, max(q[1] for q in p))), 0, clamp(hi), clamp(lo), pos + len(body), 16+len(b), rank)
        body += struct.pack("<3i2h", ox, oy, i+1, len(strokes), 0) + b
    return struct.pack("<5i20s", 0x20770002, dictaddr, len(segs), 0, 0, b"") + heads + body, pts


def clamp(x):
    return max(-2**31, min(2**31-1, x))


def meanings_cbd(pts, o, d, columns):
    rows = []
    for rank, p in pts:
        if rank >= o.get("minrank", -99) and rank <= o.get("maxrank", 99):
            if rows:
                rows.append((None, None))
            rows += p
    numbered = [list(range(1, len(rows)+1)), [r[0] for r in rows], [r[1] for r in rows]] if rows else []
    r = attempt({}, numbered, len(rows), d, columns)
    if not rows:
        r += [Nothing("no data")] + attempt({}, [[], [], []], 0, d, columns)
    return r


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or a != a and b != b
    return type(a) == type(b) and a == b


# -- the run -----------------------------------------------------------------

class Lines:
    """a file-like object made by the user"""

    def __init__(self, env, text, fault):
        self.env, self.fault = env, fault
        self.file = io.StringIO(text)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.checked())

    def read(self, *args):
        return self.checked().read(*args)

    def readline(self, *args):
        return self.checked().readline(*args)

    def readlines(self, *args):
        return self.checked().readlines(*args)

    def checked(self):
        if self.fault:
            self.env.sim.fault(self.fault[0])
            if self.fault[0] == "interrupt":
                raise KeyboardInterrupt
            raise OSError(self.fault[1], os.strerror(self.fault[1]))
        return self.file


def run(ctx):
    from pyx.graph import data
    plan, w, sim = ctx.plan, ctx.world, ctx.sim
    real = seams.real
    kind = plan["kind"]
    if plan["buffer"]:
        w.buffer_size = plan["buffer"]
    short = plan["short"]
    utf8 = locale.getencoding().lower().replace("-", "") == "utf8" or locale.getpreferredencoding(False).lower().replace("-", "") == "utf8"
    if not utf8:
        raise RuntimeError("encoding")
    for d in DIRS[1:]:
        real["mkdir"](os.path.join(w.cwd, d))
    here = w.cwd
    files = {}        # path -> content or missing
    versions = {}     # path -> contents since the first time the file was read by name
    objects = []      # [object, snapshot, description]
    plots = compared = 0

    def plain(content):
        if isinstance(content, list) and content[:1] == ["repeat"]:
            return content[1] * content[2]
        return content

    def store(path, content):
        content = plain(content)
        if content is None:
            if files.pop(path, None) is not None:
                real["unlink"](path)
            return
        if isinstance(content, str):
            b = content.encode("utf-8")
        else:
            b = cbd_bytes(content)[0]
        with real["open"](path + ".new", "wb") as f:
            f.write(b)
        real["rename"](path + ".new", path)
        files[path] = content
        if path in versions:
            versions[path].append(content)

    def meanings(content, o, d, columns, universal=True):
        if kind == "file":
            return meanings_text(content, o, d, columns, universal)
        if kind == "conf":
            return meanings_conf(content, o, d, columns)
        return meanings_cbd(cbd_bytes(content)[1], o, d, columns)

    def full(name, variant):
        p = os.path.join(w.cwd, name)
        if variant == 1:
            rel = os.path.relpath(p, here)
            return p, rel if rel.startswith(".") else "./" + rel
        if variant == 2:
            return p, p
        # the plain name is looked for in the current directory
        return os.path.join(here, name), name

    for n, st in enumerate(plan["steps"]):
        op = st[0]
        what = "step %d %s" % (n, op)
        if op == "file":
            store(os.path.join(w.cwd, st[1]), st[2])
        elif op == "append":
            p = os.path.join(w.cwd, st[1])
            store(p, files.get(p, "") + st[2])
        elif op == "remove":
            store(os.path.join(w.cwd, st[1]), None)
        elif op == "chdir":
            here = os.path.join(w.cwd, st[1])
            os.chdir(here)
        elif op == "derive":
            if not objects:
                continue
            src = objects[st[1] % len(objects)]
            d, cols = st[2], st[3]
            err = res = None
            try:
                res = data.data(src[0], **kwargs(d, cols))
            except Exception as e:
                err = e
            named = src[1]
            counts = {len(v) for v in named.values()}
            # a function or text expression is evaluated for the rows of the first column
            numbered = getattr(src[0], "columndata", None) if src[2].split()[2] == "points" else None
            want = attempt(named, numbered, len(next(iter(named.values()))) if named else 0, d, cols)
            if not named:
                want += [Nothing("no data")] + attempt(named, [[] for i in range(20)], 0, d, cols)
            if not judge(ctx, "%s %r %r: %s" % (what, d, cols, "returned" if err is None else "raised %s (%s)" % (type(err).__name__, err)), err, res, want, d, cols):
                return
            if res is not None:
                compared += 1
                objects.append([res, copy.deepcopy(res.columns), what])
        elif op in ("join", "points", "values", "param"):
            r = direct(ctx, data, what, st, objects)
            if r is False:
                return
            if r is not None:
                compared += 1
                objects.append([r, copy.deepcopy(r.columns), what])
        elif op == "plot":
            if not plot(ctx, what, [objects[i % len(objects)] for i in st[1]] if objects else [], st[2]):
                return
            plots += 1
        elif op == "read":
            name, variant, how, o, d, cols, fault, during = st[1:]
            for again in (False, True):
                path, given = full(name, variant)
                content = files.get(path)
                first = path not in versions
                if how == "name":
                    versions.setdefault(path, [] if content is None else [content])
                w.rules.clear()
                before = dict(sim.faults)
                opens = len(w.handles)
                left = [fault[2] if fault else 0]
                dleft = [during[1] if during else 0]

                def max_read(p, k):
                    if p == path:
                        if during and not again:
                            dleft[0] -= 1
                            if dleft[0] == -1:
                                sim.fault("file_" + during[0])
                                store(path, during[2] if during[0] == "replace" else None)
                        if fault and fault[0] == "interrupt" and not again:
                            left[0] -= 1
                            if left[0] == -1:
                                sim.fault("interrupt")
                                raise KeyboardInterrupt
                        if short and k > 1 and sim.choices.chance(short):
                            sim.fault("short_read")
                            return 1 + sim.choices.pick(k-1)
                    return k
                w.max_read = max_read
                if fault and not again and fault[0] not in ("interrupt",) and how != "lines":
                    w.add_rule(fault[0], lambda p: os.path.abspath(str(p)) == path, fault[1], skip=fault[2])
                err = res = None
                universal = True
                handle = None
                try:
                    if how == "string":
                        src = io.StringIO(content or "")
                        universal = False
                    elif how == "lines":
                        src = Lines(ctx, content or "", fault if not again else None)
                        universal = False
                    elif how == "handle":
                        src = handle = open(given, "rb" if kind == "cbd" else "r")
                    else:
                        src = given
                    res = make(data, kind, src, o, d, cols)
                except (Exception, KeyboardInterrupt) as e:
                    err = e
                    e.__traceback__ = None
                fired = {k for k, v in sim.faults.items() if v != before.get(k, 0) and k not in ("short_read", "file_replace", "file_remove")}
                text = "%s of %s (%s, %s, %r, %r, %r), fault %r, during %r%s: %s" % (what, given if variant != 2 else "/" + name, how, "now " + os.path.relpath(here, w.cwd), o, d, cols, fault, during and during[:2], " (again)" if again else "",
                                                                     "returned" if err is None else "raised %s (%s)" % (type(err).__name__, w.short(err)))
                w.rules.clear()
                if handle is not None:
                    if handle.closed:
                        ctx.fail("closed", "%s and closed the file of the user" % text)
                        return
                    handle.close()
                for h in w.handles[opens:]:
                    if not h.closed:
                        ctx.fail("open-file", "%s and the file is left open" % text)
                        return
                if isinstance(err, KeyboardInterrupt) and not fired:
                    raise RuntimeError("nothing was injected")
                if err is not None and fired:
                    ctx.count("reported")
                    continue
                if err is None and any(k.split(":")[0] in ("open", "read", "interrupt") for k in fired):
                    ctx.fail("lost-error", "%s although %s" % (text, sorted(fired)))
                    return
                if how == "name":
                    allowed = list(versions[path])
                    if not first:
                        ctx.count("repeated")
                elif how in ("string", "lines"):
                    allowed = ["" if content is None else content]
                else:
                    allowed = [] if content is None else [content]
                    # (what the name meant when it was opened)
                want = []
                for c in allowed:
                    want += meanings(c, o, d, cols, universal)
                if path not in files or content is None:
                    if how in ("name", "handle"):
                        want.append(FileNotFoundError())
                if not judge(ctx, text, err, res, want, d, cols):
                    return
                if res is not None:
                    compared += 1
                    if not title(ctx, text, res, given if how == "name" else "user provided file-like object", d, cols):
                        return
                    objects.append([res, copy.deepcopy(res.columns), text])
                if not fault and not during:
                    break
    for obj, snap, text in objects:
        if not same(obj.columns, snap):
            ctx.fail("changed", "the data of %s has changed later: %s" % (text, diff(snap, obj.columns)))
            return
    ctx.nontrivial = compared > 0


def direct(ctx, data, what, st, objects):
    """data which is not read from a file; returns the data set, None, or False for a violation"""
    op = st[0]
    title = "t"
    context = None
    if op == "join":
        src = [objects[i % len(objects)] for i in st[1]] if objects else []
        if not src:
            return None
        kw = {} if st[2] == "-" else {"title": st[2]}
        if st[2] == "-" and any(o[0].title is None for o in src):
            kw = {"title": None}
        title = kw.get("title", " + ".join(str(o[0].title) for o in src))
        keys = {k for o in src for k in o[1]}
        want = {k: [] for k in keys}
        for o in src:
            n = len(next(iter(o[1].values()))) if o[1] else 0
            for k in keys:
                want[k] += o[1].get(k, [None]*n)
        make = lambda: data.join([o[0] for o in src], **kw)
    elif op == "points":
        rows, ln, cols = st[1:]
        width = len(rows[0]) if rows else 0
        want = Nothing("ragged") if any(len(r) != width for r in rows) else {}
        if want == {}:
            cd = [list(range(1, len(rows)+1))] * ln + [[r[i] for r in rows] for i in range(width)]
            for c, i in cols.items():
                if not rows:
                    want[c] = []
                elif abs(i) > width or not ln and (i == width or not -width <= i):
                    want = Nothing("column")
                    break
                elif not ln and i == -width:
                    # (the first column, which may be refused, too)
                    want = None
                    break
                else:
                    want[c] = cd[i]
        arg = copy.deepcopy(rows)
        make = lambda: data.points(arg, title="t", addlinenumbers=ln, **cols)
    elif op == "values":
        want = copy.deepcopy(st[1]) if len({len(v) for v in st[1].values()}) == 1 else Nothing("lengths")
        make = lambda: data.values(title="t", **copy.deepcopy(st[1]))
    else:
        var, lo, hi, expr, n, context = st[1:]
        context = dict(context)
        expr = expr % (var, var)
        names = [x.strip() for x in expr.split("=")[0].split(",")]
        if var in context:
            want = Nothing("in context")
        else:
            code = compile(expr.split("=")[1].strip(), "<model>", "eval")
            want = {x: [] for x in names}
            for i in range(n):
                env = dict(context)
                env[var] = lo + (hi-lo)*i/(n-1.0)
                try:
                    vals = eval(code, dict(MATH), env)
                    if len(vals) != len(names):
                        raise TypeError
                except TypeError:
                    want = Nothing("tuple")
                    break
                for x, v in zip(names, vals):
                    want[x].append(v)
        given = dict(context)
        make = lambda: data.paramfunction(var, lo, hi, expr, title="t", points=n, context=context)
    text = "%s %s" % (what, str(st[1:])[:300])
    try:
        res = make()
    except Exception as e:
        e.__traceback__ = None
        if isinstance(want, dict):
            ctx.fail("rejected", "%s raised %s (%s) although it means %r" % (text, type(e).__name__, e, want))
            return False
        ctx.count("rejected")
        return None
    if want is None:
        return None
    if not isinstance(want, dict):
        ctx.fail("accepted", "%s although %s" % (text, want))
        return False
    if not same(want, res.columns):
        ctx.fail("data", "%s: %s" % (text, diff(want, res.columns)))
        return False
    if sorted(res.columnnames) != sorted(res.columns):
        ctx.fail("columnnames", "%s: columnnames %r, columns %r" % (text, sorted(res.columnnames), sorted(res.columns)))
        return False
    if res.title != title:
        ctx.fail("title", "%s has the title %r instead of %r" % (text, res.title, title))
        return False
    if context is not None and context != given:
        ctx.fail("changed", "%s: the context of the user is now %r" % (text, context))
        return False
    ctx.count("direct_" + op)
    return res


def make(data, kind, src, o, d, cols):
    kw = kwargs(d, cols)
    for k, v in o.items():
        if k == "commentpattern":
            v = re.compile(COMMENTS[v])
        elif k == "columnpattern":
            v = re.compile(COLUMNS[v])
        elif k == "stringpattern":
            v = re.compile(STRINGS[v])
        kw[k] = v
    if kind == "conf":
        return data.conffile(src, **kw)
    if kind == "cbd":
        return data.cbdfile(src, **kw)
    return data.file(src, **kw)


def kwargs(d, cols):
    kw = dict(cols)
    kw.update(d)
    if any(isinstance(v, str) and "f(" in v for v in cols.values()):
        c = dict(kw.get("context", {}))
        c["f"] = FUNC
        kw["context"] = c
    elif "context" in kw:
        kw["context"] = dict(kw["context"])
    return kw


def diff(a, b):
    if set(a) != set(b):
        return "columns %s instead of %s" % (sorted(b), sorted(a))
    for k in sorted(a):
        if len(a[k]) != len(b[k]):
            return "%d values instead of %d in %r: %r instead of %r" % (len(b[k]), len(a[k]), k, b[k][:12], a[k][:12])
        for i, (x, y) in enumerate(zip(a[k], b[k])):
            if not same(x, y):
                return "%r is %r instead of %r in line %d of %d" % (k, y, x, i, len(a[k]))
    return "?"


def judge(ctx, text, err, res, want, d, cols):
    if "title" not in d and not all(str(x).isascii() for x in list(cols) + list(cols.values())):
        # the default title is TeX code, which PyX does not make for such characters
        want = want + [Nothing("title")]
    if err is not None:
        if isinstance(err, FileNotFoundError):
            ok = any(isinstance(x, FileNotFoundError) for x in want)
        else:
            ok = any(isinstance(x, Nothing) for x in want)
        if ok:
            ctx.count("rejected")
            return True
        ctx.fail("rejected", "%s although it means %r" % (text, [x if not isinstance(x, dict) else {k: v[:5] for k, v in x.items()} for x in want[:2]]))
        return False
    good = [x for x in want if isinstance(x, dict)]
    got = res.columns
    if sorted(map(str, res.columnnames)) != sorted(map(str, got)):
        ctx.fail("columnnames", "%s: columnnames %r, columns %r" % (text, sorted(res.columnnames), sorted(got)))
        return False
    if any(same(x, got) for x in good):
        ctx.count("compared")
        if len(want) > 1:
            ctx.count("versions")
        return True
    if not good:
        ctx.fail("accepted", "%s although %r: %r" % (text, [str(x) for x in want[:3]], {k: v[:5] for k, v in got.items()}))
    else:
        ctx.fail("data", "%s: %s" % (text, diff(good[0], got)))
    return False


def title(ctx, text, res, name, d, cols):
    from pyx import text as ptext
    if "title" in d:
        ok = res.title == d["title"]
    else:
        ok = res.title == ptext.escapestring(name) + ": " + ", ".join(ptext.escapestring(c) + "=" + ptext.escapestring(str(cols[c])) for c in sorted(cols))
    if not ok:
        ctx.fail("title", "%s has the title %r for %r" % (text, res.title, d.get("title", name)))
    return ok


def plot(ctx, what, objs, fmt):
    """are all points plotted?"""
    from pyx import graph, deco, path
    W, H = 10, 5
    objs = [o for o in objs if "x" in o[1] and "y" in o[1] and not any(k in o[1] for k in ("x1", "x2"))]
    # only the columns x and y, as other names may have a meaning to the graph
    if not objs:
        return True
    ctx.count("plots")
    g = graph.graphxy(width=W, height=H, x=graph.axis.lin(min=0, max=10, painter=None), y=graph.axis.lin(min=0, max=10, painter=None),
                      x2=None, y2=None)
    want = []
    for i, (o, cols, text) in enumerate(objs):
        g.plot(o, [graph.style.symbol([graph.style.symbol.square, graph.style.symbol.triangle][i % 2], size=0.1, symbolattrs=[deco.stroked])])
        for x, y in zip(cols["x"], cols["y"]):
            try:
                x, y = float(x), float(y)
                p = x/10.0, y/10.0
            except (TypeError, ValueError, OverflowError):
                continue
            if isinstance(x, complex) or not all(-1e-10 <= v <= 1+1e-10 for v in p):
                continue
            want.append((p[0]*W*72/2.54, p[1]*H*72/2.54, 4 if i % 2 == 0 else 3))
    g.stroke(path.rect(0, 0, W, H))
    b = io.BytesIO()
    getattr(g, dw.METHODS[fmt])(b)
    try:
        marks = dw.Painted(fmt, b.getvalue()).pages[0]
    except paint.Problem as e:
        ctx.fail("plot-broken", "%s of %s: %s" % (what, [o[2] for o in objs], e))
        return False
    got = []
    frame = None
    for m in marks:
        pts = m.path[0][0]
        corners = {(round(x, 3), round(y, 3)) for x, y in pts}
        xs, ys = [p[0] for p in corners], [p[1] for p in corners]
        if frame is None and max(xs) - min(xs) > 200:
            frame = min(xs), min(ys)
        else:
            got.append((0.5*(min(xs)+max(xs)), sum(ys)/len(ys), len(corners)))
    if frame is None or len(got) != len(want):
        ctx.fail("plot-points", "%s of %s: %d points are drawn instead of %d" % (what, [o[2] for o in objs], len(got), len(want)))
        return False
    for (x, y, k), (wx, wy, wk) in zip(got, want):
        x, y = x-frame[0], y-frame[1]
        if k != wk or abs(x-wx) > 0.02 or abs(y-wy) > 0.02:
            ctx.fail("plot-place", "%s of %s: a point with %d corners at %r instead of %d at %r" % (what, [o[2] for o in objs], k, (x, y), wk, (wx, wy)))
            return False
    ctx.count("plotted", len(got))
    return True
