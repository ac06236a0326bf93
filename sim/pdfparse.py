"""Independent PDF reader: file structure (strict) and content streams."""

import re
import zlib


class PDFProblem(Exception):
    pass


WS = b" \t\r\n\f\0"
DELIM = b"()<>[]{}/%"


class Name(str):
    __slots__ = ()


class Ref(tuple):
    __slots__ = ()


class Op(str):
    __slots__ = ()


class Lexer:
    def __init__(self, data, pos=0):
        self.d = data
        self.p = pos

    def skip(self):
        d = self.d
        while self.p < len(d):
            c = d[self.p]
            if c in WS:
                self.p += 1
            elif c == 37:
                while self.p < len(d) and d[self.p] not in b"\r\n":
                    self.p += 1
            else:
                return True
        return False

    def token(self):
        """a number, Name, bytes (string), Op or one of [ ] << >>"""
        if not self.skip():
            return None
        d, p = self.d, self.p
        c = d[p:p+1]
        if c == b"/":
            j = p+1
            while j < len(d) and d[j] not in WS and d[j] not in DELIM:
                j += 1
            self.p = j
            raw = d[p+1:j]
            raw = re.sub(rb"#([0-9a-fA-F]{2})", lambda m: bytes([int(m.group(1), 16)]), raw)
            return Name(raw.decode("latin1"))
        if c == b"(":
            return self.string()
        if d[p:p+2] in (b"<<", b">>"):
            self.p += 2
            return Op(d[p:p+2].decode())
        if c == b"<":
            j = d.find(b">", p)
            if j < 0:
                raise PDFProblem("unterminated hex string")
            h = re.sub(rb"\s", b"", d[p+1:j])
            if re.search(rb"[^0-9a-fA-F]", h):
                raise PDFProblem("bad hex string at %d" % p)
            if len(h) % 2:
                h += b"0"
            self.p = j+1
            return bytes.fromhex(h.decode())
        if c in (b"[", b"]", b"{", b"}"):
            self.p += 1
            return Op(c.decode())
        if c in (b")", b">"):
            raise PDFProblem("unexpected %r at offset %d" % (c, p))
        j = p
        while j < len(d) and d[j] not in WS and d[j] not in DELIM:
            j += 1
        self.p = j
        w = d[p:j]
        if re.fullmatch(rb"[+-]?\d+", w):
            return int(w)
        if re.fullmatch(rb"[+-]?(\d+\.\d*|\.\d+)", w):
            return float(w)
        return Op(w.decode("latin1"))

    def string(self):
        d = self.d
        r = bytearray()
        self.p += 1
        depth = 1
        while True:
            if self.p >= len(d):
                raise PDFProblem("unterminated string")
            c = d[self.p]
            self.p += 1
            if c == 40:
                depth += 1
            elif c == 41:
                depth -= 1
                if not depth:
                    return bytes(r)
            elif c == 92:
                e = d[self.p:self.p+1]
                self.p += 1
                m = {b"n": 10, b"r": 13, b"t": 9, b"b": 8, b"f": 12}
                if e in m:
                    r.append(m[e])
                elif e and e in b"01234567":
                    k = 1
                    while k < 3 and d[self.p:self.p+1] and d[self.p:self.p+1] in b"01234567":
                        e += d[self.p:self.p+1]
                        self.p += 1
                        k += 1
                    r.append(int(e, 8) & 255)
                elif e == b"\r":
                    if d[self.p:self.p+1] == b"\n":
                        self.p += 1
                elif e == b"\n":
                    pass
                else:
                    r += e
                continue
            r.append(c)

    def value(self, tok=None):
        t = self.token() if tok is None else tok
        if t is None:
            raise PDFProblem("unexpected end")
        if t == "<<" and isinstance(t, Op):
            r = {}
            while True:
                k = self.token()
                if isinstance(k, Op) and k == ">>":
                    return r
                if not isinstance(k, Name):
                    raise PDFProblem("dictionary key expected, got %r at %d" % (k, self.p))
                if k in r:
                    raise PDFProblem("duplicate dictionary key /%s at %d" % (k, self.p))
                r[k] = self.value()
        if t == "[" and isinstance(t, Op):
            r = []
            while True:
                k = self.token()
                if k is None:
                    raise PDFProblem("unterminated array")
                if isinstance(k, Op) and k == "]":
                    return r
                r.append(self.value(k))
        if isinstance(t, int) and not isinstance(t, bool):
            m = re.compile(rb"\s+(\d+)\s+R(?![A-Za-z0-9])").match(self.d, self.p)
            if m:
                self.p = m.end()
                return Ref((t, int(m.group(1))))
            return t
        if isinstance(t, Op):
            if t in ("true", "false"):
                return t == "true"
            if t == "null":
                return None
            raise PDFProblem("value expected, got %r at %d" % (str(t), self.p))
        return t


class PDF:
    """strict structure check while reading; raises PDFProblem"""

    def __init__(self, data, base=0):
        self.data = data = data[base:]
        if not re.match(rb"%PDF-1\.\d[\r\n]", data):
            raise PDFProblem("no PDF header")
        m = re.search(rb"startxref\r?\n(\d+)\r?\n%%EOF\r?\n?$", data)
        if not m:
            raise PDFProblem("no startxref/%%EOF at the end")
        pos = int(m.group(1))
        if data[pos:pos+5] != b"xref\n":
            raise PDFProblem("startxref %d does not point to the xref table" % pos)
        m = re.compile(rb"xref\n0 (\d+)\n").match(data, pos)
        if not m:
            raise PDFProblem("xref subsection header")
        n = int(m.group(1))
        p = m.end()
        self.offsets = {}
        for i in range(n):
            e = data[p:p+20]
            mm = re.fullmatch(rb"(\d{10}) (\d{5}) ([nf])(\r\n| \n| \r)", e)
            if not mm:
                raise PDFProblem("xref entry %d malformed: %r" % (i, e))
            if mm.group(3) == b"n":
                self.offsets[i] = int(mm.group(1))
            elif i != 0:
                raise PDFProblem("free entry %d" % i)
            p += 20
        lx = Lexer(data, p)
        t = lx.token()
        if t != "trailer":
            raise PDFProblem("trailer expected")
        self.trailer = lx.value()
        if self.trailer.get("Size") != n:
            raise PDFProblem("trailer Size %r, xref has %d" % (self.trailer.get("Size"), n))
        self.objs = {}
        self.streams = {}
        ends = []
        for i, off in sorted(self.offsets.items()):
            m = re.compile(rb"(\d+) (\d+) obj[\r\n ]").match(data, off)
            if not m or int(m.group(1)) != i:
                raise PDFProblem("xref entry %d does not address its object (found %r)" % (i, data[off:off+12]))
            lx = Lexer(data, m.end())
            v = lx.value()
            lx.skip()
            if data[lx.p:lx.p+6] == b"stream":
                q = lx.p + 6
                if data[q:q+2] == b"\r\n":
                    q += 2
                elif data[q:q+1] == b"\n":
                    q += 1
                else:
                    raise PDFProblem("object %d: no EOL after stream" % i)
                self.streams[i] = (q, v)
            self.objs[i] = v
            ends.append((off, i, lx.p))
        # all objects of the file are in the table
        for i, (q, v) in list(self.streams.items()):
            n = self.get(v.get("Length"))
            if not isinstance(n, int):
                raise PDFProblem("object %d: no stream length" % i)
            raw = data[q:q+n]
            rest = data[q+n:q+n+20]
            if not re.match(rb"\r?\n?endstream\s", rest):
                raise PDFProblem("object %d: Length %d does not reach endstream (%r)" % (i, n, rest))
            f = v.get("Filter")
            if f == "FlateDecode":
                try:
                    z = zlib.decompressobj()
                    raw = z.decompress(raw) + z.flush()
                    if not z.eof:
                        raise PDFProblem("object %d: truncated deflate stream" % i)
                except zlib.error as e:
                    raise PDFProblem("object %d: %s" % (i, e))
            self.streams[i] = raw
        # non-overlapping: scan between streams for stray objects
        found = {}
        mask = bytearray(data)
        for i, v in self.objs.items():
            if i in self.streams:
                off = self.offsets[i]
                q = data.index(b"stream", off)
                n = self.get(v["Length"])
                a = q
                mask[a:a+n+6] = b" " * (n+6)
        for m in re.finditer(rb"(?:^|\n)(\d+) 0 obj[\r\n ]", bytes(mask)):
            i = int(m.group(1))
            if i in found:
                raise PDFProblem("object %d occurs twice" % i)
            found[i] = m.start(1)
        if set(found) != set(self.objs):
            raise PDFProblem("objects %s, xref lists %s" % (sorted(found), sorted(self.objs)))
        for i, v in self.objs.items():
            self.checkrefs(v, "object %d" % i)
        self.checkrefs(self.trailer, "trailer")
        root = self.get(self.trailer.get("Root"))
        if not isinstance(root, dict) or root.get("Type") != "Catalog":
            raise PDFProblem("no catalog")
        self.pages = []
        self.collect(root.get("Pages"), None, set())

    def get(self, v):
        n = 0
        while isinstance(v, Ref):
            v = self.objs.get(v[0])
            n += 1
            if n > 20:
                raise PDFProblem("reference loop")
        return v

    def checkrefs(self, v, where):
        if isinstance(v, Ref):
            if v[0] not in self.objs:
                raise PDFProblem("%s refers to missing object %d" % (where, v[0]))
        elif isinstance(v, dict):
            for k, x in v.items():
                self.checkrefs(x, where)
        elif isinstance(v, list):
            for x in v:
                self.checkrefs(x, where)

    def collect(self, ref, parent, seen):
        if not isinstance(ref, Ref) or ref in seen:
            raise PDFProblem("page tree")
        seen.add(ref)
        v = self.get(ref)
        if parent is not None and v.get("Parent") != parent:
            raise PDFProblem("object %d has a wrong Parent" % ref[0])
        if v.get("Type") == "Pages":
            kids = self.get(v.get("Kids"))
            n0 = len(self.pages)
            for k in kids:
                self.collect(k, ref, seen)
            if v.get("Count") != len(self.pages) - n0:
                raise PDFProblem("page Count %r, %d pages" % (v.get("Count"), len(self.pages) - n0))
        elif v.get("Type") == "Page":
            self.pages.append((ref[0], v))
        else:
            raise PDFProblem("page tree node type %r" % v.get("Type"))

    def content(self, page):
        c = page.get("Contents")
        r = c if isinstance(c, list) else [c]
        return b"\n".join(self.streams[x[0]] for x in r)


def mul(a, b):
    """a applied first, then b (PDF row vector convention)"""
    return (a[0]*b[0]+a[1]*b[2], a[0]*b[1]+a[1]*b[3],
            a[2]*b[0]+a[3]*b[2], a[2]*b[1]+a[3]*b[3],
            a[4]*b[0]+a[5]*b[2]+b[4], a[4]*b[1]+a[5]*b[3]+b[5])


IDENT = (1, 0, 0, 1, 0, 0)

ARGS = {"q": 0, "Q": 0, "cm": 6, "w": 1, "J": 1, "j": 1, "M": 1, "d": 2, "i": 1, "ri": 1, "gs": 1, "m": 2, "l": 2, "c": 6, "v": 4,
        "y": 4, "h": 0, "re": 4, "S": 0, "s": 0, "f": 0, "F": 0, "f*": 0, "B": 0, "B*": 0, "b": 0, "b*": 0, "n": 0, "W": 0, "W*": 0,
        "BT": 0, "ET": 0, "Tc": 1, "Tw": 1, "Tz": 1, "TL": 1, "Tf": 2, "Tr": 1, "Ts": 1, "Td": 2, "TD": 2, "Tm": 6, "T*": 0, "Tj": 1,
        "TJ": 1, "'": 1, '"': 3, "CS": 1, "cs": 1, "G": 1, "g": 1, "RG": 3, "rg": 3, "K": 4, "k": 4, "sh": 1, "Do": 1,
        "BMC": 1, "BDC": 2, "EMC": 0, "MP": 1, "DP": 2, "BX": 0, "EX": 0, "SC": None, "SCN": None, "sc": None, "scn": None}


def operators(data):
    """[(op, args, offset)] of a content stream; inline images are one op BI"""
    lx = Lexer(data)
    args = []
    while True:
        if not lx.skip():
            if args:
                raise PDFProblem("content stream ends with operands %r" % (args,))
            return
        at = lx.p
        t = lx.token()
        if isinstance(t, Op) and t not in ("[", "<<", "true", "false", "null"):
            if t == "BI":
                d = {}
                while True:
                    k = lx.token()
                    if k == "ID":
                        break
                    d[k] = lx.value()
                p = lx.p + 1
                j = data.find(b"EI", p)
                while j >= 0 and not (data[j-1:j] in (b"\n", b" ", b"\r") and data[j+2:j+3] in (b"\n", b" ", b"")):
                    j = data.find(b"EI", j+1)
                if j < 0:
                    raise PDFProblem("inline image without EI")
                lx.p = j+2
                yield "BI", [d, data[p:j]], at
                continue
            if t not in ARGS:
                raise PDFProblem("unknown operator %r at %d" % (str(t), at))
            n = ARGS[t]
            if n is not None and n != len(args):
                raise PDFProblem("operator %s with operands %r" % (t, args))
            yield str(t), args, at
            args = []
        else:
            args.append(lx.value(t))


def glyphs(pdf, page, widths, resources=None, data=None, ctm=IDENT, state=None):
    """[(fontname, size, code, x, y, matrix)], filled polygons, balanced q/Q checked"""
    res = resources if resources is not None else pdf.get(page.get("Resources", {}))
    out, rules = [], []
    stack = []
    font, size = None, 0
    tm = tlm = IDENT
    intext = False
    subs, cur = [], None
    for op, a, at in operators(pdf.content(page) if data is None else data):
        if op == "q":
            stack.append((ctm, font, size))
        elif op == "Q":
            if not stack:
                raise PDFProblem("Q without q")
            ctm, font, size = stack.pop()
        elif op == "cm":
            ctm = mul(tuple(a), ctm)
        elif op == "BT":
            if intext:
                raise PDFProblem("nested BT")
            intext = True
            tm = tlm = IDENT
        elif op == "ET":
            if not intext:
                raise PDFProblem("ET without BT")
            intext = False
        elif op == "Tf":
            fonts = pdf.get(res.get("Font", {}))
            if a[0] not in fonts:
                raise PDFProblem("font resource %s missing" % a[0])
            f = pdf.get(fonts[a[0]])
            font, size = f, a[1]
        elif op == "Tm":
            tm = tlm = tuple(a)
        elif op == "Td":
            tm = tlm = mul((1, 0, 0, 1, a[0], a[1]), tlm)
        elif op in ("Tj", "TJ"):
            if not intext:
                raise PDFProblem("%s outside of BT" % op)
            if font is None:
                raise PDFProblem("text without font")
            items = a if op == "Tj" else a[0]
            name = font.get("BaseFont")
            if "+" in name:
                name = name.split("+", 1)[1]
            for it in items:
                if isinstance(it, bytes):
                    for c in it:
                        m = mul(tm, ctm)
                        out.append((str(name), size, c, m[4], m[5], m))
                        w = widths(str(name), c, font)
                        tm = mul((1, 0, 0, 1, w*size, 0), tm)
                else:
                    tm = mul((1, 0, 0, 1, -it*size/1000, 0), tm)
        elif op == "re":
            x0, y0, w, h = a
            c = [(x0, y0), (x0+w, y0), (x0+w, y0+h), (x0, y0+h)]
            cur = [(ctm[0]*x+ctm[2]*y+ctm[4], ctm[1]*x+ctm[3]*y+ctm[5]) for x, y in c]
            subs.append(cur)
        elif op in ("m", "l"):
            x, y = a
            pt = (ctm[0]*x+ctm[2]*y+ctm[4], ctm[1]*x+ctm[3]*y+ctm[5])
            if op == "m":
                cur = []
                subs.append(cur)
            cur.append(pt)
        elif op in ("f", "F", "f*", "B", "b", "B*", "b*"):
            rules.extend(tuple(s) for s in subs)
            subs = []
        elif op in ("n", "S", "s"):
            subs = []
    if stack:
        raise PDFProblem("%d q without Q" % len(stack))
    if intext:
        raise PDFProblem("BT without ET")
    return out, rules
