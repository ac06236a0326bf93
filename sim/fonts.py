"""Fonts and DVI files made up by the checks: Type 1 programs, metrics, virtual
fonts, encodings, map files and the pages which use them, together with what the
pages show according to the specifications of those formats.

Every glyph consists of rectangles of different sizes, so that each one of them
can be recognised in the output."""

import math
import random
import struct

STD = {"A": 65, "E": 69, "o": 111, "e": 101, "acute": 194, "grave": 193, "dieresis": 200, "circumflex": 195}
NAMES = ["A", "E", "o", "e", "acute", "grave", "dieresis", "circumflex"]
EXTRA = ["space", "g1", "a.alt", "fi", "f_i", "Aacute", "Edieresis", "uni0041", "z", "hyphen", "one", "equal", "plus"]
# what can be written as a string
CHARS = {"A": "A", "E": "E", "o": "o", "e": "e", "acute": "\u00b4", "grave": "`", "dieresis": "\u00a8", "circumflex": "\u02c6", "space": " ",
         "fi": "\ufb01", "Aacute": "\u00c1", "Edieresis": "\u00cb", "z": "z", "hyphen": "-", "one": "1", "equal": "=", "plus": "+"}
WINANSI = {g: c.encode("cp1252")[0] for g, c in CHARS.items() if g != "fi"}
FIX = 1 << 20


# ---------------------------------------------------------------------------
# Type 1

def crypt(data, r, lead):
    out = bytearray()
    for c in lead + data:
        c ^= r >> 8
        out.append(c)
        r = ((c + r) * 52845 + 22719) & 65535
    return bytes(out)


def num(v):
    if -107 <= v <= 107:
        return bytes([v+139])
    if 108 <= v <= 1131:
        return bytes([(v-108)//256+247, (v-108) % 256])
    if -1131 <= v <= -108:
        return bytes([(-v-108)//256+251, (-v-108) % 256])
    return b"\xff" + struct.pack(">i", v)


def cs(*items):
    """a charstring"""
    ops = {"hsbw": b"\x0d", "sbw": b"\x0c\x07", "rlineto": b"\x05", "hlineto": b"\x06", "vlineto": b"\x07", "rrcurveto": b"\x08",
           "closepath": b"\x09", "callsubr": b"\x0a", "return": b"\x0b", "endchar": b"\x0e", "rmoveto": b"\x15", "hmoveto": b"\x16",
           "vmoveto": b"\x04", "hstem": b"\x01", "vstem": b"\x03", "hstem3": b"\x0c\x02", "vstem3": b"\x0c\x01", "dotsection": b"\x0c\x00",
           "seac": b"\x0c\x06", "div": b"\x0c\x0c", "callothersubr": b"\x0c\x10", "pop": b"\x0c\x11", "setcurrentpoint": b"\x0c\x21",
           "vhcurveto": b"\x1e", "hvcurveto": b"\x1f"}
    return b"".join(num(i) if isinstance(i, int) else ops[i] for i in items)


class T1:
    """a Type 1 font; d: seed, n, form, std, leniv, subrs, tokens, uid, matrix"""

    def __init__(self, name, d):
        self.name, self.d = name, d
        rng = random.Random(d["seed"])
        self.scale = d.get("unit", 1000)
        names = NAMES[:4+rng.randint(0, 4)] + rng.sample(EXTRA, d["n"])
        self.glyphs = {}            # name -> width, [rectangles], program
        self.subrs = []
        # rectangle sizes are unique
        sizes = [(10 + 7*i, 12 + 11*((i*5) % 31)) for i in range(150)]
        rng.shuffle(sizes)
        if d["subrs"] != "none":
            self.subrs = [cs(3, 0, "callothersubr", "pop", "pop", "setcurrentpoint", "return"), cs(0, 1, "callothersubr", "return"),
                          cs(0, 2, "callothersubr", "return"), cs("return")]
            if d["subrs"] == "plain":
                self.subrs = []
        self.used = 0
        for g in [".notdef"] + names:
            self.glyphs[g] = self.draw(rng, sizes, g == ".notdef")
        for g in names[4:]:
            if g not in NAMES and rng.random() < 0.35:
                self.accent(g, rng, [n for n in names if n in NAMES[:4]], [n for n in names if n in NAMES[4:]])
        if d["std"]:
            self.encoding = [".notdef"]*256
            for g, c in STD.items():
                if g in self.glyphs:
                    self.encoding[c] = g
            for g, c in (("space", 32), ("fi", 174), ("z", 122), ("hyphen", 45), ("one", 49)):
                if g in self.glyphs:
                    self.encoding[c] = g
        else:
            self.encoding = [".notdef"]*256
            codes = rng.sample(range(256), len(names)*2)
            for i, c in enumerate(codes):
                g = names[i % len(names)]
                if i < len(names) or rng.random() < 0.3:
                    self.encoding[c] = g

    def draw(self, rng, sizes, empty):
        w = rng.choice([0, 250, 333, 500, 512, 777, 1000, rng.randint(1, 1200)])
        sb = rng.choice([0, 0, 30, -20, rng.randint(-90, 90)])
        sby = 0
        prog = []
        if rng.random() < 0.15:
            sby = rng.randint(-40, 40)
            prog += [sb, sby, w, 0, "sbw"]
        elif rng.random() < 0.15 and w:
            prog += [sb*2, 2, "div", w*3, 3, "div", "hsbw"]
        else:
            prog += [sb, w, "hsbw"]
        x, y = sb, sby
        rects = []
        if rng.random() < 0.3:
            prog += [0, 30, "hstem"] + ([5, 20, "vstem"] if rng.random() < 0.5 else [0, 5, 10, 5, 30, 5, "vstem3"])
        for i in range(0 if empty else rng.choice([1, 1, 2, 3])):
            dx, dy = rng.randint(-60, 160), rng.randint(-120, 200)
            k = rng.random()
            if k < 0.2:
                prog += [dx, "hmoveto"]
                dy = 0
            elif k < 0.4:
                prog += [dy, "vmoveto"]
                dx = 0
            elif k < 0.5 and not dx % 2:
                prog += [dx*5, 5, "div", dy, "rmoveto"]
            elif k < 0.65:
                # halves
                prog += [2*dx+1, 2, "div", dy, "rmoveto"]
                dx += 0.5
            elif k < 0.8 and len(self.subrs) < 30 and self.d["subrs"] != "none":
                prog += [dx, dy, self.sub(cs("rmoveto", "return")), "callsubr"]
            else:
                prog += [dx, dy, "rmoveto"]
            x += dx
            y += dy
            w0, h0 = sizes.pop()
            body, kind = [], rng.random()
            if kind < 0.4:
                body = [w0, "hlineto", h0, "vlineto", -w0, "hlineto", "closepath"]
                end = (0, h0)
            elif kind < 0.6:
                body = [w0, 0, "rlineto", 0, h0, "rlineto", -w0, 0, "rlineto", 0, -h0, "rlineto", "closepath"]
                end = (0, 0)
            elif kind < 0.75:
                a = w0//3
                body = [a, 0, a, 0, w0-2*a, 0, "rrcurveto", h0, "vlineto", -w0, 0, "rlineto", "closepath"]
                end = (0, h0)
            elif kind < 0.9 and self.d["subrs"] == "flex":
                # a flat flex along the lower side
                a = w0//6 or 1
                body = [1, "callsubr", 3*a, 0, "rmoveto", 2, "callsubr"]
                for m in (-2*a, a, a, a, a, w0-5*a):
                    body += [m, 0, "rmoveto", 2, "callsubr"]
                body += [50, int(x)+w0, y, 0, "callsubr", h0, "vlineto", -w0, "hlineto", "closepath"]
                if x != int(x):
                    body = [w0, "hlineto", h0, "vlineto", -w0, "hlineto", "closepath"]
                end = (0, h0)
            else:
                body = [h0, "vlineto", w0, "hlineto", -h0, "vlineto", "closepath"]
                end = (w0, 0)
            if rng.random() < 0.25 and self.d["subrs"] != "none" and len(self.subrs) < 30 and not any(b == "callsubr" for b in body):
                s = self.sub(cs(*body, "return"))
                if rng.random() < 0.3:
                    s = self.sub(cs(s, "callsubr", "return"))
                prog += [s, "callsubr"]
            else:
                prog += body
            rects.append((x, y, x+w0, y+h0))
            # closepath leaves the current point alone
            x += end[0]
            y += end[1]
            if rng.random() < 0.2 and self.d["subrs"] == "flex":
                # hint replacement
                prog += [self.sub(cs(0, 20, "hstem", "return")), 1, 3, "callothersubr", "pop", "callsubr"]
            if rng.random() < 0.1:
                prog += ["dotsection"]
        prog += ["endchar"]
        return {"w": w, "rects": rects, "prog": prog, "sb": (sb, sby)}

    def sub(self, code):
        if self.d["subrs"] == "flex" and len(self.subrs) < 4:
            raise AssertionError
        self.subrs.append(code)
        return len(self.subrs)-1

    def accent(self, g, rng, bases, accents):
        if not bases or not accents:
            return
        b, a = rng.choice(bases), rng.choice(accents)
        w, sb = rng.choice([400, 600, 901]), rng.choice([0, 17, -25])
        asb = self.glyphs[a]["sb"][0]
        adx, ady = rng.randint(0, 200), rng.randint(0, 250)
        # the origin of the accent is at (adx, ady) when the left side bearing
        # points of the accented character and the base agree
        dx, dy = sb + adx - asb, ady
        self.glyphs[g] = {"w": w, "sb": (sb, 0), "parts": (b, a),
                          "rects": self.glyphs[b]["rects"] + [(x0+dx, y0+dy, x1+dx, y1+dy) for x0, y0, x1, y1 in self.glyphs[a]["rects"]],
                          "prog": [sb, w, "hsbw", asb, adx, ady, STD[b], STD[a], "seac"]}

    def code(self, prog):
        return cs(*prog)

    def bytes(self):
        d = self.d
        rng = random.Random(d["seed"]+1)
        nl = d.get("nl", "\n")
        k = 1/self.scale
        clear = ["%!PS-AdobeFont-1.0: " + self.name + " 001.001"]
        clear += ["% line " + "%d of a long license" % i for i in range(d.get("pad", 0))]
        if d.get("uid"):
            clear += ["%%CreationDate: today"]
        clear += ["11 dict begin", "/FontInfo 3 dict dup begin", "/version (1) readonly def", "/isFixedPitch false def", "end readonly def",
                  "/FontName /%s def" % self.name, "/PaintType 0 def", "/FontType 1 def",
                  "/FontMatrix [%s] readonly def" % " ".join("%g" % x for x in (k, 0, 0, k, 0, 0))]
        if d["std"]:
            clear += ["/Encoding StandardEncoding def"]
        else:
            clear += ["/Encoding 256 array", "0 1 255 {1 index exch /.notdef put} for"]
            line = ""
            for c, g in enumerate(self.encoding):
                if g != ".notdef":
                    line += "dup %d /%s put" % (c, g)
                    if d["seed"] % 3:
                        clear.append(line)
                        line = ""
                    else:
                        line += " "
            clear += [line.rstrip(), "readonly def"] if line else ["readonly def"]
        if d.get("uid"):
            clear += ["/UniqueID %d def" % (5000000 + d["seed"] % 1000)]
        clear += [self.d.get("bb", "/FontBBox{-100 -100 1000 1000}readonly def"), "currentdict end", "currentfile eexec", ""]
        clear = nl.join(clear).encode("latin-1")
        leniv = d["leniv"]
        lead = {None: b"abcd", 4: b"PyX!", 0: b"", 1: b"q"}[leniv]

        def rd(code):
            c = crypt(code, 4330, lead)
            return b"%d %s %s " % (len(c), tok[0], c)
        tok = {"RD": (b"RD", b"ND", b"NP"), "-|": (b"-|", b"|-", b"|"), "na": (b"RD", b"ND", b"noaccess put")}[d["tokens"]]
        priv = [b"dup /Private 8 dict dup begin", b"/" + tok[0] + b" {string currentfile exch readstring pop} executeonly def",
                b"/" + tok[1] + b" {noaccess def} executeonly def", b"/BlueValues [] def", b"/MinFeature {16 16} def", b"/password 5839 def"]
        if d.get("uid"):
            priv += [b"/UniqueID %d def" % (5000000 + d["seed"] % 1000)]
        if leniv is not None:
            priv += [b"/lenIV %d def" % leniv]
        subrs = b"/Subrs %d array\n" % len(self.subrs) + b"".join(b"dup %d %s%s\n" % (i, rd(s), tok[2]) for i, s in enumerate(self.subrs)) + (tok[1] if d["subrs"] != "none" else b"def")
        order = [g for g in self.glyphs]
        rng.shuffle(order)
        chars = b"2 index /CharStrings %d dict dup begin\n" % len(order)
        chars += b"".join(b"/%s %s%s\n" % (g.encode(), rd(self.code(self.glyphs[g]["prog"])), tok[1]) for g in order)
        chars += b"end"
        priv += [subrs, chars, b"end", b"readonly put", b"noaccess put", b"dup/FontName get exch definefont pop", b"mark currentfile closefile", b""]
        cipher = crypt(b"\n".join(priv), 55665, b"\xd9\xd6\x6f\x63")
        tail = (nl.join(["0"*64]*8 + ["cleartomark"]) + (nl if rng.random() < 0.7 else "")).encode()
        if d["form"] == "pfb":
            out = b"\x80\x01" + struct.pack("<I", len(clear)) + clear
            n = d.get("segments", 1)
            at = [len(cipher)*i//n for i in range(n+1)]
            for a, b in zip(at, at[1:]):
                out += b"\x80\x02" + struct.pack("<I", b-a) + cipher[a:b]
            return out + b"\x80\x01" + struct.pack("<I", len(tail)) + tail + b"\x80\x03"
        h = cipher.hex()
        if d["seed"] % 2:
            h = h.upper()
        out, p = clear, 0
        while p < len(h):
            n = rng.choice([64, 64, 64, 78, 2, 30])
            out += h[p:p+n].encode() + nl.encode()
            p += n
        return out + tail


def afm(t1, d):
    """d: version, header, kern {pairs}, lig, seed"""
    rng = random.Random(d["seed"])
    nl = d.get("nl", "\n")
    out = ["StartFontMetrics %s" % d.get("version", "2.0")]
    head = ["Comment Copyright", "FontName %s" % t1.name, "FullName %s" % t1.name, "FamilyName Sim", "Weight Medium", "FontBBox -100 -100 1000 1000",
            "Version 001.001", "Notice some notice; with a semicolon", "EncodingScheme FontSpecific", "CapHeight 683.3", "XHeight 430", "Ascender 694.5",
            "Descender -194.4", "UnderlinePosition -133", "UnderlineThickness 20", "ItalicAngle 0", "IsFixedPitch false", "privateKey 12 34", "StdHW 30", "StdVW 40"]
    head = [h for h in head if h.startswith("FontName") or rng.random() < 0.7]
    if d.get("direction"):
        head = [h for h in head if not h.startswith(("Under", "Ital", "IsFix"))]
        head += ["StartDirection 0", "UnderlinePosition -100", "ItalicAngle -3.5", "EndDirection"]
    out += head + ["StartCharMetrics %d" % len(t1.glyphs)]
    for g in t1.glyphs:
        if g == ".notdef" and rng.random() < 0.5:
            continue
        c = t1.encoding.index(g) if g in t1.encoding and g != ".notdef" else -1
        b = box(t1.glyphs[g]["rects"])
        l = ["C %d" % c if rng.random() < 0.8 or c < 0 else "CH <%02X>" % c, "%s %d" % (rng.choice(["WX", "W0X"]), t1.glyphs[g]["w"]), "N %s" % g, "B %d %d %d %d" % tuple(math.floor(x) for x in b)]
        l += ["L %s %s" % (s, r) for p, s, r in d["lig"] if p == g]
        out.append(" ; ".join(l) + (" ;" if rng.random() < 0.8 else ""))
        if rng.random() < 0.1:
            out.append("")
    out += ["EndCharMetrics"]
    if d["kern"] or rng.random() < 0.3:
        out += ["StartKernData", "StartKernPairs %d" % len(d["kern"])]
        for a, b, v in d["kern"]:
            out.append(rng.choice(["KPX %s %s %s", "KPX %s %s %s", "KP %s %s %s 0"]) % (a, b, v))
        out += ["EndKernPairs", "EndKernData"]
    if rng.random() < 0.2:
        out += ["StartComposites 1", "CC Aacute 2 ; PCC A 0 0 ; PCC acute 100 200 ;", "EndComposites"]
    out += ["EndFontMetrics"]
    return (nl.join(out) + nl).encode("latin-1")


def pfm(t1, d):
    """Windows metrics; d: symbol, first, kern (pairs of codes), ascent, descent, seed"""
    rng = random.Random(d["seed"])
    codes = d["codes"]        # code -> glyph
    first, last = d["first"], d["last"]
    strings = [b"PostScript\0", t1.name.encode() + b"\0", t1.name.encode() + b"\0"]
    parts, pos = {}, 117 + 30
    body = b""

    def put(name, data):
        nonlocal body
        junk = bytes(rng.randrange(256) for _ in range(rng.choice([0, 0, 1, 5])))
        body += junk
        parts[name] = pos + len(body)
        body += data
    kern = sorted(d["kern"].items())
    etm = struct.pack("<24h2H", 52, 240, 0, 1000, 3, 1000, 1000, 683, 430, 694, d["descent"], rng.choice([0, -140]), 500, 500, 583, 583, 133, 20, 200, 300, 20, 20, 250, 20, len(kern), 0)
    items = [("etm", etm), ("device", strings[0]), ("face", strings[1]), ("driver", strings[2]),
             ("extent", struct.pack("<%dH" % (last-first+1), *[max(0, t1.glyphs[codes[c]]["w"]) if c in codes else rng.choice([0, 250]) for c in range(first, last+1)])),
             ("kern", struct.pack("<H", len(kern)) + b"".join(struct.pack("<BBh", a, b, v) for (a, b), v in kern))]
    rng.shuffle(items)
    for name, data in items:
        if name != "kern" or kern:
            put(name, data)
    head = struct.pack("<HL60s7H3BHB2HB2H4BH4L", 0x100, pos+len(body), b"Copyright (c)", 0x81, 10, 300, 300, d["ascent"], 0, 200, rng.choice([0, 1]), 0, 0, rng.choice([400, 700]),
                       2 if d["symbol"] else 0, 0, 900, 0x11, 500, rng.choice([500, 1000]), first, last, 0, 0, 0, parts["device"], parts["face"], 0, 0)
    head += struct.pack("<H7L", 30, parts["etm"], parts["extent"], 0, parts.get("kern", 0), 0, parts["driver"], 0)
    return head + body


def box(rects):
    if not rects:
        return (0, 0, 0, 0)
    return (min(r[0] for r in rects), min(r[1] for r in rects), max(r[2] for r in rects), max(r[3] for r in rects))


def enc(name, vector, seed):
    rng = random.Random(seed)
    out = "% an encoding\n/" + name + rng.choice([" [", "["]) + "\n"
    n = rng.choice([1, 8, 16])
    for i in range(0, 256, n):
        if rng.random() < 0.2:
            out += "%% 0x%02x\n" % i
        out += " ".join("/" + g for g in vector[i:i+n]) + rng.choice(["\n", " \n", "  % comment ] def\n"])
    return (out + rng.choice(["] def\n", "]def\n", "]\n def % end\n"])).encode("latin-1")


# ---------------------------------------------------------------------------
# TFM, VF

def fix(x):
    return round(x * FIX)


def tfm(chars, ds, cs, lh, seed):
    """chars: code -> (width, height, depth, italic) relative to the size"""
    rng = random.Random(seed)
    ws = [0] + sorted({fix(c[0]) for c in chars.values()})
    tables = [ws]
    for k in 1, 2, 3:
        tables.append([0] + sorted({fix(c[k]) for c in chars.values()} - {0}))
    assert len(tables[0]) < 256 and len(tables[1]) <= 16 and len(tables[2]) <= 16 and len(tables[3]) <= 64
    bc, ec = min(chars), max(chars)
    header = struct.pack(">Ii", cs, fix(ds))
    if lh >= 12:
        header += bytes([4]) + b"TEST".ljust(39, b"\0")
    if lh >= 17:
        header += bytes([3]) + b"SIM".ljust(19, b"\0")
    if lh >= 18:
        header += b"\0\0\0\xea"
    header += b"\0"*(4*lh-len(header))
    info = b""
    for c in range(bc, ec+1):
        if c in chars:
            # the first entry of the widths is for missing characters
            w, h, d, i = [t.index(fix(v), 1 if n == 0 else 0) for n, (t, v) in enumerate(zip(tables, chars[c]))]
            info += struct.pack(">BBBB", w, h << 4 | d, i << 2, 0)
        else:
            info += b"\0\0\0\0"
    lk = b"".join(struct.pack(">I", rng.getrandbits(32)) for _ in range(rng.choice([0, 0, 3])))
    kern = b"".join(struct.pack(">i", rng.randint(-FIX, FIX)) for _ in range(rng.choice([0, 2])))
    np = rng.choice([0, 7])
    counts = [lh, bc, ec] + [len(t) for t in tables] + [len(lk)//4, len(kern)//4, 0, np]
    lf = 6 + lh + (ec-bc+1) + sum(counts[3:])
    out = struct.pack(">12h", lf, *counts) + header + info
    for t in tables:
        out += b"".join(struct.pack(">i", v) for v in t)
    out += lk + kern + b"\0\0\0\1"*np
    assert len(out) == 4*lf
    return out


def sint(v, n):
    """signed number in at least n bytes"""
    while not -(1 << (8*n-1)) <= v < 1 << (8*n-1):
        n += 1
    return n, (v & ((1 << 8*n)-1)).to_bytes(n, "big")


def uint(v, n):
    while v >= 1 << 8*n:
        n += 1
    return n, v.to_bytes(n, "big")


def fntnum(v, n):
    """command and bytes to define or select a font; n = 0: the short form"""
    if n < 4 and v >= 0:
        n, b = uint(v, n or 1)
        if n < 4:
            return n, b
    return 4, (v & 0xffffffff).to_bytes(4, "big")


class World:
    """everything a plan describes: the files and what they mean"""

    def __init__(self, plan):
        self.files = {}
        self.t1 = []
        self.tex = {}          # TeX fonts by name
        self.names = [t["name"] for t in plan["tex"]]
        for i, d in enumerate(plan["t1"]):
            t = T1(d["name"], d)
            t.file = d["file"]
            t.metric = d.get("afm")
            t.pfm = None
            self.t1.append(t)
            self.files[t.file] = t.bytes()
            if t.metric:
                m = dict(t.metric)
                m["kern"] = [(self.pick(t, a), self.pick(t, b), v) for a, b, v in m["kern"]]
                m["lig"] = [(self.pick(t, a), self.pick(t, b), self.pick(t, c)) for a, b, c in m["lig"]]
                # the last pair of the same kind counts, the first ligature
                t.kern = {(a, b): v for a, b, v in m["kern"]}
                t.lig = m["lig"]
                self.files[t.file.rsplit(".", 1)[0] + ".afm"] = afm(t, m)
            if d.get("pfm"):
                m = dict(d["pfm"])
                if m["symbol"]:
                    m["codes"] = {c: g for c, g in enumerate(t.encoding) if g != ".notdef"}
                else:
                    m["codes"] = {c: g for g, c in WINANSI.items() if g in t.glyphs}
                m["first"] = min(list(m["codes"]) + [m["first"]])
                m["last"] = max(list(m["codes"]) + [m["last"]])
                pairs = {(self.pick(t, a), self.pick(t, b)): v for a, b, v in m["kern"]}
                # a glyph might have several codes
                m["kern"] = {(a, b): v for (g, h), v in pairs.items() for a in m["codes"] for b in m["codes"] if m["codes"][a] == g and m["codes"][b] == h}
                t.pfmglyphs = set(m["codes"].values())
                t.pfmkern = {(m["codes"][a], m["codes"][b]): v for (a, b), v in m["kern"].items()}
                t.pfm = m
                self.files[t.file.rsplit(".", 1)[0] + ".pfm"] = pfm(t, m)
        maplines = []
        for d in plan["tex"]:
            (self.texfont if "t1" in d else self.virtual)(d, maplines)
        self.files["my.map"] = self.map(plan, maplines)
        self.dvi = [Dvi(self, d) for d in plan["dvi"]]
        for i, d in enumerate(self.dvi):
            self.files["f%d.dvi" % i] = d.bytes

    def pick(self, t, n):
        g = [x for x in t.glyphs if x != ".notdef"]
        return g[n % len(g)]

    def texfont(self, d, maplines):
        t = self.t1[d["t1"] % len(self.t1)]
        vector = t.encoding
        if d.get("enc"):
            e = d["enc"]
            rng = random.Random(e["seed"])
            glyphs = [g for g in t.glyphs if g != ".notdef"]
            vector = [".notdef"]*256
            for c in rng.sample(range(256), 40):
                vector[c] = rng.choice(glyphs)
            full = list(vector)
            for c in range(256):
                if full[c] == ".notdef" and rng.random() < 0.3:
                    full[c] = rng.choice(["unknown", "foo.bar", "germandbls"])
            self.files[e["file"]] = enc(e["name"], full, e["seed"])
        rng = random.Random(d["seed"])
        heights = [0] + [rng.randint(1, 900)/1000 for _ in range(8)]
        depths = [0] + [rng.randint(-100, 300)/1000 for _ in range(6)]
        chars = {}
        for c in range(256):
            if vector[c] != ".notdef":
                g = t.glyphs[vector[c]]
                height, depth = rng.choice(heights), rng.choice(depths)
                chars[c] = (g["w"]/t.scale, 0.1 if height < -depth else height, depth, rng.choice([0, 0.1, 0.05]))
        self.tex[d["name"]] = {"kind": "t1", "t1": t, "codes": sorted(chars), "vector": vector, "chars": chars, "ds": d["ds"], "cs": d["cs"], "slant": d.get("slant", 0)}
        self.files[d["name"] + ".tfm"] = tfm(chars, d["ds"], d["cs"], d["lh"], d["seed"])
        line = d["name"]
        if d["name"] != t.name or rng.random() < 0.5:
            line += " " * rng.choice([1, 1, 3]) + t.name
        rest = []
        ps = []
        if d.get("slant"):
            ps.append("%s SlantFont" % d["slant"])
        if d.get("enc"):
            ps.append("%s ReEncodeFont" % d["enc"]["name"])
        rng.shuffle(ps)
        if ps and (len(ps) == 1 or rng.random() < 0.5):
            rest.append('" %s "' % " ".join(ps) if rng.random() < 0.5 else '"%s"' % " ".join(ps))
        else:
            rest += ['"%s"' % p for p in ps]
        if d.get("enc"):
            e = d["enc"]["file"]
            rest.append(rng.choice(["<[%s", "<%s"] if e.endswith(".enc") else ["<[%s"]) % e)
        rest.append(rng.choice(["<%s", "<%s", "<<%s"]) % t.file)
        rng.shuffle(rest)
        maplines.append(line + " " + rng.choice([" ", "  "]).join(rest))

    def virtual(self, d, maplines):
        before = self.names[:self.names.index(d["name"])]
        before = [n for n in before if n in self.tex]
        local = []          # (number, name, relative size)
        for n, i, s in d["fonts"]:
            if n not in [x[0] for x in local]:
                # the same font may be there in several sizes
                local.append((n, "%s#%d" % (before[i % len(before)], n), s))
        chars, packets = {}, {}
        rng = random.Random(d["seed"])
        heights = [0] + [rng.randint(1, 900)/1000 for _ in range(5)]
        body = b""
        for n, name, s in local:
            f = self.font(name)
            k, b = fntnum(n, rng.choice([1, 1, 2, 3, 4]))
            body += bytes([242+k]) + b + struct.pack(">Iii", f["cs"] if rng.random() < 0.7 else 0, fix(s), fix(f["ds"])) + self.fontname(name, rng)
        for c in d["chars"]:
            code = c["code"]
            if code in chars:
                continue
            chars[code] = (c["w"], rng.choice(heights), rng.choice(heights), 0)
            ops = Ops(c["ops"], [x[1] for x in local], self, nested=True).out
            packets[code] = ops
            e = Encoder(self, {x[1]: x[0] for x in local}, FIX, {x[1]: x[2] for x in local}, None)
            data = e.encode(ops)
            w = fix(c["w"])
            if c.get("long") or len(data) > 241:
                body += bytes([242]) + struct.pack(">II", len(data), code) + struct.pack(">I", w)[1:] + data
            else:
                body += bytes([len(data), code]) + struct.pack(">I", w)[1:] + data
        self.tex[d["name"]] = {"kind": "vf", "codes": sorted(chars), "chars": chars, "ds": d["ds"], "cs": d["cs"], "local": local, "packets": packets}
        comment = b"made up"[:rng.randint(0, 7)]
        out = bytes([247, 202, len(comment)]) + comment + struct.pack(">Ii", d["cs"], fix(d["ds"])) + body
        self.files[d["name"] + ".vf"] = out + b"\xf8"*(1 + rng.randint(0, 5))
        self.files[d["name"] + ".tfm"] = tfm(chars, d["ds"], d["cs"], d["lh"], d["seed"])

    def fontname(self, name, rng):
        name = name.split("#")[0]
        return bytes([0, len(name)]) + name.encode()

    def font(self, key):
        return self.tex[key.split("#")[0]]

    def map(self, plan, lines):
        out = []
        rng = random.Random(plan["mapseed"])
        self.ignored = 0
        for l in lines:
            k = rng.random()
            if k < 0.1:
                out.append("% a comment")
            elif k < 0.15:
                out.append(" indented")
            elif k < 0.2:
                out.append("")
            elif k < 0.3:
                out.append(l.split()[0] + " " + "Other <missing.pfb")
            elif k < 0.35:
                out.append("truetype TrueType <font.ttf")
            elif k < 0.4:
                out.append('strange Strange "1.2 BogusFont" <font.pfb')
                self.ignored += 1
            out.append(l)
        nl = plan.get("mapnl", "\n")
        return (nl.join(out) + (nl if rng.random() < 0.8 else "")).encode()


class Ops:
    """the operations of a plan, made balanced, with fonts and codes resolved"""

    def __init__(self, ops, fonts, world, nested=False):
        self.out = out = []
        font = fonts[0] if nested and fonts else None
        stack, ends = [], []
        markers = set()
        end = {"color": "color_end", "rotate": "rotate_end", "scale": "scale_end"}
        for op in ops:
            k = op[0]
            if k in ("fnt", "set", "put") and not fonts:
                continue
            if k == "fnt":
                font = fonts[op[1] % len(fonts)]
                out.append(("fnt", font, op[2]))
            elif k in ("set", "put"):
                if font is None:
                    font = fonts[op[1] % len(fonts)]
                    out.append(("fnt", font, 0))
                codes = world.font(font)["codes"]
                if codes:
                    out.append((k, font, codes[op[1] % len(codes)], op[2]))
            elif k == "pop":
                if stack:
                    stack.pop()
                    out.append(("pop",))
            elif k == "push":
                stack.append(1)
                out.append(("push",))
            elif k in ("color", "rotate", "scale"):
                out.append((k, op[1]))
                ends.append(end[k])
            elif k == "end":
                if ends:
                    out.append(("end", ends.pop()))
            elif k == "marker":
                if op[1] not in markers and not nested:
                    markers.add(op[1])
                    out.append(("marker", op[1]))
            else:
                out.append(tuple(op))
        while ends:
            out.append(("end", ends.pop()))
        while stack:
            stack.pop()
            out.append(("pop",))


MOVES = {"right": 143, "down": 157, "w": 147, "x": 152, "y": 161, "z": 166}


class Encoder:
    """operations as DVI commands; lengths are in units of 1/unit"""

    def __init__(self, world, numbers, unit, sizes, defs):
        self.world, self.numbers, self.unit, self.sizes, self.defs = world, numbers, unit, sizes, defs

    def encode(self, ops):
        return b"".join(self.one(op) for op in ops)

    def length(self, v):
        return round(v * self.unit)

    def one(self, op):
        k = op[0]
        if k == "fnt":
            n = self.numbers[op[1]]
            b = self.defs(op[1]) if self.defs else b""
            if 0 <= n < 64 and not op[2]:
                return b + bytes([171+n])
            i, v = fntnum(n, op[2])
            return b + bytes([234+i]) + v
        if k == "set" and not op[3] and op[2] < 128:
            return bytes([op[2]])
        if k in ("set", "put"):
            n, b = uint(op[2], op[3] or 1)
            return bytes([(127 if k == "set" else 132) + n]) + b
        if k in ("rule", "prule"):
            return bytes([132 if k == "rule" else 137]) + struct.pack(">ii", self.length(op[1]), self.length(op[2]))
        if k in MOVES:
            if op[1] is None:
                return bytes([MOVES[k]])
            n, b = sint(self.length(op[1]), op[2])
            return bytes([MOVES[k]-(1 if k in ("right", "down") else 0)+n]) + b
        if k == "push":
            return b"\x8d"
        if k == "pop":
            return b"\x8e"
        if k == "nop":
            return b"\x8a"
        s = {"color": lambda: "color_begin " + op[1], "rotate": lambda: "rotate_begin %s" % op[1], "scale": lambda: "scale_begin %s %s" % tuple(op[1]),
             "end": lambda: op[1], "marker": lambda: "marker " + op[1], "special": lambda: op[1]}[k]()
        s = (s if k == "special" else "PyX:" + s).encode()
        n, b = uint(len(s), 1 + len(s) % 4)
        return bytes([238+n]) + b + s


def mul(a, b):
    """first b, then a"""
    return (a[0]*b[0]+a[2]*b[1], a[1]*b[0]+a[3]*b[1], a[0]*b[2]+a[2]*b[3], a[1]*b[2]+a[3]*b[3], a[0]*b[4]+a[2]*b[5]+a[4], a[1]*b[4]+a[3]*b[5]+a[5])


def point(m, x, y):
    return m[0]*x+m[2]*y+m[4], m[1]*x+m[3]*y+m[5]


COLORS = {"gray 0": (0, 0, 0), "gray 0.5": (.5, .5, .5), "rgb 1 0 0": (1, 0, 0), "rgb 0 0.25 0.75": (0, .25, .75), "RGB 0 255 51": (0, 1, .2), "gray 0.125": (.125, .125, .125)}


class Dvi:
    """a DVI file; d: k, mag, seed, size (of the fonts), pages"""

    def __init__(self, world, d):
        self.world = world
        rng = random.Random(d["seed"])
        self.mag = d["mag"]/1000
        names = list(world.tex)
        # and here, too
        names += [n + "#b" for n in names[:2]]
        numbers = d["numbers"]
        self.numbers = {n: numbers[i] if i < len(numbers) else 100+i for i, n in enumerate(names)}
        self.sizes = {n: world.font(n)["ds"]*d["sizes"][i % len(d["sizes"])] for i, n in enumerate(names)}
        unit = 65536*d["k"]          # DVI units per TeX point
        out = b"\x8a"*rng.choice([0, 0, 2]) + bytes([247, 2]) + struct.pack(">III", 25400000, 473628672*d["k"], d["mag"])
        out += bytes([5]) + b"hello"
        self.pages = []
        last = -1
        defined = set()
        used = {}

        def definition(n):
            if n in defined and rng.random() < 0.9:
                return b""
            defined.add(n)
            i, b = fntnum(self.numbers[n], rng.choice([1, 1, 2, 3, 4]))
            f = world.font(n)
            used[n] = bytes([242+i]) + b + struct.pack(">Iii", f["cs"] if rng.random() < 0.7 else 0, round(self.sizes[n]*unit), round(f["ds"]*unit)) + world.fontname(n, rng)
            return used[n]
        for i, p in enumerate(d["pages"]):
            ops = Ops(p["ops"], names, world).out
            e = Encoder(world, self.numbers, unit, self.sizes, definition)
            at = len(out)
            out += b"\x8b" + struct.pack(">10i", *([i+1] + [0]*9)) + struct.pack(">i", last)
            out += e.encode(ops) + b"\x8c" + b"\x8a"*rng.choice([0, 0, 1])
            last = at
            self.pages.append(ops)
        post = len(out)
        out += b"\xf8" + struct.pack(">IIII", max(last, 0), 25400000, 473628672*d["k"], d["mag"]) + struct.pack(">IIHH", 1, 1, 9, len(self.pages))
        out += b"".join(used.values()) + b"\xf9" + struct.pack(">I", post) + b"\x02" + b"\xdf"*(4 + -len(out) % 4)
        self.bytes = out

    def show(self, page):
        """what the page shows"""
        return Shown(self, page)


class Shown:
    """rectangles (four corners, color), markers, boxes of the characters and
    rules (None when there are transformations)"""

    def __init__(self, dvi, page):
        self.world = dvi.world
        self.rects, self.markers, self.boxes = [], {}, []
        self.turned = False
        self.pt = dvi.mag * 72/72.27
        self.dvi = dvi
        self.m, self.color = (1, 0, 0, 1, 0, 0), (0, 0, 0)
        self.saved = []
        self.open = []          # markers of the enclosing groups are transformed later
        self.chars = 0
        self.warnings = 0
        self.interpret(dvi.pages[page], [0.0]*6, 1.0, dvi.sizes)

    def interpret(self, ops, pos, scale, sizes):
        """scale: TeX points per unit of the operations"""
        stack = []
        for op in ops:
            k = op[0]
            if k in ("set", "put"):
                size = sizes[op[1]]
                w = self.char(op[1], op[2], pos, size)
                if k == "set":
                    pos[0] += w*size
            elif k in ("rule", "prule"):
                h, w = op[1]*scale, op[2]*scale
                if h > 0 and w > 0:
                    self.rect(pos[0], pos[1], ((0, 0), (w, 0), (w, h), (0, h)))
                    self.box(pos, 0, h, 0, w)
                if k == "rule":
                    pos[0] += w
            elif k in MOVES:
                v = op[1]
                if k in "wxyz":
                    i = "wxyz".index(k)+2
                    if v is not None:
                        pos[i] = v*scale
                    v = pos[i]
                else:
                    v *= scale
                pos[1 if k in ("down", "y", "z") else 0] += v
            elif k == "push":
                stack.append(list(pos))
            elif k == "pop":
                pos[:] = stack.pop()
            elif k == "color":
                self.saved.append((self.m, self.color))
                self.color = COLORS[op[1]]
            elif k in ("rotate", "scale"):
                self.saved.append((self.m, self.color))
                if k == "rotate":
                    a = math.radians(float(op[1]))
                    t = (math.cos(a), math.sin(a), -math.sin(a), math.cos(a), 0, 0)
                else:
                    t = (float(op[1][0]), 0, 0, float(op[1][1]), 0, 0)
                x, y = pos[0]*self.pt, -pos[1]*self.pt
                self.m = mul(self.m, mul((1, 0, 0, 1, x, y), mul(t, (1, 0, 0, 1, -x, -y))))
                self.turned = True
            elif k == "end":
                self.m, self.color = self.saved.pop()
            elif k == "marker":
                self.markers[op[1]] = point(self.m, pos[0]*self.pt, -pos[1]*self.pt)
            elif k == "special" and op[1].startswith("header=l3backend"):
                pass
            elif k == "special":
                self.warnings += 1

    def rect(self, x, y, corners):
        """corners relative to the position, upwards"""
        p = [point(self.m, (x+a)*self.pt, (b-y)*self.pt) for a, b in corners]
        self.rects.append((p, self.color))

    def box(self, pos, left, up, down, right):
        ys = sorted([(-pos[1]-down)*self.pt, (up-pos[1])*self.pt])
        xs = sorted([(pos[0]+left)*self.pt, (pos[0]+right)*self.pt])
        self.boxes.append((xs[0], ys[0], xs[1], ys[1]))

    def char(self, name, code, pos, size):
        """width of the character relative to the size"""
        f = self.world.font(name)
        w, h, d, i = f["chars"][code]
        self.chars += 1
        if self.chars > 3000:
            raise TooMuch
        if f["kind"] == "vf":
            p = pos[:2] + [0.0]*4
            self.interpret(f["packets"][code], p, size, {n: s*size for x, n, s in f["local"]})
        else:
            t = f["t1"]
            g = t.glyphs[f["vector"][code]]
            k = size/t.scale
            for x0, y0, x1, y1 in g["rects"]:
                self.rect(pos[0], pos[1], [((x+f["slant"]*y)*k, y*k) for x, y in ((x0, y0), (x1, y0), (x1, y1), (x0, y1))])
            self.box(pos, 0, h*size, d*size, w*size)
        return w


class TooMuch(Exception):
    pass


def textrects(t1, spec):
    """(rectangles, glyphs, end, box) of a text written with a Type 1 font directly;
    the box is None without metric"""
    glyphs = list(spec["glyphs"])
    kind = spec.get("metric")
    kern = t1.kern if kind == "afm" else t1.pfmkern if kind == "pfm" else {}
    if spec.get("ligatures") and kind == "afm":
        i = 1
        while i < len(glyphs):
            for p, s, r in t1.lig:
                if p == glyphs[i-1] and s == glyphs[i]:
                    glyphs[i-1:i+1] = [r]
                    break
            else:
                i += 1
    x, y, size = spec["x"], spec["y"], spec["size"]
    k = size/t1.scale
    sl = spec.get("slant") or 0
    out = []
    for i, g in enumerate(glyphs):
        if i:
            x += spec.get("spaced", 0)
            if spec.get("kerning"):
                x += kern.get((glyphs[i-1], g), 0)*size/1000
        out += [([(x+(a+sl*b)*k, y+b*k) for a, b in ((x0, y0), (x1, y0), (x1, y1), (x0, y1))], (0, 0, 0)) for x0, y0, x1, y1 in t1.glyphs[g]["rects"]]
        x += t1.glyphs[g]["w"]*k
    b = None
    if kind == "afm":
        bs = [[math.floor(v) for v in box(t1.glyphs[g]["rects"])] for g in glyphs]
        b = [spec["x"], y+min(v[1] for v in bs)*size/1000, x, y+max(v[3] for v in bs)*size/1000]
    elif kind == "pfm":
        b = [spec["x"], y-t1.pfm["descent"]*size/1000, x, y+t1.pfm["ascent"]*size/1000]
    return out, glyphs, x, b


def engine(t1, spec):
    """(rectangles, box) of a text set by the UnicodeEngine"""
    size, kind = spec["size"], spec["metric"]
    x = 0
    out, boxes = [], []

    def line(glyphs, x, y, size):
        r, g, end, b = textrects(t1, {"glyphs": glyphs, "x": x, "y": y, "size": size, "metric": kind})
        return [p for p, c in r], end-x, b

    def rule(x, y, w, h):
        out.append([(x, y), (x+w, y), (x+w, y+h), (x, y+h)])
        boxes.append([x, y, x+w, y+h])
    axis = mw = ml = mt = None
    if "equal" in t1.glyphs:
        rs = t1.glyphs["equal"]["rects"]
        b = box(rs)
        mt = max(r[3]-r[1] for r in rs)*size/t1.scale
        axis = (b[1]+b[3])/2*size/t1.scale
        mw = (b[0]+b[2])*size/t1.scale
        ml = (b[2]-b[0])*size/t1.scale
    for part in spec["parts"]:
        if part[0] == "minus":
            rule(x+0.5*(mw-ml), axis-0.5*mt, ml, mt)
            x += mw
        elif part[0] == "text":
            r, w, b = line(part[1], x, part[3]*size, part[2]*size)
            out += r
            boxes.append(b)
            x += w
        else:
            frac, align = part[2], part[3]
            ls = [line(g, x, shift*size+(axis if frac else 0), scale*size) for g, scale, shift in part[1]]
            width = max(l[1] for l in ls)
            if frac:
                rule(x, axis-0.5*mt, width, mt)
            for r, w, b in ls:
                d = align*(width-w)
                out += [[(u+d, v) for u, v in p] for p in r]
                boxes.append([b[0]+d, b[1], b[2]+d, b[3]])
            x += width
    return out, boxes
