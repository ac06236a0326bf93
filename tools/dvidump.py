"""small independent DVI reader"""
import struct

def pages(d):
    p = 0
    fonts = {}
    out = []
    pg = None
    def rd(n, signed=False):
        nonlocal p
        v = int.from_bytes(d[p:p+n], "big", signed=signed)
        p += n
        return v
    import os, sys
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from sim import tfm
    tf = {}
    D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "fonts")
    def width(f, c):
        n, s = f
        if n not in tf:
            tf[n] = tfm.TFM(open(os.path.join(D, n + ".tfm"), "rb").read())
        return tfm.scale(tf[n].chars[c][0], s)
    while True:
        c = rd(1)
        if c < 128 or 128 <= c <= 131 or 133 <= c <= 136:
            put = c >= 133
            ch = c if c < 128 else rd((c - (133 if put else 128)) + 1)
            pg["glyphs"].append((f[0], f[1], ch, st[0], st[1]))
            if not put:
                st[0] += width(f, ch)
        elif c in (132, 137):
            h = rd(4, True); w = rd(4, True)
            if h > 0 and w > 0:
                pg["rules"].append((st[0], st[1], w, h))
            if c == 132:
                st[0] += w
        elif c == 138: pass
        elif c == 139:
            cnt = [rd(4, True) for _ in range(10)]; rd(4)
            pg = {"counts": cnt, "glyphs": [], "rules": [], "specials": []}
            st = [0]*6; stack = []
        elif c == 140: out.append(pg)
        elif c == 141: stack.append(list(st))
        elif c == 142: st = stack.pop()
        elif 143 <= c <= 146: st[0] += rd(c-142, True)
        elif 147 <= c <= 151:
            if c > 147: st[2] = rd(c-147, True)
            st[0] += st[2]
        elif 152 <= c <= 156:
            if c > 152: st[3] = rd(c-152, True)
            st[0] += st[3]
        elif 157 <= c <= 160: st[1] += rd(c-156, True)
        elif 161 <= c <= 165:
            if c > 161: st[4] = rd(c-161, True)
            st[1] += st[4]
        elif 166 <= c <= 170:
            if c > 166: st[5] = rd(c-166, True)
            st[1] += st[5]
        elif 171 <= c <= 234: f = fonts[c-171]
        elif 235 <= c <= 238: f = fonts[rd(c-234)]
        elif 239 <= c <= 242:
            n = rd(c-238)
            pg["specials"].append((d[p:p+n].decode("latin1"), st[0], st[1])); p += n
        elif 243 <= c <= 246:
            k = rd(c-242); rd(4); s = rd(4); rd(4); a = rd(1); l = rd(1)
            fonts[k] = (d[p:p+a+l].decode(), s); p += a+l
        elif c == 247:
            rd(1); rd(4); rd(4); rd(4); n = rd(1); p += n
        elif c == 248:
            return out
        else:
            raise ValueError(c)
