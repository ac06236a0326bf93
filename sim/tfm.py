"""Independent TFM reader (widths, heights, depths, kerns, ligatures)."""
import struct


class TFM:
    def __init__(self, data):
        lf, lh, bc, ec, nw, nh, nd, ni, nl, nk, ne, np = struct.unpack(">12H", data[:24])
        w = lambda i: struct.unpack(">i", data[i:i+4])[0]
        self.checksum = struct.unpack(">I", data[24:28])[0]
        self.designsize = w(28)              # fix_word pt
        p = 24 + 4*lh
        self.bc, self.ec = bc, ec
        char = [data[p+4*i:p+4*i+4] for i in range(ec-bc+1)]
        p += 4*(ec-bc+1)
        W = [w(p+4*i) for i in range(nw)]; p += 4*nw
        H = [w(p+4*i) for i in range(nh)]; p += 4*nh
        D = [w(p+4*i) for i in range(nd)]; p += 4*nd
        I = [w(p+4*i) for i in range(ni)]; p += 4*ni
        self.lk = [data[p+4*i:p+4*i+4] for i in range(nl)]; p += 4*nl
        self.kern = [w(p+4*i) for i in range(nk)]; p += 4*nk
        p += 4*ne
        self.param = [w(p+4*i) for i in range(np)]
        self.chars = {}
        for i, c in enumerate(char):
            if c[0]:
                self.chars[bc+i] = (W[c[0]], H[c[1] >> 4], D[c[1] & 15], I[c[2] >> 2], c[2] & 3, c[3])

    def ligkern(self, a, b):
        """None, ('k', fixword) or ('l', op, char)"""
        c = self.chars.get(a)
        if c is None or c[4] != 1:
            return None
        i = c[5]
        s, n, o, r = self.lk[i]
        if s > 128:
            i = 256*o + r
        while True:
            s, n, o, r = self.lk[i]
            if s <= 128 and n == b:
                if o >= 128:
                    return "k", self.kern[256*(o-128)+r]
                return "l", o, r
            if s >= 128:
                return None
            i += s + 1


def scale(fix, z):
    """TeX's scaling of a fix_word by the font size z (scaled points)"""
    # TeX: section 572
    alpha = 16
    zz = z
    while zz >= 0o40000000:
        zz //= 2
        alpha += alpha
    beta = 256 // alpha
    alpha *= zz
    b = struct.pack(">i", fix)
    a0, b1, c1, d1 = b
    sw = (((((d1*zz) // 256) + (c1*zz)) // 256) + (b1*zz)) // beta
    if a0 == 0:
        return sw
    return sw - alpha


_cache = {}


def cached(data):
    t = _cache.get(data)
    if t is None:
        t = _cache[data] = TFM(data)
    return t
