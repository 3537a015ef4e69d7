"""Reference equations (exact rationals), written from the standards and the crate's documentation, not from its code."""
from fractions import Fraction as Q
from . import model as M

K = {  # luma coefficients Kr, Kb
    "BT601": (Q("0.299"), Q("0.114")),
    "BT709": (Q("0.2126"), Q("0.0722")),
    "BT2020": (Q("0.2627"), Q("0.0593")),
}
LUMA_OFF, LUMA_RANGE = Q(16, 255), Q(219, 255)
CHROMA_OFF, CHROMA_RANGE = Q(128, 255), Q(224, 255)


def mx(f):
    return (1 << M.BITS[f]) - 1


class Aff:
    """exact affine form over names"""

    __slots__ = ("co", "c")

    def __init__(self, co=None, c=Q(0)):
        self.co = co or {}
        self.c = c

    def __add__(self, o):
        if not isinstance(o, Aff):
            return Aff(dict(self.co), self.c + o)
        co = dict(self.co)
        for k, v in o.co.items():
            co[k] = co.get(k, 0) + v
        return Aff(co, self.c + o.c)

    def __sub__(self, o):
        return self + (o * -1 if isinstance(o, Aff) else -o)

    def __mul__(self, k):
        return Aff({n: v * k for n, v in self.co.items()}, self.c * k)

    __rmul__ = __mul__
    __radd__ = __add__


def rgb_of_yuv(y, u, v, space):
    kr, kb = K[space]
    kg = 1 - kr - kb
    r = y + v * (2 * (1 - kr))
    b = y + u * (2 * (1 - kb))
    g = (y - r * kr - b * kb) * (1 / kg)
    return r, g, b


def yuv_of_rgb(r, g, b, space):
    kr, kb = K[space]
    y = r * kr + g * (1 - kr - kb) + b * kb
    return y, (b - y) * (1 / (2 * (1 - kb))), (r - y) * (1 / (2 * (1 - kr)))


def dec_luma(s, f, full):
    n = s * Q(1, mx(f))
    return n if full else (n - LUMA_OFF) * (1 / LUMA_RANGE)


def dec_chroma(s, f, full):
    n = s * Q(1, mx(f))
    return n - Q(1, 2) if full else (n - CHROMA_OFF) * (1 / CHROMA_RANGE)


def enc_luma(v, f, full):
    return (v if full else v * LUMA_RANGE + LUMA_OFF) * mx(f)


def enc_chroma(v, f, full):
    return (v + Q(1, 2) if full else v * CHROMA_RANGE + CHROMA_OFF) * mx(f)


def block(f, comp, x, y):
    """pixels covered by the sample `comp` of format f that pixel (x, y) belongs to"""
    if f in M.RGBS or comp == "Y":
        return [(x, y)]
    sx, sy = M.SUB[f]
    x0, y0 = x // sx * sx, y // sy * sy
    return [(x0 + i, y0 + j) for j in range(sy) for i in range(sx)]


def src_rgb(img, x, y, name):
    """exact (unclamped) RGB of pixel (x, y) of the source; name(loc) gives the sample's variable"""
    f = img.fmt
    loc = img.loc(x, y)
    if f in M.RGBS:
        return tuple(Aff({name(loc[c]): Q(1, mx(f))}) for c in "RGB")
    full, space = img.color[4], img.color[3]
    s = {c: Aff({name(loc[c]): Q(1)}) for c in "YUV"}
    return rgb_of_yuv(dec_luma(s["Y"], f, full), dec_chroma(s["U"], f, full), dec_chroma(s["V"], f, full), space)


def expected(src, dst, comp, x, y, name):
    """exact value (before clamping to 0..max) of component comp of the destination at pixel (x, y), without colour management"""
    f = dst.fmt
    px = block(f, comp, x, y)
    rgb = [src_rgb(src, a, b, name) for a, b in px]
    n = Q(1, len(px))
    r, g, b = [sum((p[i] for p in rgb), Aff()) * n for i in range(3)]
    if f in M.RGBS:
        if comp == "A":
            return Aff({name(src.loc(x, y)["A"]): Q(1)}) if src.fmt in ("RGBA", "BGRA") else Aff({}, Q(mx(f)))
        return {"R": r, "G": g, "B": b}[comp] * mx(f)
    full, space = dst.color[4], dst.color[3]
    yy, u, v = yuv_of_rgb(r, g, b, space)
    return enc_luma(yy, f, full) if comp == "Y" else enc_chroma(u if comp == "U" else v, f, full)


def deps(src, dst, comp, x, y):
    """sample locations of the source the destination sample may depend on"""
    out = set()
    for a, b in block(dst.fmt, comp, x, y):
        for loc in src.loc(a, b).values():
            out.add(loc)
    return out


def dst_samples(img):
    """every sample of the image rectangle once: (component, x, y, location)"""
    seen = set()
    w, h = img.size
    for y in range(h):
        for x in range(w):
            for c, loc in img.loc(x, y).items():
                if loc not in seen:
                    seen.add(loc)
                    yield c, x, y, loc
