"""Image descriptors for the harness entry points, symbolic set-up and native execution."""
import ctypes
import struct
from . import terms as T
from .terms import Term
from . import exec as X

FMT = "I420 I422 I444 I010 I012 I210 I212 I410 I412 NV12 YUYV RGBA BGRA RGB BGR".split()
FID = {n: i for i, n in enumerate(FMT)}
TRANSFER = "Linear Gamma22 Gamma28 SRGB SDR PQ HLG".split()
PRIM = "ST240 BT709 BT2020".split()
SPACE = "BT601 BT709 BT2020 ICtCpPQ ICtCpHLG".split()
BITS = dict(I420=8, I422=8, I444=8, I010=10, I012=12, I210=10, I212=12, I410=10, I412=12, NV12=8, YUYV=8, RGBA=8, BGRA=8, RGB=8, BGR=8)
# chroma subsampling (x, y) of the YUV formats
SUB = dict(I420=(2, 2), I010=(2, 2), I012=(2, 2), NV12=(2, 2), I422=(2, 1), I210=(2, 1), I212=(2, 1), YUYV=(2, 1), I444=(1, 1), I410=(1, 1), I412=(1, 1))
YUV = [f for f in FMT if f in SUB]
RGBS = ["RGBA", "BGRA", "RGB", "BGR"]


def bps(f):
    return 2 if BITS[f] > 8 else 1


def plane_geometry(f, w, h):
    """documented memory layout: list of (bytes per row, rows) for every plane; w, h ints"""
    b = bps(f)
    if f in ("RGBA", "BGRA"):
        return [(4 * w, h)]
    if f in ("RGB", "BGR"):
        return [(3 * w, h)]
    if f == "YUYV":
        return [(2 * w, h)]
    sx, sy = SUB[f]
    if f == "NV12":
        return [(w, h), (w, h // 2)]
    return [(w * b, h), (w // sx * b, h // sy), (w // sx * b, h // sy)]


def nplanes(f):
    return len(plane_geometry(f, 0, 0))


def samples(f, x, y):
    """documented location of the components of pixel (x, y): dict component -> (plane, row, byte offset, bytes)"""
    b = bps(f)
    if f in RGBS:
        o = {"RGBA": "RGBA", "BGRA": "BGRA", "RGB": "RGB", "BGR": "BGR"}[f]
        return {c: (0, y, x * len(o) + i, 1) for i, c in enumerate(o)}
    if f == "YUYV":
        return {"Y": (0, y, 2 * x, 1), "U": (0, y, x // 2 * 4 + 1, 1), "V": (0, y, x // 2 * 4 + 3, 1)}
    sx, sy = SUB[f]
    if f == "NV12":
        return {"Y": (0, y, x, 1), "U": (1, y // 2, x // 2 * 2, 1), "V": (1, y // 2, x // 2 * 2 + 1, 1)}
    return {"Y": (0, y, x * b, b), "U": (1, y // sy, x // sx * b, b), "V": (2, y // sy, x // sx * b, b)}


class Img:
    """strides: 'packed' | 'sym' | list of ints;  lens: 'exact' | 'sym' | 'min' | list"""

    def __init__(self, fmt, w, h, color=None, ctor=0, strides="packed", lens="exact", crop=(), nstrides=None, full=True, space="BT709", transfer="SRGB", prim="BT709", inrange=True, np=None):
        self.fmt = fmt
        self.np = np
        self.inrange = inrange
        self.w = w
        self.h = h
        if color is None:
            color = ("RGB" if fmt in RGBS else "YUV", transfer, prim, space, full)
        self.color = color
        self.ctor = ctor & 255  # 0 user type, 1 from_planes, 2 from_buffer
        self.how = ctor >> 8  # 0 by value, 1 shared reference, 2 mutable reference, 3 cropped and unwrapped
        self.strides = strides
        self.lens = lens
        self.crop = [tuple(w) for w in crop]
        self.nstrides = nstrides
        self.align2 = False

    @property
    def org(self):
        """origin of the (cropped) image inside its parent"""
        return sum(w[0] for w in self.crop), sum(w[1] for w in self.crop)

    @property
    def size(self):
        return (self.crop[-1][2], self.crop[-1][3]) if self.crop else (self.w, self.h)

    def loc(self, x, y):
        """component -> (plane, row, byte, bytes) of pixel (x, y) of the (cropped) image"""
        ox, oy = self.org
        return samples(self.fmt, x + ox, y + oy)

    def kw(self):
        return dict(fmt=self.fmt, w=self.w, h=self.h, color=self.color, ctor=self.ctor | self.how << 8, strides=self.strides, lens=self.lens, crop=self.crop, nstrides=self.nstrides, inrange=self.inrange)

    def color_words(self):
        k, t, p, s, f = self.color
        return [0 if k == "RGB" else 1, TRANSFER.index(t), PRIM.index(p), SPACE.index(s), int(bool(f))]

    def desc(self):
        return dict(fmt=self.fmt, w=self.w, h=self.h, color=list(self.color), ctor=self.ctor | self.how << 8, strides=self.strides, lens=self.lens, crop=self.crop)


def put(run, obj, off, v, w):
    bs = T.tobytes(v, w)
    bs = list(bs) + [0] * (w // 8 - len(bs))
    obj.data[off : off + w // 8] = bs


class SymImg:
    """An image descriptor laid out in the memory of a Run."""

    origin = None  # start of the part of the image that is looked at, per plane

    def __init__(self, run, img, tag, content=None, const=False):
        self.img = img
        self.tag = tag
        f = img.fmt
        self.objs = []
        self.strides = []
        self.lens = []
        self.rowkeys = []
        geo = plane_geometry(f, img.w, img.h) if isinstance(img.w, int) and isinstance(img.h, int) else None
        n = nplanes(f) if img.np is None else img.np
        self.geo = geo
        if img.ctor == 2:
            n = 1
        for i in range(n):
            if img.strides == "packed":
                st = geo[i][0] if img.ctor != 2 else 0
            elif img.strides == "free":
                st = T.var(f"{tag}.s{i}", 64, 0, (1 << 24) - 1)
            elif img.strides == "sym2":
                st = T.mulc(T.var(f"{tag}.h{i}", 64, (geo[i][0] + 1) // 2, (1 << 23) - 1), 2, 64)
            elif img.strides == "sym":
                st = T.var(f"{tag}.s{i}", 64, geo[i][0] if geo else 0, (1 << 24) - 1)
            else:
                st = img.strides[i] if i < len(img.strides) else 0
            self.strides.append(st)
            if img.ctor == 2:
                ln = img.lens[0] if isinstance(img.lens, (list, tuple)) else sum(a * b for a, b in geo)
            elif img.lens == "exact":
                ln = T.add(T.mulc(st, max(geo[i][1] - 1, 0), 64), geo[i][0] if geo[i][1] else 0, 64) 
            elif img.lens == "full":
                ln = T.mulc(st, geo[i][1], 64)
            elif img.lens == "free":
                ln = T.var(f"{tag}.l{i}", 64, 0, (1 << 32) - 1)
            elif img.lens == "sym":
                ln = T.var(f"{tag}.l{i}", 64, 0, (1 << 32) - 1)
                need = T.add(T.mulc(st, max(geo[i][1] - 1, 0), 64), geo[i][0] if geo[i][1] else 0, 64)
                run.assume(T.icmp("uge", ln, need, 64))
            else:
                ln = img.lens[i]
            self.lens.append(ln)
            o = run.new_obj(ln, "plane", f"{tag}.plane{i}", 2 if img.strides == "sym2" or img.align2 else 1, const)
            o.sym = {}
            o.data = None
            o.init = (content or self.default_content)(i)
            self.objs.append(o)
        d = run.new_obj(216, "desc", f"{tag}.desc", 8)
        put(run, d, 0, FID[f], 32)
        put(run, d, 4, img.ctor | img.how << 8, 32)
        put(run, d, 8, n, 32)
        put(run, d, 12, 0xFFFFFFFF if img.nstrides is None and img.ctor == 2 else (img.nstrides if img.nstrides is not None else n), 32)
        for i in range(4):
            put(run, d, 16 + 8 * i, self.objs[i].base if i < n else 0, 64)
            put(run, d, 48 + 8 * i, self.lens[i] if i < n else 0, 64)
            st = self.strides[i] if i < n else 0
            if img.ctor == 2 and isinstance(img.strides, (list, tuple)) and i < len(img.strides):
                st = img.strides[i]
            put(run, d, 80 + 8 * i, st, 64)
        put(run, d, 112, img.w, 64)
        put(run, d, 120, img.h, 64)
        for i, v in enumerate(img.color_words()):
            put(run, d, 128 + 4 * i, v, 32)
        put(run, d, 148, len(img.crop), 32)
        for i, wd in enumerate(img.crop):
            for j, v in enumerate(wd):
                put(run, d, 152 + 32 * i + 8 * j, v, 64)
        self.desc = d
        self.run = run

    def default_content(self, i):
        tag = self.tag
        if bps(self.img.fmt) == 2:
            hi = (1 << BITS[self.img.fmt]) - 1 if self.img.inrange else 0xFFFF

            def init(k, c):
                return (T.var(f"${tag}{i}[{keyname(k)}{c & ~1:+d}]", 16, 0, hi), c & 1)

            return init

        def init(k, c):
            return (T.var(f"${tag}{i}[{keyname(k)}{c:+d}]", 8), 0)

        return init

    def rowkey(self, plane, row):
        """(symbolic key, constant) of the start of a row"""
        off = T.mulc(self.strides[plane], row, 64)
        if self.origin is not None:
            off = T.add(self.origin[plane], off, 64)
        return self.run.split_off(None, off)

    def varname(self, loc):
        p, r, x, n = loc
        k, c = self.rowkey(p, r)
        return f"${self.tag}{p}[{keyname(k)}{c + x:+d}]"

    def byte(self, plane, row, x):
        """current byte entry at (row, x) of a plane"""
        k, c = self.rowkey(plane, row)
        o = self.objs[plane]
        m = o.sym.get(k)
        b = m.get(c + x) if m is not None else None
        if b is None:
            return o.init(k, c + x)
        return b

    def sample(self, loc):
        p, r, x, n = loc
        return T.frombytes([self.byte(p, r, x + i) for i in range(n)], 8 * n)


def keyname(k):
    return "".join((f"{q}*" if q != 1 else "") + t.args[0] + "+" if t.op == "var" else f"{q}*<{t.id}>+" for t, q in k)


# ------------------------------------------------------------------ native execution
class CColor(ctypes.Structure):
    _fields_ = [(n, ctypes.c_uint32) for n in ("kind", "transfer", "primaries", "space", "full")]


class CDesc(ctypes.Structure):
    _fields_ = [
        ("fmt", ctypes.c_uint32),
        ("ctor", ctypes.c_uint32),
        ("nplanes", ctypes.c_uint32),
        ("nstrides", ctypes.c_uint32),
        ("planes", ctypes.c_void_p * 4),
        ("lens", ctypes.c_size_t * 4),
        ("strides", ctypes.c_size_t * 4),
        ("width", ctypes.c_size_t),
        ("height", ctypes.c_size_t),
        ("color", CColor),
        ("ncrop", ctypes.c_uint32),
        ("win", (ctypes.c_size_t * 4) * 2),
    ]


assert ctypes.sizeof(CDesc) == 216
