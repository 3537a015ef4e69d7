"""Colour conversions with transfer functions, decided stage by stage.

The reference is a chain of layers: exact affine maps (range decoding, matrices, averages) and transfer curves.  The
nodes of the symbolic output term that carry the values between the layers are found by evaluating the term on sample
inputs; that only proposes cut points.  Every layer is then decided for all values: the affine layers in linear real
arithmetic with rounding-error bounds, the curves by branch and prune (uni.py), the final code as in numeric.py."""
import math
from fractions import Fraction as Q
import numpy as np
import z3
from . import terms as T, evalc, model as M, spec, numeric, real, uni, curves
from .spec import Aff
from .terms import Term

# ---------------------------------------------------------------- matrices (exact)
CHROMATICITY = {  # SMPTE 240M, BT.709, BT.2020; white D65
    "ST240": (("0.63", "0.34"), ("0.31", "0.595"), ("0.155", "0.07")),
    "BT709": (("0.64", "0.33"), ("0.3", "0.6"), ("0.15", "0.06")),
    "BT2020": (("0.708", "0.292"), ("0.170", "0.797"), ("0.131", "0.046")),
}
D65 = ("0.3127", "0.3290")


def mmul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def minv(m):
    a, b, c = m
    det = a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])
    cof = lambda r, s, i, j: r[i] * s[j] - r[j] * s[i]
    return [
        [cof(b, c, 1, 2) / det, cof(c, a, 1, 2) / det, cof(a, b, 1, 2) / det],
        [-cof(b, c, 0, 2) / det, -cof(c, a, 0, 2) / det, -cof(a, b, 0, 2) / det],
        [cof(b, c, 0, 1) / det, cof(c, a, 0, 1) / det, cof(a, b, 0, 1) / det],
    ]


def _xyz(x, y):
    x, y = Q(x), Q(y)
    return [x / y, Q(1), (1 - x - y) / y]


_mat = {}


def rgb_to_xyz(prim):
    if prim not in _mat:
        cols = [_xyz(*c) for c in CHROMATICITY[prim]]
        p = [[cols[j][i] for j in range(3)] for i in range(3)]
        w = _xyz(*D65)
        s = [sum(r[j] * w[j] for j in range(3)) for r in minv(p)]
        _mat[prim] = [[p[i][j] * s[j] for j in range(3)] for i in range(3)]
    return _mat[prim]


def xyz_to_rgb(prim):
    k = ("inv", prim)
    if k not in _mat:
        _mat[k] = minv(rgb_to_xyz(prim))
    return _mat[k]


# BT.2100: LMS from linear BT.2020 RGB; I, Ct, Cp from L'M'S'
LMS = [[Q(a, 4096) for a in r] for r in ((1688, 2146, 262), (683, 2951, 462), (99, 309, 3688))]
ICTCP = {
    "ICtCpPQ": [[Q(a, 4096) for a in r] for r in ((2048, 2048, 0), (6610, -13613, 7003), (17933, -17390, -543))],
    "ICtCpHLG": [[Q(a, 4096) for a in r] for r in ((2048, 2048, 0), (3625, -7465, 3840), (9500, -9212, -288))],
}
CURVE = {"ICtCpPQ": "PQ", "ICtCpHLG": "HLG"}


def rgb_to_lms(prim):
    """linear RGB of the given primaries to LMS (through XYZ)"""
    return mmul(LMS, mmul(xyz_to_rgb("BT2020"), rgb_to_xyz(prim)))


def lms_to_rgb(prim):
    return minv(rgb_to_lms(prim))


# ---------------------------------------------------------------- the reference chain of one destination sample
class Layer:
    __slots__ = ("curve", "d", "ins", "outs", "opt", "tag", "tol")

    def __init__(self, curve, d, tag, tol):
        self.curve, self.d, self.tag = curve, d, tag  # d: 0 linear -> signal, 1 signal -> linear
        self.ins, self.outs = [], []
        self.opt = set()  # outs whose exact coefficients are all zero: cut when the code computes them
        self.tol = tol  # how far the affine stage before it may be off: absolute, relative to the sum of |coefficient * value|

    @property
    def top(self):
        return curves.top(self.curve) if self.d == 0 else 1.0


# tolerances of the affine stages (absolute, relative)
DECODE = (4e-6, 0.0)
GAMUT = (1e-9, 1e-5)
TO_LMS = (1e-9, 4e-4)
FROM_LMS = (1e-9, 2e-3)
FROM_ICTCP = (6e-6, 0.0)


class Chain:
    """layers of curves; ins of every layer are exact affine maps of the outs of the one before (or of the samples)"""

    def __init__(self, src, dst, comp, x, y, name):
        self.layers = []
        self.dst, self.comp = dst, comp
        self.pend = (0.0, 0.0)
        self.names = {}
        f = dst.fmt
        px = spec.block(f, comp, x, y)
        cur = []
        sc, dc = src.color, dst.color
        for a, b in px:
            if src.fmt in M.RGBS or sc[3] not in ICTCP:
                cur.append(list(spec.src_rgb(src, a, b, name)))
            else:
                loc = src.loc(a, b)
                s = {c: Aff({name(loc[c]): Q(1)}) for c in "YUV"}
                yuv = [spec.dec_luma(s["Y"], src.fmt, sc[4]), spec.dec_chroma(s["U"], src.fmt, sc[4]), spec.dec_chroma(s["V"], src.fmt, sc[4])]
                cur.append(self.mul(minv(ICTCP[sc[3]]), yuv))
        if src.fmt in M.YUV and sc[3] in ICTCP:
            cur = self.uni(cur, CURVE[sc[3]], 1, "ICtCp decode", FROM_ICTCP)
            m = lms_to_rgb(sc[2])
            cur = [self.mul(m, p) for p in cur]
            cur = self.uni(cur, sc[1], 0, "encode R'G'B' of the source", FROM_LMS)
        if sc[1:3] != dc[1:3]:
            cur = self.uni(cur, sc[1], 1, "decode source transfer", DECODE)
            m = mmul(xyz_to_rgb(dc[2]), rgb_to_xyz(sc[2]))
            cur = [self.mul(m, p) for p in cur]
            cur = self.uni(cur, dc[1], 0, "encode destination transfer", GAMUT)
        n = Q(1, len(px))
        if f in M.RGBS:
            self.code = cur[0]["RGB".index(comp)] * spec.mx(f)
        elif dc[3] not in ICTCP:
            avg = [sum((p[i] for p in cur), Aff()) * n for i in range(3)]
            yy, u, v = spec.yuv_of_rgb(*avg, dc[3])
            self.code = spec.enc_luma(yy, f, dc[4]) if comp == "Y" else spec.enc_chroma(u if comp == "U" else v, f, dc[4])
        else:
            cur = self.uni(cur, dc[1], 1, "decode R'G'B' of the destination", DECODE)
            m = rgb_to_lms(dc[2])
            cur = [self.mul(m, p) for p in cur]
            cur = self.uni(cur, CURVE[dc[3]], 0, "ICtCp encode", TO_LMS)
            avg = [sum((p[i] for p in cur), Aff()) * n for i in range(3)]
            i = "YUV".index(comp)
            v = self.mul(ICTCP[dc[3]], avg)[i]
            self.code = spec.enc_luma(v, f, dc[4]) if comp == "Y" else spec.enc_chroma(v, f, dc[4])
        self.prune()
        for a, b in px:
            for c, loc in src.loc(a, b).items():
                self.names[name(loc)] = c

    def signature(self, idx):
        """the reference up to renaming of the samples (idx: name -> number)"""

        def sig(a):
            return tuple(sorted((str(idx.get(n, n)), v) for n, v in a.co.items())), a.c

        return tuple((l.curve, l.d, l.tol, tuple(sig(a) for a in l.ins)) for l in self.layers), sig(self.code), self.dst.fmt

    @staticmethod
    def mul(m, p):
        return [sum((p[j] * m[i][j] for j in range(3)), Aff()) for i in range(3)]

    def uni(self, cur, curve, d, tag, tol):
        tol = (tol[0] + self.pend[0], tol[1] + self.pend[1])
        if curve == "Linear":
            self.pend = tol
            return cur
        self.pend = (0.0, 0.0)
        l = Layer(curve, d, tag, tol)
        k = len(self.layers)
        self.layers.append(l)
        out = []
        for p, vals in enumerate(cur):
            o = []
            for c, a in enumerate(vals):
                n = f"@{k}.{p}.{c}"
                l.ins.append(a)
                l.outs.append(n)
                o.append(Aff({n: Q(1)}))
            out.append(o)
        return out

    def prune(self):
        """drop the values the sample does not need"""
        seen, need = set(), set()

        def use(a, strong):
            seen.update(a.co)
            if strong:
                need.update(n for n, v in a.co.items() if v)

        use(self.code, True)
        for l in reversed(self.layers):
            keep = [i for i, n in enumerate(l.outs) if n in seen]
            l.ins = [l.ins[i] for i in keep]
            l.outs = [l.outs[i] for i in keep]
            l.opt = {n for n in l.outs if n not in need}
            for a, n in zip(l.ins, l.outs):
                use(a, n in need)
        self.samples = sorted(n for n in seen if n[0] != "@")

    # ---- reference values in double precision (arrays)
    def run(self, env):
        """env: sample name -> array.  -> (dict name -> array, [ins arrays per layer], code, in_domain mask)"""
        v = {k: np.asarray(a, dtype=np.float64) for k, a in env.items()}
        ins = []
        ok = True
        for l in self.layers:
            row = []
            top = l.top
            for a, n in zip(l.ins, l.outs):
                x = affv(a, v)
                row.append(x)
                if n not in l.opt:
                    ok = ok & (x >= -1e-9 * top) & (x <= top * (1 + 1e-9))
                v[n] = curves.value(l.curve, l.d, x)
            ins.append(row)
        return v, ins, affv(self.code, v), ok

    def intervals(self, env):
        """what every value may be when every stage may be off by its tolerance, and where the curves are defined"""
        v = {k: (np.asarray(a, dtype=np.float64),) * 2 for k, a in env.items()}
        ok = True
        ins = []
        for l in self.layers:
            top = l.top
            row = []
            for a, n in zip(l.ins, l.outs):
                lo, hi = affiv(a, v)
                t = l.tol[0] + (l.tol[1] and l.tol[1] * affabs(a, v))
                lo, hi = lo - t, hi + t
                row.append((lo, hi))
                if n not in l.opt:
                    ok = ok & (hi <= top + 2 * t)
                f = curves.value(l.curve, l.d, np.clip(lo, 0, top)), curves.value(l.curve, l.d, np.clip(hi, 0, top))
                ab, rel = CTOL(l.curve, l.d)
                # below zero: anything between zero and the continued linear segment
                v[n] = f[0] - ab - rel * np.abs(f[0]) + 13 * np.minimum(lo, 0), f[1] + ab + rel * np.abs(f[1])
            ins.append(row)
        return v, ins, ok

    def bounds(self, env):
        """interval of acceptable codes"""
        v, _, ok = self.intervals(env)
        lo, hi = affiv(self.code, v)
        t = self.codetol()
        t = t[0] + (t[1] and t[1] * affabs(self.code, v))
        return lo - t, hi + t, ok

    def codetol(self):
        hi = spec.mx(self.dst.fmt)
        return (1 + max(1 / 64, 2e-5 * hi) + self.pend[0] * hi, self.pend[1])


def CTOL(curve, d):
    """tolerance of a curve inside a conversion (P14 checks the curves more closely)"""
    return {("PQ", 0): (1e-4, 1e-4), ("PQ", 1): (2e-4, 1e-3)}.get((curve, d), (2e-5, 2e-5))


def affabs(a, v):
    return float(scale(a)) * (1 + sum(np.maximum(np.abs(v[n][0]), np.abs(v[n][1])) for n in a.co) if a.c else sum(np.maximum(np.abs(v[n][0]), np.abs(v[n][1])) for n in a.co))


def scale(a):
    return max([abs(v) for v in a.co.values()] + [abs(a.c)])


def affv(a, v):
    return float(a.c) + sum(float(k) * v[n] for n, k in a.co.items())


def affiv(a, v):
    lo = hi = float(a.c)
    for n, k in a.co.items():
        k = float(k)
        l, h = v[n]
        lo = lo + k * (l if k >= 0 else h)
        hi = hi + k * (h if k >= 0 else l)
    return lo, hi


# ---------------------------------------------------------------- batch evaluation of a term on sample inputs
F32 = np.float32


def order_of(root):
    out, seen, st = [], set(), [(root, False)]
    while st:
        n, done = st.pop()
        if done:
            out.append(n)
            continue
        if n in seen:
            continue
        seen.add(n)
        st.append((n, True))
        for k in evalc.kids(n):
            if k not in seen:
                st.append((k, False))
    return out


def batch(order, env, n):
    """values of all nodes for n assignments at once"""
    m = {}
    with np.errstate(all="ignore"):
        for x in order:
            m[x] = _b1(x, m, env, n)
    return m


_NP = dict(fadd=np.add, fsub=np.subtract, fmul=np.multiply, fdiv=np.divide, max=np.fmax, min=np.fmin)
_N1 = dict(sqrt=np.sqrt, floor=np.floor, ceil=np.ceil, trunc=np.trunc, rint=np.rint, fabs=np.abs, log=np.log, exp=np.exp, log2=np.log2, exp2=np.exp2, log10=np.log10)


def _b1(x, m, env, n):
    op, A = x.op, x.args

    def g(a):
        return m[a] if isinstance(a, Term) else a

    if op == "fc":
        return np.full(n, T.f32(A[0]), F32)
    if op == "var":
        v = env.get(A[0])
        return np.asarray(v, np.int64) if v is not None else np.full(n, x.lo, np.int64)
    if x.w == 0:
        if op in _NP:
            return _NP[op](g(A[0]), g(A[1]))
        if op in _N1:
            return _N1[op](g(A[0]))
        if op == "pow":
            return np.power(g(A[0]), g(A[1]))
        if op == "fma":
            return (g(A[0]).astype(float) * g(A[1]).astype(float) + g(A[2]).astype(float)).astype(F32)
        if op == "fneg":
            return -g(A[0])
        if op == "xmax":
            a, b = g(A[0]), g(A[1])
            return np.where(a > b, a, b)
        if op == "xmin":
            a, b = g(A[0]), g(A[1])
            return np.where(a < b, a, b)
        if op == "fite":
            return np.where(g(A[0]) != 0, g(A[1]), g(A[2])).astype(F32)
        if op == "i2f":
            v = np.asarray(g(A[0]))
            if A[1]:
                w = A[0].w
                v = np.where(v >= 1 << (w - 1), v - (1 << w), v)
            return v.astype(F32)
        if op == "bits2f":
            return (np.asarray(g(A[0])) & 0xFFFFFFFF).astype(np.uint32).view(F32)
        if op == "copysign":
            return np.copysign(g(A[0]), g(A[1]))
    if op == "fbits":
        return g(A[0]).view(np.uint32).astype(np.int64)
    if op == "fcmp":
        p, a, b = A[0], g(A[1]), g(A[2])
        un = np.isnan(a) | np.isnan(b)
        if p == "ord":
            return (~un).astype(np.int64)
        if p == "uno":
            return un.astype(np.int64)
        f = {"lt": np.less, "le": np.less_equal, "gt": np.greater, "ge": np.greater_equal, "eq": np.equal, "ne": np.not_equal}[p[1:]]
        r = f(a, b)
        return ((r | un) if p[0] == "u" else (r & ~un)).astype(np.int64)
    if op == "lin" and x.w <= 32:
        s = A[0]
        for a, k in A[1]:
            s = s + (k if k < 1 << 31 else k - (1 << 32) if x.w == 32 else k) * m[a]
        return s & ((1 << x.w) - 1)
    if op in ("and", "or", "xor") and x.w <= 32:
        return {"and": np.bitwise_and, "or": np.bitwise_or, "xor": np.bitwise_xor}[op](g(A[0]), g(A[1]))
    if op == "lshr" and x.w <= 32:
        return g(A[0]) >> A[1]
    if op == "zext":
        return g(A[0])
    if op == "ite":
        return np.where(np.asarray(g(A[0])) != 0, g(A[1]), g(A[2]))
    # anything else: one by one
    ks = evalc.kids(x)
    out = []
    for i in range(n):
        out.append(evalc.ev1(x, {}, {k: (m[k][i] if k.w == 0 else int(m[k][i])) for k in ks}))
    return np.array(out, F32 if x.w == 0 else np.int64)


# ---------------------------------------------------------------- cut points
class NotFound(Exception):
    pass


class Mismatch(Exception):
    """the term does not compute the reference on a sample input"""

    def __init__(self, i, msg):
        self.i, self.msg = i, msg


def locate(root, chain, envs, n, match, wide=False):
    """-> per layer [(in node, out node) or None].  match(layer, 'in'|'out', ref array) -> tolerance array;
    wide: anything inside the tolerances of the stages"""
    order = order_of(root)
    m = batch(order, envs, n)
    fl = [t for t in order if t.w == 0 and t.op != "fc"]
    mat = np.array([m[t] for t in fl], np.float64) if fl else np.zeros((0, n))
    if wide:
        v, ins, _ = chain.intervals(envs)
    else:
        v, ins, _, _ = chain.run(envs)

    def near(l, io, ref):
        lo, hi = ref if wide else (ref, ref)
        with np.errstate(all="ignore"):
            return [fl[j] for j in np.nonzero(((mat >= lo - match(l, io, lo)) & (mat <= hi + match(l, io, hi))).all(axis=1))[0]]

    res = []
    below = None  # the nodes the layer above is computed from
    for k in range(len(chain.layers) - 1, -1, -1):
        l = chain.layers[k]
        row = []
        for i, name in enumerate(l.outs):
            o, a = near(l, "out", v[name]), near(l, "in", ins[k][i])
            if below is not None:
                o = [x for x in o if x in below]
            found = None
            for out in reversed(o):
                for inn in a:
                    if inn is not out and closed(out, inn):
                        found = (inn, out)
                        break
                if found:
                    break
            if not found and name not in l.opt:
                raise NotFound(f"{l.tag}: no node carries {'the result' if not o else 'the argument'} of component {name}" if not o or not a else f"{l.tag}: no closed cone for component {name}")
            row.append(found)
        res.insert(0, row)
        below = reach([f[0] for f in row if f])
    return res, m


def reach(roots):
    seen = set()
    st = list(roots)
    while st:
        x = st.pop()
        if x not in seen:
            seen.add(x)
            st.extend(evalc.kids(x))
    return seen


def closed(out, inn):
    """does out depend on the variables only through inn?"""
    seen = set()
    st = [out]
    hit = False
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x is inn:
            hit = True
            continue
        if x.op == "var":
            return False
        st.extend(evalc.kids(x))
        if len(seen) > 4000:
            return False
    return hit


def subst(root, rep):
    """root with the nodes of rep replaced"""
    memo = dict(rep)
    st = [root]
    while st:
        x = st[-1]
        if x in memo:
            st.pop()
            continue
        ks = [k for k in evalc.kids(x) if k not in memo]
        if ks:
            st.extend(ks)
            continue
        st.pop()
        if x.op in ("var", "fc") or not any(memo[k] is not k for k in evalc.kids(x)):
            memo[x] = x
            continue

        def sub(a):
            if isinstance(a, Term):
                return memo[a]
            if a.__class__ is tuple:
                return tuple(sub(b) for b in a)
            return a

        r = T.mk(x.op, tuple(sub(a) for a in x.args), x.w, x.lo, x.hi)
        r.aux = x.aux
        if hasattr(x, "nowrap"):
            try:
                r.nowrap = x.nowrap
            except AttributeError:
                pass
        memo[x] = r
    return memo[root]


def cutvar(name):
    return T.bits2f(T.var(name, 32, 0, (1 << 32) - 1))


# ---------------------------------------------------------------- affine stages
def slack(enc, aff, tol, ranges):
    """tol[0] + tol[1] * (largest coefficient) * (sum of |value|)"""
    lim = real.q(Q(tol[0]) + (Q(tol[1]) * scale(aff) if aff.c else 0))
    if tol[1]:
        k = real.q(Q(tol[1]) * scale(aff))
        for n in aff.co:
            x = enc.z(enc.affine([(n, *ranges[n], Q(1))], Q(0)))
            lim = lim + k * z3.If(x >= 0, x, -x)
    return lim


def decide_affine(t, aff, tol, ranges):
    """float term t over samples and cut variables: |t - aff| <= slack for all values in the ranges?
    The ranges of cut variables are divided into shells of similar magnitude, because rounding errors are relative."""
    cuts = [n for n in aff.co if n[0] == "@"]
    shells = [None]
    if tol[1] and cuts and len(cuts) == len(aff.co):
        top = max(max(-ranges[n][0], ranges[n][1]) for n in cuts)
        shells = [Q(top) / 4**k for k in range(18)]
    try:
        for k, r in enumerate(shells):
            enc = real.Enc(ints=False, timeout_ms=20000)
            rg = ranges
            if r is not None:
                rg = {**ranges, **{n: (max(Q(ranges[n][0]), -r), min(Q(ranges[n][1]), r)) for n in cuts}}
            enc.cuts = {n: v for n, v in rg.items() if n[0] == "@"}
            z = enc.z(enc.f(t))
            zs = enc.z(enc.affine([(n, *rg[n], v) for n, v in aff.co.items()], aff.c))
            lim = slack(enc, aff, tol, rg)
            pre = []
            if r is not None and k < len(shells) - 1:
                for n in cuts:
                    x = enc.z(enc.affine([(n, *rg[n], Q(1))], Q(0)))
                    pre += [x >= real.q(r / 4), x <= real.q(-r / 4)]
            for c in (z - zs > lim, zs - z > lim):
                a = enc.check(z3.And(c, z3.Or(pre)) if pre else c)
                if a == z3.sat:
                    return False, "relaxation allows a deviation"
                if a != z3.unsat:
                    return None, "no answer"
        return True, ""
    except real.Nonlinear as e:
        return None, f"outside the linear fragment: {e}"


def decide_code(t, aff, hi, tol, ranges):
    """integer output term: |t - clamp(aff)| <= slack?"""
    why = ""
    for ints in (False, True):
        try:
            enc = real.Enc(ints=ints, timeout_ms=20000)
            enc.cuts = {n: r for n, r in ranges.items() if n[0] == "@"}
            zo = enc.z(enc.i(t))
            zs = enc.z(enc.clampz(enc.affine([(n, *ranges[n], v) for n, v in aff.co.items()], aff.c), 0, hi))
            d = slack(enc, aff, tol, ranges)
            ok = True
            for c in (zo - zs > d, zs - zo > d):
                r = enc.check(c)
                if r != z3.unsat:
                    ok = False
                    why = "relaxation allows a deviation" if r == z3.sat else "no answer"
                    if r == z3.sat and ints:
                        return False, why
            if ok:
                return True, ""
        except real.Nonlinear as e:
            return None, f"outside the linear fragment: {e}"
    return None, why
