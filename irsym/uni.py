"""Branch and prune for univariate functions.

A float term that depends on one float node ("the cut") is enclosed over a box of that node by affine relaxations
    value = c + s*t + e*eps,   t in [-1, 1] (position in the box, shared by all nodes),  eps in [-1, 1]
together with an interval.  Rounding errors of every IEEE-754 operation, the bit tricks of the vector exp/log (exponent
extraction, mantissa masking, 2^n) and the accuracy of libm are part of the relaxation.  Data dependent branches,
floor and exponent boundaries are handled by splitting the box at the crossing (and, inside the sliver where the
crossing cannot be located, by case distinction).  Whether the relaxation of the implementation stays within the
tolerance of the relaxation of the reference is a linear-real-arithmetic query decided by z3 for every box; boxes that
are too coarse are bisected.
"""
import math
import numpy as np
from . import terms as T
from .terms import Term

INF = math.inf
FMAX = 3.4028234663852886e38
U = 2.0 ** -24  # unit roundoff
TINY = 2.0 ** -150  # half the smallest subnormal
LIBM = 2.0 ** -22  # assumed relative accuracy of libm's powf, logf, expf (two ulp)
D = 4e-15  # slack for the double precision arithmetic of the relaxations themselves


class Split(Exception):
    """the box has to be split where `node` crosses `k`"""

    def __init__(self, node, k):
        self.node, self.k, self.val = node, k, None


class Unsupported(Exception):
    pass


class V:
    """float value: interval, affine form (may be None), may-be-NaN, may-be-negative-zero"""

    __slots__ = ("lo", "hi", "c", "s", "e", "nan", "nz")

    def __init__(self, lo, hi, c=None, s=0.0, e=0.0, nan=False, nz=False):
        self.lo, self.hi, self.c, self.s, self.e, self.nan, self.nz = lo, hi, c, s, e, nan, nz

    def __repr__(self):
        return f"[{self.lo:.9g},{self.hi:.9g}] {self.c}{'+%.3g t' % self.s}±{self.e:.3g}{' nan' if self.nan else ''}"


def const(x, nan=False):
    if math.isnan(x):
        return V(-INF, INF, None, nan=True)
    return V(x, x, x, 0.0, 0.0, nz=(x == 0 and math.copysign(1, x) < 0))


def any_value():
    return V(-INF, INF, None, nan=True, nz=True)


def norm(lo, hi, c, s, e, rnd, nan=False, nz=False):
    """value from interval and affine form of the exact result, rounded to f32 if rnd"""
    if c is not None:
        if not (math.isfinite(c) and math.isfinite(s) and math.isfinite(e)):
            c = None
        else:
            r = abs(s) + e
            sl = D * (abs(c) + r)
            lo = max(lo, c - r - sl)
            hi = min(hi, c + r + sl)
            e += sl
    if lo > hi:
        if c is None or lo - hi > 1e-6 * (abs(lo) + abs(hi)) + 1e-30:
            raise Empty()
        lo, hi = hi, lo
    if rnd:
        m = max(abs(lo), abs(hi))
        d = TINY if m < 2.0**-126 else (2.0 ** (math.frexp(m)[1] - 25) + TINY if m < INF else INF)
        if c is not None:
            e += d
        lo -= min(d, abs(lo) * U + TINY)
        hi += min(d, abs(hi) * U + TINY)
        if hi > FMAX:
            hi = INF
        if lo < -FMAX:
            lo = -INF
    return V(lo, hi, c, s, e, nan, nz)


class Empty(Exception):
    """no point of the box is in this case"""


def neg(a):
    return V(-a.hi, -a.lo, None if a.c is None else -a.c, -a.s, a.e, a.nan, a.lo <= 0 <= a.hi)


def point(v):
    return v.lo == v.hi and not v.nan and math.isfinite(v.lo)


def sterbenz(a, b):
    """a + b is exact: opposite signs and within a factor of two"""
    if a.lo > 0 and b.hi < 0:
        p, q, r, s = a.lo, a.hi, -b.hi, -b.lo
    elif b.lo > 0 and a.hi < 0:
        p, q, r, s = b.lo, b.hi, -a.hi, -a.lo
    else:
        return False
    return 2 * p >= s and q <= 2 * r and r > 1e-30


def add(a, b, rnd):
    if rnd:
        if point(a) and point(b):
            x = a.lo + b.lo
            if abs(x) < FMAX and x - a.lo == b.lo and x - b.lo == a.lo and (x or not (a.nz or b.nz)):
                return const(float(np.float32(x)))
        elif rnd is True and sterbenz(a, b):
            rnd = False
    lo, hi = a.lo + b.lo, a.hi + b.hi
    nan = a.nan or b.nan or (a.hi == INF and b.lo == -INF) or (a.lo == -INF and b.hi == INF)
    if math.isnan(lo):
        lo = -INF
    if math.isnan(hi):
        hi = INF
    if lo != lo or hi != hi:
        lo, hi = -INF, INF
    # signs survive rounding
    c = None if a.c is None or b.c is None else a.c + b.c
    r = norm(lo - D * abs(lo), hi + D * abs(hi), c, a.s + b.s, a.e + b.e, rnd, nan, a.nz and b.nz)
    if lo >= 0 and r.lo < 0:
        r.lo = 0.0
    if hi <= 0 and r.hi > 0:
        r.hi = 0.0
    return r


def imul(x, y):
    if x == 0 or y == 0:
        return 0.0
    return x * y


def mul(a, b, rnd, same=False):
    if rnd and point(a) and point(b):
        x = a.lo * b.lo
        if 1e-30 < abs(x) < FMAX or x == 0 and not (a.nz or b.nz) and a.lo >= 0 and b.lo >= 0:
            return const(float(np.float32(x)))
    ps = [imul(a.lo, b.lo), imul(a.lo, b.hi), imul(a.hi, b.lo), imul(a.hi, b.hi)]
    lo, hi = min(ps), max(ps)
    nan = a.nan or b.nan
    for p, q in ((a, b), (b, a)):
        if (p.hi == INF or p.lo == -INF) and q.lo <= 0 <= q.hi:
            nan = True
            lo, hi = -INF, INF
    if same:
        lo = max(lo, 0.0)
    c = None
    s = e = 0.0
    if a.c is not None and b.c is not None:
        q = a.s * b.s
        c = a.c * b.c + q / 2
        s = a.c * b.s + b.c * a.s
        e = abs(q) / 2 + a.e * (abs(b.c) + abs(b.s)) + b.e * (abs(a.c) + abs(a.s)) + a.e * b.e
    neg_ = (a.lo < 0 or a.nz) or (b.lo < 0 or b.nz)
    r = norm(lo - D * abs(lo), hi + D * abs(hi), c, s, e, rnd, nan, neg_ and lo <= 2e-38 and hi >= -2e-38)
    if lo >= 0 and r.lo < 0:
        r.lo = 0.0
    if hi <= 0 and r.hi > 0:
        r.hi = 0.0
    return r


def monotone(a, f, df, inv_df, rnd, convex, rel=0.0, incr=True):
    """enclosure of f(a) for f monotone with monotone derivative on [a.lo, a.hi]"""
    l, u = a.lo, a.hi
    fl, fu = f(l), f(u)
    lo, hi = (fl, fu) if incr else (fu, fl)
    w = 1e-14 * max(abs(fl) if math.isfinite(fl) else 0.0, abs(fu) if math.isfinite(fu) else 0.0) + 1e-320
    lo, hi = lo - 1e-14 * abs(lo) - 1e-320 if math.isfinite(lo) else lo, hi + 1e-14 * abs(hi) + 1e-320 if math.isfinite(hi) else hi
    c = s = e = None
    if a.c is not None and math.isfinite(fl) and math.isfinite(fu) and math.isfinite(l) and math.isfinite(u):
        if u - l > 1e-7 * max(abs(l), abs(u)) and u > l:
            al = (fu - fl) / (u - l)
            try:
                y = inv_df(al)
                if not (l <= y <= u):
                    y = min(max(y, l), u)
                v = [f(y) - al * y, fl - al * l, fu - al * u]
                mn, mx = min(v), max(v)
                w2 = 1e-13 * (max(abs(fl), abs(fu)) + abs(al) * max(abs(l), abs(u)))
                c = al * a.c + (mn + mx) / 2
                s = al * a.s
                e = abs(al) * a.e + (mx - mn) / 2 + w2
            except (OverflowError, ValueError, ZeroDivisionError):
                c = None
        else:
            m = (l + u) / 2
            try:
                al = df(m)
                d = abs(df(l) - df(u)) * (u - l)
                if math.isfinite(al) and math.isfinite(d):
                    c = al * a.c + (f(m) - al * m)
                    s = al * a.s
                    e = abs(al) * a.e + d + 1e-13 * (abs(f(m)) + abs(al * m))
            except (OverflowError, ValueError, ZeroDivisionError):
                c = None
    if c is None:
        s = e = 0.0
    if rel:
        m = rel * max(abs(lo), abs(hi)) + 2 * TINY
        if math.isfinite(m):
            if c is not None:
                e += m
            nl, nh = lo - rel * abs(lo) - 2 * TINY, hi + rel * abs(hi) + 2 * TINY
            if lo >= 0:
                nl = max(nl, 0.0)
            lo, hi = nl, nh
    r = norm(lo, hi, c, s, e, rnd and not rel, a.nan)
    if rnd and r.hi > FMAX:
        r.hi = INF
    return r


def clip0(a):
    """a restricted to non-negative values"""
    if a.lo < 0:
        return V(0.0, max(a.hi, 0.0), a.c, a.s, a.e, a.nan, a.nz)
    return a


def f_recip(a, rnd):
    if a.lo > 0:
        return monotone(a, lambda y: 1 / y if y else INF, lambda y: -1 / (y * y), lambda al: math.sqrt(-1 / al), rnd, True, incr=False)
    n = f_recip(neg(a), rnd)
    return neg(n)


def div(a, b, rnd):
    if b.lo <= 0 <= b.hi:
        if b.lo == 0 and b.hi == 0 or True:
            nan = a.nan or b.nan or a.lo <= 0 <= a.hi or a.hi == INF or a.lo == -INF
            return V(-INF, INF, None, nan=nan, nz=True)
    if b.c is not None and b.s == 0 and b.e == 0 and b.lo == b.hi:
        k = b.lo
        if a.c is not None:
            r = norm(*sorted((a.lo / k, a.hi / k)), a.c / k, a.s / k, a.e / abs(k), rnd, a.nan or b.nan, (a.lo < 0 or a.nz or k < 0) and a.lo <= 2e-30 and a.hi >= -2e-30)
        else:
            r = norm(*sorted((a.lo / k, a.hi / k)), None, 0.0, 0.0, rnd, a.nan or b.nan, (a.lo < 0 or a.nz or k < 0))
    else:
        inf_inf = (a.hi == INF or a.lo == -INF) and (b.hi == INF or b.lo == -INF)
        r = mul(a, f_recip(b, False), rnd)
        r.nan = a.nan or b.nan or inf_inf
    if a.lo >= 0 and b.lo > 0 and r.lo < 0:
        r.lo = 0.0
    return r


def f_sqrt(a, rnd):
    nan = a.nan or a.lo < 0
    a = clip0(a)
    r = monotone(a, math.sqrt, lambda y: 0.5 / math.sqrt(y), lambda al: 1 / (4 * al * al), rnd, False)
    r.nan = nan
    if r.lo < 0:
        r.lo = 0.0
    return r


def ln(y):
    return -INF if y <= 0 else (INF if y == INF else math.log(y))


def f_log(a, rnd):
    nan = a.nan or a.lo < 0
    a = clip0(a)
    r = monotone(a, ln, lambda y: 1 / y, lambda al: 1 / al, rnd, False, rel=LIBM if rnd else 0.0)
    r.nan = nan
    return r


def expf(y):
    try:
        return math.exp(y)
    except OverflowError:
        return INF


def f_exp(a, rnd):
    r = monotone(a, expf, expf, ln, rnd, True, rel=LIBM if rnd else 0.0)
    if r.lo < 0:
        r.lo = 0.0
    return r


def f_powc(a, k, rnd):
    """a ** k for a constant k"""
    if k == 0:
        return const(1.0)
    if k == 1:
        return a
    nan = a.nan or (a.lo < 0 and k != int(k))
    if a.lo < 0 and k == int(k):
        if a.hi <= 0:
            r = f_powc(neg(a), k, rnd)
            return r if int(k) % 2 == 0 else neg(r)
        return V(-INF, INF, None, nan=a.nan, nz=True)
    a = clip0(a)

    def f(y):
        if y == 0:
            return 0.0 if k > 0 else INF
        try:
            return y ** k
        except OverflowError:
            return INF

    def df(y):
        return k * y ** (k - 1)

    def inv(al):
        return (al / k) ** (1 / (k - 1))

    r = monotone(a, f, df, inv, rnd, True, rel=LIBM if rnd else 0.0, incr=k > 0)
    if r.lo < 0:
        r.lo = 0.0
    r.nan = nan
    return r


def f_pow(a, b, rnd):
    if b.lo == b.hi and not b.nan:
        return f_powc(a, b.lo, rnd)
    if a.lo == a.hi and a.lo > 0:
        k = math.log(a.lo)
        y = mul(b, const(k), False)
        r = f_exp(y, rnd)
        r.nan = a.nan or b.nan
        return r
    r = f_exp(mul(b, f_log(a, False), False), rnd)
    r.nan = a.nan or b.nan or a.lo < 0
    return r


def hull(a, b):
    if a.c is not None and b.c is not None:
        # enclose both with the mean slope
        s = (a.s + b.s) / 2
        la, ha = a.c - abs(a.s - s) - a.e, a.c + abs(a.s - s) + a.e
        lb, hb = b.c - abs(b.s - s) - b.e, b.c + abs(b.s - s) + b.e
        lo, hi = min(la, lb), max(ha, hb)
        return V(min(a.lo, b.lo), max(a.hi, b.hi), (lo + hi) / 2, s, (hi - lo) / 2 * (1 + D), a.nan or b.nan, a.nz or b.nz)
    return V(min(a.lo, b.lo), max(a.hi, b.hi), None, nan=a.nan or b.nan, nz=a.nz or b.nz)


# ---------------------------------------------------------------- integers: exact int, or I (affine), or None (unknown)
class I:
    __slots__ = ("lo", "hi", "c", "s", "e", "src")

    def __init__(self, lo, hi, c, s, e, src=None):
        self.lo, self.hi, self.c, self.s, self.e, self.src = lo, hi, c, s, e, src


def binade(v):
    """exponent field of the f32 value v >= 0"""
    if v < 2.0 ** -126:
        return 0
    if v == INF:
        return 255
    return math.frexp(v)[1] - 1 + 127


class Prog:
    """the cone of `root` above the cut nodes, in evaluation order"""

    def __init__(self, root, cuts):
        from .evalc import kids

        self.root, self.cuts = root, set(cuts)
        self.order = []
        seen = set()
        st = [(root, False)]
        while st:
            n, done = st.pop()
            if done:
                self.order.append(n)
                continue
            if n in seen:
                continue
            seen.add(n)
            st.append((n, True))
            if n in self.cuts:
                continue
            if n.op == "var":
                raise Unsupported("depends on " + n.args[0])
            for k in kids(n):
                if k not in seen:
                    st.append((k, False))


class Memo(dict):
    """values of the nodes, evaluated on demand: only the chosen side of a decided branch matters"""

    __slots__ = ("cuts", "cutval", "refine", "coarse")

    def __missing__(self, n):
        if n in self.cuts:
            v = self.cutval
        else:
            try:
                v = ev(n, self, self.coarse)
            except Split as sp:
                if sp.val is None:
                    sp.val = self.get(sp.node)
                raise
        r = self.refine.get(n)
        if r is not None and v.__class__ is V:
            lo, hi = max(v.lo, r[0]), min(v.hi, r[1])
            if lo > hi:
                raise Empty()
            v = V(lo, hi, v.c, v.s, v.e, v.nan, v.nz and lo <= 0 <= hi)
        self[n] = v
        return v


def evaluate(prog, cutval, refine, coarse=False):
    """values of the nodes, on demand.  cutval: V of the cut node.  refine: {(node): (lo, hi)}.
    coarse: plain intervals across jumps and undecided branches instead of asking for a split"""
    m = Memo()
    m.coarse = coarse
    m.cuts, m.cutval, m.refine = prog.cuts, cutval, refine
    return m


def cmp_decide(pred, a, b):
    """True/False/None for the ordered part of the comparison"""
    if pred == "lt":
        if a.hi < b.lo:
            return True
        if a.lo >= b.hi:
            return False
    elif pred == "le":
        if a.hi <= b.lo:
            return True
        if a.lo > b.hi:
            return False
    elif pred == "eq":
        if a.hi < b.lo or b.hi < a.lo:
            return False
        if a.lo == a.hi == b.lo == b.hi:
            return True
    elif pred == "ne":
        r = cmp_decide("eq", a, b)
        return None if r is None else not r
    return None


def ev(n, m, coarse):
    op, A = n.op, n.args

    def g(x):
        return m[x] if isinstance(x, Term) else x

    if op == "fc":
        return const(float(T.f32(A[0])))
    if n.w == 0:
        if op == "fadd":
            return add(g(A[0]), g(A[1]), True)
        if op == "fsub":
            a, b = g(A[0]), g(A[1])
            if A[0] is A[1]:
                return V(0.0, 0.0, 0.0, 0.0, 0.0, a.nan or a.hi == INF or a.lo == -INF)
            r = add(a, neg(b), True)
            r.nz = a.nz and b.lo <= 0 <= b.hi
            return r
        if op == "fmul":
            return mul(g(A[0]), g(A[1]), True, A[0] is A[1])
        if op == "fdiv":
            return div(g(A[0]), g(A[1]), True)
        if op == "fma":
            return add(mul(g(A[0]), g(A[1]), False, A[0] is A[1]), g(A[2]), "fma")
        if op == "fneg":
            return neg(g(A[0]))
        if op == "sqrt":
            return f_sqrt(g(A[0]), True)
        if op == "log":
            return f_log(g(A[0]), True)
        if op == "exp":
            return f_exp(g(A[0]), True)
        if op in ("log2", "log10"):
            k = math.log(2 if op == "log2" else 10)
            return mul(f_log(g(A[0]), False), const(1 / k), True) if False else widen(mul(f_log(g(A[0]), False), const(1 / k), False))
        if op == "exp2":
            return f_exp(mul(g(A[0]), const(math.log(2)), False), True)
        if op == "pow":
            return f_pow(g(A[0]), g(A[1]), True)
        if op == "fabs":
            a = g(A[0])
            if a.lo >= 0:
                return a
            if a.hi <= 0:
                return neg(a)
            if coarse:
                return V(0.0, max(-a.lo, a.hi), None, nan=a.nan)
            raise Split(A[0], 0.0)
        if op in ("floor", "ceil", "trunc", "rint", "round"):
            a = g(A[0])
            if a.nan or not (math.isfinite(a.lo) and math.isfinite(a.hi)):
                return V(a.lo - 1, a.hi + 1, None, nan=True, nz=True)
            f = {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "rint": lambda v: round(v), "round": lambda v: math.floor(abs(v) + 0.5) * (1 if v >= 0 else -1)}[op]
            lo, hi = f(a.lo), f(a.hi)
            if lo == hi:
                return const(float(lo))
            if coarse:
                return V(float(lo), float(hi), None, nan=a.nan, nz=True)
            if hi - lo > 600:
                return V(float(lo), float(hi), None if a.c is None else a.c, a.s, a.e + 1.0, a.nan, True)
            k = {"floor": hi, "ceil": lo, "trunc": hi if hi > 0 else lo, "rint": lo + 0.5, "round": lo + 0.5}[op]
            # split at the jump in the middle
            if op == "floor":
                k = lo + 1 + (hi - lo - 1) // 2
            raise Split(A[0], float(k))
        if op in ("xmax", "max", "xmin", "min"):
            a, b = g(A[0]), g(A[1])
            mx = op.endswith("max")
            x = op[0] == "x"
            an, bn = a.nan, b.nan
            # without NaN
            if (a.lo >= b.hi and not (a.lo == b.hi)) if mx else (a.hi <= b.lo and not (a.hi == b.lo)):
                r = a
            elif (a.hi <= b.lo) if mx else (a.lo >= b.hi):
                r = b
                if a.nz is False and not x and b.lo <= 0 <= b.hi:
                    pass
            else:
                if b.lo == b.hi and not coarse:
                    raise Split(A[0], b.lo)
                if a.lo == a.hi and not coarse:
                    raise Split(A[1], a.lo)
                lo, hi = (max(a.lo, b.lo), max(a.hi, b.hi)) if mx else (min(a.lo, b.lo), min(a.hi, b.hi))
                r = hull(a, b)
                r.lo, r.hi = max(lo, r.lo), min(hi, r.hi)
            if x:
                # a > b ? a : b   - b whenever one of them is NaN; equal values give b
                if an or bn:
                    r = hull(r, b) if r is not b else b
                    r = V(r.lo, r.hi, r.c, r.s, r.e, bn, r.nz or b.nz)
                else:
                    r = V(r.lo, r.hi, r.c, r.s, r.e, False, (b.nz and r.lo <= 0 <= r.hi) or (r is a and a.nz))
            else:
                if an or bn:
                    h = r
                    if an:
                        h = hull(h, b)
                    if bn:
                        h = hull(h, a)
                    r = V(h.lo, h.hi, h.c, h.s, h.e, an and bn, a.nz or b.nz)
            return r
        if op == "fite":
            c = g(A[0])
            if c is None:
                return hull(g(A[1]), g(A[2]))
            return g(A[1]) if c else g(A[2])
        if op == "i2f":
            v = g(A[0])
            if v is None:
                return V(-4.3e9, 4.3e9, None)
            if v.__class__ is int:
                if A[1]:
                    v = T.sgn(v, A[0].w)
                return const(float(T.f32(T.i2f(v & ((1 << 64) - 1), 64, True).args[0])))
            v = signed(v, A[0].w) if A[1] else unsigned(v, A[0].w)
            if v is None:
                return V(-4.3e9, 4.3e9, None)
            return norm(v.lo, v.hi, v.c, v.s, v.e, max(abs(v.lo), abs(v.hi)) > 1 << 24)
        if op == "bits2f":
            v = g(A[0])
            if v is None:
                return any_value()
            if v.__class__ is int:
                return const(float(T.f32(v & 0xFFFFFFFF)))
            v = unsigned(v, 32)
            if v is None:
                return any_value()
            lo, hi = int(math.floor(v.lo)), int(math.ceil(v.hi))
            if lo < 0 or hi >= 255 << 23:
                return any_value()
            E = lo >> 23
            if hi >> 23 != E:
                if v.src is not None:
                    raise Split(v.src[0], v.src[1](((hi >> 23) << 23)))
                return V(float(T.f32(lo)), float(T.f32(hi)), None)
            sc = 2.0 ** (max(E, 1) - 127 - 23)
            off = (1 << 23) if E else 0
            base = E << 23
            return norm((v.lo - base + off) * sc, (v.hi - base + off) * sc, (v.c - base + off) * sc, v.s * sc, v.e * sc, False)
        if op == "copysign":
            raise Unsupported(op)
        raise Unsupported(op)
    if n.w == 1:
        if op == "fcmp":
            pred, a, b = A[0], g(A[1]), g(A[2])
            if pred in ("ord", "uno"):
                if not (a.nan or b.nan):
                    return 1 if pred == "ord" else 0
                return None
            d = cmp_decide(pred[1:], a, b)
            if d is None:
                if coarse:
                    return None
                if b.lo == b.hi:
                    raise Split(A[1], b.lo)
                if a.lo == a.hi:
                    raise Split(A[2], a.lo)
                return None
            if a.nan or b.nan:
                un = pred[0] == "u"
                return int(d) if d == un else None
            return int(d)
        if op == "not":
            c = g(A[0])
            return None if c is None else 1 - c
        if op in ("and", "or", "xor"):
            a, b = g(A[0]), g(A[1])
            if op == "and" and (a == 0 or b == 0):
                return 0
            if op == "or" and (a == 1 or b == 1):
                return 1
            if a is None or b is None:
                return None
            return {"and": a & b, "or": a | b, "xor": a ^ b}[op]
        if op == "ite":
            c = g(A[0])
            if c is None:
                a, b = g(A[1]), g(A[2])
                return a if a == b else None
            return g(A[1]) if c else g(A[2])
        return None
    return ev_int(n, op, A, g, coarse)


def widen(v):
    d = LIBM * max(abs(v.lo), abs(v.hi)) + 2 * TINY
    return V(v.lo - d, v.hi + d, v.c, v.s, v.e + d, v.nan, v.nz)


def unsigned(v, w):
    if v.lo >= 0:
        return v
    return I(v.lo + (1 << w), v.hi + (1 << w), v.c + (1 << w), v.s, v.e) if v.hi < 0 else None


def signed(v, w):
    h = 1 << (w - 1)
    if v.hi < h:
        return v
    return I(v.lo - 2 * h, v.hi - 2 * h, v.c - 2 * h, v.s, v.e) if v.lo >= h else None


def span(lo, hi):
    return I(lo, hi, (lo + hi) / 2, 0.0, (hi - lo) / 2)


def ev_int(n, op, A, g, coarse):
    mask = (1 << n.w) - 1
    if op == "fbits":
        v = g(A[0])
        if coarse and v.hi == INF and not v.nan and (v.lo > 0 or v.lo == 0 and not v.nz):
            return span(T.fbits(prev32(min(v.lo, FMAX))) if v.lo else 0, 255 << 23)
        if v.nan or v.lo < 0 or (v.nz and v.lo <= 0) or v.hi == INF:
            if v.lo == v.hi and not v.nan and math.isfinite(v.lo) and not (v.lo == 0 and v.nz):
                return T.fbits(v.lo)
            if not v.nan and v.lo < 0 < v.hi and not coarse:
                raise Split(A[0], 0.0)
            return None
        lo, hi = v.lo, v.hi
        if lo == hi:
            if float(T.f32(T.fbits(lo))) == lo:
                return T.fbits(lo)
        E = binade(lo)
        if binade(hi) != E and coarse:
            return span(T.fbits(prev32(lo) if float(np.float32(lo)) > lo else float(np.float32(lo))) if lo else 0, T.fbits(next32(hi)))
        if binade(hi) != E:
            k = 2.0 ** (max(binade(hi), 1) - 127)
            if hi == k and lo < k:
                # only the upper end is in the next binade
                pass
            # split near the geometric middle of the exponents
            eh, el = binade(hi), E
            mid = max((el + eh + 1) // 2, el + 1)
            raise Split(A[0], 2.0 ** (mid - 127))
        sc = 2.0 ** (23 + 127 - max(E, 1))
        base = E << 23
        off = base - ((1 << 23) if E else 0)
        c = None
        if v.c is None:
            c, s, e = (lo + hi) / 2, 0.0, (hi - lo) / 2
        else:
            c, s, e = v.c, v.s, v.e
        L, H = max(lo * sc + off, base), min(hi * sc + off, base + (1 << 23) - 1)
        if L > H:
            L = H = min(max(L, base), base + (1 << 23) - 1)
        return I(L, H, c * sc + off, s * sc, e * sc)
    if op in ("f2i_tr", "f2i_rne"):
        v = g(A[0])
        if v.nan or not (math.isfinite(v.lo) and math.isfinite(v.hi)) or abs(v.lo) >= 2 ** 31 or abs(v.hi) >= 2 ** 31:
            return None
        f = math.trunc if op == "f2i_tr" else round
        lo, hi = f(v.lo), f(v.hi)
        if lo == hi:
            return lo & mask
        return span(lo, hi) if coarse else None
    if op == "lin":
        c0, ps = A
        c0 = T.sgn(c0, n.w)
        xs = [(g(a), T.sgn(k & mask, n.w)) for a, k in ps]
        if any(x is None for x, _ in xs):
            return None
        if all(x.__class__ is int for x, _ in xs):
            return (c0 + sum(x * k for x, k in xs)) & mask
        lo = hi = c = float(c0)
        s = e = 0.0
        for x, k in xs:
            if x.__class__ is int:
                lo, hi, c = lo + k * x, hi + k * x, c + k * x
            else:
                lo += k * (x.lo if k > 0 else x.hi)
                hi += k * (x.hi if k > 0 else x.lo)
                c += k * x.c
                s += k * x.s
                e += abs(k) * x.e
        d = 1 << n.w
        if lo < -(d >> 1) or hi > mask:
            k = -d if hi > mask else d
            lo, hi, c = lo + k, hi + k, c + k
            if lo < -(d >> 1) or hi > mask:
                return None
        return I(lo, hi, c, s, e)
    if op in ("lshr", "shl", "and", "or", "xor", "ashr", "trunc", "zext", "sext"):
        a = g(A[0])
        b = g(A[1]) if len(A) > 1 else None
        if a.__class__ is int and (len(A) == 1 or b.__class__ is int):
            if op == "lshr":
                return a >> b
            if op == "shl":
                return (a << b) & mask
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "ashr":
                return (T.sgn(a, n.w) >> b) & mask
            if op == "trunc":
                return a & mask
            if op == "zext":
                return a
            if op == "sext":
                return T.sext(a, A[0].w, n.w)
        if a.__class__ is I and b.__class__ is int:
            a = unsigned(a, A[0].w)
            if a is None:
                return None
            lo, hi = int(math.floor(a.lo + 1e-6)), int(math.floor(a.hi + 1e-6))
            if op == "lshr":
                if lo >> b == hi >> b:
                    return lo >> b
                return span(lo >> b, hi >> b) if coarse else None
            if op in ("and", "or"):
                # the exponent field is constant here (fbits made sure)
                if lo >> 23 != hi >> 23:
                    if coarse and op == "and":
                        return span(0, min(b & ((1 << hi.bit_length()) - 1), hi))
                    return None
                E = lo >> 23
                ml, mh = b & 0x7FFFFF, b >> 23
                if op == "and":
                    nh = E & mh
                    if ml == 0:
                        return nh << 23
                    if ml == 0x7FFFFF:
                        d = (nh - E) << 23
                        return I(a.lo + d, a.hi + d, a.c + d, a.s, a.e)
                else:
                    nh = E | mh
                    if ml == 0:
                        d = (nh - E) << 23
                        return I(a.lo + d, a.hi + d, a.c + d, a.s, a.e)
        return None
    if op == "ite":
        c = g(A[0])
        if c is None:
            return None
        return g(A[1]) if c else g(A[2])
    return None


# ---------------------------------------------------------------- reference functions: the same calculus without rounding
class Ref:
    """reference function, written with exact real operations on V"""

    def __init__(self, f):
        self.f = f

    def __call__(self, x, refine):
        self.k = 0
        self.refine = refine
        return self.f(self, x)

    def add(self, a, b):
        return add(a, b if isinstance(b, V) else const(b), False)

    def mul(self, a, b):
        return mul(a, b if isinstance(b, V) else const(b), False)

    def div(self, a, b):
        return div(a, b if isinstance(b, V) else const(b), False)

    def pow(self, a, k):
        return f_powc(a, k, False)

    def log(self, a):
        return f_log(a, False)

    def exp(self, a):
        return f_exp(a, False)

    def sqrt(self, a):
        return f_sqrt(a, False)

    def clamp_lo(self, a, k):
        return self.cases(a, k, lambda a: const(k), lambda a: a)

    def clamp_hi(self, a, k):
        return self.cases(a, k, lambda a: a, lambda a: const(k))

    def cases(self, a, k, below, above):
        """below(a) where a <= k, above(a) where a >= k (continuous there)"""
        key = ("ref", self.k)
        self.k += 1
        r = self.refine.get(key)
        if r is not None:
            a = V(max(a.lo, r[0]), min(a.hi, r[1]), a.c, a.s, a.e, a.nan, a.nz)
            if a.lo > a.hi:
                raise Empty()
        if a.hi <= k:
            return below(a)
        if a.lo >= k:
            return above(a)
        s = Split(key, k)
        s.val = a
        raise s


class Result:
    def __init__(self):
        self.ok = True
        self.boxes = 0
        self.queries = 0
        self.fail = []  # boxes (xl, xh) that could not be proved at the smallest width
        self.maxerr = 0.0
        self.time = 0.0


def prove(evalf, lo, hi, judge, minw=lambda x: abs(x) * 2.0 ** -22 + 1e-42, pieces=None, budget=60000, maxfail=4, coarse_first=False):
    """evalf(cut: V, refine) -> dict of values; judge(values) -> True if the claim holds for the whole box (the solver's
    verdict), False if the box is too coarse.  Splits until every box is proved."""
    import time

    r = Result()
    t0 = time.time()
    work = [(l, h, {}, 0) for l, h in (pieces or [(lo, hi)])]
    while work:
        l, h, refine, depth = work.pop()
        r.boxes += 1
        if r.boxes > budget:
            r.ok = None
            r.fail.append((l, h))
            break
        c = (l + h) / 2
        s = (h - l) / 2
        cut = V(l, h, c, s, D * max(abs(l), abs(h)), nz=(l <= 0 <= h))
        try:
            if coarse_first or refine or h - l <= 4 * minw(c):
                # plain intervals, without splitting at jumps, may be enough
                try:
                    if judge(evalf(cut, refine, True), r, (l, h)):
                        continue
                except Split:
                    pass
            out = evalf(cut, refine, False)
            if judge(out, r, (l, h)):
                continue
        except Empty:
            continue
        except Split as sp:
            if sp_split(sp, work, l, h, refine, depth, minw):
                continue
            r.ok = None
            r.fail.append((l, h))
            if len(r.fail) >= maxfail:
                break
            continue
        if h - l <= 2 * minw(c) or depth > 200:
            r.ok = None
            r.fail.append((l, h))
            if len(r.fail) >= maxfail:
                break
            continue
        for b in reversed(bisect(l, h)):
            work.append((*b, refine, depth + 1))
    r.time = time.time() - t0
    return r


def bisect(l, h):
    if l > 0 and h / l > 16:
        m = math.sqrt(l) * math.sqrt(h)
    elif h < 0 and l / h > 16:
        m = -math.sqrt(-l) * math.sqrt(-h)
    elif l < 0 < h:
        m = 0.0
    elif l == 0 and h > 1e-36:
        m = h / 64
    elif h == 0 and l < -1e-36:
        m = l / 64
    else:
        m = (l + h) / 2
    return (l, m), (m, h)


def sp_split(sp, work, l, h, refine, depth, minw):
    v = sp.val
    c, s = (l + h) / 2, (h - l) / 2
    if v is not None and v.c is not None and v.s and h - l > 2 * minw(c) and depth < 150:
        t = (sp.k - v.c) / v.s
        d = (v.e / abs(v.s)) * 1.01
        t0, t1 = t - d, t + d
        if t1 - t0 < 1.0:
            x0, x1 = c + s * t0 - 1e-15 * abs(c), c + s * t1 + 1e-15 * abs(c)
            parts = []
            if x0 > l:
                parts.append((l, min(x0, h)))
            a, b = max(l, x0), min(h, x1)
            mid = None
            if b >= a:
                parts.append((a, b))
                if b - a < 0.2 * (h - l):
                    mid = (a, b), case_alts(sp, refine, depth)
            if x1 < h:
                parts.append((max(x1, l), h))
            if len(parts) > 1 and all(q - p < 0.999 * (h - l) or q == p for p, q in parts):
                for p in reversed(parts):
                    if mid and mid[0] == p and mid[1]:
                        # both cases, right away
                        for r in mid[1]:
                            work.append((*p, {**refine, sp.node: r}, depth + 1))
                    else:
                        work.append((*p, refine, depth + 1))
                return True
        elif v.e < abs(v.s):
            for b in reversed(bisect(l, h)):
                work.append((*b, refine, depth + 1))
            return True
        # otherwise halving the box cannot separate the cases
    elif v is not None and v.c is None and h - l > 2 * minw(c) and depth < 150:
        for b in reversed(bisect(l, h)):
            work.append((*b, refine, depth + 1))
        return True
    alts = case_alts(sp, refine, depth)
    if alts is None:
        return False
    for a in alts:
        work.append((l, h, {**refine, sp.node: a}, depth + 1))
    return True


def case_alts(sp, refine, depth):
    """case distinction on the value of the node"""
    cur = refine.get(sp.node, (-INF, INF))
    if depth > 400 or not (cur[0] <= sp.k <= cur[1]):
        return None
    below = math.nextafter(sp.k, -INF) if not isinstance(sp.node, tuple) else sp.k
    if isinstance(sp.node, Term) and sp.node.w == 0:
        below = prev32(sp.k)
    if (cur[0], below) == cur or (sp.k, cur[1]) == cur:
        # the comparison is not strict the way the cases are: separate the point itself
        if cur == (sp.k, sp.k):
            return None
        if cur[0] == sp.k:
            alts = [(sp.k, sp.k), (next32(sp.k), cur[1])]
        else:
            alts = [(cur[0], below), (sp.k, sp.k)]
    else:
        alts = [(cur[0], below), (sp.k, cur[1])]
    return [a for a in alts if a[0] <= a[1]]


def prev32(x):
    import numpy as np

    return float(np.nextafter(np.float32(x), np.float32(-np.inf)))


def next32(x):
    import numpy as np

    return float(np.nextafter(np.float32(x), np.float32(np.inf)))
