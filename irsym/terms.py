"""Hash-consed terms.  Concrete integers are plain Python ints; everything symbolic (and every float) is a Term.

Integer terms (width w>0):
  var(name)            fresh unsigned input, range lo..hi
  lin(c,((t,k),..))    c + sum k*t  mod 2^w     (k signed)
  mul(a,b) udiv(a,b) urem(a,b) lshr(a,n) and/or/xor(a,b)
  cat(b0,b1,..)        little-endian concatenation of byte entries
  zext(t) trunc(t) sext(t)
  satu16(t32) satu8(t16) sats16 sats8, f2i_rne f2i_tr (32-bit signed), f2u_sat (w bits, truncating, saturating), minu maxu ...
  ite(c,a,b)
Boolean terms (w==1): icmp(pred,a,b) fcmp(pred,a,b) not and or ite
Float terms (w==0): fc(bits) i2f(t,signed) fadd fsub fmul fdiv fma sqrt pow log exp floor max min bits2f(int term) fite
"""
import math
import struct
import numpy as np
from fractions import Fraction

np.seterr(all="ignore")

M64 = (1 << 64) - 1


class Term:
    __slots__ = ("op", "args", "w", "id", "lo", "hi", "_bytes", "nowrap", "aux")

    def __repr__(self):
        return show(self, 4)

    def __hash__(self):
        return self.id


_tab = {}
_next = [1]


def reset():
    _tab.clear()


def mk(op, args, w, lo=0, hi=None):
    key = (op, args, w)
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.w = w
        t.id = _next[0]
        _next[0] += 1
        t.lo = lo
        t.hi = ((1 << w) - 1) if hi is None else hi
        t._bytes = None
        t.nowrap = True
        t.aux = None
        _tab[key] = t
    return t


# make args hashable/equal by identity for Terms: default eq is identity, hash is id. ints vs Terms never clash.


def show(t, d=6):
    if not isinstance(t, Term):
        return str(t)
    if t.op == "var":
        return t.args[0]
    if t.op == "fc":
        return repr(float(f32(t.args[0])))
    if d == 0:
        return "…"
    if t.op == "lin":
        c, ps = t.args
        s = " + ".join(("" if k == 1 else f"{k}*") + show(a, d - 1) for a, k in ps)
        return f"({s} + {c})" if c else f"({s})"
    return f"{t.op}(" + ", ".join(show(a, d - 1) if isinstance(a, Term) else (("[" + ", ".join(show(b[0], d - 1) + f".{b[1]}" if isinstance(b, tuple) else str(b) for b in a) + "]") if isinstance(a, tuple) else str(a)) for a in t.args) + ")"


# ---------------------------------------------------------------- floats
def f32(bits):
    return np.frombuffer(struct.pack("<I", bits), dtype=np.float32)[0]


def fbits(x):
    return struct.unpack("<I", np.float32(x).tobytes())[0]


def fc(bits):
    return mk("fc", (bits,), 0)


def fval(x):
    return fc(fbits(x))


def isfc(t):
    return t.op == "fc"


def frac(t):
    """exact rational value of a float constant"""
    return Fraction(float(f32(t.args[0])))


def round_f32(fr):
    """Round a Fraction to nearest-even f32."""
    if fr == 0:
        return np.float32(0.0)
    s = -1 if fr < 0 else 1
    a = abs(fr)
    import math

    e = a.numerator.bit_length() - a.denominator.bit_length()
    if Fraction(2) ** e > a:
        e -= 1
    e = max(e, -126)
    ulp = Fraction(2) ** (e - 23)
    q = a / ulp
    n = q.numerator // q.denominator
    r = q - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n % 2 == 1):
        n += 1
    return np.float32(s * float(n * ulp))


def _fold2(op, a, b):
    x = f32(a.args[0])
    y = f32(b.args[0])
    if op == "fadd":
        return fval(x + y)
    if op == "fsub":
        return fval(x - y)
    if op == "fmul":
        return fval(x * y)
    if op == "fdiv":
        return fval(x / y)
    if op == "frem":
        return fval(np.fmod(x, y))


ONE = 0x3F800000
ZERO = 0
NZERO = 0x80000000


def fbin(op, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a.op == "fc" and b.op == "fc":
        return _fold2(op, a, b)
    if op == "fmul":
        if a.op == "fc" and a.args[0] == ONE:
            return b
        if b.op == "fc" and b.args[0] == ONE:
            return a
        if a.id > b.id:
            a, b = b, a
    elif op == "fadd":
        if a.id > b.id:
            a, b = b, a
        if a.op == "fc" and a.args[0] == NZERO:
            return b
        if b.op == "fc" and b.args[0] == NZERO:
            return a
    elif op == "fdiv":
        if b.op == "fc" and b.args[0] == ONE:
            return a
    elif op == "fsub":
        if b.op == "fc" and b.args[0] == ZERO:
            return a
    return mk(op, (a, b), 0)


def fma(a, b, c):
    if a is UNDEF or b is UNDEF or c is UNDEF:
        return UNDEF
    if a.op == b.op == c.op == "fc":
        return fval(round_f32(frac(a) * frac(b) + frac(c)))
    if a.id > b.id:
        a, b = b, a
    return mk("fma", (a, b, c), 0)


def fneg(a):
    if a is UNDEF:
        return UNDEF
    if a.op == "fc":
        return fc(a.args[0] ^ 0x80000000)
    return mk("fneg", (a,), 0)


def fun1(op, a):
    if a is UNDEF:
        return UNDEF
    if a.op == "fc":
        x = f32(a.args[0])
        if op == "sqrt":
            return fval(np.sqrt(x))
        if op == "floor":
            return fval(np.floor(x))
        if op == "ceil":
            return fval(np.ceil(x))
        if op == "trunc":
            return fval(np.trunc(x))
        if op == "rint":
            return fval(np.rint(x))
        if op == "round":
            xx = float(x)
            return fval(np.float32(np.copysign(np.floor(abs(xx) + 0.5), xx)))
        if op == "fabs":
            return fc(a.args[0] & 0x7FFFFFFF)
    return mk(op, (a,), 0)


def i2f(t, w, signed):
    """t: concrete int of width w or Term"""
    if t is UNDEF:
        return UNDEF
    if not isinstance(t, Term):
        if signed and t >> (w - 1):
            t -= 1 << w
        return fval(round_f32(Fraction(t)) if abs(t) > (1 << 24) else np.float32(t))
    # strip zext, keep unsigned small ranges unsigned
    if t.hi < (1 << (w - 1)):
        signed = False
    return mk("i2f", (t, bool(signed)), 0)


def fcmp(pred, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a.op == "fc" and b.op == "fc":
        x = f32(a.args[0])
        y = f32(b.args[0])
        un = bool(np.isnan(x) or np.isnan(y))
        if pred == "ord":
            return int(not un)
        if pred == "uno":
            return int(un)
        base = {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pred[1:]]
        if un:
            return int(pred[0] == "u")
        return int(bool(base))
    if pred == "true":
        return 1
    if pred == "false":
        return 0
    if pred[1:] == "gt":
        pred, a, b = pred[0] + "lt", b, a
    elif pred[1:] == "ge":
        pred, a, b = pred[0] + "le", b, a
    return mk("fcmp", (pred, a, b), 1)


# ---------------------------------------------------------------- ints
class _Undef:
    def __repr__(self):
        return "UNDEF"

    op = "undef"
    id = 0
    w = -1


UNDEF = _Undef()


def var(name, w, lo=0, hi=None):
    if hi is None:
        hi = (1 << w) - 1
    return mk("var", (name, lo, hi), w, lo, hi)


def sgn(c, w):
    c &= (1 << w) - 1
    return c - (1 << w) if c >> (w - 1) else c


def _lin_parts(t):
    if not isinstance(t, Term):
        return t, ()
    if t.op == "lin":
        return t.args
    return 0, ((t, 1),)


def lin(c, parts, w):
    """parts: dict term->signed coef"""
    m = (1 << w) - 1
    ps = tuple(sorted(((t, k) for t, k in parts.items() if k % (1 << w)), key=lambda p: p[0].id))
    c &= m
    if not ps:
        return c
    if c == 0 and len(ps) == 1 and ps[0][1] == 1 and ps[0][0].w == w:
        return ps[0][0]
    key = ("lin", (c, ps), w)
    t = _tab.get(key)
    if t is not None:
        return t
    lo = hi = sgn(c, w)
    for a, k in ps:
        if k > 0:
            lo += k * a.lo
            hi += k * a.hi
        else:
            lo += k * a.hi
            hi += k * a.lo
    if lo < 0 or hi > m:
        # try unsigned constant
        lo2 = lo - sgn(c, w) + c
        hi2 = hi - sgn(c, w) + c
        if lo2 >= 0 and hi2 <= m:
            lo, hi = lo2, hi2
            t = mk("lin", (c, ps), w, lo, hi)
            t.aux = c
        else:
            t = mk("lin", (c, ps), w, 0, m)
            t.nowrap = False
            t.aux = sgn(c, w)
    else:
        t = mk("lin", (c, ps), w, lo, hi)
        t.aux = sgn(c, w)
    return t


def add(a, b, w):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if not isinstance(a, Term) and not isinstance(b, Term):
        return (a + b) & ((1 << w) - 1)
    c1, p1 = _lin_parts(a)
    c2, p2 = _lin_parts(b)
    d = dict(p1)
    for t, k in p2:
        n = d.get(t, 0) + k
        if n:
            d[t] = n
        else:
            d.pop(t, None)
    return lin(c1 + c2, d, w)


def mulc(a, k, w):
    if a is UNDEF:
        return UNDEF
    if not isinstance(a, Term):
        return (a * k) & ((1 << w) - 1)
    k = sgn(k, w)
    if k == 0:
        return 0
    c, p = _lin_parts(a)
    return lin(c * k, {t: sgn(q * k, w) for t, q in p}, w)


def sub(a, b, w):
    return add(a, mulc(b, -1, w), w)


def mul(a, b, w):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if not isinstance(a, Term):
        return mulc(b, a, w)
    if not isinstance(b, Term):
        return mulc(a, b, w)
    if a.id > b.id:
        a, b = b, a
    hi = a.hi * b.hi
    if ACC and "lin" in (a.op, b.op) and w == 64:
        return distribute(a, b, w)
    t = mk("mul", (a, b), w, a.lo * b.lo if hi < (1 << w) else 0, hi if hi < (1 << w) else (1 << w) - 1)
    t.nowrap = hi < (1 << w)
    return t


# canonical products and quotients of sizes (for runs with symbolic image sizes)
ACC = False


def distribute(a, b, w):
    if a.op != "lin":
        a, b = b, a
    c, ps = a.args
    r = mulc(b, c, w)
    for t, k in ps:
        r = add(r, mulc(mul(t, b, w), k, w), w)
    hi = a.hi * b.hi
    if isinstance(r, Term) and r.op == "lin" and a.nowrap and b.nowrap and hi < (1 << w) and not r.nowrap:
        # the product of two values that fit
        r.nowrap = True
        r.lo, r.hi = a.lo * b.lo, hi
        r.aux = sgn(r.args[0], w)
    return r


def div_acc(a, b, w):
    """quotient with everything divisible taken out, None if there is nothing to take out"""
    if a.op == "udiv" and not isinstance(a.args[1], Term):
        return udiv(a.args[0], a.args[1] * b, w)
    if a.op != "lin" or not a.nowrap:
        return None
    c, ps = a.aux, a.args[1]
    rest = {t: k for t, k in ps if k % b}
    r0 = lin(c % b, rest, w)
    if len(rest) < len(ps) or not 0 <= c < b:
        if not isinstance(r0, Term) or r0.nowrap:
            q = lin(c // b, {t: k // b for t, k in ps if k % b == 0}, w)
            return add(q, udiv(r0, b, w), w)
        return None
    g = math.gcd(b, *[k for _, k in ps])
    if g > 1:
        return udiv(lin(c // g, {t: k // g for t, k in ps}, w), b // g, w)
    return None


def udiv(a, b, w):
    if not isinstance(a, Term) and not isinstance(b, Term):
        return a // b
    if not isinstance(b, Term):
        if b == 1:
            return a
        if ACC and w == 64:
            r = div_acc(a, b, w)
            if r is not None:
                return r
        return mk("udiv", (a, b), w, a.lo // b, a.hi // b)
    hi = a.hi if isinstance(a, Term) else a
    return mk("udiv", (a, b), w, 0, hi)


def urem(a, b, w):
    if not isinstance(a, Term) and not isinstance(b, Term):
        return a % b
    if not isinstance(b, Term):
        if a.hi < b:
            return a
        if b & (b - 1) == 0 and a.op in ("cat", "zext") and b.bit_length() % 8 == 1 and w % 8 == 0:
            n = b.bit_length() // 8
            return frombytes(list(tobytes(a, w)[:n]) + [0] * (w // 8 - n), w)
        if b & (b - 1) == 0:
            # drop multiples of b in linear combination
            if a.op == "lin":
                c, ps = a.args
                d = {t: k for t, k in ps if k % b}
                if len(d) < len(ps):
                    r = lin(c % b, d, w)
                    return urem(r, b, w) if isinstance(r, Term) else r % b
            if ACC and w == 64 and a.op == "lin" and a.nowrap and a.aux % b == 0 and (g := math.gcd(b, *[k for _, k in a.args[1]])) > 1:
                return mulc(urem(lin(a.aux // g, {t: k // g for t, k in a.args[1]}, w), b // g, w), g, w)
            if w > 1 and b <= 16 and a.op in BITOP:
                return BITOP[a.op](*(urem(x, b, w) for x in a.args), w)
        return mk("urem", (a, b), w, 0, b - 1)
    return mk("urem", (a, b), w, 0, b.hi)


# ---- bytes
def tobytes(v, w):
    """little-endian list of byte entries (int | (Term,k) | None) for an integer or float value"""
    n = (w + 7) // 8
    if v is UNDEF:
        return [None] * n
    if not isinstance(v, Term):
        return list(v.to_bytes(n, "little"))
    if v._bytes is not None:
        return v._bytes
    if v.op == "fc":
        r = list(v.args[0].to_bytes(4, "little"))
    elif v.op == "cat":
        r = list(v.args[0])
    elif v.op == "zext":
        b = tobytes(v.args[0], v.args[0].w)
        r = list(b) + [0] * (n - len(b))
    elif v.op == "bits2f":
        r = tobytes(v.args[0], 32)
    elif v.op == "byte":
        r = [v.args]
    else:
        r = [(v, i) for i in range(n)]
        if v.w and v.hi < (1 << (8 * (n - 1))):
            # leading zero bytes known
            k = max(1, (v.hi.bit_length() + 7) // 8)
            if k < n:
                t = trunc(v, 8 * k)
                if isinstance(t, Term):
                    r = tobytes(t, 8 * k)[:k] + [0] * (n - k)
    v._bytes = r
    return r


def frombytes(bs, w):
    """inverse of tobytes for an integer of width w (multiple of 8 or 1)"""
    n = len(bs)
    b0 = bs[0]
    if n == 1:
        if b0 is None:
            return UNDEF
        if not isinstance(b0, tuple):
            return b0 & ((1 << w) - 1) if w < 8 else b0
        t, k = b0
        if t.w == 8:
            return t if w == 8 else trunc(t, w)
        if t.w == 1:
            return t if w == 1 else mk("zext", (t,), w, 0, 1)
        if w < 8:
            return trunc(mk("byte", (t, k), 8), w)
        return mk("byte", (t, k), 8)
    allint = True
    for b in bs:
        if b.__class__ is not int:
            allint = False
            break
    if allint:
        return int.from_bytes(bytes(bs), "little")
    if b0.__class__ is tuple:
        t = b0[0]
        if b0[1] == 0:
            tn = 4 if t.w == 0 else (t.w + 7) // 8
            if tn == n:
                ok = True
                for i in range(1, n):
                    b = bs[i]
                    if b.__class__ is not tuple or b[0] is not t or b[1] != i:
                        ok = False
                        break
                if ok:
                    if t.w == 0:
                        return f2bits(t)
                    return t
            elif tn < n:
                ok = all(bs[i].__class__ is tuple and bs[i][0] is t and bs[i][1] == i for i in range(tn)) and all(bs[i] == 0 and bs[i].__class__ is int for i in range(tn, n))
                if ok and t.w:
                    return zext(t, t.w, w)
    for b in bs:
        if b is None:
            return UNDEF
    # zext of a prefix?
    k = n
    while k > 1 and bs[k - 1].__class__ is int and bs[k - 1] == 0:
        k -= 1
    if k < n:
        low = frombytes(bs[:k], 8 * k)
        if isinstance(low, Term):
            return _zext(low, w)
    return mk("cat", (tuple(bs),), w)


def f2bits(t):
    """float term -> 32-bit int"""
    if t is UNDEF:
        return UNDEF
    if t.op == "fc":
        return t.args[0]
    if t.op == "bits2f":
        return t.args[0]
    if t.op == "fite" and t.args[1].op == "fc" and t.args[2].op == "fc":
        return ite(t.args[0], t.args[1].args[0], t.args[2].args[0], 32)
    return mk("fbits", (t,), 32)


def bits2f(v):
    if v is UNDEF:
        return UNDEF
    if not isinstance(v, Term):
        return fc(v)
    if v.op == "fbits":
        return v.args[0]
    if v.op == "ite":
        return fite(v.args[0], bits2f(v.args[1]), bits2f(v.args[2]))
    # mask select idioms: and(sext(c), fbits) handled in bit ops
    return mk("bits2f", (v,), 0)


def zext(v, w0, w):
    if v is UNDEF:
        return UNDEF
    if not isinstance(v, Term):
        return v
    if v.op == "lin" and v.nowrap:
        # push through
        c, ps = v.args
        return lin(v.aux, {zext(t, w0, w): k for t, k in ps}, w)
    if v.op == "zext":
        v = v.args[0]
    if v.op == "ite" and not isinstance(v.args[1], Term) and not isinstance(v.args[2], Term):
        return ite(v.args[0], v.args[1], v.args[2], w)
    return _zext(v, w)


def _zext(v, w):
    if v.op == "trunc" and v.args[0].hi < (1 << v.w):
        # only known-zero bits were cut off
        a = v.args[0]
        return a if a.w == w else trunc(a, w) if a.w > w else zext(a, a.w, w)
    return mk("zext", (v,), w, v.lo, v.hi)


def sext(v, w0, w):
    if v is UNDEF:
        return UNDEF
    if not isinstance(v, Term):
        return (v - (1 << w0)) & ((1 << w) - 1) if v >> (w0 - 1) else v
    if w0 > 1 and v.hi < (1 << (w0 - 1)):
        return zext(v, w0, w)
    if v.op == "ite" and not isinstance(v.args[1], Term) and not isinstance(v.args[2], Term):
        return ite(v.args[0], sext(v.args[1], w0, w), sext(v.args[2], w0, w), w)
    if w0 == 1:
        return ite(v, (1 << w) - 1, 0, w)
    return mk("sext", (v,), w)


def trunc(v, w):
    if v is UNDEF:
        return UNDEF
    if not isinstance(v, Term):
        return v & ((1 << w) - 1)
    if v.w == w:
        return v
    if v.op in ("zext", "sext"):
        a = v.args[0]
        if a.w == w:
            return a
        if a.w > w:
            return trunc(a, w)
        if v.op == "zext":
            return zext(a, a.w, w)
        return sext(a, a.w, w)
    if v.op == "ite":
        return ite(v.args[0], trunc(v.args[1], w), trunc(v.args[2], w), w)
    if v.op == "lin":
        c, ps = v.args
        d = {}
        r = c & ((1 << w) - 1)
        for t, k in ps:
            r = add(r, mulc(trunc(t, w), k, w), w)
        return r
    if v.op == "cat" and w % 8 == 0:
        return frombytes(list(v.args[0][: w // 8]), w)
    if w == 1 and v.op in BITOP:
        return BITOP[v.op](*(trunc(x, 1) for x in v.args), 1)
    m = (1 << w) - 1
    return mk("trunc", (v,), w, v.lo if v.hi <= m else 0, min(v.hi, m))


def ite(c, a, b, w):
    """w==0: float"""
    if c is UNDEF:
        return UNDEF
    if not isinstance(c, Term):
        return a if c else b
    if a is b or (not isinstance(a, Term) and not isinstance(b, Term) and a == b and a is not UNDEF):
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if c.op == "not":
        c, a, b = c.args[0], b, a
    if w == 0:
        return mk("fite", (c, a, b), 0)
    if w == 1 and not isinstance(a, Term) and not isinstance(b, Term):
        return c if a else bnot(c)
    lo = min(x.lo if isinstance(x, Term) else x for x in (a, b))
    hi = max(x.hi if isinstance(x, Term) else x for x in (a, b))
    return mk("ite", (c, a, b), w, lo, hi)


def fite(c, a, b):
    return ite(c, a, b, 0)


def bnot(c):
    if c is UNDEF:
        return UNDEF
    if not isinstance(c, Term):
        return 1 - c
    if c.op == "not":
        return c.args[0]
    if c.op == "icmp":
        p, a, b = c.args
        inv = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ule": "ugt", "ugt": "ule", "slt": "sge", "sge": "slt", "sle": "sgt", "sgt": "sle"}
        return icmp(inv[p], a, b, c.aux)
    return mk("not", (c,), 1)


def icmp(pred, a, b, w):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    ta = isinstance(a, Term)
    tb = isinstance(b, Term)
    if not ta and not tb:
        if pred[0] == "s":
            a = sgn(a, w)
            b = sgn(b, w)
        p = pred[-2:]
        return int(a == b if pred == "eq" else a != b if pred == "ne" else a < b if p == "lt" else a <= b if p == "le" else a > b if p == "gt" else a >= b)
    if a is b:
        return int(pred in ("eq", "ule", "uge", "sle", "sge"))
    if ta and not tb and a.op == "ite" and not isinstance(a.args[1], Term) and not isinstance(a.args[2], Term):
        return ite(a.args[0], icmp(pred, a.args[1], b, w), icmp(pred, a.args[2], b, w), 1)
    alo, ahi = (a.lo, a.hi) if ta else (a, a)
    blo, bhi = (b.lo, b.hi) if tb else (b, b)
    if pred[0] == "s":
        h = 1 << (w - 1)
        if ahi < h and bhi < h:
            pred = "u" + pred[1:]
        elif not tb and b >= h and ahi < h:  # b negative const, a nonneg
            return int(pred in ("sgt", "sge"))
    if pred == "ugt":
        pred, a, b, alo, ahi, blo, bhi = "ult", b, a, blo, bhi, alo, ahi
    elif pred == "uge":
        pred, a, b, alo, ahi, blo, bhi = "ule", b, a, blo, bhi, alo, ahi
    elif pred == "sgt":
        pred, a, b = "slt", b, a
    elif pred == "sge":
        pred, a, b = "sle", b, a
    if pred == "ult":
        if ahi < blo:
            return 1
        if alo >= bhi:
            return 0
    elif pred == "ule":
        if ahi <= blo:
            return 1
        if alo > bhi:
            return 0
    elif pred in ("eq", "ne"):
        if ahi < blo or bhi < alo:
            return int(pred == "ne")
        if isinstance(a, Term) and a.op == "zext" and a.args[0].w == 1 and not isinstance(b, Term):
            c = a.args[0]
            return (c if (b == 1) == (pred == "eq") else bnot(c)) if b in (0, 1) else int(pred == "ne")
        if w == 1:
            if not isinstance(b, Term):
                return a if (b == 1) == (pred == "eq") else bnot(a)
            if not isinstance(a, Term):
                return b if (a == 1) == (pred == "eq") else bnot(b)
        if isinstance(a, Term) and a.op == "ite" and not isinstance(b, Term):
            x, y = a.args[1], a.args[2]
            if not isinstance(x, Term) and not isinstance(y, Term):
                ex, ey = int((x == b) == (pred == "eq")), int((y == b) == (pred == "eq"))
                return ite(a.args[0], ex, ey, 1)
    t = mk("icmp", (pred, a, b), 1)
    t.aux = w
    return t


def lanes32(f, a, b, w):
    """bitwise f over a register of whole 32-bit words (a `cat`), word by word; None when neither side is one"""
    if w < 64 or w % 32 or not any(isinstance(x, Term) and x.op == "cat" for x in (a, b)):
        return None
    ab, bb = tobytes(a, w), tobytes(b, w)
    r = []
    for i in range(0, w // 8, 4):
        v = f(frombytes(list(ab[i : i + 4]), 32), frombytes(list(bb[i : i + 4]), 32), 32)
        r += list(tobytes(v, 32))
    return frombytes(r, w)


def band(a, b, w):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    ta, tb = isinstance(a, Term), isinstance(b, Term)
    if not ta and not tb:
        return a & b
    if not ta:
        a, b, ta, tb = b, a, tb, ta
    m = (1 << w) - 1
    if not tb:
        if b == 0:
            return 0
        if b == m:
            return a
        if a.op == "ite" and (not isinstance(a.args[1], Term) or not isinstance(a.args[2], Term)):
            return ite(a.args[0], band(a.args[1], b, w), band(a.args[2], b, w), w)
        r = lanes32(band, a, b, w)
        if r is not None:
            return r
        if b & (b + 1) == 0:
            return urem(a, b + 1, w)
        nb = (~b) & m
        if ACC and w == 64:
            nb &= (1 << a.hi.bit_length()) - 1
        if w > 8 and nb & (nb + 1) == 0:  # clear low bits
            if ACC and w == 64:
                return mulc(udiv(a, nb + 1, w), nb + 1, w)
            return sub(a, urem(a, nb + 1, w), w)
        bb = b.to_bytes((w + 7) // 8, "little")
        if w % 8 == 0 and all(x in (0, 255) for x in bb):
            ab = tobytes(a, w)
            return frombytes([y if x else 0 for x, y in zip(bb, ab)], w)
        return mk("and", (a, b), w, 0, min(a.hi, b))
    if a is b:
        return a
    if w == 1:
        return mk("and", (a, b) if a.id < b.id else (b, a), 1)
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and not isinstance(x.args[1], Term) and not isinstance(x.args[2], Term) and {x.args[1], x.args[2]} <= {0, m}:
            return ite(x.args[0], y if x.args[1] else 0, y if x.args[2] else 0, w)
    r = lanes32(band, a, b, w)
    if r is not None:
        return r
    return mk("and", (a, b) if a.id < b.id else (b, a), w, 0, min(a.hi, b.hi))


def bor(a, b, w):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    ta, tb = isinstance(a, Term), isinstance(b, Term)
    if not ta and not tb:
        return a | b
    if not ta:
        a, b, ta, tb = b, a, tb, ta
    m = (1 << w) - 1
    if not tb:
        if b == 0:
            return a
        if b == m:
            return m
    if a is b:
        return a
    if w == 1:
        return mk("or", (a, b) if a.id < b.id else (b, a), 1)
    if w % 8 == 0:
        ab, bb = tobytes(a, w), tobytes(b, w)
        r = []
        for x, y in zip(ab, bb):
            if x.__class__ is int and x == 0:
                r.append(y)
            elif y.__class__ is int and y == 0:
                r.append(x)
            elif x.__class__ is int and y.__class__ is int:
                r.append(x | y)
            else:
                break
        else:
            return frombytes(r, w)
    # a multiple of 2^k, b < 2^k  -> add
    if not tb and a.op == "lin":
        k = b.bit_length()
        c, ps = a.args
        if c % (1 << k) == 0 and all(q % (1 << k) == 0 for _, q in ps):
            return add(a, b, w)
    r = lanes32(bor, a, b, w)
    if r is not None:
        return r
    return mk("or", (a, b) if (not tb or a.id < b.id) else (b, a), w)


def bxor(a, b, w):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    ta, tb = isinstance(a, Term), isinstance(b, Term)
    if not ta and not tb:
        return a ^ b
    if not ta:
        a, b, ta, tb = b, a, tb, ta
    m = (1 << w) - 1
    if not tb:
        if b == 0:
            return a
        if w == 1:
            return bnot(a)
        if b == m:
            if a.op == "ite":
                return ite(a.args[0], bxor(a.args[1], b, w), bxor(a.args[2], b, w), w)
            return sub(m, a, w)
    elif a is b:
        return 0
    elif w == 1:
        return mk("xor", (a, b) if a.id < b.id else (b, a), 1)
    r = lanes32(bxor, a, b, w)
    if r is not None:
        return r
    return mk("xor", (a, b), w)


BITOP = {"and": band, "or": bor, "xor": bxor}


def shl(a, n, w):
    if a is UNDEF or n is UNDEF:
        return UNDEF
    if isinstance(n, Term):
        return mk("shl", (a, n), w)
    if n >= w:
        return UNDEF
    if isinstance(a, Term) and a.op != "lin" and w % 8 == 0 and n % 8 == 0 and n:
        bs = tobytes(a, w)
        if any(x.__class__ is int for x in bs) or a.op in ("cat", "zext"):
            return frombytes([0] * (n // 8) + list(bs[: (w - n) // 8]), w)
    return mulc(a, 1 << n, w)


def lshr(a, n, w):
    if a is UNDEF or n is UNDEF:
        return UNDEF
    if isinstance(n, Term):
        return mk("lshrv", (a, n), w)
    if n == 0:
        return a
    if n >= w:
        return UNDEF
    if not isinstance(a, Term):
        return a >> n
    if n % 8 == 0 and w % 8 == 0:
        bs = tobytes(a, w)
        if a.op in ("cat", "zext"):
            return frombytes(list(bs[n // 8 :]) + [0] * (n // 8), w)
    if a.op == "fbits" or (a.op in ("cat",)):
        return mk("lshr", (a, n), w, 0, ((1 << w) - 1) >> n)
    if a.op == "lin" and a.nowrap and all(k % (1 << n) == 0 for _, k in a.args[1]) and a.aux >= 0:
        return lin(a.aux >> n, {t: k >> n for t, k in a.args[1]}, w)
    return udiv(a, 1 << n, w)


def ashr(a, n, w):
    if a is UNDEF:
        return UNDEF
    if not isinstance(a, Term):
        return (sgn(a, w) >> n) & ((1 << w) - 1)
    if a.hi < (1 << (w - 1)):
        return lshr(a, n, w)
    if a.op == "cat" and n.__class__ is int and n % 8 == 0 and n < w and a.args[0][-1].__class__ is int:
        bs = a.args[0]
        return frombytes(list(bs[n // 8 :]) + [255 if bs[-1] & 128 else 0] * (n // 8), w)
    return mk("ashr", (a, n), w)


def sat(op, t, w_in, w_out):
    """satu16: signed w_in -> unsigned saturated w_out ; sats: signed saturation"""
    if t is UNDEF:
        return UNDEF
    if not isinstance(t, Term):
        v = sgn(t, w_in)
        if op == "satu":
            return max(0, min(v, (1 << w_out) - 1))
        h = 1 << (w_out - 1)
        return max(-h, min(v, h - 1)) & ((1 << w_out) - 1)
    if t.hi < (1 << (w_in - 1)):
        lim = (1 << w_out) - 1 if op == "satu" else (1 << (w_out - 1)) - 1
        if t.hi <= lim:
            return trunc(t, w_out)
    hi = (1 << w_out) - 1
    return mk(op, (t, w_in), w_out, 0, hi)


def f2i(kind, x, w):
    """kind: rne / tr -> signed 32-bit with 0x80000000 on overflow; usat / ssat: truncating saturating"""
    if x is UNDEF:
        return UNDEF
    if x.op == "fc":
        v = float(f32(x.args[0]))
        if kind in ("usat", "ssat"):
            if np.isnan(v):
                return 0
            lo, hi = (0, (1 << w) - 1) if kind == "usat" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            if v <= lo:
                return lo & ((1 << w) - 1)
            if v >= hi:
                return hi
            return int(v) & ((1 << w) - 1)
        if np.isnan(v) or np.isinf(v):
            return 1 << (w - 1)
        n = int(np.rint(v)) if kind == "rne" else int(v)
        if not -(1 << (w - 1)) <= n < (1 << (w - 1)):
            return 1 << (w - 1)
        return n & ((1 << w) - 1)
    return mk("f2i_" + kind, (x,), w)


def minmax(op, a, b, w):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if not isinstance(a, Term) and not isinstance(b, Term):
        if op[0] == "s":
            x, y = sgn(a, w), sgn(b, w)
        else:
            x, y = a, b
        return (min(x, y) if op.endswith("min") else max(x, y)) & ((1 << w) - 1)
    if op == "umin":
        return ite(icmp("ult", a, b, w), a, b, w)
    if op == "umax":
        return ite(icmp("ult", a, b, w), b, a, w)
    if op == "smin":
        return ite(icmp("slt", a, b, w), a, b, w)
    return ite(icmp("slt", a, b, w), b, a, w)
