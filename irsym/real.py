"""Rounding-aware real abstraction of terms: affine forms over the inputs with rigorous bounds on the accumulated
rounding error, encoded into linear real arithmetic (z3).  Everything is an over-approximation of the machine's
behaviour: `unsat` for "specification violated" is a verdict for all inputs, `sat` is a candidate to be replayed."""
import time
from fractions import Fraction as Q
import z3
from . import terms as T
from .terms import Term
from .smt import STATS

U = Q(1, 1 << 24)
ETA = Q(1, 1 << 149)
F32MAX = Q((1 << 24) - 1) * Q(2) ** 104


class Nonlinear(Exception):
    """term outside the linear fragment"""


class A:
    """affine form: sum coef*atom + c, true value within err of it; hull lo..hi of the true value"""

    __slots__ = ("co", "c", "err", "lo", "hi", "m")

    def __init__(self, co, c, err, lo, hi):
        self.co = co
        self.c = c
        self.err = err
        self.lo = lo
        self.hi = hi
        self.m = None


def q(x):
    return z3.RealVal(f"{x.numerator}/{x.denominator}")


class Enc:
    def __init__(self, ints=False, timeout_ms=20000):
        self.s = z3.Solver()
        self.s.set("timeout", timeout_ms)
        self.ints = ints
        self.atoms = {}  # key -> (z3 expr, lo, hi)
        self.memo = {}
        self.n = 0
        self.inputs = {}
        self.scope = {}
        self.cuts = {}

    # ---- atoms
    def input(self, name, lo, hi):
        k = ("in", name)
        if k not in self.atoms:
            isint = self.ints and name[0] != "@"
            x = z3.ToReal(z3.Int(name)) if isint else z3.Real(name)
            lo, hi = Q(lo), Q(hi)
            self.s.add(x >= q(lo), x <= q(hi))
            self.atoms[k] = (x, lo, hi)
            self.inputs[name] = (z3.Int(name) if isint else x, lo, hi)
        return k

    def fresh(self, lo, hi, p="a", integer=False):
        self.n += 1
        k = (p, self.n)
        if integer and self.ints:
            x = z3.ToReal(z3.Int(f"{p}!{self.n}"))
        else:
            x = z3.Real(f"{p}!{self.n}")
        self.s.add(x >= q(lo), x <= q(hi))
        self.atoms[k] = (x, lo, hi)
        return k

    def of(self, k):
        x, lo, hi = self.atoms[k]
        return A({k: Q(1)}, Q(0), Q(0), lo, hi)

    def hull(self, co, c, err):
        lo = hi = c
        for k, v in co.items():
            _, l, h = self.atoms[k]
            if v >= 0:
                lo += v * l
                hi += v * h
            else:
                lo += v * h
                hi += v * l
        return lo - err, hi + err

    def const(self, v):
        return A({}, v, Q(0), v, v)

    def z(self, a):
        """z3 expression of the true value (introduces the error variable)"""
        if a.m is None:
            e = z3.Sum([q(v) * self.atoms[k][0] for k, v in a.co.items()] + [q(a.c)]) if a.co else q(a.c)
            if a.err:
                self.n += 1
                x = z3.Real(f"e!{self.n}")
                self.s.add(x >= q(-a.err), x <= q(a.err))
                e = e + x
            a.m = e
        return a.m

    # ---- rounding
    def rnd(self, co, c, err, lo=None, hi=None, exact=False):
        l, h = self.hull(co, c, err)
        if lo is not None:
            l = max(l, lo)
            h = min(h, hi)
        if not exact:
            r = U * max(abs(l), abs(h)) + ETA
            err = err + r
            l -= r
            h += r
        if max(abs(l), abs(h)) > F32MAX:
            raise Nonlinear("overflow")
        # keep the numbers small: outward rounding of the error bound
        err = Q(int(err * (1 << 200)) + 1, 1 << 200) if err else err
        return A({k: v for k, v in co.items() if v}, c, err, l, h)

    def lincomb(self, parts, exact=False):
        co = {}
        c = Q(0)
        err = Q(0)
        lo = hi = Q(0)
        for a, k in parts:
            for x, v in a.co.items():
                co[x] = co.get(x, 0) + v * k
            c += a.c * k
            err += a.err * abs(k)
            lo += a.lo * k if k >= 0 else a.hi * k
            hi += a.hi * k if k >= 0 else a.lo * k
        return self.rnd(co, c, err, lo, hi, exact)

    # ---- terms
    def f(self, t):
        """float term -> A"""
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._f(t)
        return r

    def _f(self, t):
        op = t.op
        a = t.args
        if op == "fc":
            v = float(T.f32(a[0]))
            if v != v or v in (float("inf"), float("-inf")):
                raise Nonlinear("non-finite constant")
            return self.const(Q(v))
        if op in ("fadd", "fsub"):
            x, y = self.f(a[0]), self.f(a[1])
            return self.lincomb([(x, Q(1)), (y, Q(1) if op == "fadd" else Q(-1))])
        if op in ("fmul", "fdiv", "fma"):
            x, y = self.f(a[0]), self.f(a[1])
            if op != "fdiv" and not x.co and x.err == 0:
                x, y = y, x
            if y.co or y.err:
                raise Nonlinear(op)
            k = y.c
            if op == "fdiv":
                if k == 0:
                    raise Nonlinear("division by zero")
                k = 1 / k
            if op == "fma":
                return self.lincomb([(x, k), (self.f(a[2]), Q(1))])
            n, d = abs(k.numerator), k.denominator
            pow2 = n != 0 and n & (n - 1) == 0 and d & (d - 1) == 0
            r = self.lincomb([(x, k)], exact=pow2)
            if pow2:
                r.err += ETA
            return r
        if op == "bits2f" and a[0].__class__ is Term and a[0].op == "var" and a[0].args[0] in self.cuts:
            n = a[0].args[0]
            return self.of(self.input(n, *self.cuts[n]))
        if op == "fneg":
            return self.lincomb([(self.f(a[0]), Q(-1))], exact=True)
        if op == "i2f":
            x = self.i(a[0], bool(a[1]))
            return self.rnd(x.co, x.c, x.err, x.lo, x.hi, exact=max(abs(x.lo), abs(x.hi)) <= 1 << 24)
        if op == "fite":
            return self.fite(t)
        if op in ("max", "min", "xmax", "xmin"):
            x, y = self.f(a[0]), self.f(a[1])
            mx = op.endswith("max")
            if x.lo >= y.hi:
                return x if mx else y
            if y.lo >= x.hi:
                return y if mx else x
            lo, hi = (max(x.lo, y.lo), max(x.hi, y.hi)) if mx else (min(x.lo, y.lo), min(x.hi, y.hi))
            k = self.fresh(lo, hi, "m")
            r = self.atoms[k][0]
            zx, zy = self.z(x), self.z(y)
            self.s.add(r == (z3.If(zx >= zy, zx, zy) if mx else z3.If(zx <= zy, zx, zy)))
            return self.of(k)
        if op == "fabs":
            x = self.f(a[0])
            if x.lo >= 0:
                return x
            k = self.fresh(Q(0), max(abs(x.lo), abs(x.hi)), "m")
            zx = self.z(x)
            self.s.add(self.atoms[k][0] == z3.If(zx >= 0, zx, -zx))
            return self.of(k)
        if op in ("rint", "floor", "ceil", "trunc", "round") and t.w == 0:
            x = self.f(a[0])
            return self.of(self.toint(x, {"rint": "rne", "round": "rne", "trunc": "tr"}.get(op, op)))
        raise Nonlinear(op)

    def refine(self, c, x, pos):
        """hull of float term x under the assumption that the comparison c is pos"""
        lo, hi = self.f(x).lo, self.f(x).hi
        if c.op == "fcmp" and c.args[0][1:] in ("lt", "le"):
            p, a, b = c.args
            if a is x and b.op == "fc":
                k = self.f(b).c
                lo, hi = (lo, min(hi, k)) if pos else (max(lo, k), hi)
            elif b is x and a.op == "fc":
                k = self.f(a).c
                lo, hi = (max(lo, k), hi) if pos else (lo, min(hi, k))
        return lo, hi

    def fite(self, t):
        c, x, y = t.args
        cond = self.b(c)
        if cond is True:
            return self.f(x)
        if cond is False:
            return self.f(y)
        ax, ay = self.f(x), self.f(y)
        lx, hx = self.refine(c, x, True)
        ly, hy = self.refine(c, y, False)
        k = self.fresh(min(lx, ly), max(hx, hy), "i")
        self.s.add(self.atoms[k][0] == z3.If(cond, self.z(ax), self.z(ay)))
        return self.of(k)

    def b(self, t):
        """boolean term -> z3 Bool, True or False"""
        if not isinstance(t, Term):
            return bool(t)
        k = ("b", t)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self._b(t)
        return r

    def _b(self, t):
        op = t.op
        if op == "fcmp":
            p, a, b = t.args
            x, y = self.f(a), self.f(b)
            if p == "ord":
                return True
            if p == "uno":
                return False
            p = p[1:]
            if p in ("lt", "le"):
                if x.hi < y.lo:
                    return True
                if x.lo > y.hi or (p == "lt" and x.lo >= y.hi):
                    return False
            zx, zy = self.z(x), self.z(y)
            return {"lt": zx < zy, "le": zx <= zy, "eq": zx == zy, "ne": zx != zy}[p]
        if op == "icmp":
            p, a, b = t.args
            s = p[0] == "s"
            x, y = self.i(a, s, t.aux), self.i(b, s, t.aux)
            zx, zy = self.z(x), self.z(y)
            return {"eq": zx == zy, "ne": zx != zy, "lt": zx < zy, "le": zx <= zy, "gt": zx > zy, "ge": zx >= zy}[p if p in ("eq", "ne") else p[1:]]
        if op == "not":
            x = self.b(t.args[0])
            return (not x) if isinstance(x, bool) else z3.Not(x)
        if op in ("and", "or", "xor"):
            x, y = self.b(t.args[0]), self.b(t.args[1])
            if op == "xor":
                return z3.Xor(x if not isinstance(x, bool) else z3.BoolVal(x), y if not isinstance(y, bool) else z3.BoolVal(y))
            for p, o in ((x, y), (y, x)):
                if isinstance(p, bool):
                    if op == "and":
                        return o if p else False
                    return True if p else o
            return z3.And(x, y) if op == "and" else z3.Or(x, y)
        if op == "ite":
            c = self.b(t.args[0])
            x, y = self.b(t.args[1]), self.b(t.args[2])
            zb = lambda v: z3.BoolVal(v) if isinstance(v, bool) else v
            if isinstance(c, bool):
                return x if c else y
            return z3.If(c, zb(x), zb(y))
        raise Nonlinear("bool " + op)

    def toint(self, x, kind):
        """integer atom obtained by rounding the real x"""
        import math

        lo = Q(math.floor(x.lo))
        hi = Q(math.ceil(x.hi))
        k = self.fresh(lo, hi, "n", True)
        n = self.atoms[k][0]
        v = self.z(x)
        if kind == "rne":
            self.s.add(n - v <= q(Q(1, 2)), v - n <= q(Q(1, 2)))
        elif kind == "floor" or (kind == "tr" and x.lo >= 0):
            self.s.add(n <= v, v < n + 1)
        elif kind == "ceil" or (kind == "tr" and x.hi <= 0):
            self.s.add(n >= v, v > n - 1)
        else:
            self.s.add(z3.If(v >= 0, z3.And(n <= v, v < n + 1, n >= 0), z3.And(n >= v, v > n - 1, n <= 0)))
        return k

    def clampz(self, x, lo, hi):
        if x.lo >= lo and x.hi <= hi:
            return x
        lo, hi = Q(lo), Q(hi)
        k = self.fresh(max(lo, min(x.lo, hi)), min(hi, max(x.hi, lo)), "s")
        v = self.z(x)
        e = v
        if x.hi > hi:
            e = z3.If(v > q(hi), q(hi), e)
        if x.lo < lo:
            e = z3.If(v < q(lo), q(lo), e)
        self.s.add(self.atoms[k][0] == e)
        return self.of(k)

    def i(self, t, signed=False, w=None):
        """integer term -> A of its unsigned (signed=False) or two's complement value"""
        if not isinstance(t, Term):
            return self.const(Q(T.sgn(t, w) if signed and w else t))
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._i(t)
        # r is some representative; check that it is the one wanted
        if signed:
            h = 1 << (t.w - 1)
            if r.lo >= -h and r.hi < h:
                return r
            raise Nonlinear("signed range of " + t.op)
        if r.lo >= 0 and r.hi < (1 << t.w):
            return r
        raise Nonlinear("unsigned range of " + t.op)

    def rep(self, t):
        """any representative of the value modulo 2^w"""
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._i(t)
        return r

    def sminmax(self, t):
        """ite(x <s k, k, x) and its variants: signed clamping against a constant"""
        c, x, y = t.args
        if not (isinstance(c, Term) and c.op == "icmp" and c.aux == t.w and c.args[0] in ("slt", "sle", "sgt", "sge")):
            return None
        p, l, r = c.args
        if not isinstance(l, Term):
            l, r = r, l
            p = {"slt": "sgt", "sle": "sge", "sgt": "slt", "sge": "sle"}[p]
        if not isinstance(l, Term) or isinstance(r, Term):
            return None
        if x == r and y is l:
            kind = "max" if p in ("slt", "sle") else "min"
        elif y == r and x is l:
            kind = "min" if p in ("slt", "sle") else "max"
        else:
            return None
        v = self.i(l, True)
        k = Q(T.sgn(r, t.w))
        return self.clampz(v, k, max(v.hi, k)) if kind == "max" else self.clampz(v, min(v.lo, k), k)

    def _i(self, t):
        op = t.op
        a = t.args
        if op == "var":
            return self.of(self.input(a[0], t.lo, t.hi))
        if op == "zext":
            if a[0].w == 1:
                return self.boolint(a[0])
            return self.i(a[0])
        if op == "sext":
            return self.i(a[0], True)
        if op == "trunc":
            x = self.i(a[0], True) if a[0] in self.memo and self.memo[a[0]].lo < 0 else self.i(a[0])
            if x.lo >= 0 and x.hi < (1 << t.w):
                return x
            raise Nonlinear("trunc")
        if op == "lin" and t.nowrap:
            return self.lincomb([(self.i(x), Q(k)) for x, k in a[1]] + [(self.const(Q(t.aux)), Q(1))], exact=True)
        if op == "ite":
            m = self.sminmax(t)
            if m is not None:
                return m
            c = self.b(a[0])
            x, y = [self.rep(v) if isinstance(v, Term) else self.const(Q(v)) for v in a[1:]]
            if isinstance(c, bool):
                return x if c else y
            k = self.fresh(min(x.lo, y.lo), max(x.hi, y.hi), "i", True)
            self.s.add(self.atoms[k][0] == z3.If(c, self.z(x), self.z(y)))
            return self.of(k)
        if op in ("f2i_rne", "f2i_tr"):
            x = self.f(a[0])
            h = 1 << (t.w - 1)
            if not (x.lo > -h + 1 and x.hi < h - 1):
                raise Nonlinear("float to integer out of range")
            return self.of(self.toint(x, op[4:]))
        if op in ("f2i_usat", "f2i_ssat"):
            x = self.f(a[0])
            lo, hi = (0, (1 << t.w) - 1) if op == "f2i_usat" else (-(1 << (t.w - 1)), (1 << (t.w - 1)) - 1)
            return self.clampz(self.of(self.toint(x, "tr")), lo, hi)
        if op in ("satu", "sats"):
            x = self.i(a[0], True)
            lo, hi = (0, (1 << t.w) - 1) if op == "satu" else (-(1 << (t.w - 1)), (1 << (t.w - 1)) - 1)
            return self.clampz(x, lo, hi)
        if op == "satuu":
            return self.clampz(self.i(a[0]), 0, (1 << t.w) - 1)
        if op == "cat":
            # low bytes of one wider value that is known to be small enough, or separate bytes
            bs = a[0]
            ts = {b[0] for b in bs if b.__class__ is tuple}
            if len(ts) == 1 and all(b.__class__ is tuple and b[1] == j for j, b in enumerate(bs)):
                x = self.i(next(iter(ts)))
                if x.hi < (1 << t.w):
                    return x
            parts = []
            for j, b in enumerate(bs):
                if b.__class__ is tuple:
                    if b[0].w != 8:
                        raise Nonlinear("cat")
                    parts.append((self.i(b[0]), Q(1 << (8 * j))))
                elif b:
                    parts.append((self.const(Q(b << (8 * j))), Q(1)))
            return self.lincomb(parts, exact=True)
        if op == "byte":
            x = self.i(a[0])
            if a[1] == 0 and x.hi < 256:
                return x
            k = 1 << (8 * a[1])
            # (x // k) mod 256
            if x.hi < k * 256:
                n = self.toint(self.lincomb([(x, Q(1, k))], exact=True), "floor")
                return self.of(n)
            raise Nonlinear("byte")
        if op == "udiv" and not isinstance(a[1], Term):
            return self.of(self.toint(self.lincomb([(self.i(a[0]), Q(1, a[1]))], exact=True), "floor"))
        raise Nonlinear(op)

    def boolint(self, c):
        b = self.b(c)
        if isinstance(b, bool):
            return self.const(Q(int(b)))
        k = self.fresh(Q(0), Q(1), "b", True)
        self.s.add(self.atoms[k][0] == z3.If(b, z3.RealVal(1), z3.RealVal(0)))
        return self.of(k)

    def affine(self, coefs, c):
        """exact affine specification over named inputs: coefs = [(name, lo, hi, Fraction)]"""
        co = {}
        for name, lo, hi, v in coefs:
            k = self.input(name, lo, hi)
            co[k] = co.get(k, 0) + v
        l, h = self.hull(co, c, Q(0))
        return A(co, c, Q(0), l, h)

    def check(self, *conds):
        t = time.time()
        r = self.s.check(*conds)
        STATS["queries"] += 1
        STATS["time"] += time.time() - t
        if r == z3.unknown:
            STATS["unknown"] += 1
        return r

    def model(self):
        m = self.s.model()
        out = {}
        for n, (x, lo, hi) in self.inputs.items():
            v = m.eval(x, model_completion=True)
            v = Q(v.as_long()) if z3.is_int_value(v) else Q(v.numerator_as_long(), v.denominator_as_long())
            out[n] = max(lo, min(hi, v)) if n[0] == "@" else max(int(lo), min(int(hi), int(v + Q(1, 2))))
        return out
