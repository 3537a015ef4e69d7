"""Bit-precise encoding of terms into z3's theories of bit-vectors and IEEE-754 single precision."""
import z3
from . import terms as T
from .terms import Term

F32 = z3.Float32()
RNE = z3.RNE()
RTZ = z3.RTZ()


class Unencodable(Exception):
    pass


TRANS = ("pow", "exp", "exp2", "log", "log2", "log10", "cbrt", "sin", "cos", "tanh", "exp_m1", "log1p")
ARITH = TRANS + ("fadd", "fsub", "fmul", "fdiv", "fma", "i2f", "sqrt", "fneg", "fabs", "bits2f")


class Enc:
    def __init__(self, timeout_ms=60000, free=()):
        """free: operators whose result is left unconstrained (any float, NaN and infinities included)"""
        self.free = free
        self.s = z3.SolverFor("QF_BVFP")
        self.s.set("timeout", timeout_ms)
        self.memo = {}
        self.inputs = {}

    def e(self, t, w=None):
        if not isinstance(t, Term):
            return z3.BitVecVal(t, w) if w > 1 else z3.BoolVal(bool(t))
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._e(t)
        return r

    def bv(self, t, w):
        x = self.e(t, w)
        if z3.is_bool(x):
            x = z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        return x

    def _e(self, t):
        op, a, w = t.op, t.args, t.w
        if op in self.free and w == 0:
            return z3.FP(f"free!{len(self.memo)}", F32)
        if op == "var":
            x = z3.BitVec(a[0], w)
            self.inputs[a[0]] = (x, t.lo, t.hi)
            if t.hi < (1 << w) - 1:
                self.s.add(z3.ULE(x, t.hi))
            if t.lo:
                self.s.add(z3.UGE(x, t.lo))
            return x
        if op == "fc":
            return z3.fpBVToFP(z3.BitVecVal(a[0], 32), F32)
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            return {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}[op](RNE, self.e(a[0]), self.e(a[1]))
        if op == "fma":
            return z3.fpFMA(RNE, *[self.e(x) for x in a])
        if op == "fneg":
            return z3.fpNeg(self.e(a[0]))
        if op == "fabs":
            return z3.fpAbs(self.e(a[0]))
        if op == "sqrt":
            return z3.fpSqrt(RNE, self.e(a[0]))
        if op in ("rint", "floor", "ceil", "trunc") and w == 0:
            return z3.fpRoundToIntegral({"rint": RNE, "floor": z3.RTN(), "ceil": z3.RTP(), "trunc": RTZ}[op], self.e(a[0]))
        if op == "i2f":
            x = self.bv(a[0], a[0].w)
            return z3.fpSignedToFP(RNE, x, F32) if a[1] else z3.fpUnsignedToFP(RNE, x, F32)
        if op == "fite":
            return z3.If(self.e(a[0]), self.e(a[1]), self.e(a[2]))
        if op in ("xmax", "xmin"):
            x, y = self.e(a[0]), self.e(a[1])
            return z3.If(z3.fpGT(x, y) if op == "xmax" else z3.fpLT(x, y), x, y)
        if op in ("max", "min"):
            x, y = self.e(a[0]), self.e(a[1])
            c = z3.If(z3.fpIsNaN(y), x, z3.If(z3.fpIsNaN(x), y, z3.If(z3.fpGEQ(x, y) if op == "max" else z3.fpLEQ(x, y), x, y)))
            return c
        if op == "fcmp":
            p, x, y = a[0], self.e(a[1]), self.e(a[2])
            if p == "uno":
                return z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
            if p == "ord":
                return z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y)))
            c = {"lt": z3.fpLT, "le": z3.fpLEQ, "eq": z3.fpEQ, "ne": lambda u, v: z3.And(z3.Not(z3.fpEQ(u, v)), z3.Not(z3.fpIsNaN(u)), z3.Not(z3.fpIsNaN(v)))}[p[1:]](x, y)
            if p[0] == "u":
                c = z3.Or(c, z3.fpIsNaN(x), z3.fpIsNaN(y))
            return c
        if op in ("f2i_rne", "f2i_tr"):
            x = self.e(a[0])
            h = float(1 << (w - 1))
            ok = z3.And(z3.fpLT(x, z3.FPVal(h, F32)), z3.fpGEQ(x, z3.FPVal(-h, F32)))
            return z3.If(ok, z3.fpToSBV(RNE if op == "f2i_rne" else RTZ, x, z3.BitVecSort(w)), z3.BitVecVal(1 << (w - 1), w))
        if op == "f2i_usat":
            x = self.e(a[0])
            return z3.If(z3.Or(z3.fpIsNaN(x), z3.fpLEQ(x, z3.FPVal(0.0, F32))), z3.BitVecVal(0, w), z3.If(z3.fpGEQ(x, z3.FPVal(float(1 << w), F32)), z3.BitVecVal((1 << w) - 1, w), z3.fpToUBV(RTZ, x, z3.BitVecSort(w))))
        if op == "bits2f":
            return z3.fpBVToFP(self.bv(a[0], 32), F32)
        if op == "icmp":
            ww = t.aux
            x, y = self.bv(a[1], ww), self.bv(a[2], ww)
            if z3.is_bool(x) or z3.is_bool(y):
                raise Unencodable("bool icmp")
            return {"eq": lambda: x == y, "ne": lambda: x != y, "ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y), "ugt": lambda: z3.UGT(x, y), "uge": lambda: z3.UGE(x, y), "slt": lambda: x < y, "sle": lambda: x <= y, "sgt": lambda: x > y, "sge": lambda: x >= y}[a[0]]()
        if op == "not":
            return z3.Not(self.e(a[0]))
        if op in ("and", "or", "xor"):
            if w == 1:
                x, y = self.e(a[0], 1), self.e(a[1], 1)
                return {"and": z3.And, "or": z3.Or, "xor": z3.Xor}[op](x, y)
            x, y = self.bv(a[0], w), self.bv(a[1], w)
            return x & y if op == "and" else x | y if op == "or" else x ^ y
        if op == "ite":
            return z3.If(self.e(a[0], 1), self.e(a[1], w), self.e(a[2], w))
        if op == "zext":
            x = self.bv(a[0], a[0].w)
            return z3.ZeroExt(w - x.size(), x)
        if op == "sext":
            x = self.bv(a[0], a[0].w)
            return z3.SignExt(w - x.size(), x)
        if op == "trunc":
            x = z3.Extract(w - 1, 0, self.bv(a[0], a[0].w))
            return x == 1 if w == 1 else x
        if op == "lin":
            s = z3.BitVecVal(a[0], w)
            for x, k in a[1]:
                s = s + self.bv(x, w) * z3.BitVecVal(k & ((1 << w) - 1), w)
            return s
        if op == "satu" or op == "sats":
            x = self.bv(a[0], a[1])
            n = a[1]
            lo, hi = (0, (1 << w) - 1) if op == "satu" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            return z3.If(x < lo, z3.BitVecVal(lo, w), z3.If(x > hi, z3.BitVecVal(hi, w), z3.Extract(w - 1, 0, x)))
        if op == "satuu":
            x = self.bv(a[0], a[1])
            m = (1 << w) - 1
            return z3.If(z3.UGT(x, m), z3.BitVecVal(m, w), z3.Extract(w - 1, 0, x))
        if op == "cat":
            ps = []
            for b in a[0]:
                if b.__class__ is tuple:
                    if b[0].w == 0:
                        raise Unencodable("float byte")
                    x = self.bv(b[0], b[0].w)
                    if x.size() < 8 * b[1] + 8:
                        x = z3.ZeroExt(8 * b[1] + 8 - x.size(), x)
                    ps.append(z3.Extract(8 * b[1] + 7, 8 * b[1], x))
                else:
                    ps.append(z3.BitVecVal(b, 8))
            return z3.Concat(*reversed(ps)) if len(ps) > 1 else ps[0]
        if op == "byte":
            x = self.bv(a[0], a[0].w)
            return z3.Extract(8 * a[1] + 7, 8 * a[1], x)
        if op in ("udiv", "urem", "mul"):
            x, y = self.bv(a[0], w), self.bv(a[1], w)
            return x * y if op == "mul" else z3.UDiv(x, y) if op == "udiv" else z3.URem(x, y)
        if op in ("lshr", "ashr"):
            x = self.bv(a[0], w)
            return z3.LShR(x, a[1]) if op == "lshr" else x >> a[1]
        raise Unencodable(op)
