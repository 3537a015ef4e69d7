"""Solver verdict for one box of the branch and prune (uni.py)."""
import math
from fractions import Fraction as Q
import z3
from . import smt, uni, curves

# ---------------------------------------------------------------- solver verdict for one box
class Judge:
    """|a - b| <= abs + rel * |b| for all t, eps"""

    def __init__(self):
        self.s = z3.Solver()
        self.t, self.ea, self.eb = z3.Reals("t ea eb")
        self.a, self.b = z3.Reals("a b")
        self.tol = z3.Real("tol")
        for v in (self.t, self.ea, self.eb):
            self.s.add(v >= -1, v <= 1)
        self.queries = 0

    def form(self, v, x, e):
        z = []
        if v.c is not None:
            z.append(x == R(v.c) + R(v.s) * self.t + R(v.e) * e)
        if math.isfinite(v.lo):
            z.append(x >= R(v.lo))
        if math.isfinite(v.hi):
            z.append(x <= R(v.hi))
        return z

    def close(self, a, b, ab, rel):
        if a.nan or b.nan:
            return False
        # cheap look first: is it worth asking the solver
        m = min(abs(b.lo), abs(b.hi)) if b.lo * b.hi > 0 else 0.0
        tol = ab + rel * m
        d = max(a.hi - b.lo, b.hi - a.lo)
        if d > tol:
            if a.c is None or b.c is None:
                return False
            d2 = abs(a.c - b.c) + abs(a.s - b.s) + a.e + b.e
            if min(d, d2) > tol:
                return False
        self.s.push()
        self.s.add(*self.form(a, self.a, self.ea), *self.form(b, self.b, self.eb))
        lim = R(ab) + R(rel) * z3.If(self.b >= 0, self.b, -self.b)
        self.s.add(z3.Or(self.a - self.b > lim, self.b - self.a > lim))
        r = smt.checked(self.s)
        self.s.pop()
        return r == z3.unsat


def R(x):
    return z3.RealVal(str(Q(x)))


# how far an implementation may be from the curve: (absolute, relative), rounding of single precision included
TOL = {(c, d): (4e-6, 4e-6) for c in ("Gamma22", "Gamma28", "SRGB", "SDR", "HLG") for d in (0, 1)}
TOL["PQ", 0] = (6e-5, 6e-5)
TOL["PQ", 1] = (1e-4, 6e-4)


COARSE = True


def prove_curve(root, cut, curve, d, lo=None, hi=None, budget=40000, tol=None):
    """is `root`, as a function of its node `cut`, the named curve on the whole domain?"""
    P = uni.Prog(root, [cut])
    ref = curves.STD[curve][d]
    top = curves.top(curve) if d == 0 else 1.0
    lo = 0.0 if lo is None else lo
    hi = top if hi is None else hi
    J = Judge()
    tol = tol or TOL[curve, d]
    z = curves.ZONE.get((curve, d))
    pieces = [(lo, hi)] if not z else [(lo, z[0]), (z[0], z[1]), (z[1], hi)]

    def evalf(x, refine, coarse):
        m = uni.evaluate(P, x, refine, coarse)
        return m[root], uni.Ref(ref)(x, refine)

    def judge(out, r, box):
        ab, rel = tol
        if z and box[0] >= z[0] and box[1] <= z[1]:
            ab = z[2]
        return J.close(out[0], out[1], ab, rel)

    return uni.prove(evalf, lo, hi, judge, pieces=pieces, budget=budget, coarse_first=COARSE)


def prove_not_nan(root, cut, budget=40000, bound=uni.FMAX):
    """no finite value of `cut` makes `root` a NaN"""
    P = uni.Prog(root, [cut])

    def evalf(x, refine, coarse):
        return uni.evaluate(P, x, refine, coarse)[root]

    def judge(out, r, box):
        return not out.nan

    b = [0.0] + [2.0**k for k in range(-140, 127, 3)] + [bound]
    pieces = [(-q, -p) for p, q in zip(b[:-1], b[1:])] + [(p, q) for p, q in zip(b[:-1], b[1:])]
    return uni.prove(evalf, None, None, judge, pieces=pieces, budget=budget, coarse_first=True)
