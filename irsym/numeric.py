"""Deciding one output sample: canonical classes, linear real arithmetic with rounding errors, FP theory as the exact back-up."""
import time
from fractions import Fraction as Q
import z3
from . import terms as T, real, fpenc, evalc
from .terms import Term
from .smt import STATS

_canon = {}


def canon(t, order=None):
    """(class id, variable names in order of first occurrence); equal ids = equal up to renaming of the inputs"""
    order = {} if order is None else order
    memo = {}

    def sub(a):
        if isinstance(a, Term):
            return ("t", memo[a])
        if a.__class__ is tuple:
            return tuple(sub(x) for x in a)
        return a

    stack = [t]
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop()
            continue
        ks = [k for k in evalc.kids(x) if k not in memo]
        if ks:
            stack.extend(reversed(ks))
            continue
        stack.pop()
        if x.op == "var":
            key = ("var", order.setdefault(x.args[0], len(order)), x.w, x.lo, x.hi)
        else:
            key = (x.op, tuple(sub(a) for a in x.args), x.w, x.aux)
        memo[x] = _canon.setdefault(key, len(_canon))
    return memo[t], order


def variables(t, memo=None):
    """{name: var term} of a term"""
    out = {}
    seen = set()
    stack = [t] if isinstance(t, Term) else []
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "var":
            out[x.args[0]] = x
        else:
            stack.extend(evalc.kids(x))
    return out


class Verdict:
    __slots__ = ("ok", "env", "why", "how")

    def __init__(self, ok, env=None, why="", how=""):
        self.ok = ok  # True / False (candidate in env) / None (undecided)
        self.env = env
        self.why = why
        self.how = how


def clamp(v, lo, hi):
    return max(lo, min(hi, v))


def spec_value(aff, env):
    return aff.c + sum(v * env.get(n, 0) for n, v in aff.co.items())


def bad_value(kind, out, aff, env, hi, tol):
    """does the concrete output violate the specification?"""
    if kind == "range":
        return out > hi
    v = spec_value(aff, env)
    if kind == "equal":
        return out != v
    return abs(out - clamp(v, 0, hi)) > tol


def decide(t, kind, aff, hi, tol, ranges):
    """t: integer output term (or int).  kind: within | equal | range.  ranges: name -> (lo, hi) of spec inputs"""
    if not isinstance(t, Term):
        env = {n: ranges[n][0] for n in (aff.co if aff else ())}
        if kind == "range":
            return Verdict(t <= hi, env, how="constant")
        if not aff.co:
            return Verdict(not bad_value(kind, t, aff, env, hi, tol), env, how="constant")
    if kind == "equal" and isinstance(t, Term) and t.op == "var" and aff.co == {t.args[0]: 1} and aff.c == 0:
        return Verdict(True, how="identical")
    if kind == "range" and isinstance(t, Term) and t.hi <= hi:
        return Verdict(True, how="type")
    why = ""
    if kind == "range":
        # every float value that reaches the final clamping left unconstrained: cheap, and complete for clamped writers
        v = decide_fp(t, kind, aff, hi, tol, ranges, free=fpenc.ARITH)
        if v.ok is not None:
            v.how = "FP-abstract"
            return v
    for ints in (False, True):
        try:
            enc = real.Enc(ints=ints, timeout_ms=10000 if ints else 20000)
            o = enc.i(t) if isinstance(t, Term) else enc.const(Q(t))
            zo = enc.z(o)
            if kind == "range":
                conds = [zo >= hi + 1]
            else:
                sp = enc.affine([(n, *ranges[n], v) for n, v in aff.co.items()], aff.c)
                if kind == "within":
                    sp = enc.clampz(sp, 0, hi)
                zs = enc.z(sp)
                d = real.q(Q(tol) if kind == "within" else Q(1))
                conds = [zo - zs > d, zs - zo > d] if kind == "within" else [zo - zs >= d, zs - zo >= d]
        except real.Nonlinear as e:
            why = f"outside the linear fragment: {e}"
            break
        cands = []
        undecided = False
        for c in conds:
            r = enc.check(c)
            if r == z3.unsat:
                continue
            if r == z3.unknown:
                undecided = True
                continue
            cands.append(enc.model())
            # look for a violation with a clear margin as well
            if kind == "within":
                for mg in (Q(1, 2), Q(1)):
                    c2 = (zo - zs if c is conds[0] else zs - zo) > d + real.q(mg)
                    if enc.check(c2) != z3.sat:
                        break
                    cands.append(enc.model())
        if not cands and not undecided:
            return Verdict(True, how="LRA" if not ints else "LIRA")
        for env in reversed(cands):
            full = {n: env.get(n, lo) for n, (lo, h) in ranges.items()}
            full.update(env)
            out = evalc.ev(t, full)
            if bad_value(kind, out, aff, full, hi, tol):
                return Verdict(False, full, how="LRA")
        why = "relaxation too coarse"
    v = decide_fp(t, kind, aff, hi, tol, ranges, free=fpenc.TRANS)
    return v if v.ok is not None else Verdict(None, why=why + "; " + v.why)


class FPBudget:
    """bit-precise queries can be slow: a limited amount of solver time per job"""

    limit = 90.0
    used = 0.0


def fp_budget():
    left = FPBudget.limit - FPBudget.used
    return 0 if left <= 0 else int(1000 * min(30, max(left, 3)))


def decide_fp(t, kind, aff, hi, tol, ranges, timeout_ms=None, free=()):
    timeout_ms = timeout_ms or fp_budget()
    if not timeout_ms:
        return Verdict(None, why="no time left for bit-precise queries")
    try:
        enc = fpenc.Enc(timeout_ms, free)
        x = enc.bv(t, t.w)
        W = 40
        xo = z3.ZeroExt(W - t.w, x)
        if kind == "range":
            bad = z3.UGT(xo, hi)
        else:
            den = 1
            for v in list(aff.co.values()) + [aff.c, Q(tol)]:
                den = den * v.denominator // _gcd(den, v.denominator)
            if den > 1 << 40:
                return Verdict(None, why="specification denominators too large for bit-vectors")
            W = 48 + 2 * den.bit_length()
            s = z3.BitVecVal(int(aff.c * den), W)
            for n, v in aff.co.items():
                if n in enc.inputs:
                    y = enc.inputs[n][0]
                else:
                    lo, h = ranges[n]
                    y = z3.BitVec(n, max(8, h.bit_length()))
                    enc.inputs[n] = (y, lo, h)
                    enc.s.add(z3.ULE(y, h))
                s = s + z3.ZeroExt(W - y.size(), y) * z3.BitVecVal(int(v * den), W)
            if kind == "within":
                m = hi * den
                s = z3.If(s < 0, z3.BitVecVal(0, W), z3.If(s > m, z3.BitVecVal(m, W), s))
            d = z3.ZeroExt(W - t.w, x) * den - s
            lim = int(Q(tol) * den) if kind == "within" else 0
            bad = z3.Or(d > lim, d < -lim)
        st = time.time()
        enc.s.add(bad)
        r = enc.s.check()
        STATS["queries"] += 1
        STATS["time"] += time.time() - st
        FPBudget.used += time.time() - st
        if r == z3.unsat:
            return Verdict(True, how="FP")
        if r == z3.unknown:
            STATS["unknown"] += 1
            return Verdict(None, why="FP query timed out")
        m = enc.s.model()
        env = {n: r[0] for n, r in ranges.items()}
        env.update({n: m.eval(y, model_completion=True).as_long() for n, (y, lo, h) in enc.inputs.items()})
        out = evalc.ev(t, env)
        if bad_value(kind, out, aff, env, hi, tol):
            return Verdict(False, env, how="FP")
        return Verdict(None, why="FP model not confirmed")
    except fpenc.Unencodable as e:
        return Verdict(None, why=f"not encodable: {e}")


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


class Classes:
    """memoised verdicts per canonical class"""

    def __init__(self):
        self.tab = {}
        self.hits = 0

    def decide(self, t, kind, aff, hi, tol, ranges):
        if not isinstance(t, Term):
            return decide(t, kind, aff, hi, tol, ranges)
        cid, order = canon(t)
        names = list(order)
        extra = tuple(sorted((n, v) for n, v in aff.co.items() if n not in order)) if aff else ()
        sp = (tuple(aff.co.get(n, 0) for n in names), aff.c, tuple(v for _, v in extra), tuple(ranges[n] for n, _ in extra)) if aff else ()
        key = (cid, kind, sp, hi, tol)
        r = self.tab.get(key)
        if r is None:
            v = decide(t, kind, aff, hi, tol, ranges)
            self.tab[key] = (v, names + [n for n, _ in extra])
            return v
        self.hits += 1
        v, ns = r
        if v.ok is False:
            ren = dict(zip(ns, names + [n for n, _ in extra]))
            return Verdict(False, {ren.get(n, n): x for n, x in v.env.items()}, v.why, v.how)
        return v


def diff_bad(a, b, d):
    return abs(a - b) >= d


def decide_diff(a, b, d=2):
    """are the integer terms a and b closer than d for all inputs?  (shared variables)"""
    if a is b or a == b:
        return Verdict(True, how="identical")
    vs = {**(variables(a)), **(variables(b))}
    base = {n: v.lo for n, v in vs.items()}
    why = ""
    for ints in (False, True):
        try:
            enc = real.Enc(ints=ints, timeout_ms=10000 if ints else 20000)
            za, zb = [enc.z(enc.i(x) if isinstance(x, Term) else enc.const(Q(x))) for x in (a, b)]
        except real.Nonlinear as e:
            why = f"outside the linear fragment: {e}"
            break
        undecided = False
        sat = False
        for c in (za - zb >= d, zb - za >= d):
            r = enc.check(c)
            if r == z3.unknown:
                undecided = True
            elif r == z3.sat:
                sat = True
                env = {**base, **{n: v for n, v in enc.model().items() if n in vs}}
                if diff_bad(evalc.ev(a, env) if isinstance(a, Term) else a, evalc.ev(b, env) if isinstance(b, Term) else b, d):
                    return Verdict(False, env, how="LRA")
        if not sat and not undecided:
            return Verdict(True, how="LIRA" if ints else "LRA")
        why = "relaxation too coarse"
    timeout_ms = fp_budget()
    if not timeout_ms:
        return Verdict(None, why=why + "; no time left for bit-precise queries")
    try:
        enc = fpenc.Enc(timeout_ms, fpenc.TRANS)
        W = 40
        xs = []
        for x in (a, b):
            xs.append(z3.ZeroExt(W - x.w, enc.bv(x, x.w)) if isinstance(x, Term) else z3.BitVecVal(x, W))
        dz = xs[0] - xs[1]
        enc.s.add(z3.Or(dz >= d, dz <= -d))
        st = time.time()
        r = enc.s.check()
        STATS["queries"] += 1
        STATS["time"] += time.time() - st
        FPBudget.used += time.time() - st
        if r == z3.unsat:
            return Verdict(True, how="FP")
        if r == z3.sat:
            m = enc.s.model()
            env = {**base, **{n: m.eval(y, model_completion=True).as_long() for n, (y, lo, h) in enc.inputs.items()}}
            if diff_bad(evalc.ev(a, env) if isinstance(a, Term) else a, evalc.ev(b, env) if isinstance(b, Term) else b, d):
                return Verdict(False, env, how="FP")
            why += "; FP model not confirmed"
        else:
            STATS["unknown"] += 1
            why += "; FP query timed out"
    except fpenc.Unencodable as e:
        why += f"; not encodable: {e}"
    return Verdict(None, why=why)


class DiffClasses:
    def __init__(self):
        self.tab = {}
        self.hits = 0

    def decide(self, a, b, d=2):
        if not isinstance(a, Term) or not isinstance(b, Term):
            return decide_diff(a, b, d)
        order = {}
        ca, _ = canon(a, order)
        cb, _ = canon(b, order)
        names = list(order)
        key = (ca, cb, len(names), d)
        r = self.tab.get(key)
        if r is None:
            v = decide_diff(a, b, d)
            self.tab[key] = (v, names)
            return v
        self.hits += 1
        v, ns = r
        if v.ok is False:
            ren = dict(zip(ns, names))
            return Verdict(False, {ren[n]: x for n, x in v.env.items()}, v.why, v.how)
        return v


def rename(t, ren):
    """replace variables by others of the same width"""
    memo = {}

    def sub(x):
        if isinstance(x, Term):
            r = memo.get(x)
            if r is not None:
                return r
            if x.op == "var":
                r = T.var(ren.get(x.args[0], x.args[0]), x.w, x.lo, x.hi)
            else:
                r = T.mk(x.op, tuple(sub(a) for a in x.args), x.w, x.lo, x.hi)
                r.aux = x.aux
            memo[x] = r
            return r
        if x.__class__ is tuple:
            return tuple(sub(a) for a in x)
        return x

    return sub(t)
