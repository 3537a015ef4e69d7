"""Translation of integer/boolean terms to z3 (linear integer arithmetic with explicit wrap-around), and evaluation under a model."""
import time
import z3
from . import terms as T
from .terms import Term

STATS = {"queries": 0, "time": 0.0, "unknown": 0}


def checked(solver, *assumptions):
    t = time.time()
    r = solver.check(*assumptions)
    STATS["queries"] += 1
    STATS["time"] += time.time() - t
    if r == z3.unknown:
        STATS["unknown"] += 1
    return r


class Inconclusive(Exception):
    pass


class Enc:
    """One solver with an incrementally growing path condition."""

    def __init__(self, timeout_ms=20000):
        self.s = z3.Solver()
        self.s.set("timeout", timeout_ms)
        self.memo = {}
        self.keep = []
        self.nfresh = 0
        self.vars = {}
        self.approx = False
        self.nonlinear = False
        self.alt = None
        self.prods = {}
        self.exact = []

    def fresh(self, p="k"):
        self.nfresh += 1
        return z3.Int(f"{p}!{self.nfresh}")

    def i(self, t):
        if not isinstance(t, Term):
            return z3.IntVal(t)
        r = self.memo.get(t)
        if r is None:
            r = self._i(t)
            self.memo[t] = r
        return r

    def rng(self, x, lo, hi):
        self.s.add(x >= lo, x <= hi)

    def _i(self, t):
        op = t.op
        if op == "var":
            x = z3.Int(t.args[0])
            self.vars[t.args[0]] = t
            self.rng(x, t.lo, t.hi)
            return x
        if op == "lin":
            c, ps = t.args
            s = z3.Sum([self.i(a) * k if k != 1 else self.i(a) for a, k in ps] + [z3.IntVal(t.aux)])
            if t.nowrap:
                return s
            k = self.fresh()
            r = self.fresh("w")
            self.s.add(r == s - (1 << t.w) * k)
            self.rng(r, 0, (1 << t.w) - 1)
            return r
        if op == "mul" and T.ACC and t.nowrap:
            return self.product(t)
        if op == "mul":
            self.nonlinear = True
            s = self.i(t.args[0]) * self.i(t.args[1])
            if t.nowrap:
                return s
            k = self.fresh()
            r = self.fresh("w")
            self.s.add(r == s - (1 << t.w) * k)
            self.rng(r, 0, (1 << t.w) - 1)
            return r
        if op in ("udiv", "urem") and not isinstance(t.args[1], Term):
            n = t.args[1]
            a = self.i(t.args[0])
            q = self.fresh("q")
            self.s.add(q * n <= a, a < q * n + n, q >= 0)
            return q if op == "udiv" else a - n * q
        if op in ("udiv", "urem"):
            self.nonlinear = True
            a, b = self.i(t.args[0]), self.i(t.args[1])
            q = self.fresh("q")
            r = self.fresh("r")
            self.s.add(z3.Implies(b > 0, z3.And(a == q * b + r, r >= 0, r < b, q >= 0)))
            return q if op == "udiv" else r
        if op == "zext":
            a = t.args[0]
            if a.w == 1:
                return z3.If(self.b(a), z3.IntVal(1), z3.IntVal(0))
            return self.i(a)
        if op == "sext":
            a = t.args[0]
            x = self.i(a)
            return z3.If(x >= (1 << (a.w - 1)), x + ((1 << t.w) - (1 << a.w)), x)
        if op == "trunc":
            a = self.i(t.args[0])
            if t.args[0].hi < (1 << t.w):
                return a
            k = self.fresh()
            r = self.fresh("w")
            self.s.add(r == a - (1 << t.w) * k)
            self.rng(r, 0, (1 << t.w) - 1)
            return r
        if op == "ite":
            return z3.If(self.b(t.args[0]), self.i(t.args[1]), self.i(t.args[2]))
        if op == "cat":
            s = []
            for j, b in enumerate(t.args[0]):
                if isinstance(b, tuple):
                    s.append(self.byte(b[0], b[1]) * (1 << (8 * j)))
                elif b:
                    s.append(z3.IntVal(b << (8 * j)))
            return z3.Sum(s)
        if op == "byte":
            return self.byte(*t.args)
        if op in ("satu", "sats"):
            a = t.args[0]
            wi = t.args[1]
            x = self.i(a)
            x = z3.If(x >= (1 << (wi - 1)), x - (1 << wi), x)
            lo, hi = (0, (1 << t.w) - 1) if op == "satu" else (-(1 << (t.w - 1)), (1 << (t.w - 1)) - 1)
            x = z3.If(x < lo, z3.IntVal(lo), z3.If(x > hi, z3.IntVal(hi), x))
            if op == "sats":
                x = z3.If(x < 0, x + (1 << t.w), x)
            return x
        if op == "and" and t.w > 1 and not isinstance(t.args[1], Term):
            a = self.i(t.args[0])
            m = t.args[1]
            # sum over runs of ones
            out = []
            j = 0
            while m >> j:
                if (m >> j) & 1:
                    k = j
                    while (m >> k) & 1:
                        k += 1
                    # bits j..k-1
                    q1 = self.fresh("q")
                    q2 = self.fresh("q")
                    self.s.add(q1 * (1 << j) <= a, a < (q1 + 1) * (1 << j))
                    self.s.add(q2 * (1 << k) <= a, a < (q2 + 1) * (1 << k))
                    out.append(q1 * (1 << j) - q2 * (1 << k))
                    j = k
                else:
                    j += 1
            return z3.Sum(out)
        if op == "ashr" and not isinstance(t.args[1], Term):
            n = 1 << t.args[1]
            x = self.signed(t.args[0], t.args[0].w)
            q = self.fresh("q")
            self.s.add(q * n <= x, x <= q * n + (n - 1))
            return z3.If(q < 0, q + (1 << t.w), q)
        if op in ("and", "or", "xor") and t.w > 1:
            return self.bits(t)
        # unknown: over-approximate by any value in range
        self.approx = True
        x = self.fresh("u_" + op)
        self.rng(x, t.lo, t.hi)
        return x

    def product(self, t):
        """a product as a number of its own, ordered like its factors (linear facts only)"""
        p = self.fresh("p")
        self.rng(p, t.lo, t.hi)
        for f, o in (t.args, t.args[::-1]):
            zf, zo = self.i(f), self.i(o)
            self.s.add(z3.Implies(zo == 0, p == 0), z3.Implies(zo >= 1, p >= zf))
            ps = self.prods.setdefault(f, {})
            for zo2, p2 in ps.values():
                self.s.add(z3.Implies(zo + 1 <= zo2, p + zf <= p2), z3.Implies(zo2 + 1 <= zo, p2 + zf <= p), z3.Implies(zo == zo2, p == p2))
            ps[o] = zo, p
        self.exact.append(p == self.i(t.args[0]) * self.i(t.args[1]))
        return p

    def bits(self, t):
        """and/or/xor of two values: bit by bit when they are small, otherwise only bounded"""
        hi = max(a.hi if isinstance(a, Term) else a for a in t.args)
        a, b = (self.i(x) for x in t.args)
        if hi < 256:
            r = []
            ds = []
            for x in (a, b):
                d = [z3.Bool(f"bit!{self.nfresh + k}") for k in range(hi.bit_length())]
                self.nfresh += len(d)
                self.s.add(x == z3.Sum([z3.If(v, 1 << k, 0) for k, v in enumerate(d)]))
                ds.append(d)
            f = {"and": z3.And, "or": z3.Or, "xor": z3.Xor}[t.op]
            return z3.Sum([z3.If(f(v, w), 1 << k, 0) for k, (v, w) in enumerate(zip(*ds))])
        self.approx = True
        x = self.fresh("u_" + t.op)
        self.rng(x, t.lo, t.hi)
        if t.op == "and":
            self.s.add(x <= a, x <= b)
        else:
            self.s.add(x <= a + b)
            if t.op == "or":
                self.s.add(x >= a, x >= b)
        return x

    def byte(self, t, k):
        x = self.i(t) if t.w else self.i(T.f2bits(t))
        a = self.fresh("q")
        b = self.fresh("q")
        lo, hi = 1 << (8 * k), 1 << (8 * k + 8)
        self.s.add(a * lo <= x, x < (a + 1) * lo)
        self.s.add(b * hi <= x, x < (b + 1) * hi)
        return a - 256 * b

    def signed(self, t, w):
        if not isinstance(t, Term):
            return z3.IntVal(T.sgn(t, w))
        x = self.i(t)
        if t.hi < (1 << (w - 1)):
            return x
        return z3.If(x >= (1 << (w - 1)), x - (1 << w), x)

    def b(self, t):
        if not isinstance(t, Term):
            return z3.BoolVal(bool(t))
        r = self.memo.get(("b", t))
        if r is None:
            r = self._b(t)
            self.memo[("b", t)] = r
        return r

    def _b(self, t):
        op = t.op
        if op == "icmp":
            p, a, b = t.args
            w = t.aux
            if p[0] == "s":
                x, y = self.signed(a, w), self.signed(b, w)
            else:
                if w == 1:
                    x, y = self.b(a), self.b(b)
                    return x == y if p == "eq" else x != y
                x, y = self.i(a), self.i(b)
            q = p[-2:]
            if p == "eq":
                return x == y
            if p == "ne":
                return x != y
            return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[q]
        if op == "not":
            return z3.Not(self.b(t.args[0]))
        if op == "and":
            return z3.And(self.b(t.args[0]), self.b(t.args[1]))
        if op == "or":
            return z3.Or(self.b(t.args[0]), self.b(t.args[1]))
        if op == "xor":
            return z3.Xor(self.b(t.args[0]), self.b(t.args[1]))
        if op == "ite":
            return z3.If(self.b(t.args[0]), self.b(t.args[1]), self.b(t.args[2]))
        if op == "var":
            self.vars[t.args[0]] = t
            return z3.Int(t.args[0]) == 1
        if op == "trunc":
            return self.i(t) == 1 if t.args[0].hi >= 2 else self.i(t.args[0]) == 1
        if op in ("urem", "udiv", "byte", "lin"):
            return self.i(t) == 1
        self.approx = True
        x = z3.Bool(f"ub!{t.id}")
        return x

    def add(self, t):
        e = self.b(t)
        self.s.add(e)

    def check(self, *ts):
        """satisfiable with extra (z3) assumptions? returns z3 result"""
        self.alt = None
        if not self.nonlinear:
            return checked(self.s, *ts)
        self.s.set("timeout", 3000)
        r = checked(self.s, *ts)
        if r != z3.unknown:
            return r
        STATS["unknown"] -= 1
        for lim in (16, 1 << 12, 1 << 32):
            small = [z3.Int(n) <= lim for n in self.vars]
            r = checked(self.s, *ts, *small)
            if r == z3.sat:
                return r
            if r == z3.unknown:
                STATS["unknown"] -= 1
        for seed in range(1, 4):
            a = z3.SolverFor("QF_NIA") if seed == 1 else z3.Solver()
            a.set("timeout", 10000)
            a.set("random_seed", seed)
            a.add(self.s.assertions())
            a.add(*ts)
            r = checked(a)
            if r == z3.sat:
                self.alt = a
            if r != z3.unknown:
                return r
            STATS["unknown"] -= 1
        STATS["unknown"] += 1
        return z3.unknown

    def model(self):
        m = (self.alt or self.s).model()
        out = {}
        for n, t in self.vars.items():
            v = m.eval(z3.Int(n), model_completion=True)
            out[n] = v.as_long()
        return out


def evaluate(t, env, memo=None):
    """value of an integer/boolean term under env {name: int}; None if it needs something unknown"""
    if memo is None:
        memo = {}

    def ev(t):
        if not isinstance(t, Term):
            return t
        if t in memo:
            return memo[t]
        r = ev1(t)
        memo[t] = r
        return r

    def ev1(t):
        op = t.op
        m = (1 << t.w) - 1
        if op == "var":
            v = env.get(t.args[0])
            return v if v is not None else t.lo
        if op == "lin":
            c, ps = t.args
            s = c
            for a, k in ps:
                v = ev(a)
                if v is None:
                    return None
                s += v * k
            return s & m
        if op == "icmp":
            p, a, b = t.args
            x, y = ev(a), ev(b)
            if x is None or y is None:
                return None
            return T.icmp(p, x, y, t.aux)
        if op in ("mul", "udiv", "urem", "and", "or", "xor"):
            x, y = ev(t.args[0]), ev(t.args[1])
            if x is None or y is None:
                return None
            if op == "mul":
                return (x * y) & m
            if op == "udiv":
                return x // y if y else None
            if op == "urem":
                return x % y if y else None
            if op == "and":
                return x & y
            if op == "or":
                return x | y
            return x ^ y
        if op == "not":
            v = ev(t.args[0])
            return None if v is None else 1 - v
        if op == "zext":
            return ev(t.args[0])
        if op == "sext":
            v = ev(t.args[0])
            return None if v is None else T.sext(v, t.args[0].w, t.w)
        if op == "trunc":
            v = ev(t.args[0])
            return None if v is None else v & m
        if op == "ite":
            c = ev(t.args[0])
            return None if c is None else ev(t.args[1] if c else t.args[2])
        if op == "cat":
            s = 0
            for j, b in enumerate(t.args[0]):
                if isinstance(b, tuple):
                    v = ev(b[0])
                    if v is None:
                        return None
                    b = (v >> (8 * b[1])) & 255
                elif b is None:
                    return None
                s |= b << (8 * j)
            return s
        if op == "byte":
            v = ev(t.args[0])
            return None if v is None else (v >> (8 * t.args[1])) & 255
        if op in ("satu", "sats"):
            v = ev(t.args[0])
            return None if v is None else T.sat(op, v, t.args[1], t.w)
        return None

    return ev(t)


class RealEnc(Enc):
    """The same constraints over the reals: every integer solution is a solution, so `unsat` carries over; much easier for
    nested divisions by constants."""

    def fresh(self, p="k"):
        self.nfresh += 1
        return (z3.Int if p == "k" else z3.Real)(f"{p}!{self.nfresh}")

    def i(self, t):
        return super().i(t) if isinstance(t, Term) else z3.RealVal(t)

    def _i(self, t):
        op = t.op
        if op == "var":
            x = z3.Real(t.args[0])
            self.vars[t.args[0]] = t
            self.rng(x, t.lo, t.hi)
            return x
        if op == "udiv" and not isinstance(t.args[1], Term):
            n = t.args[1]
            a = self.i(t.args[0])
            q = self.fresh("q")
            self.s.add(q * n <= a, a <= q * n + (n - 1))
            self.rng(q, t.lo, t.hi)
            return q
        return super()._i(t)
