"""Concrete evaluation of terms (integers and IEEE single precision) under an assignment of the input variables."""
import ctypes
import hashlib
import numpy as np
from . import terms as T
from .terms import Term

F = np.float32
_libm = ctypes.CDLL("libm.so.6")


def _lm(name, n=1):
    f = getattr(_libm, name)
    f.restype = ctypes.c_float
    f.argtypes = [ctypes.c_float] * n
    return f


_f1 = {k: _lm(v) for k, v in dict(log="logf", exp="expf", log2="log2f", exp2="exp2f", log10="log10f", cbrt="cbrtf").items()}
_pow = _lm("powf", 2)


def fbits(x):
    return int(np.float32(x).view(np.uint32))


def ev(t, env, memo=None):
    """value: Python int, or np.float32 for float terms"""
    if memo is None:
        memo = {}
    stack = [t]
    while stack:
        x = stack[-1]
        if not isinstance(x, Term) or x in memo:
            stack.pop()
            continue
        ks = kids(x)
        todo = [k for k in ks if k not in memo]
        if todo:
            stack.extend(todo)
            continue
        memo[x] = ev1(x, env, memo)
        stack.pop()
    return memo[t] if isinstance(t, Term) else t


def kids(x):
    op = x.op
    if op in ("var", "fc"):
        return ()
    if op == "lin":
        return [a for a, _ in x.args[1]]
    if op == "cat":
        return [b[0] for b in x.args[0] if b.__class__ is tuple]
    if op == "bits":
        return [b for b in x.args[0] if isinstance(b, Term)]
    return [a for a in x.args if isinstance(a, Term)]


def digest(root, order=None):
    """a hash of the term's structure, the same in every process; with a list `order`, variables are replaced by
    their positions in it (those not yet there are appended)"""
    memo = {}

    def arg(a):
        if isinstance(a, Term):
            return memo[a]
        if isinstance(a, tuple):
            return "(" + ",".join(arg(b) for b in a) + ")"
        return repr(a)

    def var(n):
        if order is None:
            return n
        if n not in order:
            order.append(n)
        return f"{n[0] == '@'}{order.index(n)}"

    todo = [root]
    while todo:
        x = todo[-1]
        if x in memo:
            todo.pop()
            continue
        ks = [k for k in kids(x) if k not in memo]
        if ks:
            todo += ks
            continue
        todo.pop()
        v = var(x.args[0]) if x.op == "var" else arg(x.args)
        memo[x] = hashlib.sha1(f"{x.op}|{x.w}|{x.lo}|{x.hi}|{v}".encode()).hexdigest()
    return memo[root]


def f2i(kind, v, w):
    return T.f2i(kind, T.fval(v), w)


def ev1(x, env, memo):
    op = x.op
    A = x.args

    def g(a):
        return memo[a] if isinstance(a, Term) else a

    m = (1 << x.w) - 1
    if op == "var":
        v = env.get(A[0])
        return x.lo if v is None else v
    if op == "fc":
        return T.f32(A[0])
    if op == "lin":
        return (A[0] + sum(k * g(a) for a, k in A[1])) & m
    if op == "fadd":
        return F(g(A[0]) + g(A[1]))
    if op == "fsub":
        return F(g(A[0]) - g(A[1]))
    if op == "fmul":
        return F(g(A[0]) * g(A[1]))
    if op == "fdiv":
        return F(g(A[0]) / g(A[1]))
    if op == "frem":
        return F(np.fmod(g(A[0]), g(A[1])))
    if op == "fneg":
        return T.f32(fbits(g(A[0])) ^ 0x80000000)
    if op == "fma":
        return T.f32(T.fma(*[T.fval(g(a)) for a in A]).args[0]) if all(np.isfinite(g(a)) for a in A) else F(g(A[0]) * g(A[1]) + g(A[2]))
    if op in ("sqrt", "floor", "ceil", "trunc", "rint", "round", "fabs") and x.w == 0:
        return T.f32(T.fun1(op, T.fval(g(A[0]))).args[0])
    if op in _f1 and x.w == 0:
        return F(_f1[op](g(A[0])))
    if op == "pow":
        return F(_pow(g(A[0]), g(A[1])))
    if op == "max":
        return F(np.fmax(g(A[0]), g(A[1])))
    if op == "min":
        return F(np.fmin(g(A[0]), g(A[1])))
    if op == "xmax":
        a, b = g(A[0]), g(A[1])
        return a if a > b else b
    if op == "xmin":
        a, b = g(A[0]), g(A[1])
        return a if a < b else b
    if op == "copysign":
        return T.f32((fbits(g(A[0])) & 0x7FFFFFFF) | (fbits(g(A[1])) & 0x80000000))
    if op == "fite":
        return g(A[1]) if g(A[0]) else g(A[2])
    if op == "i2f":
        v = g(A[0])
        if A[1]:
            v = T.sgn(v, A[0].w)
        return T.f32(T.i2f(v & ((1 << 64) - 1), 64, True).args[0])
    if op == "bits2f":
        return T.f32(g(A[0]))
    if op == "fbits":
        return fbits(g(A[0]))
    if op.startswith("f2i_"):
        return f2i(op[4:], g(A[0]), x.w)
    if op == "fcmp":
        return T.fcmp(A[0], T.fval(g(A[1])), T.fval(g(A[2])))
    if op == "icmp":
        return T.icmp(A[0], g(A[1]), g(A[2]), x.aux)
    if op == "mul":
        return (g(A[0]) * g(A[1])) & m
    if op == "udiv":
        return g(A[0]) // max(1, g(A[1]))
    if op == "urem":
        return g(A[0]) % max(1, g(A[1]))
    if op == "and":
        return g(A[0]) & g(A[1])
    if op == "or":
        return g(A[0]) | g(A[1])
    if op == "xor":
        return g(A[0]) ^ g(A[1])
    if op == "not":
        return 1 - g(A[0])
    if op == "zext":
        return g(A[0])
    if op == "sext":
        return T.sext(g(A[0]), A[0].w, x.w)
    if op == "trunc":
        return g(A[0]) & m
    if op == "ite":
        return g(A[1]) if g(A[0]) else g(A[2])
    if op == "cat":
        s = 0
        for j, b in enumerate(A[0]):
            if b.__class__ is tuple:
                v = g(b[0])
                if b[0].w == 0:
                    v = fbits(v)
                b = (v >> (8 * b[1])) & 255
            s |= b << (8 * j)
        return s
    if op == "byte":
        v = g(A[0])
        if A[0].w == 0:
            v = fbits(v)
        return (v >> (8 * A[1])) & 255
    if op == "bits":
        return sum(g(b) << i for i, b in enumerate(A[0]))
    if op in ("satu", "sats"):
        return T.sat(op, g(A[0]), A[1], x.w)
    if op == "satuu":
        return min(g(A[0]), m)
    if op in ("lshr",):
        return g(A[0]) >> A[1]
    if op == "lshrv":
        n = g(A[1])
        return g(A[0]) >> n if n < x.w else 0
    if op == "shl":
        n = g(A[1])
        return (g(A[0]) << n) & m if n < x.w else 0
    if op == "ashr":
        return (T.sgn(g(A[0]), x.w) >> A[1]) & m
    raise NotImplementedError(op)
