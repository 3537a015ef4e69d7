"""Symbolic executor for LLVM IR produced by rustc.

One `Run` = one execution along one path of the integer ("layout") control flow.  Conditions over layout inputs are decided by
the solver under the path condition; when both outcomes are feasible the run follows one and records the other for re-execution.
Conditions over pixel data / floats are not forked on: both sides are executed up to the join and merged with if-then-else.
"""
import math
import re
import time
import z3
from . import terms as T
from .terms import Term, UNDEF
from . import ll, smt
from .ll import P, sizeof, SLOT, FLOAT, DOUBLE, REL

HALF = 1 << (SLOT - 1)


class PathEnd(Exception):
    """kind: panic | unreachable | oob | abort | ub | loop"""

    def __init__(self, kind, msg=""):
        super().__init__(kind, msg)
        self.kind = kind
        self.msg = msg


class Unsupported(Exception):
    pass


class Obj:
    __slots__ = ("slot", "base", "size", "kind", "data", "sym", "name", "const", "align", "live", "init", "maxalign")


_HP = {}


def has_product(t):
    """does the term contain a product of unknowns?"""
    a = _HP.get(t)
    if a is None:
        a = t.op == "mul"
        for x in t.args:
            for y in x if isinstance(x, tuple) else (x,):
                z = y[0] if isinstance(y, tuple) else y
                a = a or isinstance(z, Term) and has_product(z)
        _HP[t] = a
    return a


def has_data(t):
    """does the term depend on pixel data or floats?"""
    a = _HD.get(t)
    if a is None:
        if t.op in ("fc", "i2f", "fcmp", "f2i_rne", "f2i_tr", "f2i_usat", "f2i_ssat", "fbits") or t.w == 0:
            a = True
        elif t.op == "var":
            a = t.args[0][0] == "$"
        else:
            a = False
            for x in t.args:
                if isinstance(x, Term):
                    if has_data(x):
                        a = True
                        break
                elif isinstance(x, tuple):
                    for y in x:
                        z = y[0] if isinstance(y, tuple) else y
                        if isinstance(z, Term) and has_data(z):
                            a = True
                            break
        _HD[t] = a
    return a


_HD = {}


class Run:
    def __init__(self, mod, decisions=(), fuel=3_000_000, simd=True, cond_cache=None, oracle=None):
        self.mod = mod
        self.objs = {}
        self.nslot = 1 << 14
        self.enc = smt.Enc()
        self.pc = []
        self.pckey = ()
        self.decisions = list(decisions)
        self.dpos = 0
        self.alts = []  # other decision prefixes to explore
        self.model = None
        self.fuel = fuel
        self.steps = 0
        self.spec = 0
        self.journal = None
        self.funcs = {}
        self.simd = simd
        self.cache = cond_cache if cond_cache is not None else {}
        self.pending = []  # (z3-able violation term, description)
        self.events = []
        self.tasks = []
        self.writes = []  # (obj, key, n, task)
        self.task = None
        self.hooks = dict(HOOKS)
        self.violations = []
        self.obls = 0
        self.oracle = oracle
        self.guards = []
        self.depth = 0
        self.track = False
        self.allow_oob = False
        self.mallocs = 0
        self.acc = None
        self.merges = 0

    # ------------------------------------------------------------ memory
    def new_obj(self, size, kind, name="", align=16, const=False, slot=None):
        o = Obj()
        if slot is None:
            self.nslot += 1
            slot = self.nslot
        o.slot = slot
        o.base = slot << SLOT
        o.size = size
        o.kind = kind
        o.name = name
        o.const = const
        o.live = True
        o.sym = None
        o.init = None
        o.align = align
        if isinstance(size, Term) or kind == "plane":
            o.sym = {}
            o.data = None
        else:
            o.data = [None] * size
        self.objs[slot] = o
        return o

    def obj_of(self, addr):
        """-> (obj, offset) where offset is int or Term"""
        if addr.__class__ is int:
            slot = (addr + HALF) >> SLOT
            off = addr - (slot << SLOT)
        else:
            if addr is UNDEF:
                raise PathEnd("ub", "use of an undefined pointer")
            if addr.op == "lin":
                c = addr.args[0]
                slot = (c + HALF) >> SLOT
                if slot == 0:
                    raise PathEnd("ub", f"access through a pointer without provenance {addr}")
                off = T.lin(c - (slot << SLOT), dict(addr.args[1]), 64)
            elif addr.op == "ite":
                raise Unsupported(f"conditional pointer {addr}")
            else:
                raise PathEnd("ub", f"access through a symbolic pointer {addr}")
        o = self.objs.get(slot)
        if o is None:
            o = self.global_obj(slot)
            if o is None:
                raise PathEnd("ub", f"access to invalid address {addr}")
        return o, off

    def global_obj(self, slot):
        name = self.mod.byaddr.get(slot)
        if name is None or name not in self.mod.gdef:
            return None
        data, align, const = self.mod.global_init(name)
        o = self.new_obj(len(data), "global", name, align, const, slot)
        o.data = list(data)
        return o

    def violation(self, kind, msg, cond=None):
        self.violations.append((kind, msg, cond, tuple(self.pc)))

    def oblige(self, bad, what):
        """bad: boolean term that must be impossible under the current path condition"""
        if not isinstance(bad, Term):
            self.obls += 1
            if bad:
                raise PathEnd("oob", what)
            return
        self.obls += 1
        self.pending.append((bad, what))

    def flush(self):
        if not self.pending:
            return
        seen = {}
        for b, w in self.pending:
            seen.setdefault(b, w)
        self.pending = []
        key = (self.pckey, "obl", frozenset(seen))
        r = self.cache.get(key)
        if r is None:
            e = self.enc
            zs = [(e.b(b), b, w) for b, w in seen.items()]
            r = "ok"
            if e.check(z3.Or([z for z, _, _ in zs])) != z3.unsat:
                for z, b, w in zs:
                    c = e.check(z)
                    if c == z3.sat:
                        r = ("bad", w, e.model(), b)
                        break
                    if c == z3.unknown:
                        raise smt.Inconclusive(w)
            self.cache[key] = r
        if r != "ok":
            self.violations.append(("memory", r[1], r[2], r[3], tuple(self.pc)))

    def check_access(self, o, off, n, align, write):
        if not o.live:
            raise PathEnd("oob", f"use after free of {o.name or o.kind}")
        if write and o.const:
            raise PathEnd("ub", f"write to constant {o.name}")
        if off.__class__ is int and o.size.__class__ is int:
            if off < 0 or off + n > o.size:
                raise PathEnd("oob", f"{'write' if write else 'read'} of {n} bytes at offset {off} of {o.name or o.kind} ({o.size} bytes)")
        else:
            end = T.add(off, n, 64)
            what = f"{'write' if write else 'read'} of {n} bytes at offset {T.show(off)} of {o.name} (size {T.show(o.size)})"
            # off + n <= size without wrap-around
            bad = T.bor(T.icmp("ugt", end, o.size, 64), T.icmp("ult", end, n, 64), 1)
            if o.data is not None and isinstance(bad, Term) and not write:
                # index into a constant table: sample values, not layout; the relaxation to reals usually suffices
                k = ("table", bad)
                if k not in self.cache:
                    e = smt.RealEnc(10000)
                    self.cache[k] = e.check(e.b(bad)) == z3.unsat
                if self.cache[k]:
                    self.obls += 1
                    return
            self.oblige(bad, what)
        if align > o.align:
            if o.kind == "plane":
                raise PathEnd("ub", f"access with alignment {align} to a byte buffer ({o.name})")

    def load_bytes(self, addr, n, align=1):
        o, off = self.obj_of(addr)
        if o.data is not None and off.__class__ is int:
            if off < 0 or off + n > len(o.data) or not o.live:
                self.check_access(o, off, n, align, False)
            return o.data[off : off + n]
        self.check_access(o, off, n, align, False)
        return self.sym_load(o, off, n)

    def split_off(self, o, off):
        if off.__class__ is int:
            return (), off
        if off.op == "lin":
            if any(t.op == "ite" for t, _ in off.args[1]):
                return self.split_off(o, self.resolve(off))
            return off.args[1], T.sgn(off.args[0], 64)
        if off.op == "ite":
            return self.split_off(o, self.resolve(off))
        return ((off, 1),), 0

    def resolve(self, t):
        """remove if-then-else over layout conditions from an offset by deciding (forking on) the conditions"""
        if t.__class__ is int:
            return t
        if t.op == "ite":
            if has_data(t.args[0]):
                raise Unsupported("data-dependent offset")
            return self.resolve(t.args[1] if self.decide(t.args[0]) else t.args[2])
        if t.op == "lin":
            r = t.args[0]
            for x, q in t.args[1]:
                r = T.add(r, T.mulc(self.resolve(x), q, t.w), t.w)
            return r
        return t

    def sym_load(self, o, off, n):
        if o.sym is None:
            # concrete-size object accessed at a symbolic offset
            return self.table_load(o, off, n)
        k, c = self.split_off(o, off)
        m = o.sym.get(k)
        out = []
        for i in range(n):
            b = m.get(c + i, _MISS) if m is not None else _MISS
            if b is _MISS:
                b = o.init(k, c + i)
            out.append(b)
        return out

    def table_load(self, o, off, n):
        """one byte of a constant table: the table as a piecewise linear function of the offset"""
        if off.op == "ite":
            r = []
            for x in off.args[1:]:
                b = self.sym_load(o, x, n) if x.__class__ is Term else o.data[x : x + n]
                r.append(T.frombytes(b, 8 * n))
            return T.tobytes(T.ite(off.args[0], r[0], r[1], 8 * n), 8 * n)
        if o.const and n == 1:
            lo, hi = max(off.lo, 0), min(off.hi, len(o.data) - 1)
            v = o.data[lo : hi + 1]
            if v and all(b.__class__ is int for b in v):
                pieces, i = [], 0
                while i < len(v) and len(pieces) <= 8:
                    j = i + 1
                    d = v[j] - v[i] if j < len(v) and v[j] - v[i] in (0, 1, -1) else 0
                    while j < len(v) and v[j] - v[j - 1] == d:
                        j += 1
                    pieces.append((lo + i, d, v[i]))
                    # neighbouring pieces share their corner: continuous when relaxed to reals
                    i = j - 1 if j < len(v) and j - 1 > i and abs(v[j] - v[j - 1]) <= 1 else j
                if len(pieces) <= 8:
                    out = None
                    for p0, d, v0 in reversed(pieces):
                        x = T.trunc(T.add(T.mulc(T.sub(off, p0, 64), d, 64), v0, 64), 8) if d else v0
                        out = x if out is None else T.ite(T.icmp("ult", off, nxt, 64), x, out, 8)
                        nxt = p0
                    return T.tobytes(out, 8)
        raise Unsupported(f"symbolic offset {off} into {o.name or o.kind}")

    def store_bytes(self, addr, bs, align=1):
        o, off = self.obj_of(addr)
        n = len(bs)
        if o.data is not None:
            if off.__class__ is not int:
                raise Unsupported(f"store at symbolic offset {off} into {o.kind} {o.name}")
            if off < 0 or off + n > len(o.data) or not o.live or o.const:
                self.check_access(o, off, n, align, True)
            if self.journal is not None:
                for i in range(off, off + n):
                    self.journal.setdefault((o.slot, None, i), o.data[i])
            o.data[off : off + n] = bs
            return
        self.check_access(o, off, n, align, True)
        k, c = self.split_off(o, off)
        m = o.sym.get(k)
        if m is None:
            m = o.sym[k] = {}
        for i in range(n):
            if self.journal is not None:
                self.journal.setdefault((o.slot, k, c + i), m.get(c + i, _MISS))
            m[c + i] = bs[i]
        if o.kind == "plane":
            self.writes.append((o.slot, k, c, n, self.task, len(self.pc)))

    # typed access
    def load(self, ty, addr, align=1):
        bs = self.load_bytes(addr, sizeof(ty), align)
        return self.unbytes(ty, bs)

    def unbytes(self, ty, bs):
        k = ty[0]
        if k == "i":
            w = ty[1]
            n = (w + 7) // 8
            return T.frombytes(bs[:n], w)
        if k == "ptr":
            return T.frombytes(bs, 64)
        if k == "float":
            return float_of(bs)
        if k == "v":
            e = ty[2]
            n = sizeof(e)
            if e == FLOAT:
                return tuple(float_of(bs[i * 4 : i * 4 + 4]) for i in range(ty[1]))
            if e == ("i", 1):
                raise Unsupported("load <N x i1>")
            w = 64 if e[0] == "ptr" else e[1]
            return tuple(T.frombytes(bs[i * n : i * n + n], w) for i in range(ty[1]))
        if k in ("a", "s"):
            cnt = ty[1] if k == "a" else len(ty[1])
            out = []
            for i in range(cnt):
                o, f = ll.field(ty, i)
                out.append(self.unbytes(f, bs[o : o + sizeof(f)]))
            return tuple(out)
        if k == "double":
            import struct

            if all(b.__class__ is int for b in bs):
                return ("dbl", struct.unpack("<d", bytes(bs))[0])
        raise Unsupported(f"load {ty}")

    def bytes_of(self, ty, v):
        k = ty[0]
        if k == "i":
            w = ty[1]
            return T.tobytes(v, w)
        if k == "ptr":
            return T.tobytes(v, 64)
        if k == "float":
            return T.tobytes(v, 32)
        if k in ("v", "a"):
            e = ty[2]
            if k == "v" and e == ("i", 1):
                raise Unsupported("store <N x i1>")
            out = []
            ne = sizeof(e)
            for x in v:
                b = self.bytes_of(e, x)
                out.extend(b)
                if len(b) < ne:
                    out.extend([None] * (ne - len(b)))
            return out
        if k == "s":
            out = []
            for i, f in enumerate(ty[1]):
                o, f = ll.field(ty, i)
                while len(out) < o:
                    out.append(None)
                out.extend(self.bytes_of(f, v[i]))
            while len(out) < sizeof(ty):
                out.append(None)
            return out
        if k == "double":
            import struct

            return list(struct.pack("<d", v[1]))
        raise Unsupported(f"store {ty}")

    # ------------------------------------------------------------ conditions
    def assume(self, t):
        if not isinstance(t, Term):
            if not t:
                raise PathEnd("infeasible")
            return
        self.flush()
        self.pc.append(t)
        self.pckey = self.pckey + (t.id,)
        self.enc.add(t)
        if self.model is not None and smt.evaluate(t, self.model) != 1:
            self.model = None

    def get_model(self):
        if self.model is None:
            key = (self.pckey, "model")
            m = self.cache.get(key)
            if m is None:
                r = self.enc.check()
                if r == z3.unsat:
                    raise PathEnd("infeasible")
                if r != z3.sat:
                    raise smt.Inconclusive("path condition")
                m = self.enc.model()
                self.cache[key] = m
            self.model = m
        return self.model

    def feasible(self, t):
        """is pc and t satisfiable?"""
        if not isinstance(t, Term):
            return bool(t)
        key = (self.pckey, t.id)
        r = self.cache.get(key)
        if r is None:
            m = self.get_model()
            if smt.evaluate(t, m) == 1 and not (self.enc.prods and has_product(t)):
                r = True
            else:
                c = self.enc.check(self.enc.b(t))
                if c == z3.unknown:
                    raise smt.Inconclusive(T.show(t))
                r = c == z3.sat
            self.cache[key] = r
        return r

    def known(self, c):
        """True/False if the layout condition is decided by the path condition, else None"""
        if not isinstance(c, Term):
            return bool(c)
        ft = self.feasible(c)
        ff = self.feasible(T.bnot(c))
        return None if ft and ff else ft

    def decide(self, c):
        """layout condition -> bool, forking if necessary"""
        if not isinstance(c, Term):
            if c is UNDEF:
                raise PathEnd("ub", "branch on an undefined value")
            return bool(c)
        nc = T.bnot(c)
        ft = self.feasible(c)
        ff = self.feasible(nc)
        if ft and ff:
            if self.dpos < len(self.decisions):
                d = self.decisions[self.dpos]
            else:
                d = True
                self.decisions.append(True)
                self.alts.append(tuple(self.decisions[:-1]) + (False,))
            self.dpos += 1
            self.assume(c if d else nc)
            return d
        if not ft and not ff:
            raise PathEnd("infeasible")
        return ft

    # ------------------------------------------------------------ calls
    def call(self, name, args):
        h = self.hooks.get(name)
        if h is not None:
            return h(self, args)
        mod = self.mod
        if name not in mod.fpos and name in mod.aliases:
            name = mod.aliases[name]
        if name in mod.fpos:
            kind = special(name)
            if kind is not None:
                return kind(self, args, name)
            f = mod.func(name)
            self.funcs[name] = self.funcs.get(name, 0) + 1
            if len(args) != len(f.params):
                raise PathEnd("ub", f"call of {name} with {len(args)} arguments")
            self.depth += 1
            if self.depth > 200:
                raise PathEnd("loop", "call depth")
            regs = {p: a for (p, _), a in zip(f.params, args)}
            allocas = []
            r = self.exec_blocks(f, regs, f.entry, None, allocas, None)
            for o in allocas:
                o.live = False
                if self.journal is None:
                    del self.objs[o.slot]
            self.depth -= 1
            return r[1]
        h = EXTERNALS.get(name)
        if h is None:
            raise Unsupported(f"external function {name}")
        return h(self, args)

    def call_addr(self, addr, args):
        if addr.__class__ is not int:
            raise PathEnd("ub", f"call through symbolic pointer {addr}")
        name = self.mod.byaddr.get(addr >> SLOT) if addr & ((1 << SLOT) - 1) == 0 else None
        if name is None:
            raise PathEnd("ub", f"call of invalid address {addr:#x}")
        return self.call(name, args)

    # ------------------------------------------------------------ control flow
    def exec_blocks(self, f, regs, bname, prev, allocas, stop):
        """run from block bname until `ret` (returns ('ret', v)) or until reaching block `stop` (returns ('stop', prev))"""
        acc = self.acc
        stack = []
        while True:
            if bname == stop:
                return ("stop", prev)
            b = f.blocks[bname]
            if b.ins is None:
                decode_block(f, b)
            if b.phis or acc is not None:
                vals = []
                for dst, m in b.phis:
                    v = m[prev]
                    vals.append(regs[v] if v.__class__ is str else v)
                if acc is not None:
                    vals = acc.block(self, f, bname, b, vals, stack)
                for (dst, _), v in zip(b.phis, vals):
                    regs[dst] = v
            self.steps += len(b.ins) + 1
            if self.steps > self.fuel:
                raise PathEnd("loop", "step limit")
            for dst, fn in b.ins:
                if dst is None:
                    fn(self, regs, allocas)
                else:
                    regs[dst] = fn(self, regs, allocas)
            t = b.term
            k = t[0]
            prev = bname
            if k == "br":
                bname = t[1]
            elif k == "cbr":
                c = t[1]
                if c.__class__ is str:
                    c = regs[c]
                if c.__class__ is Term:
                    if has_data(c):
                        cc = self.data_known(c)
                        if cc is None:
                            j = ipdom(f, bname)
                            r = self.merge(f, regs, [(c, t[2]), (None, t[3])], bname, allocas, j)
                            if r[0] == "ret":
                                return r
                            bname = j
                            if bname == stop:
                                return ("stop", "#merged")
                            bname, prev = self.after_merge(f, bname)
                            continue
                        bname = t[2] if cc else t[3]
                    else:
                        d = self.decide(c) if acc is None else acc.branch(self, f, bname, c, t, stack)
                        bname = t[2] if d else t[3]
                else:
                    if c is UNDEF:
                        raise PathEnd("ub", "branch on an undefined value")
                    bname = t[2] if c else t[3]
            elif k == "ret":
                v = t[1]
                if v.__class__ is str:
                    v = regs[v]
                return ("ret", v)
            elif k == "switch":
                v = t[1]
                if v.__class__ is str:
                    v = regs[v]
                if v.__class__ is Term:
                    if has_data(v):
                        raise Unsupported("data-dependent switch")
                    for cst, lbl in t[3]:
                        if self.decide(T.icmp("eq", v, cst, t[4])):
                            bname = lbl
                            break
                    else:
                        bname = t[2]
                elif v is UNDEF:
                    raise PathEnd("ub", "switch on an undefined value")
                else:
                    bname = t[5].get(v, t[2])
            elif k == "unreachable":
                raise PathEnd("unreachable", f.name)
            elif k == "invoke":
                r = t[1](self, regs, allocas)
                if t[2] is not None:
                    regs[t[2]] = r
                bname = t[3]
            else:
                raise Unsupported(k)

    def after_merge(self, f, bname):
        return bname, "#merged"

    def data_known(self, c):
        if self.oracle is not None:
            return self.oracle(c)
        return None

    def merge(self, f, regs, arms, bname, allocas, join):
        """execute both arms of a data-dependent branch up to `join` (None: function exit) and merge"""
        c = arms[0][0]
        self.merges += 1
        outer = self.journal
        saved_regs = dict(regs)
        results = []
        saved_guards = self.guards
        for i, (_, lbl) in enumerate(arms):
            self.journal = {}
            r = dict(saved_regs)
            self.guards = saved_guards + [c if i == 0 else T.bnot(c)]
            try:
                res = self.exec_blocks(f, r, lbl, bname, allocas, join)
            except PathEnd as e:
                if e.kind in ("panic", "unreachable", "oob", "ub", "abort"):
                    e.guard = list(self.guards)
                raise
            finally:
                self.guards = saved_guards
            # collect values written, then undo
            new = {}
            for key in self.journal:
                new[key] = self.peek(key)
            for key, old in self.journal.items():
                self.poke(key, old)
            # phi values at the join
            ph = None
            if join is not None:
                jb = f.blocks[join]
                if jb.ins is None:
                    decode_block(f, jb)
                if res[1] == "#merged":
                    ph = [r.get(("#phi", dst)) for dst, _ in jb.phis]
                else:
                    ph = []
                    for dst, m in jb.phis:
                        v = m[res[1]]
                        ph.append(r[v] if v.__class__ is str else v)
            results.append((res, new, self.journal, ph, r))
        self.journal = outer
        (ra, na, ja, pa, _), (rb, nb, jb_, pb, _) = results
        # memory
        keys = list(dict.fromkeys(list(na) + list(nb)))
        groups = {}
        for k in keys:
            old = ja[k] if k in ja else jb_[k]
            va = na.get(k, old)
            vb = nb.get(k, old)
            if va is _MISS or vb is _MISS:
                o = self.objs[k[0]]
                dv = o.init(k[1], k[2])
                va = dv if va is _MISS else va
                vb = dv if vb is _MISS else vb
            groups.setdefault((k[0], k[1]), {})[k[2]] = (va, vb, old)
        for (slot, sk), m in groups.items():
            o = self.objs.get(slot)
            if o is None:
                continue
            offs = sorted(m)
            i = 0
            while i < len(offs):
                o0 = offs[i]
                va, vb, old = m[o0]
                n = 1
                for e in (va, vb):
                    if e.__class__ is tuple and e[1] == 0:
                        tn = 4 if e[0].w == 0 else (e[0].w + 7) // 8
                        n = max(n, tn)
                while n > 1 and not all(o0 + q in m for q in range(n)):
                    n = 1
                A = [m[o0 + q][0] for q in range(n)]
                B = [m[o0 + q][1] for q in range(n)]
                out = merge_bytes(c, A, B)
                for q in range(n):
                    key = (slot, sk, o0 + q)
                    if outer is not None:
                        outer.setdefault(key, m[o0 + q][2])
                    self.poke(key, out[q])
                i += n
        if join is None:
            return ("ret", merge_val(c, ra[1], rb[1]))
        jb = f.blocks[join]
        for (dst, _), x, y in zip(jb.phis, pa, pb):
            regs[("#phi", dst)] = merge_val(c, x, y)
        return ("stop", "#merged")

    def peek(self, key):
        o = self.objs[key[0]]
        if key[1] is None and o.data is not None:
            return o.data[key[2]]
        return o.sym[key[1]].get(key[2], _MISS)

    def poke(self, key, v):
        o = self.objs[key[0]]
        if key[1] is None and o.data is not None:
            o.data[key[2]] = v
        elif v is _MISS:
            o.sym[key[1]].pop(key[2], None)
        else:
            o.sym[key[1]][key[2]] = v


class _Miss:
    pass


_MISS = _Miss()


class MergedPhi(dict):
    pass


def float_of(bs):
    b0 = bs[0]
    if b0.__class__ is tuple:
        t = b0[0]
        if t.w == 0 and b0[1] == 0 and len(bs) == 4:
            b = bs[3]
            if b.__class__ is tuple and b[0] is t and b[1] == 3 and bs[1].__class__ is tuple and bs[1][0] is t and bs[2].__class__ is tuple and bs[2][0] is t:
                return t
    return T.bits2f(T.frombytes(bs, 32))


def merge_bytes(c, A, B):
    n = len(A)
    if n == 1:
        a, b = A[0], B[0]
        if a is b or (a.__class__ is int and b.__class__ is int and a == b) or (a.__class__ is tuple and b.__class__ is tuple and a[0] is b[0] and a[1] == b[1]):
            return [a]
        if a is None:
            return [b]
        if b is None:
            return [a]
        return T.tobytes(T.ite(c, T.frombytes([a], 8), T.frombytes([b], 8), 8), 8)[:1]
    if n == 4:
        ta = A[0][0] if A[0].__class__ is tuple else None
        tb = B[0][0] if B[0].__class__ is tuple else None
        if (ta is not None and ta.w == 0) or (tb is not None and tb.w == 0):
            return list(T.tobytes(T.ite(c, float_of(A), float_of(B), 0), 32))
    va, vb = T.frombytes(A, 8 * n), T.frombytes(B, 8 * n)
    if va is UNDEF:
        return B
    if vb is UNDEF:
        return A
    return list(T.tobytes(T.ite(c, va, vb, 8 * n), 8 * n))


def merge_val(c, a, b):
    if a is None and b is None:
        return None
    if a.__class__ is tuple:
        return tuple(merge_val(c, x, y) for x, y in zip(a, b))
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    w = None
    for x in (a, b):
        if x.__class__ is Term:
            w = x.w
    if w is None:
        if a == b:
            return a
        w = 64  # width unknown: both concrete
        return T.ite(c, a, b, w)
    return T.ite(c, a, b, w)


# ------------------------------------------------------------------ post-dominators
def succs(b):
    last = b.lines[-1]
    if last.startswith("ret") or last.startswith("unreachable") or last.startswith("resume"):
        return []
    return ["%" + m for m in re.findall(r'label %("[^"]*"|[-\w$.]+)', last)]


def ipdom(f, bname):
    """immediate post-dominator, ignoring paths that end in unreachable (panics)"""
    if f.ipdom is None:
        f.ipdom = compute_ipdom(f)
    return f.ipdom.get(bname)


def compute_ipdom(f):
    S = {n: succs(b) for n, b in f.blocks.items()}
    # blocks that can reach a ret
    good = set()
    preds = {n: [] for n in S}
    work = []
    for n, ss in S.items():
        for s in ss:
            preds[s].append(n)
        if f.blocks[n].lines[-1].startswith("ret"):
            work.append(n)
            good.add(n)
    while work:
        n = work.pop()
        for p in preds[n]:
            if p not in good:
                good.add(p)
                work.append(p)
    EXIT = None
    # reverse post order on reversed graph
    order = []
    seen = set()

    def dfs(root):
        stack = [(root, iter(rp(root)))]
        seen.add(root)
        while stack:
            n, it = stack[-1]
            for m in it:
                if m not in seen:
                    seen.add(m)
                    stack.append((m, iter(rp(m))))
                    break
            else:
                order.append(n)
                stack.pop()

    rets = [n for n in good if f.blocks[n].lines[-1].startswith("ret")]

    def rp(n):
        if n == "EXIT":
            return rets
        return [p for p in preds[n] if p in good]

    dfs("EXIT")
    rpo = order[::-1]
    idx = {n: i for i, n in enumerate(rpo)}
    idom = {"EXIT": "EXIT"}

    def inter(a, b):
        while a != b:
            while idx[a] > idx[b]:
                a = idom[a]
            while idx[b] > idx[a]:
                b = idom[b]
        return a

    ch = True
    while ch:
        ch = False
        for n in rpo[1:]:
            ss = [s for s in S[n] if s in good]
            if n in rets:
                ss = ss + ["EXIT"]
            new = None
            for s in ss:
                if s in idom:
                    new = s if new is None else inter(new, s)
            if new is not None and idom.get(n) != new:
                idom[n] = new
                ch = True
    return {n: (None if d == "EXIT" else d) for n, d in idom.items() if n != "EXIT"}


# ------------------------------------------------------------------ decoding
FLAGS = set("nuw nsw exact inbounds nusw disjoint nneg samesign fast nnan ninf nsz arcp contract afn reassoc volatile atomic unordered monotonic acquire release acq_rel seq_cst tail musttail notail".split())


def getter(v):
    if v.__class__ is str:
        return lambda r: r[v]
    return lambda r: v


def decode_block(f, b):
    ins = []
    phis = []
    mod = f.mod
    for line in b.lines:
        dst = None
        s = line
        if line[0] == "%":
            m = re.match(r'(%(?:"[^"]*"|[-\w$.]+)) = ', line)
            dst = m.group(1)
            s = line[m.end() :]
        sp = s.find(" ")
        op = s[:sp] if sp > 0 else s
        if op == "phi":
            p = P(mod, s[4:])
            while p.kind() == "w" and p.peek() in FLAGS:
                p.next()
            ty = p.type()
            d = {}
            while True:
                p.expect("[")
                v = p.val(ty)
                p.expect(",")
                l = p.next()
                p.expect("]")
                d[l] = v
                if not p.eat(","):
                    break
                if p.kind() == "md":
                    break
            d["#merged"] = ("#phi", dst)
            pm = _PhiMap(d)
            pm.ty = ty
            phis.append((dst, pm))
            continue
        if op in ("br", "ret", "switch", "unreachable", "resume", "invoke"):
            b.term = decode_term(mod, op, s, dst)
            continue
        if op in ("tail", "musttail", "notail"):
            s = s[sp + 1 :]
            op = "call"
        if op == "call":
            fn = decode_call(mod, s, dst)
            if fn is not None:
                ins.append((dst, fn))
            continue
        d = DECODE.get(op)
        if d is None:
            raise Unsupported(f"instruction {op}: {line[:200]}")
        p = P(mod, s[sp + 1 :])
        fl = []
        while p.kind() == "w" and p.peek() in FLAGS:
            fl.append(p.next())
        ins.append((dst, d(p, op, fl)))
    b.phis = phis
    b.ins = ins


class _PhiMap(dict):
    """phi operand map; after a merge the value was already placed in regs[('#phi', dst)]"""


def decode_term(mod, op, s, dst):
    p = P(mod, s[len(op) :])
    if op == "br":
        if p.eat("label"):
            return ("br", p.next())
        p.expect("i1")
        c = p.val(("i", 1))
        p.expect(",")
        p.expect("label")
        a = p.next()
        p.expect(",")
        p.expect("label")
        b = p.next()
        return ("cbr", c, a, b)
    if op == "ret":
        if p.eat("void"):
            return ("ret", None)
        ty = p.type()
        return ("ret", p.val(ty))
    if op == "switch":
        ty = p.type()
        v = p.val(ty)
        p.expect(",")
        p.expect("label")
        d = p.next()
        p.expect("[")
        cs = []
        while not p.eat("]"):
            t2 = p.type()
            c = p.const(t2)
            p.expect(",")
            p.expect("label")
            cs.append((c, p.next()))
        return ("switch", v, d, cs, ty[1], dict(cs))
    if op == "unreachable":
        return ("unreachable",)
    if op == "invoke":
        m = re.search(r"\bto label (%[^ ]+)\s+unwind label (%[^ ]+)", s)
        fn = decode_call(mod, "call" + s[6 : m.start()], dst)
        return ("invoke", fn or (lambda ex, r, a: None), dst, m.group(1))
    return ("resume",)


def lanes(ty):
    return ty[1] if ty[0] == "v" else 0


def elt(ty):
    return ty[2] if ty[0] == "v" else ty


def width(ty):
    if ty[0] == "i":
        return ty[1]
    if ty[0] == "ptr":
        return 64
    if ty == FLOAT:
        return 0
    raise Unsupported(str(ty))


def two(p):
    ty = p.type()
    a = p.val(ty)
    p.expect(",")
    b = p.val(ty)
    return ty, a, b


def val(v, r):
    if v.__class__ is str:
        return r[v]
    return v


def bin_factory(ty, a, b, f):
    """f(x, y) on scalars"""
    if ty[0] == "v":

        def g(ex, r, al):
            x = r[a] if a.__class__ is str else a
            y = r[b] if b.__class__ is str else b
            return tuple([f(p, q) for p, q in zip(x, y)])

        return g

    def g(ex, r, al):
        x = r[a] if a.__class__ is str else a
        y = r[b] if b.__class__ is str else b
        return f(x, y)

    return g


def d_fbin(p, op, fl):
    ty, a, b = two(p)
    if elt(ty) == DOUBLE:
        return bin_factory(ty, a, b, lambda x, y: dbl_bin(op, x, y))
    if elt(ty) != FLOAT:
        raise Unsupported(f"{op} {ty}")
    return bin_factory(ty, a, b, lambda x, y: T.fbin(op, x, y))


# doubles are only followed when they are concrete
def dbl(x):
    if x.__class__ is tuple and x[0] == "dbl":
        return x[1]
    raise Unsupported(f"double that is not a constant: {x}")


def dbl_bin(op, x, y):
    x, y = dbl(x), dbl(y)
    try:
        if op == "fdiv":
            if y == 0:
                return ("dbl", math.nan if x == 0 or math.isnan(x) else math.copysign(math.inf, x) * math.copysign(1, y))
            return ("dbl", x / y)
        return ("dbl", {"fadd": x + y, "fsub": x - y, "fmul": x * y}[op])
    except (OverflowError, KeyError):
        raise Unsupported(f"{op} double")


def dbl_cmp(pred, x, y):
    x, y = dbl(x), dbl(y)
    if pred in ("true", "false"):
        return int(pred == "true")
    un = math.isnan(x) or math.isnan(y)
    if pred in ("ord", "uno"):
        return int(un == (pred == "uno"))
    r = {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y, "ne": x != y}[pred[1:]]
    return int((r or un) if pred[0] == "u" else (r and not un))


def dbl_of_int(x, w, signed):
    if x.__class__ is not int:
        raise Unsupported("double of a symbolic integer")
    return ("dbl", float(T.sgn(x, w) if signed else x))


def int_of_dbl(x, w, signed, sat):
    x = dbl(x)
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    if math.isnan(x):
        if not sat:
            raise PathEnd("ub", "conversion of NaN to an integer")
        return 0
    v = hi if x == math.inf else lo if x == -math.inf else int(x)
    if not lo <= v <= hi:
        if not sat:
            raise PathEnd("ub", "conversion of a double out of the integer's range")
        v = min(max(v, lo), hi)
    return v & ((1 << w) - 1)


def dbl_fun(base, x):
    x = dbl(x)
    if base in ("floor", "ceil", "trunc", "round", "rint") and not math.isfinite(x):
        return ("dbl", x)
    if base in ("sin", "cos") and math.isfinite(x):
        return ("dbl", getattr(math, base)(x))
    if base == "round":
        return ("dbl", math.copysign(float(math.floor(abs(x) + 0.5)) if abs(x) < 2.0**52 and abs(x) != 0.49999999999999994 else (0.0 if abs(x) < 1 else abs(x)), x))
    if base == "rint":
        return ("dbl", float(round(x)))
    f = {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "fabs": abs, "sqrt": math.sqrt}.get(base)
    if f is None:
        raise Unsupported(f"{base} double")
    return ("dbl", math.copysign(float(f(x)), x) if base != "fabs" else abs(x))


def dbl_minmax(op, x, y):
    a, b = dbl(x), dbl(y)
    if math.isnan(a):
        return y
    if math.isnan(b):
        return x
    return x if (a > b if op == "max" else a < b) else y


def d_ibin(p, op, fl):
    ty, a, b = two(p)
    w = width(elt(ty))
    m = (1 << w) - 1
    if op == "add":
        f = lambda x, y: T.add(x, y, w)
    elif op == "sub":
        f = lambda x, y: T.sub(x, y, w) if x is not UNDEF and y is not UNDEF else UNDEF
    elif op == "mul":
        f = lambda x, y: T.mul(x, y, w)
    elif op == "and":
        f = lambda x, y: T.band(x, y, w)
    elif op == "or":
        if "disjoint" in fl:

            def f(x, y):
                if x.__class__ is int and y.__class__ is int:
                    return x | y
                r = T.bor(x, y, w)
                if isinstance(r, Term) and r.op == "or":
                    return T.add(x, y, w)
                return r

        else:
            f = lambda x, y: T.bor(x, y, w)
    elif op == "xor":
        f = lambda x, y: T.bxor(x, y, w)
    elif op == "shl":
        f = lambda x, y: T.shl(x, y, w)
    elif op == "lshr":
        f = lambda x, y: T.lshr(x, y, w)
    elif op == "ashr":
        f = lambda x, y: T.ashr(x, y, w)
    elif op in ("udiv", "urem", "sdiv", "srem"):
        g0 = T.udiv if op[1:] == "div" else T.urem
        signed = op[0] == "s"

        def g(ex, r, al):
            x, y = val(a, r), val(b, r)
            if ty[0] == "v":
                raise Unsupported("vector division")
            if x is UNDEF or y is UNDEF:
                raise PathEnd("ub", "division with undefined operand")
            if y.__class__ is int:
                if y == 0:
                    raise PathEnd("ub", "division by zero")
            else:
                ex.oblige(T.icmp("eq", y, 0, w), "division by zero")
            if signed:
                if x.__class__ is int and y.__class__ is int:
                    xs, ys = T.sgn(x, w), T.sgn(y, w)
                    q = abs(xs) // abs(ys)
                    if (xs < 0) != (ys < 0):
                        q = -q
                    return (q if op == "sdiv" else xs - q * ys) & m
                if not all(z.__class__ is int and z < (1 << (w - 1)) or z.__class__ is Term and z.hi < (1 << (w - 1)) for z in (x, y)):
                    raise Unsupported("signed division")
            return g0(x, y, w)

        return g
    else:
        raise Unsupported(op)
    return bin_factory(ty, a, b, f)


PRED = "eq ne ugt uge ult ule sgt sge slt sle".split()


def d_icmp(p, op, fl):
    pred = p.next()
    if pred == "samesign":
        pred = p.next()
    ty, a, b = two(p)
    w = width(elt(ty))
    return bin_factory(ty, a, b, lambda x, y: T.icmp(pred, x, y, w))


def d_fcmp(p, op, fl):
    pred = p.next()
    while pred in FLAGS:
        pred = p.next()
    ty, a, b = two(p)
    if elt(ty) == DOUBLE:
        return bin_factory(ty, a, b, lambda x, y: dbl_cmp(pred, x, y))
    return bin_factory(ty, a, b, lambda x, y: T.fcmp(pred, x, y))


def d_fneg(p, op, fl):
    ty = p.type()
    a = p.val(ty)
    if ty[0] == "v":
        return lambda ex, r, al: tuple(T.fneg(x) for x in val(a, r))
    return lambda ex, r, al: T.fneg(val(a, r))


def d_load(p, op, fl):
    ty = p.type()
    p.expect(",")
    pt = p.type()
    a = p.val(pt)
    al_ = 1
    while p.kind() != "eof":
        if p.next() == "align":
            al_ = int(p.next())
            break
    if ty == ll.PTR or ty[0] == "i":
        w = 64 if ty == ll.PTR else ty[1]
        n = (w + 7) // 8

        def g(ex, r, al):
            return T.frombytes(ex.load_bytes(r[a] if a.__class__ is str else a, n, al_), w)

        return g
    n = sizeof(ty)
    if ty == FLOAT:
        return lambda ex, r, al: float_of(ex.load_bytes(r[a] if a.__class__ is str else a, 4, al_))

    def g(ex, r, al):
        return ex.unbytes(ty, ex.load_bytes(r[a] if a.__class__ is str else a, n, al_))

    return g


def d_store(p, op, fl):
    ty = p.type()
    v = p.val(ty)
    p.expect(",")
    pt = p.type()
    a = p.val(pt)
    al_ = 1
    while p.kind() != "eof":
        if p.next() == "align":
            al_ = int(p.next())
            break

    def g(ex, r, al):
        x = r[v] if v.__class__ is str else v
        ex.store_bytes(r[a] if a.__class__ is str else a, ex.bytes_of(ty, x), al_)

    return g


def d_alloca(p, op, fl):
    ty = p.type()
    n = sizeof(ty)
    al_ = 1
    while p.eat(","):
        if p.peek() == "align":
            p.next()
            al_ = int(p.next())
        else:
            t = p.type()
            v = p.val(t)
            if v.__class__ is str:
                raise Unsupported("dynamic alloca")
            n *= v

    def g(ex, r, al):
        o = ex.new_obj(n, "stack", "", max(al_, 16))
        al.append(o)
        return o.base

    return g


def d_gep(p, op, fl):
    bt = p.type()
    p.expect(",")
    pt = p.type()
    if pt[0] == "v":
        raise Unsupported("vector gep")
    base = p.val(pt)
    idx = []
    cur = bt
    first = True
    const = 0
    while p.eat(","):
        it = p.type()
        v = p.val(it)
        if first:
            sc = sizeof(bt)
            first = False
        elif cur[0] == "s":
            o, cur = ll.field(cur, v)
            const += o
            continue
        else:
            sc = sizeof(cur[2])
            cur = cur[2]
        if v.__class__ is str:
            idx.append((v, sc, it[1]))
        else:
            const += T.sgn(v, it[1]) * sc
    if not idx:

        def g(ex, r, al):
            x = r[base] if base.__class__ is str else base
            if x.__class__ is int:
                return (x + const) & T.M64
            return T.add(x, const & T.M64, 64)

        return g

    def g(ex, r, al):
        x = r[base] if base.__class__ is str else base
        for v, sc, w in idx:
            i = r[v]
            if w != 64:
                i = T.sext(i, w, 64)
            x = T.add(x, T.mulc(i, sc, 64), 64)
        if const:
            x = T.add(x, const & T.M64, 64)
        return x

    return g


def d_select(p, op, fl):
    ct = p.type()
    c = p.val(ct)
    p.expect(",")
    ty = p.type()
    a = p.val(ty)
    p.expect(",")
    p.type()
    b = p.val(ty)
    et = elt(ty)
    if ct[0] == "v":
        w = width(et)
        return lambda ex, r, al: tuple(T.ite(cc, x, y, w) for cc, x, y in zip(val(c, r), val(a, r), val(b, r)))

    def g(ex, r, al):
        cc = r[c] if c.__class__ is str else c
        x = r[a] if a.__class__ is str else a
        y = r[b] if b.__class__ is str else b
        if cc.__class__ is int:
            return x if cc else y
        if cc is UNDEF:
            return UNDEF
        if not has_data(cc):
            if x.__class__ is int and y.__class__ is int and x == y:
                return x
            if x is y:
                return x
            # a layout-dependent pointer/int selection: decide now (keeps addresses simple)
            return x if ex.decide(cc) else y
        if ty[0] == "v":
            w = width(et)
            return tuple(T.ite(cc, u, v, w) for u, v in zip(x, y))
        if ty[0] in ("s", "a"):
            return merge_val(cc, x, y)
        return T.ite(cc, x, y, width(ty))

    return g


def vec_bytes(ex, ty, v):
    return ex.bytes_of(ty, v)


def d_cast(p, op, fl):
    t1 = p.type()
    a = p.val(t1)
    p.expect("to")
    t2 = p.type()
    e1, e2 = elt(t1), elt(t2)
    if op == "bitcast":
        return mk_bitcast(t1, t2, a)
    if op in ("ptrtoint", "inttoptr", "addrspacecast"):
        w1, w2 = width(e1), width(e2)

        def f(x):
            return x if w1 == w2 else (T.trunc(x, w2) if w2 < w1 else T.zext(x, w1, w2))

    elif op == "zext":
        w1, w2 = width(e1), width(e2)
        f = lambda x: x if x.__class__ is int else T.zext(x, w1, w2)
        if w1 == 1 and t1[0] == "i":

            def zext_bool(ex, r, al):
                x = val(a, r)
                if ex.acc is not None and isinstance(x, Term) and not has_data(x):
                    return int(ex.decide(x))
                return f(x)

            return zext_bool
    elif op == "sext":
        w1, w2 = width(e1), width(e2)
        f = lambda x: T.sext(x, w1, w2)
    elif op == "trunc":
        w2 = width(e2)
        f = lambda x: T.trunc(x, w2)
    elif op in ("uitofp", "sitofp"):
        w1 = width(e1)
        sg = op == "sitofp"
        if e2 == DOUBLE:
            f = lambda x: dbl_of_int(x, w1, sg)
        elif e2 != FLOAT:
            raise Unsupported(f"{op} {t2}")
        else:
            f = lambda x: T.i2f(x, w1, sg)
    elif op in ("fptoui", "fptosi"):
        w2 = width(e2)
        if e1 == DOUBLE:
            f = lambda x: int_of_dbl(x, w2, op == "fptosi", False)
        else:
            f = lambda x: T.f2i("tr", x, w2)
    else:
        raise Unsupported(op)
    if t1[0] == "v":
        return lambda ex, r, al: tuple([f(x) for x in val(a, r)])
    return lambda ex, r, al: f(r[a] if a.__class__ is str else a)


def pack_bits(v):
    """tuple of i1 -> integer"""
    n = len(v)
    if all(x.__class__ is int for x in v):
        return sum(x << i for i, x in enumerate(v))
    return T.mk("bits", (tuple(v),), n)


def mk_bitcast(t1, t2, a):
    if t1 == t2:
        return lambda ex, r, al: val(a, r)
    if t1[0] == "v" and t1[2] == ("i", 1):
        if t2[0] == "i":
            return lambda ex, r, al: pack_bits(val(a, r))
        raise Unsupported("bitcast of <N x i1>")
    if t2[0] == "v" and t2[2] == ("i", 1):

        def g(ex, r, al):
            v = val(a, r)
            if v.__class__ is int:
                return tuple((v >> i) & 1 for i in range(t2[1]))
            if v.op == "bits":
                return v.args[0]
            raise Unsupported("bitcast to <N x i1>")

        return g
    if t1[0] == "v" and t2[0] == "v" and sizeof(t1[2]) == sizeof(t2[2]):
        if t1[2] == FLOAT:
            return lambda ex, r, al: tuple([T.f2bits(x) for x in val(a, r)])
        if t2[2] == FLOAT:
            return lambda ex, r, al: tuple([T.bits2f(x) for x in val(a, r)])
        return lambda ex, r, al: val(a, r)
    if t1 == FLOAT:
        return lambda ex, r, al: T.f2bits(val(a, r))
    if t2 == FLOAT and t1[0] == "i":
        return lambda ex, r, al: T.bits2f(val(a, r))
    return lambda ex, r, al: ex.unbytes(t2, ex.bytes_of(t1, val(a, r)))


def d_freeze(p, op, fl):
    ty = p.type()
    a = p.val(ty)

    def fz(x):
        if x is UNDEF:
            return 0
        if x.__class__ is tuple and x and x[0] != "dbl":
            return tuple(fz(y) for y in x)
        return x

    return lambda ex, r, al: fz(val(a, r))


def d_extractelement(p, op, fl):
    ty = p.type()
    a = p.val(ty)
    p.expect(",")
    it = p.type()
    i = p.val(it)

    def g(ex, r, al):
        k = val(i, r)
        if k.__class__ is not int:
            raise Unsupported("symbolic lane")
        return val(a, r)[k]

    return g


def d_insertelement(p, op, fl):
    ty = p.type()
    a = p.val(ty)
    p.expect(",")
    et = p.type()
    e = p.val(et)
    p.expect(",")
    it = p.type()
    i = p.val(it)

    def g(ex, r, al):
        v = list(val(a, r))
        k = val(i, r)
        if k.__class__ is not int:
            raise Unsupported("symbolic lane")
        v[k] = val(e, r)
        return tuple(v)

    return g


def d_shufflevector(p, op, fl):
    t1 = p.type()
    a = p.val(t1)
    p.expect(",")
    t2 = p.type()
    b = p.val(t2)
    p.expect(",")
    mt = p.type()
    m = p.const(mt)
    u = ll.undef_of(t1[2])

    def g(ex, r, al):
        v = val(a, r) + val(b, r)
        return tuple([u if k is UNDEF else v[k] for k in m])

    return g


def d_extractvalue(p, op, fl):
    ty = p.type()
    a = p.val(ty)
    idx = []
    while p.eat(","):
        if p.kind() != "int":
            break
        idx.append(int(p.next()))

    def g(ex, r, al):
        v = val(a, r)
        for i in idx:
            v = v[i]
        return v

    return g


def d_insertvalue(p, op, fl):
    ty = p.type()
    a = p.val(ty)
    p.expect(",")
    et = p.type()
    e = p.val(et)
    idx = []
    while p.eat(","):
        if p.kind() != "int":
            break
        idx.append(int(p.next()))

    def setv(v, idx, x):
        if not idx:
            return x
        l = list(v)
        l[idx[0]] = setv(l[idx[0]], idx[1:], x)
        return tuple(l)

    return lambda ex, r, al: setv(val(a, r), idx, val(e, r))


def d_fence(p, op, fl):
    return lambda ex, r, al: None


def d_atomicrmw(p, op, fl):
    o = p.next()
    while o in FLAGS:
        o = p.next()
    pt = p.type()
    a = p.val(pt)
    p.expect(",")
    ty = p.type()
    v = p.val(ty)
    w = width(ty)

    def g(ex, r, al):
        old = ex.load(ty, val(a, r))
        x = val(v, r)
        n = {"add": lambda: T.add(old, x, w), "sub": lambda: T.sub(old, x, w), "xchg": lambda: x, "or": lambda: T.bor(old, x, w), "and": lambda: T.band(old, x, w), "xor": lambda: T.bxor(old, x, w)}.get(o)
        if n is None:
            n = lambda: T.minmax(o, old, x, w)
        ex.store_bytes(val(a, r), ex.bytes_of(ty, n()))
        return old

    return g


def d_cmpxchg(p, op, fl):
    while p.kind() == "w" and p.peek() in ("weak", "volatile"):
        p.next()
    pt = p.type()
    a = p.val(pt)
    p.expect(",")
    ty = p.type()
    c = p.val(ty)
    p.expect(",")
    p.type()
    n = p.val(ty)

    def g(ex, r, al):
        old = ex.load(ty, val(a, r))
        eq = T.icmp("eq", old, val(c, r), width(ty))
        if eq.__class__ is not int:
            raise Unsupported("symbolic cmpxchg")
        if eq:
            ex.store_bytes(val(a, r), ex.bytes_of(ty, val(n, r)))
        return (old, eq)

    return g


def d_landingpad(p, op, fl):
    def g(ex, r, al):
        raise Unsupported("landingpad")

    return g


DECODE = {}
for o in "fadd fsub fmul fdiv frem".split():
    DECODE[o] = d_fbin
for o in "add sub mul and or xor shl lshr ashr udiv urem sdiv srem".split():
    DECODE[o] = d_ibin
for o in "bitcast ptrtoint inttoptr zext sext trunc uitofp sitofp fptoui fptosi addrspacecast".split():
    DECODE[o] = d_cast
DECODE.update(
    icmp=d_icmp, fcmp=d_fcmp, fneg=d_fneg, load=d_load, store=d_store, alloca=d_alloca, getelementptr=d_gep, select=d_select, freeze=d_freeze,
    extractelement=d_extractelement, insertelement=d_insertelement, shufflevector=d_shufflevector, extractvalue=d_extractvalue,
    insertvalue=d_insertvalue, fence=d_fence, atomicrmw=d_atomicrmw, cmpxchg=d_cmpxchg, landingpad=d_landingpad,
)

NOOP = (
    "@llvm.lifetime.", "@llvm.experimental.noalias", "@llvm.dbg", "@llvm.assume", "@llvm.prefetch", "@llvm.x86.sse2.pause", "@llvm.donothing", "@llvm.invariant",
    "@llvm.x86.avx.vzeroupper",
)


def decode_call(mod, s, dst):
    p = P(mod, s)
    while p.kind() == "w" and (p.peek() in ("call", "fastcc", "coldcc", "ccc", "tailcc", "preserve_mostcc", "preserve_allcc", "addrspace") or p.peek() in FLAGS):
        p.next()
    p.attrs()
    rt = p.type()
    # function type in parens for varargs
    if p.peek() == "(":
        p.skip_paren()
    k, cal = p.t[p.i]
    p.i += 1
    if k != "id":
        if cal == "asm":
            asm = ""
            while p.peek() != "(":
                if p.kind() == "str":
                    asm += p.peek()
                p.next()
            if asm.startswith('""'):
                # empty asm (black_box): arguments are memory clobbers only
                p.expect("(")
                return (lambda ex, r, al: None)

            def g(ex, r, al):
                raise Unsupported("inline asm " + asm)

            return g
        raise Unsupported("call of " + cal)
    if cal.startswith(NOOP):
        if dst is None:
            return None
    p.expect("(")
    args = []
    if not p.eat(")"):
        while True:
            t = p.type()
            if t == ("metadata",):
                # skip
                d = 0
                while not (d == 0 and p.peek() in (",", ")")):
                    x = p.next()
                    d += x == "("
                    d -= x == ")"
                args.append((t, None))
            else:
                p.attrs()
                args.append((t, p.val(t)))
            if p.eat(")"):
                break
            p.expect(",")
    if cal[0] == "@":
        if cal.startswith("@llvm."):
            return intrinsic(cal, rt, args)
        vs = [a for _, a in args]

        def g(ex, r, al):
            return ex.call(cal, [r[v] if v.__class__ is str else v for v in vs])

        return g
    vs = [a for _, a in args]

    def g(ex, r, al):
        return ex.call_addr(r[cal], [r[v] if v.__class__ is str else v for v in vs])

    return g


# ------------------------------------------------------------------ intrinsics
def intrinsic(name, rt, args):
    n = name[6:]
    vs = [a for _, a in args]
    ty0 = args[0][0] if args else None

    def A(i, r):
        v = vs[i]
        return r[v] if v.__class__ is str else v

    def un(f):
        if rt[0] == "v":
            return lambda ex, r, al: tuple([f(x) for x in A(0, r)])
        return lambda ex, r, al: f(A(0, r))

    def bi(f):
        if rt[0] == "v":
            return lambda ex, r, al: tuple([f(x, y) for x, y in zip(A(0, r), A(1, r))])
        return lambda ex, r, al: f(A(0, r), A(1, r))

    base = n.split(".")[0]
    if base in ("fma", "fmuladd"):
        if rt[0] == "v":
            return lambda ex, r, al: tuple([T.fma(x, y, z) for x, y, z in zip(A(0, r), A(1, r), A(2, r))])
        return lambda ex, r, al: T.fma(A(0, r), A(1, r), A(2, r))
    if base in ("sqrt", "floor", "ceil", "trunc", "rint", "round", "fabs", "log", "exp", "log2", "exp2", "log10", "nearbyint", "roundeven", "sin", "cos"):
        if base in ("nearbyint", "roundeven"):
            base = "rint"
        if elt(rt) == DOUBLE:
            return un(lambda x: dbl_fun(base, x))
        return un(lambda x: T.fun1(base, x))
    if base in ("pow", "powf"):
        return bi(lambda x, y: pow_(x, y))
    if base == "copysign":
        return bi(lambda x, y: T.mk("copysign", (x, y), 0))
    if base in ("maximumnum", "maxnum", "minimumnum", "minnum", "maximum", "minimum"):
        op = "max" if base.startswith("max") else "min"
        if elt(rt) == DOUBLE:
            return bi(lambda x, y: dbl_minmax(op, x, y))
        return bi(lambda x, y: fminmax(op, x, y))
    if base in ("fptoui", "fptosi") and ".sat." in n:
        kind = "usat" if base == "fptoui" else "ssat"
        w = width(elt(rt))
        if elt(ty0) == DOUBLE:
            return un(lambda x: int_of_dbl(x, w, base == "fptosi", True))
        return un(lambda x: T.f2i(kind, x, w))
    if base in ("umin", "umax", "smin", "smax"):
        w = width(elt(rt))
        if rt[0] == "i":

            def mm(ex, r, al):
                x, y = A(0, r), A(1, r)
                t = T.minmax(base, x, y, w)
                if isinstance(t, Term) and t.op == "ite" and not has_data(t.args[0]):
                    k = ex.known(t.args[0])
                    if k is not None:
                        return t.args[1] if k else t.args[2]
                return t

            return mm
        return bi(lambda x, y: T.minmax(base, x, y, w))
    if base in ("usub", "uadd", "ssub", "sadd") and ".sat" in n:
        w = width(elt(rt))
        m = (1 << w) - 1
        if base == "usub":

            def f(x, y):
                if x.__class__ is int and y.__class__ is int:
                    return max(0, x - y)
                return T.ite(T.icmp("ult", x, y, w), 0, T.sub(x, y, w), w)

        elif base == "uadd":

            def f(x, y):
                if x.__class__ is int and y.__class__ is int:
                    return min(m, x + y)
                s = T.add(x, y, w)
                if isinstance(s, Term) and s.nowrap and s.op == "lin":
                    return s
                return T.ite(T.icmp("ult", s, x, w), m, s, w)

        else:
            h = 1 << (w - 1)

            def sr(x):
                if x.__class__ is int:
                    return (T.sgn(x, w),) * 2
                return (x.lo, x.hi) if x.hi < h else (-h, h - 1)

            def f(x, y):
                if x is UNDEF or y is UNDEF:
                    return UNDEF
                (a, b), (c, d) = sr(x), sr(y)
                lo, hi = (a + c, b + d) if base == "sadd" else (a - d, b - c)
                if lo >= -h and hi < h:
                    return T.add(x, y, w) if base == "sadd" else T.sub(x, y, w)
                x, y = T.sext(x, w, 2 * w), T.sext(y, w, 2 * w)
                v = T.add(x, y, 2 * w) if base == "sadd" else T.sub(x, y, 2 * w)
                return T.trunc(T.minmax("smin", T.minmax("smax", v, -h & ((1 << 2 * w) - 1), 2 * w), h - 1, 2 * w), w)

        return bi(f)
    if ".with.overflow" in n:
        w = rt[1][0][1]
        kind = base

        def g(ex, r, al):
            x, y = A(0, r), A(1, r)
            return with_overflow(kind, x, y, w)

        return g
    if base in ("ucmp", "scmp"):
        w = width(elt(ty0))
        w2 = width(elt(rt))
        u = "u" if base == "ucmp" else "s"

        def f(x, y):
            lt = T.icmp(u + "lt", x, y, w)
            gt = T.icmp(u + "gt", x, y, w)
            return T.ite(lt, (1 << w2) - 1, T.ite(gt, 1, 0, w2), w2)

        return bi(f)
    if base in ("ctpop", "ctlz", "cttz", "bswap", "bitreverse"):
        w = width(elt(rt))

        def f(x):
            if x.__class__ is not int:
                raise Unsupported(f"{base} of symbolic value {x}")
            if base == "ctpop":
                return bin(x).count("1")
            if base == "ctlz":
                return w - x.bit_length()
            if base == "cttz":
                return w if x == 0 else (x & -x).bit_length() - 1
            if base == "bswap":
                return int.from_bytes(x.to_bytes(w // 8, "little"), "big")
            return int(bin(x)[2:].zfill(w)[::-1], 2)

        return un(f)
    if base in ("fshl", "fshr"):
        w = width(elt(rt))

        def g(ex, r, al):
            a, b, c = A(0, r), A(1, r), A(2, r)
            if rt[0] == "v" or c.__class__ is not int:
                raise Unsupported(name)
            c %= w
            if base == "fshr":
                c = (w - c) % w
                a, b = (a, b) if c else (b, a)
            if c == 0:
                return a
            return T.bor(T.shl(a, c, w), T.lshr(b, w - c, w), w)

        return g
    if base in ("memcpy", "memmove"):

        def g(ex, r, al):
            d, s, ln = A(0, r), A(1, r), A(2, r)
            if ln.__class__ is not int:
                ln = ex.concretize(ln) if hasattr(ex, "concretize") else None
                if ln is None:
                    raise Unsupported("symbolic memcpy length")
            if ln == 0:
                return None
            ex.store_bytes(d, list(ex.load_bytes(s, ln)))

        return g
    if base == "memset":

        def g(ex, r, al):
            d, v, ln = A(0, r), A(1, r), A(2, r)
            if ln.__class__ is not int:
                raise Unsupported("symbolic memset length")
            if ln:
                ex.store_bytes(d, list(T.tobytes(v, 8)) * ln)

        return g
    if n.startswith("is.constant"):
        return lambda ex, r, al: 0
    if n.startswith("trap") or n.startswith("ubsantrap"):

        def g(ex, r, al):
            raise PathEnd("abort", "trap")

        return g
    if n.startswith("load.relative"):

        def g(ex, r, al):
            p_, o = A(0, r), A(1, r)
            off = ex.load(("i", 32), T.add(p_, o, 64))
            if off in REL:
                return T.add(p_, REL[off], 64)
            return T.add(p_, T.sext(off, 32, 64), 64)

        return g
    if n.startswith("expect"):
        return lambda ex, r, al: A(0, r)
    if n.startswith("threadlocal.address"):
        return lambda ex, r, al: A(0, r)
    if base == "assume":
        return lambda ex, r, al: None
    if base == "vector" and n.startswith("vector.reduce."):
        return vreduce(n, A, ty0)
    if base == "abs":
        w = width(elt(rt))

        def f(x):
            if x.__class__ is int:
                return abs(T.sgn(x, w)) & ((1 << w) - 1)
            return T.ite(T.icmp("slt", x, 0, w), T.sub(0, x, w), x, w)

        return un(f)
    if base == "x86":
        return x86(n, rt, args, A)
    if base == "masked":
        raise Unsupported(name)

    def g(ex, r, al):
        raise Unsupported(name)

    return g


def vreduce(n, A, ty):
    op = n.split(".")[2]
    w = width(ty[2])

    def g(ex, r, al):
        v = A(0, r)
        x = v[0]
        for y in v[1:]:
            x = {"or": T.bor, "and": T.band, "add": T.add, "xor": T.bxor, "mul": T.mul}[op](x, y, w) if op in ("or", "and", "add", "xor", "mul") else T.minmax(op, x, y, w)
        return x

    return g


def with_overflow(kind, x, y, w):
    m = (1 << w) - 1
    if x is UNDEF or y is UNDEF:
        return (UNDEF, UNDEF)
    cc = x.__class__ is int and y.__class__ is int
    if kind == "umul":
        if cc:
            return ((x * y) & m, int(x * y > m))
        r = T.mul(x, y, w)
        xh = x if x.__class__ is int else x.hi
        yh = y if y.__class__ is int else y.hi
        if xh * yh <= m:
            return (r, 0)
        big = T.mul(T.zext(x, w, 2 * w), T.zext(y, w, 2 * w), 2 * w)
        ov = T.icmp("ugt", big, m, 2 * w)
        # the low half, expressed through the wide product when it does not overflow
        return (T.ite(ov, T.trunc(big, w) if False else r, wide_low(x, y, w, r), w), ov)
    if kind == "uadd":
        if cc:
            return ((x + y) & m, int(x + y > m))
        r = T.add(x, y, w)
        big = T.add(T.zext(x, w, 2 * w), T.zext(y, w, 2 * w), 2 * w)
        return (r, T.icmp("ugt", big, m, 2 * w))
    if kind == "usub":
        if cc:
            return ((x - y) & m, int(x < y))
        return (T.sub(x, y, w), T.icmp("ult", x, y, w))
    if kind in ("sadd", "ssub", "smul") and cc:
        a, b = T.sgn(x, w), T.sgn(y, w)
        v = a + b if kind == "sadd" else a - b if kind == "ssub" else a * b
        return (v & m, int(not -(1 << (w - 1)) <= v < (1 << (w - 1))))
    raise Unsupported(kind + ".with.overflow")


def wide_low(x, y, w, r):
    return r


def fminmax(op, a, b):
    """maximumnum/minimumnum: the non-NaN operand wins"""
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a.op == "fc" and b.op == "fc":
        import numpy as np

        x, y = T.f32(a.args[0]), T.f32(b.args[0])
        return T.fval(np.fmax(x, y) if op == "max" else np.fmin(x, y))
    if a.id > b.id:
        a, b = b, a
    return T.mk(op, (a, b), 0)


def x86max(op, a, b):
    """maxps/minps: a > b ? a : b (second operand on NaN)"""
    if a is UNDEF or b is UNDEF:
        return UNDEF
    c = T.fcmp("ogt" if op == "max" else "olt", a, b)
    if c.__class__ is int:
        return a if c else b
    return T.mk("x" + op, (a, b), 0)


def pow_(x, y):
    if x is UNDEF or y is UNDEF:
        return UNDEF
    return T.mk("pow", (x, y), 0)


CMP = {
    0: "oeq", 1: "olt", 2: "ole", 3: "uno", 4: "une", 5: "uge", 6: "ugt", 7: "ord", 8: "ueq", 9: "ult", 10: "ule", 11: "false", 12: "one", 13: "oge",
    14: "ogt", 15: "true",
}


def x86(n, rt, args, A):
    f = n[4:]
    if f.startswith("avx.cmp.ps"):

        def g(ex, r, al):
            pred = CMP[A(2, r) & 15]
            out = []
            for a, b in zip(A(0, r), A(1, r)):
                c = T.fcmp(pred, a, b)
                out.append(T.bits2f(T.sext(c, 1, 32)))
            return tuple(out)

        return g
    if f in ("avx.max.ps.256", "avx.min.ps.256", "sse.max.ps", "sse.min.ps"):
        op = "max" if ".max." in f else "min"
        return lambda ex, r, al: tuple([x86max(op, a, b) for a, b in zip(A(0, r), A(1, r))])
    if f.startswith("avx512.max.ps") or f.startswith("avx512.min.ps"):
        op = "max" if ".max." in f else "min"
        return lambda ex, r, al: tuple([x86max(op, a, b) for a, b in zip(A(0, r), A(1, r))])
    if f in ("avx.cvt.ps2dq.256", "sse2.cvtps2dq"):
        return lambda ex, r, al: tuple([T.f2i("rne", a, 32) for a in A(0, r)])
    if f in ("avx.cvtt.ps2dq.256", "sse2.cvttps2dq"):
        return lambda ex, r, al: tuple([T.f2i("tr", a, 32) for a in A(0, r)])
    if f.startswith("avx512.mask.cvtps2dq.512") or f.startswith("avx512.mask.cvttps2dq.512"):
        kind = "rne" if "cvtps" in f else "tr"

        def g(ex, r, al):
            mask = A(2, r)
            if mask != 0xFFFF:
                raise Unsupported(n)
            if kind == "rne" and A(3, r) not in (4, 8):
                raise Unsupported(n + " rounding")
            return tuple([T.f2i(kind, a, 32) for a in A(0, r)])

        return g
    if f in ("avx2.packusdw", "sse41.packusdw", "avx512.packusdw.512"):
        return pack(A, "satu", 32, 16)
    if f in ("avx2.packuswb", "sse2.packuswb.128", "avx512.packuswb.512"):
        return pack(A, "satu", 16, 8)
    if f in ("avx2.packssdw", "sse2.packssdw.128", "avx512.packssdw.512"):
        return pack(A, "sats", 32, 16)
    if f in ("avx2.packsswb", "sse2.packsswb.128", "avx512.packsswb.512"):
        return pack(A, "sats", 16, 8)
    if f in ("avx2.pmadd.wd", "sse2.pmadd.wd", "avx512.pmaddw.d.512"):

        def g(ex, r, al):
            out = []
            ps = []
            for x, y in zip(A(0, r), A(1, r)):
                if x.__class__ is Term and y.__class__ is Term:
                    raise Unsupported(n + " of two symbolic vectors")
                ps.append(T.mul(T.sext(x, 16, 32), T.sext(y, 16, 32), 32))
            for i in range(0, len(ps), 2):
                out.append(T.add(ps[i], ps[i + 1], 32))
            return tuple(out)

        return g
    if f in ("avx2.permd", "avx2.permps") or f.startswith("avx512.permvar"):

        def g(ex, r, al):
            v, ix = A(0, r), A(1, r)
            return tuple([v[i % len(v)] for i in ix])

        return g
    if f.startswith("avx512.vpermi2var"):

        def g(ex, r, al):
            a, ix, b = A(0, r), A(1, r), A(2, r)
            v = a + b
            return tuple([v[i % len(v)] for i in ix])

        return g
    if f in ("avx2.pshuf.b", "ssse3.pshuf.b.128", "avx512.pshuf.b.512"):

        def g(ex, r, al):
            v, ix = A(0, r), A(1, r)
            out = []
            for i, k in enumerate(ix):
                lane = i // 16 * 16
                out.append(0 if k & 0x80 else v[lane + (k & 15)])
            return tuple(out)

        return g
    if f.startswith("avx512.mask.cmp.ps.512"):

        def g(ex, r, al):
            pred = CMP[A(2, r) & 15]
            m = A(3, r)
            out = []
            for i, (a, b) in enumerate(zip(A(0, r), A(1, r))):
                c = T.fcmp(pred, a, b)
                mi = (m >> i) & 1 if m.__class__ is int else m[i]
                out.append(T.band(c, mi, 1))
            return tuple(out)

        return g
    if f.startswith("avx512.sqrt.ps"):
        return lambda ex, r, al: tuple([T.fun1("sqrt", a) for a in A(0, r)])
    if f.startswith("avx512.vfmadd.ps"):
        return lambda ex, r, al: tuple([T.fma(a, b, c) for a, b, c in zip(A(0, r), A(1, r), A(2, r))])
    if f.startswith("avx512.mask.rndscale.ps"):

        def g(ex, r, al):
            imm = A(1, r)
            if imm & 0xF0 or A(3, r) != 0xFFFF:
                raise Unsupported(n)
            op = {0: "rint", 1: "floor", 2: "ceil", 3: "trunc", 4: "rint", 8: "rint", 9: "floor", 10: "ceil", 11: "trunc"}[imm & 15]
            return tuple([T.fun1(op, a) for a in A(0, r)])

        return g
    if f.startswith("avx512.mask.expand.v16f32"):

        def g(ex, r, al):
            v, pt, m = A(0, r), A(1, r), A(2, r)
            bits = [(m >> i) & 1 for i in range(16)] if m.__class__ is int else list(m)
            same = all(x is v[0] for x in v)
            out, k = [], 0
            for i, b in enumerate(bits):
                if isinstance(b, Term):
                    if not same:
                        raise Unsupported(n)
                    out.append(T.fite(b, v[0], pt[i]))
                else:
                    out.append(v[k] if b else pt[i])
                    k += b
                    if not same and any(isinstance(x, Term) for x in bits[: i + 1]):
                        raise Unsupported(n)
            return tuple(out)

        return g
    if f.startswith("avx512.mask.pmov"):
        m = re.match(r"avx512\.mask\.(pmov\w*)\.(\w+)\.512", f)
        kinds = {"pmovus.db": ("satuu", 8), "pmovs.db": ("sats", 8)}

        def g(ex, r, al):
            raise Unsupported(n)

        k = m and m.group(1) + "." + m.group(2)
        if k in ("pmovus.db", "pmovus.dw"):
            w = 8 if k.endswith("db") else 16

            def g(ex, r, al):
                return tuple([umin_trunc(x, 32, w) for x in A(0, r)])

        elif k in ("pmovs.db", "pmovs.dw"):
            w = 8 if k.endswith("db") else 16

            def g(ex, r, al):
                return tuple([T.sat("sats", x, 32, w) for x in A(0, r)])

        return g

    def g(ex, r, al):
        raise Unsupported("llvm." + n)

    return g


def umin_trunc(x, wi, wo):
    """unsigned saturation of an unsigned value"""
    if x is UNDEF:
        return UNDEF
    m = (1 << wo) - 1
    if x.__class__ is int:
        return min(x, m)
    return T.mk("satuu", (x, wi), wo)


def pack(A, op, wi, wo):
    def g(ex, r, al):
        a, b = A(0, r), A(1, r)
        per = 128 // wi
        out = []
        for lane in range(len(a) // per):
            out.extend(T.sat(op, x, wi, wo) for x in a[lane * per : lane * per + per])
            out.extend(T.sat(op, x, wi, wo) for x in b[lane * per : lane * per + per])
        return tuple(out)

    return g


# ------------------------------------------------------------------ externals and special functions
def ext_malloc(ex, a):
    return heap(ex, a[0], 16, None)


def heap(ex, size, align, fill):
    if size.__class__ is not int:
        o = ex.new_obj(size, "heap", "heap", align)
        o.init = lambda k, c: fill
        return o.base
    o = ex.new_obj(size, "heap", f"heap{ex.mallocs}", align)
    ex.mallocs += 1
    if fill is not None:
        o.data = [fill] * size
    return o.base


def ext_calloc(ex, a):
    n = T.mul(a[0], a[1], 64)
    return heap(ex, n, 16, 0)


def ext_memalign(ex, a):
    p = heap(ex, a[2], a[1], None)
    ex.store_bytes(a[0], T.tobytes(p, 64))
    return 0


def ext_realloc(ex, a):
    o, off = ex.obj_of(a[0])
    p = heap(ex, a[1], 16, None)
    n = ex.objs[p >> SLOT]
    k = min(len(o.data), len(n.data))
    n.data[:k] = o.data[:k]
    o.live = False
    return p


def ext_free(ex, a):
    if a[0].__class__ is int and a[0] == 0:
        return None
    o, off = ex.obj_of(a[0])
    if off.__class__ is not int or off != 0 or o.kind != "heap" or not o.live:
        raise PathEnd("ub", f"invalid free of {o.kind} {o.name}")
    o.live = False
    return None


def ext_bcmp(ex, a):
    n = a[2]
    if n.__class__ is not int:
        raise Unsupported("bcmp length")
    if n == 0:
        return 0
    x, y = ex.load_bytes(a[0], n), ex.load_bytes(a[1], n)
    r = 1
    for p, q in zip(x, y):
        e = T.icmp("eq", T.frombytes([p], 8), T.frombytes([q], 8), 8)
        r = T.band(r, e, 1)
        if r.__class__ is int and not r:
            return 1
    return T.ite(r, 0, 1, 32)


def ext_abort(ex, a):
    raise PathEnd("abort", "abort()")


def ext_libm(op):
    return lambda ex, a: T.fun1(op, a[0])


EXTERNALS = {
    "@malloc": ext_malloc,
    "@calloc": ext_calloc,
    "@posix_memalign": ext_memalign,
    "@realloc": ext_realloc,
    "@free": ext_free,
    "@bcmp": ext_bcmp,
    "@memcmp": ext_bcmp,
    "@abort": ext_abort,
    "@powf": lambda ex, a: pow_(a[0], a[1]),
    "@logf": ext_libm("log"),
    "@expf": ext_libm("exp"),
    "@log2f": ext_libm("log2"),
    "@exp2f": ext_libm("exp2"),
    "@sqrtf": ext_libm("sqrt"),
    "@cbrtf": ext_libm("cbrt"),
}


def sp_panic(ex, args, name):
    raise PathEnd("panic", name)


def sp_detect(ex, args, name):
    return (1 << 128) - 1 if ex.simd else 0


PANIC = re.compile(r"panick|unwrap_failed|expect_failed|slice_index_fail|slice_error_fail|capacity_overflow|handle_alloc_error|handle_error|begin_panic|rust_panic|panic_fmt|copy_from_slice_impl.*fail|len_mismatch_fail")


def special(name):
    r = _spc.get(name, _MISS)
    if r is _MISS:
        r = None
        if "detect_and_initialize" in name:
            r = sp_detect
        elif "begin_panic_handler" in name or PANIC.search(name):
            r = sp_panic
        _spc[name] = r
    return r


_spc = {}


def hk_begin(ex, a):
    ex.task = a[0]
    ex.tasks.append(a[0])
    ex.writes.append(("begin", a[0]))


def hk_end(ex, a):
    ex.task = None
    ex.writes.append(("end", a[0]))


HOOKS = {"@vp_task_begin": hk_begin, "@vp_task_end": hk_end}
