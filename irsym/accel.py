"""Loops with a symbolic number of iterations (images of every size).

A loop whose exit cannot be decided is entered once, at iteration k for a fresh variable k: every phi is v0 + k*d, where d is
found by running one iteration and is checked to be inductive where the path gets back to the loop header.  The path that gets
back ends there; the paths that leave the loop at iteration k go on.  Memory the loop body changes (other than the planes) is
undefined at the header.  Facts about k ("the iterations before k did not leave the loop") come from the exit conditions, as
recorded on every path that gets back to the header.  Everything that was guessed is checked; a guess that fails restarts the
exploration with a better one or ends it as not encodable."""
from . import terms as T, exec as X
from .terms import Term, UNDEF
from .exec import Unsupported, PathEnd, succs

KMAX = 1 << 20
TRACE = False


class Restart(Exception):
    pass


def analyse(f):
    """header -> body (natural loops); blocks that can reach a return"""
    S = {n: succs(b) for n, b in f.blocks.items()}
    P = {n: [] for n in S}
    for n, ss in S.items():
        for s in ss:
            P[s].append(n)
    order, seen = [], {f.entry}
    st = [(f.entry, iter(S[f.entry]))]
    while st:
        n, it = st[-1]
        for m in it:
            if m not in seen:
                seen.add(m)
                st.append((m, iter(S[m])))
                break
        else:
            order.append(n)
            st.pop()
    rpo = order[::-1]
    idx = {n: i for i, n in enumerate(rpo)}
    dom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for n in rpo[1:]:
            new = None
            for p in P[n]:
                if p in dom:
                    if new is None:
                        new = p
                    else:
                        a, b = new, p
                        while a != b:
                            while idx[a] > idx[b]:
                                a = dom[a]
                            while idx[b] > idx[a]:
                                b = dom[b]
                        new = a
            if dom.get(n) != new:
                dom[n] = new
                ch = True

    def dominates(a, b):
        while True:
            if a == b:
                return True
            if b == f.entry:
                return False
            b = dom[b]

    loops = {}
    for n in rpo:
        for h in S[n]:
            if h in idx and idx[h] <= idx[n] and dominates(h, n):
                body = loops.setdefault(h, {h})
                work = [n]
                while work:
                    m = work.pop()
                    if m not in body:
                        body.add(m)
                        work += [q for q in P[m] if q in idx]
    good = {n for n, b in f.blocks.items() if b.lines[-1].startswith("ret")}
    work = list(good)
    while work:
        for p in P[work.pop()]:
            if p not in good:
                good.add(p)
                work.append(p)
    inner = {}
    for h, body in sorted(loops.items(), key=lambda x: -len(x[1])):
        for n in body:
            inner[n] = h
    return loops, inner, good


def variables(t, out=None, seen=None):
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if isinstance(t, Term) and t not in seen:
        seen.add(t)
        if t.op == "var":
            out.add(t.args[0])
        for a in t.args:
            if isinstance(a, tuple):
                for x in a:
                    variables(x[0] if isinstance(x, tuple) else x, out, seen)
            else:
                variables(a, out, seen)
    return out


def coef(t, k):
    """coefficient of the variable k in a linear term, None if k also occurs elsewhere in it"""
    if not isinstance(t, Term):
        return 0
    if t is k:
        return 1
    q = 0
    if t.op == "lin":
        for a, c in t.args[1]:
            if a is k:
                q = c
            elif k.args[0] in variables(a):
                return None
        return q
    return None if k.args[0] in variables(t) else 0


class Entry:
    pass


class Accel:
    def __init__(self):
        self.sym = set()
        self.ids = {}
        self.delta = {}
        self.havoc = {}
        self.facts = {}
        self.conds = {}
        self.bad = None

    def loops(self, f):
        if f.loops is None:
            f.loops = analyse(f)
        return f.loops

    # ------------------------------------------------------------ called by the executor
    def block(self, ex, f, bname, b, vals, stack):
        loops = self.loops(f)[0]
        while stack and bname not in stack[-1].body:
            self.leave(ex, stack.pop())
        if stack and stack[-1].header == bname:
            self.latch(ex, b, vals, stack[-1])
        if bname in loops and (f.name, bname) in self.sym:
            return self.enter(ex, f, bname, b, vals, loops[bname], stack)
        return vals

    def branch(self, ex, f, bname, c, t, stack):
        loops, inner, good = self.loops(f)
        h = inner.get(bname)
        if h is None:
            return ex.decide(c)
        body = loops[h]
        a, b = t[2] in body, t[3] in body
        if a == b or (t[3] if a else t[2]) not in good:
            return ex.decide(c)
        if (f.name, h) not in self.sym:
            if ex.known(c) is None:
                self.sym.add((f.name, h))
                raise Restart
            return ex.decide(c)
        d = ex.decide(c)
        if d == a and stack and stack[-1].header == h:
            stack[-1].conds[bname] = (c, d)
        return d

    # ------------------------------------------------------------
    def enter(self, ex, f, header, b, vals, body, stack):
        if ex.guards:
            raise Unsupported("loop under a data-dependent condition")
        # the same loop entered with other values is described separately
        key = (f.name, header) + tuple(v if isinstance(v, (int, Term)) else None for v in vals) + (ex.nslot,)
        i = self.ids.setdefault(key, len(self.ids))
        n = ex.accn.get(key, 0)
        ex.accn[key] = n + 1
        e = Entry()
        e.name = f"k{i}" + (f"_{n}" if n else "")
        e.header, e.body, e.v0 = header, body, list(vals)
        e.conds = {}
        e.wstart = len(ex.writes)
        e.nslot = ex.nslot
        e.outer = list(ex.knames)
        e.parents = [x.name for x in ex.loopstack]
        ex.knames.append(e.name)
        e.journal = ex.journal
        ex.journal = {}
        e.tys = [m.ty for _, m in b.phis]
        e.k = None
        d = self.delta.get(e.name)
        if d is not None:
            e.k = T.var(e.name, 64, 0, KMAX)
            e.d = d
            vals = [v if x.__class__ is int and x == 0 else T.add(v, T.mul(e.k, x, 64), 64) for v, x in zip(vals, d)]
            for slot, sk, off in sorted(self.havoc.get(e.name, ()), key=repr):
                o = ex.objs.get(slot)
                if o is not None and o.data is not None and sk is None and off < len(o.data):
                    ex.journal.setdefault((slot, sk, off), o.data[off])
                    o.data[off] = None
            for fact in self.facts.get(e.name, ()):
                self.assume(ex, e.k, fact)
        e.vals = list(vals)
        stack.append(e)
        ex.loopstack.append(e)
        return vals

    def assume(self, ex, k, fact):
        kind, a, b = fact
        if kind == "term":
            ex.assume(a)
        elif ex.known(T.icmp("slt", a, 0, 64)) is False:
            # k*q stays below the first value that leaves the loop
            ex.assume(T.icmp("ule", T.mulc(k, b, 64), a, 64))

    def leave(self, ex, e):
        if e.journal is not None:
            for k, v in ex.journal.items():
                e.journal.setdefault(k, v)
        ex.journal = e.journal
        if ex.loopstack[-1] is not e:
            raise Unsupported("loops left out of order")
        ex.loopstack.pop()
        ex.passed.append((e, len(ex.writes)))

    def latch(self, ex, b, vals, e):
        if e.k is None:
            ds = []
            for v0, v1, ty in zip(e.v0, vals, e.tys):
                if v0 is v1 or (v0.__class__ is int and v1.__class__ is int and v0 == v1):
                    ds.append(0)
                    continue
                if ty not in (("i", 64), ("ptr",)) and ty[0] != "ptr" or v0 is UNDEF or v1 is UNDEF:
                    raise Unsupported(f"loop-carried value of type {ty}")
                d = T.sub(v1, v0, 64)
                if isinstance(d, Term) and (variables(d) & set(ex.knames[ex.knames.index(e.name) :]) or X.has_data(d)):
                    raise Unsupported("loop-carried value is not affine")
                ds.append(d if isinstance(d, Term) else T.sgn(d, 64))
            self.delta[e.name] = ds
            raise Restart
        for v, n, d in zip(e.vals, vals, e.d):
            want = v if d.__class__ is int and d == 0 else T.add(v, d, 64)
            if want is n or (want.__class__ is int and n.__class__ is int and want == n):
                continue
            if not isinstance(want, Term) and not isinstance(n, Term) or X.has_data(T.icmp("ne", want, n, 64)) or ex.feasible(T.icmp("ne", want, n, 64)):
                self.bad = "loop-carried value is not affine"
        hv = self.havoc.setdefault(e.name, set())
        new = False
        for key, old in ex.journal.items():
            slot = key[0]
            o = ex.objs.get(slot)
            if slot > e.nslot or o is None or not o.live or o.kind == "plane":
                continue
            if o.data is None:
                raise Unsupported("loop-carried memory")
            cur = ex.peek(key)
            if not (cur is old or cur == old) and key not in hv:
                hv.add(key)
                new = True
        if new:
            raise Restart
        if ex.feasible(T.icmp("uge", e.k, KMAX, 64)):
            self.bad = f"loop without a bound on its iterations ({e.header})"
        self.note(e)
        if e.name not in self.facts:
            self.facts[e.name] = self.derive()[e.name]
            if self.facts[e.name]:
                raise Restart
        raise PathEnd("loopend", e.name)

    def note(self, e):
        """exit conditions that held on the way back to the header: the same on every such path"""
        c = {n: v for n, v in e.conds.items()}
        old = self.conds.get(e.name)
        if old is None:
            self.conds[e.name] = (c, set(e.outer) | {e.name}, e.k)
        else:
            self.conds[e.name] = ({n: v for n, v in old[0].items() if c.get(n) == v}, old[1] & (set(e.outer) | {e.name}), e.k)

    def derive(self):
        out = {}
        for name, (conds, known, k) in self.conds.items():
            fs = []
            for n, (c, stay) in sorted(conds.items()):
                if c.op == "not":
                    c, stay = c.args[0], not stay
                if c.op != "icmp" or c.aux != 64:
                    continue
                p, x, y = c.args
                if any(v[0] == "k" and v not in known for v in variables(c)) or X.has_data(c):
                    continue
                qx, qy = coef(x, k), coef(y, k)
                if qx is None or qy is None or (qx == 0 and qy == 0):
                    continue
                if p in ("eq", "ne"):
                    if (p == "ne") != bool(stay):
                        continue
                    D = T.sub(x, y, 64)
                    q = coef(D, k)
                    if not q:
                        continue
                    D0 = T.sub(D, T.mulc(k, q, 64), 64)
                    if q > 0:
                        D0 = T.mulc(D0, -1, 64)
                    q = abs(q)
                    if q > 1:
                        cs = [D0] if not isinstance(D0, Term) else [D0.aux] + [m for _, m in D0.args[1]] if D0.op == "lin" else [1]
                        if any(m % q for m in cs):
                            continue
                    fs.append(("bound", D0, q))
                else:
                    prev = T.icmp(p, T.sub(x, qx, 64), T.sub(y, qy, 64), 64)
                    if not stay:
                        prev = T.bnot(prev)
                    fs.append(("term", T.bor(T.icmp("eq", k, 0, 64), prev, 1), None))
            out[name] = fs
        return out


def explore(res, call, simd, kind, maxpaths=300, fuel=8_000_000, rounds=40):
    """all paths of one call with accelerated loops (list of Path), None if not encodable"""
    from . import driver as dr, smt

    acc = Accel()
    m = dr.mod(kind)
    T.ACC = True
    for _ in range(rounds):
        todo, out = [()], []
        cache = {}
        acc.conds = {}
        acc.bad = None
        try:
            while todo:
                dec = todo.pop()
                if len(out) > maxpaths:
                    raise Unsupported(f"more than {maxpaths} paths")
                r = X.Run(m, dec, simd=simd, cond_cache=cache, fuel=fuel)
                r.acc = acc
                r.accn, r.knames, r.loopstack, r.passed = {}, [], [], []
                p = dr.Path()
                p.run, p.end, p.value, p.simd, p.kind, p.ctx = r, None, None, simd, kind, {}
                try:
                    p.value = call(r, p.ctx)
                    r.flush()
                except PathEnd as e:
                    if e.kind == "infeasible":
                        todo += r.alts
                        continue
                    p.end = e
                    r.flush()
                todo += r.alts
                dr.account(res, r)
                out.append(p)
        except Restart:
            if TRACE:
                print("restart", len(out), flush=True)
            continue
        if TRACE:
            print("round", len(out), flush=True)
        facts = acc.derive()
        if {n: f for n, f in facts.items() if f} == {n: f for n, f in acc.facts.items() if f}:
            if acc.bad:
                raise Unsupported(acc.bad)
            return out
        acc.facts = facts
    raise Unsupported("no stable description of the loops")
