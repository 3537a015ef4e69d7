"""Conversions of images of every size: the loops over rows and columns run a symbolic number of times (accel.py)."""
import copy
import ctypes
import numpy as np
import z3
from .. import accel, native, driver as dr, exec as X, model as M, numeric, smt, spec, terms as T
from ..terms import Term
from .common import *

MAXHALF = 1 << 19
MAXSTRIDE = (1 << 24) - 1
MAXLEN = (1 << 45) - 1
BOUND = "every even width and height up to 2^20, every stride up to 2^24-1 and plane length below 2^45"


def job(s, d, simd, kind="core", crop="", threads=1, rem=0, op=None, exact=False, **kw):
    """crop: 'S', 'D' or 'SD': the image is a window of a larger one; rem: height / 2 modulo the number of threads; exact: padded rows, shortest planes"""
    return dict(pair(s, d, 2, 2, simd, threads=threads, op=int(threads > 1) if op is None else op, **kw), sizes=True, kind=kind, wins=crop, rem=rem, exact=exact)


def name(case):
    return name_of(case).replace("2x2", "any size") + (f" window {case['wins']}" if case["wins"] else "") + (f" {case['rem']} rows left" if case["rem"] else "") + (" avx512" if case["kind"] == "avx512" else "")


def call_of(case):
    def call(r, ctx):
        W, n = T.var("W", 64, 1, MAXHALF), case["threads"]
        H = T.add(T.mulc(T.var("H", 64, 1, MAXHALF // n), n, 64), case["rem"], 64)
        w, h = T.mulc(W, 2, 64), T.mulc(H, 2, 64)
        ims = []
        for tag in ("S", "D"):
            img = copy.copy(case["src" if tag == "S" else "dst"])
            PW, PH, x0, y0 = W, H, 0, 0
            if tag in case["wins"]:
                # W and H: columns and rows behind the window
                x0, y0 = T.var(f"{tag}.X", 64, 0, MAXHALF), T.var(f"{tag}.Y", 64, 0, MAXHALF)
                PW = T.add(T.add(x0, W, 64), T.var(f"{tag}.W", 64, 0, MAXHALF), 64)
                PH = T.add(T.add(y0, H, 64), T.var(f"{tag}.H", 64, 0, MAXHALF), 64)
                x0, y0 = T.mulc(x0, 2, 64), T.mulc(y0, 2, 64)
                img.crop = [(x0, y0, w, h)]
            img.w, img.h = T.mulc(PW, 2, 64), T.mulc(PH, 2, 64)
            st, ln = [], []
            for i, (row, rows) in enumerate(M.plane_geometry(img.fmt, 2, 2)):
                s = T.var(f"{tag}.s{i}", 64, 0, MAXSTRIDE)
                r.assume(T.icmp("ugt" if case["exact"] else "uge", s, T.mulc(PW, row, 64), 64))
                l = need = T.add(T.mul(T.sub(T.mulc(PH, rows, 64), 1, 64), s, 64), T.mulc(PW, row, 64), 64)
                if not case["exact"]:
                    l = T.var(f"{tag}.l{i}", 64, 0, MAXLEN)
                    r.assume(T.icmp("uge", l, need, 64))
                st.append(s)
                ln.append(l)
            img.strides, img.lens = st, ln
            ims.append(M.SymImg(r, img, tag, const=tag == "S"))
            ctx[tag + "0"] = (x0, y0)
        ctx.update(S=ims[0], D=ims[1], w=w, h=h)
        ctx["x1"], ctx["y1"] = T.add(ctx["D0"][0], w, 64), T.add(ctx["D0"][1], h, 64)
        return r.call("@vp_run", [ims[0].desc.base, ims[1].desc.base] + ARG(case))

    return call


class Part(Exception):
    """the writes do not have the expected shape"""


def lin_coef(t):
    return (t, ()) if not isinstance(t, Term) else (t.aux, t.args[1]) if t.op == "lin" else (0, ((t, 1),))


def row_and_x(key, c, s):
    """offset inside a plane with stride s -> (row term, byte term)"""
    row, x = 0, c & T.M64
    for t, q in key:
        if t is s:
            row = T.add(row, q, 64)
        elif t.op == "mul" and s in t.args:
            o = t.args[0] if t.args[1] is s else t.args[1]
            row = T.add(row, T.mulc(o, q, 64), 64)
        else:
            x = T.add(x, T.mulc(t, q, 64), 64)
    return row, x


def exact_div(t, n):
    q = T.udiv(t, n, 64)
    b = T.mulc(q, n, 64)
    if not (b is t or (not isinstance(b, Term) and not isinstance(t, Term) and b == t)):
        raise Part(f"{t} is not a multiple of {n}")
    return q


def least(ts):
    """the least of terms that differ by constants, and the largest distance"""
    ds = [T.sub(t, ts[0], 64) for t in ts]
    if any(isinstance(d, Term) for d in ds):
        raise Part("writes at unrelated places")
    ds = [T.sgn(d, 64) for d in ds]
    return ts[ds.index(min(ds))], max(ds) - min(ds)


class Block:
    """pixels [X, X+n) x [Y, Y+2) of the destination (before cropping)"""

    def __init__(self, D, img, writes):
        slots = {o.slot: i for i, o in enumerate(D.objs)}
        ws = [w for w in writes if len(w) == 6 and w[0] in slots]
        self.ws = ws
        p0 = [w for w in ws if slots[w[0]] == 0]
        if not p0:
            raise Part("nothing written to the first plane")
        b0 = M.plane_geometry(img.fmt, 2, 2)[0][0] // 2
        rx = [row_and_x(w[1], w[2], D.strides[0]) + (w[3],) for w in p0]
        self.Y, dy = least([r for r, x, n in rx])
        x0, _ = least([x for r, x, n in rx])
        x1, _ = least([T.sub(0, T.add(x, n, 64), 64) for r, x, n in rx])
        self.X = exact_div(x0, b0)
        n = T.sub(T.sub(0, x1, 64), x0, 64)
        if isinstance(n, Term) or n % (2 * b0) or dy != 1:
            raise Part(f"block of {n} bytes by {dy + 1} rows")
        self.n = n // b0

    def view(self, p, tag, img):
        """the same block of one of the images"""
        I = p.ctx[tag]
        v = copy.copy(I)
        v.origin = []
        X = T.add(T.sub(self.X, p.ctx["D0"][0], 64), p.ctx[tag + "0"][0], 64)
        Y = T.add(T.sub(self.Y, p.ctx["D0"][1], 64), p.ctx[tag + "0"][1], 64)
        for i, (row, rows) in enumerate(M.plane_geometry(img.fmt, 2, 2)):
            x = T.mulc(exact_div(X, 2), row, 64)
            y = Y if rows == 2 else exact_div(Y, 2)
            v.origin.append(T.add(T.mul(y, I.strides[i], 64), x, 64))
        return v

    def sub(self, case):
        c = dict(case)
        for k in ("src", "dst"):
            c[k] = copy.copy(case[k])
            c[k].w, c[k].h = self.n, 2
        return c


def same(a, b):
    return a is b or (not isinstance(a, Term) and not isinstance(b, Term) and a == b)


class Cand(Exception):
    """(message, condition): a state in which the property may fail"""


class Sizes:
    def __init__(self, case, res):
        self.case, self.res = case, res
        self.bodies, self.rows = {}, {}
        self.tries = 0

    def exact(self, p, blk):
        """the writes are exactly the samples of the block"""
        D = blk.view(p, "D", self.case["dst"])
        km = row_key_map(D, rect(blk.sub(self.case)["dst"]))
        done = set()
        for w in blk.ws:
            slot, k, c, n = w[:4]
            if not any(lo <= c and c + n <= hi for lo, hi, _, _ in km.get((slot, k), ())):
                raise Cand(f"write of {n} bytes outside the pixels being converted (plane {[o.slot for o in p.ctx['D'].objs].index(slot)})")
            done.update((slot, k, i) for i in range(c, c + n))
        for (slot, k), iv in km.items():
            for lo, hi, pl, row in iv:
                if any((slot, k, i) not in done for i in range(lo, hi)):
                    raise Cand(f"samples of plane {pl} not written")
        self.res.n["samples"] += len(done)

    def must(self, p, cond, msg):
        e = p.run.enc
        bad = e.b(T.bnot(cond)) if isinstance(cond, Term) else None if cond else z3.BoolVal(True)
        if bad is None:
            return
        self.res.n["spec_queries"] += 1
        r = e.check(bad)
        if r == z3.unknown:
            raise smt.Inconclusive(msg)
        if r == z3.sat:
            raise Cand(msg, bad)

    def body(self, p, e):
        blk = Block(p.ctx["D"], self.case["dst"], p.run.writes[e.wstart :])
        self.exact(p, blk)
        self.must(p, T.icmp("ule", T.add(blk.X, blk.n, 64), p.ctx["x1"], 64), "columns beyond the width")
        self.must(p, T.icmp("uge", blk.X, p.ctx["D0"][0], 64), "columns before the window")
        self.must(p, T.icmp("uge", blk.Y, p.ctx["D0"][1], 64), "rows before the window")
        self.must(p, T.icmp("ule", T.add(blk.Y, 2, 64), p.ctx["y1"], 64), "rows beyond the height")
        self.values(p, blk)
        old = self.bodies.get(e.name)
        if old is not None and not (same(old.X, blk.X) and same(old.Y, blk.Y) and old.n == blk.n):
            raise Part("iterations convert different blocks")
        if accel.coef(blk.X, e.k) != blk.n:
            raise Part(f"{blk.n} columns per iteration, which advances by {accel.coef(blk.X, e.k)}")
        self.bodies[e.name] = blk

    def values(self, p, blk):
        """the samples of the block against the reference"""
        sub = blk.sub(self.case)
        src, dst = sub["src"], sub["dst"]
        S, D = blk.view(p, "S", src), blk.view(p, "D", dst)
        rule = rule_for(src, dst)
        hi, smax = spec.mx(dst.fmt), spec.mx(src.fmt)
        tol = Q(max(2, hi // 64)) if rule == "within" else TOL
        for comp, x, y, loc in spec.dst_samples(dst):
            t = D.sample(loc)
            vs = numeric.variables(t) if isinstance(t, Term) else {}
            bad = [v for v in vs if v not in {S.varname(l) for l in spec.deps(src, dst, comp, x, y)}]
            if bad:
                raise Cand(f"sample {comp} at (+{x},+{y}) depends on {sorted(bad)[0]}")
            aff = spec.expected(src, dst, comp, x, y, S.varname)
            ranges = {n: (v.lo, v.hi) for n, v in vs.items()}
            for n in aff.co:
                ranges[n] = (0, smax)
            v = dr.CL.decide(t, rule, aff, hi, tol, ranges)
            if v.ok is None:
                self.res.undecided(f"{name(self.case)}: {comp}(+{x},+{y}): {v.why[:200]}")
            elif not v.ok:
                raise Cand(f"sample {comp} at (+{x},+{y})")
            self.res.n["classes"] += 1

    def columns(self, p, lo, hi, passed):
        """the conversions of writes[lo:hi] cover one pair of rows completely -> its first row"""
        iv, pos = [], lo
        for e, wend in passed:
            if e.wstart > pos:
                b = Block(p.ctx["D"], self.case["dst"], p.run.writes[pos : e.wstart])
                self.exact(p, b)
                self.values(p, b)
                iv.append((b.X, T.add(b.X, b.n, 64), b.Y))
            blk = self.bodies.get(e.name)
            if blk is not None and e.k is not None:
                iv.append((T.sub(blk.X, T.mulc(e.k, blk.n, 64), 64), blk.X, blk.Y))
            if wend > e.wstart:
                b = Block(p.ctx["D"], self.case["dst"], p.run.writes[e.wstart : wend])
                self.exact(p, b)
                self.values(p, b)
                iv.append((b.X, T.add(b.X, b.n, 64), b.Y))
            pos = wend
        if hi > pos:
            b = Block(p.ctx["D"], self.case["dst"], p.run.writes[pos:hi])
            self.exact(p, b)
            self.values(p, b)
            iv.append((b.X, T.add(b.X, b.n, 64), b.Y))
        at = p.ctx["D0"][0]
        for a, b, y in iv:
            self.must(p, T.icmp("eq", a, at, 64), "columns left out")
            if not same(y, iv[0][2]):
                raise Part("columns of different rows")
            at = b
        self.must(p, T.icmp("eq", at, p.ctx["x1"], 64), "columns left out")
        return iv[0][2]

    def path(self, p):
        r = p.run
        for v in r.violations:
            raise Cand(f"{v[0]} {v[1]}", r.enc.b(v[3]) if v[0] == "memory" else None)
        if p.end is not None and p.end.kind != "loopend":
            raise Cand(f"{p.end.kind} {p.end.msg}")
        if p.end is None and (isinstance(p.value, Term) or p.value != 0):
            raise Cand(f"result code {p.value}")

    def inside(self, p, e, wend):
        return [(x, w) for x, w in p.run.passed if x is not e and x.wstart >= e.wstart and w <= wend and e.name in x.parents]

    def run(self):
        case, res = self.case, self.res
        paths = accel.explore(res, call_of(case), case["simd"], case["kind"])
        outer = []
        for p in paths:
            with self.checked(p):
                self.path(p)
                if p.end is not None:
                    e = p.run.loopstack[-1]
                    ins = self.inside(p, e, len(p.run.writes))
                    if ins:
                        outer.append((p, e, ins))
                    else:
                        self.body(p, e)
        for p, e, ins in outer:
            with self.checked(p):
                y = self.columns(p, e.wstart, len(p.run.writes), ins)
                if accel.coef(y, e.k) != 2:
                    raise Part("rows per iteration")
                old = self.rows.setdefault(e.name, y)
                if not same(old, y):
                    raise Part("iterations convert different rows")
        n = 0
        for p in paths:
            if p.end is not None:
                continue
            with self.checked(p):
                n += 1
                tops = [(e, w) for e, w in p.run.passed if not e.parents]
                at = p.ctx["D0"][1]
                for e, wend in tops:
                    y = self.rows.get(e.name)
                    if y is not None and e.k is not None:
                        self.must(p, T.icmp("eq", T.sub(y, T.mulc(e.k, 2, 64), 64), at, 64), "rows left out")
                        at = y
                    if wend > e.wstart or self.inside(p, e, wend):
                        y = self.columns(p, e.wstart, wend, self.inside(p, e, wend))
                        self.must(p, T.icmp("eq", y, at, 64), "rows left out")
                        at = T.add(y, 2, 64)
                self.must(p, T.icmp("eq", at, p.ctx["y1"], 64), "rows left out")
        if not n and not res.viol and not res.und:
            res.undecided(f"{name(case)}: no path reaches the end")
        res.n["size_paths"] += len(paths)

    def checked(self, p):
        return Guard(self, p)


class Guard:
    def __init__(self, s, p):
        self.s, self.p = s, p

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is None:
            return False
        s = self.s
        if t is Part or t is Cand:
            if not s.res.viol and s.tries < 2:
                s.tries += 1
                self.p.generic = s.tries > 1
                confirm_sizes(s.res, s.case, self.p, v.args[0], v.args[1] if len(v.args) > 1 else None)
            elif not s.res.viol:
                s.res.undecided(f"{name(s.case)}: {v.args[0]}"[:300])
            return True
        return False


GENERIC = [(98, 6, 0), (1030, 6, 0), (6, 1030, 8), (70002, 4, 0), (4, 70002, 4), (64, 1200, (1 << 24) - 514), (1 << 20, 2, 0), (2, 1 << 20, 0)]


def models(p, cond):
    """sizes and strides of states on the path (with cond), small ones first"""
    if cond is None:
        return
    e = p.run.enc
    W, H = z3.Int("W"), z3.Int("H")
    for w, h, st in ((8, 2, 0), (40, 4, 0), (4, 40, 0), (300, 4, 0), (4, 300, 0), (1 << 10, 8, 0), (8, 1 << 10, 0), (40000, 2, 0), (2, 40000, 0), (300, 600, MAXSTRIDE), (1 << 19, 1, 0), (1, 1 << 19, 0)):
        s = z3.Solver()
        s.set("timeout", 5000)
        s.add(e.s.assertions())
        s.add(cond, *e.exact)
        s.add(W <= w, H <= h)
        for n in e.vars:
            if ".s" in n:
                s.add(z3.Int(n) <= (st or 8 * w + 64))
            if n[1:] in (".W", ".X"):
                s.add(z3.Int(n) <= 2 * w + 8)
            if n[1:] in (".H", ".Y"):
                s.add(z3.Int(n) <= 2 * h + 8)
        if smt.checked(s) == z3.sat:
            m = s.model()
            yield {n: m.eval(z3.Int(n), model_completion=True).as_long() for n in e.vars}


def attempts(case, p, cond):
    """descriptions of images to try: (source, destination, numbers that may matter)"""
    for env in models(p, cond):
        if "W" not in env or "H" not in env:
            continue
        yield [concrete(case, tag, env["W"], env["H"] * case["threads"] + case["rem"], env, 0) for tag in "SD"] + [[v for n, v in env.items() if n[0] == "k"]]
    if getattr(p, "generic", False):
        return
    for w, h, pad in GENERIC:
        env = {f"{t}.{n}": v for t in "SD" for n, v in (("X", w // 4), ("Y", h // 3), ("W", 1), ("H", 1))}
        yield [concrete(case, tag, w // 2, h // 2, env, pad) for tag in "SD"] + [[]]


def concrete(case, tag, W, H, env, pad):
    i = case["src" if tag == "S" else "dst"]
    win = tag in case["wins"]
    w, h = (2 * (v + env.get(f"{tag}.{a}", 0) + env.get(f"{tag}.{b}", 0)) if win else 2 * v for v, a, b in ((W, "X", "W"), (H, "Y", "H")))
    st = [max(env.get(f"{tag}.s{j}", 0), row + pad) for j, (row, rows) in enumerate(M.plane_geometry(i.fmt, w, h))]
    crop = [[2 * env.get(f"{tag}.X", 0), 2 * env.get(f"{tag}.Y", 0), 2 * W, 2 * H]] if win else []
    return dict(fmt=i.fmt, color=list(i.color), w=w, h=h, strides=st, crop=crop)


def confirm_sizes(res, case, p, msg, cond):
    """look for an image of some size on which the real code shows the problem"""
    msg = f"{name(case)}: {msg}"
    rule = rule_for(case["src"], case["dst"])
    tol = str(Q(max(2, spec.mx(case["dst"].fmt) // 64)) if rule == "within" else TOL)
    for n, (s, d, hints) in enumerate(attempts(case, p, cond)):
        q = dict(fn="sized", src=s, dst=d, op=case.get("op", 0), threads=case.get("threads", 1), order=case.get("order", 0), seed=n, rule=rule, tol=tol, hints=hints)
        res.n["native_runs"] += 1
        m = sized_message(q, dr.nat(p.simd, p.kind).call(q))
        if m:
            dr.report(res, f"{m} [{msg}]", dict(kind="sized", lib=p.kind, simd=p.simd, query=q))
            return True
    res.undecided(f"candidate not reproduced natively: {msg[:300]}")
    return False


def sized_message(q, out):
    if "crash" in out:
        what = dr.judge({}, out, dict(kind="crash"))
        return f"{q['src']['fmt']}->{q['dst']['fmt']} {q['src']['w']}x{q['src']['h']}: {what}"
    return out["msg"]


class Planes:
    def __init__(self, d, fill):
        self.d = d
        self.geo = M.plane_geometry(d["fmt"], d["w"], d["h"])
        self.views, self.addr, self.lens = [], [], []
        for (row, rows), s in zip(self.geo, d["strides"]):
            n = s * (rows - 1) + row
            a = native.sparse(n)
            v = np.frombuffer((ctypes.c_uint8 * n).from_address(a), dtype=np.uint8)
            v = np.lib.stride_tricks.as_strided(v, (rows, row), (s, 1))
            self.views.append(v)
            self.addr.append(a)
            self.lens.append(n)
        self.fill(fill)

    def fill(self, f):
        for v in self.views:
            rows, row = v.shape
            step = max(1, (1 << 22) // row)
            for y in range(0, rows, step):
                k = min(step, rows - y)
                b = f(k * row).reshape(k, row)
                v[y : y + k] = b

    def desc(self):
        from ..model import CDesc

        c = CDesc()
        c.fmt, c.ctor = M.FID[self.d["fmt"]], 0
        c.nplanes = c.nstrides = len(self.views)
        for i, (a, n, s) in enumerate(zip(self.addr, self.lens, self.d["strides"])):
            c.planes[i], c.lens[i], c.strides[i] = a, n, s
        c.width, c.height = self.d["w"], self.d["h"]
        k, t, p, s, f = self.d["color"]
        for nm, v in zip(("kind", "transfer", "primaries", "space", "full"), M.Img(self.d["fmt"], 2, 2, color=(k, t, p, s, f)).color_words()):
            setattr(c.color, nm, v)
        c.ncrop = len(self.d["crop"])
        for i, wd in enumerate(self.d["crop"]):
            for j, v in enumerate(wd):
                c.win[i][j] = v
        return c

    def windows(self):
        """per plane: the rows and bytes of the window"""
        d = self.d
        x, y, w, h = d["crop"][0] if d["crop"] else (0, 0, d["w"], d["h"])
        for row, rows in M.plane_geometry(d["fmt"], 2, 2):
            yield slice(y * rows // 2, (y + h) * rows // 2), slice(x * row // 2, (x + w) * row // 2)

    def rows(self):
        return [np.array(v) for v in self.views]

    def gaps(self):
        """a byte between the rows that is not zero any more"""
        for pl, (v, a, n, s) in enumerate(zip(self.views, self.addr, self.lens, self.d["strides"])):
            rows, row = v.shape
            if s == row or rows < 2:
                continue
            g = min(s - row, 4096)
            for start in {row, s - g}:
                x = np.frombuffer((ctypes.c_uint8 * (s * (rows - 1))).from_address(a), dtype=np.uint8)
                x = np.lib.stride_tricks.as_strided(x[start:], (rows - 1, g), (s, 1))
                step = max(1, (1 << 24) // g)
                for y in range(0, rows - 1, step):
                    if x[y : y + step].any():
                        return pl

    def get(self, loc):
        p, r, b, n = loc
        v = self.views[p]
        return int(v[r, b]) | (int(v[r, b + 1]) << 8 if n == 2 else 0)


def places(n, hints, rnd, some):
    near = [0, n] + [1 << i for i in range(6, 21)] + hints
    out = {c + d for c in near for d in range(-some, some + 1)} | {rnd.randrange(n) for _ in range(20 * some)}
    return sorted(v for v in out if 0 <= v < n)


def sized(lib, q):
    """convert one (large) image; what is wrong with the result, if anything"""
    s, d = q["src"], q["dst"]
    if sum(a * b for i in (s, d) for a, b in M.plane_geometry(i["fmt"], i["w"], i["h"])) > 1 << 27:
        return dict(msg=None)
    rnd = dr.rng("sized", q["seed"])
    g = np.random.Generator(np.random.PCG64(q["seed"]))

    def content(n):
        if M.bps(s["fmt"]) == 1:
            return g.integers(0, 256, n, dtype=np.uint8)
        return g.integers(0, 1 << M.BITS[s["fmt"]], n // 2, dtype=np.uint16).view(np.uint8)

    S = Planes(s, content)
    D = Planes(d, lambda n: np.zeros(n, np.uint8))
    before = S.rows()
    what = f"{s['fmt']}->{d['fmt']} {s['w']}x{s['h']} strides {s['strides']} -> {d['strides']}" + "".join(f" window {i['crop'][0]}" for i in (s, d) if i["crop"])
    lib.vp_run.restype = ctypes.c_uint32
    rc = lib.vp_run(ctypes.byref(S.desc()), ctypes.byref(D.desc()), q["op"], ctypes.c_size_t(q["threads"]), q["order"])
    if rc:
        return dict(msg=f"{what}: result code {rc} instead of 0")
    if any((a != b).any() for a, b in zip(before, S.rows())) or S.gaps() is not None:
        return dict(msg=f"{what}: source bytes modified")
    pl = D.gaps()
    if pl is not None:
        return dict(msg=f"{what}: bytes of destination plane {pl} between the rows were modified")
    one = D.rows()
    D.fill(lambda n: np.full(n, 255, np.uint8))
    lib.vp_run(ctypes.byref(S.desc()), ctypes.byref(D.desc()), q["op"], ctypes.c_size_t(q["threads"]), q["order"])
    for pl, (a, b, (rs, bs)) in enumerate(zip(one, D.views, D.windows())):
        bad = np.argwhere(a[rs, bs] != b[rs, bs])
        if len(bad):
            return dict(msg=f"{what}: byte {bad[0][1]} of row {bad[0][0]} of plane {pl} is not written")
        b[rs, bs] = 255
        bad = np.argwhere(b != 255)
        if len(bad):
            return dict(msg=f"{what}: byte {bad[0][1]} of row {bad[0][0]} of plane {pl} outside the window was modified")
        b[rs, bs] = a[rs, bs]
    src, dst = (M.Img(i["fmt"], i["w"], i["h"], color=tuple(i["color"]), crop=i["crop"]) for i in (s, d))
    w, h = dst.size
    hi, tol = spec.mx(dst.fmt), Q(q["tol"])
    hs = [h * m for h in q["hints"] for m in (1, 2, 4, 8, 16, 32)]
    xs, ys = places(w, hs, rnd, 34), places(h, hs, rnd, 2)
    ps = {(x, y) for x in xs for y in rnd.sample(ys, min(len(ys), 4))} | {(x, y) for y in ys for x in rnd.sample(xs, min(len(xs), 8))}
    for x, y in sorted(rnd.sample(sorted(ps), min(len(ps), 12000))):
        for comp, loc in dst.loc(x, y).items():
            got = D.get(loc)
            aff = spec.expected(src, dst, comp, x, y, lambda l: l)
            v = aff.c + sum(k * S.get(l) for l, k in aff.co.items())
            v = max(0, min(hi, v)) if q["rule"] != "equal" else v
            if abs(got - v) > (tol if q["rule"] != "equal" else 0):
                return dict(msg=f"{what}: sample {comp} at ({x},{y}) is {got}, expected {float(v):.3f}")
    return dict(msg=None)


class P21(dr.Check):
    id = "P21"
    kinds = ("core", "avx512")
    budget = {"quick": 600, "thorough": 6 * 3600}
    job_limit = 400
    technique = "symbolic execution of the crate's LLVM IR with loops summarised for a symbolic number of iterations (affine induction checked by the solver), assertions decided by z3 (SMT)"
    what = "for a symbolic width and height (and crop window): every path of convert and convert_multi_thread ends with success; every access is inside its plane; one iteration of the row and column loops at any position writes exactly the samples of its block, from the samples of the same block, by the reference equation; the blocks of the iterations and of the code around the loops follow each other from 0 to the width and from 0 to the height"
    bounds = "every even width and height up to 2^20 pixels, every stride up to 2^24-1 and every sufficient plane length below 2^45, all sample values; all 225 format pairs (quick: 45 pairs with AVX2 code, 15 with scalar code, 15 with AVX-512 code, so that every format is read and written by each; thorough: all pairs with each), images that are windows of larger images at every even position (quick: the scalar code of 8 pairs of 8 bit formats), convert_multi_thread on every such size with padded rows and 2, 3 or 5 workers (quick: the scalar code of 6 pairs with 2 and 3 workers, the AVX2 code of one)"
    assumptions = ["loops run at most 2^20 times", "products of sizes are abstracted by linear facts (monotone in each factor); what this cannot decide is reported as undecided"]

    def jobs(self):
        out = []
        for i, s in enumerate(M.FMT):
            for j, d in enumerate(M.FMT):
                if self.thorough or (i + j) % 5 == 0:
                    out.append(job(s, d, True))
                if self.thorough or (i + j) % 15 == 0:
                    out.append(job(s, d, False))
                if self.thorough or (i + j) % 15 == 5:
                    out.append(job(s, d, True, "avx512"))
                if self.thorough:
                    out.append(job(s, d, True, crop="SD"))
                if self.thorough or (i + j) % 15 == 10 and M.bps(s) == M.bps(d) == 1:
                    out.append(job(s, d, False, crop="SD"))
        few = [("RGB", "BGR"), ("RGBA", "NV12"), ("I420", "YUYV"), ("NV12", "I422"), ("I210", "I412"), ("YUYV", "I444")]
        more = [(s, M.FMT[(i + j) % 15]) for j in (1, 4, 8) for i, s in enumerate(M.FMT)]
        for s, d in more if self.thorough else few:
            for n, rem in [(2, 0), (2, 1), (3, 0), (3, 1), (3, 2), (5, 3)] if self.thorough else [(2, 0), (3, 2)]:
                out.append(job(s, d, False, threads=n, rem=rem, exact=True))
                if self.thorough or (s, n) == ("I420", 2):
                    out.append(job(s, d, True, threads=n, rem=rem, exact=True))
        return out

    def describe(self, job):
        return name(job)

    def run(self, case, res):
        T.ACC = True
        try:
            Sizes(case, res).run()
        except X.Unsupported as e:
            confirm_sizes(res, case, Real(case), f"not encodable: {e}", None)
        finally:
            T.ACC = False


class Real:
    def __init__(self, case):
        self.simd, self.kind = case["simd"], case["kind"]
