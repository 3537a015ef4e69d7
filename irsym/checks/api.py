"""P10, P11, P12, P18: sizes, bounds, plane inference, crop windows and rejected requests, over full-width integers."""
import z3
from .. import driver as dr, exec as X, model as M, terms as T, smt
from ..terms import Term
from .common import *
from .image import ConvCheck, all_pairs

W = 1 << 64
MAXLEN = (1 << 63) - 1


class Zs:
    """terms -> unbounded z3 integers, in the solver of a run"""

    def __init__(self, enc):
        self.enc = enc

    def __call__(self, x):
        if isinstance(x, z3.ExprRef):
            return x
        return self.enc.i(x) if isinstance(x, Term) else z3.IntVal(x)


class Zc:
    """the same for concrete values"""

    def __call__(self, x):
        return x if isinstance(x, z3.ExprRef) else z3.IntVal(x)


def geometry(Z, fmt, w, h):
    """[(packed row bytes as z3, rows as z3)] of every plane; w, h int or Term"""
    b = M.bps(fmt)
    if fmt in ("RGBA", "BGRA", "RGB", "BGR", "YUYV"):
        return [({"RGBA": 4, "BGRA": 4, "RGB": 3, "BGR": 3, "YUYV": 2}[fmt] * Z(w), Z(h))]
    sx, sy = M.SUB[fmt]
    if fmt == "NV12":
        return [(Z(w), Z(h)), (Z(w), Z(T.udiv(h, 2, 64)))]
    cw, ch = T.udiv(w, sx, 64), T.udiv(h, sy, 64)
    return [(Z(w) * b, Z(h)), (Z(cw) * b, Z(ch)), (Z(cw) * b, Z(ch))]


def zmin(a, b):
    return z3.If(a < b, a, b)


def zand(*x):
    return z3.And(*x)


class Planes:
    """what the documentation says about the planes of an image description"""

    def __init__(self, Z, img):
        self.geo = geometry(Z, img.fmt, img.w, img.h)
        n = len(self.geo)
        self.n = n
        if img.ctor == 2:
            ns = n if img.nstrides in (None, 0xFFFFFFFF) else img.nstrides
            self.strides = [Z(s) for s in img.strides[:n]] if img.nstrides not in (None, 0xFFFFFFFF) else [row for row, _ in self.geo]
            self.toomany = ns > n
            self.np = min(ns, n)
            rest = Z(img.lens[0])
            self.lens, self.starts = [], []
            off = z3.IntVal(0)
            for i in range(self.np):
                self.starts.append(off)
                take = rest if n == 1 else zmin(self.strides[i] * self.geo[i][1], rest)
                self.lens.append(take)
                off, rest = off + take, rest - take
        else:
            ns = len(img.strides) if img.nstrides is None else img.nstrides
            self.np = min(len(img.lens) if img.np is None else img.np, ns)
            if img.ctor == 1 and img.nstrides == 0xFFFFFFFF:
                self.strides = [row for row, _ in self.geo]
                self.np = len(img.lens) if img.np is None else img.np
            else:
                self.strides = [Z(s) for s in img.strides]
            self.lens = [Z(l) for l in img.lens]
            self.toomany = False
        self.need = []
        for (row, rows), s in zip(self.geo, self.strides):
            self.need.append(z3.If(rows >= 1, s * (rows - 1) + row, z3.IntVal(0)))
        k = min(self.np, n)
        self.stride_bad = [self.geo[i][0] > self.strides[i] for i in range(k)]
        self.len_bad = [self.need[i] > self.lens[i] for i in range(k)]
        # everything that is computed fits into usize
        self.fits = zand(*[row < W for row, _ in self.geo], *[x < W for x in self.need], *([s * rows < W for (_, rows), s in zip(self.geo, self.strides)] if img.ctor == 2 else []))
        self.missing = self.np < n or self.toomany
        self.ok = zand(z3.BoolVal(not self.missing), *[z3.Not(b) for b in self.stride_bad + self.len_bad])

    def code_ok(self, rc, base=0):
        """rc is a truthful verdict about these planes"""
        return z3.Or(
            zand(rc == 0, self.ok),
            zand(rc == base + 1, z3.BoolVal(self.missing)),
            zand(rc == base + 2, z3.Or(*self.stride_bad)) if self.stride_bad else False,
            zand(rc == base + 3, z3.Or(*self.len_bad)) if self.len_bad else False,
        )


def ev(x, env):
    if not isinstance(x, Term):
        return x
    v = smt.evaluate(x, env)
    return v


def concrete_img(img, env):
    k = dict(img.kw())
    k["w"], k["h"] = ev(img.w, env), ev(img.h, env)
    k["strides"] = [ev(s, env) for s in img.strides]
    k["lens"] = [ev(s, env) for s in img.lens]
    k["crop"] = [tuple(ev(v, env) for v in w) for w in img.crop]
    c = M.Img(**k)
    c.np = img.np
    return c


def desc_of(img, content=None):
    """native descriptor; planes are only reserved unless content bytes are given"""
    n = len(img.lens) if img.np is None else img.np
    if img.ctor == 2:
        n = 1
    d = dr.concrete_desc(img, list(img.strides) + [0] * (4 - len(img.strides)), [])
    d["strides"] = d["strides"][:4]
    d["nstrides"] = 0xFFFFFFFF if img.nstrides == 0xFFFFFFFF or (img.ctor == 2 and img.nstrides is None) else (len(img.strides) if img.nstrides is None else img.nstrides)
    d["planes"] = [{"len": l} for l in img.lens[:n]] if content is None else [bytes(b).hex() for b in content[:n]]
    return d


def img_json(img):
    d = img.kw()
    d["np"] = img.np
    return d


def img_load(d):
    d = dict(d)
    d["crop"] = [tuple(w) for w in d["crop"]]
    d["color"] = tuple(d["color"])
    return M.Img(**d)


class SymDesc(M.SymImg):
    pass


class ApiCheck(dr.Check):
    """jobs are dicts with "t": the kind of call; every kind has set-up, specification and native replay in a class below"""

    def describe(self, job):
        return repr({k: v for k, v in job.items()})[:200]

    def run(self, job, res):
        c = CALLS[job["t"]](job)

        def call(r, ctx):
            return c.call(r, ctx)

        n = 0
        for p in dr.explore(res, call, job.get("simd", True), maxpaths=3000):
            n += 1
            self.judge(c, job, p, res)
            if not res.viol and not res.und and n <= c.validations:
                self.validate(c, job, p, res)
            if res.viol:
                return
        if n and not res.samples:
            res.samples.append(f"{self.describe(job)}: {n} paths decided")

    def judge(self, c, job, p, res):
        r = p.run
        Z = Zs(r.enc)
        if p.end is not None and p.end.kind not in ("panic", "abort"):
            return self.confirm(c, job, p, res, [], f"{p.end.kind} {p.end.msg}")
        if r.violations:
            return self.confirm(c, job, p, res, [], f"{r.violations[0][1]} possible", dict(r.violations[0][2]))
        if p.end is not None:
            good = c.panic_ok(Z, p)
        else:
            rc = p.value
            good = c.good(Z, rc, c.outputs(p), p)
        res.n["spec_queries"] += 1
        # prefer small counterexamples
        bad = z3.Not(good)
        r.enc.nonlinear = True
        q = r.enc.check(bad)
        if q == z3.unsat:
            return
        if q == z3.unknown:
            res.undecided(f"specification query without answer: {self.describe(job)}")
            return
        env = None
        for lim in (64, 4096, 1 << 20):
            small = [z3.Int(n) <= lim for n, t in r.enc.vars.items() if n.split(".")[-1][0] in "swhlxyd"]
            r.enc.s.push()
            r.enc.s.add(bad)
            k = r.enc.check(*small)
            if k == z3.sat:
                env = r.enc.model()
            r.enc.s.pop()
            if env:
                break
        if env is None:
            r.enc.check(bad)
            env = r.enc.model()
        self.confirm(c, job, p, res, [], f"{'panic ' + p.end.msg if p.end else 'result ' + str(p.value)}", env)

    def validate(self, c, job, p, res):
        """one native run per path, judged by the same specification"""
        rep = c.query(path_env(p))
        if rep is None:
            return
        res.n["native_runs"] += 1
        out = dr.nat(p.simd).call(rep["query"])
        m = api_message(rep, out)
        if m:
            dr.report(res, f"{m} [validation run]", dict(kind="api", lib="core", simd=p.simd, rep=rep))
        if ("crash" in out) != (p.end is not None):
            res.n["model_mismatch"] += 1
            res.undecided(f"executor and native disagree: {self.describe(job)}: {p.end and p.end.msg} / {str(out)[:100]} for {rep['img'] if 'img' in rep else rep}")

    def confirm(self, c, job, p, res, extra, msg, env=None):
        env = env or path_env(p)
        rep = c.query(env)
        if rep is None:
            res.undecided(f"candidate too large to replay: {self.describe(job)}: {msg}"[:400])
            return
        for simd in (p.simd, not p.simd)[:1]:
            res.n["native_runs"] += 1
            out = dr.nat(simd).call(rep["query"])
            m = api_message(rep, out)
            if m:
                dr.report(res, f"{m} [{msg}]", dict(kind="api", lib="core", simd=simd, rep=rep))
                return
        res.undecided(f"candidate not reproduced natively: {self.describe(job)}: {msg} with {dict(list(env.items())[:8])}"[:500])


def api_message(rep, out):
    c = CALLS[rep["t"]](rep["job"])
    c.load(rep)
    Z = Zc()
    if "crash" in out:
        if out["crash"] == 6:
            bad = z3.is_false(z3.simplify(c.panic_ok(Z, None)))
            return f"{c.name()}: panic although everything fits: {c.show()}" if bad else None
        return f"{c.name()}: native run ended with signal {out['crash']}: {c.show()}"
    outs = c.native_outputs(out)
    g = z3.simplify(c.good(Z, out["rc"], outs, None))
    if z3.is_false(g):
        return f"{c.name()}: result {out['rc']} {[hex(o) if o > 99 else o for o in outs[:12]]} for {c.show()}"
    return None


# ------------------------------------------------------------------ the calls
def u64(tag, name, hi=None, lo=0):
    return T.var(f"{tag}.{name}", 64, lo, W - 1 if hi is None else hi)


class Call:
    validations = 1 << 30

    def __init__(self, job):
        self.job = job
        self.img = None

    def name(self):
        return self.job["t"]

    def show(self):
        i = self.img
        return f"{i.fmt} {i.w}x{i.h} strides {list(i.strides)} lens {list(i.lens)} planes {i.np} crop {i.crop}" if i is not None else repr(self.job)

    def outputs(self, p):
        return p.ctx["outs"]() if "outs" in p.ctx else []

    def native_outputs(self, out):
        return []

    def load(self, rep):
        self.img = img_load(rep["img"]) if rep.get("img") else None


def words(obj, n, at=0):
    return [T.frombytes(obj.data[at + 8 * i : at + 8 * i + 8], 64) for i in range(n)]


def words_of(h):
    b = bytes.fromhex(h)
    return [int.from_bytes(b[i : i + 8], "little") for i in range(0, len(b) - 7, 8)]


def outbuf(r, n):
    o = r.new_obj(8 * n, "out", "out", 8)
    o.data = [0] * (8 * n)
    return o


class BoundsCheckCall(Call):
    """PixelFormat::bounds_check"""

    def make(self):
        j = self.job
        n = M.nplanes(j["fmt"])
        hi = j.get("wmax")
        self.img = M.Img(j["fmt"], u64("S", "w", hi), u64("S", "h", j.get("hmax")), strides=[u64("S", f"s{i}", j.get("smax")) for i in range(n)], lens=[u64("S", f"l{i}", MAXLEN) for i in range(n)], np=j["np"])

    def call(self, r, ctx):
        self.make()
        n = M.nplanes(self.img.fmt)
        S = M.SymImg(r, self.img, "S", const=True)
        # the description always carries as many strides as planes
        o = outbuf(r, 3)
        ctx["outs"] = lambda: words(o, 3)
        return r.call("@vp_bounds_check", [S.desc.base, o.base])

    def panic_ok(self, Z, p):
        return z3.Not(Planes(Z, self.img).fits)

    def good(self, Z, rc, outs, p):
        P = Planes(Z, self.img)
        rc = Z(rc)
        o = [Z(x) for x in outs]
        det2 = z3.Or(*[zand(o[0] == i, o[1] == P.geo[i][0], o[2] == P.strides[i], o[1] > o[2]) for i in range(min(P.np, P.n))], False)
        det3 = z3.Or(*[zand(o[0] == i, o[1] == P.need[i], o[2] == P.lens[i], o[1] > o[2]) for i in range(min(P.np, P.n))], False)
        return z3.Or(zand(rc == 0, P.ok), zand(rc == 1, z3.BoolVal(P.missing), o[1] == P.n, o[2] == P.np), zand(rc == 2, det2), zand(rc == 3, det3))

    def query(self, env):
        i = concrete_img(self.img, env)
        return dict(t=self.job["t"], job=self.job, img=img_json(i), query=dict(fn="vp_bounds_check", args=[["desc", desc_of(i)], ["buf", "00" * 24]]))

    def native_outputs(self, out):
        return words_of(out["bufs"][-1])


class BufferSizeCall(Call):
    def call(self, r, ctx):
        self.w, self.h = u64("S", "w"), u64("S", "h")
        return r.call("@vp_buffer_size", [M.FID[self.job["fmt"]], self.w, self.h])

    def total(self, Z):
        g = geometry(Z, self.job["fmt"], self.w, self.h)
        return g, sum((row * rows for row, rows in g), z3.IntVal(0))

    def panic_ok(self, Z, p):
        g, t = self.total(Z)
        return z3.Or(t >= W, *[row >= W for row, _ in g])

    def good(self, Z, rc, outs, p):
        return Z(rc) == self.total(Z)[1]

    def query(self, env):
        w, h = ev(self.w, env), ev(self.h, env)
        return dict(t=self.job["t"], job=self.job, w=w, h=h, query=dict(fn="vp_buffer_size", ret="usize", args=[["u32", M.FID[self.job["fmt"]]], ["usize", w], ["usize", h]]))

    def load(self, rep):
        self.w, self.h = rep["w"], rep["h"]

    def show(self):
        return f"buffer_size {self.job['fmt']} {self.w}x{self.h}"


class PackedStridesCall(Call):
    def call(self, r, ctx):
        self.w = u64("S", "w")
        o = outbuf(r, 4)
        ctx["outs"] = lambda: words(o, 4)
        return r.call("@vp_packed_strides", [M.FID[self.job["fmt"]], self.w, o.base])

    def panic_ok(self, Z, p):
        return z3.Or(*[row >= W for row, _ in geometry(Z, self.job["fmt"], self.w, 0)])

    def good(self, Z, rc, outs, p):
        g = geometry(Z, self.job["fmt"], self.w, 0)
        return zand(Z(rc) == len(g), *[Z(o) == row for o, (row, _) in zip(outs, g)])

    def query(self, env):
        w = ev(self.w, env)
        return dict(t=self.job["t"], job=self.job, w=w, query=dict(fn="vp_packed_strides", ret="usize", args=[["u32", M.FID[self.job["fmt"]]], ["usize", w], ["buf", "00" * 32]]))

    def native_outputs(self, out):
        return words_of(out["bufs"][-1])

    def load(self, rep):
        self.w = rep["w"]

    def show(self):
        return f"packed_strides {self.job['fmt']} width {self.w}"


class InferCall(Call):
    """infer and infer_xxx"""

    def call(self, r, ctx):
        j = self.job
        n = M.nplanes(j["fmt"])
        ns = j["ns"]
        self.img = M.Img(j["fmt"], u64("S", "w"), u64("S", "h"), strides=[u64("S", f"s{i}") for i in range(n if ns is None else ns)], lens=[u64("S", "l", MAXLEN)], ctor=2, nstrides=0xFFFFFFFF if ns is None else ns)
        o = outbuf(r, 8)
        ctx["outs"] = lambda: words(o, 8)
        buf = r.new_obj(self.img.lens[0], "plane", "buf", 1, j["mode"] != 1)
        buf.init = lambda k, c: 0
        self.base = buf.base
        st = r.new_obj(32, "strides", "strides", 8)
        st.data = [0] * 32
        for i, s in enumerate(self.img.strides):
            st.data[8 * i : 8 * i + 8] = T.tobytes(s, 64)
        return r.call("@vp_infer", [M.FID[j["fmt"]], buf.base, self.img.lens[0], self.img.w, self.img.h, st.base, W - 1 if ns is None else ns, j["mode"], o.base])

    def spec(self, Z):
        i = self.img
        g = geometry(Z, i.fmt, i.w, i.h)
        st = [row for row, _ in g] if i.nstrides == 0xFFFFFFFF else [Z(s) for s in i.strides]
        sizes = [s * rows for s, (_, rows) in zip(st, g)]
        return g, sizes

    def panic_ok(self, Z, p):
        g, sizes = self.spec(Z)
        if len(g) == 1:
            return z3.BoolVal(False)
        if self.job["ns"] not in (None, len(g)):
            return z3.BoolVal(True)
        return z3.Or(sum(sizes, z3.IntVal(0)) > Z(self.img.lens[0]), *[row >= W for row, _ in g])

    def good(self, Z, rc, outs, p):
        g, sizes = self.spec(Z)
        ln, base = Z(self.img.lens[0]), Z(self.base)
        if len(g) == 1:
            if self.job["mode"] == 2:
                return Z(rc) == 0
            return zand(Z(rc) == 1, Z(outs[0]) == base, Z(outs[1]) == ln)
        if self.job["ns"] not in (None, len(g)):
            return z3.BoolVal(False)
        out = [Z(rc) == len(g), sum(sizes, z3.IntVal(0)) <= ln]
        off = z3.IntVal(0)
        for i, s in enumerate(sizes):
            out += [Z(outs[2 * i]) == base + off, Z(outs[2 * i + 1]) == s]
            off = off + s
        return zand(*out)

    def query(self, env):
        i = concrete_img(self.img, env)
        ns = self.job["ns"]
        st = b"".join(s.to_bytes(8, "little") for s in i.strides) + bytes(32 - 8 * len(i.strides))
        return dict(t=self.job["t"], job=self.job, img=img_json(i), query=dict(fn="vp_infer", ret="usize", args=[["u32", M.FID[i.fmt]], ["res", i.lens[0]], ["usize", i.lens[0]], ["usize", i.w], ["usize", i.h], ["buf", st.hex()], ["usize", W - 1 if ns is None else ns], ["u32", self.job["mode"]], ["buf", "00" * 64]]))

    def native_outputs(self, out):
        self.base = out["addrs"][0]
        return words_of(out["bufs"][-1])


class ImagePlanesCall(Call):
    """construction of an image (and crops of it) and the planes it exposes"""

    checks = False

    def call(self, r, ctx):
        j = self.job
        n = M.nplanes(j["fmt"])
        sm = j.get("smax")
        w = j["w"] if j.get("w") is not None else u64("S", "w", j.get("wmax"))
        h = j["h"] if j.get("h") is not None else u64("S", "h", j.get("hmax"))
        ctor = j["ctor"] & 255
        ns = j.get("ns")
        if j.get("strides"):
            strides = list(j["strides"])
        else:
            strides = [u64("S", f"s{i}", sm) for i in range(ns if ns is not None and ctor == 2 else n)]
        lens = [u64("S", f"l{i}", MAXLEN) for i in range(1 if ctor == 2 else n)]
        crop = []
        for k in range(j.get("ncrop", 0)):
            x, y, cw, ch = (u64(f"S{k}", v) for v in "xywh")
            sx, sy = M.SUB.get(j["fmt"], (1, 1))
            if j.get("aligned"):
                # origin on the chroma grid
                r_x, r_y = u64(f"S{k}", "xh", (W - 1) // sx), u64(f"S{k}", "yh", (W - 1) // sy)
                x, y = T.mulc(r_x, sx, 64), T.mulc(r_y, sy, 64)
            crop.append((x, y, cw, ch))
        self.img = M.Img(j["fmt"], w, h, strides=strides, lens=lens, ctor=j["ctor"], nstrides=(0xFFFFFFFF if ns is None and ctor else ns), np=j.get("np"), crop=crop)
        self.img.color = ("YUV" if j["fmt"] in M.YUV else "RGB", "SRGB", "BT709", "BT709", True)
        S = M.SymImg(r, self.img, "S", const=not j.get("mut"))
        self.bases = [x.base for x in S.objs]
        return self.entry(r, S, ctx)

    def entry(self, r, S, ctx):
        o = outbuf(r, 12)
        no = outbuf(r, 1)
        ctx["outs"] = lambda: words(no, 1) + words(o, 12)
        return r.call("@vp_planes", [S.desc.base, o.base, no.base, int(bool(self.job.get("mut")))])

    def window(self, Z):
        """all windows fit (each inside the one before)"""
        conds = []
        pw, ph = Z(self.img.w), Z(self.img.h)
        for x, y, w, h in self.img.crop:
            conds.append(zand(Z(x) + Z(w) <= pw, Z(y) + Z(h) <= ph))
            pw, ph = Z(w), Z(h)
        return zand(*conds) if conds else z3.BoolVal(True)

    def panic_ok(self, Z, p):
        P = Planes(Z, self.img)
        if self.img.ctor:
            return zand(z3.Not(P.fits), Z(self.img.w) > 0, Z(self.img.h) > 0)
        return z3.Not(P.fits) if self.img.crop or self.checks else z3.BoolVal(False)

    def good(self, Z, rc, outs, p):
        P = Planes(Z, self.img)
        i = self.img
        rc = Z(rc)
        zero = z3.Or(Z(i.w) == 0, Z(i.h) == 0) if i.ctor else z3.BoolVal(False)
        fit = self.window(Z)
        alts = []
        crop = [] if i.how == 3 else i.crop
        if i.ctor:
            alts.append(zand(rc == 10, zero))
            alts.append(zand(z3.Not(zero), rc != 0, P.code_ok(rc, 10), rc < 20))
        if i.crop:
            alts.append(zand(z3.Not(zero), rc == 20, z3.Not(fit), P.ok))
            if not i.ctor:
                alts.append(zand(rc != 0, P.code_ok(rc, 20), rc > 20))
        # accepted
        ok = [z3.Not(zero), rc == 0, fit]
        if i.ctor or i.crop:
            ok.append(P.ok)
        n = min(P.np, P.n) if i.crop or i.ctor else P.np
        ok.append(Z(outs[0]) == n)
        sx, sy = M.SUB.get(i.fmt, (1, 1))
        x = y = 0
        for wx, wy, ww, wh in crop:
            x, y = T.add(x, wx, 64), T.add(y, wy, 64)
        if crop:
            cw, ch = crop[-1][2], crop[-1][3]
            off = geometry(Z, i.fmt, x, y)
            size = geometry(Z, i.fmt, cw, ch)
        for k in range(n):
            a, l, s = (Z(v) for v in outs[1 + 3 * k : 4 + 3 * k])
            start = Z(self.bases[0 if i.ctor == 2 else k])
            if i.ctor == 2:
                start = start + P.starts[k]
            if k < len(P.strides):
                ok.append(s == P.strides[k])
            if not crop:
                ok += [a == start, l == P.lens[k]]
                continue
            row, rows = size[k]
            ox, oy = off[k][0], off[k][1]
            need = P.strides[k] * (rows - 1) + row
            # an empty window has no pixels; any place inside the plane is as good
            full = zand(row > 0, rows > 0)
            ok.append(z3.Implies(full, zand(a == start + oy * P.strides[k] + ox, l >= need)))
            ok.append(zand(a >= start, a + l <= start + P.lens[k]))
        alts.append(zand(*ok))
        return z3.Or(*alts)

    def query(self, env):
        i = concrete_img(self.img, env)
        return dict(t=self.job["t"], job=self.job, img=img_json(i), query=dict(fn="vp_planes", args=[["desc", desc_of(i)], ["buf", "00" * 96], ["buf", "00" * 8], ["u32", int(bool(self.job.get("mut")))]]))

    def native_outputs(self, out):
        n = 1 if self.img.ctor == 2 else (len(self.img.lens) if self.img.np is None else self.img.np)
        self.bases = out["addrs"][:n]
        return words_of(out["bufs"][-1]) + words_of(out["bufs"][-2])


class InfoCall(ImagePlanesCall):
    """width, height and bounds_check of a cropped image"""

    checks = True

    def entry(self, r, S, ctx):
        o = outbuf(r, 3)
        ctx["outs"] = lambda: words(o, 3)
        return r.call("@vp_info", [S.desc.base, o.base])

    def good(self, Z, rc, outs, p):
        P = Planes(Z, self.img)
        i = self.img
        rc = Z(rc)
        fit = self.window(Z)
        zero = z3.Or(Z(i.w) == 0, Z(i.h) == 0) if i.ctor else z3.BoolVal(False)
        alts = []
        if i.ctor:
            alts.append(zand(rc == 10, zero))
            alts.append(zand(z3.Not(zero), rc != 0, P.code_ok(rc, 10), rc < 20))
        if i.crop:
            alts.append(zand(z3.Not(zero), rc == 20, z3.Not(fit), P.ok))
            if not i.ctor:
                alts.append(zand(rc != 0, P.code_ok(rc, 20), rc > 20))
        w, h = (i.crop[-1][2], i.crop[-1][3]) if i.crop else (i.w, i.h)
        ok = [z3.Not(zero), rc == 0, fit, Z(outs[0]) == Z(w), Z(outs[1]) == Z(h)]
        if i.crop or i.ctor:
            # an accepted image passes its own bounds check
            ok += [P.ok, Z(outs[2]) == 0]
        else:
            ok.append(P.code_ok(Z(outs[2])))
        alts.append(zand(*ok))
        return z3.Or(*alts)

    def query(self, env):
        q = ImagePlanesCall.query(self, env)
        q["query"] = dict(fn="vp_info", args=[q["query"]["args"][0], ["buf", "00" * 24]])
        return q

    def native_outputs(self, out):
        return words_of(out["bufs"][-1])


class RejectCall(Call):
    """convert / convert_multi_thread / copy on requests that must be rejected (or have nothing to do)"""

    validations = 2

    def make(self, r):
        j = self.job
        n1, n2 = M.nplanes(j["src"]), M.nplanes(j["dst"])
        w, h, w2, h2 = (j[k] for k in ("w", "h", "w2", "h2"))
        sv = {}

        def val(v, tag, name):
            if v == "sym":
                return u64(tag, name)
            if v == "even":
                return T.mulc(u64(tag, name, (W - 1) // 2), 2, 64)
            return v

        w, h = val(w, "S", "w"), val(h, "S", "h")
        w2, h2 = w if w2 is None else val(w2, "D", "w"), h if h2 is None else val(h2, "D", "h")

        def img(tag, f, n, w, h, np, kind, ctor):
            st = [u64(tag, f"s{i}") for i in range(n)]
            ln = [u64(tag, f"l{i}", MAXLEN) for i in range(n)]
            i = M.Img(f, w, h, strides=st, lens=ln, np=np, ctor=ctor, nstrides=n if ctor else None)
            full = j.get("full", [True, False])[tag == "D"]
            i.color = (kind, j.get("transfer", "SRGB"), "BT709", "BT709", full)
            return i

        k1 = j.get("k1") or ("YUV" if j["src"] in M.YUV else "RGB")
        k2 = j.get("k2") or ("YUV" if j["dst"] in M.YUV else "RGB")
        self.S = img("S", j["src"], n1, w, h, j.get("np1"), k1, j.get("ctor1", 0))
        self.D = img("D", j["dst"], n2, w2, h2, j.get("np2"), k2, j.get("ctor2", 0))
        self.threads = u64("V", "t", lo=1) if j.get("threads") == "sym" else j.get("threads", 1)

    def call(self, r, ctx):
        self.make(r)
        S = M.SymImg(r, self.S, "S", const=True)
        D = M.SymImg(r, self.D, "D")
        ctx.update(S=S, D=D)
        slots = {o.slot for o in D.objs}
        ctx["outs"] = lambda: [int(any(len(w) == 6 and w[0] in slots for w in r.writes))]
        e = r.enc
        Z = Zs(e)
        a = self.assume(Z)
        e.nonlinear = True
        e.s.add(a)
        r.pckey = ("assume",)
        r.model = None
        if e.check() == z3.unsat:
            raise X.PathEnd("infeasible")
        return r.call("@vp_run", [S.desc.base, D.desc.base, self.job["op"], self.threads, 0])

    def conds(self, Z):
        S, D = self.S, self.D
        P, Q_ = Planes(Z, S), Planes(Z, D)
        mism = z3.Or(Z(S.w) != Z(D.w), Z(S.h) != Z(D.h))
        odd = z3.Or(*[Z(v) % 2 == 1 for v in (S.w, S.h, D.w, D.h)])
        colour = any(i.fmt in M.YUV and i.color[0] == "RGB" for i in (S, D))
        ident = S.fmt == D.fmt and S.color == D.color
        return P, Q_, mism, odd, colour, ident

    def assume(self, Z):
        P, Q_, mism, odd, colour, ident = self.conds(Z)
        what = self.job["what"]
        valid = zand(P.ok, Q_.ok)
        if what == "mismatch":
            return mism
        if what == "odd":
            return zand(odd, z3.Not(mism))
        if what == "bounds":
            return zand(z3.Not(valid), z3.Not(mism), z3.Not(odd))
        if what == "color":
            return valid
        return z3.BoolVal(True)

    def panic_ok(self, Z, p):
        P, Q_, *_ = self.conds(Z)
        return z3.Or(z3.Not(P.fits), z3.Not(Q_.fits))

    def good(self, Z, rc, outs, p):
        P, Q_, mism, odd, colour, ident = self.conds(Z)
        rc = Z(rc)
        touched = outs[0] != 0
        zero1 = z3.Or(Z(self.S.w) == 0, Z(self.S.h) == 0)
        zero2 = z3.Or(Z(self.D.w) == 0, Z(self.D.h) == 0)
        alts = []
        c1, c2 = self.S.ctor, self.D.ctor
        if c1:
            alts.append(zand(rc == 110, zero1))
            alts.append(zand(z3.Not(zero1), rc > 110, P.code_ok(rc, 110)))
        if c2:
            alts.append(zand(rc == 210, zero2))
            alts.append(zand(z3.Not(zero2), rc > 210, Q_.code_ok(rc, 210)))
        fine = z3.And(z3.Not(zero1) if c1 else True, z3.Not(zero2) if c2 else True)
        alts.append(zand(fine, rc == 34, mism))
        alts.append(zand(fine, rc == 30, odd))
        if colour and not ident:
            alts.append(zand(fine, rc == 35))
        # bounds errors: of the source or of the destination
        alts.append(zand(fine, rc >= 31, rc <= 33, z3.Or(zand(z3.Not(P.ok), P.code_ok(rc, 30)), zand(z3.Not(Q_.ok), Q_.code_ok(rc, 30)))))
        bad = z3.Or(*alts)
        if touched:
            bad = z3.BoolVal(False)
        empty = z3.Or(zero1, zero2)
        acc = zand(fine, rc == 0, z3.Not(mism), z3.Not(odd), P.ok, Q_.ok, z3.BoolVal(not colour or ident), z3.Implies(empty, z3.BoolVal(not touched)))
        return z3.Or(bad, acc)

    def query(self, env):
        S, D = concrete_img(self.S, env), concrete_img(self.D, env)
        t = ev(self.threads, env)
        rnd = dr.rng("reject", self.job)

        def content(i):
            n = len(i.lens) if i.np is None else i.np
            if sum(i.lens[:n]) > 1 << 18:
                return None
            return [rnd.randbytes(l) for l in i.lens[:n]]

        return dict(t=self.job["t"], job=self.job, simg=img_json(S), dimg=img_json(D), query=dict(fn="run", src=desc_of(S, content(S)), dst=desc_of(D, content(D)), op=self.job["op"], threads=t, order=0))

    def native_outputs(self, out):
        return [int(any(isinstance(a, str) and a != b for a, b in zip(self.before, out["dst"])))]

    def load(self, rep):
        self.S, self.D = img_load(rep["simg"]), img_load(rep["dimg"])
        self.before = rep["query"]["dst"]["planes"]

    def name(self):
        return ("convert", "convert_multi_thread", "copy")[self.job["op"]]

    def show(self):
        f = lambda i: f"{i.fmt} {i.w}x{i.h} strides {list(i.strides)} lens {list(i.lens)} planes {i.np} colour {i.color[0]}"
        return f"{f(self.S)} -> {f(self.D)}"


class ViewCall(ImagePlanesCall):
    """what an image says about itself, however it is handed over"""

    def entry(self, r, S, ctx):
        o = outbuf(r, 24)
        self.img.color = tuple(self.job["color"])
        put_color(r, S.desc, self.img)
        ctx["outs"] = lambda: words(o, 24)
        return r.call("@vp_view", [S.desc.base, self.job["which"], o.base])

    def good(self, Z, rc, outs, p):
        i = self.img
        w, h = (i.crop[-1][2], i.crop[-1][3]) if i.crop and i.how != 3 else (i.w, i.h)
        want = [M.FID[i.fmt], w, h] + i.color_words()
        if i.color[0] == "RGB":
            want[6] = want[7] = 0
        ok = zand(*[Z(a) == Z(b) for a, b in zip(outs, want)])
        return zand(z3.Or(Z(rc) != 0, ok), ImagePlanesCall.good(self, Z, rc, outs[8:], p))

    def query(self, env):
        q = ImagePlanesCall.query(self, env)
        q["query"] = dict(fn="vp_view", args=[q["query"]["args"][0], ["u32", self.job["which"]], ["buf", "00" * 192]])
        return q

    def native_outputs(self, out):
        n = 1 if self.img.ctor == 2 else (len(self.img.lens) if self.img.np is None else self.img.np)
        self.bases = out["addrs"][:n]
        return words_of(out["bufs"][-1])


def put_color(r, obj, img, at=128):
    for i, v in enumerate(img.color_words()):
        M.put(r, obj, at + 4 * i, v, 32)


class BlankCall(Call):
    """Image::blank"""

    def call(self, r, ctx):
        j = self.job
        self.w = j["w"] if j.get("w") is not None else u64("S", "w", (1 << 12) - 1)
        self.h = j["h"] if j.get("h") is not None else u64("S", "h", (1 << 12) - 1)
        self.prepare()
        c = r.new_obj(20, "color", "color", 4)
        c.data = [0] * 20
        put_color(r, c, self.img, 0)
        o = outbuf(r, 24)
        ctx["outs"] = lambda: words(o, 24)
        return r.call("@vp_blank", [M.FID[j["fmt"]], self.w, self.h, c.base, int(j.get("w") is not None), o.base])

    def prepare(self):
        self.img = M.Img(self.job["fmt"], self.w, self.h, color=tuple(self.job["color"]), strides=[], lens=[])

    def panic_ok(self, Z, p):
        return z3.BoolVal(False)

    def good(self, Z, rc, outs, p):
        i = self.img
        g = geometry(Z, i.fmt, self.w, self.h)
        want = [M.FID[i.fmt], self.w, self.h] + i.color_words()
        if i.color[0] == "RGB":
            want[6] = want[7] = 0
        ok = [Z(rc) == 0] + [Z(a) == Z(b) for a, b in zip(outs, want + [len(g)])]
        off = z3.IntVal(0)
        for k, (row, rows) in enumerate(g):
            a, l, s = (Z(v) for v in outs[9 + 3 * k : 12 + 3 * k])
            ok += [a == off, l == row * rows, s == row]
            off = off + row * rows
        return zand(*ok)

    def query(self, env):
        w, h = ev(self.w, env), ev(self.h, env)
        c = b"".join(v.to_bytes(4, "little") for v in self.img.color_words())
        return dict(t=self.job["t"], job=self.job, w=w, h=h, query=dict(fn="vp_blank", args=[["u32", M.FID[self.job["fmt"]]], ["usize", w], ["usize", h], ["buf", c.hex()], ["u32", 1], ["buf", "00" * 192]]))

    def native_outputs(self, out):
        return words_of(out["bufs"][-1])

    def load(self, rep):
        self.w, self.h = rep["w"], rep["h"]
        self.prepare()

    def show(self):
        return f"blank {self.job['fmt']} {self.w}x{self.h}"


class FactsCall(Call):
    """PixelFormat::bits_per_component, PixelFormat::variants"""

    def call(self, r, ctx):
        if "fmt" in self.job:
            return r.call("@vp_bits", [M.FID[self.job["fmt"]]])
        o = r.new_obj(4 * 32, "out", "out", 8)
        o.data = [0] * 128
        ctx["outs"] = lambda: words(o, 16)
        return r.call("@vp_variants", [o.base])

    def panic_ok(self, Z, p):
        return z3.BoolVal(False)

    def good(self, Z, rc, outs, p):
        if "fmt" in self.job:
            return Z(rc) == M.BITS.get(self.job["fmt"], 8)
        ids = [o >> 32 * k & 0xFFFFFFFF for o in outs for k in (0, 1)][: len(M.FMT)]
        return zand(Z(rc) == len(M.FMT), z3.BoolVal(sorted(ids) == sorted(M.FID[f] for f in M.FMT)))

    def query(self, env):
        if "fmt" in self.job:
            return dict(t="facts", job=self.job, query=dict(fn="vp_bits", ret="usize", args=[["u32", M.FID[self.job["fmt"]]]]))
        return dict(t="facts", job=self.job, query=dict(fn="vp_variants", ret="usize", args=[["buf", "00" * 128]]))

    def native_outputs(self, out):
        return words_of(out["bufs"][-1]) if out["bufs"] else []


CALLS = dict(view=ViewCall, blank=BlankCall, facts=FactsCall, reject=RejectCall, bounds=BoundsCheckCall, buffer_size=BufferSizeCall, packed_strides=PackedStridesCall, infer=InferCall, planes=ImagePlanesCall, info=InfoCall)


class P11(ApiCheck):
    id = "P11"
    what = "bounds_check, buffer_size, packed_strides and the construction checks against the documented plane geometry over unbounded integers: exact results, no wrap-around, truthful error details"
    bounds = "all 15 formats; width, height, strides: every 64-bit value; plane lengths up to 2^63-1; 0..N planes"
    assumptions = ["panics are accepted only where a size does not fit into usize"]

    def jobs(self):
        out = []
        for f in M.FMT:
            n = M.nplanes(f)
            for np in range(n + 1):
                out.append(dict(t="bounds", fmt=f, np=np))
            out.append(dict(t="buffer_size", fmt=f))
            out.append(dict(t="packed_strides", fmt=f))
            out.append(dict(t="info", fmt=f, ctor=0))
            out.append(dict(t="info", fmt=f, ctor=1))
            out.append(dict(t="info", fmt=f, ctor=1, ns=n))
        return out


class P12(ApiCheck):
    id = "P12"
    what = "the planes infer / infer_xxx and images built from one buffer or from planes expose (start, length, stride) against consecutive exact planes; construction errors"
    bounds = "all 15 formats; infer, the per-format functions and Image::from_buffer / from_planes, shared and mutable; width, height, strides: every 64-bit value; buffer lengths up to 2^63-1; 0..4 strides; packed strides"
    assumptions = ["panics are accepted only where a size does not fit into usize, and for infer where the buffer is too small or the number of strides is wrong (documented)"]

    def jobs(self):
        out = []
        for f in M.FMT:
            n = M.nplanes(f)
            for mode in (0, 1, 2):
                for ns in [None] + list(range(0, 5)):
                    if ns is not None and ns > 4:
                        continue
                    out.append(dict(t="infer", fmt=f, mode=mode, ns=ns))
            for mut in (0, 1):
                for ns in [None] + list(range(0, 5)):
                    out.append(dict(t="planes", fmt=f, ctor=2, ns=ns, mut=mut))
                for ns in [None, n]:
                    out.append(dict(t="planes", fmt=f, ctor=1, ns=ns, mut=mut))
        return out


class P10(ApiCheck):
    id = "P10"
    what = "Cropped: acceptance exactly of the windows that fit, planes of the cropped image start at the window's first sample, keep the stride, hold all its rows and stay inside the parent's planes; conversions of and into cropped images read and write exactly the window"
    bounds = "planes and rejection: all 15 formats, window x, y, width, height over every 64-bit value (origin on the chroma grid for the plane positions), one and two nested windows, symbolic parent strides (one window) or concrete ones (nested), parent sizes up to 2^32 (one window, concrete strides) or concrete; conversions: all 225 pairs with cropped source and destination (interior, right/bottom edge, nested), symbolic strides, exact or symbolic plane lengths, vector and scalar code"
    assumptions = ["window origins off the chroma grid are outside the claim for subsampled formats"]

    def describe(self, job):
        return ApiCheck.describe(self, job) if "t" in job else name_of(job)

    def jobs(self):
        out = []
        for f in M.FMT:
            g = M.plane_geometry(f, 20, 8)
            for kind in ("planes", "info"):
                for ctor in (0, 1):
                    for mut in (0, 1) if kind == "planes" else (0,):
                        base = dict(t=kind, fmt=f, ctor=ctor, mut=mut, aligned=kind == "planes", ns=M.nplanes(f))
                        st = [a + 5 * (i + 1) for i, (a, b) in enumerate(g)]
                        out.append(dict(base, w=20, h=8, strides=st, ncrop=1))
                        out.append(dict(base, w=20, h=8, strides=[a for a, b in g], ncrop=1))
                        out.append(dict(base, w=20, h=8, strides=st, ncrop=2))
                        out.append(dict(base, w=20, h=8, smax=(1 << 24) - 1, ncrop=1))
                        out.append(dict(base, wmax=(1 << 32) - 1, hmax=(1 << 32) - 1, strides=[1 << 20, 1 << 21, 1 << 22][: len(g)], ncrop=1))
        sizes = [(18, 4)] if not self.thorough else [(18, 4), (2, 2), (34, 2), (16, 6), (50, 4)]
        subset = [("I420", "RGBA"), ("RGB", "NV12"), ("I010", "I412"), ("YUYV", "BGR"), ("I444", "I422"), ("BGRA", "I210"), ("NV12", "I420"), ("RGBA", "YUYV")]
        for w, h in sizes:
            for simd in (True, False):
                for s, d in all_pairs():
                    same = dict(dfull=False) if s == d and s in M.YUV else {}
                    # right and bottom edge of the source, interior of the destination
                    out.append(pair(s, d, w + 6, h + 2, simd, crop=[(6, 2, w, h)], dcrop=[(2, 0, w, h)], lens="exact", **same))
                    if self.thorough or (s, d) in subset or s == d:
                        out.append(pair(s, d, w + 6, h + 2, simd, crop=[(2, 2, w, h)], dcrop=[(6, 2, w, h)], lens="exact", **same))
                        out.append(pair(s, d, w + 6, h + 6, simd, crop=[(2, 2, w + 4, h + 4), (2, 2, w, h)], dcrop=[(4, 0, w + 2, h + 6), (2, 6, w, h)], **same))
                        out.append(pair(s, d, w, h + 4, simd, crop=[(0, 2, w, h)], dcrop=[(0, 4, w, h)], ctor=1, dctor=1, **same))
                for f in M.FMT:
                    # plain copy
                    out.append(pair(f, f, w + 6, h + 2, simd, crop=[(6, 2, w, h)], dcrop=[(4, 0, w, h)], lens="exact"))
                    out.append(pair(f, f, w + 6, h + 2, simd, crop=[(2, 0, w, h)], dcrop=[(6, 2, w, h)], lens="exact", op=2))
                    sx, sy = M.SUB.get(f, (1, 1))
                    if sx == 1 or sy == 1:
                        # odd origins where the format has no chroma grid in that direction
                        x, y = 3 if sx == 1 else 4, 1 if sy == 1 else 2
                        for g in ("RGBA", "I420", "BGR", "I444"):
                            out.append(pair(f, g, w + 6, h + 2, simd, crop=[(x, y, w, h)], dcrop=[(2, 2, w, h)], full=True, dfull=f != g))
                            out.append(pair(g, f, w + 6, h + 2, simd, crop=[(2, 2, w, h)], dcrop=[(x, y, w, h)], full=True, dfull=f != g))
        return out

    def run(self, job, res):
        if "t" in job:
            return ApiCheck.run(self, job, res)
        first = True
        for p in dr.explore(res, conv_call(job), job["simd"]):
            if not check_end(res, job, p, 0):
                continue
            if check_writes(res, job, p) and check_deps(res, job, p):
                check_values(res, job, p)
            if first and not res.viol:
                validate(res, job, p)
                first = False


class P18(ApiCheck):
    id = "P18"
    what = "result codes of convert, convert_multi_thread and copy for every invalid request are truthful, nothing panics and no destination byte is written; nothing is accepted that must be rejected; image construction with zero dimensions; empty images"
    bounds = "all 225 format pairs (copy: 15). Mismatch and odd dimensions: every 64-bit width, height, stride, plane lengths up to 2^63-1. Bounds errors: every even 64-bit width with heights 2 (thorough: 2,4) and every even height with width 2 (quick: selected pairs), all strides and lengths, 0..N planes on either side. Colour kinds: 4x2 images. Zero dimensions: symbolic other dimension. Thread count symbolic"
    assumptions = ["a request that is invalid in several ways may be reported with any of the matching errors", "panics are accepted only where a size does not fit into usize"]

    def jobs(self):
        out = []
        ops = (0, 1)
        base = dict(t="reject", w2=None, h2=None, threads="sym")
        few = [("I420", "RGBA"), ("RGB", "NV12"), ("I010", "I412"), ("YUYV", "BGR"), ("I444", "I422"), ("BGRA", "I210"), ("NV12", "I420"), ("RGBA", "YUYV")]
        for s, d in all_pairs():
            for op in ops + ((2,) if s == d else ()):
                full = [True, True] if op == 2 else [True, False]
                b = dict(base, src=s, dst=d, op=op, full=full)
                out.append(dict(b, what="mismatch", w="sym", h="sym", w2="sym", h2="sym"))
                out.append(dict(b, what="odd", w="sym", h="sym"))
                out.append(dict(b, what="bounds", w="even", h=2))
                if self.thorough or (s, d) in few or s == d:
                    if self.thorough or s != d:
                        out.append(dict(b, what="bounds", w=2, h="even"))
                    out.append(dict(b, what="bounds", w="even", h=4))
                    out.append(dict(b, what="bounds", w="even", h=0))
                    out.append(dict(b, what="bounds", w=0, h="even"))
                    n1, n2 = M.nplanes(s), M.nplanes(d)
                    for a in range(n1):
                        out.append(dict(b, what="bounds", w="even", h=2, np1=a))
                    for a in range(n2):
                        out.append(dict(b, what="bounds", w="even", h=2, np2=a))
                        out.append(dict(b, what="mismatch", w="sym", h="sym", w2="sym", h2="sym", np2=a))
                    out.append(dict(b, what="any", w=0, h=4))
                    out.append(dict(b, what="any", w=0, h=3))
                    out.append(dict(b, what="any", w="sym", h=0))
                    out.append(dict(b, what="any", w=0, h="sym", ctor1=1))
                    out.append(dict(b, what="any", w="sym", h=0, ctor2=1))
                    out.append(dict(b, what="any", w=0, h=0, ctor1=1, ctor2=1))
                if op == 2:
                    continue
                for k1, k2 in (("RGB", None), (None, "RGB"), ("RGB", "RGB")):
                    if (k1 and s not in M.YUV) or (k2 and d not in M.YUV):
                        continue
                    if s == d and k1 and k2:
                        continue
                    out.append(dict(b, what="color", w=4, h=2, k1=k1, k2=k2, threads=3))
                    if (s, d) in few:
                        for tr in ("Linear", "PQ"):
                            out.append(dict(b, what="color", w=20, h=4, k1=k1, k2=k2, threads=3, transfer=tr))
        return out


class P20(ApiCheck):
    id = "P20"
    what = "format, size, colour and planes reported by images held by value, by shared and mutable reference, cropped, and cropped and unwrapped again, through planes and planes_mut; Image::blank's description, planes, bounds check and bytes; variants and bits_per_component"
    bounds = "all 15 formats, user-defined images, from_planes and from_buffer; width, height, strides: every 64-bit value, plane lengths up to 2^63-1 (cropped: 20x8 with symbolic windows); blank: every width and height below 4096 (content: sizes up to 6x4 enumerated); every transfer function, primaries, colour space and range (rotating over the formats)"
    assumptions = ["panics are accepted only where a size does not fit into usize"]

    def jobs(self):
        out = []
        k = 0
        for n, f in enumerate(M.FMT):
            def color():
                nonlocal k
                k += 1
                kind = "YUV" if f in M.YUV else "RGB"
                return (kind, M.TRANSFER[k % 7], M.PRIM[k % 3], M.SPACE[k % 5], k % 4 < 2)

            np = M.nplanes(f)
            g = M.plane_geometry(f, 20, 8)
            st = [a + 5 * (i + 1) for i, (a, b) in enumerate(g)]
            for ctor in (0, 1, 2):
                for how in (0, 1, 2):
                    for which in (0, 1, 2):
                        b = dict(t="view", fmt=f, which=which, mut=which != 0, ns=np)
                        # a window on an image: one constructor per accessor suffices
                        crop = ctor != 2 and (ctor == 1) == (which == 0)
                        if ctor == 0 or how == which or f in ("I420", "NV12", "RGBA"):
                            out.append(dict(b, ctor=ctor | how << 8, color=color()))
                        if crop:
                            out.append(dict(b, ctor=ctor | how << 8, color=color(), w=20, h=8, strides=st, ncrop=1, aligned=True))
                for which in (0, 1, 2):
                    if ctor != 2 and (ctor == 1) == (which == 0):
                        out.append(dict(t="view", fmt=f, which=which, mut=which != 0, ns=np, ctor=ctor | 3 << 8, color=color(), w=20, h=8, strides=st, ncrop=1, aligned=True))
            for w, h in ((None, None), (2, 2), (6, 4), (3, 1), (0, 4), (4, 0), (5, 3)):
                out.append(dict(t="blank", fmt=f, w=w, h=h, color=color()))
            out.append(dict(t="facts", fmt=f))
        out.append(dict(t="facts"))
        return out
