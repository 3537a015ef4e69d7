"""P19: Resizer, run through the real fast_image_resize."""
import math
from fractions import Fraction as Q
import z3
from .. import driver as dr, model as M, spec, terms as T, numeric, smt
from ..terms import Term
from .common import *

ALG = {3: "nearest", 4: "nearest, used resizer", 5: "convolution (bilinear)", 6: "interpolation (bilinear)", 7: "super sampling (box)", 8: "convolution (Lanczos3)"}
CONVEX = (5, 6, 7)


def unit(fmt, comp):
    """(pixels per unit in x, in y) of the plane that holds the component: YUYV is resampled in pairs of pixels"""
    if fmt == "YUYV":
        return 2, 1
    if fmt in M.RGBS or comp == "Y":
        return 1, 1
    return M.SUB[fmt]


def units(img, comp):
    w, h = img.size
    ux, uy = unit(img.fmt, comp)
    return w // ux, h // uy


def centre(i, s, d):
    """source coordinate (in units) of the centre of destination unit i"""
    return (Q(i) + Q(1, 2)) * s / d


def nearest(i, s, d):
    """units whose area contains the centre (two, when it lies on a border)"""
    c = centre(i, s, d)
    k = math.floor(c)
    return [k, k - 1] if c == k else [k]


def source_locs(src, dst, comp, x, y):
    """locations of the source samples nearest-neighbour sampling may choose"""
    ux, uy = unit(dst.fmt, comp)
    (sw, sh), (dw, dh) = units(src, comp), units(dst, comp)
    out = []
    for i in nearest(x // ux, sw, dw):
        for j in nearest(y // uy, sh, dh):
            out.append(src.loc(i * ux + x % ux, j * uy + y % uy)[comp])
    return out


def window(src, dst, comp, x, y, alg):
    """locations of the source samples an interpolating filter may use"""
    ux, uy = unit(dst.fmt, comp)
    (sw, sh), (dw, dh) = units(src, comp), units(dst, comp)
    sup = 3 if alg == 8 else 1
    rng = []
    for i, s, d in ((x // ux, sw, dw), (y // uy, sh, dh)):
        c = centre(i, s, d)
        r = sup * max(Q(s, d), Q(1)) + 1
        rng.append([k for k in range(s) if abs(k + Q(1, 2) - c) <= r])
    px, py = x % ux, y % uy
    return [src.loc(i * ux + px, j * uy + py)[comp] for i in rng[0] for j in rng[1]]


def resize_message(q, out, want):
    """oracle on a concrete run"""
    dst, src = dr.image_of(q["dst"]), dr.image_of(q["src"])
    if "crash" in out:
        return dr.judge(q, out, dict(kind="crash"))
    if out["rc"]:
        return f"result code {out['rc']} instead of 0"
    sp = dr.sub_planes(src, q["src"]["planes"], q["src"]["strides"])
    dp = dr.sub_planes(dst, out["dst"], q["dst"]["strides"])
    op = q["op"]
    for comp, x, y, loc in spec.dst_samples(dst):
        got = dr.get_sample(dp, loc)
        same = src.size == dst.size
        if op in (3, 4) or same:
            ok = {dr.get_sample(sp, l) for l in source_locs(src, dst, comp, x, y)}
            if got not in ok:
                return f"{ALG[op]} {src.fmt} {src.size}->{dst.size}: sample {comp} at ({x},{y}) is {got}, the source sample nearest to it {sorted(ok)}"
        else:
            vs = [dr.get_sample(sp, l) for l in window(src, dst, comp, x, y, op)]
            if op in CONVEX and not min(vs) - 1 <= got <= max(vs) + 1:
                return f"{ALG[op]} {src.fmt} {src.size}->{dst.size}: sample {comp} at ({x},{y}) is {got}, the source samples around it lie in {min(vs)}..{max(vs)}"
            if max(vs) == min(vs) and abs(got - vs[0]) > 1:
                return f"{ALG[op]} {src.fmt} {src.size}->{dst.size}: sample {comp} at ({x},{y}) is {got}, all source samples around it are {vs[0]}"
            if got > spec.mx(dst.fmt):
                return f"{ALG[op]} {src.fmt} {src.size}->{dst.size}: sample {comp} at ({x},{y}) is {got}, above the maximum {spec.mx(dst.fmt)}"
    return None


def confirm_resize(res, case, p, msg, env, tries=10):
    for i in range(tries):
        try:
            q = dr.instance(case, env, dr.rng("resize", msg, i), extreme=i % 2 == 1)
        except dr.TooBig:
            break
        out = dr.run_native(res, q, p.simd, p.kind)
        m = resize_message(q, out, {})
        if m:
            dr.report(res, f"{m} [{msg}]", dict(kind="resize", lib=p.kind, simd=p.simd, query=q))
            return True
    res.undecided(f"candidate not reproduced natively: {msg[:300]}")
    return False


DECIDED = {}


def decide_filter(t, lo_hi, top):
    """-> (ok, env): lo-1 <= t <= hi+1 when every variable lies in lo..hi (convex), or t close to v when all are v; and t <= top"""
    c, order = numeric.canon(t)
    key = (c, lo_hi, top)
    if key in DECIDED:
        ok, vals = DECIDED[key]
    else:
        e = smt.RealEnc(20000)
        vs = numeric.variables(t)
        zt = e.i(t)
        zv = [e.i(v) for v in vs.values()]
        lo, hi = (z3.Real("lo"), z3.Real("hi")) if lo_hi else (z3.ToReal(z3.Int("lo")),) * 2
        for z in zv:
            e.s.add(z >= lo, z <= hi, z <= top)
        # the sample is an integer: more than one code away means at least two
        bad = [zt >= hi + 2, zt <= lo - 2]
        if not lo_hi:
            bad = [z3.And(lo == hi, z3.Or(bad))]
        ok, vals = True, None
        for b in bad + [zt >= top + 1]:
            e.s.push()
            e.s.add(b)
            r = smt.checked(e.s)
            if r != z3.unsat:
                ok = None if r == z3.unknown else False
                if ok is False:
                    m = e.s.model()
                    f = lambda z: m.eval(z, model_completion=True).as_fraction()
                    vals = {n: min(v.hi, max(v.lo, round(f(e.i(v))))) for n, v in vs.items()}
                e.s.pop()
                break
            e.s.pop()
        DECIDED[key] = ok, (vals if ok is False else None)
    return ok, vals


class P19(dr.Check):
    id = "P19"
    kinds = ("resize",)
    technique = "symbolic execution of Resizer::resize and of the real fast_image_resize it calls (LLVM IR) on symbolic images; memory obligations, write sets and sample terms decided by z3 (integer arithmetic)"
    what = "resize ends without panic or stray access and writes exactly the samples of the destination rectangle; with nearest-neighbour sampling every destination sample is the source sample of the same component whose area contains its centre (so equal sizes reproduce the source); with interpolating filters it depends only on samples of the same component around that position, lies between the smallest and the largest of them (bilinear, box; to within one code) and equals them when they are equal, and never exceeds the depth; different formats are rejected without touching the destination"
    bounds = "all 15 formats; nearest (fresh and reused resizer), bilinear convolution and interpolation, 2x box super sampling, Lanczos3 convolution; vector and scalar code of fast_image_resize; symbolic strides (two-byte aligned for the 16-bit formats) and plane lengths, all in-depth sample values; sizes enumerated: 12 source/destination size pairs up to 34x8 (thorough: more), crop windows on both sides, zero-size chroma and odd sizes for memory safety; all 210 pairs of different formats"
    assumptions = [
        "16-bit planes are two-byte aligned (rows of other alignment are not supported by resize)",
        "filters other than those named are not covered; the arithmetic of fast_image_resize itself is third-party code and only judged by the bounds above",
        "built with the multi-thread feature; the plane jobs run one after another",
    ]

    def describe(self, job):
        return name_of(job)

    def jobs(self):
        out = []

        def add(f, s, d, op, simd, **k):
            st = "sym2" if M.bps(f) == 2 else "sym"
            full = dict(full=True)
            full.update(k)
            c = pair(f, f, s[0], s[1], simd, strides=st, dw=d[0], dh=d[1], op=op, **full)
            c["kind"] = "resize"
            out.append(c)

        sizes = [((8, 4), (4, 2)), ((4, 4), (8, 8)), ((6, 4), (10, 6)), ((4, 4), (4, 4)), ((34, 4), (18, 2)), ((4, 8), (4, 2)), ((2, 2), (4, 6)), ((16, 2), (16, 4))]
        if self.thorough:
            sizes += [((2 * a, 2 * b), (2 * c, 2 * d)) for a in (1, 2, 3, 5) for b in (1, 2, 3) for c in (1, 2, 4, 7) for d in (1, 2, 3)] + [((66, 4), (34, 6)), ((34, 4), (66, 4)), ((130, 2), (50, 2))]
        small = [((1, 1), (1, 1)), ((3, 3), (5, 1)), ((1, 2), (2, 1)), ((2, 1), (4, 3)), ((1, 1), (4, 4)), ((4, 4), (1, 1)), ((5, 3), (5, 3))]
        for f in M.FMT:
            for s, d in sizes:
                add(f, s, d, 3, True)
                for op in (5, 6, 7):
                    if op == 5 or (s, d) in sizes[:3] or self.thorough:
                        add(f, s, d, op, True)
            add(f, (8, 4), (4, 2), 5, False)
            add(f, (6, 4), (10, 6), 5, False)
            add(f, (8, 4), (4, 2), 3, False)
            for s, d in [((8, 4), (4, 2)), ((4, 4), (6, 6))]:
                add(f, s, d, 8, True)
            add(f, (8, 4), (4, 2), 4, True)
            add(f, (6, 4), (6, 4), 4, True)
            # cropped images on either side
            for op in (3, 5):
                add(f, (12, 8), (12, 10), op, True, crop=[(2, 2, 8, 4)], dcrop=[(4, 2, 4, 6)])
                add(f, (12, 8), (12, 10), op, True, crop=[(4, 4, 8, 4)], dcrop=[(4, 2, 8, 8)], lens="exact")
                add(f, (12, 8), (8, 8), op, True, crop=[(4, 4, 8, 4), (2, 2, 6, 2)], dcrop=[(2, 4, 6, 2)])
            # packed planes
            for s, d in [((6, 4), (6, 4)), ((10, 2), (6, 4))]:
                for op in (3, 5):
                    add(f, s, d, op, True)
                    out[-1]["packed"] = True
                    for i in ("src", "dst"):
                        out[-1][i].align2 = M.bps(f) == 2
                        out[-1][i].strides, out[-1][i].lens = "packed", "exact"
            # colour information is ignored
            add(f, (4, 4), (8, 2), 3, True, full=True, dfull=False, transfer="SRGB", dtransfer="Linear", prim="BT709", dprim="BT2020")
            for s, d in small:
                for op in (3, 5):
                    add(f, s, d, op, True)
                    out[-1]["odd"] = True
        for s in M.FMT:
            for d in M.FMT:
                if s != d:
                    c = pair(s, d, 4, 4, True, strides="sym2", op=3, rc=40)
                    c["kind"] = "resize"
                    out.append(c)
        out.sort(key=lambda c: -max(c["src"].w * c["src"].h, c["dst"].w * c["dst"].h))
        return out

    def run(self, job, res):
        simd = job["simd"]
        first = True
        for p in dr.explore(res, conv_call(job), simd, "resize"):
            if not check_end(res, job, p, job.get("rc", 0)):
                continue
            if job.get("rc"):
                slots = {o.slot for o in p.ctx["D"].objs}
                if any(len(w) == 6 and w[0] in slots for w in p.run.writes):
                    dr.confirm(res, job, p, dict(kind="rc", rc=job["rc"], untouched=True), f"{name_of(job)}: destination written", path_env(p))
                continue
            if job.get("odd"):
                self.odd_writes(job, p, res)
                continue
            if not check_writes(res, job, p):
                continue
            if self.samples(job, p, res) and first:
                first = False
                self.validate(job, p, res)

    def odd_writes(self, job, p, res):
        """odd sizes: only writes inside the rows of the planes' image part"""
        D = p.ctx["D"]
        dst = job["dst"]
        geo = M.plane_geometry(dst.fmt, dst.w, dst.h)
        slots = {o.slot: i for i, o in enumerate(D.objs)}
        km = {}
        for pl, (row, rows) in enumerate(geo):
            for r in range(rows):
                k, c = D.rowkey(pl, r)
                km.setdefault((pl, k), []).append((c, c + row))
        for w in p.run.writes:
            if len(w) == 6 and w[0] in slots:
                pl = slots[w[0]]
                if not any(lo <= w[2] and w[2] + w[3] <= hi for lo, hi in km.get((pl, w[1]), ())):
                    confirm_resize(res, job, p, f"{name_of(job)}: write outside the rows of plane {pl}", path_env(p))
                    res.undecided(f"{name_of(job)}: write at {w[1]} {w[2]} of plane {pl} outside the rows")
                    return

    def samples(self, job, p, res):
        src, dst, op = job["src"], job["dst"], job["op"]
        S, D = p.ctx["S"], p.ctx["D"]
        same = src.size == dst.size
        top = spec.mx(dst.fmt)
        for comp, x, y, loc in spec.dst_samples(dst):
            t = D.sample(loc)
            res.n["samples"] += 1
            vs = numeric.variables(t) if isinstance(t, Term) else {}
            name = f"{name_of(job)}: {comp}({x},{y})"
            if op in (3, 4) or same:
                ok = {S.varname(l) for l in source_locs(src, dst, comp, x, y)}
                if not (isinstance(t, Term) and t.op == "var" and t.args[0] in ok):
                    if isinstance(t, Term) and len(vs) == 1 and next(iter(vs)) in ok and self.same_value(t, next(iter(vs.values()))):
                        continue
                    confirm_resize(res, job, p, f"{name} is {T.show(t) if isinstance(t, Term) else t}, not one of {sorted(ok)}", path_env(p))
                    return False
                res.n["by_identity"] += 1
                continue
            ok = {S.varname(l) for l in window(src, dst, comp, x, y, op)}
            bad = [v for v in vs if v not in ok]
            if bad:
                confirm_resize(res, job, p, f"{name} depends on {bad[0]}", path_env(p))
                return False
            if not isinstance(t, Term):
                confirm_resize(res, job, p, f"{name} is the constant {t}", path_env(p))
                return False
            before = len(DECIDED)
            r, env = decide_filter(t, op in CONVEX, top)
            res.n["classes"] += len(DECIDED) - before
            if r is None:
                res.undecided(f"{name}: solver gave no answer")
            elif r is False:
                confirm_resize(res, job, p, f"{name}: outside the range of the samples around it, or above {top}", {**path_env(p), **(env or {})})
                return False
        if not res.samples:
            res.samples.append(f"{name_of(job)} {ALG[op]}: every sample decided")
        return True

    def same_value(self, t, v):
        e = smt.Enc()
        e.s.add(e.i(t) != e.i(v))
        return smt.checked(e.s) == z3.unsat

    def validate(self, job, p, res):
        validate(res, job, p)
        # and the oracle itself on the same library
        q = dr.instance(job, path_env(p), dr.rng("oracle", name_of(job)))
        m = resize_message(q, dr.run_native(res, q, p.simd, p.kind), {})
        if m:
            dr.report(res, f"{m} [{name_of(job)}: validation run]", dict(kind="resize", lib=p.kind, simd=p.simd, query=q))
