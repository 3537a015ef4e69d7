"""P14, P15, P16, P17: transfer curves, primaries, colour management, ICtCp."""
import math
import struct
import numpy as np
import z3
from fractions import Fraction as Q
from .. import driver as dr, model as M, terms as T, spec, numeric, evalc, smt, uni, curves, stages as St, judge as J
from ..terms import Term
from .common import *

CURVES = M.TRANSFER[1:]
BYTE_ORDER = {"RGB": "RGB", "BGR": "BGR", "RGBA": "RGB", "BGRA": "RGB"}


# ---------------------------------------------------------------- native oracle for colour conversions
_chains = {}


def native_chain(src, dst, comp, x, y):
    k = (src.fmt, src.size, src.org, src.color, dst.fmt, dst.color, comp, x, y)
    c = _chains.get(k)
    if c is None:
        c = _chains[k] = St.Chain(src, dst, comp, x, y, lambda l: "S%d.%d.%d.%d" % l)
    return c


def color_message(q, out):
    """does the concrete run violate the reference?"""
    if "crash" in out:
        return f"native run ended with signal {out['crash']}"
    if out["rc"]:
        return None
    src, dst = dr.image_of(q["src"]), dr.image_of(q["dst"])
    sp = dr.sub_planes(src, q["src"]["planes"], q["src"]["strides"])
    dp = dr.sub_planes(dst, out["dst"], q["dst"]["strides"])
    hi = spec.mx(dst.fmt)
    for comp, x, y, loc in spec.dst_samples(dst):
        if comp == "A":
            continue
        ch = native_chain(src, dst, comp, x, y)
        env = {n: dr.get_sample(sp, tuple(int(v) for v in n[1:].split("."))) for n in ch.samples}
        a, b, ok = ch.bounds(env)
        if not np.all(ok):
            continue
        got = dr.get_sample(dp, loc)
        if got < min(max(float(a), 0), hi) - 1e-6 or got > min(max(float(b), 0), hi) + 1e-6:
            c1, c2 = src.color, dst.color
            return f"sample {comp} at ({x},{y}) of {src.fmt} {'/'.join(map(str, c1[1:4]))} -> {dst.fmt} {'/'.join(map(str, c2[1:4]))} is {got}, expected {float(a):.2f} .. {float(b):.2f}"
    return None


def paint(case, q, rnd, style):
    """pixel contents for a native run: greys, low saturation, anything"""
    src = case["src"]
    planes = [bytearray.fromhex(h) for h in q["src"]["planes"]]
    img = dr.image_of(q["src"])
    st = q["src"]["strides"]
    m = spec.mx(src.fmt)
    w, h = src.size
    off = 0

    def put(loc, v):
        p, r, b, n = loc
        v = max(0, min(m, int(v)))
        planes[p][r * st[p] + b : r * st[p] + b + n] = v.to_bytes(n, "little")

    start = rnd.randrange(m + 1)
    for y in range(h):
        for x in range(w):
            base = (start + (y * w + x) * max(1, m // 255)) % (m + 1) if style == 0 else rnd.randint(0, m)
            for c, loc in img.loc(x, y).items():
                if c == "A":
                    continue
                s = {0: 0, 1: m // 12, 2: m}[style]
                if c in "UV":
                    put(loc, (m + 1) // 2 + rnd.randint(-s // 2, s // 2))
                elif style == 2:
                    put(loc, rnd.choice([0, m, rnd.randint(0, m)]))
                else:
                    put(loc, base + (rnd.randint(-s, s) if src.fmt in M.RGBS else 0))
    q["src"] = dict(q["src"], planes=[bytes(p).hex() for p in planes])
    return q


def search_color(res, case, simd, kind, env, msg, tries=12):
    """a concrete image on which the real code leaves the reference"""
    for i in range(tries):
        rnd = dr.rng("color", name_of(case), i)
        try:
            q = dr.instance(case, env, rnd)
        except dr.TooBig:
            break
        q = paint(case, q, rnd, i % 3)
        m = color_message(q, dr.run_native(res, q, simd, kind))
        if m:
            dr.report(res, f"{m} [{msg}]", dict(kind="color", lib=kind, simd=simd, query=q))
            return True
    return False


# ---------------------------------------------------------------- symbolic decision of one destination sample
class Bad(Exception):
    pass


_cones = {}


def cone_verdict(out, inn, curve, d, tol=None, nan=False):
    """memoised curve proof of the cone out(inn)"""
    c = St.cutvar("@cut")
    t = St.subst(out, {inn: c}) if out is not inn else c
    key = (t, curve, d, tol, nan)
    r = _cones.get(key)
    if r is None:
        with dr.Shared(f"{evalc.digest(t)}|{curve}|{d}|{tol}|{nan}") as sh:
            r = sh.get()
            if r is None:
                r = cone_fresh(t, c, curve, d, tol, nan)
                sh.put(r)
                r.fresh = True
        _cones[key] = r
    return r


def cone_fresh(t, c, curve, d, tol, nan):
    try:
        return J.prove_not_nan(t, c) if nan else J.prove_curve(t, c, curve, d, tol=tol)
    except uni.Unsupported as e:
        r = uni.Result()
        r.ok, r.fail, r.why = None, [], f"not encodable: {e}"
        return r


_affine = {}


def affine_verdict(t, aff, tol, ranges):
    """memoised St.decide_affine: stages that are equal up to the names of their variables are decided once"""
    order = []
    k = evalc.digest(t, order) if isinstance(t, Term) else repr(t)
    order += sorted(n for n in aff.co if n not in order)
    key = f"affine {k} {[(n[0] == '@', aff.co.get(n), ranges.get(n)) for n in order]} {aff.c} {tol}"
    r = _affine.get(key)
    if r is None:
        with dr.Shared(key) as sh:
            r = sh.get()
            if r is None:
                r = St.decide_affine(t, aff, tol, ranges)
                if r[0] is not None:
                    sh.put(r)
        _affine[key] = r
    return r


CUTRANGE = (-0.5, 1.5)


def cut_range(l):
    t = curves.top(l.curve) if l.d == 1 else 1.0
    return (CUTRANGE[0] * t, CUTRANGE[1] * t)


def sample_env(chain, src, rng, n, dark=False):
    """sample inputs inside every curve's domain"""
    m = spec.mx(src.fmt)
    lo, hi, div = (0.02, 0.14, 4) if dark else (0.14, 0.86, 1)
    env = {}
    for v in chain.samples:
        comp_uv = src.fmt in M.YUV and chain.names[v] in "UV"
        if comp_uv:
            env[v] = (m + 1) // 2 + rng.integers(-m // 14 // div, m // 14 // div + 1, n)
        else:
            env[v] = None
    g = rng.integers(int(lo * m), int(hi * m), n)
    for v in env:
        if env[v] is None:
            j = max(2, (m // 13 if src.fmt in M.RGBS else m // 40) // div)
            env[v] = np.clip(g + rng.integers(-j, j + 1, n), 0, m)
    return env


def match(l, io, ref):
    top = l.top if io == "in" else (curves.top(l.curve) if l.d == 1 else 1.0)
    return 2e-3 * np.abs(ref) + (1e-8 if top > 1 else 4e-5) * top


_verdicts = {}


def decide_sample(t, chain, src, res, curve_tol=None):
    """-> (True|None, why)"""
    if not isinstance(t, Term):
        return None, "constant output"
    cid, order = numeric.canon(t)
    idx = {n: i for i, n in enumerate(order)}
    key = (cid, chain.signature(idx))
    r = _verdicts.get(key)
    if r is not None:
        return r
    r = _verdicts[key] = decide_fresh(t, chain, src, res, curve_tol)
    res.n["classes"] += 1
    return r


def decide_fresh(t, chain, src, res, curve_tol):
    m = spec.mx(src.fmt)
    vs = numeric.variables(t)
    if any(n not in chain.names for n in vs):
        return None, "depends on something else than samples"
    chain.samples = sorted(set(chain.samples) | set(vs))
    ranges = {n: (0, m) for n in chain.samples}
    hi = spec.mx(chain.dst.fmt)
    cur = {}
    if chain.layers:
        n = 24
        for attempt in range(4):
            rng = np.random.default_rng(17 + attempt)
            for i in range(40):
                env = sample_env(chain, src, rng, 4 * n, dark=i % 2 == 1)
                ok = np.broadcast_to(np.asarray(chain.run(env)[3]), (4 * n,))
                if ok.sum() >= n:
                    break
            else:
                return None, "no sample inputs inside the domain"
            env = {k: v[ok][:n] for k, v in env.items()}
            try:
                pairs, _ = St.locate(t, chain, env, n, match, attempt > 1)
                break
            except St.NotFound as e:
                why = str(e)
        else:
            return None, why
        for l, row in zip(chain.layers, pairs):
            done = {}
            for pr, aff, name in zip(row, l.ins, l.outs):
                if pr is None:
                    continue
                inn, out = pr
                r = cone_verdict(out, inn, l.curve, l.d, curve_tol or St.CTOL(l.curve, l.d))
                if getattr(r, "fresh", False):
                    res.n["boxes"] += r.boxes
                    r.fresh = False
                if r.ok:
                    ta = St.subst(inn, cur) if cur else inn
                    ok, why = affine_verdict(ta, aff, l.tol, ranges)
                    res.n["stages"] += 1
                    why = f"{l.tag}: affine stage of {name}: {why}"
                else:
                    ok = None
                    why = f"{l.tag}: curve {l.curve} {'encode' if l.d == 0 else 'decode'} not proved near {[float('%.6g' % b[0]) for b in r.fail[:3]]} {getattr(r, 'why', '')}"
                if ok:
                    done[out] = name
                elif name not in l.opt:
                    return None, why
            for name in l.outs:
                ranges[name] = cut_range(l)
            for out, name in done.items():
                cur[out] = St.cutvar(name)
        t = St.subst(t, cur)
    ok, why = St.decide_code(t, chain.code, hi, chain.codetol(), ranges)
    res.n["stages"] += 1
    return (True, "") if ok else (None, f"final code: {why}")


class ColorCheck(dr.Check):
    kinds = ("core", "avx512")
    job_limit = 600

    def describe(self, job):
        s, d = job["src"], job["dst"]
        return f"{name_of(job)} {job.get('kind', 'core')} {s.color} {d.color}"

    def run(self, job, res):
        kind = job.get("kind", "core")
        for p in dr.explore(res, conv_call(job), job["simd"], kind):
            if not check_end(res, job, p, 0):
                continue
            if not check_deps(res, job, p):
                continue
            self.inspect(job, p, res, kind)

    def inspect(self, job, p, res, kind):
        S, D = p.ctx["S"], p.ctx["D"]
        src, dst = job["src"], job["dst"]
        bad = 0
        for comp, x, y, loc in spec.dst_samples(dst):
            if comp == "A":
                continue
            res.n["samples"] += 1
            ch = St.Chain(src, dst, comp, x, y, S.varname)
            ok, why = decide_sample(D.sample(loc), ch, src, res)
            if ok:
                continue
            msg = f"{self.describe(job)}: {comp}({x},{y}): {why}"
            if bad == 0 and search_color(res, job, job["simd"], kind, path_env(p), msg):
                return
            bad += 1
            if bad <= 2:
                res.undecided(msg[:380])
        res.n["undecided_samples"] += bad
        if not bad:
            # validation of the reference and the encoding against the real code
            rnd = dr.rng("colorval", self.describe(job))
            try:
                q = paint(job, dr.instance(job, path_env(p), rnd), rnd, 1)
            except dr.TooBig:
                return
            m = color_message(q, dr.run_native(res, q, job["simd"], kind))
            if m:
                res.n["model_mismatch"] += 1
                res.undecided(f"proved, but the native run disagrees: {m}"[:380])
        if len(res.samples) < 1:
            res.samples.append(f"{self.describe(job)}: all samples decided stage by stage")


# ---------------------------------------------------------------- P14
def f32bits(x):
    return struct.unpack("<I", struct.pack("<f", x))[0]


def f32val(b):
    return struct.unpack("<f", struct.pack("<I", b))[0]


FN = ("vp_linear_to_scaled", "vp_scaled_to_linear")


def native_curve(curve, d, x):
    q = dict(fn=FN[d], args=[["u32", M.TRANSFER.index(curve)], ["f32", f32bits(x)]], ret="f32")
    return q, dr.nat(False, "core").call(q)


def curve_message(rep, outs):
    """outs: native results of rep['queries']"""
    for o in outs:
        if "crash" in o:
            return f"native call ended with signal {o['crash']}"
    x = f32val(rep["queries"][0]["args"][1][1])
    y = f32val(outs[-1]["rc"])
    c, d = rep["curve"], rep["d"]
    what = f"{FN[d][3:]}({c}, {x!r})"
    if math.isnan(y):
        return f"{what} is NaN" if math.isfinite(x) else None
    if rep["what"] == "nan":
        return None
    if rep["what"] == "roundtrip":
        if abs(y - x) > rep["tol"][0] + rep["tol"][1] * abs(x):
            return f"round trip through {c}, direction {d}: {x!r} becomes {y!r}"
        return None
    top = curves.top(c) if d == 0 else 1.0
    if not 0 <= x <= top:
        return None
    ref = float(curves.value(c, d, x))
    ab, rel = rep["tol"]
    z = curves.ZONE.get((c, d))
    if z and z[0] <= x <= z[1]:
        ab = z[2]
    if abs(y - ref) > ab + rel * abs(ref) + 1e-9:
        return f"{what} = {y!r}, the standard's curve gives {ref:.8g}"
    return None


def candidates(box):
    l, h = box
    xs = {l, h, (l + h) / 2}
    out = []
    for v in xs:
        v = np.float32(min(max(v, -3.4e38), 3.4e38))
        for u in (v, np.nextafter(v, np.float32(np.inf)), np.nextafter(v, np.float32(-np.inf))):
            out.append(float(u))
    return out


ROUNDTRIP = {("PQ", 0): (1e-4, 1.5e-3), ("PQ", 1): (1e-4, 6e-3)}


class P14(dr.Check):
    id = "P14"
    kinds = ("core", "avx512")
    job_limit = 500
    what = "the computed function of one variable (scalar API, and the AVX2 and AVX-512 code of every lane of a conversion) against the standard's formula, by branch and prune with affine forms; each box's claim is an SMT query"
    bounds = "all real arguments of the curve's domain ([0,1] light or signal, [0,10000] cd/m2 for PQ) in one piece; not-NaN for all finite arguments of either sign; tolerances 4e-6 absolute plus 4e-6 relative (PQ encode 6e-5, PQ decode 1e-4 + 6e-4 relative; joint of the BT.709 segments 4e-4); vector code: every R, G, B sample of 34x2 images"
    assumptions = ["libm's powf, logf, sqrtf (scalar code) are within 2 ulp of the exact function", "below the first failing box's width (2^-22 relative) the prover gives up and reports undecided unless the native run shows the deviation"]

    def describe(self, job):
        return str({k: v for k, v in job.items() if k != "case"})

    def jobs(self):
        out = []
        for c in ["PQ"] + [c for c in CURVES if c != "PQ"]:
            for d in (0, 1):
                for lib in ("core", "avx512"):
                    s, t = ("Linear", c) if d == 0 else (c, "Linear")
                    case = pair("RGB", "RGB", 34, 2, True, transfer=s, dtransfer=t, kind=lib)
                    out.append(dict(mode="vector", curve=c, d=d, kind=lib, case=case))
                case = pair("RGB", "RGB", 2, 2, False, transfer=s, dtransfer=t)
                out.append(dict(mode="pixels", curve=c, d=d, case=case))
                out.append(dict(mode="scalar", curve=c, d=d))
                out.append(dict(mode="roundtrip", curve=c, d=d))
        for d in (0, 1):
            out.append(dict(mode="scalar", curve="Linear", d=d))
        return out

    def run(self, job, res):
        if job["mode"] in ("vector", "pixels"):
            return self.vector(job, res)
        c, d = job["curve"], job["d"]

        def call(r, ctx):
            x = St.cutvar("@x")
            ctx["x"] = x
            y = r.call("@" + FN[d], [M.TRANSFER.index(c), x])
            if job["mode"] == "roundtrip":
                y = r.call("@" + FN[1 - d], [M.TRANSFER.index(c), y])
            return y

        for p in dr.explore(res, call, False, "core"):
            if p.end is not None:
                res.undecided(f"{self.describe(job)}: {p.end.kind} {p.end.msg}")
                continue
            y, x = p.value, p.ctx["x"]
            if not isinstance(y, Term) or y.w != 0:
                res.undecided(f"{self.describe(job)}: unexpected result {y}")
                continue
            if p.run.pc:
                # the path is only taken for some arguments: join is not done here
                res.undecided(f"{self.describe(job)}: branches on the argument")
                continue
            if job["mode"] == "roundtrip":
                tol = ROUNDTRIP.get((c, d), (2e-5, 1e-5))
                r = self.identity(y, x, c, d, tol)
                self.verdict(job, res, r, "roundtrip", tol)
                continue
            tol = (0.0, 0.0) if c == "Linear" else J.TOL[c, d]
            r = J.prove_curve(y, x, c, d, tol=tol) if c != "Linear" else self.identity(y, x, c, d, tol)
            self.verdict(job, res, r, "curve", tol)
            if not res.viol:
                self.verdict(job, res, J.prove_not_nan(y, x), "nan", (0, 0))

    def identity(self, y, x, c, d, tol):
        if y is x:
            return uni.Result()
        P = uni.Prog(y, [x])
        jd = J.Judge()
        top = curves.top(c) if d == 0 else 1.0
        z = curves.ZONE.get((c, d))

        def evalf(v, refine, coarse):
            return uni.evaluate(P, v, refine, coarse)[y], v

        def judge(out, r, box):
            ab = tol[0]
            if z and box[1] >= z[0] - 1e-3 and box[0] <= z[1] + 1e-3:
                ab = 1e-3
            return jd.close(out[0], out[1], ab, tol[1])

        return uni.prove(evalf, 0.0, top, judge, coarse_first=True)

    def verdict(self, job, res, r, what, tol):
        c, d = job["curve"], job["d"]
        res.n["boxes"] += r.boxes
        res.n["classes"] += 1
        if r.ok:
            if not res.samples:
                res.samples.append(f"{FN[d]}({c}) {what}: proved on {r.boxes} boxes")
            return
        for box in r.fail:
            for x in candidates(box):
                q, o = native_curve(c, d, x)
                qs, os_ = [q], [o]
                res.n["native_runs"] += 1
                if what == "roundtrip" and "crash" not in o:
                    q2, o2 = native_curve(c, 1 - d, f32val(o["rc"]))
                    qs.append(q2)
                    os_.append(o2)
                rep = dict(what=what, curve=c, d=d, queries=qs, tol=list(tol))
                m = curve_message(rep, os_)
                if m:
                    dr.report(res, m, dict(kind="curve", lib="core", simd=False, rep=rep))
                    return
        res.undecided(f"{FN[d]}({c}) {what}: not proved near {r.fail[:3]}")

    def vector(self, job, res):
        case, c, d = job["case"], job["curve"], job["d"]
        kind, simd = job.get("kind", "core"), case["simd"]
        src, dst = case["src"], case["dst"]
        for p in dr.explore(res, conv_call(case), simd, kind):
            if not check_end(res, case, p, 0) or not check_deps(res, case, p):
                continue
            S, D = p.ctx["S"], p.ctx["D"]
            bad = None
            for comp, x, y, loc in spec.dst_samples(dst):
                res.n["samples"] += 1
                t = D.sample(loc)
                ch = St.Chain(src, dst, comp, x, y, S.varname)
                cid, order = numeric.canon(t)
                key = (cid, ch.signature({n: i for i, n in enumerate(order)}), "P14")
                if key in _verdicts:
                    continue
                _verdicts[key] = True
                res.n["classes"] += 1
                rng = np.random.default_rng(5)
                try:
                    pairs, _ = St.locate(t, ch, sample_env(ch, src, rng, 24), 24, match)
                except St.NotFound as e:
                    bad = f"{comp}({x},{y}): {e}"
                    break
                for l, row in zip(ch.layers, pairs):
                    for inn, out in filter(None, row):
                        r = cone_verdict(out, inn, l.curve, l.d, J.TOL[l.curve, l.d])
                        r2 = cone_verdict(out, inn, l.curve, l.d, nan=True) if r.ok else r
                        for q in (r, r2):
                            if getattr(q, "fresh", False):
                                res.n["boxes"] += q.boxes
                                q.fresh = False
                        if not r.ok or not r2.ok:
                            bad = f"{comp}({x},{y}): {'curve' if not r.ok else 'NaN freedom'} not proved near {(r2 if r.ok else r).fail[:3]} {getattr(r, 'why', '')}"
                            break
                if bad:
                    break
            if not bad:
                if not res.samples:
                    res.samples.append(f"{kind} {'vector' if simd else 'scalar'} {c} {'encode' if d == 0 else 'decode'}: every lane proved")
                continue
            msg = f"{self.describe(job)}: {bad}"
            fine = [case]
            kw = dict(transfer=src.color[1], dtransfer=dst.color[1], kind=kind)
            fine.append(pair("I412", "I412", 66, 4, simd, dspace="BT601", **kw))
            fine.append(pair("I444", "I412", 66, 4, simd, **kw))
            fine.append(pair("I420", "I412", 66, 4, simd, **kw))
            if not any(search_color(res, k, simd, kind, path_env(p) if k is case else {}, msg, tries=30) for k in fine):
                res.undecided(msg[:380])


# ---------------------------------------------------------------- P15
def matrix_query(prim, inv):
    return dict(fn="vp_matrix", args=[["u32", M.PRIM.index(prim)], ["u32", inv], ["buf", "00" * 36]])


def matrix_message(rep, out):
    if "crash" in out:
        return f"native call ended with signal {out['crash']}"
    m = [struct.unpack_from("<3f", bytes.fromhex(out["bufs"][0]), 12 * i) for i in range(3)]
    v = rep["rgb"]
    ref = St.xyz_to_rgb(rep["prim"]) if rep["inv"] else St.rgb_to_xyz(rep["prim"])
    for j in range(3):
        got = sum(Q(m[i][j]) * Q(v[i]) for i in range(3))
        want = sum(ref[j][i] * Q(v[i]) for i in range(3))
        if abs(got - want) > Q(rep["tol"]):
            return f"{'XYZ to RGB' if rep['inv'] else 'RGB to XYZ'} matrix of {rep['prim']} maps {[float(Q(x)) for x in v]} to {float(got):.7f} in component {j}, the standard's chromaticities give {float(want):.7f}"
    return None


class P15(ColorCheck):
    id = "P15"
    what = "the matrices the API returns against the exact rational matrices of the chromaticities, their products against the identity, and conversions between images with linear transfer and different primaries against the exact affine map, all in linear real arithmetic"
    bounds = "all primaries, all colours of [0,1]^3 (matrices, within 2e-6) and all sample values (conversions, within 65/64 of a code); conversions: all pairs of primaries, RGB/RGBA/I444/I412/I420 to RGB/I412, vector (AVX2, AVX-512) and scalar code, every sample of 34x2 images"
    assumptions = ["chromaticities: SMPTE 240M, BT.709, BT.2020 with D65 (0.3127, 0.3290)"]

    def jobs(self):
        out = [dict(matrix=p) for p in M.PRIM]
        for sf, df in (("RGB", "RGB"), ("RGBA", "I412"), ("I412", "RGB"), ("I444", "I412"), ("I420", "BGRA"), ("BGR", "NV12"), ("I210", "I010"), ("YUYV", "I412")):
            for simd in (True, False):
                for a in M.PRIM:
                    for b in M.PRIM:
                        if a != b:
                            out.append(pair(sf, df, 34, 2, simd, transfer="Linear", dtransfer="Linear", prim=a, dprim=b, full=(M.FID[sf] + M.FID[df]) % 2 == 0))
        out += [dict(j, kind="avx512") for j in out if "src" in j and j["simd"]]
        return out

    def describe(self, job):
        return f"matrices of {job['matrix']}" if "matrix" in job else super().describe(job)

    def run(self, job, res):
        if "matrix" not in job:
            return super().run(job, res)
        prim = job["matrix"]
        mats = []
        for inv in (0, 1):

            def call(r, ctx):
                o = r.new_obj(36, "out", "matrix", 4)
                o.data = [0] * 36
                r.call("@vp_matrix", [M.PRIM.index(prim), inv, o.base])
                ctx["o"] = o
                return 0

            for p in dr.explore(res, call, False, "core"):
                if p.end is not None:
                    res.undecided(f"{self.describe(job)}: {p.end.kind} {p.end.msg}")
                    return
                vals = []
                for k in range(9):
                    b = p.ctx["o"].data[4 * k : 4 * k + 4]
                    v = T.frombytes(list(b), 32)
                    if isinstance(v, Term):
                        v = f32bits(T.f32(v.args[0].args[0])) if v.op == "fbits" and v.args[0].op == "fc" else None
                    if v is None:
                        res.undecided(f"{self.describe(job)}: matrix entry is not a constant")
                        return
                    vals.append(Q(f32val(v)))
                mats.append([[vals[3 * i + j] for i in range(3)] for j in range(3)])
        s = z3.Solver()
        v = [z3.Real(n) for n in "rgb"]
        for x in v:
            s.add(x >= 0, x <= 1)

        def rows(m):
            return [sum(z3.RealVal(str(m[j][i])) * v[i] for i in range(3)) for j in range(3)]

        def far(a, b, tol):
            t = z3.RealVal(str(tol))
            return z3.Or(*[z3.Or(x - y > t, y - x > t) for x, y in zip(a, b)])

        TOLM = Q(2, 10**6)
        for inv in (0, 1):
            ref = St.xyz_to_rgb(prim) if inv else St.rgb_to_xyz(prim)
            self.ask(job, res, s, v, far(rows(mats[inv]), rows(ref), TOLM), dict(prim=prim, inv=inv, tol=str(TOLM)))
        for a, b, inv in ((1, 0, 1), (0, 1, 0)):
            self.ask(job, res, s, v, far(rows(St.mmul(mats[a], mats[b])), v, 2 * TOLM), dict(prim=prim, inv=inv, tol=str(TOLM)))

    def ask(self, job, res, s, v, cond, rep):
        s.push()
        s.add(cond)
        r = smt.checked(s)
        res.n["classes"] += 1
        if r == z3.sat:
            m = s.model()
            rgb = [str(m.eval(x, model_completion=True).as_fraction()) for x in v]
            q = matrix_query(rep["prim"], rep["inv"])
            rep = dict(rep, rgb=rgb, query=q)
            res.n["native_runs"] += 1
            msg = matrix_message(rep, dr.nat(False, "core").call(q))
            if msg:
                dr.report(res, msg, dict(kind="matrix", lib="core", simd=False, rep=rep))
            else:
                res.undecided(f"{self.describe(job)}: counterexample {rgb} not reproduced")
        elif r != z3.unsat:
            res.undecided(f"{self.describe(job)}: no answer")
        s.pop()


# ---------------------------------------------------------------- P16
def spread(seq, k, seed):
    r = dr.random.Random(seed)
    seq = list(seq)
    r.shuffle(seq)
    return seq[:k]


class P16(ColorCheck):
    id = "P16"
    what = "every destination sample of conversions between different transfer functions and/or primaries, stage by stage: decode, gamut matrix and encode located in the symbolic output, affine stages in linear real arithmetic, curves by branch and prune, final code within one step"
    bounds = "all pairs of transfer functions (RGB to RGB and I444 to I444; primaries pairs rotating) and format pairs with rotating colours; vector (AVX2, AVX-512) and scalar code; all sample values whose light stays inside the curves' domains; sizes 34x2 and 18x2"
    assumptions = ["outside the domain of a curve (out-of-gamut light) nothing is claimed but the absence of NaN (P14)", "curve tolerance 2e-5 (PQ: 1e-4 encode, 2e-4 + 1e-3 relative decode), gamut stage 4e-6 relative, final code 65/64"]

    def jobs(self):
        out = []
        pp = [(a, b) for a in M.PRIM for b in M.PRIM]
        i = 0
        cheap = [c for c in M.TRANSFER if c != "PQ"]
        for a in M.TRANSFER:
            for b in M.TRANSFER:
                for simd in (True, False):
                    i += 1
                    pa, pb = pp[(i * 4 + M.TRANSFER.index(a)) % 9]
                    if a == b and pa == pb:
                        pb = M.PRIM[(M.PRIM.index(pa) + 1) % 3]
                    if not self.thorough and "PQ" in (a, b) and (a, b) not in (("PQ", "SRGB"), ("SDR", "PQ"), ("PQ", "PQ")):
                        continue
                    out.append(pair("RGB", "RGB", 18 if not simd else 34, 2, simd, transfer=a, dtransfer=b, prim=pa, dprim=pb))
                    if self.thorough:
                        out.append(pair("I444", "I412", 34, 2, simd, transfer=a, dtransfer=b, prim=pa, dprim=pb, full=i % 2 == 0))
        fp = list(all_pairs_())
        use = fp if self.thorough else spread(fp, 48, 5)
        for j, (s, d) in enumerate(use):
            for simd in (True, False):
                a, b = cheap[(j * 5 + 1) % 6], cheap[(j * 3 + 2) % 6]
                pa, pb = pp[(j * 2 + 1) % 9]
                if a == b and pa == pb:
                    b = cheap[(j * 3 + 3) % 6]
                out.append(pair(s, d, 34 if simd else 6, 4 if self.thorough else 2, simd, transfer=a, dtransfer=b, prim=pa, dprim=pb, space=M.SPACE[j % 3], dspace=M.SPACE[(j + 1) % 3], full=j % 2 == 0, dfull=j % 3 == 0))
        # equal colours: nothing may happen
        for j, (s, d) in enumerate([("RGB", "BGRA"), ("I420", "I444"), ("RGB", "I444"), ("NV12", "RGBA"), ("I012", "YUYV")]):
            for simd in (True, False):
                out.append(pair(s, d, 34, 2, simd, transfer=M.TRANSFER[j + 1], dtransfer=M.TRANSFER[j + 1], prim="BT2020", dprim="BT2020"))
        x = [dict(j, kind="avx512") for k, j in enumerate(out) if j["simd"] and (self.thorough or k % 3 == 0)]
        out += x
        out.sort(key=lambda j: -("PQ" in (j["src"].color[1], j["dst"].color[1])))
        return out


def all_pairs_():
    return [(s, d) for s in M.FMT for d in M.FMT if s != d]


# ---------------------------------------------------------------- P17
class P17(ColorCheck):
    id = "P17"
    what = "every destination sample of conversions to, from and between ICtCp images against BT.2100's matrices and curves, stage by stage as in P16; block averages of the chroma exact"
    bounds = "both ICtCp spaces, destinations and sources of all subsamplings and depths, transfer functions and primaries rotating; vector (AVX2, AVX-512) and scalar code; all sample values whose light stays inside the curves' domains; sizes 34x2 (4:2:0: 18x4)"
    assumptions = ["RGB to LMS within 4e-4 and LMS to RGB within 2e-3 relative (the crate uses the published four-digit XYZ to LMS matrix)", "PQ light is counted in cd/m2 (0..10000), every other curve's in 0..1, as the crate does"]

    def jobs(self):
        out = []
        t = {"ICtCpPQ": ["PQ", "Linear"], "ICtCpHLG": ["HLG", "SRGB", "Linear", "SDR", "Gamma22", "Gamma28"]}
        yuv = M.YUV
        j = 0
        for sp in ("ICtCpPQ", "ICtCpHLG"):
            for f in yuv:
                if not self.thorough and sp == "ICtCpPQ" and f not in ("I420", "I444", "NV12", "I210", "I012"):
                    continue
                for simd in (True, False):
                    for way in (0, 1):
                        j += 1
                        tr = t[sp][j % len(t[sp])]
                        pr = M.PRIM[j % 3]
                        rgb = M.RGBS[j % 4]
                        h = 4 if M.SUB[f][1] == 2 else 2
                        w = 34 if simd else 6
                        kw = dict(transfer=tr, dtransfer=tr, prim=pr, dprim=pr, full=j % 3 != 0)
                        out.append(pair(rgb, f, w, h, simd, dspace=sp, **kw) if way == 0 else pair(f, rgb, w, h, simd, space=sp, **kw))
        # between ICtCp and YUV, and with other colours on top
        for k, (s, d, a, b) in enumerate([("I444", "I420", "ICtCpHLG", "BT709"), ("I420", "I444", "BT2020", "ICtCpHLG"), ("I422", "I412", "ICtCpHLG", "ICtCpHLG"), ("NV12", "YUYV", "BT601", "ICtCpHLG")]):
            for simd in (True, False):
                out.append(pair(s, d, 34 if simd else 6, 2, simd, space=a, dspace=b, transfer="HLG", dtransfer="HLG", prim="BT2020", dprim="BT2020"))
                out.append(pair(s, d, 34 if simd else 6, 2, simd, space=a, dspace=b, transfer="SRGB", dtransfer="HLG", prim="BT709", dprim="BT2020"))
        x = [dict(j, kind="avx512") for k, j in enumerate(out) if j["simd"] and (self.thorough or k % 2 == 0)]
        out += x
        out.sort(key=lambda j: -("ICtCpPQ" in (j["src"].color[3], j["dst"].color[3])))
        return out
