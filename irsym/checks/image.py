"""P01, P02, P03, P04, P05, P06, P07, P13: conversions of whole images."""
from fractions import Fraction as Q
from .. import driver as dr, model as M, spec, terms as T, numeric
from .common import *


class ConvCheck(dr.Check):
    simds = (True, False)

    def describe(self, job):
        return name_of(job)

    def run(self, job, res):
        first = True
        for p in dr.explore(res, conv_call(job), job["simd"], job.get("kind", "core")):
            if not check_end(res, job, p, job.get("rc", 0)):
                continue
            self.inspect(job, p, res)
            if first and not res.viol:
                validate(res, job, p)
                first = False


def with512(jobs, sizes):
    """the vector jobs of these sizes again for the AVX-512 code"""
    return [dict(j, kind="avx512") for j in jobs if j["simd"] and (j["dst"].w, j["dst"].h) in sizes]


def all_pairs():
    for s in M.FMT:
        for d in M.FMT:
            yield s, d


class P01(ConvCheck):
    id = "P01"
    kinds = ("core", "avx512")
    what = "no path of convert or copy ends in a panic or leaves the planes; bytes written are exactly the samples of the image rectangle"
    bounds = "all 225 format pairs, vector (AVX2; AVX-512 of the 'unstable' feature) and scalar code; symbolic strides (packed row .. 2^24-1) and symbolic plane lengths (required .. 2^32-1) for every plane, symbolic pixel contents; image sizes enumerated: widths 2..66 (quick subset 2,14,16,18,34,50), heights 2,4 (thorough: every even width up to 66, heights up to 8); crop windows: see P10"
    assumptions = ["strides below 2^24 and plane lengths below 2^32"]

    def jobs(self):
        out = []
        if self.thorough:
            sizes = [(w, h) for w in list(range(2, 68, 2)) + [126, 128, 130, 258] for h in ((2, 4, 6, 8) if w <= 34 else (2,))]
        else:
            sizes = [(34, 4), (2, 2), (14, 2), (16, 2), (18, 2), (50, 2), (66, 2)]
        for w, h in sizes:
            for s, d in all_pairs():
                for simd in self.simds:
                    full = (M.FID[s] + M.FID[d]) % 2 == 0
                    out.append(pair(s, d, w, h, simd, full=full))
        for s, d in all_pairs():
            if s == d:
                for simd in self.simds:
                    for w, h in sizes[:4]:
                        out.append(pair(s, d, w, h, simd, full=True, dfull=False))
        for w, h in sizes:
            for f in M.FMT:
                for simd in self.simds:
                    out.append(pair(f, f, w, h, simd, full=True, op=2))
        for w, h in sizes if self.thorough else [(66, 2), (34, 2)]:
            for s, d in all_pairs():
                out.append(dict(pair(s, d, w, h, True, full=(M.FID[s] + M.FID[d]) % 2 == 0), kind="avx512"))
        out.sort(key=lambda c: -c["src"].w * c["src"].h)
        return out

    def inspect(self, job, p, res):
        check_writes(res, job, p)


class P02(ConvCheck):
    id = "P02"
    kinds = ("core", "avx512")
    what = "the symbolic value of every destination sample mentions only source samples the documented layout allows, and is close to the documented equation of those samples"
    bounds = "all 225 format pairs, vector and scalar code, symbolic strides and contents; sizes 34x4 and 18x4 (thorough: many more); position dependence within these sizes"

    def jobs(self):
        sizes = [(34, 4)] if not self.thorough else [(34, 4), (2, 2), (16, 4), (18, 6), (50, 4), (66, 4), (130, 2)]
        out = [pair(s, d, w, h, simd, full=True) for w, h in sizes for s, d in all_pairs() for simd in self.simds]
        out += [pair(s, s, w, h, simd, full=True, dfull=False) for w, h in sizes for s in M.YUV for simd in self.simds]
        return out + with512(out, [(34, 4)])

    def inspect(self, job, p, res):
        if check_deps(res, job, p):
            check_values(res, job, p, tol=Q(max(2, spec.mx(job["dst"].fmt) // 64)) if rule_for(job["src"], job["dst"]) == "within" else TOL)


class P03(ConvCheck):
    id = "P03"
    kinds = ("core", "avx512")
    what = "every destination sample equals the source sample for convert between equal formats and colours, and for copy"
    bounds = "all 15 formats, vector and scalar code, convert and copy, symbolic strides and all in-range sample values; widths 2..66 (quick: 2,16,18,34,66), heights 2,4"

    def jobs(self):
        ws = [2, 16, 18, 34, 66] if not self.thorough else list(range(2, 68, 2)) + [130]
        out = []
        for w in ws:
            for h in (2, 4):
                for f in M.FMT:
                    for simd in self.simds:
                        for op in (0, 2):
                            out.append(pair(f, f, w, h, simd, op=op))
        return out + with512(out, [(34, 2), (66, 4)])

    def inspect(self, job, p, res):
        check_values(res, job, p, rule="equal")


class P04(ConvCheck):
    id = "P04"
    kinds = ("core", "avx512")
    what = "colour values and alpha of conversions among RGB, BGR, RGBA, BGRA; alpha of YUV to RGBA/BGRA; all against the exact permutation"
    bounds = "all 16 pairs of the RGB family and all 22 YUV to RGBA/BGRA pairs (alpha only), vector and scalar code, all sample values, symbolic strides; widths 2,16,18,34,66"

    def jobs(self):
        ws = [2, 16, 18, 34, 66] if not self.thorough else list(range(2, 68, 2)) + [130]
        out = []
        for w in ws:
            for simd in self.simds:
                for s in M.RGBS:
                    for d in M.RGBS:
                        out.append(pair(s, d, w, 2, simd))
                for s in M.YUV:
                    for d in ("RGBA", "BGRA"):
                        out.append(pair(s, d, w, 2, simd))
        for simd in self.simds:
            for s in M.RGBS + M.YUV:
                for d in ("RGBA", "BGRA"):
                    # alpha is left alone by colour management, too
                    out.append(pair(s, d, 18, 2, simd, transfer="SRGB", dtransfer="Linear", prim="BT709", dprim="BT2020"))
        return out + with512(out, [(34, 2)])

    def inspect(self, job, p, res):
        cm = job["src"].color[1:3] != job["dst"].color[1:3]
        alpha = job["src"].fmt in M.YUV or cm
        check_values(res, job, p, rule="equal", only=(lambda c, x, y: c == "A") if alpha else None)


def matrix_jobs(pairs, simds, sizes, thorough):
    out = []
    for s, d in pairs:
        for simd in simds:
            for sp in ("BT601", "BT709", "BT2020"):
                for full in (True, False):
                    for w, h in sizes:
                        out.append(pair(s, d, w, h, simd, space=sp, full=full))
    return out


class P05(ConvCheck):
    id = "P05"
    kinds = ("core", "avx512")
    what = "every YUV sample produced from RGB is within 65/64 of one code value of the BT equations (code value includes the final rounding), for all pixel values"
    bounds = "4 RGB x 11 YUV formats, BT601/BT709/BT2020, full and limited range, vector and scalar code, all 8-bit pixel values, symbolic strides; size 18x4 (thorough: 34x4, 50x2, 66x2 as well)"

    def jobs(self):
        sizes = [(18, 4)] if not self.thorough else [(2, 2), (18, 4), (34, 4), (50, 2), (66, 2)]
        out = matrix_jobs([(s, d) for s in M.RGBS for d in M.YUV], self.simds, sizes, self.thorough)
        return out + (with512(out, sizes[2:]) if self.thorough else [])

    def inspect(self, job, p, res):
        check_values(res, job, p)


class P06(P05):
    id = "P06"
    what = "every RGB sample produced from YUV is within 65/64 of one code value of the inverse BT equations clamped to the representable range, for all sample values"
    bounds = "11 YUV x 4 RGB formats, BT601/BT709/BT2020, full and limited range, vector and scalar code, all in-depth sample values, symbolic strides; size 18x4 (thorough: 34x4, 50x2, 66x2 as well)"

    def jobs(self):
        sizes = [(18, 4)] if not self.thorough else [(2, 2), (18, 4), (34, 4), (50, 2), (66, 2)]
        return matrix_jobs([(s, d) for s in M.YUV for d in M.RGBS], self.simds, sizes, self.thorough)


class P07(ConvCheck):
    id = "P07"
    what = "every YUV sample produced from YUV is within 65/64 of one code value of the composed exact equations"
    bounds = "all 121 YUV pairs, vector and scalar code; equal colour, range changes in both directions and matrix changes among BT601/BT709/BT2020; all in-depth sample values, symbolic strides; size 18x4 (thorough: more sizes and all matrix pairs)"

    def jobs(self):
        sizes = [(18, 4)] if not self.thorough else [(2, 2), (18, 4), (34, 4), (50, 2), (66, 2)]
        combos = [("BT709", True, "BT709", True), ("BT601", False, "BT601", False), ("BT2020", True, "BT2020", False), ("BT709", False, "BT709", True), ("BT601", True, "BT2020", True)]
        if self.thorough:
            sp = ("BT601", "BT709", "BT2020")
            combos = [(a, fa, b, fb) for a in sp for b in sp for fa in (True, False) for fb in (True, False)]
        return [
            pair(s, d, w, h, simd, space=a, full=fa, dspace=b, dfull=fb)
            for w, h in sizes
            for s in M.YUV
            for d in M.YUV
            for simd in self.simds
            for a, fa, b, fb in combos
        ]

    def inspect(self, job, p, res):
        check_values(res, job, p)


class P13(ConvCheck):
    id = "P13"
    what = "no destination sample exceeds 2^bits-1 for any source bytes (also 16-bit words above the depth); conversions between depths follow the full-scale equations to within 65/64 code"
    bounds = "all 225 pairs with unrestricted source words, vector and scalar code, equal and changed range, with and without colour management, BT and ICtCp matrices; full-scale equation for all pairs of different depth; symbolic strides; size 18x4 (thorough: more sizes and colours)"

    def jobs(self):
        sizes = [(18, 4)] if not self.thorough else [(2, 2), (18, 4), (34, 4), (50, 2)]
        out = []
        for w, h in sizes:
            for s, d in all_pairs():
                for simd in self.simds:
                    deep = M.bps(d) == 2
                    combos = [("BT709", True, "BT709", True)] + ([("BT601", False, "BT2020", True)] if deep else [])
                    if self.thorough and deep:
                        combos += [("BT2020", True, "BT601", True), ("BT2020", False, "BT2020", False)]
                    for a, fa, b, fb in combos:
                        out.append(pair(s, d, w, h, simd, space=a, full=fa, dspace=b, dfull=fb, inrange=False, rule="range"))
                        if M.BITS[s] != M.BITS[d]:
                            out.append(pair(s, d, w, h, simd, space=a, full=fa, dspace=b, dfull=fb, rule="within"))
                    if deep:
                        for t, dt, pr, dp, sp, dsp in [("Linear", "SRGB", "BT709", "BT2020", "BT709", "BT2020"), ("PQ", "HLG", "BT2020", "BT2020", "ICtCpPQ", "ICtCpHLG")]:
                            out.append(pair(s, d, w, h, simd, space=sp, dspace=dsp, transfer=t, dtransfer=dt, prim=pr, dprim=dp, inrange=False, rule="range"))
        return out

    def inspect(self, job, p, res):
        check_values(res, job, p, rule=job["rule"])


class P08(ConvCheck):
    id = "P08"
    kinds = ("core", "avx512")
    technique = "symbolic execution of the vector and the scalar code on the same symbolic image; the difference of the two terms is decided by z3 (linear real arithmetic with rounding-error bounds, IEEE-754 back-up)"
    what = "for every destination sample the term computed by the vector code (AVX2; AVX-512 build of the 'unstable' feature) and the one computed by the scalar fallback differ by less than 2 codes for all inputs; the scalar term is the same function of its inputs at every position of a row"
    bounds = "all 225 format pairs, BT601/BT709/BT2020 and range combinations, all sample values, symbolic strides; widths 18, 34 and 50 (every position of the vector loop and of its remainder), height 2 (thorough: more widths, height 4)"

    def jobs(self):
        out = []
        for s, d in all_pairs():
            i = M.FID[s] * 15 + M.FID[d]
            combos = [("BT601", "BT709", "BT2020")[i % 3]]
            ranges = [(True, True), (False, False)]
            ws = [(34, 2)]
            if self.thorough:
                combos = ["BT601", "BT709", "BT2020"]
                ranges = [(a, b) for a in (True, False) for b in (True, False)]
                ws = [(18, 4), (34, 4), (50, 2), (66, 2), (98, 2)]
            for w, h in ws:
                for sp in combos:
                    for a, b in ranges:
                        out.append(pair(s, d, w, h, False, space=sp, full=a, dfull=b))
        return out

    def run(self, job, res):
        got = {}
        variants = [("core", False), ("core", True)] + ([("avx512", True)] if "avx512" in dr.G.mods else [])
        for kind, simd in variants:
            for p in dr.explore(res, conv_call(job), simd, kind):
                if check_end(res, dict(job, simd=simd), p):
                    if (kind, simd) in got:
                        res.undecided("several paths")
                    got[kind, simd] = p
        if len(got) < len(variants):
            return
        before = len(dr.DCL.tab)
        base = got["core", False]
        classes = {}
        for comp, x, y, loc in spec.dst_samples(job["dst"]):
            t0 = base.ctx["D"].sample(loc)
            res.n["samples"] += 1
            if isinstance(t0, T.Term):
                # position independence of the scalar code
                sx, sy = (2, 2) if job["dst"].fmt in M.YUV or job["src"].fmt in M.YUV else (1, 1)
                order = {}
                c, order = numeric.canon(t0)
                k = (comp, x % sx, y % sy)
                first = classes.setdefault(k, (c, t0, x, y))
                if first[0] != c:
                    self.position(job, res, base, comp, x, y, t0, first)
            for v in variants[1:]:
                t1 = got[v].ctx["D"].sample(loc)
                r = dr.DCL.decide(t0, t1)
                if r.ok is None:
                    res.n["undecided_samples"] += 1
                    res.undecided(f"{name_of(job)} {v}: {comp}({x},{y}): {r.why}")
                elif r.ok is False:
                    confirm_simd(res, job, [variants[0], v], {**path_env(base), **r.env}, comp, x, y, f"{name_of(job)} {v[0]}: {comp}({x},{y})")
                    return
                else:
                    res.n["by_" + r.how] += 1
        for v in got:
            validate(res, dict(job, simd=v[1]), got[v], 3)
        res.n["classes"] += len(dr.DCL.tab) - before
        if not res.samples:
            res.samples.append(f"{name_of(job)}: vector and scalar terms of every sample differ by less than 2")

    def position(self, job, res, base, comp, x, y, t, first):
        """the scalar code computes a different function at (x, y) than at the first position: compare them on equal inputs"""
        _, t0, x0, y0 = first
        S = base.ctx["S"]
        ren = {}
        for a, b in zip(spec.block(job["dst"].fmt, comp, x, y), spec.block(job["dst"].fmt, comp, x0, y0)):
            la, lb = job["src"].loc(*a), job["src"].loc(*b)
            for c in la:
                ren[S.varname(la[c])] = S.varname(lb[c])
        t2 = numeric.rename(t, ren)
        r = dr.DCL.decide(t0, t2)
        if r.ok is True:
            return
        if r.ok is None:
            res.undecided(f"{name_of(job)}: position dependence of {comp}({x},{y})")
            return
        env = dict(r.env)
        for a, b in ren.items():
            if b in env:
                env[a] = env[b]
        for i in range(6):
            q = dr.instance(job, {**path_env(base), **env}, dr.rng("pos", i))
            out = dr.run_native(res, q, False)
            m = position_message(out, job["dst"], q, dict(comp=comp, a=(x, y), b=(x0, y0)))
            if m:
                dr.report(res, m, dict(kind="position", lib="core", simd=False, query=q, want=dict(comp=comp, a=(x, y), b=(x0, y0))))
                return
        res.undecided(f"candidate not reproduced natively: position dependence of {comp}({x},{y})")


def position_message(out, dst, q, want):
    if "crash" in out:
        return f"native run crashed ({out['crash']})"
    pl = dr.sub_planes(dst, out["dst"], q["dst"]["strides"])
    a, b = (dr.get_sample(pl, dst.loc(*want[k])[want["comp"]]) for k in "ab")
    if abs(a - b) > 1:
        return f"equal inputs give {want['comp']} = {a} at {want['a']} but {b} at {want['b']}"
    return None
