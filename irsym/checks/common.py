"""Shared pieces of the conversion checks."""
from fractions import Fraction as Q
import z3
from .. import driver as dr, model as M, terms as T, spec, numeric, evalc, smt
from ..terms import Term

ARG = lambda c: [c.get("op", 0), c.get("threads", 1), c.get("order", 0)]
TOL = Q(65, 64)


def conv_call(case):
    def call(r, ctx):
        S = M.SymImg(r, case["src"], "S", const=True)
        D = M.SymImg(r, case["dst"], "D")
        ctx.update(S=S, D=D)
        return r.call("@vp_run", [S.desc.base, D.desc.base] + ARG(case))

    return call


def name_of(case):
    s, d = case["src"], case["dst"]
    extra = "".join(f" {k}={case[k]}" for k in ("op", "threads", "order") if case.get(k))
    return f"{s.fmt}->{d.fmt} {s.w}x{s.h}{'' if (s.w, s.h) == (d.w, d.h) else f' to {d.w}x{d.h}'}{' crop ' + str(s.crop) if s.crop else ''}{' into ' + str((d.w, d.h, d.crop)) if d.crop else ''} {'simd' if case['simd'] else 'scalar'}{extra}"


def path_env(p):
    try:
        return dict(p.run.get_model())
    except Exception:
        return {}


def guard_env(p):
    """values of the data the failing branch depends on"""
    g = getattr(p.end, "guard", None)
    if not g:
        return {}
    from .. import real

    for ints in (True, False):
        try:
            e = real.Enc(ints=ints)
            zs = [e.b(x) for x in g]
            if e.check(z3.And(zs)) == z3.sat:
                return e.model()
        except Exception:
            pass
    return {}


def check_end(res, case, p, rc=0):
    """no panic, no stray access, expected result code; returns True if the path ended normally"""
    ok = True
    for v in p.run.violations:
        ok = False
        if v[0] == "memory":
            dr.confirm(res, case, p, dict(kind="crash"), f"{name_of(case)}: {v[1]} possible", v[2])
        else:
            dr.confirm(res, case, p, dict(kind="crash"), f"{name_of(case)}: {v[0]} {v[1]}", path_env(p))
    if p.end is not None:
        env = path_env(p)
        env.update(guard_env(p))
        dr.confirm(res, case, p, dict(kind="crash"), f"{name_of(case)}: {p.end.kind} {p.end.msg}", env)
        return False
    if rc is not None:
        if isinstance(p.value, Term):
            res.undecided(f"symbolic result code {p.value}")
            return False
        if p.value != rc:
            dr.confirm(res, case, p, dict(kind="rc", rc=rc), f"{name_of(case)}: result code {p.value}", path_env(p))
            return False
    return ok


def rect(img):
    """plane -> {row: (first byte, end byte)} of the image rectangle"""
    out = {}
    for c, x, y, (p, r, b, n) in spec.dst_samples(img):
        rows = out.setdefault(p, {})
        lo, hi = rows.get(r, (b, b + n))
        rows[r] = (min(lo, b), max(hi, b + n))
    return out


def row_key_map(D, rects):
    m = {}
    for p, rows in rects.items():
        for r, (lo, hi) in rows.items():
            k, c = D.rowkey(p, r)
            m.setdefault((D.objs[p].slot, k), []).append((c + lo, c + hi, p, r))
    return m


def check_writes(res, case, p):
    """every byte written to the destination lies in the image rectangle, every sample of it is written"""
    r, D = p.run, p.ctx["D"]
    rects = rect(case["dst"])
    km = row_key_map(D, rects)
    slots = {o.slot: i for i, o in enumerate(D.objs)}
    seen = set()
    for w in r.writes:
        if len(w) != 6 or w[0] not in slots:
            continue
        key = w[:4]
        if key in seen:
            continue
        seen.add(key)
        slot, k, c, n = key
        if any(lo <= c and c + n <= hi for lo, hi, _, _ in km.get((slot, k), ())):
            continue
        bad = [i for i in range(c, c + n) if not any(lo <= i < hi for lo, hi, _, _ in km.get((slot, k), ()))]
        pl = slots[slot]
        res.n["write_queries"] += 1
        off = T.lin(0, dict(k), 64) if k else 0
        zo = r.enc.i(off) if k else z3.IntVal(0)
        zs = r.enc.i(D.strides[pl]) if isinstance(D.strides[pl], Term) else D.strides[pl]
        hit = None
        for i in sorted({bad[0], bad[-1]}):
            conds = []
            for row, (lo, hi) in rects.get(pl, {}).items():
                pos = zo + i - zs * row
                conds.append(z3.Or(pos < lo, pos >= hi))
            q = r.enc.check(z3.And(conds))
            if q == z3.sat:
                hit = r.enc.model()
                break
            if q == z3.unknown:
                res.undecided(f"write query {name_of(case)}")
        if hit is not None:
            dr.confirm(res, case, p, dict(kind="outside"), f"{name_of(case)}: write at {k} {c:+d} of plane {pl} outside the rectangle", hit)
            return False
    for slot_k, ivs in km.items():
        o = r.objs[slot_k[0]]
        m = o.sym.get(slot_k[1]) or {}
        for lo, hi, pl, row in ivs:
            for i in range(lo, hi):
                if i not in m:
                    return missing(res, case, p, pl, row, i)
    res.n["samples"] += sum(hi - lo for iv in km.values() for lo, hi, _, _ in iv)
    return True


def missing(res, case, p, pl, row, i):
    D = p.ctx["D"]
    for c, x, y, loc in spec.dst_samples(case["dst"]):
        k, base = D.rowkey(pl, row)
        if loc[0] == pl and loc[1] == row and loc[2] <= i - base < loc[2] + loc[3]:
            confirm_diff(res, case, p, D.varname(loc), c, x, y, f"{name_of(case)}: sample {c} at ({x},{y}) is not written")
            return False
    return False


def confirm_diff(res, case, p, var, comp, x, y, msg, tries=40):
    """does the destination sample change when only `var` changes?"""
    env = path_env(p)
    for i in range(tries):
        rnd = dr.rng("diff", msg, i)
        try:
            q1 = dr.instance(case, env, rnd, extreme=i % 2 == 1)
        except dr.TooBig:
            break
        env2 = dict(env)
        side = "src" if var.startswith("$S") else "dst"
        dr.layout(case["src"], "S", env2, None)
        dr.layout(case["dst"], "D", env2, None)
        img = case[side]
        # strides chosen by instance(): recover them
        for tag, d in (("S", q1["src"]), ("D", q1["dst"])):
            for j, s in enumerate(d["strides"]):
                env2[f"{tag}.s{j}"] = s
                env2[f"{tag}.h{j}"] = s // 2
        pl = dr.place(var, env2)
        if pl is None:
            break
        q2 = dict(q1)
        d = dict(q1[side])
        planes = [bytearray.fromhex(h) for h in d["planes"]]
        n = M.bps(img.fmt)
        b = planes[pl[1]]
        if pl[2] + n > len(b):
            break
        cur = int.from_bytes(b[pl[2] : pl[2] + n], "little")
        hi = spec.mx(img.fmt) if img.inrange else (1 << 8 * n) - 1
        new = rnd.choice([0, hi, rnd.randint(0, hi)])
        if new == cur:
            new = cur ^ 1
        b[pl[2] : pl[2] + n] = new.to_bytes(n, "little")
        d["planes"] = [bytes(x).hex() for x in planes]
        q2[side] = d
        want = dict(comp=comp, x=x, y=y, var=var)
        m = diff_message(dr.run_native(res, q1, p.simd, p.kind), dr.run_native(res, q2, p.simd, p.kind), case["dst"], q1, want)
        if m:
            dr.report(res, f"{m} [{msg}]", dict(kind="diff", lib=p.kind, simd=p.simd, query=q1, query2=q2, want=want))
            return True
    res.undecided(f"candidate not reproduced natively: {msg[:300]}")
    return False


def diff_message(o1, o2, dst, q, want):
    if "crash" in o1 or "crash" in o2:
        return f"native run crashed ({o1.get('crash')}, {o2.get('crash')})"
    if o1["rc"] or o2["rc"]:
        return None
    loc = dst.loc(want["x"], want["y"])[want["comp"]]
    st = q["dst"]["strides"]
    a, b = (dr.get_sample(dr.sub_planes(dst, o["dst"], st), loc) for o in (o1, o2))
    if a != b:
        return f"destination sample {want['comp']} at ({want['x']},{want['y']}) changes from {a} to {b} when only {want['var']} changes"
    return None


def check_deps(res, case, p):
    src, dst = case["src"], case["dst"]
    S, D = p.ctx["S"], p.ctx["D"]
    good = True
    n = 0
    for comp, x, y, loc in spec.dst_samples(dst):
        t = D.sample(loc)
        n += 1
        vs = numeric.variables(t)
        allowed = {S.varname(l) for l in spec.deps(src, dst, comp, x, y)}
        bad = [v for v in vs if v not in allowed]
        if bad:
            confirm_diff(res, case, p, sorted(bad)[0], comp, x, y, f"{name_of(case)}: sample {comp} at ({x},{y}) depends on {sorted(bad)[0]}")
            good = False
            if len(res.viol) or not good:
                return False
    res.n["samples"] += n
    return good


def rule_for(src, dst):
    if src.fmt == dst.fmt and src.color == dst.color:
        return "equal"
    if src.fmt in M.RGBS and dst.fmt in M.RGBS:
        return "equal"
    return "within"


def check_values(res, case, p, rule=None, tol=TOL, limit=None, only=None):
    """every destination sample against the reference equations, decided by the solver per class of samples"""
    src, dst = case["src"], case["dst"]
    S, D = p.ctx["S"], p.ctx["D"]
    rule = rule or rule_for(src, dst)
    hi = spec.mx(dst.fmt)
    smax = spec.mx(src.fmt) if src.inrange else (255 if M.bps(src.fmt) == 1 else 65535)
    before = len(dr.CL.tab)
    und = 0
    for comp, x, y, loc in spec.dst_samples(dst):
        if only and not only(comp, x, y):
            continue
        t = D.sample(loc)
        if rule == "range":
            aff, ranges = None, {n: (0, v.hi) for n, v in numeric.variables(t).items()} if isinstance(t, Term) else {}
        else:
            aff = spec.expected(src, dst, comp, x, y, S.varname)
            # variables outside the specification keep their own range
            ranges = {n: (v.lo, v.hi) for n, v in numeric.variables(t).items()} if isinstance(t, Term) else {}
            for n in aff.co:
                ranges[n] = (0, smax)
        v = dr.CL.decide(t, rule, aff, hi, tol, ranges)
        res.n["samples"] += 1
        if v.ok is True:
            res.n["by_" + v.how.replace(" ", "_")] += 1
            continue
        if v.ok is None:
            und += 1
            if und <= 2:
                res.undecided(f"{name_of(case)}: {comp}({x},{y}): {v.why[:200]}")
            continue
        dr.confirm(res, case, p, dict(kind="sample", comp=comp, x=x, y=y, rule=rule, tol=str(tol)), f"{name_of(case)}: {comp}({x},{y})", {**path_env(p), **v.env}, key=(comp, x, y))
        break
    res.n["undecided_samples"] += und
    res.n["classes"] += len(dr.CL.tab) - before
    if len(res.samples) < 1:
        res.samples.append(f"{name_of(case)}: rule {rule}, e.g. class of {comp}({x},{y}) proved by {v.how}")


def validate(res, case, p, k=6):
    """compare the symbolic result with a native run of the same library on random content"""
    rnd = dr.rng("validate", name_of(case))
    env = path_env(p)
    try:
        q = dr.instance(case, env, rnd)
    except dr.TooBig:
        return
    out = dr.run_native(res, q, p.simd, p.kind, rnd.random() < 0.5)
    if "crash" in out or out["rc"] != p.value:
        m = dr.judge(q, out, dict(kind="crash"))
        if m:
            dr.report(res, f"{m} [{name_of(case)}: validation run]", dict(kind="run", lib=p.kind, simd=p.simd, front=False, query=q, want=dict(kind="crash")))
        else:
            res.undecided(f"executor and native disagree: {name_of(case)} rc {p.value} / {out}"[:300])
            res.n["model_mismatch"] += 1
        return
    S, D = p.ctx["S"], p.ctx["D"]
    src, dst = case["src"], case["dst"]
    for tag, d in (("S", q["src"]), ("D", q["dst"])):
        for j, s in enumerate(d["strides"]):
            env[f"{tag}.s{j}"] = s
            env[f"{tag}.h{j}"] = s // 2
    sp, dp = [bytes.fromhex(h) for h in q["src"]["planes"]], dr.sub_planes(dst, out["dst"], q["dst"]["strides"])
    allsamples = list(spec.dst_samples(dst))
    memo = {}
    for comp, x, y, loc in rnd.sample(allsamples, min(k, len(allsamples))):
        t = D.sample(loc)
        e = {}
        for n, v in numeric.variables(t).items():
            pl = dr.place(n, env)
            if pl is None or pl[0] != "S":
                continue
            e[n] = int.from_bytes(sp[pl[1]][pl[2] : pl[2] + v.w // 8], "little")
        want = evalc.ev(t, e) if isinstance(t, Term) else t
        got = dr.get_sample(dp, loc)
        res.n["validated_samples"] += 1
        if want != got:
            res.n["model_mismatch"] += 1
            res.undecided(f"executor and native disagree: {name_of(case)} {comp}({x},{y}): {want} / {got}")
            return


def colors(fmt, space="BT709", full=True, transfer="SRGB", prim="BT709"):
    return ("RGB" if fmt in M.RGBS else "YUV", transfer, prim, space, full)


def pair(sf, df, w, h, simd, strides="sym", lens="sym", space="BT709", full=True, dspace=None, dfull=None, transfer="SRGB", prim="BT709", dtransfer=None, dprim=None, crop=(), dcrop=(), inrange=True, dw=None, dh=None, ctor=0, dctor=0, **kw):
    return dict(
        src=M.Img(sf, w, h, color=colors(sf, space, full, transfer, prim), strides=strides, lens=lens, crop=crop, inrange=inrange, ctor=ctor),
        dst=M.Img(df, dw or w, dh or h, color=colors(df, dspace or space, full if dfull is None else dfull, dtransfer or transfer, dprim or prim), strides=strides, lens=lens, crop=dcrop, ctor=dctor),
        simd=simd,
        **kw,
    )


def confirm_simd(res, case, kinds, env, comp, x, y, msg, tries=6):
    """kinds: two (kind, simd) variants; replay the same images on both"""
    for i in range(tries):
        try:
            q = dr.instance(case, env, dr.rng("simd", msg, i), extreme=i % 2 == 1)
        except dr.TooBig:
            break
        outs = []
        for kind, simd in kinds:
            res.n["native_runs"] += 1
            outs.append(dr.nat(simd, kind).call(q))
        want = dict(comp=comp, x=x, y=y)
        m = simd_message(outs, case["dst"], q, want)
        if m:
            dr.report(res, f"{m} [{msg}]", dict(kind="simd", variants=[list(k) for k in kinds], query=q, want=want))
            return True
    res.undecided(f"candidate not reproduced natively: {msg[:300]}")
    return False


def simd_message(outs, dst, q, want):
    if any("crash" in o for o in outs):
        return f"native run crashed ({[o.get('crash') for o in outs]})"
    if len({o["rc"] for o in outs}) > 1:
        return f"result codes differ: {[o['rc'] for o in outs]}"
    vals = [dr.sub_planes(dst, o["dst"], q["dst"]["strides"]) for o in outs]
    for c, x, y, loc in spec.dst_samples(dst):
        a, b = (dr.get_sample(v, loc) for v in vals)
        if abs(a - b) > 1:
            return f"sample {c} at ({x},{y}) is {a} with one and {b} with the other code path"
    return None
