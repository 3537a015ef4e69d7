"""P09: multi-threaded conversion."""
from .. import driver as dr, model as M, spec, terms as T, numeric, smt
from ..terms import Term
from .common import *
from .image import all_pairs


class P09(dr.Check):
    id = "P09"
    technique = "symbolic execution of convert and convert_multi_thread on the same symbolic images (tasks run in several orders, thread count symbolic); equality of results and of the final terms, disjointness of the tasks' writes, decided by z3"
    what = "convert_multi_thread returns the code convert returns, leaves the same term in every destination sample, writes exactly the rectangle, and its tasks write disjoint bytes; for accepted, rejected and empty images"
    bounds = "all 225 format pairs with heights up to 8 (thorough 14) and every thread count (1..sections each, and one symbolic count > sections up to 2^64-1); task orders forward, backward, rotated; symbolic strides and plane lengths; free (also invalid) strides and lengths for the rejected images; crops as source and destination"
    assumptions = ["rayon is modelled by running the items one after another in a chosen order; independence of the schedule follows from the tasks writing disjoint bytes, reading only the source and their own section", "threads=0 is not returned by num_cpus"]

    def describe(self, job):
        return name_of(job)

    def jobs(self):
        out = []

        def add(s, d, w, h, threads, order, simd=True, **k):
            k.setdefault("full", True)
            out.append(dict(pair(s, d, w, h, simd, dfull=False if s == d and s in M.YUV and k.pop("same", 1) else None, **k), threads=threads, order=order))

        for s, d in all_pairs():
            add(s, d, 2, 8, "many", 1)
            add(s, d, 18, 6, 2, 0)
            add(s, d, 2, 8, 3, 2, simd=False)
        subset = [("I420", "RGBA"), ("RGB", "NV12"), ("I010", "I412"), ("YUYV", "BGR"), ("I444", "I422"), ("BGRA", "I210"), ("NV12", "I420"), ("RGBA", "YUYV")]
        for s, d in subset if not self.thorough else list(all_pairs()):
            for h in (2, 4, 6, 8, 10) if not self.thorough else (2, 4, 6, 8, 10, 12, 14):
                for t in list(range(1, h // 2 + 1)) + ["many"]:
                    for o in (0, 1, 2) if not self.thorough else (0, 1, 2, 3):
                        add(s, d, 2, h, t, o)
            for o in (0, 1, 2):
                for t in (2, 3, "many"):
                    add(s, d, 20, 12, t, o, crop=[(2, 2, 16, 8)], dcrop=[(4, 4, 16, 8)])
                    add(s, d, 20, 12, t, o, crop=[(4, 4, 16, 8)], dcrop=[(4, 4, 16, 8)], lens="exact")
        # same format and colour: plain copy
        for f in M.FMT:
            out.append(dict(pair(f, f, 4, 6, True), threads=2, order=0))
        # images that are rejected, or that may be rejected
        for s, d in subset if not self.thorough else list(all_pairs()):
            for w, h in ((4, 4), (2, 6)):
                for t in (1, 2, "many"):
                    out.append(dict(pair(s, d, w, h, True, strides="free", lens="free"), threads=t, order=1))
            for w, h in ((0, 0), (0, 4), (4, 0), (3, 2), (2, 3)):
                for t in (1, 2, 5):
                    out.append(dict(pair(s, d, w, h, True, strides="free", lens="free"), threads=t, order=0))
                    out.append(dict(pair(s, d, w, h, True, strides="packed", lens="exact"), threads=t, order=0))
            for w, h, dw, dh in ((4, 4, 4, 2), (4, 4, 2, 4), (2, 8, 4, 4)):
                out.append(dict(pair(s, d, w, h, True, dw=dw, dh=dh), threads=2, order=0))
        return out

    def run(self, job, res):
        threads = job["threads"]

        def call(r, ctx):
            S = M.SymImg(r, job["src"], "S", const=True)
            D = M.SymImg(r, job["dst"], "D")
            E = M.SymImg(r, job["dst"], "D")
            t = threads
            if t == "many":
                t = T.var("threads", 64, job["src"].size[1] // 2 + 1)
            ctx.update(S=S, D=D, E=E, t=t)
            ctx["rc1"] = r.call("@vp_run", [S.desc.base, D.desc.base, 0, 1, 0])
            r.flush()
            ctx["phase"] = 2
            return r.call("@vp_run", [S.desc.base, E.desc.base, 1, t, job["order"]])

        n = 0
        for p in dr.explore(res, call, job["simd"]):
            n += 1
            self.inspect(job, p, res)
            if res.viol:
                return
        if n and p.end is None:
            self.native(job, p, res)
        if n and not res.samples:
            res.samples.append(f"{name_of(job)}: {n} paths, results and destination terms equal")

    def native(self, job, p, res):
        """one native run of both entry points, as a validation of the executor"""
        env = path_env(p)
        env.setdefault("threads", job["src"].size[1] // 2 + 1)
        try:
            q = dr.instance(dict(job, threads=1), env, dr.rng("nat", name_of(job)))
        except dr.TooBig:
            return
        q["threads"] = env["threads"] if job["threads"] == "many" else job["threads"]
        q["order"] = job["order"]
        q, a, b = native_both(q, p.simd, res)
        m = multi_message(q, a, b, job)
        if m:
            dr.report(res, f"{m} [{name_of(job)}: validation run]", dict(kind="multi", lib="core", simd=p.simd, query=q))

    def inspect(self, job, p, res):
        c = p.ctx
        env = path_env(p)
        env.setdefault("threads", job["src"].size[1] // 2 + 1)
        cand = None
        if p.end is not None:
            if "rc1" not in c:
                # convert itself fails: P01 / P18
                res.undecided(f"{name_of(job)}: convert itself ends in {p.end.kind} {p.end.msg}")
                return
            cand = f"{p.end.kind} {p.end.msg}"
        elif p.run.violations:
            v = p.run.violations[0]
            cand = f"{v[1]} possible"
            if v[0] == "memory":
                env.update(v[2])
        elif p.value != c["rc1"]:
            cand = f"result {p.value} instead of {c['rc1']}"
        if cand is None:
            D, E = c["D"], c["E"]
            if p.value == 0 and all(job["dst"].size):
                for comp, x, y, loc in spec.dst_samples(job["dst"]):
                    a, b = D.sample(loc), E.sample(loc)
                    res.n["samples"] += 1
                    if a is b or a == b:
                        continue
                    v = dr.DCL.decide(a, b, 1)
                    if v.ok is None:
                        res.undecided(f"{name_of(job)}: {comp}({x},{y}) {v.why}")
                    if v.ok is False:
                        env.update(v.env)
                        cand = f"{comp}({x},{y}) differs"
                        break
            else:
                for o1, o2 in zip(D.objs, E.objs):
                    if o1.sym != o2.sym:
                        cand = "a rejected request modified the destination"
            if cand is None:
                cand = self.tasks(job, p, res)
            if cand is None and p.value == 0 and all(job["dst"].size):
                p2 = p.ctx["D"]
                p.ctx["D"] = E
                check_writes(res, job, p)
                p.ctx["D"] = p2
        if cand is not None:
            self.confirm(job, p, res, env, cand)

    def tasks(self, job, p, res):
        """bytes of the destination written by two different tasks"""
        owner = {}
        slots = {o.slot for o in p.ctx["E"].objs}
        ts = set()
        for w in p.run.writes:
            if len(w) != 6 or w[0] not in slots or w[4] is None:
                continue
            ts.add(w[4])
            for i in range(w[2], w[2] + w[3]):
                k = (w[0], w[1], i)
                t = owner.setdefault(k, w[4])
                if t != w[4]:
                    res.undecided(f"{name_of(job)}: tasks {t} and {w[4]} both write byte {w[1]} {i:+d}")
                    res.n["overlaps"] += 1
                    return None
        res.n["tasks"] += len(ts)
        return None

    def confirm(self, job, p, res, env, msg):
        for i in range(6):
            try:
                q = dr.instance(dict(job, threads=1), env, dr.rng("multi", msg, i), extreme=i % 2 == 1)
            except dr.TooBig:
                break
            t = job["threads"]
            q["threads"] = env["threads"] if t == "many" else t
            q["order"] = job["order"]
            m = multi_message(*native_both(q, p.simd, res), job)
            if m:
                dr.report(res, f"{m} [{name_of(job)}: {msg}]", dict(kind="multi", lib="core", simd=p.simd, query=q))
                return
        res.undecided(f"candidate not reproduced natively: {name_of(job)}: {msg}"[:300])


def native_both(q, simd, res=None):
    if res:
        res.n["native_runs"] += 2
    n = dr.nat(simd)
    a = n.call(dict(q, op=0, threads=1, order=0))
    b = n.call(dict(q, op=1))
    return q, a, b


def multi_message(q, a, b, job=None):
    if "crash" in b and "crash" not in a:
        return f"convert_multi_thread ends with signal {b['crash']}, convert returns {a['rc']}"
    if "crash" in a or "crash" in b:
        return None if "crash" in b else f"convert ends with signal {a['crash']}, convert_multi_thread returns {b['rc']}"
    if a["rc"] != b["rc"]:
        return f"convert_multi_thread returns {b['rc']}, convert {a['rc']}"
    if a["dst"] != b["dst"]:
        for p, (x, y) in enumerate(zip(a["dst"], b["dst"])):
            if x != y:
                i = next(i for i in range(0, len(x), 2) if x[i : i + 2] != y[i : i + 2])
                return f"byte {i // 2} of destination plane {p} differs: {y[i:i+2]} from convert_multi_thread, {x[i:i+2]} from convert"
    return None
