"""Runs the jobs of one check in parallel, confirms candidates natively, writes evidence and verdict."""
import collections
import concurrent.futures
import copy
import fcntl
import hashlib
import json
import multiprocessing
import os
import pickle
import random
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback
from fractions import Fraction as Q

from . import build, ll, smt, exec as X, model as M, terms as T, spec, numeric, native, evalc
from .terms import Term

VERIF = build.VERIF


class G:
    """state shared with the workers (inherited by fork)"""

    mods = {}
    dirs = {}
    seed = 1
    tier = "quick"
    check = None
    natives = {}
    deadline = None
    shared = None  # directory of the run's shared verdicts


class JobTimeout(Exception):
    pass


class Result:
    def __init__(self):
        self.n = collections.Counter()
        self.funcs = set()
        self.viol = []  # confirmed: dict(msg, replay)
        self.und = []
        self.samples = []
        self.t = 0.0

    def undecided(self, msg):
        self.und.append(msg)


def mod(kind="core"):
    if kind not in G.mods:
        d = build.build(kind)
        G.dirs[kind] = d
        G.mods[kind] = ll.Module(d + "/core.ll")
    return G.mods[kind]


def nat(simd=True, kind="core"):
    k = (simd, kind)
    if k not in G.natives:
        G.natives[k] = native.Native(G.dirs[kind] + "/lib.so", simd)
    return G.natives[k]


def rng(*key):
    return random.Random(hashlib.sha256(repr((G.seed,) + key).encode()).digest())


# ------------------------------------------------------------------ symbolic execution of one call over all its paths
class Path:
    pass


def explore(res, call, simd=True, kind="core", maxpaths=400, fuel=8_000_000):
    """call(run) -> anything; yields Path objects with .run .value .end .viol"""
    todo = [()]
    cache = {}
    n = 0
    m = mod(kind)
    while todo:
        dec = todo.pop()
        n += 1
        if n > maxpaths:
            res.undecided(f"more than {maxpaths} paths")
            return
        r = X.Run(m, dec, simd=simd, cond_cache=cache, fuel=fuel)
        p = Path()
        p.run = r
        p.end = None
        p.value = None
        p.simd = simd
        p.kind = kind
        p.ctx = {}
        try:
            p.value = call(r, p.ctx)
            r.flush()
        except X.PathEnd as e:
            if e.kind == "infeasible":
                todo += r.alts
                continue
            p.end = e
            try:
                r.flush()
            except smt.Inconclusive as e2:
                res.undecided(f"bounds query: {e2}")
        except X.Unsupported as e:
            res.undecided(f"not encodable: {str(e)[:300]}")
            res.n["stuck"] += 1
            todo += r.alts
            account(res, r)
            continue
        except smt.Inconclusive as e:
            res.undecided(f"solver gave no answer: {str(e)[:300]}")
            res.n["stuck"] += 1
            todo += r.alts
            account(res, r)
            continue
        account(res, r)
        todo += r.alts
        yield p


def account(res, r):
    res.n["paths"] += 1
    res.n["steps"] += r.steps
    res.n["obligations"] += r.obls
    res.n["merges"] += r.merges
    res.funcs.update(r.funcs)


# ------------------------------------------------------------------ concretisation
_coef = re.compile(r"(?:(\d+)\*)?([A-Za-z_.0-9]+)\+")


def place(name, env):
    """'$S0[2*S.s0++4]' -> ('S', 0, byte offset) under the layout values in env"""
    m = re.match(r"\$([A-Za-z]+)(\d)\[(.*?)([+-]\d+)\]$", name)
    if not m:
        return None
    off = int(m.group(4))
    for c, v in _coef.findall(m.group(3)):
        off += int(c or 1) * env[v]
    return m.group(1), int(m.group(2)), off


def layout(img, tag, env, rnd=None):
    """concrete strides and lengths of an image's planes"""
    if img.ctor == 2:
        geo = [(0, 0)]
        n = img.lens[0] if isinstance(img.lens, (list, tuple)) else sum(a * b for a, b in M.plane_geometry(img.fmt, img.w, img.h))
        return list(img.strides) if isinstance(img.strides, (list, tuple)) else [], [n]
    geo = M.plane_geometry(img.fmt, img.w, img.h)
    st, ln = [], []
    for i, (row, rows) in enumerate(geo):
        if img.strides == "packed":
            s = row
        elif img.strides == "sym2":
            h = env.get(f"{tag}.h{i}")
            if h is None:
                h = env[f"{tag}.h{i}"] = (row + 1) // 2 + (rnd.choice([0, 1, 3, 8, 40]) if rnd else 0)
            s = 2 * h
        elif img.strides in ("sym", "free"):
            s = env.get(f"{tag}.s{i}")
            if s is None:
                s = row + (rnd.choice([0, 1, 3, 8, 40]) if rnd else 0)
                env[f"{tag}.s{i}"] = s
        else:
            s = img.strides[i]
        need = s * max(rows - 1, 0) + (row if rows else 0)
        if img.lens == "exact":
            l = need
        elif img.lens == "full":
            l = s * rows
        elif img.lens in ("sym", "free"):
            l = env.get(f"{tag}.l{i}", need)
        else:
            l = img.lens[i]
        st.append(s)
        ln.append(l)
    return st, ln


BIG = 1 << 26


class TooBig(Exception):
    pass


def fill(img, lens, rnd, extreme=False):
    """random bytes, but 16-bit samples inside their depth when the image is declared so"""
    out = []
    for l in lens:
        if l > BIG:
            raise TooBig(l)
        if M.bps(img.fmt) == 2 and img.inrange:
            hi = (1 << M.BITS[img.fmt]) - 1
            b = bytearray(l)
            for i in range(0, l - 1, 2):
                v = rnd.choice([0, hi, rnd.randint(0, hi)]) if extreme else rnd.randint(0, hi)
                b[i] = v & 255
                b[i + 1] = v >> 8
            out.append(b)
        elif extreme:
            out.append(bytearray(rnd.choice([0, 255, rnd.randrange(256)]) for _ in range(l)))
        else:
            out.append(bytearray(rnd.randbytes(l)))
    return out


def concrete_desc(img, st, planes):
    return dict(
        fmt=M.FID[img.fmt],
        ctor=img.ctor | img.how << 8,
        planes=[bytes(p).hex() for p in planes],
        nstrides=(0xFFFFFFFF if img.nstrides is None else img.nstrides) if img.ctor == 2 else (img.nstrides if img.nstrides is not None else len(st)),
        strides=list(st),
        w=img.w,
        h=img.h,
        color=img.color_words(),
        crop=[list(w) for w in img.crop],
    )


def instance(case, env, rnd, extreme=False):
    """concrete query for a case: {src,dst,op,threads,order} from layout and content values in env"""
    env = dict(env)
    src, dst = case["src"], case["dst"]
    ss, sl = layout(src, "S", env, rnd)
    ds, dl = layout(dst, "D", env, rnd)
    sp = fill(src, sl, rnd, extreme)
    dp = [bytearray(rnd.randbytes(l) if l <= BIG else b"") for l in dl]
    if any(l > BIG for l in dl):
        raise TooBig(dl)
    for name, v in env.items():
        if name[0] != "$":
            continue
        pl = place(name, env)
        if pl is None:
            continue
        tag, p, off = pl
        img, planes = (src, sp) if tag == "S" else (dst, dp)
        n = M.bps(img.fmt)
        for j in range(n):
            if 0 <= off + j < len(planes[p]):
                planes[p][off + j] = (v >> (8 * j)) & 255
    return dict(fn="run", src=concrete_desc(src, ss, sp), dst=concrete_desc(dst, ds, dp), op=case.get("op", 0), threads=case.get("threads", 1), order=case.get("order", 0))


def image_of(d, inrange=True):
    """Img for a concrete descriptor"""
    c = d["color"]
    col = ("RGB" if c[0] == 0 else "YUV", M.TRANSFER[c[1]], M.PRIM[c[2]], M.SPACE[c[3]], bool(c[4]))
    return M.Img(M.FMT[d["fmt"]], d["w"], d["h"], color=col, ctor=d["ctor"], strides=d["strides"], lens=[len(p) // 2 for p in d["planes"]], crop=d["crop"], nstrides=d["nstrides"], inrange=inrange)


def sub_planes(img, planes, strides):
    """[(bytes, stride)] of the planes of an image"""
    if img.ctor != 2:
        return [(bytes.fromhex(p), s) for p, s in zip(planes, strides)]
    buf = bytes.fromhex(planes[0])
    geo = M.plane_geometry(img.fmt, img.w, img.h)
    st = strides if img.nstrides is not None and img.nstrides != 0xFFFFFFFF else [a for a, b in geo]
    out, o = [], 0
    for (row, rows), s in zip(geo, st):
        out.append((buf[o : o + s * rows], s))
        o += s * rows
    return out


def get_sample(planes, loc):
    p, r, x, n = loc
    b, s = planes[p]
    return int.from_bytes(b[r * s + x : r * s + x + n], "little")


def untouched_outside(img, before, after, strides):
    """first (plane, offset) outside the image rectangle that changed, or None"""
    b0, b1 = [bytes.fromhex(p) for p in before], [bytes.fromhex(p) for p in after]
    if b0 == b1:
        return None
    allowed = [set() for _ in b0]
    if img.ctor == 2:
        geo = M.plane_geometry(img.fmt, img.w, img.h)
        st = strides if img.nstrides not in (None, 0xFFFFFFFF) else [a for a, b in geo]
        starts, o = [], 0
        for (row, rows), s in zip(geo, st):
            starts.append(o)
            o += s * rows
    for c, x, y, (p, r, bx, n) in spec.dst_samples(img):
        if img.ctor == 2:
            o = starts[p] + r * st[p] + bx
            allowed[0].update(range(o, o + n))
        else:
            o = r * strides[p] + bx
            allowed[p].update(range(o, o + n))
    for p, (u, v) in enumerate(zip(b0, b1)):
        if u != v:
            for i, (a, b) in enumerate(zip(u, v)):
                if a != b and i not in allowed[p]:
                    return p, i
    return None


def run_native(res, q, simd, kind="core", front=False):
    res.n["native_runs"] += 1
    q = dict(q)
    if front:
        q["front"] = True
    return nat(simd, kind).call(q)


# ------------------------------------------------------------------ verdicts on concrete runs (oracles)
def judge(q, out, want):
    """want: dict(kind=..., ...).  -> message if the concrete run violates, else None"""
    k = want["kind"]
    if "crash" in out:
        sig = out["crash"]
        name = {6: "panic (abort)", 11: "access outside the planes (SIGSEGV)", 7: "SIGBUS", 4: "illegal instruction"}.get(sig, f"signal {sig}")
        return f"native run ended with {name}"
    if k == "crash":
        return None
    if "rc" in want and out["rc"] != want["rc"]:
        return f"result code {out['rc']} instead of {want['rc']}"
    if k == "rc":
        if want.get("untouched") and out["dst"] != q["dst"]["planes"]:
            return "destination bytes modified by a rejected request"
        return None
    dst = image_of(q["dst"])
    src = image_of(q["src"])
    if k == "outside":
        if out["src"] != q["src"]["planes"]:
            return "source bytes modified"
        o = untouched_outside(dst, q["dst"]["planes"], out["dst"], q["dst"]["strides"])
        return f"byte {o[1]} of destination plane {o[0]}, outside the image rectangle, was modified" if o else None
    if k == "sample":
        return judge_sample(q, out, src, dst, want)
    raise KeyError(k)


def judge_sample(q, out, src, dst, want):
    comp, x, y = want["comp"], want["x"], want["y"]
    loc = dst.loc(x, y)[comp]
    got = get_sample(sub_planes(dst, out["dst"], q["dst"]["strides"]), loc)
    hi = spec.mx(dst.fmt)
    if want["rule"] == "range":
        return f"sample {comp} at ({x},{y}) is {got}, above the maximum {hi} of {dst.fmt}" if got > hi else None
    sp = sub_planes(src, q["src"]["planes"], q["src"]["strides"])
    aff = spec.expected(src, dst, comp, x, y, lambda l: l)
    v = aff.c + sum(k * get_sample(sp, l) for l, k in aff.co.items())
    if want["rule"] == "equal":
        bad = got != v
    else:
        bad = abs(got - max(0, min(hi, v))) > Q(want["tol"])
    return f"sample {comp} at ({x},{y}) of {src.fmt}->{dst.fmt} is {got}, expected {float(max(0, min(hi, v))):.3f}" if bad else None


def confirm(res, case, p, want, msg, env, tries=6, key=()):
    """replay a candidate natively; report it when the real code shows it"""
    note = ""
    for i in range(tries):
        try:
            q = instance(case, env, rng("confirm", i, msg, *key), extreme=i % 2 == 1)
        except TooBig:
            note = " (too large to replay)"
            break
        if "mutate" in want:
            pass
        for front in (False, True):
            out = run_native(res, q, p.simd, p.kind, front)
            m = judge(q, out, want)
            if m:
                report(res, f"{m} [{msg}]", dict(kind="run", lib=p.kind, simd=p.simd, front=front, query=q, want=want))
                return True
    res.undecided(f"candidate not reproduced natively{note}: {msg[:300]}")
    return False


def report(res, msg, replay):
    res.viol.append(dict(msg=msg, replay=replay))


# ------------------------------------------------------------------ verdicts shared by the workers of one run
class Shared:
    """with Shared(key) as s: s.get() -> verdict another worker of this run found, else None (then s.put(v))

    The store is a scratch directory made by main() and removed at its end: nothing survives the run."""

    def __init__(self, key):
        self.path = os.path.join(G.shared, hashlib.sha1(key.encode()).hexdigest()) if G.shared else None

    def __enter__(self):
        self.fd = None
        if self.path:
            self.fd = os.open(self.path + ".lock", os.O_CREAT | os.O_RDWR, 0o600)
            fcntl.flock(self.fd, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        if self.fd is not None:
            os.close(self.fd)
        return False

    def get(self):
        try:
            with open(self.path, "rb") as f:
                return pickle.load(f)
        except (OSError, TypeError, EOFError, pickle.UnpicklingError):
            return None

    def put(self, v):
        if self.path:
            with open(self.path + ".new", "wb") as f:
                pickle.dump(v, f)
            os.replace(self.path + ".new", self.path)


# ------------------------------------------------------------------ job pool
def worker_init():
    sys.setrecursionlimit(200000)
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    numeric_reset()


CL = numeric.Classes()
DCL = numeric.DiffClasses()


def numeric_reset():
    pass


def on_alarm(*a):
    raise JobTimeout()


def fixed_layouts(job):
    """the job with fixed instead of symbolic strides and lengths: packed, and with some padding"""
    out = []
    if not isinstance(job, dict) or not all(isinstance(job.get(k), M.Img) for k in ("src", "dst")):
        return out
    for pad in (0, 1):
        j = dict(job)
        n = 0
        for k, extra in (("src", 2), ("dst", 6)):
            i = job[k]
            if i.strides in ("sym", "sym2") and isinstance(i.w, int) and isinstance(i.h, int) and i.ctor != 2:
                n += 1
                i = j[k] = copy.copy(i)
                geo = M.plane_geometry(i.fmt, i.w, i.h)
                i.align2 = i.strides == "sym2"
                i.strides = [w + pad * 2 * (p + extra) for p, (w, _) in enumerate(geo)]
                i.lens = [st * max(h - 1, 0) + (w if h else 0) + pad * 2 for st, (w, h) in zip(i.strides, geo)]
        if n:
            out.append(j)
    return out


def run_job(job):
    res = Result()
    t0 = time.time()
    q0 = dict(smt.STATS)
    numeric.FPBudget.used = 0.0
    left = G.deadline - t0
    if left < 2:
        res.n["skipped"] += 1
        res.undecided(f"not explored (time budget): {G.check.describe(job)}")
        return res
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, min(left, G.check.job_limit))
    try:
        try:
            G.check.run(job, res)
        except (X.Unsupported, smt.Inconclusive) as e:
            what = "not encodable" if isinstance(e, X.Unsupported) else "solver gave no answer"
            res.undecided(f"{what}: {str(e)[:300]}")
            res.n["stuck"] += 1
        if res.n["stuck"]:
            for a in fixed_layouts(job):
                if not res.viol:
                    res.n["fixed_layouts"] += 1
                    try:
                        G.check.run(a, res)
                    except (X.Unsupported, smt.Inconclusive):
                        pass
    except JobTimeout:
        res.undecided(f"job time limit: {G.check.describe(job)}")
    except Exception as e:
        res.n["errors"] += 1
        res.undecided(f"internal error {type(e).__name__} in {G.check.describe(job)}: {traceback.format_exc()[-900:]}")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    res.n["jobs"] += 1
    for k in ("queries", "unknown"):
        res.n[k] += smt.STATS[k] - q0[k]
    res.t = smt.STATS["time"] - q0["time"]
    if len(T._tab if hasattr(T, "_tab") else ()) > 3_000_000:
        T.reset()
    return res


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    try:
        with open(p) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"known": [], "fixed": []}


class Check:
    """one property"""

    id = None
    kinds = ("core",)
    job_limit = 300
    budget = {"quick": 600, "thorough": 6 * 3600}
    bounds = ""
    assumptions = []
    what = ""

    def jobs(self):
        raise NotImplementedError

    def run(self, job, res):
        raise NotImplementedError

    def describe(self, job):
        return repr(job)[:200]

    def finish(self, total):
        pass

    @property
    def thorough(self):
        return G.tier == "thorough"


COMMON_ASSUMPTIONS = [
    "rustc/LLVM's translation of the crate to optimised LLVM IR (opt-level 2, loop and SLP auto-vectorisation off) preserves the behaviour of the source; the IR is regenerated from /repo on every run",
    "the executor's semantics of LLVM IR and of the x86 intrinsics used, validated each run by comparing its concrete evaluation with native runs of the same library (and in full over all format pairs while it was built)",
    "z3's answers",
    "rayon and num_cpus are replaced by sequential stand-ins that run the parallel items one after another in a chosen order",
    "x86-64 code only: aarch64/NEON code is not reachable in this sandbox",
]


def main(check, tier):
    t0 = time.time()
    G.tier = tier
    G.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    G.check = check
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    sys.setrecursionlimit(200000)
    total = Result()
    und = collections.Counter()
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        futs = {k: ex.submit(build.build, k) for k in check.kinds}
    for k in check.kinds:
        try:
            futs[k].result()
            mod(k)
        except build.BuildError as e:
            print(f"cannot build /repo for checking ({k}): {e}")
            und[f"build of the {k} variant failed: {str(e)[-500:]}"] += 1
            if k == check.kinds[0]:
                return finish(check, tier, t0, total, 0, list(und), 1)
    tb = time.time() - t0
    G.deadline = t0 + check.budget[tier]
    jobs = [j for j in check.jobs() if not isinstance(j, dict) or j.get("kind", "core") in G.mods]
    ctx = multiprocessing.get_context("fork")
    G.shared = tempfile.mkdtemp(prefix="vpshared")
    workers = int(os.environ.get("VP_WORKERS", "8"))
    viol = []
    with ctx.Pool(workers, worker_init) as pool:
        it = pool.imap_unordered(run_job, jobs, chunksize=1)
        for _ in range(len(jobs)):
            try:
                r = it.next(timeout=max(1, G.deadline + 60 - time.time()))
            except multiprocessing.TimeoutError:
                total.und.append("pool time-out: remaining jobs abandoned")
                break
            total.n += r.n
            total.funcs |= r.funcs
            total.t += r.t
            viol += r.viol
            if len(total.samples) < 12:
                total.samples += r.samples[:2]
            for u in r.und:
                und[u] += 1
            if len(viol) >= 3:
                break
        pool.terminate()
    shutil.rmtree(G.shared, ignore_errors=True)
    total.viol = viol
    check.finish(total)
    return finish(check, tier, t0, total, len(jobs), [f"{k} (x{v})" if v > 1 else k for k, v in und.most_common(40)], sum(und.values()), tb)


def finish(check, tier, t0, total, njobs, und, nund, tb=0.0):
    pid = check.id
    evdir = os.path.join(VERIF, "evidence")
    known = [k for k in known_findings().get("known", []) if k["property"] == pid]
    new, seen_known = [], {}
    for v in total.viol:
        k = next((k for k in known if all(s in v["msg"] for s in k["match"])), None)
        if k:
            seen_known[k["what"]] = k
        else:
            new.append(v)
    rdir = os.path.join(evdir, "replay")
    os.makedirs(rdir, exist_ok=True)
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    lines = []
    for i, v in enumerate(new[:5]):
        path = os.path.join(rdir, f"{pid}-{i}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, message=v["msg"], **v["replay"]), f)
        print(v["msg"][:600])
        lines.append(f"VIOLATION property={pid} replay={path}")
    n = total.n
    cov = dict(
        states=n["paths"] + n["classes"],
        transitions=n["steps"],
        traces_validated_against_impl=n["native_runs"],
        samples=total.samples[:12] or ["no samples recorded"],
        rule="states = symbolic execution paths explored plus distinct symbolic classes of output samples decided; transitions = LLVM IR instructions executed symbolically; traces = native runs of the compiled crate compared against the symbolic result or used to confirm a counterexample",
        bounds=check.bounds,
        checked=check.what,
        jobs=njobs,
        jobs_done=n["jobs"],
        symbolic_paths=n["paths"],
        sample_classes_decided=n["classes"],
        samples_covered=n["samples"],
        obligations=n["obligations"],
        solver_queries=n["queries"],
        solver_unknown=n["unknown"],
        solver_time_s=round(total.t, 2),
        build_and_parse_s=round(tb, 2),
        functions_encoded=len(total.funcs),
        functions=sorted(demangle(f) for f in total.funcs)[:200],
        undecided=nund,
        undecided_reasons=und,
        counters={k: v for k, v in sorted(n.items())},
    )
    ev = dict(property=pid, tier=tier, seed=G.seed, level="model_checking", coverage=cov, assumptions=COMMON_ASSUMPTIONS + list(check.assumptions), wall_s=round(time.time() - t0, 2), violations=len(new))
    tmp = os.path.join(evdir, f".{pid}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(evdir, f"{pid}.json"))
    print(f"{pid} [{tier}]: {n['jobs']}/{njobs} jobs, {n['paths']} paths, {n['steps']} IR steps, {n['obligations']} obligations, {n['classes']} classes, {n['queries']} queries ({total.t:.1f} s), {n['native_runs']} native runs, {nund} undecided, {len(new)} violations, {time.time() - t0:.1f} s")
    for u in und[:6]:
        print("  undecided:", u[:400])
    for l in lines:
        print(l)
    sys.stdout.flush()
    return 1 if new else 0


def demangle(n):
    """the path segments of a mangled name, good enough to recognise the function"""
    n = n.lstrip("@").strip('"')
    if not n.startswith(("_R", "_ZN")):
        return n
    out, i = [], 2
    while i < len(n):
        m = re.match(r"(\d+)_?", n[i:])
        if m and n[i] != "0":
            k = int(m.group(1))
            seg = n[i + m.end() : i + m.end() + k]
            if len(seg) == k and re.match(r"[A-Za-z_$][\w.$]*$", seg):
                out.append(seg)
                i += m.end() + k
                continue
            i += m.end()
        else:
            i += 1
    return "::".join(x for x in out if not re.match(r"h[0-9a-f]{16}$", x))[:160]


def replay(path):
    with open(path) as f:
        v = json.load(f)
    mod(v.get("lib", "core"))
    if v["kind"] == "run":
        q = dict(v["query"], front=v["front"])
        out = nat(v["simd"], v["lib"]).call(q)
        m = judge(v["query"], out, v["want"])
    else:
        from . import checks

        m = checks.replay(v)
    print(m or "not reproduced")
    return 1 if m else 0
