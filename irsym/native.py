"""Native execution of the same entry points (used to validate the executor and to replay counterexamples).

Runs in a child process: every plane sits between inaccessible pages (flush with the rear one, or with the front one),
so reads or writes outside a plane end in SIGSEGV; a panic aborts.
"""
import ctypes
import json
import mmap
import os
import struct
import subprocess
import sys

PAGE = 4096
_libc = ctypes.CDLL(None, use_errno=True)
_libc.mmap.restype = ctypes.c_void_p
_libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
_libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]


def guarded(n, front=False):
    """address of an n byte buffer next to an inaccessible page"""
    body = (n + PAGE - 1) // PAGE * PAGE
    a = _libc.mmap(None, body + 2 * PAGE, 3, 0x22, -1, 0)
    if a in (None, ctypes.c_void_p(-1).value):
        raise MemoryError
    _libc.mprotect(a, PAGE, 0)
    _libc.mprotect(a + PAGE + body, PAGE, 0)
    return a + PAGE if front else a + PAGE + body - n


def sparse(n):
    """address of an n byte buffer in front of an inaccessible page; memory is only used where it is touched"""
    body = (n + PAGE - 1) // PAGE * PAGE
    a = _libc.mmap(None, body + 2 * PAGE, 3, 0x4022, -1, 0)
    if a in (None, ctypes.c_void_p(-1).value):
        raise MemoryError
    _libc.mprotect(a, PAGE, 0)
    _libc.mprotect(a + PAGE + body, PAGE, 0)
    return a + PAGE + body - n


def reserve(n):
    """an address with n bytes behind it that are never meant to be accessed"""
    n = min(n, 1 << 40)
    a = _libc.mmap(None, n + PAGE, 0, 0x4022, -1, 0)
    if a in (None, ctypes.c_void_p(-1).value):
        raise MemoryError
    return a


def symbol_offset(so, name):
    r = subprocess.run(["nm", "-C", so], capture_output=True, text=True).stdout
    for l in r.splitlines():
        p = l.split(None, 2)
        if len(p) == 3 and p[2] == name:
            return int(p[0], 16)
    raise KeyError(name)


def load(so, simd):
    lib = ctypes.CDLL(so)
    if not simd:
        off = symbol_offset(so, "std_detect::detect::cache::CACHE")
        ref = symbol_offset(so, "vp_variants")
        base = ctypes.cast(lib.vp_variants, ctypes.c_void_p).value - ref
        for i in range(3):
            ctypes.c_uint64.from_address(base + off + 8 * i).value = 1 << 63
    return lib


def mkdesc(d, cls, front):
    c = cls()
    c.fmt = d["fmt"]
    c.ctor = d["ctor"]
    bufs = []
    planes = [bytes.fromhex(p) if isinstance(p, str) else p for p in d["planes"]]
    c.nplanes = d.get("nplanes", len(planes))
    c.nstrides = d["nstrides"]
    for i, p in enumerate(planes):
        if not isinstance(p, bytes):
            # only the length matters
            a = reserve(p["len"])
            c.planes[i] = a
            c.lens[i] = p["len"]
            bufs.append((a, 0))
            continue
        a = guarded(len(p), front)
        ctypes.memmove(a, p, len(p))
        c.planes[i] = a
        c.lens[i] = len(p)
        bufs.append((a, len(p)))
    for i, s in enumerate(d["strides"]):
        c.strides[i] = s
    c.width = d["w"]
    c.height = d["h"]
    for n, v in zip(("kind", "transfer", "primaries", "space", "full"), d["color"]):
        setattr(c.color, n, v)
    c.ncrop = len(d["crop"])
    for i, w in enumerate(d["crop"]):
        for j in range(4):
            c.win[i][j] = w[j]
    return c, bufs


def child():
    from irsym.model import CDesc

    so, simd = sys.argv[2], sys.argv[3] == "1"
    lib = load(so, simd)
    for line in sys.stdin:
        q = json.loads(line)
        if q["fn"] != "run":
            # in a process of its own: these calls may end in a (legitimate) panic
            pid = os.fork()
            if pid:
                st = os.waitpid(pid, 0)[1]
                if os.WIFSIGNALED(st):
                    sys.stdout.write(json.dumps({"crash": os.WTERMSIG(st)}) + "\n")
                    sys.stdout.flush()
                continue
        if q["fn"] == "sized":
            from irsym.checks import sizes

            out = sizes.sized(lib, q)
        elif q["fn"] == "run":
            s, sb = mkdesc(q["src"], CDesc, q.get("front", False))
            d, db = mkdesc(q["dst"], CDesc, q.get("front", False))
            lib.vp_run.restype = ctypes.c_uint32
            r = lib.vp_run(ctypes.byref(s), ctypes.byref(d), q["op"], ctypes.c_size_t(q["threads"]), q["order"])
            out = {"rc": r, "src": [ctypes.string_at(a, n).hex() for a, n in sb], "dst": [ctypes.string_at(a, n).hex() for a, n in db]}
        else:
            f = getattr(lib, q["fn"])
            args = []
            keep = []
            for t, v in q["args"]:
                if t == "f32":
                    args.append(ctypes.c_float(struct.unpack("<f", struct.pack("<I", v))[0]))
                elif t == "buf":
                    b = bytes.fromhex(v)
                    a = guarded(len(b))
                    ctypes.memmove(a, b, len(b))
                    keep.append((a, len(b)))
                    args.append(ctypes.c_void_p(a))
                elif t == "res":
                    a = reserve(v)
                    keep.append((a, 0))
                    args.append(ctypes.c_void_p(a))
                elif t == "desc":
                    dd, bb = mkdesc(v, CDesc, False)
                    keep += bb
                    args.append(ctypes.byref(dd))
                elif t == "u32":
                    args.append(ctypes.c_uint32(v))
                else:
                    args.append(ctypes.c_size_t(v))
            ret = q.get("ret", "u32")
            f.restype = {"f32": ctypes.c_float, "usize": ctypes.c_size_t, "u32": ctypes.c_uint32}[ret]
            r = f(*args)
            if ret == "f32":
                r = struct.unpack("<I", struct.pack("<f", r))[0]
            out = {"rc": r, "bufs": [ctypes.string_at(a, n).hex() for a, n in keep], "addrs": [a for a, n in keep]}
        sys.stdout.write(json.dumps(out) + "\n")
        sys.stdout.flush()
        if q["fn"] != "run":
            os._exit(0)


class Native:
    """one child process per library and mode; restarted after a crash"""

    def __init__(self, so, simd=True, timeout=60):
        self.so, self.simd = so, simd
        self.p = None

    def call(self, q):
        if self.p is None:
            env = dict(os.environ, PYTHONPATH=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
            self.p = subprocess.Popen([sys.executable, "-m", "irsym.native", "child", self.so, "1" if self.simd else "0"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)
        try:
            self.p.stdin.write(json.dumps(q) + "\n")
            self.p.stdin.flush()
            l = self.p.stdout.readline()
        except BrokenPipeError:
            l = ""
        if not l:
            rc = self.p.wait()
            self.p = None
            return {"crash": -rc}
        return json.loads(l)

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()
            self.p = None


if __name__ == "__main__":
    child()
