"""Lazy parser for LLVM textual IR (as printed by the llvm-dis of the Rust toolchain)."""
import re, struct
from . import terms as T

TOK = re.compile(
    r'\s*(?:(?P<id>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))|(?P<cstr>c"(?:[^"])*")|(?P<str>"[^"]*")'
    r'|(?P<fx>f0x[0-9A-Fa-f]+)|(?P<hx>0x[KLMHR]?[0-9A-Fa-f]+)|(?P<fl>-?\d+\.\d*(?:e[+-]?\d+)?)|(?P<int>-?\d+)'
    r'|(?P<w>[a-zA-Z_][\w.]*)|(?P<md>![\w.]*)|(?P<attr>#\d+)|(?P<dots>\.\.\.)|(?P<p>[^\s]))'
)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        mm = m(s, pos)
        if not mm:
            break
        pos = mm.end()
        k = mm.lastgroup
        out.append((k, mm.group(k)))
    out.append(("eof", ""))
    return out


PTR = ("ptr",)
VOID = ("void",)
FLOAT = ("float",)
DOUBLE = ("double",)


def ity(n):
    return ("i", n)


REL = {}


class P:
    def __init__(self, mod, s):
        self.mod = mod
        self.t = tokenize(s)
        self.i = 0

    def peek(self):
        return self.t[self.i][1]

    def kind(self):
        return self.t[self.i][0]

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def eat(self, v):
        if self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.eat(v):
            raise SyntaxError(f"expected {v} got {self.t[self.i:self.i+6]} in {' '.join(x[1] for x in self.t)[:400]}")

    def skip_paren(self):
        self.expect("(")
        d = 1
        while d:
            x = self.next()
            if x == "(":
                d += 1
            elif x == ")":
                d -= 1

    def type(self):
        t = self.type0()
        while self.peek() == "(" and t[0] in ("fn?",):
            pass
        return t

    def type0(self):
        k, v = self.t[self.i]
        self.i += 1
        if k == "w":
            if v[0] == "i" and v[1:].isdigit():
                return ("i", int(v[1:]))
            if v == "ptr":
                if self.peek() == "addrspace":
                    self.next()
                    self.skip_paren()
                return PTR
            return (v,)
        if v == "<":
            if self.peek() == "{":
                self.next()
                fs = []
                if not self.eat("}"):
                    while True:
                        fs.append(self.type())
                        if self.eat("}"):
                            break
                        self.expect(",")
                self.expect(">")
                return ("s", tuple(fs), True)
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect(">")
            return ("v", n, e)
        if v == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            return ("a", n, e)
        if v == "{":
            fs = []
            if not self.eat("}"):
                while True:
                    fs.append(self.type())
                    if self.eat("}"):
                        break
                    self.expect(",")
            return ("s", tuple(fs), False)
        if k == "id":
            return self.mod.named_type(v)
        raise SyntaxError(f"type? {v} in {' '.join(x[1] for x in self.t)[:300]}")

    # operand of a given type: register name (str) or constant
    def val(self, ty):
        k, v = self.t[self.i]
        if k == "id":
            self.i += 1
            if v[0] == "%":
                return v
            return self.mod.addr(v)
        return self.const(ty)

    def const(self, ty):
        k, v = self.t[self.i]
        self.i += 1
        if k == "id":
            return self.mod.addr(v)
        if k == "int":
            if ty[0] == "i":
                return int(v) & ((1 << ty[1]) - 1)
            raise SyntaxError("int const of type %r" % (ty,))
        if k == "fl":
            if ty == FLOAT:
                return T.fval(float(v))
            return ("dbl", float(v))
        if k == "fx":
            if ty == FLOAT:
                return T.fc(int(v[3:], 16))
            return ("dbl", struct.unpack("<d", struct.pack("<Q", int(v[3:], 16)))[0])
        if k == "hx":
            d = struct.unpack("<d", struct.pack("<Q", int(v[2:], 16)))[0]
            if ty == FLOAT:
                return T.fval(d)
            return ("dbl", d)
        if k == "cstr":
            return tuple(_cstr(v))
        if v == "true":
            return 1
        if v == "false":
            return 0
        if v == "null":
            return 0
        if v in ("undef", "poison"):
            return undef_of(ty)
        if v == "zeroinitializer":
            return zero_of(ty)
        if v == "splat":
            self.expect("(")
            et = self.type()
            c = self.const(et)
            self.expect(")")
            return (c,) * ty[1]
        if v == "<" or v == "[" or v == "{":
            if v == "<" and self.eat("{"):
                close = "}"
            else:
                close = {"<": ">", "[": "]", "{": "}"}[v]
            out = []
            if not self.eat(close):
                while True:
                    et = self.type()
                    out.append(self.const(et))
                    if self.eat(close):
                        break
                    self.expect(",")
            if v == "<" and close == "}":
                self.expect(">")
            return tuple(out)
        if v in ("getelementptr", "ptrtoint", "inttoptr", "trunc", "sub", "add", "bitcast"):
            while self.kind() == "w" and self.peek() in ("inbounds", "nuw", "nusw", "nsw", "inrange"):
                self.next()
                if self.peek() == "(" and self.t[self.i - 1][1] == "inrange":
                    self.skip_paren()
            self.expect("(")
            if v == "getelementptr":
                bt = self.type()
                self.expect(",")
                pt = self.type()
                p = self.const(pt)
                off = 0
                first = True
                cur = bt
                while self.eat(","):
                    it = self.type()
                    i = self.const(it)
                    i = T.sgn(i, it[1])
                    if first:
                        off += i * sizeof(bt)
                        first = False
                    else:
                        o, cur = field(cur, i)
                        off += o
                self.expect(")")
                return T.add(p, off & T.M64, 64)
            if v in ("sub", "add"):
                t1 = self.type()
                a = self.const(t1)
                self.expect(",")
                t2 = self.type()
                b = self.const(t2)
                self.expect(")")
                return T.sub(a, b, t1[1]) if v == "sub" else T.add(a, b, t1[1])
            t1 = self.type()
            a = self.const(t1)
            self.expect("to")
            t2 = self.type()
            self.expect(")")
            if v == "trunc":
                if t2[1] == 32 and a.__class__ is int and not (a < 1 << 31 or a >= (1 << 64) - (1 << 31)):
                    # relative pointer in a switch table; our address space is sparse, keep the full difference aside
                    k = 0x7FE00000 + len(REL)
                    REL[k] = a
                    return k
                return T.trunc(a, t2[1])
            return a
        if v in ("dso_local_equivalent", "no_cfi"):
            return self.const(ty)
        if v in ("+", "-") and self.kind() == "w" and self.peek() in ("qnan", "inf", "nan"):
            neg = v == "-"
            v = self.next()
            v = v[1] if v.__class__ is tuple else v
            return T.fc((0x7FC00000 if v != "inf" else 0x7F800000) | (0x80000000 if neg else 0))
        raise SyntaxError(f"const? {v!r} of {ty} in {' '.join(x[1] for x in self.t)[:300]}")

    def attrs(self):
        """skip parameter/return attributes"""
        while True:
            k, v = self.t[self.i]
            if k == "w" and v in ATTRS:
                self.i += 1
                if v == "align":
                    if self.peek() == "(":
                        self.skip_paren()
                    else:
                        self.next()
                elif self.peek() == "(":
                    self.skip_paren()
            elif k == "str":
                self.i += 1
                if self.eat("="):
                    self.next()
            else:
                return


ATTRS = set(
    "noundef nonnull noalias nocapture nofree readonly writeonly readnone captures align dereferenceable dereferenceable_or_null range zeroext signext inreg "
    "sret byval byref inalloca returned nest immarg swiftself writable dead_on_unwind dead_on_return initializes nofpclass allocalign allocptr noext allocsize".split()
)


def _cstr(v):
    s = v[2:-1]
    out = []
    i = 0
    while i < len(s):
        c = s[i]
        if c == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
                continue
            out.append(int(s[i + 1 : i + 3], 16))
            i += 3
        else:
            out.append(ord(c))
            i += 1
    return out


_size = {}


def sizeof(t):
    r = _size.get(t)
    if r is None:
        r = _size[t] = _sizeof(t)
    return r


def alignof(t):
    k = t[0]
    if k == "i":
        n = (t[1] + 7) // 8
        p = 1
        while p < n:
            p *= 2
        return min(p, 16)
    if k == "ptr" or k == "double":
        return 8
    if k == "float":
        return 4
    if k == "v":
        return sizeof(t)
    if k == "a":
        return alignof(t[2])
    if k == "s":
        return 1 if t[2] or not t[1] else max(alignof(f) for f in t[1])
    raise NotImplementedError(t)


def _sizeof(t):
    k = t[0]
    if k == "i":
        n = (t[1] + 7) // 8
        p = 1
        while p < n:
            p *= 2
        return p if n > 2 else n
    if k == "ptr" or k == "double":
        return 8
    if k == "float":
        return 4
    if k == "v":
        if t[2] == ("i", 1):
            return (t[1] + 7) // 8
        return t[1] * sizeof(t[2])
    if k == "a":
        return t[1] * sizeof(t[2])
    if k == "s":
        o = 0
        for f in t[1]:
            if not t[2]:
                a = alignof(f)
                o = (o + a - 1) // a * a
            o += sizeof(f)
        if not t[2] and t[1]:
            a = alignof(t)
            o = (o + a - 1) // a * a
        return o
    if k == "void":
        return 0
    raise NotImplementedError(t)


def field(t, i):
    if t[0] in ("a", "v"):
        return i * sizeof(t[2]), t[2]
    o = 0
    for j, f in enumerate(t[1]):
        if not t[2]:
            a = alignof(f)
            o = (o + a - 1) // a * a
        if j == i:
            return o, f
        o += sizeof(f)
    raise IndexError


def undef_of(t):
    if t[0] in ("v", "a"):
        return (undef_of(t[2]),) * t[1]
    if t[0] == "s":
        return tuple(undef_of(f) for f in t[1])
    return T.UNDEF


def zero_of(t):
    if t[0] in ("v", "a"):
        return (zero_of(t[2]),) * t[1]
    if t[0] == "s":
        return tuple(zero_of(f) for f in t[1])
    if t == FLOAT:
        return T.fc(0)
    if t == DOUBLE:
        return ("dbl", 0.0)
    return 0


class Block:
    __slots__ = ("name", "lines", "phis", "ins", "term")

    def __init__(self, name):
        self.name = name
        self.lines = []
        self.ins = None


class Func:
    __slots__ = ("name", "params", "blocks", "entry", "nparams", "body", "mod", "rty", "header", "ipdom", "loops")


SLOT = 46  # each object lives in its own 2^46 slot


class Module:
    def __init__(self, path):
        self.path = path
        text = open(path).read()
        self.text = text
        self.funcs = {}
        self.fpos = {}
        self.gdef = {}
        self.types = {}
        self.decl = set()
        for m in re.finditer(r'^(@(?:"[^"]*"|[-\w$.]+)) = (.*)$', text, re.M):
            self.gdef[m.group(1)] = m.group(2)
        for m in re.finditer(r'^(%(?:"[^"]*"|[-\w$.]+)) = type (.*)$', text, re.M):
            self.types[m.group(1)] = m.group(2)
        for m in re.finditer(r'^define [^@\n]*(@(?:"[^"]*"|[-\w$.]+))\(', text, re.M):
            self.fpos[m.group(1)] = m.start()
        for m in re.finditer(r'^declare [^@\n]*(@(?:"[^"]*"|[-\w$.]+))\(', text, re.M):
            self.decl.add(m.group(1))
        self.addrs = {}
        self.byaddr = {}
        self.nslot = 16
        self.aliases = {}
        for g, d in self.gdef.items():
            if re.match(r"(?:\w+ )*alias ", d):
                mm = re.search(r"(@[-\w$.]+)\s*$", d)
                if mm:
                    self.aliases[g] = mm.group(1)

    def named_type(self, v):
        d = self.types[v]
        return P(self, d).type()

    def addr(self, name):
        name = self.aliases.get(name, name)
        a = self.addrs.get(name)
        if a is None:
            self.nslot += 1
            a = self.nslot << SLOT
            self.addrs[name] = a
            self.byaddr[self.nslot] = name
        return a

    def global_init(self, name):
        """-> (bytes list, align, constant?)"""
        d = self.gdef[name]
        p = P(self, d)
        const = False
        ext = False
        while True:
            v = p.peek()
            if v in ("global", "constant"):
                const = v == "constant"
                p.next()
                break
            if v in ("external", "extern_weak"):
                ext = True
            p.next()
            if p.peek() == "(":
                p.skip_paren()
        ty = p.type()
        n = sizeof(ty)
        if ext:
            return [0] * n, 16, const
        c = p.const(ty)
        out = []
        emit(c, ty, out)
        align = 1
        while p.kind() != "eof":
            if p.next() == "align":
                align = int(p.next())
                break
        return out, align, const

    def func(self, name):
        name = self.aliases.get(name, name)
        f = self.funcs.get(name)
        if f is None:
            f = self.parse_func(name)
            self.funcs[name] = f
        return f

    def parse_func(self, name):
        pos = self.fpos[name]
        end = self.text.index("\n}", pos)
        body = self.text[pos:end]
        nl = body.index("\n")
        f = Func()
        f.name = name
        f.mod = self
        f.header = body[:nl]
        p = P(self, body[:nl])
        p.expect("define")
        while True:
            k, v = p.t[p.i]
            if k == "w" and (v in LINK or v in ATTRS):
                p.i += 1
                if v == "align":
                    p.next()
                elif p.peek() == "(":
                    p.skip_paren()
            else:
                break
        f.rty = p.type()
        p.next()  # name
        p.expect("(")
        f.params = []
        if not p.eat(")"):
            while True:
                if p.peek() == "...":
                    p.next()
                else:
                    t = p.type()
                    p.attrs()
                    if p.kind() == "id":
                        f.params.append((p.next(), t))
                    else:
                        f.params.append(("%" + str(len(f.params)), t))
                if p.eat(")"):
                    break
                p.expect(",")
        f.blocks = {}
        cur = None
        np_ = sum(1 for n_, _ in f.params)
        first = True
        acc = None
        for line in body[nl + 1 :].split("\n"):
            if not line or line[0] == ";":
                continue
            if line[0] != " ":
                m = re.match(r'("[^"]*"|[-\w$.]+):', line)
                if m:
                    nm = "%" + m.group(1)
                    cur = Block(nm)
                    f.blocks[nm] = cur
                    if first:
                        f.entry = nm
                        first = False
                continue
            if first:
                nm = "%" + str(np_)
                cur = Block(nm)
                f.blocks[nm] = cur
                f.entry = nm
                first = False
            if line.startswith("    ") or line.startswith("  ]") or line.startswith("          "):
                cur.lines[-1] += " " + line.strip()
            else:
                cur.lines.append(line.strip())
        f.ipdom = None
        f.loops = None
        return f


LINK = set(
    "private internal available_externally linkonce weak common appending extern_weak linkonce_odr weak_odr external dso_local dso_preemptable default hidden protected "
    "fastcc coldcc ccc tailcc unnamed_addr local_unnamed_addr noundef".split()
)


def emit(c, ty, out):
    k = ty[0]
    if k == "s":
        start = len(out)
        for i, f in enumerate(ty[1]):
            o, _ = field(ty, i)
            while len(out) < start + o:
                out.append(0)
            emit(c[i], f, out)
        while len(out) < start + sizeof(ty):
            out.append(0)
        return
    if k in ("a", "v"):
        if ty[2] == ("i", 8) and c and isinstance(c[0], int):
            out.extend(c)
            return
        for x in c:
            emit(x, ty[2], out)
        return
    if k == "float":
        out.extend(c.args[0].to_bytes(4, "little") if c is not T.UNDEF else [None] * 4)
        return
    if k == "double":
        out.extend(struct.pack("<d", c[1]))
        return
    n = sizeof(ty)
    if c is T.UNDEF:
        out.extend([None] * n)
    elif isinstance(c, T.Term):
        out.extend(T.tobytes(c, 8 * n))
    else:
        out.extend((c & ((1 << (8 * n)) - 1)).to_bytes(n, "little"))
