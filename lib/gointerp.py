"""Symbolic execution of Go packages in SSA form (dumped by tools/gossa from go/ssa).

Words are python ints (unsigned reading) or z3 bit-vectors, floats are the words of their bits, strings are tuples of bytes,
structs and arrays are SV (a list of fields), pointers are (container, index), slices share their store.  The standard
library calls a generated package makes are modelled below as documented by the Go project.
"""
import z3

import symcore
from symcore import (Unsupported, bv, concat_le, conj, eq, extract, is_sym, mask, neg, norm, norm_b, sext, split_le, sx, zext)

INTS = {"int": (64, True), "int8": (8, True), "int16": (16, True), "int32": (32, True), "int64": (64, True), "rune": (32, True),
        "uint": (64, False), "uint8": (8, False), "byte": (8, False), "uint16": (16, False), "uint32": (32, False),
        "uint64": (64, False), "uintptr": (64, False)}
FLOATS = {"float32": 32, "float64": 64}
MAX_STEPS = 3_000_000
MAX_ALLOC = 1 << 20


class GoPanic(Exception):
    """a Go panic; v is the panic value"""
    def __init__(self, msg, v=None):
        super().__init__(msg)
        self.v = v


class SV:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class Ptr:
    __slots__ = ("c", "i")

    def __init__(self, c, i):
        self.c, self.i = c, i


class Slice:
    __slots__ = ("s", "off", "n", "cap")

    def __init__(self, s, off, n, cap):
        self.s, self.off, self.n, self.cap = s, off, n, cap

    def items(self):
        return self.s[self.off:self.off + self.n]


class Iface:
    __slots__ = ("t", "v")

    def __init__(self, t, v):
        self.t, self.v = t, v


class Closure:
    __slots__ = ("fn", "bind")

    def __init__(self, fn, bind=()):
        self.fn, self.bind = fn, list(bind)


class GoErr:
    """an error value of the standard library (identity matters)"""
    methods = {"Error"}

    def __init__(self, text, wraps=()):
        self.text, self.wraps = text, list(wraps)


EOF = GoErr("EOF")
UNEXPECTED_EOF = GoErr("unexpected EOF")
ERRS = {"io.EOF": EOF, "io.ErrUnexpectedEOF": UNEXPECTED_EOF, "io.ErrShortWrite": GoErr("short write"),
        "io.ErrNoProgress": GoErr("no progress")}


def host_err(e):
    return None if e is None else Iface("host:error", e)


class Reader:
    """bytes.Reader (seekable) or, with step, a plain io.Reader handing out at most step bytes per call"""
    def __init__(self, data, step=None):
        self.d, self.pos, self.step = list(data), 0, step
        self.methods = {"Read"} if step else {"Read", "Seek", "Len", "Size", "ReadByte", "UnreadByte", "ReadAt", "WriteTo", "Reset", "ReadRune",
                                               "UnreadRune"}

    def take(self, n):
        """Read(p) with len(p)==n -> (bytes, err)"""
        if self.pos >= len(self.d):
            return ([], None) if n == 0 and self.step else ([], EOF)
        k = min(n, len(self.d) - self.pos, self.step or n)
        out = self.d[self.pos:self.pos + k]
        self.pos += k
        return out, None


class Limited:
    """io.LimitReader"""
    methods = {"Read"}
    step = 1

    def __init__(self, vm, r, n):
        self.vm, self.r, self.n = vm, r, n

    def take(self, n):
        ctx = self.vm.ctx
        if is_sym(self.n):
            if ctx.branch(self.n <= 0):
                return [], EOF
            inner = self.r.v if self.r is not None and isinstance(self.r.t, str) else None
            avail = min(n, len(inner.d) - inner.pos) if isinstance(inner, Reader) else n
            if not ctx.branch(self.n >= avail):
                n = min(n, ctx.value(self.n))
        else:
            if sx(self.n, 64) <= 0:
                return [], EOF
            n = min(n, sx(self.n, 64))
        out, err = self.vm.read_call(self.r, n)
        self.n = norm(bv(self.n, 64) - len(out)) if is_sym(self.n) else (self.n - len(out)) & mask(64)
        return out, err.v if err is not None else None


class Writer:
    def __init__(self):
        self.d = []
        self.pos = 0
        self.methods = {"Write", "WriteString", "WriteByte", "Read", "Len", "Bytes", "String", "Grow", "Cap", "Next", "Reset",
                        "Truncate", "ReadByte", "ReadFrom", "WriteTo", "ReadBytes", "ReadString", "Available"}
        self.step = None

    def take(self, n):
        if self.pos >= len(self.d):
            return ([], None) if n == 0 else ([], EOF)
        out = self.d[self.pos:self.pos + n]
        self.pos += len(out)
        return out, None


class Order:
    """binary.LittleEndian / BigEndian"""
    def __init__(self, little):
        self.little = little
        self.methods = {"Uint16", "Uint32", "Uint64", "PutUint16", "PutUint32", "PutUint64", "String", "AppendUint16",
                        "AppendUint32", "AppendUint64"}


LE, BE = Order(True), Order(False)


def copyval(v):
    if isinstance(v, SV):
        return SV([copyval(x) for x in v.f])
    return v


class Frame:
    __slots__ = ("fn", "r", "defers", "panic", "recovered")

    def __init__(self, fn, r):
        self.fn, self.r, self.defers, self.panic, self.recovered = fn, r, [], None, False


class Interp:
    def __init__(self, prog, ctx, fns):
        self.prog, self.ctx, self.fns = prog, ctx, fns
        self.types, self.funcs = prog["types"], prog["funcs"]
        self.steps = 0
        self.depth = 0
        self.globals = {}
        for n, t in prog["globals"].items():
            self.globals[n] = [self.zero(self.types[t]["elem"])]
        self.frames = []
        init = prog["pkg"] + ".init"
        if init in self.funcs:
            self.call(init, [])

    # -- types ------------------------------------------------------------
    def under(self, t):
        d = self.types[t]
        while d["kind"] == "named":
            d = self.types[d["under"]]
        return d

    def zero(self, t):
        d = self.under(t)
        k = d["kind"]
        if k == "basic":
            n = d["name"]
            if n in INTS or n in FLOATS:
                return 0
            if n == "bool":
                return False
            if n == "string":
                return ()
            return None
        if k == "struct":
            return SV([self.zero(f["type"]) for f in d["fields"]])
        if k == "array":
            return SV([self.zero(d["elem"]) for _ in range(d["len"])])
        if k == "slice":
            return Slice(None, 0, 0, 0)
        if k == "tuple":
            return [self.zero(e) for e in d["elems"]]
        return None

    def intinfo(self, t):
        """(width, signed) or None"""
        d = self.under(t)
        return INTS.get(d["name"]) if d["kind"] == "basic" else None

    def isfloat(self, t):
        d = self.under(t)
        return FLOATS.get(d["name"]) if d["kind"] == "basic" else None

    def isstring(self, t):
        d = self.under(t)
        return d["kind"] == "basic" and d["name"] in ("string", "untyped string")

    def typeid(self, key):
        for i, d in enumerate(self.types):
            if d["str"] == key:
                return i
        return None

    # -- operands ---------------------------------------------------------
    def val(self, fr, o):
        k = o["k"]
        if k == "reg":
            return fr.r[o["name"]]
        if k == "const":
            return self.const(o)
        if k == "global":
            n = o["name"]
            if n in self.globals:
                return Ptr(self.globals[n], 0)
            if n in ERRS:
                return Ptr([host_err(ERRS[n])], 0)
            if n == "encoding/binary.LittleEndian":
                return Ptr([LE], 0)
            if n == "encoding/binary.BigEndian":
                return Ptr([BE], 0)
            raise Unsupported("global " + n)
        if k == "func":
            return Closure(o["name"])
        if k == "builtin":
            return Closure("builtin:" + o["name"])
        raise Unsupported("operand " + k)

    def const(self, o):
        t = o["type"]
        if "i" in o:
            w = self.intinfo(t)
            if w:
                return int(o["i"]) & mask(w[0])
            fw = self.isfloat(t)
            if fw:
                return self.fconst(float(int(o["i"])), fw)
            return int(o["i"]) & mask(64)
        if "f" in o:
            return self.fconst(o["f"], self.isfloat(t) or 64)
        if "s" in o:
            import base64
            return tuple(base64.b64decode(o["s"]))
        if o.get("v") is None:
            return self.zero(t)
        return o["v"]

    @staticmethod
    def fconst(f, w):
        import struct
        return int.from_bytes(struct.pack("<f" if w == 32 else "<d", f), "little")

    # -- running ----------------------------------------------------------
    def call(self, name, args, bind=()):
        if name not in self.funcs:
            return self.lib(name, args)
        f = self.funcs[name]
        self.fns.add(name)
        self.depth += 1
        if self.depth > 220:
            raise GoPanic("stack overflow")
        r = {}
        for p, a in zip(f["params"], args):
            r[p["name"]] = a
        for n, b in zip(f["free"], bind):
            r[n] = b
        fr = Frame(f, r)
        self.frames.append(fr)
        try:
            try:
                return self.run(fr, 0, -1)
            except GoPanic as e:
                fr.panic = e
                self.run_defers(fr)
                if fr.panic is not None:
                    raise fr.panic
                if f["recover"] >= 0:
                    return self.run(fr, f["recover"], -1)
                z = [self.zero(t) for t in f["results"]]
                return z[0] if len(z) == 1 else z
        finally:
            self.frames.pop()
            self.depth -= 1

    def run_defers(self, fr):
        while fr.defers:
            fn, args = fr.defers.pop()
            try:
                self.call_value(fn, args)
            except GoPanic as e:
                fr.panic = e

    def run(self, fr, b, prev):
        blocks = fr.fn["blocks"]
        r = fr.r
        while True:
            blk = blocks[b]
            ins = blk["i"]
            n = 0
            if ins and ins[0]["op"] == "Phi":
                pi = blk["preds"].index(prev)
                new = []
                while ins[n]["op"] == "Phi":
                    new.append((ins[n]["name"], self.val(fr, ins[n]["edges"][pi])))
                    n += 1
                r.update(new)
            nxt = None
            for i in ins[n:]:
                self.steps += 1
                op = i["op"]
                if op == "Jump":
                    nxt = blk["succs"][0]
                elif op == "If":
                    c = self.val(fr, i["x"])
                    if isinstance(c, bool):
                        nxt = blk["succs"][0 if c else 1]
                    else:
                        b, nxt = self.fork(fr, b, c)
                elif op == "Return":
                    xs = [self.val(fr, x) for x in i["xs"]]
                    return xs[0] if len(xs) == 1 else xs
                elif op == "Panic":
                    v = self.val(fr, i["x"])
                    raise GoPanic("panic: " + self.show(v), v)
                else:
                    v = self.instr(fr, i, op)
                    if "name" in i:
                        r[i["name"]] = v
            if self.steps > MAX_STEPS:
                raise GoPanic("does not finish within the step bound")
            prev, b = b, nxt

    PURE = {"BinOp", "UnOp", "Convert", "ChangeType", "FieldAddr", "Field", "Extract", "If", "Jump"}

    def pure(self, fn, k):
        """may block k be evaluated before knowing whether it is reached"""
        blk = fn["blocks"][k]
        if "pure" not in blk:
            blk["pure"] = all(i["op"] in self.PURE and not (i["op"] == "BinOp" and i["o"] in ("/", "%", "<<", ">>")) for i in blk["i"])
        return blk["pure"]

    def fork(self, fr, b, cond):
        """decide a symbolic condition: follow chains of side-effect-free blocks (switch cases, || and &&) and fork only on
        the block they end in -> (block come from, block to go to)"""
        exits = []              # (target, from, condition)
        blocks = fr.fn["blocks"]
        count = [0]

        def walk(k, frm, pc):
            count[0] += 1
            if count[0] > 3000 or not self.pure(fr.fn, k):
                exits.append((k, frm, pc))
                return
            self.ctx.spec = True
            try:
                nxt = None
                for i in blocks[k]["i"]:
                    if i["op"] == "Jump":
                        nxt = [(blocks[k]["succs"][0], pc)]
                    elif i["op"] == "If":
                        c = self.val(fr, i["x"])
                        if isinstance(c, bool):
                            nxt = [(blocks[k]["succs"][0 if c else 1], pc)]
                        else:
                            nxt = [(blocks[k]["succs"][0], pc + [c]), (blocks[k]["succs"][1], pc + [neg(c)])]
                    else:
                        fr.r[i["name"]] = self.instr(fr, i, i["op"])
            except (GoPanic, symcore.Speculative):
                exits.append((k, frm, pc))
                return
            finally:
                self.ctx.spec = False
            for t, p in nxt:
                walk(t, k, p)
        s = blocks[b]["succs"]
        walk(s[0], b, [cond])
        walk(s[1], b, [neg(cond)])
        groups = {}
        for t, frm, pc in exits:
            key = t
            if blocks[t]["i"] and blocks[t]["i"][0]["op"] == "Phi":
                # one group per set of incoming values
                pi = blocks[t]["preds"].index(frm)
                key = (t,) + tuple(self.phikey(fr, i["edges"][pi]) for i in blocks[t]["i"] if i["op"] == "Phi")
            groups.setdefault(key, []).append((t, frm, pc))
        gs = sorted(groups.values(), key=len)
        for n, g in enumerate(gs):
            c = symcore.disj([conj(pc) for _, _, pc in g])
            if n == len(gs) - 1 or self.ctx.branch(norm_b(c)):
                return g[0][1], g[0][0]

    def phikey(self, fr, o):
        if o["k"] == "const":
            v = self.const(o)
            return ("c", v) if isinstance(v, (int, bool, tuple)) or v is None else ("o", o.get("type"), str(o))
        v = self.val(fr, o)
        return ("c", v) if isinstance(v, (int, bool)) else ("i", id(v))

    def show(self, v):
        if isinstance(v, Iface):
            if isinstance(v.v, GoErr):
                return v.v.text
            if isinstance(v.v, tuple):
                return bytes(x if isinstance(x, int) else 63 for x in v.v).decode("utf-8", "replace")
        return "value"

    def load(self, p):
        if p is None:
            raise GoPanic("nil pointer dereference")
        return copyval(p.c[p.i])

    def index(self, idx, n, t):
        """a concrete in-range index, or a panic"""
        w, s = self.intinfo(t)
        if isinstance(idx, int):
            k = sx(idx, w) if s else idx
            if not 0 <= k < n:
                raise GoPanic(f"index out of range [{k}] with length {n}")
            return k
        ok = z3.ULT(idx, z3.BitVecVal(n, w)) if n <= mask(w) else z3.BoolVal(True)
        if s:
            ok = z3.And(idx >= 0, ok)
        if not self.ctx.branch(norm_b(ok)):
            raise GoPanic(f"index out of range with length {n}")
        return self.ctx.value(idx)

    def length(self, v, t, what):
        w, s = self.intinfo(t)
        if is_sym(v):
            big = z3.UGT(bv(zext(v, w, 64) if not s else sext(v, w, 64), 64), MAX_ALLOC)
            if self.ctx.branch(norm_b(big)):
                raise GoPanic(f"{what}: length from the data is not bounded")
            v = self.ctx.value(v)
        k = sx(v, w) if s else v
        if k < 0:
            raise GoPanic(f"{what}: len out of range")
        if k > MAX_ALLOC * 64:
            raise GoPanic(f"{what}: allocates {k} elements")
        return k

    def instr(self, fr, i, op):
        V = lambda k: self.val(fr, i[k])
        if op == "Alloc":
            return Ptr([self.zero(self.types[i["type"]]["elem"])], 0)
        if op == "Store":
            p = V("addr")
            if p is None:
                raise GoPanic("nil pointer dereference")
            v = copyval(V("v"))
            old = p.c[p.i]
            if isinstance(old, SV) and isinstance(v, SV) and len(old.f) == len(v.f):
                self.assign(old, v)
            else:
                p.c[p.i] = v
            return None
        if op == "UnOp":
            return self.unop(fr, i, V("x"))
        if op == "BinOp":
            return self.binop(i["o"], V("x"), V("y"), i["xt"], i["yt"])
        if op == "Call":
            return self.docall(fr, i["call"], i.get("type"))
        if op == "FieldAddr":
            p = V("x")
            if p is None:
                raise GoPanic("nil pointer dereference")
            return Ptr(p.c[p.i].f, i["i"])
        if op == "Field":
            return copyval(V("x").f[i["i"]])
        if op == "IndexAddr":
            x, y = V("x"), V("y")
            if isinstance(x, Slice):
                k = self.index(y, x.n, i["yt"])
                return Ptr(x.s, x.off + k)
            if x is None:
                raise GoPanic("nil pointer dereference")
            a = x.c[x.i]
            return Ptr(a.f, self.index(y, len(a.f), i["yt"]))
        if op == "Index":
            x, y = V("x"), V("y")
            if isinstance(x, tuple):
                return x[self.index(y, len(x), i["yt"])]
            return copyval(x.f[self.index(y, len(x.f), i["yt"])])
        if op == "Extract":
            return V("x")[i["i"]]
        if op == "MakeInterface":
            v = V("x")
            if isinstance(v, Ptr) and self.types[i["xt"]]["str"] in ("*bytes.Buffer", "*strings.Builder"):
                v = self.hosted(v)
            if isinstance(v, (Reader, Writer, Limited, Order, GoErr)):
                return Iface("host:" + type(v).__name__, v)
            return Iface(i["xt"], copyval(v))
        if op in ("ChangeInterface", "ChangeType"):
            return V("x")
        if op in ("Convert", "MultiConvert"):
            return self.convert(V("x"), i["xt"], i["type"])
        if op == "MakeSlice":
            n = self.length(V("len"), i["lt"], "make")
            c = max(n, self.length(V("cap"), i["lt"], "make"))
            et = self.under(i["type"])["elem"]
            self.steps += c
            z = self.zero(et)
            return Slice([copyval(z) for _ in range(c)] if isinstance(z, SV) else [z] * c, 0, n, c)
        if op == "Slice":
            return self.slice(fr, i)
        if op == "TypeAssert":
            return self.assert_type(V("x"), i["at"], i["commaok"])
        if op == "MakeClosure":
            return Closure(i["fn"]["name"], [self.val(fr, b) for b in i["bind"]])
        if op == "MakeMap":
            return []
        if op == "MapUpdate":
            m, k, v = V("m"), V("key"), V("v")
            if m is None:
                raise GoPanic("assignment to entry in nil map")
            for e in m:
                if self.ctx.branch(self.equal(e[0], k)):
                    e[1] = copyval(v)
                    return None
            m.append([k, copyval(v)])
            return None
        if op == "Lookup":
            x, y = V("x"), V("y")
            if isinstance(x, tuple):
                return x[self.index(y, len(x), i["yt"])]
            et = self.under(i["xt"])["elem"]
            for e in x or []:
                if self.ctx.branch(self.equal(e[0], y)):
                    return [copyval(e[1]), True] if i["commaok"] else copyval(e[1])
            return [self.zero(et), False] if i["commaok"] else self.zero(et)
        if op == "Range":
            x = V("x")
            if isinstance(x, tuple):
                raise Unsupported("range over a string")
            return [list(x or []), 0]
        if op == "Next":
            it = V("x")
            if it[1] >= len(it[0]):
                return [False, None, None]
            it[1] += 1
            return [True, it[0][it[1] - 1][0], it[0][it[1] - 1][1]]
        if op == "Defer":
            c = i["call"]
            fn, args = self.target(fr, c)
            fr.defers.append((fn, args))
            return None
        if op == "RunDefers":
            self.run_defers(fr)
            return None
        raise Unsupported("instruction " + op)

    def assign(self, old, new):
        for k, v in enumerate(new.f):
            if isinstance(v, SV) and isinstance(old.f[k], SV) and len(v.f) == len(old.f[k].f):
                self.assign(old.f[k], v)
            else:
                old.f[k] = v

    def unop(self, fr, i, x):
        o = i["o"]
        if o == "*":
            return self.load(x)
        if o == "!":
            return neg(x)
        wi = self.intinfo(i["xt"])
        if o == "-" and wi:
            return (-x) & mask(wi[0]) if isinstance(x, int) else norm(-x)
        if o == "^" and wi:
            return (~x) & mask(wi[0]) if isinstance(x, int) else norm(~x)
        fw = self.isfloat(i["xt"])
        if o == "-" and fw:
            return norm(bv(x, fw) ^ (1 << (fw - 1)))
        raise Unsupported("unary " + o)

    # -- comparison and arithmetic ------------------------------------------
    def equal(self, a, b):
        if a is None or b is None:
            if isinstance(a, Slice) or isinstance(b, Slice):
                s = a if isinstance(a, Slice) else b
                return s.s is None
            return a is None and b is None
        if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            tb = lambda q: z3.BoolVal(q) if isinstance(q, bool) else q
            return norm_b(tb(a) == tb(b))
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if is_sym(a) or is_sym(b):
            w = a.size() if is_sym(a) else b.size()
            return eq(a, b, w)
        if isinstance(a, tuple):
            return conj([eq(x, y, 8) for x, y in zip(a, b)]) if len(a) == len(b) else False
        if isinstance(a, SV):
            return conj([self.equal(x, y) for x, y in zip(a.f, b.f)])
        if isinstance(a, Iface):
            if not isinstance(b, Iface):
                return False
            if a.t != b.t:
                return False
            return self.equal(a.v, b.v)
        if isinstance(a, Ptr):
            return isinstance(b, Ptr) and a.c is b.c and a.i == b.i
        if isinstance(a, Slice):
            if a.s is None or b.s is None:
                return a.s is None and b.s is None
            raise Unsupported("slice comparison")
        return a is b

    def binop(self, o, x, y, xt, yt):
        if o == "==":
            fw = self.isfloat(xt)
            return self.fcmp(o, x, y, fw) if fw else self.equal(x, y)
        if o == "!=":
            fw = self.isfloat(xt)
            return neg(self.fcmp("==", x, y, fw)) if fw else norm_b(neg(self.equal(x, y)))
        if isinstance(x, tuple):
            if o == "+":
                return x + y
            raise Unsupported("string " + o)
        fw = self.isfloat(xt)
        if fw:
            if o in ("<", "<=", ">", ">="):
                return self.fcmp(o, x, y, fw)
            raise Unsupported("floating point " + o)
        wi = self.intinfo(xt)
        if not wi:
            raise Unsupported(f"operator {o} on {self.types[xt]['str']}")
        w, s = wi
        if o in ("<", "<=", ">", ">="):
            if isinstance(x, int) and isinstance(y, int):
                a, b = (sx(x, w), sx(y, w)) if s else (x, y)
                return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o]
            a, b = bv(x, w), bv(y, w)
            f = {"<": (z3.ULT, lambda p, q: p < q), "<=": (z3.ULE, lambda p, q: p <= q), ">": (z3.UGT, lambda p, q: p > q),
                 ">=": (z3.UGE, lambda p, q: p >= q)}[o][1 if s else 0]
            return norm_b(f(a, b))
        if o in ("<<", ">>"):
            yw, ys = self.intinfo(yt)
            if isinstance(y, int):
                k = sx(y, yw) if ys else y
                if k < 0:
                    raise GoPanic("negative shift amount")
                if o == "<<":
                    return 0 if k >= w else ((x << k) & mask(w) if isinstance(x, int) else norm(x << k))
                if s:
                    k = min(k, w - 1)
                    return (sx(x, w) >> k) & mask(w) if isinstance(x, int) else norm(x >> k)
                return 0 if k >= w else (x >> k if isinstance(x, int) else norm(z3.LShR(x, k)))
            raise Unsupported("symbolic shift amount")
        if isinstance(x, int) and isinstance(y, int):
            if o == "+": return (x + y) & mask(w)
            if o == "-": return (x - y) & mask(w)
            if o == "*": return (x * y) & mask(w)
            if o == "&": return x & y
            if o == "|": return x | y
            if o == "^": return x ^ y
            if o == "&^": return x & ~y & mask(w)
            if o in ("/", "%"):
                a, b = (sx(x, w), sx(y, w)) if s else (x, y)
                if b == 0:
                    raise GoPanic("integer divide by zero")
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return (q if o == "/" else a - q * b) & mask(w)
        a, b = bv(x, w), bv(y, w)
        if o == "+": return norm(a + b)
        if o == "-": return norm(a - b)
        if o == "*": return norm(a * b)
        if o == "&": return norm(a & b)
        if o == "|": return norm(a | b)
        if o == "^": return norm(a ^ b)
        if o == "&^": return norm(a & ~b)
        if o in ("/", "%"):
            if self.ctx.branch(norm_b(b == 0)):
                raise GoPanic("integer divide by zero")
            if o == "/":
                return norm(a / b if s else z3.UDiv(a, b))
            return norm(z3.SRem(a, b) if s else z3.URem(a, b))
        raise Unsupported("operator " + o)

    def fcmp(self, o, x, y, w):
        srt = z3.Float32() if w == 32 else z3.Float64()
        a, b = z3.fpBVToFP(bv(x, w), srt), z3.fpBVToFP(bv(y, w), srt)
        return norm_b({"==": z3.fpEQ, "<": z3.fpLT, "<=": z3.fpLEQ, ">": z3.fpGT, ">=": z3.fpGEQ}[o](a, b))

    def convert(self, x, ft, tt):
        fi, ti = self.intinfo(ft), self.intinfo(tt)
        if fi and ti:
            return (sext if fi[1] else zext)(x, fi[0], ti[0])
        fd, td = self.under(ft), self.under(tt)
        if td["kind"] == "slice" and isinstance(x, tuple):
            et = self.intinfo(td["elem"])
            if et and et[0] == 8:
                return Slice(list(x), 0, len(x), len(x))
        if self.isstring(tt):
            if isinstance(x, Slice):
                return tuple(x.items()) if x.s is not None else ()
            if isinstance(x, tuple):
                return x
            if isinstance(x, int) and fi:
                k = sx(x, fi[0]) if fi[1] else x
                return tuple((chr(k) if 0 <= k < 0x110000 and not 0xd800 <= k < 0xe000 else "\ufffd").encode())
        ff, tf = self.isfloat(ft), self.isfloat(tt)
        if ff and tf:
            if ff == tf:
                return x
            s1 = z3.Float32() if ff == 32 else z3.Float64()
            s2 = z3.Float32() if tf == 32 else z3.Float64()
            e, m = (8, 23) if ff == 32 else (11, 52)
            xx = bv(x, ff)
            nan = z3.And(z3.Extract(m + e - 1, m, xx) == (1 << e) - 1, z3.Extract(m - 1, 0, xx) != 0)
            if self.ctx.branch(norm_b(nan)):
                raise Unsupported("NaN through a float conversion")
            return norm(z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), z3.fpBVToFP(xx, s1), s2)))
        if fi and tf:
            s2 = z3.Float32() if tf == 32 else z3.Float64()
            return norm(z3.simplify(z3.fpToIEEEBV((z3.fpSignedToFP if fi[1] else z3.fpUnsignedToFP)(z3.RNE(), bv(x, fi[0]), s2))))
        if fd["kind"] == td["kind"]:
            return x
        raise Unsupported(f"conversion {self.types[ft]['str']} to {self.types[tt]['str']}")

    def slice(self, fr, i):
        x = self.val(fr, i["x"])
        num = lambda o, d: d if o is None else self.cint(self.val(fr, o))
        if isinstance(x, tuple):
            lo = num(i["lo"], 0)
            hi = num(i["hi"], len(x))
            if not 0 <= lo <= hi <= len(x):
                raise GoPanic("slice bounds out of range")
            return x[lo:hi]
        if isinstance(x, Ptr):
            a = x.c[x.i]
            x = Slice(a.f, 0, len(a.f), len(a.f))
        elif x is None:
            x = Slice(None, 0, 0, 0)
        lo = num(i["lo"], 0)
        hi = num(i["hi"], x.n)
        mx = num(i["max"], x.cap)
        if not 0 <= lo <= hi <= mx <= x.cap:
            raise GoPanic("slice bounds out of range")
        return Slice(x.s, x.off + lo, hi - lo, mx - lo)

    def cint(self, v):
        """a concrete signed 64-bit reading of an int"""
        if is_sym(v):
            v = self.ctx.value(sext(v, v.size(), 64))
        return sx(v, 64) if v >= 0 else v

    def methods_of(self, v):
        if v.t.__class__ is str:
            return v.v.methods
        return self.prog["methods"].get(self.types[v.t]["str"], {})

    def assert_type(self, x, t, commaok):
        d = self.under(t)
        ok = False
        res = None
        if isinstance(x, Iface):
            if d["kind"] == "iface":
                ok = all(m in self.methods_of(x) for m in d["methods"])
                res = x
            elif isinstance(x.t, str):
                key = self.types[t]["str"]
                ok = (key in ("*bytes.Reader", "*strings.Reader") and isinstance(x.v, Reader) and not x.v.step) or (key == "*bytes.Buffer" and isinstance(x.v, Writer))
                res = x.v
            else:
                ok = self.types[x.t]["str"] == self.types[t]["str"]
                res = copyval(x.v)
        if ok:
            return [res, True] if commaok else res
        if commaok:
            return [self.zero(t), False]
        raise GoPanic("interface conversion")

    # -- calls --------------------------------------------------------------
    def target(self, fr, c):
        args = [copyval(self.val(fr, a)) for a in c["args"]]
        if c["mode"] == "invoke":
            recv = self.val(fr, c["recv"])
            if recv is None:
                raise GoPanic("nil pointer dereference (method on nil interface)")
            return (recv, c["method"]), args
        return self.val(fr, c["fn"]), args

    def docall(self, fr, c, t=None):
        fn, args = self.target(fr, c)
        if isinstance(fn, Closure) and fn.fn.startswith("builtin:"):
            return self.builtin(fn.fn[8:], args, t)
        return self.call_value(fn, args)

    def call_value(self, fn, args):
        if isinstance(fn, tuple):
            recv, m = fn
            if isinstance(recv.t, str):
                return self.host(recv.v, m, args)
            name = self.methods_of(recv).get(m)
            if name is None:
                raise Unsupported(f"method {m} of {self.types[recv.t]['str']}")
            return self.call(name, [recv.v] + args)
        if fn is None:
            raise GoPanic("call of nil function")
        if fn.fn.startswith("builtin:"):
            return self.builtin(fn.fn[8:], args)
        return self.call(fn.fn, args, fn.bind)

    def builtin(self, n, a, t=None):
        if n in ("len", "cap"):
            x = a[0]
            if isinstance(x, Slice):
                return x.n if n == "len" else x.cap
            if isinstance(x, (tuple, list)):
                return len(x)
            if isinstance(x, SV):
                return len(x.f)
            if isinstance(x, Ptr):
                return len(x.c[x.i].f)
            return 0
        if n == "append":
            x, y = a[0], a[1]
            items = list(y) if isinstance(y, tuple) else [copyval(e) for e in y.items()] if y is not None and y.s is not None else []
            if x is None or x.s is None:
                x = Slice([], 0, 0, 0) if items else Slice(None, 0, 0, 0)
            if not items:
                return x
            if x.n + len(items) <= x.cap:
                x.s[x.off + x.n:x.off + x.n + len(items)] = items
                return Slice(x.s, x.off, x.n + len(items), x.cap)
            n2 = x.n + len(items)
            cap = max(n2, 2 * x.cap)
            return Slice(x.items() + items + [None] * (cap - n2), 0, n2, cap)
        if n == "copy":
            d, s = a
            src = list(s) if isinstance(s, tuple) else s.items() if s.s is not None else []
            k = min(d.n, len(src))
            if k:
                d.s[d.off:d.off + k] = [copyval(e) for e in src[:k]]
            return k
        if n == "ssa:wrapnilchk":
            if a[0] is None:
                raise GoPanic("value method called through nil pointer")
            return a[0]
        if n == "recover":
            for fr in reversed(self.frames[:-1]):
                if fr.panic is not None:
                    v = fr.panic.v
                    if v is None:
                        v = Iface("host:GoErr", GoErr(str(fr.panic)))
                    fr.panic = None
                    return v
                break
            return None
        if n in ("min", "max"):
            r = a[0]
            for y in a[1:]:
                r = y if self.ctx.branch(self.binop("<", y, r, t, t) if n == "min" else self.binop("<", r, y, t, t)) else r
            return r
        if n in ("print", "println"):
            return None
        if n == "clear":
            x = a[0]
            if isinstance(x, list):
                del x[:]
                return None
        raise Unsupported("builtin " + n)

    # -- standard library ------------------------------------------------------
    def read_call(self, r, n):
        """one Read of n bytes from an io.Reader interface -> (bytes, err iface)"""
        if r is None:
            raise GoPanic("nil pointer dereference (nil reader)")
        if isinstance(r.t, str):
            out, e = r.v.take(n)
            return out, host_err(e)
        buf = Slice([0] * n, 0, n, n)
        k, e = self.call_value((r, "Read"), [buf])
        return buf.s[:self.cint(k)], e

    def read_full(self, r, n):
        got = []
        err = None
        spin = 0
        while len(got) < n and err is None:
            out, err = self.read_call(r, n - len(got))
            got += out
            spin += 1
            if spin > 1_000_000:
                raise GoPanic("does not finish")
        if len(got) >= n:
            return got, None
        if got and err is not None and err.v is EOF:
            err = host_err(UNEXPECTED_EOF)
        return got, err

    def write_call(self, w, data):
        if w is None:
            raise GoPanic("nil pointer dereference (nil writer)")
        if isinstance(w.t, str):
            w.v.d += data
            return [len(data), None]
        return self.call_value((w, "Write"), [Slice(list(data), 0, len(data), len(data))])

    def size_of(self, t, v=None):
        """binary's fixed size of a type, None when it has none"""
        d = self.under(t)
        k = d["kind"]
        if k == "basic":
            n = d["name"]
            if n == "bool":
                return 1
            if n in ("int", "uint", "uintptr", "string"):
                return None
            if n in INTS:
                return INTS[n][0] // 8
            if n in FLOATS:
                return FLOATS[n] // 8
            return None
        if k == "array":
            s = self.size_of(d["elem"])
            return None if s is None else s * d["len"]
        if k == "struct":
            s = 0
            for f in d["fields"]:
                e = self.size_of(f["type"])
                if e is None:
                    return None
                s += e
            return s
        return None

    def data_size(self, t, v):
        d = self.under(t)
        if d["kind"] == "slice":
            s = self.size_of(d["elem"])
            return None if s is None else s * v.n
        return self.size_of(t)

    def encode(self, t, v, little):
        d = self.under(t)
        k = d["kind"]
        if k == "basic":
            if d["name"] == "bool":
                return [int(v) if isinstance(v, bool) else norm(z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))]
            bs = split_le(v, self.size_of(t))
            return bs if little else bs[::-1]
        if k == "slice":
            return [b for e in (v.items() if v.s is not None else []) for b in self.encode(d["elem"], e, little)]
        if k == "array":
            return [b for e in v.f for b in self.encode(d["elem"], e, little)]
        out = []
        for f, e in zip(d["fields"], v.f):
            bs = self.encode(f["type"], e, little)
            out += [0] * len(bs) if f["name"] == "_" else bs
        return out

    def decode(self, t, bs, little, reflected, exported=True):
        """value of type t from the head of bs"""
        d = self.under(t)
        k = d["kind"]
        if k == "basic":
            if not exported:
                raise GoPanic("reflect: using value obtained using unexported field")
            n = self.size_of(t)
            b = bs[:n]
            del bs[:n]
            if d["name"] == "bool":
                return b[0] != 0 if isinstance(b[0], int) else norm_b(b[0] != 0)
            return concat_le(b if little else b[::-1])
        if k == "array":
            return SV([self.decode(d["elem"], bs, little, reflected, exported) for _ in range(d["len"])])
        if k == "struct":
            out = []
            for f in d["fields"]:
                if f["name"] == "_":
                    del bs[:self.size_of(f["type"])]
                    out.append(self.zero(f["type"]))
                else:
                    out.append(self.decode(f["type"], bs, little, reflected, exported and f["exported"]))
            return SV(out)
        raise Unsupported("binary.Read into " + self.types[t]["str"])

    def order(self, o):
        return o.v.little

    def lib(self, name, a):
        f = getattr(self, "L_" + "".join(c if c.isalnum() else "_" for c in name.split("[", 1)[0]), None)
        if f is not None:
            return f(*a)
        if name.startswith("(encoding/binary.littleEndian)."):
            return self.host(LE, name.rsplit(".", 1)[1], a[1:])
        if name.startswith("(encoding/binary.bigEndian)."):
            return self.host(BE, name.rsplit(".", 1)[1], a[1:])
        if name.startswith(("(*bytes.Buffer).", "(*bytes.Reader).", "(*strings.Builder).", "(*strings.Reader).")):
            h = self.hosted(a[0])
            return self.host(h, name.rsplit(".", 1)[1], a[1:])
        if name.endswith(".init"):
            return None
        raise Unsupported("library function " + name)

    def hosted(self, p):
        """the model behind a *bytes.Buffer or the like; a zero value becomes an empty buffer"""
        if p is None:
            raise GoPanic("nil pointer dereference")
        if not isinstance(p, Ptr):
            return p
        h = p.c[p.i]
        if not isinstance(h, (Reader, Writer, Limited)):
            h = p.c[p.i] = Writer()
        return h

    def L_encoding_binary_Read(self, r, order, data):
        if data is None:
            raise GoPanic("binary.Read: nil data")
        if isinstance(data.t, str):
            raise Unsupported("binary.Read into host value")
        d = self.types[data.t]
        little = self.order(order)
        du = self.under(data.t)
        if du["kind"] == "ptr":
            if data.v is None:
                raise GoPanic("reflect: nil pointer")
            et = du["elem"]
            target = data.v.c[data.v.i]
            n = self.data_size(et, target)
            if n is None:
                return host_err(GoErr("binary.Read: invalid type " + d["str"]))
            bs, err = self.read_full(r, n)
            if err is not None:
                return err
            if self.under(et)["kind"] == "slice":
                self.fill(et, target, bs, little)
            else:
                v = self.decode(et, bs, little, True)
                if isinstance(target, SV):
                    self.assign(target, v)
                else:
                    data.v.c[data.v.i] = v
            return None
        if du["kind"] == "slice":
            n = self.data_size(data.t, data.v)
            if n is None:
                return host_err(GoErr("binary.Read: invalid type " + d["str"]))
            bs, err = self.read_full(r, n)
            if err is not None:
                return err
            self.fill(data.t, data.v, bs, little)
            return None
        return host_err(GoErr("binary.Read: invalid type " + d["str"]))

    def fill(self, t, s, bs, little):
        et = self.under(t)["elem"]
        for k in range(s.n):
            v = self.decode(et, bs, little, True)
            if isinstance(v, SV):
                self.assign(s.s[s.off + k], v)
            else:
                s.s[s.off + k] = v

    def L_encoding_binary_Write(self, w, order, data):
        if data is None:
            raise GoPanic("binary.Write: nil data")
        little = self.order(order)
        t, v = data.t, data.v
        if isinstance(t, str):
            raise Unsupported("binary.Write of host value")
        if self.under(t)["kind"] == "ptr":
            if v is None:
                return host_err(GoErr("binary.Write: nil pointer"))
            t, v = self.under(t)["elem"], v.c[v.i]
        n = self.data_size(t, v)
        if n is None:
            return host_err(GoErr("binary.Write: some values are not fixed-sized in type " + self.types[data.t]["str"]))
        return self.write_call(w, self.encode(t, v, little))[1]

    def L_encoding_binary_Size(self, data):
        t, v = data.t, data.v
        if self.under(t)["kind"] == "ptr":
            t, v = self.under(t)["elem"], v.c[v.i]
        n = self.data_size(t, v)
        return mask(64) if n is None else n

    def L_io_ReadFull(self, r, buf):
        got, err = self.read_full(r, buf.n)
        if got:
            buf.s[buf.off:buf.off + len(got)] = got
        return [len(got), err]

    def L_io_ReadAtLeast(self, r, buf, mn):
        if buf.n < self.cint(mn):
            return [0, host_err(GoErr("short buffer"))]
        return self.L_io_ReadFull(r, buf)

    def L_io_LimitReader(self, r, n):
        return Iface("host:Limited", Limited(self, r, n))

    def L_io_ReadAll(self, r):
        got = []
        while True:
            out, err = self.read_call(r, 512)
            got += out
            if err is not None:
                return [Slice(got, 0, len(got), len(got)), None if err.v is EOF else err]

    def L_io_WriteString(self, w, s):
        return self.write_call(w, list(s))

    def cut(self, bs, n):
        return Slice(list(bs), 0, n, n)

    def copy_from(self, w, r, limit=None):
        """copy everything (or limit bytes) from r to w -> (count, err)"""
        tot = 0
        while limit is None or tot < limit:
            out, err = self.read_call(r, 512 if limit is None else min(512, limit - tot))
            if out:
                k, e = self.write_call(w, out)
                tot += len(out)
                if e is not None:
                    return tot, e
            if err is not None:
                return tot, None if err.v is EOF else err
        return tot, None

    def L_io_Copy(self, w, r):
        return list(self.copy_from(w, r))

    def L_io_CopyBuffer(self, w, r, b):
        return list(self.copy_from(w, r))

    def L_io_CopyN(self, w, r, n):
        if is_sym(n):
            return self.copy_sym(w, r, n)
        n = sx(n, 64)
        k, e = self.copy_from(w, r, n)
        return [k, e if e is not None or k >= n else host_err(EOF)]

    def copy_sym(self, w, r, n):
        lim = Limited(self, r, n)
        k, e = self.copy_from(w, Iface("host:Limited", lim))
        short = self.ctx.branch(norm_b(bv(lim.n, 64) > 0))
        return [k, e if e is not None or not short else host_err(EOF)]

    def L_io_TeeReader(self, r, w):
        raise Unsupported("io.TeeReader")

    def L_encoding_binary_Append(self, buf, order, data):
        w = Writer()
        e = self.L_encoding_binary_Write(Iface("host:Writer", w), order, data)
        if e is not None:
            return [Slice(None, 0, 0, 0), e]
        return [self.builtin("append", [buf, Slice(w.d, 0, len(w.d), len(w.d))]), None]

    def has(self, a, b, end):
        if len(b) > len(a):
            return False
        return symcore.bytes_eq(a[len(a) - len(b):] if end else a[:len(b)], b)

    def raw(self, q):
        return [] if q is None else list(q) if isinstance(q, tuple) else q.items() if q.s is not None else []

    def L_bytes_HasPrefix(self, a, b):
        return self.has(self.raw(a), self.raw(b), False)

    def L_bytes_HasSuffix(self, a, b):
        return self.has(self.raw(a), self.raw(b), True)
    L_strings_HasPrefix, L_strings_HasSuffix = L_bytes_HasPrefix, L_bytes_HasSuffix

    def L_bytes_Compare(self, a, b):
        a, b = self.raw(a), self.raw(b)
        for x, y in zip(a, b):
            if not self.ctx.branch(eq(x, y, 8)):
                return mask(64) if self.ctx.branch(norm_b(z3.ULT(bv(x, 8), bv(y, 8)))) else 1
        return 0 if len(a) == len(b) else mask(64) if len(a) < len(b) else 1

    def L_bytes_Clone(self, a):
        return Slice(None, 0, 0, 0) if a.s is None else self.cut(a.items(), a.n)

    def L_strings_Clone(self, a):
        return a

    def L_bytes_IndexByte(self, a, c):
        for i, x in enumerate(self.raw(a)):
            if self.ctx.branch(eq(x, c, 8)):
                return i
        return mask(64)
    L_strings_IndexByte = L_bytes_IndexByte

    def L_bytes_Repeat(self, a, n):
        bs = self.raw(a) * self.cint(n)
        return self.cut(bs, len(bs))

    def L_bytes_Join(self, xs, sep):
        out = []
        for i, x in enumerate(xs.items() if xs.s is not None else []):
            out += (self.raw(sep) if i else []) + self.raw(x)
        return self.cut(out, len(out))

    def L_strings_Join(self, xs, sep):
        out = []
        for i, x in enumerate(xs.items() if xs.s is not None else []):
            out += (list(sep) if i else []) + list(x)
        return tuple(out)

    def L_strings_Repeat(self, s, n):
        return s * self.cint(n)

    def L_strings_NewReader(self, s):
        return Reader(list(s))

    def L_slices_Equal(self, a, b):
        x, y = self.raw(a), self.raw(b)
        return conj([self.equal(p, q) for p, q in zip(x, y)]) if len(x) == len(y) else False

    def L_slices_Contains(self, a, v):
        return norm_b(symcore.disj([self.equal(p, v) for p in self.raw(a)]))

    def L_slices_Index(self, a, v):
        for i, x in enumerate(self.raw(a)):
            if self.ctx.branch(self.equal(x, v)):
                return i
        return mask(64)

    def L_slices_Clone(self, a):
        return Slice(None, 0, 0, 0) if a.s is None else Slice([copyval(v) for v in a.items()], 0, a.n, a.n)

    def L_slices_Reverse(self, a):
        if a.s is not None:
            a.s[a.off:a.off + a.n] = a.items()[::-1]

    def L_slices_Grow(self, a, n):
        return a

    def L_slices_Concat(self, xs):
        out = []
        for x in xs.items() if xs.s is not None else []:
            out += self.raw(x)
        return Slice(out, 0, len(out), len(out))

    def L_errors_Join(self, xs):
        es = [e for e in self.raw(xs) if e is not None]
        return host_err(GoErr("joined", es)) if es else None

    def L_errors_As(self, e, t):
        raise Unsupported("errors.As")

    def L_bytes_NewReader(self, s):
        return Reader(s.items() if s.s is not None else [])

    def L_bytes_NewBuffer(self, s):
        w = Writer()
        w.d = list(s.items()) if s.s is not None else []
        return w

    def L_bytes_NewBufferString(self, s):
        w = Writer()
        w.d = list(s)
        return w

    def L_bytes_Equal(self, x, y):
        a, b = ([] if q is None or q.s is None else q.items() for q in (x, y))
        return symcore.bytes_eq(a, b)

    def L_errors_New(self, s):
        return host_err(GoErr(bytes(x if isinstance(x, int) else 63 for x in s).decode("utf-8", "replace")))

    def L_errors_Is(self, e, target):
        if e is None or target is None:
            return e is None and target is None
        todo = [e]
        while todo:
            x = todo.pop()
            if self.equal(x, target) is True:
                return True
            if isinstance(x.v, GoErr):
                todo += x.v.wraps
        return False

    def L_errors_Unwrap(self, e):
        return e.v.wraps[0] if e is not None and isinstance(e.v, GoErr) and e.v.wraps else None

    def L_fmt_Errorf(self, fmt, args):
        xs = args.items() if args is not None and args.s is not None else []
        text = bytes(b if isinstance(b, int) else 63 for b in fmt).decode("utf-8", "replace")
        wraps = [x for x in xs if isinstance(x, Iface) and isinstance(x.v, GoErr)] if "%w" in text else []
        return host_err(GoErr(text, wraps))

    def L_fmt_Sprintf(self, fmt, args):
        return fmt

    def L_fmt_Println(self, *a):
        return [0, None]
    L_fmt_Printf = L_fmt_Fprintln = L_fmt_Fprintf = L_fmt_Println

    def L_math_Float32bits(self, x):
        return x
    L_math_Float64bits = L_math_Float32frombits = L_math_Float64frombits = L_math_Float32bits

    def L_unicode_utf8_ValidString(self, s):
        return self.valid_utf8(list(s))

    def L_unicode_utf8_Valid(self, s):
        return self.valid_utf8(s.items() if s.s is not None else [])

    def valid_utf8(self, b):
        i = 0
        br = self.ctx.branch
        c = lambda k: bv(b[k], 8)
        cont = lambda k: k < len(b) and br(norm_b(z3.And(z3.UGE(c(k), 0x80), z3.ULE(c(k), 0xbf))))
        while i < len(b):
            x = c(i)
            if br(norm_b(z3.ULT(x, 0x80))):
                i += 1
                continue
            if br(norm_b(z3.And(z3.UGE(x, 0xc2), z3.ULE(x, 0xdf)))):
                if not cont(i + 1):
                    return False
                i += 2
                continue
            if br(norm_b(z3.And(z3.UGE(x, 0xe0), z3.ULE(x, 0xef)))):
                if not (cont(i + 1) and cont(i + 2)):
                    return False
                y = c(i + 1)
                if br(norm_b(z3.Or(z3.And(x == 0xe0, z3.ULT(y, 0xa0)), z3.And(x == 0xed, z3.UGT(y, 0x9f))))):
                    return False
                i += 3
                continue
            if br(norm_b(z3.And(z3.UGE(x, 0xf0), z3.ULE(x, 0xf4)))):
                if not (cont(i + 1) and cont(i + 2) and cont(i + 3)):
                    return False
                y = c(i + 1)
                if br(norm_b(z3.Or(z3.And(x == 0xf0, z3.ULT(y, 0x90)), z3.And(x == 0xf4, z3.UGT(y, 0x8f))))):
                    return False
                i += 4
                continue
            return False
        return True

    def host(self, h, m, a):
        if isinstance(h, GoErr):
            if m == "Error":
                return tuple(h.text.encode())
        if isinstance(h, Order):
            if m.startswith("PutUint"):
                n = int(m[7:]) // 8
                s, v = a
                if s.n < n:
                    raise GoPanic("index out of range")
                bs = split_le(v, n)
                s.s[s.off:s.off + n] = bs if h.little else bs[::-1]
                return None
            if m.startswith("AppendUint"):
                n = int(m[10:]) // 8
                bs = split_le(a[1], n)
                bs = bs if h.little else bs[::-1]
                return self.builtin("append", [a[0], Slice(bs, 0, n, n)])
            if m.startswith("Uint"):
                n = int(m[4:]) // 8
                s = a[0]
                if s.n < n:
                    raise GoPanic("index out of range")
                bs = s.items()[:n]
                return concat_le(bs if h.little else bs[::-1])
        if isinstance(h, (Reader, Writer, Limited)):
            if m == "Read":
                out, e = h.take(a[0].n)
                if out:
                    a[0].s[a[0].off:a[0].off + len(out)] = out
                return [len(out), host_err(e)]
            if m == "ReadByte":
                out, e = h.take(1)
                return [out[0] if out else 0, host_err(e)]
            if m == "Seek" and isinstance(h, Reader) and not h.step:
                off, wh = self.cint(a[0]), self.cint(a[1])
                h.pos = off + (0, h.pos, len(h.d))[wh]
                return [h.pos, None]
            if m == "Len":
                return max(0, len(h.d) - h.pos)
            if m == "Size":
                return len(h.d)
            if isinstance(h, Writer):
                if m == "Write":
                    h.d += a[0].items() if a[0].s is not None else []
                    return [a[0].n, None]
                if m == "WriteString":
                    h.d += list(a[0])
                    return [len(a[0]), None]
                if m == "WriteByte":
                    h.d.append(a[0])
                    return None
                if m == "Bytes":
                    x = h.d[h.pos:]
                    return Slice(x, 0, len(x), len(x))
                if m == "String":
                    return tuple(h.d[h.pos:])
                if m in ("Grow", ):
                    return None
                if m == "Reset":
                    h.d, h.pos = [], 0
                    return None
                if m in ("Cap", "Available"):
                    return len(h.d) - h.pos if m == "Cap" else 0
                if m == "Next":
                    k = min(self.cint(a[0]), len(h.d) - h.pos)
                    h.pos += k
                    return Slice(h.d[h.pos - k:h.pos], 0, k, k)
                if m == "Truncate":
                    k = self.cint(a[0])
                    if not 0 <= k <= len(h.d) - h.pos:
                        raise GoPanic("bytes.Buffer: truncation out of range")
                    del h.d[h.pos + k:]
                    return None
                if m == "ReadFrom":
                    return list(self.copy_from(Iface("host:Writer", h), a[0]))
            if m == "WriteTo":
                x = h.d[h.pos:]
                h.pos = len(h.d)
                return [len(x), self.write_call(a[0], x)[1] if x else None]
            if m == "UnreadByte":
                if h.pos <= 0:
                    return host_err(GoErr("UnreadByte: at beginning"))
                h.pos -= 1
                return None
            if m == "ReadAt" and isinstance(h, Reader) and not h.step:
                off = self.cint(a[1])
                if off < 0:
                    return [0, host_err(GoErr("ReadAt: negative offset"))]
                out = h.d[off:off + a[0].n]
                if out:
                    a[0].s[a[0].off:a[0].off + len(out)] = out
                return [len(out), None if len(out) == a[0].n else host_err(EOF)]
            if m == "Reset" and isinstance(h, Reader) and not h.step:
                h.d, h.pos = self.raw(a[0]), 0
                return None
        raise Unsupported(f"method {m} of {type(h).__name__}")
