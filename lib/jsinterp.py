"""A symbolic interpreter for the JavaScript the generated TypeScript becomes once its types are erased.

Numbers are python ints/floats or SymNum (64-bit signed term known to hold an exact integer), F32/F64 (bit patterns);
bigints are Big; strings are python str or SymStr (UTF-16 units).  Lengths and control flow stay concrete unless a
branch really depends on symbolic content, in which case the path forks.
"""
import struct

import z3

import symcore
from symcore import Unsupported, bv, concat_le, conj, disj, eq, extract, is_sym, neg, norm, norm_b, sext, split_le, zext


class Undef:
    def __repr__(self): return "undefined"


class Null:
    def __repr__(self): return "null"


UNDEF, NULL = Undef(), Null()


class Sentinel:
    pass


class JSThrow(Exception):
    def __init__(self, v):
        self.v = v


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class SymNum:
    """integer value held in a signed 64-bit term"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class SymB:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c


class F32:
    """a number that is exactly a float32; bits: int or BV32"""
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b


class F64:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b


class JBig:
    """bigint; e: python int or 128-bit signed term"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class SymStr:
    __slots__ = ("u",)

    def __init__(self, u):
        self.u = list(u)


class OneOf:
    """some value of a finite table, not yet decided which: [(condition, value)]"""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts


class Obj:
    def __init__(self, proto=None, cls=None):
        self.p = {}
        self.proto = proto
        self.cls = cls


class Arr(Obj):
    def __init__(self, items=()):
        super().__init__()
        self.a = list(items)


class LazyArr(Arr):
    """an array of undecided length; raw holds the elements touched so far, every other use decides the length"""
    def __init__(self, ctx, sn):
        Obj.__init__(self)
        self.ctx, self.sn, self.raw = ctx, sn, []

    @property
    def a(self):
        if self.sn is not None:
            n = symcore.sx(self.ctx.value(self.sn), 64)
            if n > 3_000_000:
                raise Unsupported("huge array")
            self.raw += [Sentinel] * (n - len(self.raw))
            self.sn = None
        return self.raw

    @a.setter
    def a(self, v):
        self.raw, self.sn = v, None


class Buf(Obj):
    def __init__(self, data, shared=False):
        super().__init__()
        self.d = data
        self.shared = shared


class View(Obj):          # DataView and Uint8Array
    def __init__(self, kind, buf, off, n):
        super().__init__()
        self.kind, self.buf, self.off, self.n = kind, buf, off, n


class Fn(Obj):
    def __init__(self, node, env, this=None, arrow=False, name="", home=None):
        super().__init__()
        self.node, self.env, self.this, self.arrow, self.name, self.home = node, env, this, arrow, name, home


class Native(Obj):
    def __init__(self, f, name="", ctor=None):
        super().__init__()
        self.f, self.name, self.ctor = f, name, ctor


class Cls(Obj):
    def __init__(self, name, base):
        super().__init__()
        self.name, self.base = name, base
        self.fields, self.ctor = [], None
        self.protoobj = Obj(base.protoobj if isinstance(base, Cls) else None, self)
        self.p["prototype"] = self.protoobj
        self.p["name"] = name


class JSMap(Obj):
    def __init__(self):
        super().__init__()
        self.items = []


class JSSet(Obj):
    def __init__(self):
        super().__init__()
        self.items = []


class Env:
    __slots__ = ("v", "up")

    def __init__(self, up=None):
        self.v, self.up = {}, up

    def find(self, n):
        e = self
        while e is not None:
            if n in e.v:
                return e
            e = e.up
        return None


def isnum(x):
    return (isinstance(x, (int, float)) and not isinstance(x, bool)) or isinstance(x, (SymNum, F32, F64))


def units(s):
    if isinstance(s, SymStr):
        return s.u
    b = s.encode("utf-16-le", "surrogatepass")
    return [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]


def mkstr(u):
    if all(isinstance(x, int) for x in u):
        return b"".join(struct.pack("<H", x) for x in u).decode("utf-16-le", "surrogatepass")
    return SymStr(u)


def num(x):
    """normalise floats that are ints"""
    if isinstance(x, float) and x.is_integer() and abs(x) < 2**63:
        if x == 0 and str(x)[0] == "-":
            return x
        return int(x)
    return x


class Interp:
    FNSTEP = 3_000_000

    def __init__(self, ast, ctx, fns=None):
        self.ctx = ctx
        self.fns = fns if fns is not None else set()
        self.steps = 0
        self.glob = Env()
        self.exports = {}
        self.setup()
        self.natives = {id(v) for v in self.glob.v.values()}
        self.block(ast, self.glob, hoist=True)

    # -- helpers -------------------------------------------------------------------------------
    def throw(self, kind, msg):
        raise JSThrow(self.mkerr(kind, msg))

    def mkerr(self, kind, msg):
        c = self.glob.v[kind]
        o = Obj(c.protoobj, c)
        o.p["message"] = msg
        o.p["name"] = kind
        return o

    def truthy(self, x):
        x = self.settle(x)
        if isinstance(x, bool):
            return x
        if isinstance(x, SymB):
            return self.ctx.branch(x.c)
        if x is UNDEF or x is NULL:
            return False
        if isinstance(x, (int, float)):
            return x != 0 and x == x
        if isinstance(x, SymNum):
            return self.ctx.branch(x.e != 0)
        if isinstance(x, JBig):
            return x.e != 0 if isinstance(x.e, int) else self.ctx.branch(x.e != 0)
        if isinstance(x, str):
            return len(x) > 0
        if isinstance(x, SymStr):
            return len(x.u) > 0
        if isinstance(x, (F32, F64)):
            w = 32 if isinstance(x, F32) else 64
            if isinstance(x.b, int):
                v = struct.unpack("<f" if w == 32 else "<d", x.b.to_bytes(w // 8, "little"))[0]
                return v != 0 and v == v
            fp = self.fp(x)
            return self.ctx.branch(z3.And(z3.Not(z3.fpIsZero(fp)), z3.Not(z3.fpIsNaN(fp))))
        return True

    def cond(self, x):
        """as bool or z3 condition, no fork"""
        if isinstance(x, SymB):
            return x.c
        return self.truthy(x)

    @staticmethod
    def mkb(c):
        c = norm_b(c)
        return c if isinstance(c, bool) else SymB(c)

    def fp(self, x):
        """any number as an FP64 term (F32 as FP32 widened)"""
        if isinstance(x, F64):
            return z3.fpBVToFP(bv(x.b, 64), z3.Float64())
        if isinstance(x, F32):
            return z3.fpFPToFP(z3.RNE(), z3.fpBVToFP(bv(x.b, 32), z3.Float32()), z3.Float64())
        if isinstance(x, SymNum):
            return z3.fpSignedToFP(z3.RNE(), x.e, z3.Float64())
        return z3.FPVal(float(x), z3.Float64())

    def i64(self, x):
        """64-bit signed term or int for an integer number; None if not an integer kind"""
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            return x
        if isinstance(x, SymNum):
            return x.e
        if isinstance(x, float) and x.is_integer() and abs(x) < 2**62:
            return int(x)
        if isinstance(x, SymB):
            return z3.If(x.c, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
        if x is NULL:
            return 0
        return None

    def mkn(self, e):
        e = norm(e)
        if isinstance(e, int):
            return symcore.sx(e, 64)
        return SymNum(e)

    def word(self, x, w):
        """ToUintN of a number, as machine word"""
        x = self.tonum(x)
        if isinstance(x, int):
            return x & ((1 << w) - 1)
        if isinstance(x, float):
            if x != x or x in (float("inf"), float("-inf")):
                return 0
            return int(x) & ((1 << w) - 1)
        if isinstance(x, SymNum):
            return extract(x.e, w - 1, 0)
        raise Unsupported("integer conversion of a symbolic float")

    def tonum(self, x):
        x = self.settle(x)
        if isnum(x):
            return x
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, SymB):
            return self.mkn(self.i64(x))
        if x is UNDEF:
            return float("nan")
        if x is NULL:
            return 0
        if isinstance(x, str):
            try:
                return num(float(x)) if x.strip() else 0
            except ValueError:
                return float("nan")
        if isinstance(x, JBig):
            self.throw("TypeError", "Cannot convert a BigInt value to a number")
        if isinstance(x, Arr) and len(x.a) == 0:
            return 0
        if isinstance(x, Obj):
            return float("nan")
        raise Unsupported(f"ToNumber of {type(x).__name__}")

    def tobigword(self, x, w):
        if isinstance(x, bool):
            return int(x)
        if not isinstance(x, JBig):
            self.throw("TypeError", "Cannot convert value to a BigInt")
        if isinstance(x.e, int):
            return x.e & ((1 << w) - 1)
        return extract(x.e, w - 1, 0)

    def index(self, x, top=None):
        """ToIndex: a concrete offset, -1 for all those outside 0..top"""
        x = self.tonum(x)
        if top is not None and isinstance(x, SymNum) and self.ctx.branch(norm_b(z3.UGT(x.e, top))):
            return -1
        if isinstance(x, float):
            x = 0 if x != x else int(x)
        if isinstance(x, SymNum):
            return symcore.sx(self.ctx.value(x.e), 64)
        if not isinstance(x, int):
            raise Unsupported("symbolic float as index")
        return x

    def tostr(self, x):
        if isinstance(x, OneOf):
            return "<text>"
        if isinstance(x, (str, SymStr)):
            return x
        if isinstance(x, bool):
            return "true" if x else "false"
        if isinstance(x, int):
            return str(x)
        if isinstance(x, float):
            return "NaN" if x != x else repr(num(x))
        if x is UNDEF or x is NULL:
            return repr(x)
        if isinstance(x, (SymNum, F32, F64, JBig, SymB)):
            return "<num>"
        if isinstance(x, Obj) and "message" in x.p:
            return f"{x.p.get('name', 'Error')}: {x.p['message']}"
        return "[object]"

    # -- properties --------------------------------------------------------------------------
    def key(self, k):
        if isinstance(k, bool) or isinstance(k, str):
            return self.tostr(k)
        if isinstance(k, (int, float)):
            return self.tostr(num(k))
        if isinstance(k, JBig) and isinstance(k.e, int):
            return str(k.e)
        return k

    def settle(self, x):
        if isinstance(x, OneOf):
            for c, v in x.alts:
                if self.ctx.branch(c):
                    return v
            raise symcore.PathEnd()
        return x

    def get(self, o, k):
        o, k = self.settle(o), self.key(self.settle(k))
        if isinstance(o, (str, SymStr)):
            return self.str_get(o, k)
        if o is UNDEF or o is NULL:
            self.throw("TypeError", f"Cannot read properties of {o!r} (reading '{k}')")
        if isinstance(o, (SymNum, F32, F64, int, float, JBig, SymB)):
            return self.num_get(o, k)
        if isinstance(k, (SymNum, JBig)):
            return self.sym_get(o, k)
        if isinstance(o, LazyArr) and o.sn is not None and isinstance(k, str):
            if k.isdigit() and int(k) < len(o.raw):
                v = o.raw[int(k)]
                return UNDEF if v is Sentinel else v
            if k == "length":
                return SymNum(o.sn)
        if isinstance(o, Arr):
            if isinstance(k, str) and k.isdigit():
                i = int(k)
                if i < len(o.a):
                    v = o.a[i]
                    return UNDEF if v is Sentinel else v
                return UNDEF
            if k == "length":
                return len(o.a)
            m = getattr(self, "arr_" + k, None)
            if m:
                return Native(lambda this, *a: m(this, *a), k)
        if isinstance(o, View):
            if k == "byteLength" or (k == "length" and o.kind == "u8"):
                return o.n
            if k == "byteOffset":
                return o.off
            if k == "buffer":
                return o.buf
            if o.kind == "u8" and k.isdigit():
                i = int(k)
                return self.byte(o.buf.d[o.off + i]) if i < o.n else UNDEF
            m = getattr(self, ("dv_" if o.kind == "dv" else "u8_") + k, None)
            if m:
                return Native(lambda this, *a: m(this, *a), k)
            if o.kind == "u8" and k in self.U8_READ:
                m = getattr(self, "arr_" + k)
                return Native(lambda this, *a: m(Arr(self.iterate(this)), *a), k)
            if o.kind == "u8" and k in ("map", "filter"):
                m = getattr(self, "arr_" + k)

                def conv(this, *a):
                    d = [self.word(v, 8) for v in m(Arr(self.iterate(this)), *a).a]
                    return View("u8", Buf(d), 0, len(d))
                return Native(conv, k)
        if isinstance(o, Buf):
            if k == "byteLength":
                return len(o.d)
            if k == "slice":
                def sl(this, s=0, e=UNDEF):
                    s, e = self.rng(*self.clamp(s, e, len(this.d)), len(this.d))
                    return Buf(list(this.d[s:e]))
                return Native(sl, "slice")
        if isinstance(o, JSMap):
            m = getattr(self, "map_" + k, None)
            if m:
                return Native(m, k) if k != "size" else len(o.items)
        if isinstance(o, JSSet):
            m = getattr(self, "set_" + k, None)
            if m:
                return Native(m, k) if k != "size" else len(o.items)
        if isinstance(o, (Fn, Native)) and k in ("call", "apply", "bind", "name", "length", "prototype"):
            if k in o.p:
                return o.p[k]
            if k == "call":
                return Native(lambda this, t=UNDEF, *a: self.call(this, t, list(a)), k)
            if k == "apply":
                return Native(lambda this, t=UNDEF, a=UNDEF: self.call(this, t, list(a.a)), k)
            if k == "bind":
                return Native(lambda this, t=UNDEF, *a: Native(lambda _t, *b, f=this: self.call(f, t, list(a) + list(b)), "bound"), k)
            return getattr(o, "name", "")
        x = o
        while x is not None:
            if k in x.p:
                v = x.p[k]
                if isinstance(v, tuple) and v and v[0] == "accessor":
                    return self.call(v[1], o, []) if v[1] else UNDEF
                return v
            if isinstance(x, Cls):
                x = x.base
            else:
                x = x.proto
        if k == "constructor" and o.cls is not None:
            return o.cls
        if k == "hasOwnProperty":
            return Native(lambda this, kk: self.own(this, kk), k)
        if k == "toString":
            return Native(lambda this, *a: self.tostr(this), k)
        return UNDEF

    def own(self, o, k):
        if isinstance(k, SymNum):
            for kk in list(o.p):
                if self.isint(kk) and self.ctx.branch(eq(k.e, int(kk), 64)):
                    return True
            return False
        if isinstance(o, Arr):
            kk = self.key(k)
            return kk.isdigit() and int(kk) < len(o.a)
        return self.key(k) in o.p

    @staticmethod
    def isint(k):
        return isinstance(k, str) and (k.isdigit() or (k[:1] == "-" and k[1:].isdigit()))

    def sym_get(self, o, k):
        if isinstance(o, Arr):
            i = symcore.sx(self.ctx.value(k.e), 64)
            return self.get(o, i)
        if isinstance(o, View):
            return self.get(o, symcore.sx(self.ctx.value(k.e), 64))
        w = 64 if isinstance(k, SymNum) else 128
        alts, seen = [], set()
        x = o
        while x is not None:
            for kk in list(x.p):
                if self.isint(kk) and kk not in seen:
                    seen.add(kk)
                    alts.append((eq(k.e, int(kk), w), x.p[kk]))
            x = x.base if isinstance(x, Cls) else x.proto
        if alts and self.ctx.branch(norm_b(disj([c for c, _ in alts]))):
            return OneOf(alts)
        return UNDEF

    def set(self, o, k, v):
        k = self.key(k)
        if o is UNDEF or o is NULL:
            self.throw("TypeError", f"Cannot set properties of {o!r}")
        if isinstance(k, SymNum):
            k = str(symcore.sx(self.ctx.value(k.e), 64))
        if not isinstance(k, str):
            raise Unsupported("symbolic property key in an assignment")
        if isinstance(o, LazyArr) and o.sn is not None and k.isdigit() and int(k) < 4096:
            i = int(k)
            o.raw += [Sentinel] * (i + 1 - len(o.raw))
            o.raw[i] = v
            o.sn = norm(z3.If(z3.UGT(o.sn, i), o.sn, z3.BitVecVal(i + 1, 64)))
            return
        if isinstance(o, Arr):
            if k.isdigit():
                i = int(k)
                if i > 10_000_000:
                    raise Unsupported("huge array index")
                while len(o.a) <= i:
                    o.a.append(Sentinel)
                o.a[i] = v
                return
            if k == "length":
                n = self.index(v)
                o.a = o.a[:n] + [Sentinel] * (n - len(o.a))
                return
        if isinstance(o, View):
            if o.kind == "u8" and k.isdigit():
                if int(k) < o.n:
                    o.buf.d[o.off + int(k)] = self.word(v, 8)
                return
        if not isinstance(o, Obj):
            return
        x = o
        while x is not None:
            c = x.p.get(k)
            if isinstance(c, tuple) and c and c[0] == "accessor":
                if c[2]:
                    self.call(c[2], o, [v])
                return
            x = x.base if isinstance(x, Cls) else x.proto
        o.p[k] = v

    def byte(self, b):
        return b if isinstance(b, int) else SymNum(z3.ZeroExt(56, b))

    # -- strings, numbers ------------------------------------------------------------------
    def str_get(self, s, k):
        if k == "length":
            return len(units(s))
        if isinstance(k, SymNum):
            k = str(self.index(k))
        if isinstance(k, str) and k.isdigit():
            u = units(s)
            return mkstr([u[int(k)]]) if int(k) < len(u) else UNDEF
        m = getattr(self, "s_" + k, None)
        if m:
            return Native(lambda this, *a: m(this, *a), k)
        raise Unsupported("string." + str(k))

    def s_charCodeAt(self, s, i=0):
        u = units(s)
        i = self.index(i)
        if not 0 <= i < len(u):
            return float("nan")
        return u[i] if isinstance(u[i], int) else SymNum(z3.ZeroExt(48, u[i]))

    def s_codePointAt(self, s, i=0):
        u = units(s)
        i = self.index(i)
        if not 0 <= i < len(u):
            return UNDEF
        a = u[i]
        if i + 1 < len(u) and self.ctx.branch(self.in_range(a, 0xd800, 0xdbff)) and self.ctx.branch(self.in_range(u[i + 1], 0xdc00, 0xdfff)):
            if isinstance(a, int) and isinstance(u[i + 1], int):
                return 0x10000 + ((a & 0x3ff) << 10) + (u[i + 1] & 0x3ff)
            return self.mkn(zext(self.cp4(a, u[i + 1]), 32, 64))
        return a if isinstance(a, int) else SymNum(z3.ZeroExt(48, a))

    def s_slice(self, s, a=0, b=UNDEF):
        u = units(s)
        a, b = self.rng(a, b, len(u))
        return mkstr(u[a:b])
    s_substring = s_slice

    def s_charAt(self, s, i=0):
        u = units(s)
        i = self.index(i)
        return mkstr(u[i:i + 1]) if i >= 0 else ""

    def s_concat(self, s, *a): return mkstr([x for y in (s,) + a for x in units(self.tostr(y))])
    def s_toString(self, s): return s
    def s_valueOf(self, s): return s

    def s_startsWith(self, s, t, at=0):
        u, v = units(s)[self.index(at):], units(t)
        return len(v) <= len(u) and self.mkb(norm_b(conj([eq(p, q, 16) for p, q in zip(u, v)])))

    def s_endsWith(self, s, t):
        u, v = units(s), units(t)
        return len(v) <= len(u) and self.mkb(norm_b(conj([eq(p, q, 16) for p, q in zip(u[len(u) - len(v):], v)])))

    def s_at(self, s, i=0):
        u, i = units(s), self.index(i)
        return mkstr([u[i]]) if -len(u) <= i < len(u) else UNDEF

    def s_repeat(self, s, n): return mkstr(list(units(s)) * self.index(n))

    def s_split(self, s, sep=UNDEF):
        u = units(s)
        if sep == "":
            return Arr([mkstr([x]) for x in u])
        raise Unsupported("split")

    def s_includes(self, s, t): raise Unsupported("includes")

    def num_get(self, o, k):
        if k == "toString":
            return Native(lambda this, *a: self.tostr(this), k)
        return UNDEF

    def clamp(self, s, e, n):
        """bounds of a slice, concrete; anything past the end is the end"""
        out = []
        for x in (s, e):
            if isinstance(x, SymNum) and self.ctx.branch(norm_b(x.e > n)):
                x = n
            out.append(x if x is UNDEF else self.index(x))
        return out

    @staticmethod
    def rng(s, e, n):
        s = 0 if s is UNDEF else int(s)
        e = n if e is UNDEF else int(e)
        s = max(0, s + n) if s < 0 else min(s, n)
        e = max(0, e + n) if e < 0 else min(e, n)
        return s, max(s, e)

    # -- arrays ------------------------------------------------------------------------------
    def arr_push(self, o, *a):
        o.a.extend(a)
        return len(o.a)

    def arr_pop(self, o):
        return o.a.pop() if o.a else UNDEF

    def arr_shift(self, o):
        return o.a.pop(0) if o.a else UNDEF

    def arr_slice(self, o, s=UNDEF, e=UNDEF):
        s, e = self.rng(s, e, len(o.a))
        return Arr(o.a[s:e])

    def arr_concat(self, o, *a):
        r = list(o.a)
        for x in a:
            r += x.a if isinstance(x, Arr) else [x]
        return Arr(r)

    def hole(self, v): return UNDEF if v is Sentinel else v

    def arr_map(self, o, f, *_): return Arr([self.call(f, UNDEF, [self.hole(v), i, o]) for i, v in enumerate(list(o.a))])

    def arr_forEach(self, o, f, *_):
        for i, v in enumerate(list(o.a)):
            if v is not Sentinel:
                self.call(f, UNDEF, [v, i, o])
        return UNDEF

    def arr_reduce(self, o, f, *init):
        it = list(o.a)
        if init:
            acc, start = init[0], 0
        else:
            if not it:
                self.throw("TypeError", "Reduce of empty array")
            acc, start = it[0], 1
        for i in range(start, len(it)):
            acc = self.call(f, UNDEF, [acc, it[i], i, o])
        return acc

    def arr_fill(self, o, v, s=UNDEF, e=UNDEF):
        s, e = self.rng(s, e, len(o.a))
        for i in range(s, e):
            o.a[i] = v
        return o

    def arr_filter(self, o, f, *_): return Arr([v for i, v in enumerate(list(o.a)) if self.truthy(self.call(f, UNDEF, [v, i, o]))])

    def arr_some(self, o, f, *_):
        return any(self.truthy(self.call(f, UNDEF, [v, i, o])) for i, v in enumerate(list(o.a)))

    def arr_every(self, o, f, *_):
        return all(self.truthy(self.call(f, UNDEF, [v, i, o])) for i, v in enumerate(list(o.a)))

    def arr_find(self, o, f, *_):
        for i, v in enumerate(list(o.a)):
            if self.truthy(self.call(f, UNDEF, [v, i, o])):
                return v
        return UNDEF

    def arr_includes(self, o, x, *_):
        return self.mkb(disj([self.eqc(v, x, True) for v in o.a]))

    def arr_indexOf(self, o, x, *_):
        for i, v in enumerate(o.a):
            if self.ctx.branch(self.eqc(v, x, True)):
                return i
        return -1

    def arr_findIndex(self, o, f, *_):
        for i, v in enumerate(list(o.a)):
            if self.truthy(self.call(f, UNDEF, [self.hole(v), i, o])):
                return i
        return -1

    def arr_lastIndexOf(self, o, x, *_):
        for i in reversed(range(len(o.a))):
            if self.ctx.branch(self.eqc(o.a[i], x, True)):
                return i
        return -1

    def arr_reduceRight(self, o, f, *init):
        it = list(enumerate(o.a))[::-1]
        if init:
            acc = init[0]
        else:
            if not it:
                self.throw("TypeError", "Reduce of empty array")
            acc = it.pop(0)[1]
        for i, v in it:
            acc = self.call(f, UNDEF, [acc, v, i, o])
        return acc

    def arr_reverse(self, o):
        o.a.reverse()
        return o

    def arr_unshift(self, o, *a):
        o.a[0:0] = a
        return len(o.a)

    def arr_splice(self, o, s=0, n=UNDEF, *a):
        n0 = len(o.a)
        s = self.index(s)
        s = max(0, s + n0) if s < 0 else min(s, n0)
        n = n0 - s if n is UNDEF else max(0, min(self.index(n), n0 - s))
        cut = o.a[s:s + n]
        o.a[s:s + n] = a
        return Arr(cut)

    def arr_flat(self, o, d=1):
        r = []
        for v in o.a:
            r += self.arr_flat(v, d - 1).a if isinstance(v, Arr) and d > 0 else [] if v is Sentinel else [v]
        return Arr(r)

    def arr_flatMap(self, o, f, *_): return self.arr_flat(self.arr_map(o, f))

    def arr_join(self, o, sep=","):
        out = []
        for i, v in enumerate(o.a):
            if i:
                out += units(sep)
            out += units("" if v in (UNDEF, NULL) or v is Sentinel else self.tostr(v))
        return mkstr(out)

    def arr_entries(self, o): return Arr([Arr([i, v]) for i, v in enumerate(o.a)])
    def arr_keys(self, o): return Arr(range(len(o.a)))
    def arr_values(self, o): return Arr(o.a)
    def arr_at(self, o, i):
        i = self.index(i)
        return o.a[i] if -len(o.a) <= i < len(o.a) else UNDEF

    # -- maps, sets --------------------------------------------------------------------------
    def map_set(self, o, k, v):
        for it in o.items:
            if self.ctx.branch(self.eqc(it[0], k, True)):
                it[1] = v
                return o
        o.items.append([k, v])
        return o

    def map_get(self, o, k):
        for it in o.items:
            if self.ctx.branch(self.eqc(it[0], k, True)):
                return it[1]
        return UNDEF

    def map_has(self, o, k): return self.mkb(disj([self.eqc(it[0], k, True) for it in o.items]))
    def map_size(self): pass
    def set_size(self): pass
    def set_has(self, o, k): return self.mkb(disj([self.eqc(it, k, True) for it in o.items]))

    def set_add(self, o, k):
        if not self.truthy(self.set_has(o, k)):
            o.items.append(k)
        return o

    # -- DataView and Uint8Array --------------------------------------------------------------
    def dv_at(self, o, off, n):
        off = self.index(off)
        if off < 0 or off + n > o.n:
            self.throw("RangeError", "Offset is outside the bounds of the DataView")
        return o.off + off

    def _dvget(name, n, signed, big=False, fl=False):
        def g(self, o, off=UNDEF, le=False):
            i = self.dv_at(o, off, n)
            bs = o.buf.d[i:i + n]
            if n > 1 and not self.truthy(le):
                bs = bs[::-1]
            w = concat_le(bs)
            if fl:
                return F32(w) if n == 4 else F64(w)
            if big:
                return JBig((symcore.sx(w, 64) if signed else w) if isinstance(w, int) else norm((z3.SignExt if signed else z3.ZeroExt)(64, w)))
            if isinstance(w, int):
                return symcore.sx(w, 8 * n) if signed else w
            return SymNum(norm((z3.SignExt if signed else z3.ZeroExt)(64 - 8 * n, w)))
        return g

    def _dvset(name, n, big=False, fl=False):
        def s(self, o, off=UNDEF, v=UNDEF, le=False):
            i = self.index(off)
            if big:
                w = self.tobigword(v, 64)
            elif fl:
                w = self.fbits(v, 8 * n)
            else:
                w = self.word(v, 8 * n)
            i = self.dv_at(o, off, n)
            bs = split_le(w, n)
            if n > 1 and not self.truthy(le):
                bs = bs[::-1]
            o.buf.d[i:i + n] = bs
            return UNDEF
        return s
    for _nm, _n, _s in (("Uint8", 1, False), ("Int8", 1, True), ("Uint16", 2, False), ("Int16", 2, True), ("Uint32", 4, False), ("Int32", 4, True)):
        locals()["dv_get" + _nm] = _dvget(_nm, _n, _s)
        locals()["dv_set" + _nm] = _dvset(_nm, _n)
    dv_getBigInt64 = _dvget("", 8, True, big=True)
    dv_getBigUint64 = _dvget("", 8, False, big=True)
    dv_setBigInt64 = dv_setBigUint64 = _dvset("", 8, big=True)
    dv_getFloat32, dv_getFloat64 = _dvget("", 4, True, fl=True), _dvget("", 8, True, fl=True)
    dv_setFloat32, dv_setFloat64 = _dvset("", 4, fl=True), _dvset("", 8, fl=True)

    def fbits(self, v, w):
        v = self.tonum(v)
        if isinstance(v, (int, float)):
            try:
                return int.from_bytes(struct.pack("<f" if w == 32 else "<d", float(v)), "little")
            except OverflowError:
                return 0x7f800000 if v > 0 else 0xff800000
        if isinstance(v, F32) and w == 32 or isinstance(v, F64) and w == 64:
            return v.b
        f = self.fp(v)
        if w == 32:
            f = z3.fpFPToFP(z3.RNE(), f, z3.Float32())
        return norm(z3.fpToIEEEBV(f))

    def u8_set(self, o, src, off=0):
        data = [self.word(x, 8) for x in src.a] if isinstance(src, Arr) else src.buf.d[src.off:src.off + src.n]
        off = self.index(off)
        if off < 0 or off + len(data) > o.n:
            self.throw("RangeError", "offset is out of bounds")
        o.buf.d[o.off + off:o.off + off + len(data)] = data
        return UNDEF

    def u8_subarray(self, o, s=UNDEF, e=UNDEF):
        s, e = self.rng(*self.clamp(s, e, o.n), o.n)
        return View("u8", o.buf, o.off + s, e - s)

    def u8_slice(self, o, s=UNDEF, e=UNDEF):
        s, e = self.rng(*self.clamp(s, e, o.n), o.n)
        d = list(o.buf.d[o.off + s:o.off + e])
        return View("u8", Buf(d), 0, len(d))

    U8_READ = {"forEach", "every", "some", "reduce", "find", "findIndex", "includes", "indexOf", "lastIndexOf", "join", "at", "entries", "keys",
               "values", "reduceRight"}

    def u8_fill(self, o, v, s=UNDEF, e=UNDEF):
        s, e = self.rng(*self.clamp(s, e, o.n), o.n)
        for i in range(s, e):
            o.buf.d[o.off + i] = self.word(v, 8)
        return o

    def u8_reverse(self, o):
        o.buf.d[o.off:o.off + o.n] = o.buf.d[o.off:o.off + o.n][::-1]
        return o

    def u8_copyWithin(self, o, t, s=UNDEF, e=UNDEF):
        s, e = self.rng(*self.clamp(s, e, o.n), o.n)
        t = self.rng(*self.clamp(t, UNDEF, o.n), o.n)[0]
        k = min(e - s, o.n - t)
        o.buf.d[o.off + t:o.off + t + k] = o.buf.d[o.off + s:o.off + s + k]
        return o

    # -- text -----------------------------------------------------------------------------------
    def in_range(self, u, a, b):
        if isinstance(u, int):
            return a <= u <= b
        return z3.And(z3.UGE(u, a), z3.ULE(u, b))

    def cp4(self, a, b):
        a, b = bv(a, 16), bv(b, 16)
        return norm(z3.Concat(z3.BitVecVal(0, 12), z3.Extract(9, 0, a), z3.Extract(9, 0, b)) + 0x10000)

    def utf8_encode(self, s):
        u = units(s)
        out = []
        i = 0
        br = self.ctx.branch
        while i < len(u):
            c = u[i]
            if isinstance(c, int) and c < 0x80:
                out.append(c)
                i += 1
                continue
            x = lambda t, h, l: extract(t, h, l)
            if br(self.in_range(c, 0, 0x7f)):
                out.append(x(c, 7, 0))
            elif br(self.in_range(c, 0x80, 0x7ff)):
                b = bv(c, 16)
                out += [norm(z3.Concat(z3.BitVecVal(6, 3), z3.Extract(10, 6, b))), norm(z3.Concat(z3.BitVecVal(2, 2), z3.Extract(5, 0, b)))]
            elif br(self.in_range(c, 0xd800, 0xdfff)):
                if i + 1 < len(u) and br(self.in_range(c, 0xd800, 0xdbff)) and br(self.in_range(u[i + 1], 0xdc00, 0xdfff)):
                    b = bv(self.cp4(c, u[i + 1]), 32)
                    out += [norm(z3.Concat(z3.BitVecVal(30, 5), z3.Extract(20, 18, b)))]
                    out += [norm(z3.Concat(z3.BitVecVal(2, 2), z3.Extract(h, h - 5, b))) for h in (17, 11, 5)]
                    i += 1
                else:
                    out += [0xef, 0xbf, 0xbd]
            else:
                b = bv(c, 16)
                out += [norm(z3.Concat(z3.BitVecVal(14, 4), z3.Extract(15, 12, b)))]
                out += [norm(z3.Concat(z3.BitVecVal(2, 2), z3.Extract(h, h - 5, b))) for h in (11, 5)]
            i += 1
        return out

    def utf8_decode(self, bs, ignore_bom, fatal=False):
        """the WHATWG UTF-8 decoder; the class of each lead byte is decided by forking, its refinements stay terms"""
        br = self.ctx.branch
        n = len(bs)
        i = 0
        out = []
        if not ignore_bom and n >= 3 and br(conj([eq(x, y, 8) for x, y in zip(bs, (0xef, 0xbb, 0xbf))])):
            i = 3

        def bad():
            if fatal:
                self.throw("TypeError", "The encoded data was not valid for encoding utf-8")
            out.append(0xfffd)
        while i < n:
            b = bs[i]
            i += 1
            if br(self.in_range(b, 0, 0x7f)):
                out.append(zext(b, 8, 16))
                continue
            if br(self.in_range(b, 0xc2, 0xdf)):
                need, pay = 1, 5
            elif br(self.in_range(b, 0xe0, 0xef)):
                need, pay = 2, 4
            elif br(self.in_range(b, 0xf0, 0xf4)):
                need, pay = 3, 3
            else:
                bad()
                continue
            x = bv(b, 8)
            lo, hi = z3.BitVecVal(0x80, 8), z3.BitVecVal(0xbf, 8)
            if need == 2:
                lo, hi = z3.If(x == 0xe0, z3.BitVecVal(0xa0, 8), lo), z3.If(x == 0xed, z3.BitVecVal(0x9f, 8), hi)
            elif need == 3:
                lo, hi = z3.If(x == 0xf0, z3.BitVecVal(0x90, 8), lo), z3.If(x == 0xf4, z3.BitVecVal(0x8f, 8), hi)
            parts = [z3.Extract(pay - 1, 0, x)]
            ok = True
            for _ in range(need):
                if i >= n:
                    ok = False
                    break
                c = bv(bs[i], 8)
                if not br(norm_b(z3.And(z3.UGE(c, lo), z3.ULE(c, hi)))):
                    ok = False
                    break
                i += 1
                lo, hi = z3.BitVecVal(0x80, 8), z3.BitVecVal(0xbf, 8)
                parts.append(z3.Extract(5, 0, c))
            if not ok:
                bad()
                continue
            cp = z3.Concat(*parts)
            if need == 1:
                out.append(norm(z3.ZeroExt(5, cp)))
            elif need == 2:
                out.append(norm(cp))
            else:
                d = cp - 0x10000
                out += [norm(z3.Concat(z3.BitVecVal(0b110110, 6), z3.Extract(19, 10, d))),
                        norm(z3.Concat(z3.BitVecVal(0b110111, 6), z3.Extract(9, 0, d)))]
        return mkstr(out)

    # -- globals ----------------------------------------------------------------------------------
    def setup(self):
        g = self.glob.v
        g["undefined"] = UNDEF
        g["NaN"] = float("nan")
        g["Infinity"] = float("inf")

        def errcls(name, base):
            c = Cls(name, base)

            def init(this, *a):
                this.p["message"] = a[0] if a else ""
                this.p["name"] = name
                return this
            c.native_init = init
            g[name] = c
            return c
        e = errcls("Error", None)
        for n in ("RangeError", "TypeError", "SyntaxError", "ReferenceError", "EvalError"):
            errcls(n, e)

        def ncls(name, make):
            c = Cls(name, None)
            c.native_new = make
            g[name] = c
            return c

        def mkarr(*a):
            if len(a) == 1 and isnum(a[0]):
                n = a[0]
                if isinstance(n, SymNum):
                    if self.ctx.branch(norm_b(z3.UGE(n.e, 2**32))):
                        self.throw("RangeError", "Invalid array length")
                    return LazyArr(self.ctx, n.e)
                if not isinstance(n, int) or n < 0 or n >= 2**32:
                    self.throw("RangeError", "Invalid array length")
                if n > 3_000_000:
                    raise Unsupported("huge array")
                return Arr([Sentinel] * n)
            return Arr(a)
        c = ncls("Array", mkarr)
        c.p["isArray"] = Native(lambda this, x=UNDEF: isinstance(x, Arr), "isArray")

        def arrfrom(this, src, f=None):
            items = self.iterate(src) if not (isinstance(src, Obj) and type(src) is Obj) else [UNDEF] * self.index(self.get(src, "length"))
            return Arr([self.call(f, UNDEF, [v, i]) if f is not None and f is not UNDEF else v for i, v in enumerate(items)])
        c.p["from"] = Native(arrfrom, "from")
        c.p["of"] = Native(lambda this, *a: Arr(a), "of")

        def mkbuf(n=0):
            n = self.index(n)
            if n < 0:
                self.throw("RangeError", "Array buffer allocation failed")
            return Buf([0] * n)
        ncls("ArrayBuffer", mkbuf)
        ncls("SharedArrayBuffer", mkbuf)

        def mkdv(buf=UNDEF, off=UNDEF, n=UNDEF):
            if not isinstance(buf, Buf):
                self.throw("TypeError", "First argument to DataView constructor must be an ArrayBuffer")
            return mkview("dv", buf, off, n)

        def mkview(kind, buf, off, n):
            off = 0 if off is UNDEF else self.index(off, len(buf.d))
            if off < 0 or off > len(buf.d):
                self.throw("RangeError", "Start offset is outside the bounds of the buffer")
            n = len(buf.d) - off if n is UNDEF else self.index(n, len(buf.d) - off)
            if n < 0 or off + n > len(buf.d):
                self.throw("RangeError", "Invalid length")
            return View(kind, buf, off, n)

        def mku8(x=0, off=UNDEF, n=UNDEF):
            if isinstance(x, Buf):
                return mkview("u8", x, off, n)
            if isinstance(x, (Arr, View)):
                d = [self.word(v, 8) for v in self.iterate(x)] if isinstance(x, Arr) else list(x.buf.d[x.off:x.off + x.n])
                return View("u8", Buf(d), 0, len(d))
            k = self.index(x)
            if k < 0:
                self.throw("RangeError", "Invalid typed array length")
            return View("u8", Buf([0] * k), 0, k)
        ncls("DataView", mkdv)
        u8 = ncls("Uint8Array", mku8)
        u8.p["from"] = Native(lambda this, x: mku8(Arr(self.iterate(x))), "from")

        def mkenc():
            o = Obj()

            def enc(this, s=""):
                b = self.utf8_encode(s)
                return View("u8", Buf(b), 0, len(b))

            def enc_into(this, s, dest):
                b = self.utf8_encode(s)
                if len(b) > dest.n:
                    raise Unsupported("encodeInto overflow")
                dest.buf.d[dest.off:dest.off + len(b)] = b
                r = Obj()
                r.p["read"], r.p["written"] = len(units(s)), len(b)
                return r
            o.p["encode"] = Native(enc, "encode")
            o.p["encodeInto"] = Native(enc_into, "encodeInto")
            return o
        ncls("TextEncoder", mkenc)

        def mkdec(label="utf-8", opts=UNDEF):
            if isinstance(label, str) and label.lower() not in ("utf-8", "utf8", "unicode-1-1-utf-8"):
                raise Unsupported("TextDecoder " + label)
            ig = fatal = False
            if isinstance(opts, Obj):
                ig = self.truthy(self.get(opts, "ignoreBOM"))
                fatal = self.truthy(self.get(opts, "fatal"))
            o = Obj()

            def dec(this, b=UNDEF, *_):
                if b is UNDEF:
                    return ""
                d = b.d if isinstance(b, Buf) else b.buf.d[b.off:b.off + b.n]
                return self.utf8_decode(d, ig, fatal)
            o.p["decode"] = Native(dec, "decode")
            return o
        ncls("TextDecoder", mkdec)

        def mkmap(it=UNDEF):
            m = JSMap()
            if it is not UNDEF and it is not NULL:
                for x in self.iterate(it):
                    self.map_set(m, x.a[0], x.a[1])
            return m
        ncls("Map", mkmap)

        def mkset(it=UNDEF):
            m = JSSet()
            if it is not UNDEF and it is not NULL:
                for x in self.iterate(it):
                    self.set_add(m, x)
            return m
        ncls("Set", mkset)
        o = Cls("Object", None)
        g["Object"] = o
        o.p["values"] = Native(lambda this, x: Arr([x.p[k] for k in self.okeys(x)]), "values")
        o.p["keys"] = Native(lambda this, x: Arr(self.okeys(x)), "keys")
        o.p["entries"] = Native(lambda this, x: Arr([Arr([k, x.p[k]]) for k in self.okeys(x)]), "entries")
        o.p["freeze"] = Native(lambda this, x: x, "freeze")
        o.p["hasOwn"] = Native(lambda this, x, k: self.own(x, k), "hasOwn")

        def assign(this, t, *ss):
            for s in ss:
                t.p.update(s.p)
            return t
        o.p["assign"] = Native(assign, "assign")
        pr = Obj()
        pr.p["hasOwnProperty"] = Native(lambda this, k: self.own(this, k), "hasOwnProperty")
        o.p["prototype"] = pr

        def tonumber(this, x=0):
            if isinstance(x, JBig):
                if isinstance(x.e, int):
                    return x.e
                if self.ctx.branch(z3.And(x.e >= 0, x.e < 2**53)) or self.ctx.branch(z3.And(x.e < 0, x.e > -2**53)):
                    return self.mkn(z3.Extract(63, 0, x.e))
                # one stand-in for every number past 2^53, and one for those below -2^53
                return float(2**60) if self.ctx.branch(x.e >= 0) else -float(2**60)
            return self.tonum(x)
        nf = Native(tonumber, "Number")
        g["Number"] = nf
        nf.p["isInteger"] = Native(lambda this, x: isinstance(x, (int, SymNum)) and not isinstance(x, bool), "isInteger")
        nf.p["MAX_SAFE_INTEGER"] = 2**53 - 1

        def tobig(this, x=UNDEF):
            if isinstance(x, JBig):
                return x
            if isinstance(x, bool):
                return JBig(int(x))
            if isinstance(x, int):
                return JBig(x)
            if isinstance(x, SymNum):
                return JBig(z3.SignExt(64, x.e))
            if isinstance(x, float):
                self.throw("RangeError", "cannot be converted to a BigInt because it is not an integer")
            if isinstance(x, str):
                return JBig(int(x))
            self.throw("TypeError", "Cannot convert to a BigInt")
        bf = Native(tobig, "BigInt")
        g["BigInt"] = bf
        bf.p["asUintN"] = Native(lambda this, n, x: JBig(x.e & ((1 << n) - 1)) if isinstance(x.e, int) else JBig(zext(extract(x.e, n - 1, 0), n, 128)), "asUintN")
        bf.p["asIntN"] = Native(lambda this, n, x: JBig(symcore.sx(x.e & ((1 << n) - 1), n)) if isinstance(x.e, int) else JBig(sext(extract(x.e, n - 1, 0), n, 128)), "asIntN")
        g["String"] = Native(lambda this, x="": self.tostr(x), "String")
        g["String"].p["fromCharCode"] = Native(lambda this, *a: mkstr([self.word(x, 16) for x in a]), "fromCharCode")
        g["Boolean"] = Native(lambda this, x=UNDEF: self.mkb(self.cond(x)), "Boolean")
        m = Obj()
        g["Math"] = m

        def fround(this, x):
            if isinstance(x, F32):
                return x
            b = self.fbits(x, 32)
            return F32(b)
        m.p["fround"] = Native(fround, "fround")

        def mm(isnmax):
            def f(this, *a):
                vals = [self.i64(self.tonum(x)) for x in a]
                if any(v is None for v in vals):
                    raise Unsupported("Math.min/max of floats")
                r = vals[0]
                for v in vals[1:]:
                    if isinstance(r, int) and isinstance(v, int):
                        r = max(r, v) if isnmax else min(r, v)
                    else:
                        a_, b_ = bv(r, 64), bv(v, 64)
                        r = z3.If(a_ > b_ if isnmax else a_ < b_, a_, b_)
                return self.mkn(bv(r, 64)) if is_sym(r) else r
            return f
        m.p["max"], m.p["min"] = Native(mm(True), "max"), Native(mm(False), "min")

        def trunc(this, x):
            x = self.tonum(x)
            if isinstance(x, float):
                return num(float(int(x)))
            if isinstance(x, (int, SymNum)):
                return x
            raise Unsupported("Math.trunc")
        m.p["trunc"] = m.p["floor"] = m.p["round"] = Native(trunc, "trunc")
        con = Obj()
        for n in ("log", "error", "warn", "info", "debug"):
            con.p[n] = Native(lambda this, *a: UNDEF, n)
        g["console"] = con

    def okeys(self, x):
        if isinstance(x, Arr):
            return [str(i) for i in range(len(x.a))]
        ints = sorted((k for k in x.p if k.isdigit()), key=int)
        return ints + [k for k in x.p if not k.isdigit()]

    def iterate(self, x):
        if isinstance(x, Arr):
            return [UNDEF if v is Sentinel else v for v in x.a]
        if isinstance(x, View) and x.kind == "u8":
            return [self.byte(b) for b in x.buf.d[x.off:x.off + x.n]]
        if isinstance(x, (str, SymStr)):
            u, out, i = units(x), [], 0
            while i < len(u):
                two = i + 1 < len(u) and self.ctx.branch(self.in_range(u[i], 0xd800, 0xdbff)) and self.ctx.branch(self.in_range(u[i + 1], 0xdc00, 0xdfff))
                out.append(mkstr(u[i:i + 1 + two]))
                i += 1 + two
            return out
        if isinstance(x, JSSet):
            return list(x.items)
        if isinstance(x, JSMap):
            return [Arr(i) for i in x.items]
        self.throw("TypeError", "object is not iterable")

    # -- calls ---------------------------------------------------------------------------------
    def call(self, f, this, args):
        if isinstance(f, Native):
            return f.f(this, *args)
        if isinstance(f, Cls):
            self.throw("TypeError", "Class constructor cannot be invoked without 'new'")
        if not isinstance(f, Fn):
            self.throw("TypeError", "not a function")
        n = f.node
        self.fns.add(f.name)
        env = Env(f.env)
        if not f.arrow:
            env.v["this"] = this
            env.v["%home"] = f.home
        self.params(n.get("parameters", []), args, env)
        b = n["body"]
        if b["k"] != "Block":
            return self.ev(b, env)
        try:
            self.block(b["statements"], env, hoist=True)
        except ReturnX as r:
            return r.v
        return UNDEF

    def params(self, ps, args, env):
        for i, p in enumerate(ps):
            if p.get("dotDotDotToken"):
                env.v[p["name"]["text"]] = Arr(args[i:])
                break
            v = args[i] if i < len(args) else UNDEF
            if v is UNDEF and "initializer" in p:
                v = self.ev(p["initializer"], env)
            self.bind(p["name"], v, env)

    def bind(self, target, v, env):
        if target["k"] == "Identifier":
            env.v[target["text"]] = v
        elif target["k"] == "ArrayBindingPattern":
            items = self.iterate(v)
            for i, el in enumerate(target["elements"]):
                if el["k"] == "OmittedExpression":
                    continue
                x = items[i] if i < len(items) else UNDEF
                if el.get("dotDotDotToken"):
                    x = Arr(items[i:])
                elif x is UNDEF and "initializer" in el:
                    x = self.ev(el["initializer"], env)
                self.bind(el["name"], x, env)
        elif target["k"] == "ObjectBindingPattern":
            for el in target["elements"]:
                key = el.get("propertyName", el["name"])["text"]
                x = self.get(v, key)
                if x is UNDEF and "initializer" in el:
                    x = self.ev(el["initializer"], env)
                self.bind(el["name"], x, env)
        else:
            raise Unsupported("binding " + target["k"])

    def new(self, c, args):
        if isinstance(c, Cls):
            if hasattr(c, "native_new"):
                return c.native_new(*args)
            o = Obj(c.protoobj, c)
            self.construct(c, o, args)
            return o
        if isinstance(c, Fn):
            o = Obj(c.p.get("prototype"))
            r = self.call(c, o, args)
            return r if isinstance(r, Obj) else o
        self.throw("TypeError", "not a constructor")

    def construct(self, c, o, args):
        if hasattr(c, "native_init"):
            c.native_init(o, *args)
            return
        if c.ctor is not None:
            env = Env(c.env)
            env.v["this"] = o
            env.v["%class"] = c
            env.v["%home"] = c
            if c.base is None:
                self.init_fields(c, o)
            self.params(c.ctor["parameters"], args, env)
            self.fns.add(c.name + ".constructor")
            try:
                self.block(c.ctor["body"]["statements"], env, hoist=True)
            except ReturnX:
                pass
        else:
            if c.base is not None:
                self.construct(c.base, o, args)
            self.init_fields(c, o)

    def init_fields(self, c, o):
        for f in c.fields:
            env = Env(c.env)
            env.v["this"] = o
            env.v["%home"] = c
            o.p[self.pname(f["name"], env)] = self.ev(f["initializer"], env) if "initializer" in f else UNDEF

    def pname(self, n, env):
        if n["k"] == "ComputedPropertyName":
            return self.key(self.ev(n["expression"], env))
        if n["k"] == "FirstLiteralToken":
            return self.key(self.number(n["text"]))
        return n["text"]

    @staticmethod
    def number(t):
        t = t.replace("_", "")
        if t.lower().startswith(("0x", "0b", "0o")):
            return int(t, 0)
        return num(float(t)) if any(c in t for c in ".eE") else int(t)

    def mkclass(self, n, env):
        base = None
        for h in n.get("heritageClauses", []):
            base = self.ev(h["types"][0]["expression"], env)
        nm = n["name"]["text"] if "name" in n else ""
        c = Cls(nm, base)
        cenv = Env(env)
        if nm:
            cenv.v[nm] = c
        c.env = cenv
        statics = []
        for m in n["members"]:
            k = m["k"]
            st = any(x["k"] == "StaticKeyword" for x in m.get("modifiers", []))
            tgt = c if st else c.protoobj
            if k == "Constructor":
                c.ctor = m
            elif k == "MethodDeclaration":
                name = self.pname(m["name"], cenv)
                tgt.p[name] = Fn(m, cenv, name=f"{nm}.{name}", home=c if not st else ("static", c))
            elif k in ("GetAccessor", "SetAccessor"):
                name = self.pname(m["name"], cenv)
                old = tgt.p.get(name, ("accessor", None, None))
                f = Fn(m, cenv, name=f"{nm}.{name}", home=c)
                tgt.p[name] = ("accessor", f, old[2]) if k == "GetAccessor" else ("accessor", old[1], f)
            elif k == "PropertyDeclaration":
                if st:
                    statics.append(m)
                else:
                    c.fields.append(m)
            elif k == "SemicolonClassElement":
                pass
            elif k == "ClassStaticBlockDeclaration":
                statics.append(m)
            else:
                raise Unsupported("class member " + k)
        for m in statics:
            e2 = Env(cenv)
            e2.v["this"] = c
            if m["k"] == "ClassStaticBlockDeclaration":
                self.block(m["body"]["statements"], e2, hoist=True)
            else:
                c.p[self.pname(m["name"], cenv)] = self.ev(m["initializer"], e2) if "initializer" in m else UNDEF
        return c

    # -- statements ---------------------------------------------------------------------------
    def block(self, stmts, env, hoist=False):
        for s in stmts:
            if s["k"] == "FunctionDeclaration":
                env.v[s["name"]["text"]] = Fn(s, env, name=s["name"]["text"])
        for s in stmts:
            self.st(s, env)

    def st(self, s, env):
        self.steps += 1
        if self.steps > self.FNSTEP:
            raise symcore.Budget("step bound of the interpreter reached")
        return getattr(self, "S_" + s["k"], self.S_unknown)(s, env)

    def S_unknown(self, s, env): raise Unsupported("statement " + s["k"])
    def S_FunctionDeclaration(self, s, env): pass
    def S_EmptyStatement(self, s, env): pass
    def S_ExportDeclaration(self, s, env): pass
    def S_ExportAssignment(self, s, env): pass
    def S_NotEmittedStatement(self, s, env): pass

    def S_FirstStatement(self, s, env):          # variable statement
        self.vardecl(s["declarationList"], env)
    S_VariableStatement = S_FirstStatement

    def vardecl(self, dl, env):
        for d in dl["declarations"]:
            if dl.get("flavor") == "var" and "initializer" not in d:
                if env.find(d["name"].get("text")) is None:
                    env.v[d["name"]["text"]] = UNDEF
                continue
            self.bind(d["name"], self.ev(d["initializer"], env) if "initializer" in d else UNDEF, env)

    def S_ClassDeclaration(self, s, env): env.v[s["name"]["text"]] = self.mkclass(s, env)
    def S_ExpressionStatement(self, s, env): self.ev(s["expression"], env)
    def S_Block(self, s, env): self.block(s["statements"], Env(env))
    def S_ReturnStatement(self, s, env): raise ReturnX(self.ev(s["expression"], env) if "expression" in s else UNDEF)
    def S_ThrowStatement(self, s, env): raise JSThrow(self.ev(s["expression"], env))
    def S_BreakStatement(self, s, env):
        if "label" in s:
            raise Unsupported("labelled break")
        raise BreakX()

    def S_ContinueStatement(self, s, env):
        if "label" in s:
            raise Unsupported("labelled continue")
        raise ContinueX()

    def S_IfStatement(self, s, env):
        if self.truthy(self.ev(s["expression"], env)):
            self.st(s["thenStatement"], env)
        elif "elseStatement" in s:
            self.st(s["elseStatement"], env)

    def S_WhileStatement(self, s, env):
        while self.truthy(self.ev(s["expression"], env)):
            try:
                self.st(s["statement"], env)
            except BreakX:
                break
            except ContinueX:
                continue

    def S_DoStatement(self, s, env):
        while True:
            try:
                self.st(s["statement"], env)
            except BreakX:
                break
            except ContinueX:
                pass
            if not self.truthy(self.ev(s["expression"], env)):
                break

    def S_ForStatement(self, s, env):
        e = Env(env)
        i = s.get("initializer")
        if i is not None:
            if i["k"] == "VariableDeclarationList":
                self.vardecl(i, e)
            else:
                self.ev(i, e)
        while True:
            if "condition" in s and not self.truthy(self.ev(s["condition"], e)):
                break
            try:
                self.st(s["statement"], e)
            except BreakX:
                break
            except ContinueX:
                pass
            ne = Env(env)
            ne.v = dict(e.v)
            e = ne
            if "incrementor" in s:
                self.ev(s["incrementor"], e)

    def S_ForOfStatement(self, s, env):
        for v in self.iterate(self.ev(s["expression"], env)):
            e = Env(env)
            self.bind(s["initializer"]["declarations"][0]["name"], v, e)
            try:
                self.st(s["statement"], e)
            except BreakX:
                break
            except ContinueX:
                continue

    def S_ForInStatement(self, s, env):
        for v in self.okeys(self.ev(s["expression"], env)):
            e = Env(env)
            self.bind(s["initializer"]["declarations"][0]["name"], v, e)
            try:
                self.st(s["statement"], e)
            except BreakX:
                break
            except ContinueX:
                continue

    def S_SwitchStatement(self, s, env):
        v = self.ev(s["expression"], env)
        e = Env(env)
        cl = s["caseBlock"]["clauses"]
        start = None
        for i, c in enumerate(cl):
            if c["k"] == "CaseClause" and self.ctx.branch(self.eqc(v, self.ev(c["expression"], e), True)):
                start = i
                break
        if start is None:
            for i, c in enumerate(cl):
                if c["k"] == "DefaultClause":
                    start = i
        if start is None:
            return
        try:
            for c in cl[start:]:
                self.block(c["statements"], e)
        except BreakX:
            pass

    def S_TryStatement(self, s, env):
        try:
            try:
                self.st(s["tryBlock"], env)
            except JSThrow as t:
                if "catchClause" not in s:
                    raise
                e = Env(env)
                c = s["catchClause"]
                if "variableDeclaration" in c:
                    self.bind(c["variableDeclaration"]["name"], t.v, e)
                self.st(c["block"], e)
        finally:
            if "finallyBlock" in s:
                self.st(s["finallyBlock"], env)

    # -- expressions ------------------------------------------------------------------------
    def ev(self, n, env):
        return getattr(self, "E_" + n["k"], self.E_unknown)(n, env)

    def E_unknown(self, n, env): raise Unsupported("expression " + n["k"])

    def E_Identifier(self, n, env):
        e = env.find(n["text"])
        if e is None:
            self.throw("ReferenceError", n["text"] + " is not defined")
        return e.v[n["text"]]

    def E_ThisKeyword(self, n, env):
        e = env.find("this")
        return e.v["this"] if e else UNDEF

    def E_FirstLiteralToken(self, n, env): return self.number(n["text"])
    E_NumericLiteral = E_FirstLiteralToken
    def E_BigIntLiteral(self, n, env): return JBig(int(n["text"].rstrip("n").replace("_", ""), 0))
    def E_StringLiteral(self, n, env): return n["text"]
    E_NoSubstitutionTemplateLiteral = E_StringLiteral
    E_FirstTemplateToken = E_StringLiteral
    def E_TrueKeyword(self, n, env): return True
    def E_FalseKeyword(self, n, env): return False
    def E_NullKeyword(self, n, env): return NULL
    def E_ParenthesizedExpression(self, n, env): return self.ev(n["expression"], env)
    def E_ArrowFunction(self, n, env): return Fn(n, env, arrow=True, name="=>")
    def E_FunctionExpression(self, n, env): return Fn(n, env, name=n.get("name", {}).get("text", "function"))
    def E_ClassExpression(self, n, env): return self.mkclass(n, env)
    def E_VoidExpression(self, n, env): return UNDEF

    def E_TypeOfExpression(self, n, env):
        if n["expression"]["k"] == "Identifier" and env.find(n["expression"]["text"]) is None:
            return "undefined"
        v = self.ev(n["expression"], env)
        if v is UNDEF:
            return "undefined"
        if isinstance(v, (bool, SymB)):
            return "boolean"
        if isnum(v):
            return "number"
        if isinstance(v, (str, SymStr)):
            return "string"
        if isinstance(v, JBig):
            return "bigint"
        if isinstance(v, (Fn, Native, Cls)):
            return "function"
        return "object"

    def E_ArrayLiteralExpression(self, n, env):
        out = []
        for x in n["elements"]:
            if x["k"] == "SpreadElement":
                out += self.iterate(self.ev(x["expression"], env))
            else:
                out.append(self.ev(x, env))
        return Arr(out)

    def E_ObjectLiteralExpression(self, n, env):
        o = Obj()
        for p in n["properties"]:
            if p["k"] == "PropertyAssignment":
                o.p[self.pname(p["name"], env)] = self.ev(p["initializer"], env)
            elif p["k"] == "ShorthandPropertyAssignment":
                o.p[p["name"]["text"]] = self.ev(p["name"], env)
            elif p["k"] == "SpreadAssignment":
                o.p.update(self.ev(p["expression"], env).p)
            elif p["k"] == "MethodDeclaration":
                o.p[self.pname(p["name"], env)] = Fn(p, env, name=p["name"].get("text", ""))
            else:
                raise Unsupported("property " + p["k"])
        return o

    def E_TemplateExpression(self, n, env):
        out = units(n["head"]["text"])
        for s in n["templateSpans"]:
            out = out + units(self.tostr(self.ev(s["expression"], env))) + units(s["literal"]["text"])
        return mkstr(out)

    def E_ConditionalExpression(self, n, env):
        c = self.settle(self.ev(n["condition"], env))
        if isinstance(c, SymB) and {n["whenTrue"]["k"], n["whenFalse"]["k"]} <= {"NumericLiteral", "FirstLiteralToken"}:
            a, b = self.ev(n["whenTrue"], env), self.ev(n["whenFalse"], env)
            if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool):
                return SymNum(z3.If(c.c, z3.BitVecVal(a, 64), z3.BitVecVal(b, 64)))
        return self.ev(n["whenTrue"] if self.truthy(c) else n["whenFalse"], env)

    def E_PropertyAccessExpression(self, n, env):
        if n["expression"]["k"] == "SuperKeyword":
            h = env.find("%home").v["%home"]
            base = h[1].base if isinstance(h, tuple) else h.base.protoobj
            return self.get(base, n["name"]["text"])
        o = self.ev(n["expression"], env)
        if "questionDotToken" in n and (o is UNDEF or o is NULL):
            return UNDEF
        return self.get(o, n["name"]["text"])

    def E_ElementAccessExpression(self, n, env):
        o = self.ev(n["expression"], env)
        if "questionDotToken" in n and (o is UNDEF or o is NULL):
            return UNDEF
        return self.get(o, self.ev(n["argumentExpression"], env))

    def args(self, n, env):
        out = []
        for x in n.get("arguments", []):
            if x["k"] == "SpreadElement":
                out += self.iterate(self.ev(x["expression"], env))
            else:
                out.append(self.ev(x, env))
        return out

    def E_CallExpression(self, n, env):
        c = n["expression"]
        while c["k"] == "ParenthesizedExpression":
            c = c["expression"]
        if c["k"] == "SuperKeyword":
            cls = env.find("%class").v["%class"]
            this = env.find("this").v["this"]
            self.construct(cls.base, this, self.args(n, env))
            self.init_fields(cls, this)
            return UNDEF
        if c["k"] == "PropertyAccessExpression":
            if c["expression"]["k"] == "SuperKeyword":
                return self.call(self.ev(c, env), env.find("this").v["this"], self.args(n, env))
            this = self.ev(c["expression"], env)
            if "questionDotToken" in c and (this is UNDEF or this is NULL):
                return UNDEF
            f = self.get(this, c["name"]["text"])
            if f is UNDEF:
                if isinstance(this, (Arr, View, Buf, JSMap, JSSet)) or id(this) in self.natives or not isinstance(this, Obj):
                    raise Unsupported(f"library method {type(this).__name__}.{c['name']['text']}")
                self.throw("TypeError", c["name"]["text"] + " is not a function")
        elif c["k"] == "ElementAccessExpression":
            this = self.ev(c["expression"], env)
            f = self.get(this, self.ev(c["argumentExpression"], env))
        else:
            this, f = UNDEF, self.ev(c, env)
        if "questionDotToken" in n and (f is UNDEF or f is NULL):
            return UNDEF
        return self.call(f, this, self.args(n, env))

    def E_NewExpression(self, n, env): return self.new(self.ev(n["expression"], env), self.args(n, env))

    def E_PrefixUnaryExpression(self, n, env):
        op = n["operator"]
        if op in ("++", "--"):
            v = self.tonum(self.ev(n["operand"], env))
            r = self.arith("+", v, 1 if op == "++" else -1)
            self.assign(n["operand"], r, env)
            return r
        v = self.ev(n["operand"], env)
        if op == "!":
            return self.mkb(neg(self.cond(v)))
        if op == "-":
            if isinstance(v, JBig):
                return JBig(-v.e)
            v = self.tonum(v)
            if isinstance(v, (int, float)):
                return -v if v != 0 else (-0.0 if not isinstance(v, float) else -v)
            if isinstance(v, SymNum):
                return self.mkn(-v.e)
            if isinstance(v, (F32, F64)):
                w = 32 if isinstance(v, F32) else 64
                return type(v)(norm(bv(v.b, w) ^ z3.BitVecVal(1 << (w - 1), w)))
        if op == "+":
            return self.tonum(v)
        if op == "~":
            return self.arith("-", -1, self.toint32(v))
        raise Unsupported("unary " + op)

    def toint32(self, v):
        w = self.word(v, 32)
        return symcore.sx(w, 32) if isinstance(w, int) else self.mkn(z3.SignExt(32, w))

    def E_PostfixUnaryExpression(self, n, env):
        v = self.ev(n["operand"], env)
        if isinstance(v, JBig):
            self.assign(n["operand"], JBig(v.e + (1 if n["operator"] == "++" else -1)), env)
            return v
        v = self.tonum(v)
        self.assign(n["operand"], self.arith("+", v, 1 if n["operator"] == "++" else -1), env)
        return v

    def E_DeleteExpression(self, n, env):
        x = n["expression"]
        o = self.ev(x["expression"], env)
        o.p.pop(x["name"]["text"] if x["k"] == "PropertyAccessExpression" else self.key(self.ev(x["argumentExpression"], env)), None)
        return True

    def assign(self, t, v, env):
        while t["k"] == "ParenthesizedExpression":
            t = t["expression"]
        if t["k"] == "Identifier":
            e = env.find(t["text"])
            if e is None:
                self.throw("ReferenceError", t["text"] + " is not defined")
            e.v[t["text"]] = v
        elif t["k"] == "PropertyAccessExpression":
            self.set(self.ev(t["expression"], env), t["name"]["text"], v)
        elif t["k"] == "ElementAccessExpression":
            self.set(self.ev(t["expression"], env), self.ev(t["argumentExpression"], env), v)
        else:
            raise Unsupported("assignment to " + t["k"])

    def E_BinaryExpression(self, n, env):
        op = n["op"]
        if op == "=":
            v = self.ev(n["right"], env)
            if n["left"]["k"] in ("ArrayLiteralExpression", "ObjectLiteralExpression"):
                raise Unsupported("destructuring assignment")
            self.assign(n["left"], v, env)
            return v
        if op == "&&":
            l = self.ev(n["left"], env)
            return self.ev(n["right"], env) if self.truthy(l) else (False if isinstance(l, SymB) else l)
        if op == "||":
            l = self.ev(n["left"], env)
            return (True if isinstance(l, SymB) else l) if self.truthy(l) else self.ev(n["right"], env)
        if op == "??":
            l = self.ev(n["left"], env)
            return self.ev(n["right"], env) if l is UNDEF or l is NULL else l
        if op in ("&&=", "||=", "??="):
            l = self.ev(n["left"], env)
            go = {"&&=": lambda: self.truthy(l), "||=": lambda: not self.truthy(l), "??=": lambda: l is UNDEF or l is NULL}[op]()
            if not go:
                return l
            v = self.ev(n["right"], env)
            self.assign(n["left"], v, env)
            return v
        l = self.ev(n["left"], env)
        r = self.ev(n["right"], env)
        if op == ",":
            return r
        if op in ("===", "!==", "==", "!="):
            c = self.eqc(l, r, len(op) == 3)
            return self.mkb(neg(c) if op[0] == "!" else c)
        if op in ("<", ">", "<=", ">="):
            return self.rel(op, l, r)
        if op == "instanceof":
            return self.instanceof(l, r)
        if op == "in":
            if isinstance(l, (SymNum, JBig)) and not (isinstance(l, JBig) and isinstance(l.e, int)):
                w = 64 if isinstance(l, SymNum) else 128
                ks = [k for k in self.okeys(r) if self.isint(k)]
                return self.mkb(disj([eq(l.e, int(k), w) for k in ks]))
            if isinstance(r, Arr):
                k = self.key(l)
                return k.isdigit() and int(k) < len(r.a) and r.a[int(k)] is not Sentinel
            x = r
            while x is not None:
                if self.key(l) in x.p:
                    return True
                x = x.base if isinstance(x, Cls) else x.proto
            return False
        if op[-1] == "=":
            v = self.arith(op[:-1], l, r)
            self.assign(n["left"], v, env)
            return v
        return self.arith(op, l, r)

    def instanceof(self, o, c):
        if isinstance(c, Cls):
            if c.name == "ArrayBuffer":
                return isinstance(o, Buf)
            if c.name == "SharedArrayBuffer":
                return False
            if c.name == "DataView":
                return isinstance(o, View) and o.kind == "dv"
            if c.name == "Uint8Array":
                return isinstance(o, View) and o.kind == "u8"
            if c.name == "Array":
                return isinstance(o, Arr)
            x = o.cls if isinstance(o, Obj) else None
            while x is not None:
                if x is c:
                    return True
                x = x.base
            return False
        raise Unsupported("instanceof")

    def eqc(self, a, b, strict):
        """condition of a == b"""
        for p, q in ((a, b), (b, a)):
            if isinstance(p, OneOf):
                if not any(v is q or (v in (UNDEF, NULL)) for _, v in p.alts) and q in (UNDEF, NULL):
                    return False
        a, b = self.settle(a), self.settle(b)
        if a is Sentinel:
            a = UNDEF
        if b is Sentinel:
            b = UNDEF
        if not strict:
            if (a is UNDEF or a is NULL) and (b is UNDEF or b is NULL):
                return True
            if isinstance(a, JBig) != isinstance(b, JBig) and (isnum(a) or isnum(b)):
                x, y = (a, b) if isinstance(a, JBig) else (b, a)
                yi = self.i64(y)
                if yi is None:
                    raise Unsupported("bigint == float")
                if isinstance(x.e, int) and isinstance(yi, int):
                    return x.e == yi
                return norm_b(bv(x.e, 128) == (z3.SignExt(64, bv(yi, 64)) if is_sym(yi) else z3.BitVecVal(yi, 128)))
            if isinstance(a, (bool, SymB)) and isnum(b):
                a = self.tonum(a)
            if isinstance(b, (bool, SymB)) and isnum(a):
                b = self.tonum(b)
        if isnum(a) and isnum(b):
            x, y = self.i64(a), self.i64(b)
            if x is not None and y is not None:
                if isinstance(x, int) and isinstance(y, int):
                    return x == y
                return norm_b(bv(x, 64) == bv(y, 64))
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return a == b
            return norm_b(z3.fpEQ(self.fp(a), self.fp(b)))
        if isinstance(a, (bool, SymB)) and isinstance(b, (bool, SymB)):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            ca, cb = (x.c if isinstance(x, SymB) else z3.BoolVal(x) for x in (a, b))
            return norm_b(ca == cb)
        if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
            x, y = units(a), units(b)
            return len(x) == len(y) and conj([eq(p, q, 16) for p, q in zip(x, y)])
        if isinstance(a, JBig) and isinstance(b, JBig):
            if isinstance(a.e, int) and isinstance(b.e, int):
                return a.e == b.e
            return norm_b(bv(a.e, 128) == bv(b.e, 128))
        return a is b

    def rel(self, op, a, b):
        big = isinstance(a, JBig) or isinstance(b, JBig)
        if big:
            f = lambda x: x.e if isinstance(x, JBig) else self.i64(self.tonum(x))
            x, y = f(a), f(b)
            if x is None or y is None:
                raise Unsupported("bigint compared with float")
            if isinstance(x, int) and isinstance(y, int):
                return {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]
            ext = lambda v: z3.BitVecVal(v, 128) if isinstance(v, int) else (z3.SignExt(128 - v.size(), v) if v.size() < 128 else v)
            x, y = ext(x), ext(y)
            return self.mkb({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op])
        if isinstance(a, str) and isinstance(b, str):
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        a, b = self.tonum(a), self.tonum(b)
        x, y = self.i64(a), self.i64(b)
        if x is not None and y is not None:
            if isinstance(x, int) and isinstance(y, int):
                return {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]
            x, y = bv(x, 64), bv(y, 64)
            return self.mkb({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op])
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        x, y = self.fp(a), self.fp(b)
        return self.mkb({"<": z3.fpLT, ">": z3.fpGT, "<=": z3.fpLEQ, ">=": z3.fpGEQ}[op](x, y))

    def arith(self, op, a, b):
        if op == "+" and (isinstance(a, (str, SymStr)) or isinstance(b, (str, SymStr))):
            return mkstr(units(self.tostr(a)) + units(self.tostr(b)))
        if isinstance(a, JBig) or isinstance(b, JBig):
            if not (isinstance(a, JBig) and isinstance(b, JBig)):
                self.throw("TypeError", "Cannot mix BigInt and other types, use explicit conversions")
            x, y = a.e, b.e
            if isinstance(x, int) and isinstance(y, int):
                f = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "&": lambda: x & y, "|": lambda: x | y,
                     "<<": lambda: x << y, ">>": lambda: x >> y}.get(op)
                if f is None:
                    raise Unsupported("bigint " + op)
                return JBig(f())
            x, y = bv(x, 128), bv(y, 128)
            f = {"+": lambda: x + y, "-": lambda: x - y, "&": lambda: x & y, "|": lambda: x | y, "<<": lambda: x << y, ">>": lambda: x >> y}.get(op)
            if f is None:
                raise Unsupported("symbolic bigint " + op)
            return JBig(norm(f()))
        a, b = self.tonum(a), self.tonum(b)
        if op in ("&", "|", "^", "<<", ">>", ">>>"):
            x, y = self.word(a, 32), self.word(b, 32)
            if isinstance(x, int) and isinstance(y, int):
                sxx = symcore.sx(x, 32)
                s = y & 31
                r = {"&": x & y, "|": x | y, "^": x ^ y, "<<": x << s, ">>": sxx >> s, ">>>": x >> s}[op] & 0xffffffff
                return r if op == ">>>" else symcore.sx(r, 32)
            x, y = bv(x, 32), bv(y, 32)
            s = y & 31
            r = {"&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y, "<<": lambda: x << s, ">>": lambda: x >> s, ">>>": lambda: z3.LShR(x, s)}[op]()
            return self.mkn(z3.ZeroExt(32, r) if op == ">>>" else z3.SignExt(32, r))
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if op == "+":
                return num(a + b)
            if op == "-":
                return num(a - b)
            if op == "*":
                return num(a * b)
            if op == "/":
                if b == 0:
                    return float("nan") if a == 0 or a != a else float("inf") * (1 if a > 0 else -1)
                return num(a / b) if a % b else num(a // b)
            if op == "%":
                import math
                return num(math.fmod(a, b)) if b else float("nan")
            if op == "**":
                return num(a ** b)
        x, y = self.i64(a), self.i64(b)
        if x is not None and y is not None and op in ("+", "-", "*"):
            x, y = bv(x, 64), bv(y, 64)
            return self.mkn({"+": x + y, "-": x - y, "*": x * y}[op])
        raise Unsupported(f"arithmetic {op} on symbolic floats")
