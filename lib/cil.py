"""Symbolic execution of the common intermediate language (CIL) of a .NET assembly, as lib/cs/Dump.cs prints it.

Integers are machine words (python int or z3 bit-vector), floats their bits, strings lists of UTF-16 units.  The methods of the base
library that generated code or the shim calls are modelled below, after their documented behaviour; anything else is Unsupported.
"""
import re
import struct

import z3

from symcore import Unsupported, bv, concat_le, conj, eq, extract, is_sym, mask, neg, norm, norm_b, sext, split_le, sx, zext

MAX_STEPS = 30_000_000

INTS = {"System.Boolean": (8, False), "System.Byte": (8, False), "System.SByte": (8, True), "System.Char": (16, False), "System.Int16": (16, True),
        "System.UInt16": (16, False), "System.Int32": (32, True), "System.UInt32": (32, False), "System.Int64": (64, True),
        "System.UInt64": (64, False), "System.IntPtr": (64, True), "System.UIntPtr": (64, False)}
FLOATS = {"System.Single": 32, "System.Double": 64}

EXC = {"System.Exception": "System.Object", "System.SystemException": "System.Exception", "System.ApplicationException": "System.Exception",
       "System.IO.IOException": "System.SystemException", "System.IO.EndOfStreamException": "System.IO.IOException",
       "System.IO.InvalidDataException": "System.SystemException",
       "System.ArgumentException": "System.SystemException", "System.ArgumentOutOfRangeException": "System.ArgumentException",
       "System.ArgumentNullException": "System.ArgumentException", "System.ArithmeticException": "System.SystemException",
       "System.OverflowException": "System.ArithmeticException", "System.DivideByZeroException": "System.ArithmeticException",
       "System.InvalidOperationException": "System.SystemException", "System.ObjectDisposedException": "System.InvalidOperationException",
       "System.IndexOutOfRangeException": "System.SystemException", "System.NullReferenceException": "System.SystemException",
       "System.InvalidCastException": "System.SystemException", "System.OutOfMemoryException": "System.SystemException",
       "System.NotSupportedException": "System.SystemException", "System.NotImplementedException": "System.SystemException",
       "System.FormatException": "System.SystemException", "System.Text.DecoderFallbackException": "System.ArgumentException",
       "System.Text.EncoderFallbackException": "System.ArgumentException", "System.Collections.Generic.KeyNotFoundException": "System.SystemException"}


class Throw(Exception):
    def __init__(self, obj):
        super().__init__(obj.t)
        self.obj = obj


class Obj:
    __slots__ = ("t", "f")

    def __init__(self, t, f=None):
        self.t, self.f = t, f if f is not None else {}


class Val(Obj):
    """an instance of a value type: copied when loaded or stored"""
    __slots__ = ()

    def copy(self):
        return type(self)(self.t, {k: v.copy() if isinstance(v, (Val, Enumr)) else v for k, v in self.f.items()})


class Arr:
    __slots__ = ("et", "v")

    def __init__(self, et, v):
        self.et, self.v = et, v


class Lst(Arr):
    __slots__ = ("ver",)

    def __init__(self, et, v):
        self.et, self.v, self.ver = et, v, 0


class Enumr:
    __slots__ = ("src", "i", "ver", "cur")

    def __init__(self, src):
        self.src, self.i, self.ver, self.cur = src, 0, getattr(src, "ver", 0), None

    def copy(self):
        e = Enumr(self.src)
        e.i, e.ver, e.cur = self.i, self.ver, self.cur
        return e


class Span:
    __slots__ = ("arr", "o", "n")

    def __init__(self, arr, o, n):
        self.arr, self.o, self.n = arr, o, n

    def items(self):
        return self.arr.v[self.o:self.o + self.n]


class Str:
    """u is None: text whose content is not followed (messages of exceptions)"""
    __slots__ = ("u",)

    def __init__(self, u):
        self.u = u


class Box:
    __slots__ = ("t", "v")

    def __init__(self, t, v):
        self.t, self.v = t, v


class Ref:
    """managed pointer"""
    __slots__ = ("t", "get", "set")

    def __init__(self, t, get, set_):
        self.t, self.get, self.set = t, get, set_


class Dele:
    __slots__ = ("this", "m", "t")

    def __init__(self, this, m, t=None):
        self.this, self.m, self.t = this, m, t


class Tok:
    __slots__ = ("x",)

    def __init__(self, x):
        self.x = x


class Stream:
    __slots__ = ("arr", "base", "len", "pos", "writable", "grow")
    t = "System.IO.MemoryStream"

    def __init__(self, arr, base, n, writable=True, grow=False):
        self.arr, self.base, self.len, self.pos, self.writable, self.grow = arr, base, n, 0, writable, grow


class IO:
    __slots__ = ("t", "s")

    def __init__(self, t, s):
        self.t, self.s = t, s


STEM = re.compile(r"<.*>$")


def stem(t):
    return STEM.sub("", t)


def targs(t):
    """generic arguments of a type name"""
    m = STEM.search(t)
    if not m:
        return []
    out, depth, cur = [], 0, ""
    for c in m[0][1:-1]:
        if c == "," and not depth:
            out.append(cur)
            cur = ""
            continue
        depth += (c == "<") - (c == ">")
        cur += c
    return out + [cur]


class Frame:
    __slots__ = ("m", "args", "loc", "st", "env", "cons")


class Method:
    def __init__(self, d):
        self.__dict__.update(d)
        self.ready = False


ALIAS = {"br": "br", "leave": "leave"}
BIN = {"add", "sub", "mul", "div", "div.un", "rem", "rem.un", "and", "or", "xor", "add.ovf", "add.ovf.un", "sub.ovf", "sub.ovf.un", "mul.ovf", "mul.ovf.un"}
CMP = {"ceq", "cgt", "cgt.un", "clt", "clt.un"}
BCMP = {"beq": "eq", "bne.un": "ne", "bge": "ge", "bge.un": "geu", "bgt": "gt", "bgt.un": "gtu", "ble": "le", "ble.un": "leu", "blt": "lt", "blt.un": "ltu"}
LDELEM = {"i1": "System.SByte", "u1": "System.Byte", "i2": "System.Int16", "u2": "System.UInt16", "i4": "System.Int32", "u4": "System.UInt32",
          "i8": "System.Int64", "i": "System.IntPtr", "r4": "System.Single", "r8": "System.Double", "ref": None}


class Assembly:
    def __init__(self, d):
        self.types = {t["name"]: t for t in d["types"]}
        self.methods = {}
        self.vt = {}
        for t in d["types"]:
            for m in t["methods"]:
                m["owner"] = t["name"]
                self.methods[m["id"]] = Method(m)
        self.enums = {n: t["under"] for n, t in self.types.items() if t["kind"] == "enum"}
        self.values = {n for n, t in self.types.items() if t["kind"] == "value"}

    def prep(self, m):
        idx = {at: i for i, (at, _, _) in enumerate(m.il)}
        code = []
        for at, op, x in m.il:
            if op.endswith(".s"):
                op = op[:-2]
            if re.match(r"(ldarg|ldloc|stloc)\.\d$", op):
                op, x = op[:-2], int(op[-1])
            elif op.startswith("ldc.i4"):
                k = op[7:]
                v = x if not k else -1 if k == "m1" else int(k)
                op, x = "ldc", (32, v & mask(32))
            elif op == "ldc.i8":
                op, x = "ldc", (64, int(x) & mask(64))
            elif op == "ldc.r4":
                op, x = "ldc", ("f32", x)
            elif op == "ldc.r8":
                op, x = "ldc", ("f64", int(x) & mask(64))
            elif op in BCMP or op in ("br", "brtrue", "brfalse", "leave"):
                x = idx[x]
            elif op == "switch":
                x = [idx[q] for q in x]
            if op in BCMP:
                op, x = "bcmp", (BCMP[op], x)
            elif op in BIN:
                op, x = "bin", op
            elif op in CMP:
                op, x = "cmp", op
            elif op.startswith("conv."):
                op, x = "conv", op[5:]
            elif op.startswith("ldelem.") or op.startswith("stelem."):
                op, x = op[:6], LDELEM[op[7:]]
            elif op in ("ldelem", "stelem"):
                pass
            elif op.startswith("ldind.") or op.startswith("stind."):
                op, x = op[:5], LDELEM[op[6:]]
            code.append((op.replace(".", "_"), x))
        m.code = code
        m.offs = [at for at, _, _ in m.il]
        ends = {q: i for q, i in idx.items()}
        end = len(m.il)
        pos = lambda off: ends.get(off, end)
        m.clauses = [(c["kind"], pos(c["t0"]), pos(c["t1"]), pos(c["h0"]), pos(c["h1"]), pos(c["filter"]) if c["filter"] >= 0 else -1, c["catch"]) for c in m.eh]
        m.ready = True


class Exec:
    def __init__(self, asm, ctx, fns):
        self.asm, self.ctx, self.fns = asm, ctx, fns
        self.steps = 0
        self.statics = {}
        self.inited = set()
        self.empty = {}

    # -- storage ---------------------------------------------------------------------------------
    def kind(self, t):
        """(width, signed) of integers, ('f', width) of floats, None otherwise"""
        t = self.asm.enums.get(t, t)
        if t in INTS:
            return INTS[t]
        if t in FLOATS:
            return ("f", FLOATS[t])
        return None

    def zero(self, t):
        if self.kind(t):
            return 0
        if t in self.asm.values:
            return self.newval(t)
        return None

    def newval(self, t):
        return Val(t, {f["type"] + "::" + f["name"]: self.zero(f["ft"]) for f in self.asm.types[t]["fields"] if not f["static"]})

    def load(self, t, v):
        k = self.kind(t)
        if k is None:
            if isinstance(v, (Val, Enumr)) and not isinstance(v, Ref):
                return ("v", v.copy()) if self.isvalue(t) else ("o", v)
            return ("o", v)
        if k[0] == "f":
            return ("f%d" % k[1], v)
        w, s = k
        if w < 32:
            return (32, sext(v, w, 32) if s else zext(v, w, 32))
        return (w, v)

    def isvalue(self, t):
        return t in self.asm.values or stem(t) == "System.Collections.Generic.List`1/Enumerator"

    def store(self, t, sv):
        k = self.kind(t)
        if k is None:
            v = sv[1]
            return v.copy() if sv[0] == "v" else v
        if k[0] == "f":
            if sv[0] != "f%d" % k[1]:
                return self.fconv(sv, k[1])[1]
            return sv[1]
        w = k[0]
        if isinstance(sv[1], Tok):
            return sv[1]
        if not isinstance(sv[0], int):
            raise Unsupported(f"storing {sv[0]} as {t}")
        if w < sv[0]:
            return extract(sv[1], w - 1, 0)
        if w > sv[0]:
            return sext(sv[1], sv[0], w)
        return sv[1]

    def fconv(self, sv, w):
        k, v = sv
        if k == "f%d" % w:
            return sv
        if is_sym(v):
            raise Unsupported("conversion of a symbolic float")
        x = struct.unpack("<f" if k == "f32" else "<d", v.to_bytes(4 if k == "f32" else 8, "little"))[0]
        return ("f%d" % w, int.from_bytes(struct.pack("<f" if w == 32 else "<d", x), "little"))

    # -- exceptions ------------------------------------------------------------------------------
    def throw(self, t, msg=None):
        raise Throw(Obj(t, {"message": Str(None)}))

    def base_of(self, t):
        if t in self.asm.types:
            return self.asm.types[t]["base"]
        return EXC.get(t, "")

    def isa(self, v, t):
        if v is None:
            return False
        if t in ("System.Object",):
            return True
        if isinstance(v, Obj):
            c = v.t
            while c:
                if c == t or t in (self.asm.types.get(c) or {}).get("ifaces", ()):
                    return True
                c = self.base_of(c)
            return False
        if isinstance(v, Box):
            return v.t == t
        if isinstance(v, Str):
            return t == "System.String"
        if isinstance(v, Lst):
            return stem(t) in ("System.Collections.Generic.List`1", "System.Collections.Generic.IList`1", "System.Collections.Generic.ICollection`1",
                               "System.Collections.Generic.IEnumerable`1", "System.Collections.Generic.IReadOnlyList`1",
                               "System.Collections.Generic.IReadOnlyCollection`1")
        if isinstance(v, Arr):
            return t.endswith("[]") or stem(t).startswith("System.Collections.Generic.I")
        if isinstance(v, Stream):
            return t in ("System.IO.Stream", "System.IO.MemoryStream")
        if isinstance(v, IO):
            return t == v.t
        return False

    # -- calls -----------------------------------------------------------------------------------
    def cctor(self, t):
        if t in self.inited:
            return
        self.inited.add(t)
        ty = self.asm.types.get(t)
        if not ty:
            return
        for m in ty["methods"]:
            if m["name"] == ".cctor":
                self.call(self.asm.methods[m["id"]], [])

    def virtual(self, m, this):
        """the override of m in the run-time class of this"""
        key = (m["id"], this.t)
        r = self.asm.vt.get(key)
        if r is None:
            d = self.asm.methods[m["id"]]
            r = d
            root = d.base if d.base is not None else d.id
            iface = (self.asm.types.get(d.owner) or {}).get("name") in (self.asm.types.get(this.t) or {}).get("ifaces", ())
            c = this.t
            found = False
            while c in self.asm.types and not found:
                for q in self.asm.types[c]["methods"]:
                    if q["virtual"] and (q["base"] == root or q["id"] == root or (iface and q["name"] == d.name and q["params"] == d.params)) and q["il"]:
                        r = self.asm.methods[q["id"]]
                        found = True
                        break
                c = self.asm.types[c]["base"]
            self.asm.vt[key] = r
        return r

    def new(self, t):
        f = {}
        c = t
        while c in self.asm.types:
            for q in self.asm.types[c]["fields"]:
                if not q["static"]:
                    f[q["type"] + "::" + q["name"]] = self.zero(q["ft"])
            c = self.asm.types[c]["base"]
        return Obj(t, f)

    def call(self, m, args, env=None):
        """args: storage values (this first); returns a storage value"""
        if not m.ready:
            self.asm.prep(m)
        if not m.il:
            raise Unsupported(f"method without code {m.owner}::{m.name}")
        self.fns.add(f"{m.owner}::{m.name}")
        fr = Frame()
        fr.m, fr.args, fr.env, fr.cons, fr.st = m, list(args), env or {}, None, []
        fr.loc = [self.zero(self.sub(fr, t)) for t in m.locals]
        self.depth = getattr(self, "depth", 0) + 1
        if self.depth > 400:
            raise Unsupported("call depth")
        try:
            return self.loop(fr, 0)
        finally:
            self.depth -= 1

    def sub(self, fr, t):
        if not fr.env:
            return t
        return re.sub(r"\b(" + "|".join(map(re.escape, fr.env)) + r")\b(?![.\w`])", lambda q: fr.env[q[1]], t)

    def loop(self, fr, pc):
        m = fr.m
        code = m.code
        st = fr.st
        while True:
            op, x = code[pc]
            self.steps += 1
            if self.steps > MAX_STEPS:
                raise Unsupported("step limit")
            try:
                if op == "ldloc":
                    t = m.locals[x]
                    st.append(self.load(self.sub(fr, t), fr.loc[x]))
                    pc += 1
                elif op == "ldarg":
                    t = m.type if not m.static and x == 0 else m.params[x - (not m.static)]
                    v = fr.args[x]
                    st.append(("r", v) if isinstance(v, Ref) else ("o", v) if not m.static and x == 0 else self.load(self.sub(fr, t), v))
                    pc += 1
                elif op == "ldc":
                    st.append(x)
                    pc += 1
                elif op == "stloc":
                    fr.loc[x] = self.store(self.sub(fr, m.locals[x]), st.pop())
                    pc += 1
                elif op == "ret":
                    if m.ret == "System.Void" or m.name == ".ctor":
                        return None
                    return self.store(self.sub(fr, m.ret), st.pop())
                elif op == "br":
                    pc = x
                elif op == "bcmp":
                    b = st.pop()
                    a = st.pop()
                    pc = x[1] if self.ctx.branch(self.compare(x[0], a, b)) else pc + 1
                elif op == "brtrue" or op == "brfalse":
                    c = self.truth(st.pop())
                    pc = x if self.ctx.branch(c) == (op == "brtrue") else pc + 1
                elif op == "switch":
                    v = st.pop()[1]
                    for i, q in enumerate(x):
                        if self.ctx.branch(eq(v, i, 32)):
                            pc = q
                            break
                    else:
                        pc += 1
                elif op == "leave":
                    st.clear()
                    for k, t0, t1, h0, h1, _, _ in m.clauses:
                        if k == "Finally" and t0 <= pc < t1 and not t0 <= x < t1:
                            self.nested(fr, h0)
                    pc = x
                elif op == "endfinally" or op == "endfilter":
                    return st.pop()[1] if op == "endfilter" else None
                else:
                    getattr(self, "op_" + op)(fr, x)
                    pc += 1
            except Throw as e:
                h = self.handler(fr, pc, e.obj)
                if h is None:
                    raise
                st.clear()
                st.append(("o", e.obj))
                fr.cons = None
                pc = h
            except AttributeError as e:
                if "op_" + op in str(e):
                    raise Unsupported("instruction " + op)
                raise

    def nested(self, fr, pc, st=None):
        keep, fr.st = fr.st, list(st or [])
        try:
            return self.loop(fr, pc)
        except Throw:
            raise Unsupported("exception out of a finally block")
        finally:
            fr.st = keep

    def handler(self, fr, pc, obj):
        fin = []
        for k, t0, t1, h0, h1, flt, ct in fr.m.clauses:
            if not t0 <= pc < t1:
                continue
            if k == "Clause" and self.isa(obj, ct) or k == "Filter" and self.ctx.branch(self.truth((32, self.nested(fr, flt, [("o", obj)])))):
                for h in fin:
                    self.nested(fr, h)
                if hasattr(fr, "cons"):
                    pass
                self.caught = obj
                return h0
            if k in ("Finally", "Fault"):
                fin.append(h0)
        for h in fin:
            self.nested(fr, h)
        return None

    # -- arithmetic ------------------------------------------------------------------------------
    def truth(self, sv):
        k, v = sv
        if isinstance(k, int):
            return v != 0 if isinstance(v, int) else norm_b(v != 0)
        if k in ("o", "v", "r"):
            return v is not None
        raise Unsupported("truth of a float")

    def compare(self, rel, a, b):
        if not isinstance(a[0], int) or not isinstance(b[0], int):
            if isinstance(a[0], str) and a[0][0] == "f":
                return self.fcompare(rel, a, b)
            same = a[1] is b[1]
            if rel == "eq":
                return same
            if rel in ("ne", "gtu"):
                return not same
            raise Unsupported("ordering of references")
        w = max(a[0], b[0])
        x, y = (sext(q[1], q[0], w) for q in (a, b))
        if isinstance(x, int) and isinstance(y, int):
            if rel[-1] != "u" and rel not in ("eq", "ne"):
                x, y = sx(x, w), sx(y, w)
            r = rel.rstrip("u")
            return {"eq": x == y, "ne": x != y, "ge": x >= y, "gt": x > y, "le": x <= y, "lt": x < y}[r]
        x, y = bv(x, w), bv(y, w)
        return norm_b({"eq": lambda: x == y, "ne": lambda: x != y, "ge": lambda: x >= y, "gt": lambda: x > y, "le": lambda: x <= y, "lt": lambda: x < y,
                       "geu": lambda: z3.UGE(x, y), "gtu": lambda: z3.UGT(x, y), "leu": lambda: z3.ULE(x, y), "ltu": lambda: z3.ULT(x, y)}[rel]())

    def fcompare(self, rel, a, b):
        """.un / ne: unordered operands satisfy the relation"""
        w = int(a[0][1:])
        b = self.fconv(b, w)
        so = z3.Float32() if w == 32 else z3.Float64()
        x, y = z3.fpBVToFP(bv(a[1], w), so), z3.fpBVToFP(bv(b[1], w), so)
        un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        f = dict(eq=z3.fpEQ, ge=z3.fpGEQ, gt=z3.fpGT, le=z3.fpLEQ, lt=z3.fpLT)
        if rel == "ne":
            return norm_b(z3.Not(z3.fpEQ(x, y)))
        if rel[-1] == "u":
            return norm_b(z3.Or(un, f[rel[:-1]](x, y)))
        return norm_b(f[rel](x, y))

    def op_cmp(self, fr, x):
        b = fr.st.pop()
        a = fr.st.pop()
        c = self.compare({"ceq": "eq", "cgt": "gt", "cgt.un": "gtu", "clt": "lt", "clt.un": "ltu"}[x], a, b)
        fr.st.append((32, int(c) if isinstance(c, bool) else z3.If(c, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))))

    def op_bin(self, fr, op):
        kb, b = fr.st.pop()
        ka, a = fr.st.pop()
        if not isinstance(ka, int) or not isinstance(kb, int):
            raise Unsupported(f"{op} of {ka} and {kb}")
        w = max(ka, kb)
        a, b = sext(a, ka, w), sext(b, kb, w)
        base = op.split(".")[0]
        un = op.endswith(".un")
        if ".ovf" in op:
            e = 2 * w
            xa, xb = (zext(a, w, e), zext(b, w, e)) if un else (sext(a, w, e), sext(b, w, e))
            full = self.arith(base, xa, xb, e)
            cut = extract(full, w - 1, 0)
            back = zext(cut, w, e) if un else sext(cut, w, e)
            if not self.ctx.branch(eq(full, back, e)):
                self.throw("System.OverflowException")
            fr.st.append((w, cut))
            return
        if base in ("div", "rem"):
            if self.ctx.branch(eq(b, 0, w)):
                self.throw("System.DivideByZeroException")
            if not un and self.ctx.branch(conj([eq(b, mask(w), w), eq(a, 1 << (w - 1), w)])):
                self.throw("System.OverflowException")
            if isinstance(a, int) and isinstance(b, int):
                if not un:
                    a, b = sx(a, w), sx(b, w)
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                r = q if base == "div" else a - q * b
                fr.st.append((w, r & mask(w)))
                return
            a, b = bv(a, w), bv(b, w)
            fr.st.append((w, norm(z3.UDiv(a, b) if base == "div" and un else z3.URem(a, b) if un else a / b if base == "div" else z3.SRem(a, b))))
            return
        fr.st.append((w, self.arith(base, a, b, w)))

    def arith(self, op, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            return {"add": a + b, "sub": a - b, "mul": a * b, "and": a & b, "or": a | b, "xor": a ^ b}[op] & mask(w)
        a, b = bv(a, w), bv(b, w)
        return norm({"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b}[op]())

    def shift(self, fr, f, g):
        kb, b = fr.st.pop()
        k, a = fr.st.pop()
        if is_sym(b):
            b = self.ctx.value(b)
        b &= k - 1
        fr.st.append((k, f(a, b, k) & mask(k) if isinstance(a, int) else norm(g(a, z3.BitVecVal(b, k)))))

    def op_shl(self, fr, _):
        self.shift(fr, lambda a, b, k: a << b, lambda a, b: a << b)

    def op_shr(self, fr, _):
        self.shift(fr, lambda a, b, k: sx(a, k) >> b, lambda a, b: a >> b)

    def op_shr_un(self, fr, _):
        self.shift(fr, lambda a, b, k: a >> b, lambda a, b: z3.LShR(a, b))

    def op_neg(self, fr, _):
        k, a = fr.st.pop()
        fr.st.append((k, self.arith("sub", 0, a, k)))

    def op_not(self, fr, _):
        k, a = fr.st.pop()
        fr.st.append((k, self.arith("xor", mask(k), a, k)))

    def op_conv(self, fr, to):
        k, v = fr.st.pop()
        ovf = to.startswith("ovf.")
        if ovf:
            to = to[4:]
        un = to.endswith(".un")
        if un:
            to = to[:-3]
        if to[0] == "r":
            if to == "r":
                raise Unsupported("conv.r.un")
            w = 8 * int(to[1])
            if isinstance(k, int):
                if is_sym(v):
                    so = z3.Float32() if w == 32 else z3.Float64()
                    fr.st.append(("f%d" % w, norm(z3.fpToIEEEBV(z3.fpSignedToFP(z3.RNE(), v, so)))))
                    return
                fr.st.append(("f%d" % w, int.from_bytes(struct.pack("<f" if w == 32 else "<d", float(sx(v, k))), "little")))
                return
            fr.st.append(self.fconv((k, v), w))
            return
        if not isinstance(k, int):
            if k in ("o", "r"):
                fr.st.append((k, v))
                return
            raise Unsupported("conversion of a float to an integer")
        w = 64 if to in ("i", "u") else 8 * int(to[1:])
        s = to[0] == "i"
        if ovf:
            e = 72
            src = zext(v, k, e) if un else sext(v, k, e)
            cut = extract(src, w - 1, 0)
            back = sext(cut, w, e) if s else zext(cut, w, e)
            if not self.ctx.branch(eq(src, back, e)):
                self.throw("System.OverflowException")
        r = extract(v, w - 1, 0) if w < k else (sext(v, k, w) if s else zext(v, k, w))
        n = 64 if w == 64 else 32
        if w < 32:
            r = sext(r, w, 32) if s else zext(r, w, 32)
        fr.st.append((n, r))

    # -- stack and memory ------------------------------------------------------------------------
    def op_nop(self, fr, _):
        pass

    op_volatile_ = op_readonly_ = op_tail_ = op_nop

    def op_dup(self, fr, _):
        fr.st.append(fr.st[-1])

    def op_pop(self, fr, _):
        fr.st.pop()

    def op_ldnull(self, fr, _):
        fr.st.append(("o", None))

    def op_ldstr(self, fr, x):
        fr.st.append(("o", Str([c for c in struct.unpack(f"<{len(x.encode('utf-16-le', 'surrogatepass')) // 2}H", x.encode("utf-16-le", "surrogatepass"))])))

    def op_starg(self, fr, x):
        m = fr.m
        t = m.params[x - (not m.static)]
        fr.args[x] = self.store(self.sub(fr, t), fr.st.pop())

    def op_ldloca(self, fr, x):
        loc = fr.loc
        fr.st.append(("r", Ref(self.sub(fr, fr.m.locals[x]), lambda: loc[x], lambda v: loc.__setitem__(x, v))))

    def op_ldarga(self, fr, x):
        a = fr.args
        m = fr.m
        t = m.params[x - (not m.static)] if m.static or x else m.type
        fr.st.append(("r", Ref(self.sub(fr, t), lambda: a[x], lambda v: a.__setitem__(x, v))))

    def deref(self, v):
        if v is None:
            self.throw("System.NullReferenceException")
        return v.get() if isinstance(v, Ref) else v

    def op_ldfld(self, fr, x):
        o = self.deref(fr.st.pop()[1])
        if o is None:
            self.throw("System.NullReferenceException")
        fr.st.append(self.load(self.sub(fr, x["ft"]), o.f[x["type"] + "::" + x["name"]]))

    def op_ldflda(self, fr, x):
        o = self.deref(fr.st.pop()[1])
        if o is None:
            self.throw("System.NullReferenceException")
        k = x["type"] + "::" + x["name"]
        fr.st.append(("r", Ref(x["ft"], lambda: o.f[k], lambda v: o.f.__setitem__(k, v))))

    def op_stfld(self, fr, x):
        v = fr.st.pop()
        o = self.deref(fr.st.pop()[1])
        if o is None:
            self.throw("System.NullReferenceException")
        o.f[x["type"] + "::" + x["name"]] = self.store(self.sub(fr, x["ft"]), v)

    def skey(self, x):
        self.cctor(x["type"])
        k = x["type"] + "::" + x["name"]
        if k not in self.statics:
            if x["type"] not in self.asm.types:
                if k == "System.String::Empty":
                    self.statics[k] = Str([])
                elif k == "System.BitConverter::IsLittleEndian":
                    self.statics[k] = 1
                else:
                    raise Unsupported("static field " + k)
            else:
                self.statics[k] = self.zero(x["ft"])
        return k

    def op_ldsfld(self, fr, x):
        fr.st.append(self.load(x["ft"], self.statics[self.skey(x)]))

    def op_stsfld(self, fr, x):
        self.statics[self.skey(x)] = self.store(x["ft"], fr.st.pop())

    def op_ldsflda(self, fr, x):
        if x["rva"] is not None:
            fr.st.append(("r", Tok(x)))
            return
        k = self.skey(x)
        fr.st.append(("r", Ref(x["ft"], lambda: self.statics[k], lambda v: self.statics.__setitem__(k, v))))

    def op_ldtoken(self, fr, x):
        fr.st.append(("o", Tok(self.sub(fr, x) if isinstance(x, str) else x)))

    def op_initobj(self, fr, x):
        fr.st.pop()[1].set(self.zero(self.sub(fr, x)))

    def op_ldobj(self, fr, x):
        r = fr.st.pop()[1]
        fr.st.append(self.load(self.sub(fr, x), r.get()))

    def op_stobj(self, fr, x):
        v = fr.st.pop()
        fr.st.pop()[1].set(self.store(self.sub(fr, x), v))

    def op_ldind(self, fr, x):
        r = fr.st.pop()[1]
        fr.st.append(self.load(r.t if self.kind(r.t) else x or r.t, r.get()))

    def op_stind(self, fr, x):
        v = fr.st.pop()
        r = fr.st.pop()[1]
        r.set(self.store(r.t, v))

    def conc(self, v, w=32):
        """a definite value, signed reading"""
        if is_sym(v):
            v = self.ctx.value(v)
        return sx(v, w)

    def op_newarr(self, fr, x):
        x = self.sub(fr, x)
        k, n = fr.st.pop()
        fr.st.append(("o", Arr(x, self.block(x, n, k))))

    def block(self, t, n, w=32):
        if is_sym(n):
            if self.ctx.branch(norm_b(n < 0)):
                self.throw("System.OverflowException")
            if self.ctx.branch(norm_b(z3.UGT(n, 1 << 26))):
                raise Throw(Obj("allocation of an unchecked length", {}))
        n = self.conc(n, w)
        if n < 0:
            self.throw("System.OverflowException")
        if n > 1 << 26:
            raise Throw(Obj("allocation of an unchecked length", {}))
        return [self.zero(t) for _ in range(n)] if t in self.asm.values else [self.zero(t)] * n

    def op_ldlen(self, fr, _):
        a = fr.st.pop()[1]
        if a is None:
            self.throw("System.NullReferenceException")
        fr.st.append((64, len(a.v)))

    def index(self, a, i, w):
        if a is None:
            self.throw("System.NullReferenceException")
        n = len(a.v)
        if is_sym(i) and not self.ctx.branch(norm_b(z3.ULT(i, n))):
            self.throw("System.IndexOutOfRangeException")
        i = self.conc(i, w)
        if not 0 <= i < n:
            self.throw("System.IndexOutOfRangeException")
        return i

    def op_ldelem(self, fr, x):
        k, i = fr.st.pop()
        a = fr.st.pop()[1]
        i = self.index(a, i, k)
        fr.st.append(self.load(a.et, a.v[i]))

    def op_ldelema(self, fr, x):
        k, i = fr.st.pop()
        a = fr.st.pop()[1]
        i = self.index(a, i, k)
        fr.st.append(("r", Ref(a.et, lambda: a.v[i], lambda v: a.v.__setitem__(i, v))))

    def op_stelem(self, fr, x):
        v = fr.st.pop()
        k, i = fr.st.pop()
        a = fr.st.pop()[1]
        i = self.index(a, i, k)
        a.v[i] = self.store(a.et, v)

    def op_box(self, fr, x):
        x = self.sub(fr, x)
        v = fr.st.pop()
        fr.st.append(("o", Box(x, self.store(x, v)) if self.kind(x) or self.isvalue(x) else v[1]))

    def op_unbox_any(self, fr, x):
        x = self.sub(fr, x)
        o = fr.st.pop()[1]
        if isinstance(o, Box):
            if self.asm.enums.get(o.t, o.t) != self.asm.enums.get(x, x):
                self.throw("System.InvalidCastException")
            fr.st.append(self.load(x, o.v))
            return
        fr.st.append(("o", o))
        self.op_castclass(fr, x)

    def op_castclass(self, fr, x):
        o = fr.st[-1][1]
        if o is not None and not self.isa(o, self.sub(fr, x)):
            self.throw("System.InvalidCastException")

    def op_isinst(self, fr, x):
        o = fr.st.pop()[1]
        fr.st.append(("o", o if self.isa(o, self.sub(fr, x)) else None))

    def op_throw(self, fr, _):
        o = fr.st.pop()[1]
        if o is None:
            self.throw("System.NullReferenceException")
        raise Throw(o)

    def op_rethrow(self, fr, _):
        raise Throw(self.caught)

    def op_constrained_(self, fr, x):
        fr.cons = self.sub(fr, x)

    def op_ldftn(self, fr, x):
        fr.st.append(("o", Tok(x)))

    def op_ldvirtftn(self, fr, x):
        this = fr.st.pop()[1]
        if x["id"] is not None and x.get("virtual") and isinstance(this, Obj):
            d = self.virtual(x, this)
            x = dict(x, id=None, body=d)
        fr.st.append(("o", Tok(x)))

    # -- invocation ------------------------------------------------------------------------------
    def popargs(self, fr, m):
        n = len(m["params"])
        sv = fr.st[len(fr.st) - n:] if n else []
        if n:
            del fr.st[-n:]
        return [v if k == "r" else self.store(self.sub(fr, t), (k, v)) for (k, v), t in zip(sv, m["params"])]

    def genv(self, fr, m):
        if not m["gen"]:
            return None
        d = self.asm.methods[m["id"]]
        return dict(zip(d.gparams, [self.sub(fr, t) for t in m["gen"]]))

    def op_call(self, fr, m, virt=False):
        args = self.popargs(fr, m)
        cons, fr.cons = fr.cons, None
        if not m["static"]:
            this = fr.st.pop()[1]
            if this is None:
                self.throw("System.NullReferenceException")
            if cons is not None and isinstance(this, Ref) and not self.isvalue(cons) and not self.kind(cons):
                this = this.get()
                if this is None:
                    self.throw("System.NullReferenceException")
            args = [this] + args
        elif m["id"] is not None:
            self.cctor(m["type"])
        if m["id"] is not None:
            d = self.asm.methods[m["id"]]
            if virt and m["virtual"]:
                if not isinstance(args[0], (Obj, Ref)):
                    raise Unsupported("virtual call on " + str(args[0]))
                t = args[0] if isinstance(args[0], Obj) else self.newval(cons) if cons in self.asm.values else args[0].get()
                d = self.virtual(m, t)
            r = self.call(d, args, self.genv(fr, m))
            ret = self.sub(fr, m["ret"])
        else:
            ret = self.sub(fr, m["ret"])
            r = self.external(fr, m, args)
        if ret != "System.Void":
            fr.st.append(("r", r) if isinstance(r, Ref) else self.load(ret, r))

    def op_callvirt(self, fr, m):
        self.op_call(fr, m, True)

    def op_newobj(self, fr, m):
        args = self.popargs(fr, m)
        t = self.sub(fr, m["type"])
        if m["id"] is not None:
            self.cctor(t)
            if t in self.asm.values:
                v = [self.newval(t)]
                self.call(self.asm.methods[m["id"]], [Ref(t, lambda: v[0], lambda q: v.__setitem__(0, q))] + args)
                fr.st.append(("v", v[0]))
                return
            o = self.new(t)
            self.call(self.asm.methods[m["id"]], [o] + args)
            fr.st.append(("o", o))
            return
        s = stem(t)
        if t in EXC:
            fr.st.append(("o", Obj(t, {"message": args[0] if args and isinstance(args[0], Str) else Str(None)})))
            return
        if s.startswith("System.Func`") or s.startswith("System.Action") or s.startswith("System.Predicate`") or s.startswith("System.Converter`"):
            fr.st.append(("o", Dele(args[0], args[1].x, t)))
            return
        fn = NEW.get(s)
        if not fn:
            raise Unsupported(f"constructor of {t} {m['params']}")
        fr.st.append(("v" if s in ("System.ReadOnlySpan`1", "System.Span`1") else "o", fn(self, t, m, args)))

    def invoke(self, d, args):
        m = d.m
        a = ([] if m["static"] else [d.this]) + args
        if m.get("body") is not None:
            return self.call(m["body"], a)
        if m["id"] is None:
            return self.external(None, m, a)
        return self.call(self.asm.methods[m["id"]], a)

    def external(self, fr, m, args):
        s = stem(m["type"])
        if args and isinstance(args[0], Dele) and m["name"] == "Invoke":
            return self.invoke(args[0], args[1:])
        fn = LIB.get(s + "::" + m["name"])
        if fn is None and m["name"] in ANY and not m["static"]:
            fn = ANY[m["name"]]
        if fn is None and (s.startswith("System.Collections.Generic.I") or s.startswith("System.Collections.I")):
            fn = LIB.get("I::" + m["name"])
        if fn is None:
            raise Unsupported(f"library method {m['type']}::{m['name']} {m['params']}")
        if fr is None:
            return fn(self, m, args)
        r = fn(self, dict(m, type=self.sub(fr, m["type"]), params=[self.sub(fr, t) for t in m["params"]], gen=[self.sub(fr, t) for t in m["gen"]]), args)
        return r

    # -- text ------------------------------------------------------------------------------------
    def in_range(self, x, lo, hi):
        if isinstance(x, int):
            return lo <= x <= hi
        return norm_b(z3.And(z3.UGE(x, lo), z3.ULE(x, hi)))

    def utf8_encode(self, u):
        if u is None:
            raise Unsupported("the text of a message is looked at")
        out = []
        i = 0
        br = self.ctx.branch
        while i < len(u):
            c = u[i]
            if isinstance(c, int) and c < 0x80:
                out.append(c)
            elif br(self.in_range(c, 0, 0x7f)):
                out.append(extract(c, 7, 0))
            elif br(self.in_range(c, 0x80, 0x7ff)):
                b = bv(c, 16)
                out += [norm(z3.Concat(z3.BitVecVal(6, 3), z3.Extract(10, 6, b))), norm(z3.Concat(z3.BitVecVal(2, 2), z3.Extract(5, 0, b)))]
            elif br(self.in_range(c, 0xd800, 0xdfff)):
                if i + 1 < len(u) and br(self.in_range(c, 0xd800, 0xdbff)) and br(self.in_range(u[i + 1], 0xdc00, 0xdfff)):
                    h, lo = bv(c, 16), bv(u[i + 1], 16)
                    b = z3.ZeroExt(12, z3.Concat(z3.Extract(9, 0, h), z3.Extract(9, 0, lo))) + 0x10000
                    out += [norm(z3.Concat(z3.BitVecVal(30, 5), z3.Extract(20, 18, b)))]
                    out += [norm(z3.Concat(z3.BitVecVal(2, 2), z3.Extract(q, q - 5, b))) for q in (17, 11, 5)]
                    i += 1
                else:
                    out += [0xef, 0xbf, 0xbd]
            else:
                b = bv(c, 16)
                out += [norm(z3.Concat(z3.BitVecVal(14, 4), z3.Extract(15, 12, b)))]
                out += [norm(z3.Concat(z3.BitVecVal(2, 2), z3.Extract(h, h - 5, b))) for h in (11, 5)]
            i += 1
        return out

    def utf8_decode(self, bs):
        """replacement of maximal ill-formed parts, as Encoding.UTF8 does; the class of a lead byte is decided by forking"""
        br = self.ctx.branch
        n = len(bs)
        i = 0
        out = []
        while i < n:
            b = bs[i]
            i += 1
            if isinstance(b, int) and b < 0x80:
                out.append(b)
                continue
            if br(self.in_range(b, 0, 0x7f)):
                out.append(zext(b, 8, 16))
                continue
            if br(self.in_range(b, 0xc2, 0xdf)):
                need, pay = 1, 5
            elif br(self.in_range(b, 0xe0, 0xef)):
                need, pay = 2, 4
            elif br(self.in_range(b, 0xf0, 0xf4)):
                need, pay = 3, 3
            else:
                out.append(0xfffd)
                continue
            x = bv(b, 8)
            lo, hi = z3.BitVecVal(0x80, 8), z3.BitVecVal(0xbf, 8)
            if need == 2:
                lo, hi = z3.If(x == 0xe0, z3.BitVecVal(0xa0, 8), lo), z3.If(x == 0xed, z3.BitVecVal(0x9f, 8), hi)
            elif need == 3:
                lo, hi = z3.If(x == 0xf0, z3.BitVecVal(0x90, 8), lo), z3.If(x == 0xf4, z3.BitVecVal(0x8f, 8), hi)
            parts = [z3.Extract(pay - 1, 0, x)]
            ok = True
            for _ in range(need):
                if i >= n:
                    ok = False
                    break
                c = bv(bs[i], 8)
                if not br(norm_b(z3.And(z3.UGE(c, lo), z3.ULE(c, hi)))):
                    ok = False
                    break
                i += 1
                lo, hi = z3.BitVecVal(0x80, 8), z3.BitVecVal(0xbf, 8)
                parts.append(z3.Extract(5, 0, c))
            if not ok:
                out.append(0xfffd)
                continue
            cp = z3.Concat(*parts)
            if need == 1:
                out.append(norm(z3.ZeroExt(5, cp)))
            elif need == 2:
                out.append(norm(cp))
            else:
                d = cp - 0x10000
                out += [norm(z3.Concat(z3.BitVecVal(0b110110, 6), z3.Extract(19, 10, d))),
                        norm(z3.Concat(z3.BitVecVal(0b110111, 6), z3.Extract(9, 0, d)))]
        return out

    # -- streams ---------------------------------------------------------------------------------
    def sread(self, s, n):
        if s.pos + n > s.len:
            s.pos = s.len
            self.throw("System.IO.EndOfStreamException")
        r = s.arr.v[s.base + s.pos:s.base + s.pos + n]
        s.pos += n
        return r

    def swrite(self, s, bs):
        if not s.writable:
            self.throw("System.NotSupportedException")
        end = s.pos + len(bs)
        if end > s.len:
            if not s.grow:
                if s.base + end > len(s.arr.v):
                    self.throw("System.NotSupportedException")
            else:
                s.arr.v.extend([0] * (end - len(s.arr.v)))
            s.len = end
        s.arr.v[s.base + s.pos:s.base + end] = bs
        s.pos = end

    def nonneg(self, v, w=32):
        """a definite count; negative ones are refused as arguments"""
        if is_sym(v) and self.ctx.branch(norm_b(v < 0)):
            self.throw("System.ArgumentOutOfRangeException")
        v = self.conc(v, w)
        if v < 0:
            self.throw("System.ArgumentOutOfRangeException")
        return v


# ---------------------------------------------------------------------------------------------
# library
LIB, ANY, NEW = {}, {}, {}


def lib(*names):
    def d(f):
        for n in names:
            LIB[n] = f
        return f
    return d


def new(*names):
    def d(f):
        for n in names:
            NEW[n] = f
        return f
    return d


OPAQUE = Str(None)
ANY["ToString"] = lambda x, m, a: a[0] if isinstance(a[0], Str) else Str(None)
LIB["System.Object::.ctor"] = lambda x, m, a: None
LIB["System.IDisposable::Dispose"] = lambda x, m, a: None
LIB["System.Exception::.ctor"] = lambda x, m, a: a[0].f.__setitem__("message", a[1] if len(a) > 1 else Str(None))
for _e in EXC:
    LIB[_e + "::.ctor"] = LIB["System.Exception::.ctor"]
LIB["System.Exception::get_Message"] = lambda x, m, a: Str(None)
LIB["System.Exception::get_InnerException"] = lambda x, m, a: None
LIB["System.Type::GetTypeFromHandle"] = lambda x, m, a: a[0]
LIB["System.GC::SuppressFinalize"] = lambda x, m, a: None


@lib("System.String::Format", "System.String::Join", "System.Number::ToString")
def _(x, m, a):
    return Str(None)


@lib("System.String::Concat")
def _(x, m, a):
    if len(a) == 1 and isinstance(a[0], Arr):
        a = a[0].v
    if all(s is None or isinstance(s, Str) and s.u is not None for s in a):
        return Str([c for s in a if s is not None for c in s.u])
    return Str(None)


def streq(x, a, b):
    if a is None or b is None:
        return a is b
    if a.u is None or b.u is None:
        raise Unsupported("the text of a message is looked at")
    if len(a.u) != len(b.u):
        return False
    return norm_b(conj([eq(p, q, 16) for p, q in zip(a.u, b.u)]))


def b8(c):
    return int(c) if isinstance(c, bool) else z3.If(c, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))


LIB["System.String::ToCharArray"] = lambda x, m, a: Arr("System.Char", list(a[0].u))
LIB["System.String::op_Equality"] = lambda x, m, a: b8(streq(x, a[0], a[1]))
LIB["System.String::Equals"] = lambda x, m, a: b8(streq(x, a[0], a[1]))
LIB["System.String::op_Inequality"] = lambda x, m, a: b8(neg(streq(x, a[0], a[1])))
LIB["System.String::IsNullOrEmpty"] = lambda x, m, a: int(a[0] is None or not a[0].u)


@lib("System.String::get_Length")
def _(x, m, a):
    if a[0].u is None:
        raise Unsupported("the text of a message is looked at")
    return len(a[0].u)


@lib("System.String::get_Chars")
def _(x, m, a):
    q = Arr("System.Char", a[0].u)
    return a[0].u[x.index(q, a[1], 32)]


@new("System.Runtime.CompilerServices.DefaultInterpolatedStringHandler")
def _(x, t, m, a):
    return Obj(t)


for _n in (".ctor", "AppendLiteral", "AppendFormatted", "ToStringAndClear"):
    LIB["System.Runtime.CompilerServices.DefaultInterpolatedStringHandler::" + _n] = lambda x, m, a: Str(None)


# -- text encodings
UTF8 = Obj("System.Text.Encoding")
LIB["System.Text.Encoding::get_UTF8"] = lambda x, m, a: UTF8
NEW["System.Text.UTF8Encoding"] = lambda x, t, m, a: UTF8


@lib("System.Text.Encoding::GetBytes")
def _(x, m, a):
    if m["params"] != ["System.String"]:
        raise Unsupported("GetBytes " + str(m["params"]))
    if a[1] is None:
        x.throw("System.ArgumentNullException")
    return Arr("System.Byte", x.utf8_encode(a[1].u))


@lib("System.Text.Encoding::GetByteCount")
def _(x, m, a):
    if m["params"] != ["System.String"]:
        raise Unsupported("GetByteCount " + str(m["params"]))
    if a[1] is None:
        x.throw("System.ArgumentNullException")
    return len(x.utf8_encode(a[1].u))


@lib("System.Text.Encoding::GetString")
def _(x, m, a):
    if isinstance(a[1], Span):
        return Str(x.utf8_decode(a[1].items()))
    if a[1] is None:
        x.throw("System.ArgumentNullException")
    bs = a[1].v
    if len(a) == 4:
        o, n = x.nonneg(a[2]), x.nonneg(a[3])
        if o + n > len(bs):
            x.throw("System.ArgumentOutOfRangeException")
        bs = bs[o:o + n]
    return Str(x.utf8_decode(bs))


# -- lists
@new("System.Collections.Generic.List`1")
def _(x, t, m, a):
    et = targs(t)[0]
    if m["params"] and m["params"][0] == "System.Int32":
        if is_sym(a[0]):
            if x.ctx.branch(norm_b(z3.And(a[0] >= 0, a[0] > 1 << 26))):
                raise Throw(Obj("allocation of an unchecked length", {}))
        if x.nonneg(a[0]) > 1 << 26:
            raise Throw(Obj("allocation of an unchecked length", {}))
        return Lst(et, [])
    if a:
        return Lst(et, list(iterate(x, a[0])))
    return Lst(et, [])


class HSet(Lst):
    """HashSet; elements are message objects (told apart by identity) or concrete values"""


def hadd(s, v):
    if is_sym(v) or isinstance(v, (Val, Box)):
        raise Unsupported("HashSet of " + type(v).__name__)
    if isinstance(v, Obj) and not any(w is v for w in s.v) or not isinstance(v, Obj) and v not in s.v:
        s.v.append(v)
        s.ver += 1
        return 1
    return 0


@new("System.Collections.Generic.HashSet`1")
def _(x, t, m, a):
    s = HSet(targs(t)[0], [])
    if a and not isinstance(a[0], int):
        for v in iterate(x, a[0]):
            hadd(s, v)
    return s


LIB["System.Collections.Generic.HashSet`1::Add"] = lambda x, m, a: hadd(a[0], a[1])
LIB["System.Collections.Generic.HashSet`1::get_Count"] = lambda x, m, a: len(a[0].v)
LIB["System.Collections.Generic.HashSet`1::Contains"] = lambda x, m, a: int(any(w is a[1] for w in a[0].v) if isinstance(a[1], Obj) else a[1] in a[0].v)


def iterate(x, s):
    if isinstance(s, Arr):
        return s.v
    if isinstance(s, Span):
        return s.items()
    raise Unsupported("enumeration of " + type(s).__name__)


P = "System.Collections.Generic.List`1::"


def cp(v):
    return v.copy() if isinstance(v, Val) else v


@lib(P + "Add", "I::Add")
def _(x, m, a):
    a[0].v.append(a[1])
    a[0].ver += 1


@lib(P + "AddRange")
def _(x, m, a):
    a[0].v.extend(list(iterate(x, a[1])))
    a[0].ver += 1


@lib(P + "Clear")
def _(x, m, a):
    a[0].v.clear()
    a[0].ver += 1


@lib(P + "get_Item", "I::get_Item")
def _(x, m, a):
    n = len(a[0].v)
    if is_sym(a[1]) and not x.ctx.branch(norm_b(z3.ULT(a[1], n))):
        x.throw("System.ArgumentOutOfRangeException")
    i = x.conc(a[1])
    if not 0 <= i < n:
        x.throw("System.ArgumentOutOfRangeException")
    return a[0].v[i]


@lib(P + "set_Item")
def _(x, m, a):
    i = x.conc(a[1])
    if not 0 <= i < len(a[0].v):
        x.throw("System.ArgumentOutOfRangeException")
    a[0].v[i] = a[2]
    a[0].ver += 1


LIB[P + "get_Count"] = LIB["I::get_Count"] = lambda x, m, a: len(a[0].v)
LIB[P + "get_Capacity"] = lambda x, m, a: len(a[0].v)
LIB[P + "set_Capacity"] = LIB[P + "EnsureCapacity"] = lambda x, m, a: a[1]
LIB[P + "ToArray"] = lambda x, m, a: Arr(a[0].et, [cp(v) for v in a[0].v])
LIB[P + "GetEnumerator"] = LIB["I::GetEnumerator"] = lambda x, m, a: Enumr(a[0])


@lib("System.Collections.Generic.List`1::ForEach")
def _(x, m, a):
    for v in list(a[0].v):
        x.invoke(a[1], [v])


@lib("System.Collections.Generic.List`1/Enumerator::MoveNext", "System.Collections.IEnumerator::MoveNext")
def _(x, m, a):
    e = a[0].get() if isinstance(a[0], Ref) else a[0]
    if e.ver != getattr(e.src, "ver", 0):
        x.throw("System.InvalidOperationException")
    if e.i < len(e.src.v):
        e.cur = e.src.v[e.i]
        e.i += 1
        return 1
    return 0


@lib("System.Collections.Generic.List`1/Enumerator::get_Current", "System.Collections.Generic.IEnumerator`1::get_Current")
def _(x, m, a):
    e = a[0].get() if isinstance(a[0], Ref) else a[0]
    return e.cur


LIB["System.Collections.Generic.List`1/Enumerator::Dispose"] = lambda x, m, a: None


# -- arrays, spans
@lib("System.Array::Empty")
def _(x, m, a):
    return x.empty.setdefault(m["gen"][0], Arr(m["gen"][0], []))


@lib("System.Array::Copy", "System.Buffer::BlockCopy")
def _(x, m, a):
    if len(a) == 3:
        s, d, n = a
        i = j = 0
    else:
        s, i, d, j, n = a
    if m["name"] == "BlockCopy" and (x.kind(s.et) != (8, False) or x.kind(d.et) != (8, False)):
        raise Unsupported("BlockCopy of other than bytes")
    i, j, n = (x.nonneg(q) for q in (i, j, n))
    if i + n > len(s.v) or j + n > len(d.v):
        x.throw("System.ArgumentException")
    d.v[j:j + n] = [cp(v) for v in s.v[i:i + n]]


@lib("System.Array::Resize")
def _(x, m, a):
    old = a[0].get()
    n = x.nonneg(a[1])
    et = m["gen"][0]
    v = [] if old is None else old.v
    a[0].set(Arr(et, (v + [x.zero(et)] * n)[:n]))


@lib("System.Array::Fill")
def _(x, m, a):
    a[0].v[:] = [a[1]] * len(a[0].v)


LIB["System.Array::get_Length"] = lambda x, m, a: len(a[0].v)


@lib("System.Runtime.CompilerServices.RuntimeHelpers::InitializeArray")
def _(x, m, a):
    arr, raw = a[0], bytes.fromhex(a[1].x["rva"])
    w = x.kind(arr.et)
    w = (w[1] if w[0] == "f" else w[0]) // 8
    arr.v[:] = [int.from_bytes(raw[i * w:i * w + w], "little") for i in range(len(arr.v))]


@new("System.ReadOnlySpan`1", "System.Span`1")
def _(x, t, m, a):
    if isinstance(a[0], Tok):
        raw = bytes.fromhex(a[0].x["rva"])
        return Span(Arr(targs(t)[0], list(raw)), 0, x.nonneg(a[1]))
    if len(a) == 3:
        o, n = x.nonneg(a[1]), x.nonneg(a[2])
        if o + n > len(a[0].v):
            x.throw("System.ArgumentOutOfRangeException")
        return Span(a[0], o, n)
    return Span(a[0], 0, len(a[0].v))


@lib("System.Runtime.CompilerServices.RuntimeHelpers::CreateSpan")
def _(x, m, a):
    raw = bytes.fromhex(a[0].x["rva"])
    w = x.kind(m["gen"][0])[0] // 8
    return Span(Arr(m["gen"][0], [int.from_bytes(raw[i * w:i * w + w], "little") for i in range(len(raw) // w)]), 0, len(raw) // w)


def sp(a):
    return a.get() if isinstance(a, Ref) else a


for _p in ("System.ReadOnlySpan`1::", "System.Span`1::"):
    LIB[_p + "op_Implicit"] = lambda x, m, a: a[0] if isinstance(a[0], Span) else Span(a[0], 0, len(a[0].v))
    LIB[_p + "get_Length"] = lambda x, m, a: sp(a[0]).n
    LIB[_p + "ToArray"] = lambda x, m, a: Arr(sp(a[0]).arr.et, list(sp(a[0]).items()))

    @lib(_p + "get_Item")
    def _(x, m, a):
        s = sp(a[0])
        i = x.index(Arr(s.arr.et, s.items()), a[1], 32) + s.o
        return Ref(s.arr.et, lambda: s.arr.v[i], lambda v: s.arr.v.__setitem__(i, v))

    @lib(_p + "Slice")
    def _(x, m, a):
        s = sp(a[0])
        o = x.nonneg(a[1])
        n = x.nonneg(a[2]) if len(a) > 2 else s.n - o
        if o > s.n or n < 0 or o + n > s.n:
            x.throw("System.ArgumentOutOfRangeException")
        return Span(s.arr, s.o + o, n)


@lib("System.MemoryExtensions::AsSpan")
def _(x, m, a):
    o = x.nonneg(a[1]) if len(a) > 1 else 0
    n = x.nonneg(a[2]) if len(a) > 2 else len(a[0].v) - o
    if n < 0 or o + n > len(a[0].v):
        x.throw("System.ArgumentOutOfRangeException")
    return Span(a[0], o, n)


@lib("System.MemoryExtensions::SequenceEqual", "System.Linq.Enumerable::SequenceEqual")
def _(x, m, a):
    p, q = iterate(x, a[0]), iterate(x, a[1])
    if len(p) != len(q):
        return 0
    k = x.kind(m["gen"][0])
    if not k:
        raise Unsupported("SequenceEqual of objects")
    return b8(norm_b(conj([eq(i, j, k[0]) for i, j in zip(p, q)])))


# -- linq, as far as a rewrite of the generated loops might use it
@lib("System.Linq.Enumerable::Sum")
def _(x, m, a):
    tot = 0
    w = x.kind(m["ret"] if x.kind(m["ret"]) else "System.Int32")[0]
    for v in iterate(x, a[0]):
        if len(a) > 1:
            v = x.invoke(a[1], [v])
        tot = x.arith("add", tot, v, w)
    return tot


@lib("System.Linq.Enumerable::Count")
def _(x, m, a):
    if len(a) > 1:
        return len([1 for v in list(iterate(x, a[0])) if x.ctx.branch(tb(x.invoke(a[1], [v])))])
    return len(iterate(x, a[0]))


def tb(v):
    """a CLI bool as a condition"""
    return v != 0 if isinstance(v, int) else norm_b(v != 0)


E_ = "System.Linq.Enumerable::"
LIB[E_ + "Select"] = lambda x, m, a: Lst(m["gen"][1], [x.invoke(a[1], [v]) for v in list(iterate(x, a[0]))])
LIB[E_ + "Where"] = lambda x, m, a: Lst(m["gen"][0], [v for v in list(iterate(x, a[0])) if x.ctx.branch(tb(x.invoke(a[1], [v])))])
LIB[E_ + "Concat"] = lambda x, m, a: Lst(m["gen"][0], list(iterate(x, a[0])) + list(iterate(x, a[1])))
LIB[E_ + "Append"] = lambda x, m, a: Lst(m["gen"][0], list(iterate(x, a[0])) + [a[1]])
LIB[E_ + "Reverse"] = lambda x, m, a: Lst(m["gen"][0], list(iterate(x, a[0]))[::-1])
LIB[E_ + "Skip"] = lambda x, m, a: Lst(m["gen"][0], list(iterate(x, a[0]))[max(0, x.conc(a[1])):])
LIB[E_ + "Take"] = lambda x, m, a: Lst(m["gen"][0], list(iterate(x, a[0]))[:max(0, x.conc(a[1]))])
LIB[E_ + "Cast"] = LIB[E_ + "AsEnumerable"] = lambda x, m, a: a[0]
LIB[E_ + "Any"] = lambda x, m, a: int(any(len(a) == 1 or x.ctx.branch(tb(x.invoke(a[1], [v]))) for v in list(iterate(x, a[0]))))
LIB[E_ + "All"] = lambda x, m, a: int(all(x.ctx.branch(tb(x.invoke(a[1], [v]))) for v in list(iterate(x, a[0]))))
LIB[E_ + "Range"] = lambda x, m, a: Lst("System.Int32", [(x.conc(a[0]) + i) & mask(32) for i in range(x.nonneg(a[1]))])


@lib(E_ + "Repeat")
def _(x, m, a):
    return Lst(m["gen"][0], [a[0]] * x.nonneg(a[1]))


@lib(E_ + "Aggregate")
def _(x, m, a):
    if len(a) != 3:
        raise Unsupported("Aggregate without a seed")
    acc = a[1]
    for v in list(iterate(x, a[0])):
        acc = x.invoke(a[2], [acc, v])
    return acc


@lib("System.Array::Reverse")
def _(x, m, a):
    if len(a) > 1:
        raise Unsupported("Array.Reverse of a range")
    a[0].v.reverse()


@lib("System.Array::Clear")
def _(x, m, a):
    o, n = (x.nonneg(a[1]), x.nonneg(a[2])) if len(a) > 1 else (0, len(a[0].v))
    for i in range(o, o + n):
        a[0].v[i] = x.zero(a[0].et)


@lib("System.Array::CopyTo", P + "CopyTo")
def _(x, m, a):
    o = x.nonneg(a[2]) if len(a) > 2 else 0
    if o + len(a[0].v) > len(a[1].v):
        x.throw("System.ArgumentException")
    a[1].v[o:o + len(a[0].v)] = [cp(v) for v in a[0].v]


@lib("System.Array::Clone")
def _(x, m, a):
    return Arr(a[0].et, [cp(v) for v in a[0].v])


for _p in ("System.ReadOnlySpan`1::", "System.Span`1::"):
    @lib(_p + "CopyTo")
    def _(x, m, a):
        s, d = sp(a[0]), a[1]
        if s.n > d.n:
            x.throw("System.ArgumentException")
        d.arr.v[d.o:d.o + s.n] = list(s.items())

    LIB[_p + "get_IsEmpty"] = lambda x, m, a: int(sp(a[0]).n == 0)


@lib(P + "Insert")
def _(x, m, a):
    i = x.conc(a[1])
    if not 0 <= i <= len(a[0].v):
        x.throw("System.ArgumentOutOfRangeException")
    a[0].v.insert(i, a[2])
    a[0].ver += 1


@lib(P + "RemoveAt")
def _(x, m, a):
    i = x.conc(a[1])
    if not 0 <= i < len(a[0].v):
        x.throw("System.ArgumentOutOfRangeException")
    del a[0].v[i]
    a[0].ver += 1


LIB["System.Linq.Enumerable::ToArray"] = lambda x, m, a: Arr(m["gen"][0], list(iterate(x, a[0])))
LIB["System.Linq.Enumerable::ToList"] = lambda x, m, a: Lst(m["gen"][0], list(iterate(x, a[0])))


# -- numbers
def tochecked(w, s):
    def f(x, m, a):
        k = x.kind(m["params"][0])
        if not k or k[0] == "f":
            raise Unsupported("Convert from " + m["params"][0])
        src = sext(a[0], k[0], 72) if k[1] else zext(a[0], k[0], 72)
        cut = extract(src, w - 1, 0)
        if not x.ctx.branch(eq(src, sext(cut, w, 72) if s else zext(cut, w, 72), 72)):
            x.throw("System.OverflowException")
        return cut
    return f


for _t, (_w, _s) in INTS.items():
    if _t not in ("System.Boolean", "System.Char", "System.IntPtr", "System.UIntPtr"):
        LIB["System.Convert::To" + _t[7:]] = tochecked(_w, _s)


@lib("System.Math::Min", "System.Math::Max")
def _(x, m, a):
    k = x.kind(m["params"][0])
    if k[0] == "f":
        raise Unsupported("Math on floats")
    lt = x.compare("lt" if k[1] else "ltu", (k[0], a[0]), (k[0], a[1]))
    first = x.ctx.branch(lt)
    return a[0] if first == (m["name"] == "Min") else a[1]


for _p, _w in (("Int32BitsToSingle", 32), ("SingleToInt32Bits", 32), ("Int64BitsToDouble", 64), ("DoubleToInt64Bits", 64),
               ("UInt32BitsToSingle", 32), ("SingleToUInt32Bits", 32), ("UInt64BitsToDouble", 64), ("DoubleToUInt64Bits", 64)):
    LIB["System.BitConverter::" + _p] = lambda x, m, a: a[0]


def size_of(x, t):
    k = x.kind(t)
    return (k[1] if k[0] == "f" else k[0]) // 8


@lib("System.BitConverter::GetBytes")
def _(x, m, a):
    return Arr("System.Byte", split_le(a[0], size_of(x, m["params"][0])))


def bc(t):
    def f(x, m, a):
        n = size_of(x, t)
        if isinstance(a[0], Span):
            bs, i = a[0].items(), 0
        else:
            bs, i = a[0].v, x.nonneg(a[1])
        if i + n > len(bs):
            x.throw("System.ArgumentException")
        r = concat_le(bs[i:i + n])
        return b8(neg(eq(r, 0, 8))) if t == "System.Boolean" else r
    return f


for _t in list(INTS) + list(FLOATS):
    LIB["System.BitConverter::To" + _t[7:]] = bc(_t)


def bp(t, wr):
    def f(x, m, a):
        n = size_of(x, t)
        s = a[0]
        if s.n < n:
            x.throw("System.ArgumentOutOfRangeException")
        be = m["name"].endswith("BigEndian")
        if wr:
            bs = split_le(a[1], n)
            s.arr.v[s.o:s.o + n] = bs[::-1] if be else bs
            return None
        bs = s.items()[:n]
        return concat_le(bs[::-1] if be else bs)
    return f


for _t in list(INTS) + list(FLOATS):
    for _e in ("LittleEndian", "BigEndian"):
        LIB[f"System.Buffers.Binary.BinaryPrimitives::Read{_t[7:]}{_e}"] = bp(_t, False)
        LIB[f"System.Buffers.Binary.BinaryPrimitives::Write{_t[7:]}{_e}"] = bp(_t, True)


@lib("System.Enum::IsDefined")
def _(x, m, a):
    if m["gen"]:
        t, v = m["gen"][0], a[0]
    else:
        t, b = a[0].x, a[1]
        if not isinstance(b, Box):
            raise Unsupported("Enum.IsDefined of a name")
        if b.t != t and b.t != x.asm.enums.get(t):
            x.throw("System.ArgumentException")
        v = b.v
    if t not in x.asm.enums:
        raise Unsupported("Enum.IsDefined of " + t)
    w = x.kind(t)[0]
    from symcore import disj
    return b8(norm_b(disj([eq(v, int(k) & mask(w), w) for k in x.asm.types[t]["values"]])))


@lib("System.Enum::ToObject")
def _(x, m, a):
    t = a[0].x
    v = a[1].v if isinstance(a[1], Box) else a[1]
    st = a[1].t if isinstance(a[1], Box) else m["params"][1]
    sv = x.load(st, v)
    return Box(t, x.store(t, sv))


# -- readers and writers
@new("System.IO.MemoryStream")
def _(x, t, m, a):
    if not a:
        return Stream(Arr("System.Byte", []), 0, 0, True, True)
    if isinstance(a[0], Arr):
        if len(a) >= 3:
            o, n = x.nonneg(a[1]), x.nonneg(a[2])
            if o + n > len(a[0].v):
                x.throw("System.ArgumentException")
            return Stream(a[0], o, n, bool(a[3]) if len(a) > 3 else True)
        return Stream(a[0], 0, len(a[0].v), bool(a[1]) if len(a) > 1 else True)
    x.nonneg(a[0])
    return Stream(Arr("System.Byte", []), 0, 0, True, True)


@new("System.IO.BinaryReader", "System.IO.BinaryWriter")
def _(x, t, m, a):
    if a[0] is None:
        x.throw("System.ArgumentNullException")
    return IO(t, a[0])


def both(n, f):
    LIB["System.IO.Stream::" + n] = LIB["System.IO.MemoryStream::" + n] = f


both("get_Position", lambda x, m, a: a[0].pos)
both("get_Length", lambda x, m, a: a[0].len)
both("get_CanRead", lambda x, m, a: 1)
both("get_CanSeek", lambda x, m, a: 1)
both("Flush", lambda x, m, a: None)
both("Dispose", lambda x, m, a: None)
both("Close", lambda x, m, a: None)
both("ToArray", lambda x, m, a: Arr("System.Byte", a[0].arr.v[a[0].base:a[0].base + a[0].len]))


def set_pos(x, m, a):
    a[0].pos = x.nonneg(a[1], 64)


def seek(x, m, a):
    s = a[0].s if isinstance(a[0], IO) else a[0]
    off = x.conc(a[1], 64 if m["params"][0] == "System.Int64" else 32)
    org = x.conc(a[2])
    p = off + (0, s.pos, s.len)[org]
    if p < 0:
        x.throw("System.IO.IOException")
    s.pos = p
    return p


def s_read(x, m, a):
    s = a[0].s if isinstance(a[0], IO) else a[0]
    d, o, n = a[1], x.nonneg(a[2]), x.nonneg(a[3])
    k = min(n, max(0, s.len - s.pos))
    d.v[o:o + k] = s.arr.v[s.base + s.pos:s.base + s.pos + k]
    s.pos += k
    return k


def s_readbyte(x, m, a):
    s = a[0]
    if s.pos >= s.len:
        return mask(32)
    v = zext(s.arr.v[s.base + s.pos], 8, 32)
    s.pos += 1
    return v


def s_write(x, m, a):
    s = a[0]
    if len(a) == 2:
        return x.swrite(s, list(a[1].items()))
    o, n = x.nonneg(a[2]), x.nonneg(a[3])
    x.swrite(s, list(a[1].v[o:o + n]))


both("set_Position", set_pos)
both("Seek", seek)
both("Read", s_read)
both("ReadByte", s_readbyte)
both("Write", s_write)
both("WriteByte", lambda x, m, a: x.swrite(a[0], [a[1]]))
R, W = "System.IO.BinaryReader::", "System.IO.BinaryWriter::"
LIB[R + "get_BaseStream"] = LIB[W + "get_BaseStream"] = lambda x, m, a: a[0].s
LIB[R + "Close"] = LIB[R + "Dispose"] = LIB[W + "Close"] = LIB[W + "Dispose"] = LIB[W + "Flush"] = lambda x, m, a: None
LIB[W + "Seek"] = seek
LIB[R + "Read"] = s_read
for _n in ("Byte", "SByte", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Single", "Double"):
    LIB[R + "Read" + _n] = lambda x, m, a: concat_le(x.sread(a[0].s, size_of(x, m["ret"])))
LIB[R + "ReadBoolean"] = lambda x, m, a: b8(neg(eq(x.sread(a[0].s, 1)[0], 0, 8)))


@lib(R + "ReadBytes")
def _(x, m, a):
    s, n = a[0].s, a[1]
    left = max(0, s.len - s.pos)
    if is_sym(n):
        if x.ctx.branch(norm_b(n < 0)):
            x.throw("System.ArgumentOutOfRangeException")
        if x.ctx.branch(norm_b(n > left)):
            if x.ctx.branch(norm_b(n > 0x7fffffc7)):
                x.throw("System.OutOfMemoryException")
            n = left
    n = x.conc(n)
    if n < 0:
        x.throw("System.ArgumentOutOfRangeException")
    if n > 0x7fffffc7:
        x.throw("System.OutOfMemoryException")
    return Arr("System.Byte", x.sread(s, min(n, left)))


@lib(W + "Write")
def _(x, m, a):
    s, t = a[0].s, m["params"][0]
    if len(a) == 4:
        o, n = x.nonneg(a[2]), x.nonneg(a[3])
        if o + n > len(a[1].v):
            x.throw("System.ArgumentOutOfRangeException")
        return x.swrite(s, list(a[1].v[o:o + n]))
    if t == "System.Byte[]":
        if a[1] is None:
            x.throw("System.ArgumentNullException")
        return x.swrite(s, list(a[1].v))
    if isinstance(a[1], Span):
        return x.swrite(s, list(a[1].items()))
    if t == "System.String":
        bs = x.utf8_encode(a[1].u)
        n, pre = len(bs), []
        while n > 127:
            pre.append(n & 127 | 128)
            n >>= 7
        return x.swrite(s, pre + [n] + bs)
    if x.kind(t) and t != "System.Char":
        return x.swrite(s, split_le(a[1], size_of(x, t)))
    raise Unsupported("BinaryWriter.Write of " + t)
