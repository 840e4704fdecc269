"""Symbolic execution of textual LLVM IR (as written by rustc and zig): parser, byte-level memory, path forking.

Integers are python ints (unsigned reading) or z3 bit-vectors; i1 is 0/1 or a z3 Bool; floats are the words of their bits;
pointers are 64-bit words (every object has a concrete address, objects do not touch); aggregates are lists.
"""
import bisect
import re

import z3

import symcore
from symcore import (PathEnd, Unsupported, bv, conj, disj, extract, is_sym, mask, neg, norm, norm_b, sext, split_le, sx, zext)

MAX_STEPS = 20_000_000
TOK = re.compile(r'''\s*(?:(c?"(?:[^"\\]|\\.)*")|([%@#!$][-\w.$]+|[%@$]"[^"]*")|(0x[KMLH]?[0-9A-Fa-f]+)|(-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+)|([A-Za-z_][\w.]*)|(\.\.\.|.))''')


class Trap(Exception):
    """the program ends abnormally: panic, abort, unreachable, invalid memory access"""


class Ty:
    __slots__ = ("k", "w", "n", "e", "size", "align", "offs")

    def __init__(self, k, w=0, n=0, e=None, packed=False):
        self.k, self.w, self.n, self.e, self.offs = k, w, n, e, None
        if k == "int":
            b = (w + 7) // 8
            a = 1
            while a < b and a < 16:
                a *= 2
            self.align = a
            self.size = (b + a - 1) // a * a
        elif k == "ptr":
            self.size = self.align = 8
        elif k in ("float", "double"):
            self.size = self.align = 4 if k == "float" else 8
            self.w = 8 * self.size
        elif k == "arr":
            self.size, self.align = n * e.size, e.align
        elif k == "vec":
            self.size = (n * e.w + 7) // 8 if e.k != "ptr" else 8 * n
            self.align = self.size or 1
        elif k == "struct":
            off, al, self.offs = 0, 1, []
            for t in e:
                a = 1 if packed else t.align
                off = (off + a - 1) // a * a
                self.offs.append(off)
                off += t.size
                al = max(al, a)
            self.align = al
            self.size = (off + al - 1) // al * al
        else:
            self.size = self.align = 0

    def store_size(self):
        return (self.w + 7) // 8 if self.k == "int" else self.size


I1, I8, I64, PTR, VOID = Ty("int", 1), Ty("int", 8), Ty("int", 64), Ty("ptr"), Ty("void")
_ints = {1: I1, 8: I8, 64: I64}
CONSTS = {"true", "false", "null", "undef", "poison", "zeroinitializer", "getelementptr", "inttoptr", "ptrtoint", "bitcast", "none", "c",
          "splat", "trunc", "add", "sub", "xor", "blockaddress", "dso_local_equivalent", "no_cfi"}


def toks(line):
    out = []
    for m in TOK.finditer(line):
        s = m.group(m.lastindex)
        if s == ";":
            break
        if s.strip():
            out.append(s)
    return out


class Fn:
    __slots__ = ("name", "params", "ret", "blocks", "order", "lines", "parsed", "pure", "loops", "types")


class Module:
    """parsed once; shared by every path"""
    def __init__(self, text):
        self.named, self.globals, self.fns, self.decls = {}, {}, {}, set()
        self.addr = {}
        self.next = 0x10000
        self.objs = []              # (addr, size, bytes, constant)
        self.fnaddr = {}
        pend = []
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith("%") and " = type " in ln:
                name, body = ln.split(" = type ", 1)
                pend.append((name.strip(), body))
            elif ln.startswith("@"):
                t = toks(ln)
                self.globals[self.unq(t[0])] = t
            elif ln.startswith("define "):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                f = Fn()
                f.lines = lines[i:j]
                f.parsed = False
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln)
                f.name = m.group(1).strip('"')
                self.fns[f.name] = f
                i = j
            elif ln.startswith("declare "):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln)
                self.decls.add(m.group(1).strip('"'))
            i += 1
        self.tdefs = dict(pend)
        for n in list(self.fns) + sorted(self.decls):
            self.fnaddr[n] = self.next
            self.next += 64
        self.fnat = {a: n for n, a in self.fnaddr.items()}
        inits = []
        for n, t in self.globals.items():
            p = P(self, t, 2)
            const, ext = False, False
            while True:
                x = p.peek()
                if x in ("global", "constant"):
                    const = x == "constant"
                    p.i += 1
                    break
                if x == "alias":
                    break
                if x in ("external", "extern_weak"):
                    ext = True
                p.i += 1
                if p.peek() == "(":
                    p.skip_parens()
            if p.peek() == "alias":
                p.i += 1
                p.type()
                p.eat(",")
                ty = p.type()
                self.addr[n] = ("alias", p.next())
                continue
            ty = p.type()
            size = max(ty.size, 1)
            a = self.alloc_addr(size)
            self.addr[n] = a
            inits.append((n, a, ty, None if ext else p, const, size))
        for n, v in list(self.addr.items()):
            if isinstance(v, tuple):
                self.addr[n] = self.symaddr(v[1])
        for n, a, ty, p, const, size in inits:
            data = [None] * size
            if p is not None and p.i < len(p.t) and p.peek() != ",":
                v = p.const(ty)
                data = [0 if b is None else b for b in to_bytes(ty, v)]
                data += [0] * (size - len(data))
            self.objs.append((a, size, data, const))

    def alloc_addr(self, size):
        a = (self.next + 63) // 32 * 32
        self.next = a + size + 32
        return a

    @staticmethod
    def unq(s):
        s = s[1:]
        return s[1:-1] if s.startswith('"') else s

    def symaddr(self, tok):
        n = self.unq(tok)
        if n in self.addr:
            return self.addr[n]
        if n in self.fnaddr:
            return self.fnaddr[n]
        raise Unsupported("unknown symbol " + tok)

    def typename(self, tok):
        if tok not in self.named:
            self.named[tok] = Ty("opaque")
            self.named[tok] = P(self, toks(self.tdefs[tok])).type()
        return self.named[tok]

    def fn(self, name):
        f = self.fns[name]
        if not f.parsed:
            parse_fn(self, f)
            f.parsed = True
        return f


def to_bytes(ty, v):
    """bytes of a constant or value of a type; None for padding"""
    k = ty.k
    if k in ("int", "ptr", "float", "double"):
        if k == "int" and ty.w == 1:
            v = v if isinstance(v, int) else norm(z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
            return [v]
        n = ty.store_size()
        if k == "int" and ty.w % 8:
            v = zext(v, ty.w, 8 * n)
        b = split_le(v, n)
        return b + [None] * (ty.size - n)
    if k == "arr":
        return [b for x in v for b in to_bytes(ty.e, x)]
    if k == "vec":
        if ty.e.k == "int" and ty.e.w % 8:
            w = 0
            if ty.e.w == 1 and all(isinstance(x, int) for x in v):
                for i, x in enumerate(v):
                    w |= x << i
                return list(w.to_bytes(ty.size, "little"))
            raise Unsupported("vector of odd integers in memory")
        return [b for x in v for b in to_bytes(ty.e, x)]
    if k == "struct":
        out = [None] * ty.size
        for t, o, x in zip(ty.e, ty.offs, v):
            out[o:o + t.size] = to_bytes(t, x)
        return out
    return []


def zero(ty):
    if ty.k in ("arr", "vec"):
        return [zero(ty.e) for _ in range(ty.n)]
    if ty.k == "struct":
        return [zero(t) for t in ty.e]
    return 0


class P:
    """recursive descent over the tokens of one line"""
    def __init__(self, mod, t, i=0):
        self.m, self.t, self.i = mod, t, i

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ""

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.next() != x:
            raise Unsupported(f"IR syntax near {' '.join(self.t[:self.i + 3])[-160:]}, wanted {x}")

    def skip_parens(self):
        d = 0
        while True:
            x = self.next()
            d += x in ("(", "[", "{", "<")
            d -= x in (")", "]", "}", ">")
            if d == 0:
                return

    def type(self):
        x = self.next()
        if re.fullmatch(r"i\d+", x):
            w = int(x[1:])
            ty = _ints.get(w) or _ints.setdefault(w, Ty("int", w))
        elif x == "ptr":
            ty = PTR
            if self.peek() == "addrspace":
                self.i += 1
                self.skip_parens()
        elif x == "void":
            ty = VOID
        elif x in ("float", "double"):
            ty = Ty(x)
        elif x in ("metadata", "label", "token", "opaque"):
            ty = Ty(x)
        elif x == "half" or x == "x86_fp80" or x == "fp128" or x == "bfloat":
            ty = Ty("int", {"half": 16, "bfloat": 16, "x86_fp80": 80, "fp128": 128}[x])
        elif x.startswith("%"):
            ty = self.m.typename(x)
        elif x == "[":
            n = int(self.next())
            self.eat("x")
            ty = Ty("arr", n=n, e=self.type())
            self.eat("]")
        elif x == "{":
            ty = self.struct("}", False)
        elif x == "<":
            if self.peek() == "{":
                self.i += 1
                ty = self.struct("}", True)
                self.eat(">")
            else:
                n = int(self.next())
                self.eat("x")
                ty = Ty("vec", n=n, e=self.type())
                self.eat(">")
        else:
            raise Unsupported("IR type " + x)
        while self.peek() == "(":           # function type of a call
            self.skip_parens()
        return ty

    def struct(self, end, packed):
        e = []
        while self.peek() != end:
            if self.peek() == ",":
                self.i += 1
                continue
            e.append(self.type())
        self.i += 1
        return Ty("struct", e=e, packed=packed)

    def attrs(self):
        while True:
            x = self.peek()
            if x and re.fullmatch(r"[a-z_][\w]*", x) and x not in CONSTS and not re.fullmatch(r"i\d+", x) and x not in ("ptr", "void", "float", "double", "asm"):
                self.i += 1
                if self.peek() == "(":
                    self.skip_parens()
                elif re.fullmatch(r"\d+", self.peek()) and x in ("align", "dereferenceable"):
                    self.i += 1
            elif x.startswith("#"):
                self.i += 1
            else:
                return

    def const(self, ty):
        x = self.next()
        if x.startswith("@"):
            return self.m.symaddr(x)
        if x[0] == '"' or x.startswith('c"'):
            s = x[x.index('"') + 1:-1]
            out, i = [], 0
            b = s.encode("latin-1", "replace") if all(ord(c) < 256 for c in s) else s.encode()
            while i < len(b):
                if b[i] == 92:
                    if b[i + 1] == 92:
                        out.append(92)
                        i += 2
                    else:
                        out.append(int(b[i + 1:i + 3], 16))
                        i += 3
                else:
                    out.append(b[i])
                    i += 1
            return out
        if x in ("zeroinitializer", "undef", "poison", "none"):
            return zero(ty)
        if x == "null":
            return 0
        if x == "true":
            return 1
        if x == "false":
            return 0
        if x == "getelementptr":
            while self.peek() != "(":
                self.i += 1
            self.i += 1
            t = self.type()
            self.eat(",")
            self.type()
            base = self.const(PTR)
            idx = []
            while self.peek() == ",":
                self.i += 1
                it = self.type()
                idx.append((it.w, self.const(it)))
            self.eat(")")
            return gep(t, base, idx)
        if x in ("inttoptr", "ptrtoint", "bitcast", "trunc"):
            self.eat("(")
            t = self.type()
            v = self.const(t)
            self.eat("to")
            t2 = self.type()
            self.eat(")")
            return v & mask(t2.w) if x == "trunc" else v
        if x in ("add", "sub", "xor"):
            while self.peek() != "(":
                self.i += 1
            self.i += 1
            t = self.type()
            a = self.const(t)
            self.eat(",")
            self.type()
            b = self.const(t)
            self.eat(")")
            return {"add": a + b, "sub": a - b, "xor": a ^ b}[x] & mask(t.w or 64)
        if x == "splat":
            self.eat("(")
            t = self.type()
            v = self.const(t)
            self.eat(")")
            return [v] * ty.n
        if x in ("{", "[", "<"):
            packed = x == "<" and self.peek() == "{"
            if packed:
                self.i += 1
            end = {"{": "}", "[": "]", "<": "}" if packed else ">"}[x]
            out = []
            while self.peek() != end:
                if self.peek() == ",":
                    self.i += 1
                    continue
                t = self.type()
                out.append(self.const(t))
            self.i += 1
            if packed:
                self.eat(">")
            return out
        if ty.k in ("float", "double"):
            import struct
            if x.startswith("0x"):
                d = int(x[2:], 16)
                if ty.k == "double":
                    return d
                return int.from_bytes(struct.pack("<f", struct.unpack("<d", d.to_bytes(8, "little"))[0]), "little")
            return int.from_bytes(struct.pack("<f" if ty.k == "float" else "<d", float(x)), "little")
        try:
            return int(x, 0) & mask(ty.w or 64)
        except ValueError:
            raise Unsupported("IR constant " + x)

    def op(self, ty):
        """operand: register name or constant value"""
        if self.peek().startswith("%"):
            return self.next()
        return self.const(ty)

    def top(self):
        ty = self.type()
        self.attrs()
        return ty, self.op(ty)


def gep(t, base, idx):
    off = 0
    first = True
    for w, v in idx:
        if first:
            sz = t.size
            first = False
        elif t.k == "struct":
            if not isinstance(v, int):
                raise Unsupported("symbolic struct index")
            off = off + t.offs[v]
            t = t.e[v]
            continue
        else:
            t = t.e
            sz = t.size
        if isinstance(v, int):
            off = off + sx(v, w) * sz
        else:
            off = off + sext(v, w, 64) * sz
    if isinstance(base, int) and isinstance(off, int):
        return (base + off) & mask(64)
    if isinstance(off, int):
        off &= mask(64)
    return norm(bv(base, 64) + bv(off, 64))


BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}
FBIN = {"fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "fpext", "fptrunc", "uitofp", "sitofp", "fptoui", "fptosi", "addrspacecast"}
FLAGS = {"nuw", "nsw", "exact", "disjoint", "inbounds", "nusw", "nneg", "samesign", "volatile", "fast", "nnan", "ninf", "nsz", "arcp",
         "contract", "afn", "reassoc"}


def parse_fn(mod, f):
    t = toks(f.lines[0])
    at = next(i for i, x in enumerate(t) if x.startswith("@"))
    p = P(mod, t, at + 1)
    p.eat("(")
    f.params = []
    n = 0
    while p.peek() != ")":
        if p.peek() == ",":
            p.i += 1
            continue
        if p.peek() == "...":
            p.i += 1
            continue
        ty = p.type()
        p.attrs()
        if p.peek().startswith("%"):
            f.params.append((p.next(), ty))
        else:
            f.params.append((f"%{n}", ty))
        n += 1
    f.blocks, f.order = {}, []
    cur = None
    body = f.lines[1:]
    i = 0
    while i < len(body):
        ln = body[i]
        i += 1
        s = ln.strip()
        if not s or s.startswith((";", "#dbg")):
            continue
        m = re.match(r'^("[^"]*"|[-\w.$]+):', ln)
        if m:
            cur = "%" + m.group(1)
            f.blocks[cur] = []
            f.order.append(cur)
            continue
        if cur is None:
            cur = f"%{len(f.params)}" if all(re.fullmatch(r"%\d+", q) for q, _ in f.params) else "%0"
            f.blocks[cur] = []
            f.order.append(cur)
        if s.startswith("switch ") and "]" not in s:
            while "]" not in body[i]:
                s += " " + body[i].strip()
                i += 1
            s += " " + body[i].strip()
            i += 1
        if " !dbg" in s:
            s = s.split(", !dbg")[0]
        ins = parse_ins(mod, toks(s))
        if ins is not None:
            f.blocks[cur].append(ins)
    f.pure, f.loops = {}, {}


def parse_ins(mod, t):
    p = P(mod, t)
    dst = None
    if p.peek(1) == "=":
        dst = p.next()
        p.i += 1
    op = p.next()
    while op in ("tail", "musttail", "notail"):
        op = p.next()
    flags = lambda: None
    def flags():
        while p.peek() in FLAGS:
            p.i += 1
    if op in BIN or op in FBIN:
        flags()
        ty = p.type()
        a = p.op(ty)
        p.eat(",")
        return (op, dst, ty, a, p.op(ty))
    if op in ("icmp", "fcmp"):
        flags()
        pred = p.next()
        ty = p.type()
        a = p.op(ty)
        p.eat(",")
        return (op, dst, pred, ty, a, p.op(ty))
    if op in CAST:
        flags()
        ty = p.type()
        a = p.op(ty)
        p.eat("to")
        return ("cast", dst, op, ty, a, p.type())
    if op == "load":
        if p.peek() == "atomic":
            p.i += 1
        flags()
        ty = p.type()
        p.eat(",")
        _, a = p.top()
        return ("load", dst, ty, a)
    if op == "store":
        if p.peek() == "atomic":
            p.i += 1
        flags()
        ty, v = p.top()
        p.eat(",")
        _, a = p.top()
        return ("store", None, ty, v, a)
    if op == "getelementptr":
        flags()
        if p.peek() == "inrange":
            p.i += 1
            p.skip_parens()
        ty = p.type()
        p.eat(",")
        _, base = p.top()
        idx = []
        while p.peek() == "," and not p.peek(1).startswith("!"):
            p.i += 1
            it, v = p.top()
            idx.append((it.w, v))
        return ("gep", dst, ty, base, idx)
    if op == "alloca":
        ty = p.type()
        n = 1
        if p.peek() == "," and re.fullmatch(r"i\d+", p.peek(1)):
            p.i += 1
            it = p.type()
            n = p.op(it)
        return ("alloca", dst, ty, n)
    if op == "br":
        if p.peek() == "label":
            p.i += 1
            return ("br", None, p.next())
        p.type()
        c = p.op(I1)
        p.eat(",")
        p.eat("label")
        a = p.next()
        p.eat(",")
        p.eat("label")
        return ("cbr", None, c, a, p.next())
    if op == "switch":
        ty = p.type()
        v = p.op(ty)
        p.eat(",")
        p.eat("label")
        d = p.next()
        p.eat("[")
        cases = []
        while p.peek() != "]":
            p.type()
            k = p.const(ty)
            p.eat(",")
            p.eat("label")
            cases.append((k, p.next()))
        return ("switch", None, ty, v, d, cases)
    if op == "ret":
        ty = p.type()
        return ("ret", None, None if ty.k == "void" else p.op(ty), ty)
    if op == "unreachable":
        return ("unreachable", None)
    if op == "phi":
        flags()
        ty = p.type()
        inc = {}
        while True:
            p.eat("[")
            v = p.op(ty)
            p.eat(",")
            inc[p.next()] = v
            p.eat("]")
            if p.peek() != ",":
                break
            p.i += 1
            if p.peek() != "[":
                break
        return ("phi", dst, ty, inc)
    if op == "select":
        flags()
        ct, c = p.top()
        p.eat(",")
        ty, a = p.top()
        p.eat(",")
        _, b = p.top()
        return ("select", dst, ct, c, ty, a, b)
    if op == "extractvalue":
        ty, a = p.top()
        idx = []
        while p.peek() == "," and re.fullmatch(r"\d+", p.peek(1)):
            p.i += 1
            idx.append(int(p.next()))
        return ("extractvalue", dst, a, idx)
    if op == "insertvalue":
        ty, a = p.top()
        p.eat(",")
        _, v = p.top()
        idx = []
        while p.peek() == "," and re.fullmatch(r"\d+", p.peek(1)):
            p.i += 1
            idx.append(int(p.next()))
        return ("insertvalue", dst, a, v, idx)
    if op == "extractelement":
        ty, a = p.top()
        p.eat(",")
        it, i = p.top()
        return ("extractelement", dst, a, i)
    if op == "insertelement":
        ty, a = p.top()
        p.eat(",")
        _, v = p.top()
        p.eat(",")
        it, i = p.top()
        return ("insertelement", dst, a, v, i)
    if op == "shufflevector":
        ty, a = p.top()
        p.eat(",")
        _, b = p.top()
        p.eat(",")
        mt, m = p.top()
        return ("shuffle", dst, ty, a, b, m)
    if op == "freeze":
        ty, a = p.top()
        return ("copy", dst, a)
    if op == "fneg":
        flags()
        ty, a = p.top()
        return ("fneg", dst, ty, a)
    if op == "call":
        p.attrs()
        ty = p.type()
        x = p.next()
        if x == "asm":
            return ("asm", dst, " ".join(t))
        callee = x if x.startswith("%") else ("@", Module.unq(x))
        if x.startswith("@") and callee[1].startswith(("llvm.dbg.", "llvm.lifetime.", "llvm.experimental.noalias.", "llvm.assume", "llvm.invariant.", "llvm.donothing")):
            return None
        p.eat("(")
        args = []
        while p.peek() != ")":
            if p.peek() == ",":
                p.i += 1
                continue
            at = p.type()
            p.attrs()
            if at.k == "metadata":
                while p.peek() not in (",", ")"):
                    p.i += 1
                continue
            args.append((at, p.op(at)))
        return ("call", dst, ty, callee, args)
    if op == "fence":
        return None
    return ("unknown", dst, op)


PURE = BIN - {"udiv", "sdiv", "urem", "srem"} | {"icmp", "fcmp", "cast", "gep", "select", "extractvalue", "insertvalue", "copy", "br", "cbr", "switch", "load"}


class Obj:
    __slots__ = ("a", "n", "d", "freed", "const", "words", "kind", "sn", "ok")

    def __init__(self, a, n, d, const=False, kind="heap"):
        self.a, self.n, self.d, self.freed, self.const, self.words, self.kind = a, n, d, False, const, {}, kind
        self.sn = None              # the true size, when it is not decided (n bounds it); ok: known to lie inside
        self.ok = 0


class Exec:
    """one path"""
    def __init__(self, mod, ctx, fns, hooks):
        self.m, self.ctx, self.fns, self.hooks = mod, ctx, fns, hooks
        self.addrs, self.objs = [], []
        self.next = (mod.next + 0xfffff) & ~0xfffff
        for a, n, d, const in mod.objs:
            self.addrs.append(a)
            self.objs.append(Obj(a, n, d if const else list(d), const, "global"))
        z = sorted(zip(self.addrs, self.objs), key=lambda q: q[0])
        self.addrs, self.objs = [q[0] for q in z], [q[1] for q in z]
        self.steps = self.depth = 0
        self.fresh = 0
        self.last = None

    # -- memory ---------------------------------------------------------------
    def alloc(self, n, data=None, align=16, kind="heap"):
        align = max(align, 16)
        a = (self.next + align - 1) // align * align
        self.next = a + n + 48
        o = Obj(a, n, data if data is not None else [None] * n, False, kind)
        self.addrs.append(a)
        self.objs.append(o)
        return a

    def free(self, a):
        o = self.find(a, 0)
        if o.a != a or o.kind != "heap":
            raise Trap("invalid free")
        o.freed = True
        o.d = None

    def find(self, a, n):
        o = self.last
        if o is not None and o.a <= a and a + n <= o.a + o.n and not o.freed:
            if o.sn is not None:
                self.inside(o, a + n - o.a, n)
            return o
        i = bisect.bisect_right(self.addrs, a) - 1
        if i >= 0:
            o = self.objs[i]
            if a + n <= o.a + o.n:
                if o.freed:
                    raise Trap("use of freed memory")
                self.last = o
                if o.sn is not None:
                    self.inside(o, a + n - o.a, n)
                return o
        raise Trap(f"memory access of {n} bytes outside any object (address {a:#x})")

    def inside(self, o, end, n):
        if n and end > o.ok:
            if self.ctx.branch(norm_b(z3.UGT(end, bv(o.sn, 64)))):
                raise Trap(f"memory access of {n} bytes past the end of a block")
            o.ok = end

    def byte(self, o, k):
        b = o.d[k]
        if b is None:
            b = z3.BitVec(f"undef{self.fresh}", 8)
            self.fresh += 1
            if not o.const:
                o.d[k] = b
        return b

    def load_word(self, a, n):
        o = self.find(a, n)
        k = a - o.a
        if o.words:
            w = o.words.get(k)
            if w is not None and w[0] == n:
                return w[1]
        bs = o.d[k:k + n]
        try:
            return int.from_bytes(bytes(bs), "little")
        except TypeError:
            pass
        return symcore.concat_le([self.byte(o, k + i) if b is None else b for i, b in enumerate(bs)])

    def store_word(self, a, v, n):
        o = self.find(a, n)
        if o.const:
            raise Trap("write to constant memory")
        k = a - o.a
        if o.words:
            self.forget(o, k, n)
        if isinstance(v, int):
            o.d[k:k + n] = v.to_bytes(n, "little")
        else:
            o.d[k:k + n] = split_le(v, n)
            if n > 1:
                o.words[k] = (n, v)

    @staticmethod
    def forget(o, k, n):
        for q in [q for q, w in o.words.items() if q < k + n and q + w[0] > k]:
            del o.words[q]

    def read_bytes(self, a, n):
        if n == 0:
            return []
        o = self.find(a, n)
        k = a - o.a
        return o.d[k:k + n]

    def write_bytes(self, a, bs):
        if not bs:
            return
        o = self.find(a, len(bs))
        if o.const:
            raise Trap("write to constant memory")
        k = a - o.a
        if o.words:
            self.forget(o, k, len(bs))
        o.d[k:k + len(bs)] = bs

    def conc(self, a, what="pointer"):
        """a concrete word"""
        if isinstance(a, int):
            return a
        return self.ctx.value(a)

    def load(self, a, ty):
        if not isinstance(a, int):
            r = self.load_sym(a, ty)
            if r is not None:
                return r
            a = self.conc(a)
        k = ty.k
        if k == "int":
            w = ty.w
            if w == 1:
                b = self.load_word(a, 1)
                return b & 1 if isinstance(b, int) else norm_b(z3.Extract(0, 0, b) == 1)
            n = (w + 7) // 8
            v = self.load_word(a, n)
            return v if w % 8 == 0 else extract(v, w - 1, 0)
        if k in ("ptr", "float", "double"):
            return self.load_word(a, ty.size)
        if k == "arr":
            return [self.load(a + i * ty.e.size, ty.e) for i in range(ty.n)]
        if k == "vec":
            if ty.e.k == "int" and ty.e.w % 8:
                raise Unsupported("vector of odd integers in memory")
            return [self.load(a + i * ty.e.size, ty.e) for i in range(ty.n)]
        if k == "struct":
            return [self.load(a + o, t) for t, o in zip(ty.e, ty.offs)]
        raise Unsupported("load of " + k)

    def load_sym(self, a, ty):
        """a table look-up: one constant object, every value of the address inside it"""
        if ty.k not in ("int", "ptr") or ty.w == 1 or self.ctx.spec:
            return None
        if not self.ctx.feasible():
            raise PathEnd()
        v = self.ctx.model.eval(a, model_completion=True).as_long()
        n = (ty.w + 7) // 8 if ty.k == "int" else 8
        i = bisect.bisect_right(self.addrs, v) - 1
        if i < 0:
            return None
        o = self.objs[i]
        if not o.const or o.n > 4096 or v + n > o.a + o.n:
            return None
        inside = z3.And(z3.UGE(a, o.a), z3.ULE(a, o.a + o.n - n))
        if self.ctx._check(z3.Not(inside)):
            return None
        if ty.k == "ptr":
            return None
        r = None
        for k in range(0, o.n - n + 1):
            w = self.load_word(o.a + k, n)
            if r is None:
                r = bv(w, 8 * n)
            elif k % n == (v - o.a) % n:
                r = z3.If(a == o.a + k, bv(w, 8 * n), r)
        # addresses of another residue would be wrong: check
        if n > 1 and self.ctx._check(z3.URem(a - (v % n), n) != 0):
            return None
        r = norm(r)
        return r if ty.w % 8 == 0 or ty.k == "ptr" else extract(r, ty.w - 1, 0)

    def store(self, a, ty, v):
        a = self.conc(a)
        k = ty.k
        if k == "int" and ty.w % 8 == 0:
            self.store_word(a, v, ty.w // 8)
        elif k in ("ptr", "float", "double"):
            self.store_word(a, v, ty.size)
        elif k == "int":
            self.write_bytes(a, to_bytes(ty, v)[:(ty.w + 7) // 8])
        elif k in ("arr", "vec"):
            if k == "vec" and ty.e.k == "int" and ty.e.w % 8:
                self.write_bytes(a, to_bytes(ty, v))
            else:
                for i, x in enumerate(v):
                    self.store(a + i * ty.e.size, ty.e, x)
        elif k == "struct":
            for t, o, x in zip(ty.e, ty.offs, v):
                self.store(a + o, t, x)
        else:
            raise Unsupported("store of " + k)

    # -- running ----------------------------------------------------------------
    def call(self, name, args):
        h = self.hooks.get(name)
        if h is None and name not in self.m.fns:
            for pat, fn in self.hooks["*"]:
                if pat.search(name):
                    h = self.hooks[name] = fn
                    break
            else:
                raise Unsupported("external function " + name)
        if h is not None:
            self.callee = name
            return h(self, args)
        f = self.m.fn(name)
        self.fns.add(name)
        self.depth += 1
        if self.depth > 150:
            raise Trap("stack overflow")
        r = {}
        for (n, _), a in zip(f.params, args):
            r[n] = a
        stack = []
        r["#stack"] = stack
        try:
            return self.run(f, r)
        finally:
            self.depth -= 1
            for a in stack:
                i = bisect.bisect_right(self.addrs, a) - 1
                self.objs[i].freed = True
                self.objs[i].d = None
            self.last = None

    def run(self, f, r):
        cur, prev = f.order[0], None
        while True:
            ins = f.blocks[cur]
            n = 0
            if ins[0][0] == "phi":
                new = []
                pre = r.pop("#phi", None)
                while ins[n][0] == "phi":
                    i = ins[n]
                    if pre is not None:
                        new.append((i[1], pre[n]))
                    else:
                        o = i[3][prev]
                        new.append((i[1], r[o] if o.__class__ is str else o))
                    n += 1
                r.update(new)
            nxt = None
            for i in ins[n:]:
                self.steps += 1
                op = i[0]
                if op == "br":
                    nxt = i[2]
                elif op == "cbr":
                    c = i[2]
                    if c.__class__ is str:
                        c = r[c]
                    if isinstance(c, int):
                        nxt = i[3] if c else i[4]
                    else:
                        cur, nxt = self.fork(f, r, cur, [(c, i[3]), (neg(c), i[4])])
                elif op == "switch":
                    v = i[3]
                    if v.__class__ is str:
                        v = r[v]
                    if isinstance(v, int):
                        nxt = i[4]
                        for k, t in i[5]:
                            if k == v:
                                nxt = t
                                break
                    else:
                        cur, nxt = self.fork(f, r, cur, self.arms(i, v))
                elif op == "ret":
                    v = i[2]
                    return r[v] if v.__class__ is str else v
                elif op == "call":
                    d = self.do_call(r, i)
                    if i[1] is not None:
                        r[i[1]] = d
                elif op == "unreachable":
                    raise Trap("unreachable code reached")
                else:
                    d = self.ins(r, i, op)
                    if i[1] is not None:
                        r[i[1]] = d
            if self.steps > MAX_STEPS:
                raise Trap("does not finish within the step bound")
            prev, cur = cur, nxt

    @staticmethod
    def arms(i, v):
        w = i[2].w
        if w == 1:
            v1 = z3.If(v, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if isinstance(v, z3.BoolRef) else v
            v = v1
        out = [(v == z3.BitVecVal(k, w), t) for k, t in i[5]]
        out.append((z3.And(*[v != z3.BitVecVal(k, w) for k, _ in i[5]]), i[4]))
        return out

    def pure(self, f, b):
        q = f.pure.get(b)
        if q is None:
            q = f.pure[b] = all(i[0] in PURE for i in f.blocks[b]) and f.blocks[b][-1][0] in ("br", "cbr", "switch")
        return q

    def closed_loop(self, f, b):
        """b heads a loop whose blocks are free of side effects; such a loop may be evaluated ahead"""
        q = f.loops.get(b)
        if q is None:
            succ = {k: [x for x in flat(v[-1]) if x in f.blocks] for k, v in f.blocks.items() if v}
            pred = {}
            for k, v in succ.items():
                for x in v:
                    pred.setdefault(x, set()).add(k)
            # blocks reached without passing b; the others are dominated by it
            free, todo = {f.order[0], b}, [f.order[0]]
            while todo:
                for k in succ.get(todo.pop(), ()):
                    if k not in free:
                        free.add(k)
                        todo.append(k)
            body, todo = {b}, [k for k in pred.get(b, ()) if k == b or k not in free]
            todo_back = list(todo)
            while todo:
                k = todo.pop()
                if k not in body:
                    body.add(k)
                    todo += pred.get(k, ())
            q = bool(todo_back) and f.order[0] not in body and len(body) < 30
            q = q and all(i[0] in PURE or i[0] == "phi" and k == b for k in body for i in f.blocks[k])
            f.loops[b] = q
        return q

    def fork(self, f, r, frm, arms):
        """follow chains of side-effect-free blocks and fork only on the block they end in; values meeting in phi nodes of
        that block are merged -> (block come from, block to go to)"""
        exits = []
        count = [0]

        def phis(b, frm, env):
            out = []
            for i in f.blocks[b]:
                if i[0] != "phi":
                    break
                o = i[3][frm]
                out.append((env[o] if o in env else r[o]) if o.__class__ is str else o)
            return out

        def walk(b, frm, pc, env, seen, again=None):
            count[0] += 1
            vals = phis(b, frm, env) if again is None else again
            if again is None and (count[0] > 2000 or b in seen or not self.pure(f, b)):
                exits.append((b, frm, pc, vals, env))
                return
            env2 = Env(r, env)
            nxt = None
            self.ctx.spec = True
            try:
                for n, i in enumerate(f.blocks[b]):
                    op = i[0]
                    if op == "phi":
                        env2[i[1]] = again[n]
                    elif op == "br":
                        nxt = [(i[2], pc)]
                    elif op == "cbr":
                        c = i[2]
                        if c.__class__ is str:
                            c = env2[c]
                        if isinstance(c, int):
                            nxt = [(i[3] if c else i[4], pc)]
                        else:
                            nxt = [(i[3], pc + [c]), (i[4], pc + [neg(c)])]
                    elif op == "switch":
                        v = i[3]
                        if v.__class__ is str:
                            v = env2[v]
                        if isinstance(v, int):
                            nxt = [(next((t for k, t in i[5] if k == v), i[4]), pc)]
                        else:
                            nxt = [(t, pc + [c]) for c, t in self.arms(i, v)]
                    else:
                        env2[i[1]] = self.ins(env2, i, op)
            except (Trap, symcore.Speculative):
                exits.append((b, frm, pc, vals, env))
                return
            finally:
                self.ctx.spec = False
            for t, p in nxt:
                walk(t, b, p, env2, seen | {b})
        for c, t in arms:
            walk(t, frm, [c], Env(r, None), frozenset())
        # a loop that does nothing but look: as long as one state of it is left, follow it
        looped = False
        for _ in range(300):
            back = [e for e in exits if e[3] and all(v.__class__ is int for v in e[3]) and self.closed_loop(f, e[0])]
            if not back or len({(e[0], tuple(e[3])) for e in back}) > 1:
                break
            pc = norm_b(disj([norm_b(conj(e[2])) for e in back]))
            if pc is False or pc is not True and not self.ctx._check(pc):
                exits = [e for e in exits if not any(e is q for q in back)]
                if not exits:
                    raise PathEnd()
                continue
            if len(exits) == len(back):
                break
            old, looped = list(exits), True
            exits[:] = [e for e in exits if not any(e is q for q in back)]
            e = back[0]
            walk(e[0], e[1], [pc], e[4], frozenset(), e[3])
            if count[0] > 2000 or any(q[0] == e[0] and q[3] == e[3] for q in exits):
                exits = old
                break
        groups = {}
        for e in exits:
            b, vals = e[0], e[3]
            key = [b]
            n = 0
            for i, v in zip(f.blocks[b], vals):
                if i[0] != "phi":
                    break
                # scalars can be merged; addresses and aggregates keep their paths apart
                if i[2].k != "int" or isinstance(v, list):
                    key.append(("v", v) if isinstance(v, int) else ("i", id(v)))
                n += 1
            groups.setdefault(tuple(key), []).append(e)
        gs = sorted(groups.values(), key=len)
        # values the exit block uses from skipped blocks (they dominate it) are the same on every path
        for n, g in enumerate(gs):
            conds = [norm_b(conj(e[2])) for e in g]
            c = norm_b(disj(conds))
            if n == len(gs) - 1 or self.ctx.branch(c):
                b = g[0][0]
                env = g[0][4]
                while env is not None:
                    r.update(env.own())
                    env = env.up
                for e in g[1:]:
                    env = e[4]
                    while env is not None:
                        for k, v in env.own().items():
                            r.setdefault(k, v)
                        env = env.up
                if looped:
                    self.merge_envs(f, r, g, conds)
                pv = []
                for k, i in enumerate(f.blocks[b]):
                    if i[0] != "phi":
                        break
                    v = g[-1][3][k]
                    for j in range(len(g) - 2, -1, -1):
                        w = g[j][3][k]
                        if w is v or (isinstance(w, int) and isinstance(v, int) and w == v):
                            continue
                        v = self.ite(conds[j], w, v, i[2])
                    pv.append(v)
                if pv:
                    r["#phi"] = pv
                return g[0][1], b

    def merge_envs(self, f, r, g, conds):
        """registers that differ between the paths meeting here (blocks of a loop were evaluated a differing number of times)"""
        if not hasattr(f, "types"):
            f.types = {i[1]: deftype(i) for ins in f.blocks.values() for i in ins if i[1] is not None}
        names = set()
        for e in g:
            env = e[4]
            while env is not None:
                names |= env.own().keys()
                env = env.up
        for k in names:
            v = None
            for j in range(len(g) - 1, -1, -1):
                if k not in g[j][4]:
                    continue
                w = g[j][4][k]
                if v is None:
                    v = w
                elif w is v or isinstance(w, int) and isinstance(v, int) and w == v or is_sym(w) and is_sym(v) and w.eq(v):
                    pass
                elif f.types[k] is None:
                    v = None
                    r.pop(k, None)
                    break
                else:
                    v = self.ite(conds[j], w, v, f.types[k])
            if v is not None:
                r[k] = v

    def ite(self, c, a, b, ty):
        if isinstance(c, (bool, int)):
            return a if c else b
        if isinstance(a, list):
            es = ty.e if ty.k == "struct" else [ty.e] * ty.n
            return [self.ite(c, x, y, t) for x, y, t in zip(a, b, es)]
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        if ty.k == "int" and ty.w == 1:
            tb = lambda q: z3.BoolVal(bool(q)) if isinstance(q, int) else q
            return self.b1(norm_b(z3.If(c, tb(a), tb(b))))
        w = 64 if ty.k == "ptr" else ty.w
        return norm(z3.If(c, bv(a, w), bv(b, w)))

    @staticmethod
    def b1(c):
        return int(c) if isinstance(c, bool) else c

    def do_call(self, r, i):
        args = [r[v] if v.__class__ is str else v for _, v in i[4]]
        callee = i[3]
        if callee.__class__ is str:
            a = self.conc(r[callee])
            name = self.m.fnat.get(a)
            if name is None:
                raise Trap("call through an invalid pointer")
            return self.call(name, args)
        name = callee[1]
        if name.startswith("llvm."):
            return self.intrinsic(name, i, args)
        return self.call(name, args)

    def ins(self, r, i, op):
        G = lambda o: r[o] if o.__class__ is str else o
        if op == "load":
            return self.load(G(i[3]), i[2])
        if op == "store":
            self.store(G(i[4]), i[2], G(i[3]))
            return None
        if op == "gep":
            return gep(i[2], G(i[3]), [(w, G(v)) for w, v in i[4]])
        if op == "icmp":
            return self.icmp(i[2], i[3], G(i[4]), G(i[5]))
        if op in BIN:
            return self.binop(op, i[2], G(i[3]), G(i[4]))
        if op == "cast":
            return self.cast(i[2], i[3], G(i[4]), i[5])
        if op == "select":
            c, a, b = G(i[3]), G(i[5]), G(i[6])
            if isinstance(c, list):
                return [self.ite(x, p, q, i[4].e) for x, p, q in zip(c, a, b)]
            if isinstance(c, int):
                return a if c else b
            if i[4].k == "ptr" and not (isinstance(a, int) and a == b):
                return a if self.ctx.branch(c) else b
            return self.ite(c, a, b, i[4])
        if op == "copy":
            return G(i[2])
        if op == "extractvalue":
            v = G(i[2])
            for k in i[3]:
                v = v[k]
            return v
        if op == "insertvalue":
            v = G(i[2])
            def put(a, idx):
                a = list(a)
                a[idx[0]] = G(i[3]) if len(idx) == 1 else put(a[idx[0]], idx[1:])
                return a
            return put(v, i[4])
        if op == "alloca":
            n = G(i[3])
            a = self.alloc(i[2].size * self.conc(n), kind="stack")
            r["#stack"].append(a)
            return a
        if op == "extractelement":
            return G(i[2])[self.conc(G(i[3]))]
        if op == "insertelement":
            v = list(G(i[2]))
            v[self.conc(G(i[4]))] = G(i[3])
            return v
        if op == "shuffle":
            a, b, m = G(i[3]), G(i[4]), i[5]
            ab = list(a) + list(b)
            return [ab[k] for k in m]
        if op == "fneg":
            return norm(bv(G(i[3]), i[2].w) ^ (1 << (i[2].w - 1)))
        if op == "fcmp":
            return self.fcmp(i[2], i[3], G(i[4]), G(i[5]))
        if op == "asm":
            h = self.hooks.get("asm")
            if h:
                return h(self, i[2])
        raise Unsupported(f"instruction {i[2] if op == 'unknown' else op}")

    def fcmp(self, pred, ty, a, b):
        s = z3.Float32() if ty.k == "float" else z3.Float64()
        x, y = z3.fpBVToFP(bv(a, ty.w), s), z3.fpBVToFP(bv(b, ty.w), s)
        un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        base = {"eq": z3.fpEQ(x, y), "ne": z3.And(z3.Not(un), z3.Not(z3.fpEQ(x, y))), "lt": z3.fpLT(x, y), "le": z3.fpLEQ(x, y),
                "gt": z3.fpGT(x, y), "ge": z3.fpGEQ(x, y)}
        if pred == "uno":
            return self.b1(norm_b(un))
        if pred == "ord":
            return self.b1(norm_b(z3.Not(un)))
        c = base[pred[1:]]
        return self.b1(norm_b(z3.Or(un, c) if pred[0] == "u" else c))

    def icmp(self, pred, ty, a, b):
        if isinstance(a, list):
            return [self.icmp(pred, ty.e, x, y) for x, y in zip(a, b)]
        w = 64 if ty.k == "ptr" else ty.w
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == "s":
                a, b = sx(a, w), sx(b, w)
                pred = pred[1:]
            elif pred[0] == "u":
                pred = pred[1:]
            return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[pred])
        if w == 1:
            tb = lambda q: z3.BoolVal(bool(q)) if isinstance(q, int) else q
            if pred == "eq":
                return self.b1(norm_b(tb(a) == tb(b)))
            if pred == "ne":
                return self.b1(norm_b(tb(a) != tb(b)))
            one = lambda q: z3.If(tb(q), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            a, b = one(a), one(b)
        x, y = bv(a, w), bv(b, w)
        c = {"eq": lambda: x == y, "ne": lambda: x != y, "ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y), "ugt": lambda: z3.UGT(x, y),
             "uge": lambda: z3.UGE(x, y), "slt": lambda: x < y, "sle": lambda: x <= y, "sgt": lambda: x > y, "sge": lambda: x >= y}[pred]()
        return self.b1(norm_b(c))

    def binop(self, op, ty, a, b):
        if isinstance(a, list):
            return [self.binop(op, ty.e, x, y) for x, y in zip(a, b)]
        w = ty.w or 64
        if isinstance(a, int) and isinstance(b, int):
            if op == "add": return (a + b) & mask(w)
            if op == "sub": return (a - b) & mask(w)
            if op == "mul": return (a * b) & mask(w)
            if op == "and": return a & b
            if op == "or": return a | b
            if op == "xor": return a ^ b
            if op in ("shl", "lshr", "ashr"):
                if b >= w:
                    return 0            # poison
                return (a << b) & mask(w) if op == "shl" else a >> b if op == "lshr" else (sx(a, w) >> b) & mask(w)
            if b == 0:
                raise Trap("division by zero")
            if op == "udiv": return a // b
            if op == "urem": return a % b
            x, y = sx(a, w), sx(b, w)
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return (q if op == "sdiv" else x - q * y) & mask(w)
        if w == 1:
            tb = lambda q: z3.BoolVal(bool(q)) if isinstance(q, int) else q
            x, y = tb(a), tb(b)
            if op in ("and", "mul"): return self.b1(norm_b(z3.And(x, y)))
            if op == "or": return self.b1(norm_b(z3.Or(x, y)))
            if op in ("xor", "add", "sub"): return self.b1(norm_b(z3.Xor(x, y)))
            raise Unsupported("i1 " + op)
        x, y = bv(a, w), bv(b, w)
        if op == "add": return norm(x + y)
        if op == "sub": return norm(x - y)
        if op == "mul": return norm(x * y)
        if op == "and": return norm(x & y)
        if op == "or": return norm(x | y)
        if op == "xor": return norm(x ^ y)
        if op == "shl": return norm(x << y)
        if op == "lshr": return norm(z3.LShR(x, y))
        if op == "ashr": return norm(x >> y)
        if self.ctx.branch(norm_b(y == 0)):
            raise Trap("division by zero")
        if op == "udiv": return norm(z3.UDiv(x, y))
        if op == "urem": return norm(z3.URem(x, y))
        if op == "sdiv": return norm(x / y)
        return norm(z3.SRem(x, y))

    def cast(self, op, ft, v, tt):
        if ft.k == "vec" and op == "bitcast":
            if tt.k == "int" and ft.e.w == 1:
                if all(isinstance(x, int) for x in v):
                    return sum(x << i for i, x in enumerate(v))
                one = lambda q: z3.BitVecVal(q, 1) if isinstance(q, int) else z3.If(q, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
                return norm(z3.Concat(*[one(x) for x in reversed(v)]))
            if tt.k == "int":
                return symcore.concat_le([b for x in v for b in split_le(x, ft.e.w // 8)])
            if tt.k == "vec":
                bs = [b for x in v for b in split_le(x, ft.e.size)]
                n = tt.e.size
                return [symcore.concat_le(bs[k:k + n]) for k in range(0, len(bs), n)]
            raise Unsupported("vector bitcast")
        if op == "bitcast" and tt.k == "vec":
            if tt.e.w == 1:
                return [self.b1(norm_b(z3.Extract(k, k, v) == 1)) if is_sym(v) else v >> k & 1 for k in range(tt.n)]
            n = tt.e.size
            bs = split_le(v, n * tt.n)
            return [symcore.concat_le(bs[k:k + n]) for k in range(0, len(bs), n)]
        if isinstance(v, list):
            return [self.cast(op, ft.e, x, tt.e) for x in v]
        if op in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast"):
            fw, tw = ft.w or 64, tt.w or 64
            if fw == tw:
                return v
            return zext(v, fw, tw)
        if op in ("zext", "sext"):
            if ft.w == 1:
                if isinstance(v, int):
                    return v if op == "zext" else (mask(tt.w) if v else 0)
                return z3.If(v, z3.BitVecVal(1 if op == "zext" else -1, tt.w), z3.BitVecVal(0, tt.w))
            return norm((zext if op == "zext" else sext)(v, ft.w, tt.w))
        if op == "trunc":
            if tt.w == 1:
                return v & 1 if isinstance(v, int) else self.b1(norm_b(z3.Extract(0, 0, v) == 1))
            return extract(v, tt.w - 1, 0)
        s = lambda t: z3.Float32() if t.k == "float" else z3.Float64()
        if op in ("fpext", "fptrunc"):
            return norm(z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), z3.fpBVToFP(bv(v, ft.w), s(ft)), s(tt))))
        if op in ("uitofp", "sitofp"):
            f = z3.fpUnsignedToFP if op[0] == "u" else z3.fpSignedToFP
            return norm(z3.fpToIEEEBV(f(z3.RNE(), bv(v, ft.w), s(tt))))
        raise Unsupported("cast " + op)

    def intrinsic(self, name, i, a):
        n = name.split(".")
        k = n[1]
        if k in ("memcpy", "memmove"):
            cnt = self.conc(a[2])
            if cnt:
                src, dst = self.conc(a[0 + 1]), self.conc(a[0])
                so = self.find(src, cnt)
                words = {}
                if so.words:
                    lo = src - so.a
                    words = {q - lo: w for q, w in so.words.items() if lo <= q and q + w[0] <= lo + cnt}
                self.write_bytes(dst, list(self.read_bytes(src, cnt)))
                if words:
                    do = self.find(dst, cnt)
                    for q, w in words.items():
                        do.words[dst - do.a + q] = w
            return None
        if k == "memset":
            cnt, dst = a[2], self.conc(a[0])
            if not isinstance(cnt, int):
                o = self.find(dst, 0)
                if o.sn is not None and dst == o.a and not self.ctx.branch(norm_b(cnt != bv(o.sn, 64))):        # all of a block of undecided size
                    o.d = [a[1]] * o.n
                    o.words.clear()
                    return None
            self.write_bytes(dst, [a[1]] * self.conc(cnt))
            return None
        if k in ("trap", "debugtrap", "ubsantrap"):
            raise Trap("trap instruction")
        if k in ("assume", "dbg", "lifetime", "experimental", "invariant", "donothing", "prefetch"):
            return None
        if k == "expect":
            return a[0]
        if k == "is":
            return 0
        if k == "objectsize":
            return mask(64)
        ty = i[4][0][0] if i[4] else None
        if k in ("uadd", "sadd", "usub", "ssub", "umul", "smul"):
            w = ty.w
            if n[2] == "sat":
                return self.sat(k, w, a[0], a[1])
            o = {"add": "add", "sub": "sub", "mul": "mul"}[k[1:]]
            res = self.binop(o, ty, a[0], a[1])
            return [res, self.overflow(k, w, a[0], a[1])]
        if k in ("umin", "umax", "smin", "smax"):
            c = self.icmp({"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[k], ty, a[0], a[1])
            if isinstance(c, list):
                return [self.ite(x, p, q, ty.e) for x, p, q in zip(c, a[0], a[1])]
            return (a[0] if c else a[1]) if isinstance(c, int) else self.ite(c, a[0], a[1], ty)
        if k in ("ucmp", "scmp"):
            p = k[0]
            rt = i[2]
            lt, gt = self.icmp(p + "lt", ty, a[0], a[1]), self.icmp(p + "gt", ty, a[0], a[1])
            return self.ite(lt, mask(rt.w), self.ite(gt, 1, 0, rt), rt) if not isinstance(lt, int) else (mask(rt.w) if lt else int(gt)) if isinstance(gt, int) else self.ite(gt, 1, 0, rt)
        if k == "abs":
            c = self.icmp("slt", ty, a[0], 0)
            m = self.binop("sub", ty, 0, a[0])
            return self.ite(c, m, a[0], ty) if not isinstance(c, int) else m if c else a[0]
        if k == "bswap":
            return symcore.concat_le(split_le(a[0], ty.w // 8)[::-1])
        if k in ("fshl", "fshr"):
            w = ty.w
            s = a[2]
            if not isinstance(s, int):
                raise Unsupported("symbolic funnel shift")
            s %= w
            if k == "fshr":
                s = w - s
            if s == 0:
                return a[0]
            if s == w:
                return a[1]
            return self.binop("or", ty, self.binop("shl", ty, a[0], s), self.binop("lshr", ty, a[1], w - s))
        if k in ("ctpop", "ctlz", "cttz"):
            w, v = ty.w, a[0]
            if isinstance(v, int):
                if k == "ctpop":
                    return bin(v).count("1")
                if v == 0:
                    return w
                return w - v.bit_length() if k == "ctlz" else (v & -v).bit_length() - 1
            if k == "ctpop":
                return norm(sum((z3.ZeroExt(w - 1, z3.Extract(q, q, v)) for q in range(1, w)), z3.ZeroExt(w - 1, z3.Extract(0, 0, v))))
            r = z3.BitVecVal(w, w)
            for q in (range(w) if k == "ctlz" else range(w - 1, -1, -1)):
                r = z3.If(z3.Extract(q, q, v) == 1, z3.BitVecVal(w - 1 - q if k == "ctlz" else q, w), r)
            return norm(r)
        if k == "vector" and n[2] == "reduce":
            o = n[3]
            v = a[0]
            e = ty.e
            r = v[0]
            for x in v[1:]:
                if o in ("and", "or", "xor", "add", "mul"):
                    r = self.binop(o, e, r, x)
                else:
                    raise Unsupported(name)
            return r
        if k in ("stacksave",):
            return 0
        if k in ("stackrestore", "va_start", "va_end", "returnaddress", "frameaddress", "clear_cache"):
            return 0
        if k in ("threadlocal",):
            return a[0]
        if k == "ptrmask":
            return self.binop("and", I64, a[0], a[1])
        if k == "fabs":
            return norm(bv(a[0], ty.w) & mask(ty.w - 1))
        raise Unsupported("intrinsic " + name)

    def overflow(self, k, w, a, b):
        s = k[0] == "s"
        if isinstance(a, int) and isinstance(b, int):
            x, y = (sx(a, w), sx(b, w)) if s else (a, b)
            v = {"add": x + y, "sub": x - y, "mul": x * y}[k[1:]]
            return int(not (-(1 << (w - 1)) <= v < 1 << (w - 1) if s else 0 <= v <= mask(w)))
        ext = sext if s else zext
        e = 2 * w if k[1:] == "mul" else w + 1
        x, y = bv(ext(a, w, e), e), bv(ext(b, w, e), e)
        v = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y}[k[1:]]()
        lo = z3.Extract(w - 1, 0, v)
        return self.b1(norm_b((z3.SignExt if s else z3.ZeroExt)(e - w, lo) != v))

    def sat(self, k, w, a, b):
        if isinstance(a, int) and isinstance(b, int) and k[0] == "u":
            v = {"add": a + b, "sub": a - b, "mul": a * b}[k[1:]]
            return min(max(v, 0), mask(w))
        if k == "usub":
            c = z3.ULT(bv(a, w), bv(b, w))
            return norm(z3.If(c, z3.BitVecVal(0, w), bv(a, w) - bv(b, w)))
        raise Unsupported("saturating arithmetic")


def deftype(i):
    """type of the value an instruction defines, where a merge may need it"""
    if i[0] in BIN or i[0] in ("phi", "load", "fneg"):
        return i[2]
    if i[0] == "icmp":
        return I1 if i[3].k != "vec" else None
    if i[0] == "fcmp":
        return I1
    if i[0] == "cast":
        return i[5]
    if i[0] == "select":
        return i[4]
    return PTR if i[0] == "gep" else None


def flat(x):
    """the names occurring in an instruction"""
    if x.__class__ is str:
        return [x]
    if isinstance(x, (tuple, list)):
        return [q for y in x for q in flat(y)]
    if isinstance(x, dict):
        return [q for k, v in x.items() for q in flat(k) + flat(v)]
    return []


class Env:
    """registers of speculatively evaluated blocks over the frame's"""
    __slots__ = ("r", "up", "d")

    def __init__(self, r, up):
        self.r, self.up, self.d = r, up, {}

    def __contains__(self, k):
        e = self
        while e is not None:
            if k in e.d:
                return True
            e = e.up
        return False

    def __getitem__(self, k):
        e = self
        while e is not None:
            if k in e.d:
                return e.d[k]
            e = e.up
        return self.r[k]

    def __setitem__(self, k, v):
        self.d[k] = v

    def own(self):
        return self.d
