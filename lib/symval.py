"""Symbolic message values of a protocol and the reference encoding of them (oracle side)."""
import z3

import shapes
from spec import NUM
from symcore import bv, concat_le, conj, disj, eq, extract, is_sym, model_int, norm, split_le


class Text:
    """code points of known UTF-8 class; (cls, cp) with cp an int or a 21-bit term"""
    RANGES = {1: (0, 0x7f), 2: (0x80, 0x7ff), 3: (0x800, 0xffff), 4: (0x10000, 0x10ffff)}

    def __init__(self, cps):
        self.cps = cps

    def utf8(self):
        out = []
        for cls, cp in self.cps:
            if isinstance(cp, int):
                out += list(chr(cp).encode("utf-8"))
                continue
            x = lambda hi, lo: z3.Extract(hi, lo, cp)
            c = lambda v, w: z3.BitVecVal(v, w)
            if cls == 1:
                out.append(z3.Concat(c(0, 1), x(6, 0)))
            elif cls == 2:
                out += [z3.Concat(c(0b110, 3), x(10, 6)), z3.Concat(c(0b10, 2), x(5, 0))]
            elif cls == 3:
                out += [z3.Concat(c(0b1110, 4), x(15, 12)), z3.Concat(c(0b10, 2), x(11, 6)), z3.Concat(c(0b10, 2), x(5, 0))]
            else:
                out += [z3.Concat(c(0b11110, 5), x(20, 18)), z3.Concat(c(0b10, 2), x(17, 12)),
                        z3.Concat(c(0b10, 2), x(11, 6)), z3.Concat(c(0b10, 2), x(5, 0))]
        return out

    def utf16(self):
        out = []
        for cls, cp in self.cps:
            if isinstance(cp, int):
                b = chr(cp).encode("utf-16-le")
                out += [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]
            elif cls < 4:
                out.append(z3.Extract(15, 0, cp))
            else:
                d = cp - 0x10000
                out += [norm(z3.Concat(z3.BitVecVal(0b110110, 6), z3.Extract(19, 10, d))),
                        norm(z3.Concat(z3.BitVecVal(0b110111, 6), z3.Extract(9, 0, d)))]
        return out


class Big(int):
    """a long string length: mostly concrete content"""


class BigList(list):
    """a long list skeleton of scalars: mostly concrete content"""


def sample(t, sk, i):
    """a concrete value of the type, different for different i"""
    if t.kind == "num":
        if t.name == "bool":
            return i % 2
        if t.name in ("float", "double"):
            return (0x3f800000 if t.name == "float" else 0x3ff0000000000000) + i
        return (i * 0x9e3779b97f4a7c15 >> 3) & ((1 << 8 * t.size) - 1)
    if t.kind == "enum":
        return t.ref.values[i % len(t.ref.values)][1] & ((1 << 8 * t.size) - 1)
    if t.kind == "string":
        return Text([(1, 97 + (i + j) % 26) for j in range(sk)])
    if t.kind == "list":
        return [sample(t.elem, s, i + j + 1) for j, s in enumerate(sk)]
    return {n: sample(mt, sk[n], i + j) for j, (n, mt) in enumerate(t.ref.members)}


class Builder:
    """fresh symbolic values inside one path"""
    def __init__(self, ctx, proto, classes=(1, 2, 3, 4), phase=0, nan=True, ascii_nul=True):
        self.ctx, self.proto, self.classes, self.phase, self.nan = ctx, proto, classes, phase, nan
        self.n = 0
        self.nul = ascii_nul
        self.inputs = []

    def word(self, w, hint="x"):
        v = z3.BitVec(f"{hint}{self.n}", w)
        self.n += 1
        self.inputs.append(v)
        return v

    def text(self, n):
        cps = []
        for i in range(n):
            if isinstance(n, Big) and 0 < i < n - 1:
                cps.append((1, 97 + i % 26))
                continue
            cls = 1 if isinstance(n, Big) else self.classes[self.phase % len(self.classes)]
            self.phase += 1
            cp = self.word(21, "c")
            lo, hi = Text.RANGES[cls]
            self.ctx.assume(z3.And(z3.UGE(cp, lo if self.nul or lo else 1), z3.ULE(cp, hi)))
            if cls == 3:
                self.ctx.assume(z3.Or(z3.ULT(cp, 0xd800), z3.UGT(cp, 0xdfff)))
            cps.append((cls, cp))
        self.phase += 1
        return Text(cps)

    def num(self, name):
        size, _, isf = NUM[name]
        v = self.word(8 * size, "n")
        if name == "bool":
            self.ctx.assume(z3.ULE(v, 1))
        if isf and not self.nan:
            e, m = (8, 23) if size == 4 else (11, 52)
            self.ctx.assume(z3.Not(z3.And(z3.Extract(m + e - 1, m, v) == (1 << e) - 1, z3.Extract(m - 1, 0, v) != 0)))
        return v

    def enum(self, en, bad=False):
        w = 8 * NUM[en.encoding][0]
        v = self.word(w, "e")
        member = disj([v == z3.BitVecVal(x, w) for _, x in en.values])
        self.ctx.assume(z3.Not(member) if bad else member)
        return v

    def build(self, t, sk):
        if t.kind == "num":
            return self.num(t.name)
        if t.kind == "enum":
            return self.enum(t.ref)
        if t.kind == "string":
            return self.text(sk)
        if t.kind == "list":
            if isinstance(sk, BigList):
                return [self.build(t.elem, s) if i in (0, len(sk) - 1) else sample(t.elem, s, i) for i, s in enumerate(sk)]
            return [self.build(t.elem, s) for s in sk]
        return {n: self.build(mt, sk[n]) for n, mt in t.ref.members}

    def message(self, name, sk):
        return {n: self.build(mt, sk[n]) for n, mt in self.proto.messages[name].members}


def enc_len(tname, n):
    size = NUM[tname][0]
    return list((n & ((1 << (8 * size)) - 1)).to_bytes(size, "little"))


class Lens(list):
    """collects (offset, size type, length) of length prefixes instead of enum words"""


def encode(proto, t, v, marks=None, base=0):
    """bytes of a value; marks collects (offset, type) of enum words"""
    if t.kind in ("num", "enum"):
        if marks is not None and t.kind == "enum" and not isinstance(marks, Lens):
            marks.append((base, t.ref))
        return split_le(v, t.size)
    if t.kind == "string":
        b = v.utf8() if isinstance(v, Text) else list(v)
        if isinstance(marks, Lens):
            marks.append((base, proto.string_size, len(b)))
        return enc_len(proto.string_size, len(b)) + b
    if t.kind == "list":
        if isinstance(marks, Lens):
            marks.append((base, proto.list_size, len(v)))
        out = enc_len(proto.list_size, len(v))
        for e in v:
            out = out + encode(proto, t.elem, e, marks, base + len(out)) if marks is not None else out + encode(proto, t.elem, e)
        return out
    out = []
    for n, mt in t.ref.members:
        out = out + encode(proto, mt, v[n], marks, base + len(out)) if marks is not None else out + encode(proto, mt, v[n])
    return out


def encode_msg(proto, name, v, tag=False, marks=None):
    out = [proto.tag[name]] if tag else []
    for n, mt in proto.messages[name].members:
        out += encode(proto, mt, v[n], marks, len(out))
    return out


def pack(proto, msgs):
    out = list(b"BSCI") + list(len(msgs).to_bytes(4, "little"))
    for n, v in msgs:
        out += encode_msg(proto, n, v, True)
    return out + [0]


def same(t, a, b):
    """z3 condition (or bool) that two values of a type are equal; strings compared as text bytes (lists of bytes allowed)"""
    if t.kind in ("num", "enum"):
        if a is None or b is None:
            return False
        return eq(a, b, 8 * t.size)
    if t.kind == "string":
        x = a.utf8() if isinstance(a, Text) else a
        y = b.utf8() if isinstance(b, Text) else b
        if x is None or y is None or len(x) != len(y):
            return False
        return conj([eq(p, q, 8) for p, q in zip(x, y)])
    if t.kind == "list":
        if a is None or b is None or len(a) != len(b):
            return False
        return conj([same(t.elem, p, q) for p, q in zip(a, b)])
    if a is None or b is None:
        return False
    return conj([same(mt, a[n], b[n]) for n, mt in t.ref.members])


def same_msg(proto, name, a, b):
    return conj([same(mt, a[n], b[n]) for n, mt in proto.messages[name].members])


def default(t):
    if t.kind == "num":
        return 0
    if t.kind == "enum":
        return t.ref.default & ((1 << 8 * t.size) - 1)
    if t.kind == "string":
        return []
    if t.kind == "list":
        return []
    return {n: default(m) for n, m in t.ref.members}


def default_msg(proto, name):
    return {n: default(m) for n, m in proto.messages[name].members}


# -- concrete JSON form: ints unsigned words, strings as hex of their bytes ------------------------
def concrete(model, t, v):
    if t.kind in ("num", "enum"):
        return model_int(model, v)
    if t.kind == "string":
        bs = v.utf8() if isinstance(v, Text) else v
        return "".join(f"{model_int(model, b):02x}" for b in bs)
    if t.kind == "list":
        return [concrete(model, t.elem, e) for e in v]
    return {n: concrete(model, mt, v[n]) for n, mt in t.ref.members}


def concrete_msg(model, proto, name, v):
    return {n: concrete(model, mt, v[n]) for n, mt in proto.messages[name].members}


def concrete_bytes(model, bs):
    return bytes(model_int(model, b) for b in bs).hex()


def type_desc(t):
    """JSON description of a type for the replay drivers"""
    if t.kind == "num":
        return t.name
    if t.kind == "string":
        return "string"
    if t.kind == "enum":
        return {"enum": t.name, "enc": t.ref.encoding}
    if t.kind == "list":
        return {"list": type_desc(t.elem)}
    return {"struct": t.name}


def proto_desc(proto):
    return dict(structs={n: [[m, type_desc(t)] for m, t in s.members] for n, s in proto.structs.items()},
                messages={n: [[m, type_desc(t)] for m, t in s.members] for n, s in proto.messages.items()},
                enums={n: dict(enc=e.encoding, values=e.values) for n, e in proto.enums.items()}, tag=proto.tag)


def from_desc(proto, t, j):
    """JSON form -> oracle value (bytes for strings as lists)"""
    if t.kind == "string":
        return list(bytes.fromhex(j))
    if t.kind == "list":
        return [from_desc(proto, t.elem, e) for e in j]
    if t.kind == "struct":
        return {n: from_desc(proto, mt, j[n]) for n, mt in t.ref.members}
    return j
