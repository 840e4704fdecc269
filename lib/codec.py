"""Language-independent codec checks over an adapter that runs generated code symbolically.

An engine provides `Lang` (see class) ; this module builds the units of X01..X04, explores them in worker processes,
confirms counterexamples with the real code, and fills the report.
"""
import itertools
import json
import multiprocessing as mp
import os
import random
import time
import traceback

import z3

import common
import shapes
import symcore
import symval
from spec import NUM, Proto
from symcore import Budget, Unsupported, conj, disj, eq, neg, norm_b, split_le
from symval import Big, BigList, Builder, Lens, concrete_bytes, concrete_msg, encode_msg

PROTOS = ["scalars", "lists", "enums", "text", "sized_a", "sized_b", "sized_c", "sized_d", "sized_e", "sized_f", "nest",
          "stream", "names", "shadow", "deep", "odd", "many"]
MANY = ["M1", "M127", "M128", "M254", "M255"]       # of the 255 messages of protocol many
FILL = 0xA5


class Crash(Exception):
    """the code under test ended in a way that is no documented error report (panic, trap, out-of-bounds access)"""


class CodeError(Exception):
    """the code under test reported an error through its documented mechanism"""


class Lang:
    """what an engine supplies"""
    name = "?"                     # beschi --lang
    letter = "?"
    classes = (1, 2, 3, 4)         # UTF-8 classes of text it is tried with
    nan = True                     # are all NaN payloads preserved
    offsets = True                 # can it write at an offset of a bigger buffer
    views = False                  # does a buffer window share memory with bytes before and behind it
    big = True                     # run the long skeletons
    lcap = scap = 2
    protos = PROTOS
    quick_limit = 8
    thorough_limit = 24
    cut_unpack = True
    alias = False                  # can one message object be in a list twice
    short = False                  # does writing into too little room report an error

    def prepare(self, proto, wd):
        """generate, build and load; returns a program object (inherited by forked workers). Raises GenError or CompileError."""

    def machine(self, prog, ctx):
        """an object with default, make, size, write, read, process, packed_size, pack, unpack"""

    def replay(self, prog, cases):
        """observed results of the real code, one dict per case"""


class CompileError(Exception):
    pass


# ---------------------------------------------------------------------------------------------
# units
class Env:
    def __init__(self, lang, prog, proto, ctx):
        self.lang, self.prog, self.proto, self.ctx = lang, prog, proto, ctx
        self.m = lang.machine(prog, ctx)

    def builder(self, phase=0):
        return Builder(self.ctx, self.proto, self.lang.classes, phase, self.lang.nan)

    def call(self, fn, *a, **k):
        try:
            return "ok", fn(*a, **k)
        except CodeError as e:
            return "err", str(e)
        except Crash as e:
            return "crash", str(e)


def u_default(env, msg):
    ctx, proto = env.ctx, env.proto
    want = symval.default_msg(proto, msg)
    case = lambda m: dict(op="default", msg=msg, want=concrete_msg(m or {}, proto, msg, want))
    ctx.notes["case"] = case
    st, got = env.call(env.m.default, msg)
    if st != "ok":
        return ctx.fail((f"making a new {msg}: {got}", case))
    if not ctx.prove(symval.same_msg(proto, msg, got, want), (f"a new {msg} does not hold the documented defaults", case)):
        return
    # and a default message is written like any other
    enc = encode_msg(proto, msg, want)
    case2 = lambda m: dict(op="write", msg=msg, value=None, tag=False, off=0, pad=2, size=len(enc), want=bytes(enc).hex())
    ctx.notes["case"] = case2
    st, r = env.call(env.m.write_default, msg, len(enc) + 2)
    if st != "ok":
        return ctx.fail((f"writing a new {msg}: {r}", case2))
    size, buf, pos = r
    ctx.prove(conj([eq(size, len(enc), 64), symcore.bytes_eq(buf, enc + [FILL] * 2)]), (f"a new {msg} is not written as its defaults", case2))


def u_write(env, msg, sk, phase, tag):
    ctx, proto = env.ctx, env.proto
    v = env.builder(phase).message(msg, sk)
    enc = encode_msg(proto, msg, v, tag)
    off = 3 if env.lang.offsets and not tag else 0
    pad = 0 if tag else 2
    body = len(enc) - (1 if tag else 0)
    case = lambda m: dict(op="write", msg=msg, value=concrete_msg(m, proto, msg, v), tag=tag, off=off, pad=pad, size=body,
                          want=concrete_bytes(m, enc))
    ctx.notes["case"] = case
    st, obj = env.call(env.m.make, msg, v)
    if st != "ok":
        return ctx.fail((f"filling in {msg}: {obj}", case))
    st, size = env.call(env.m.size, obj)
    if st != "ok":
        return ctx.fail((f"size of {msg}: {size}", case))
    if not ctx.prove(eq(size, body, 64), (f"{msg} reports another size than it is written in", case)):
        return
    st, r = env.call(env.m.write, obj, off + len(enc) + pad, off, tag)
    if st != "ok":
        return ctx.fail((f"writing {msg}: {r}", case))
    buf, pos = r
    want = [FILL] * off + enc + [FILL] * pad
    if len(buf) != len(want):
        return ctx.fail((f"{msg} is written in {len(buf)} bytes instead of {len(want)}", case))
    if not ctx.prove(symcore.bytes_eq(buf, want), (f"{msg} is not written in the documented layout", case)):
        return
    if pos is not None:
        ctx.prove(eq(pos, off + len(enc), 64), (f"position after writing {msg}", case))


def u_short(env, msg, sk, phase):
    """less room than the message takes: every amount"""
    ctx, proto = env.ctx, env.proto
    v = env.builder(phase).message(msg, sk)
    tag = bool(phase % 2)
    enc = encode_msg(proto, msg, v, tag)
    if not enc:
        return
    ks = range(len(enc)) if len(enc) <= 300 else [0, 1, len(enc) // 2, len(enc) - 2, len(enc) - 1]
    k = ks[ctx.choose(len(ks))]
    off = k % 3
    case = lambda m: dict(op="write", msg=msg, value=concrete_msg(m, proto, msg, v), tag=tag, off=off, pad=0, size=len(enc) - tag, want="err", room=k)
    ctx.notes["case"] = case
    st, obj = env.call(env.m.make, msg, v)
    if st != "ok":
        return ctx.fail((f"filling in {msg}: {obj}", case))
    st, r = env.call(env.m.write, obj, off + k, off, tag)
    if st != "err":
        ctx.fail((f"writing {msg} of {len(enc)} bytes into {k}: {'no error' if st == 'ok' else r}", case))


def u_read(env, msg, sk, phase):
    ctx, proto = env.ctx, env.proto
    b = env.builder(phase)
    v = b.message(msg, sk)
    enc = encode_msg(proto, msg, v)
    tail = [b.word(8, "t"), b.word(8, "t")]
    pre = [0x5a] * 3 if env.lang.views else []
    case = lambda m: dict(op="read", msg=msg, hex=concrete_bytes(m, enc + tail), pre=len(pre), want=concrete_msg(m, proto, msg, v), pos=len(enc))
    ctx.notes["case"] = case
    st, r = env.call(env.m.read, msg, enc + tail, pre, [])
    if st != "ok":
        return ctx.fail((f"reading {msg} fails: {r}", case))
    got, pos = r
    if not ctx.prove(symval.same_msg(proto, msg, got, v), (f"{msg} does not read back as it was written", case)):
        return
    if pos is not None:
        ctx.prove(eq(pos, len(enc), 64), (f"position after reading {msg}", case))


def u_cut(env, msg, sk, phase):
    ctx, proto = env.ctx, env.proto
    v = env.builder(phase).message(msg, sk)
    enc = encode_msg(proto, msg, v)
    if not enc:
        return
    if len(enc) > 300:
        ks = [0, 1, 2, 3, len(enc) // 2, len(enc) - 2, len(enc) - 1]
        k = ks[ctx.choose(len(ks))]
    else:
        k = ctx.choose(len(enc))
    post = enc[k:] if env.lang.views else []
    pre = [0x5a] * 3 if env.lang.views and k % 2 else []
    case = lambda m: dict(op="read", msg=msg, hex=concrete_bytes(m, enc[:k]), pre=len(pre), post=concrete_bytes(m, post), want="err")
    ctx.notes["case"] = case
    st, r = env.call(env.m.read, msg, enc[:k], pre, post)
    if st == "ok":
        return ctx.fail((f"{msg} cut at byte {k} of {len(enc)} is read as a message", case))
    if st == "crash":
        return ctx.fail((f"{msg} cut at byte {k} of {len(enc)}: {r}", case))


def u_long(env, msg, sk, phase):
    """a length prefix (any of them) claims more than all the rest of the input: bytes for a string, elements for a list"""
    ctx, proto = env.ctx, env.proto
    b = env.builder(phase)
    v = {n: symval.sample(t, sk[n], phase + i) for i, (n, t) in enumerate(proto.messages[msg].members)}
    marks = Lens()
    enc = encode_msg(proto, msg, v, marks=marks)
    if not marks:
        return
    off, ty, _ = marks[ctx.choose(len(marks))]
    size, signed, _ = NUM[ty]
    rest = len(enc) - off - size
    w = b.word(8 * size, "l")
    lim = z3.BitVecVal(rest, 8 * size)
    if rest >= 1 << (8 * size - signed):
        return
    neg = signed and ctx.choose(2)          # what a negative length means is not documented; it must not crash the reader
    ctx.assume(w < 0 if neg else w > lim if signed else z3.UGT(w, lim))
    enc = enc[:off] + split_le(w, size) + enc[off + size:]
    post = [0x5a] * 8 if env.lang.views else []
    case = lambda m: dict(op="read", msg=msg, hex=concrete_bytes(m, enc), pre=0, post=concrete_bytes(m, post), want="any" if neg else "err")
    ctx.notes["case"] = case
    st, r = env.call(env.m.read, msg, enc, [], post)
    if st == "ok" and not neg:
        return ctx.fail((f"a length at byte {off} of {msg} that claims more than the {rest} bytes behind it is read", case))
    if st == "crash":
        return ctx.fail((f"a length at byte {off} of {msg} that {'is negative' if neg else f'claims more than the {rest} bytes behind it'}: {r}", case))


def u_badenum(env, msg, sk, phase):
    ctx, proto = env.ctx, env.proto
    b = env.builder(phase)
    v = b.message(msg, sk)
    marks = []
    enc = encode_msg(proto, msg, v, marks=marks)
    if not marks:
        return
    i = ctx.choose(len(marks))
    off, en = marks[i]
    bad = b.enum(en, bad=True)
    w = split_le(bad, NUM[en.encoding][0])
    enc = enc[:off] + w + enc[off + len(w):]
    case = lambda m: dict(op="read", msg=msg, hex=concrete_bytes(m, enc), pre=0, want="err")
    ctx.notes["case"] = case
    st, r = env.call(env.m.read, msg, enc, [], [])
    if st == "ok":
        return ctx.fail((f"undeclared {en.name} value at byte {off} of {msg} is read", case))
    if st == "crash":
        return ctx.fail((f"undeclared {en.name} value at byte {off} of {msg}: {r}", case))


def seq_values(env, seq, b):
    vals = [(n, b.message(n, sk)) for n, sk in seq]
    return vals


def conc_list(m, proto, vals):
    return [[n, concrete_msg(m, proto, n, v)] for n, v in vals]


def same_list(proto, got, want):
    if [n for n, _ in got] != [n for n, _ in want]:
        return False
    return conj([symval.same_msg(proto, n, a, b) for (n, a), (_, b) in zip(got, want)])


def u_stream(env, seq, ending, phase):
    """ending: plain | zero (terminator and junk behind it) | unknown (symbolic unknown tag) | cut | max"""
    ctx, proto = env.ctx, env.proto
    b = env.builder(phase)
    vals = seq_values(env, seq, b)
    encs = [encode_msg(proto, n, v, True) for n, v in vals]
    data = [x for e in encs for x in e]
    want, mx = vals, -1
    if ending == "zero":
        data = data + [0, b.word(8, "t"), b.word(8, "t")]
    elif ending == "unknown":
        t = b.word(8, "t")
        ctx.assume(z3.UGT(t, len(proto.messages)))
        at = ctx.choose(len(vals) + 1)
        data = [x for e in encs[:at] for x in e] + [t] + [x for e in encs[at:] for x in e]
        want = None
    elif ending == "cut":
        if not encs or len(encs[-1]) < 2:
            return
        k = 1 + ctx.choose(len(encs[-1]) - 1)
        data = data[:len(data) - k]
        want = None
    elif ending == "max":
        mx = ctx.choose(len(vals) + 2)
        want = vals[:mx]
        data = data + ([0] if mx % 2 else [])
    case = lambda m: dict(op="process", hex=concrete_bytes(m, data), max=mx, want="err" if want is None else conc_list(m, proto, want))
    ctx.notes["case"] = case
    st, r = env.call(env.m.process, data, mx)
    if st == "crash":
        return ctx.fail((f"stream ({ending}): {r}", case))
    if want is None:
        if st == "ok":
            ctx.fail((f"stream with {'an unknown tag' if ending == 'unknown' else 'its end cut off'} is read without a report", case))
        return
    if st != "ok":
        return ctx.fail((f"legal stream ({ending}, max {mx}) is refused: {r}", case))
    ctx.prove(same_list(proto, r, want), (f"stream ({ending}, max {mx}) does not give the messages written", case))


def u_pack(env, seq, phase, dup=False):
    """dup: every message object is in the list twice"""
    ctx, proto = env.ctx, env.proto
    b = env.builder(phase)
    vals = seq_values(env, seq, b)
    enc = symval.pack(proto, [v for v in vals for _ in range(1 + dup)])
    off = 3 if env.lang.offsets and phase % 2 else 0
    pad = 2 if phase % 2 else 0
    case = lambda m: dict(op="pack", msgs=conc_list(m, proto, vals), dup=dup, off=off, pad=pad, size=len(enc), want=concrete_bytes(m, enc))
    ctx.notes["case"] = case
    st, objs = env.call(lambda: [env.m.make(n, v) for n, v in vals])
    if st != "ok":
        return ctx.fail((f"filling in messages: {objs}", case))
    if dup:
        objs = [o for o in objs for _ in range(2)]
    st, size = env.call(env.m.packed_size, objs)
    if st != "ok":
        return ctx.fail((f"packed size: {size}", case))
    if not ctx.prove(eq(size, len(enc), 64), ("reported packed size is not the size packed", case)):
        return
    st, r = env.call(env.m.pack, objs, off + len(enc) + pad, off)
    if st != "ok":
        return ctx.fail((f"packing: {r}", case))
    want = [FILL] * off + enc + [FILL] * pad
    if len(r) != len(want):
        return ctx.fail((f"packed into {len(r)} bytes instead of {len(want)}", case))
    ctx.prove(symcore.bytes_eq(r, want), ("packed bytes are not the documented ones", case))


def u_unpack(env, seq, how, phase):
    """how: ok | mark | count | cut"""
    ctx, proto = env.ctx, env.proto
    b = env.builder(phase)
    vals = seq_values(env, seq, b)
    data = symval.pack(proto, vals)
    want = vals
    pre = [0x5a] * 3 if env.lang.views and how in ("ok", "cut") else []
    post = []
    if how == "ok":
        data = data + [b.word(8, "t")] * 2
    elif how == "mark":
        w = [b.word(8, "t") for _ in range(4)]
        ctx.assume(z3.Not(z3.And(*[x == c for x, c in zip(w, b"BSCI")])))
        data = w + data[4:]
        want = None
    elif how == "count":
        c = b.word(32, "t")
        ctx.assume(z3.UGT(c, len(vals)))
        data = data[:4] + split_le(c, 4) + data[8:]
        want = None
    elif how == "cut":
        k = ctx.choose(len(data) - 1)       # without the closing zero alone it is still complete
        if not vals and k >= 8:
            return
        post = data[k:] if env.lang.views else []
        data = data[:k]
        want = None
    case = lambda m: dict(op="unpack", hex=concrete_bytes(m, data), pre=len(pre), post=concrete_bytes(m, post),
                          want="err" if want is None else conc_list(m, proto, want))
    ctx.notes["case"] = case
    st, r = env.call(env.m.unpack, data, pre, post)
    if st == "crash":
        return ctx.fail((f"unpacking ({how}): {r}", case))
    if want is None:
        if st == "ok":
            ctx.fail((dict(mark="data without the mark is unpacked", count="a count of more messages than present is not reported",
                           cut="cut packed data is unpacked without a report")[how], case))
        return
    if st != "ok":
        return ctx.fail((f"legal packed data is refused: {r}", case))
    ctx.prove(same_list(proto, r, want), ("unpacking does not give the messages packed", case))


# -- ownership: every block a call allocates is released exactly once ----------------------------
def u_drop_default(env, msg):
    ctx = env.ctx
    case = lambda m: dict(op="cycle", sub="default", msg=msg, hex="", fail=0)
    ctx.notes["case"] = case
    st, r = env.call(env.m.cycle, "default", msg, [], 0, 0)
    if st == "crash":
        ctx.fail((f"cleaning up a new {msg}: {r}", case))


def blocks(t, sk):
    """an upper bound of the allocations reading a value of this skeleton makes"""
    if t.kind == "string":
        return 1
    if t.kind == "list":
        return 1 + sum(blocks(t.elem, k) for k in sk)
    if t.kind == "struct":
        return sum(blocks(mt, sk[n]) for n, mt in t.ref.members)
    return 0


def msg_blocks(proto, msg, sk):
    return sum(blocks(t, sk[n]) for n, t in proto.messages[msg].members)


def u_cycle(env, msg, sk, phase, mode):
    """read (completely, cut, with a bad enum, with an allocation failing), then clean up"""
    ctx, proto = env.ctx, env.proto
    b = env.builder(phase)
    v = b.message(msg, sk)
    marks = []
    enc = encode_msg(proto, msg, v, marks=marks)
    fail = 0
    if mode == "cut":
        if not enc:
            return
        enc = enc[:ctx.choose(len(enc))]
    elif mode == "enum":
        if not marks:
            return
        off, en = marks[ctx.choose(len(marks))]
        w = split_le(b.enum(en, bad=True), NUM[en.encoding][0])
        enc = enc[:off] + w + enc[off + len(w):]
    elif mode == "oom":
        fail = 1 + ctx.choose(msg_blocks(proto, msg, sk) or 1)
    case = lambda m: dict(op="cycle", sub="read", msg=msg, hex=concrete_bytes(m, enc), fail=fail)
    ctx.notes["case"] = case
    st, r = env.call(env.m.cycle, "read", msg, enc, fail, 0)
    if st == "crash":
        ctx.fail((f"life of {msg} ({mode}): {r}", case))


def u_cycle_list(env, seq, phase, mode):
    """a stream (or packed data) is read, completely or not, and all of it cleaned up"""
    ctx, proto = env.ctx, env.proto
    b = env.builder(phase)
    vals = seq_values(env, seq, b)
    sub, how = mode.split()
    data = [x for n, v in vals for x in encode_msg(proto, n, v, True)] if sub == "process" else symval.pack(proto, vals)
    fail, mx = 0, -1
    if how == "cut":
        if len(data) < 2:
            return
        data = data[:1 + ctx.choose(len(data) - 1)]
    elif how == "unknown":
        t = b.word(8, "t")
        ctx.assume(z3.UGT(t, len(proto.messages)))
        data = data + [t] if sub == "process" else data[:-1] + [t]
    elif how == "count":
        data = data[:4] + split_le(len(vals) + 1, 4) + data[8:]
    elif how == "max":
        mx = ctx.choose(len(vals) + 1)
    elif how == "oom":
        fail = 1 + ctx.choose(3 + len(vals) + sum(msg_blocks(proto, n, sk) for n, sk in seq))
    case = lambda m: dict(op="cycle", sub=sub, msg=None, hex=concrete_bytes(m, data), fail=fail, max=mx)
    ctx.notes["case"] = case
    st, r = env.call(env.m.cycle, sub, None, data, fail, mx)
    if st == "crash":
        return ctx.fail((f"life of the messages of a {'stream' if sub == 'process' else 'packed buffer'} ({how}): {r}", case))


# ---------------------------------------------------------------------------------------------
def skeletons(lang, proto, msg, tier):
    lim = lang.quick_limit if tier == "quick" else lang.thorough_limit
    mem = proto.messages[msg].members
    sks, full = shapes.shapes(mem, lang.lcap, lang.scap, lim)
    mids = [k for k in shapes.one_long(mem, 3, 5) if k not in sks]
    return sks, full, mids


def far_skeletons(proto, msg):
    """one list or string at a time 20 elements or 40 characters long, wherever it is nested; the first and last
    element and character are symbolic, the others concrete"""
    return shapes.one_long(proto.messages[msg].members, 20, Big(40),
                           els=lambda t, n: BigList(shapes.uniform(t, i % 2, i * 7 % 4, 1) for i in range(n)))


def big_skeletons(proto, msg, tier):
    """lengths past the smaller size types, one member at a time: past 127 for one byte, past 32767 for uint16, past 255 for int16, past 65535 for wider ones"""
    out = []
    mem = proto.messages[msg].members
    cap = {"byte": [200], "uint16": [33000], "int16": [300]}
    if tier == "thorough":
        cap = {"byte": [128, 255], "uint16": [256, 32768, 65535], "int16": [128, 256, 32767]}
    wide = [70000] if tier == "quick" else [256, 40000, 70000]
    for n, t in mem:
        if t.kind == "string":
            ks = [Big(c) for c in cap.get(proto.string_size, wide)]
        elif t.kind == "list" and t.elem.kind == "num":
            ks = [BigList([None] * c) for c in cap.get(proto.list_size, wide if proto.list_size == "int32" or tier == "thorough" else [300])]
        elif t.kind == "list":
            ks = [BigList(shapes.uniform(t.elem, i % 2, i * 7 % 4, 1) for i in range(c)) for c in cap.get(proto.list_size, []) if c <= 300]
        else:
            continue
        out += [{m: (k if m == n else shapes.uniform(mt, 0)) for m, mt in mem} for k in ks]
    return out


BIG_PROTOS = {"sized_a", "sized_b", "sized_c", "sized_d", "sized_e", "sized_f"}


def units(lang, protos, kind, tier):
    """[(name, proto name, fn)]"""
    out = []
    for pn, proto in protos.items():
        msgs = MANY if pn == "many" else list(proto.messages)
        if kind in ("1", "2", "3"):
            for msg in msgs:
                if kind == "1":
                    out.append((f"{pn}.{msg} default", pn, lambda e, msg=msg: u_default(e, msg)))
                sks, full, mids = skeletons(lang, proto, msg, tier)
                if kind == "3" and tier == "quick":
                    sks = sks[:1] + sks[-3:] + mids[:4]
                else:
                    sks = sks + mids
                if kind in ("1", "2") or tier == "thorough":
                    sks += far_skeletons(proto, msg)
                for i, sk in enumerate(sks):
                    if kind == "1":
                        out.append((f"{pn}.{msg} write #{i}", pn, lambda e, msg=msg, sk=sk, i=i: u_write(e, msg, sk, i, bool(i % 2))))
                        if i == len(sks) - 1:
                            out.append((f"{pn}.{msg} write #{i}b", pn, lambda e, msg=msg, sk=sk, i=i: u_write(e, msg, sk, i, not i % 2)))
                    elif kind == "2":
                        out.append((f"{pn}.{msg} read #{i}", pn, lambda e, msg=msg, sk=sk, i=i: u_read(e, msg, sk, i)))
                    else:
                        out.append((f"{pn}.{msg} cut #{i}", pn, lambda e, msg=msg, sk=sk, i=i: u_cut(e, msg, sk, i)))
                        if lang.short:
                            out.append((f"{pn}.{msg} short #{i}", pn, lambda e, msg=msg, sk=sk, i=i: u_short(e, msg, sk, i)))
                        if i:
                            out.append((f"{pn}.{msg} overlong #{i}", pn, lambda e, msg=msg, sk=sk, i=i: u_long(e, msg, sk, i)))
                        if proto.enums and i:
                            out.append((f"{pn}.{msg} enum #{i}", pn, lambda e, msg=msg, sk=sk, i=i: u_badenum(e, msg, sk, i)))
                if lang.big and pn in BIG_PROTOS and kind in ("1", "2"):
                    for i, sk in enumerate(big_skeletons(proto, msg, tier)):
                        if kind == "1":
                            out.append((f"{pn}.{msg} long write #{i}", pn, lambda e, msg=msg, sk=sk: u_write(e, msg, sk, 0, False)))
                        else:
                            out.append((f"{pn}.{msg} long read #{i}", pn, lambda e, msg=msg, sk=sk: u_read(e, msg, sk, 0)))
        elif kind == "5":
            for msg in msgs:
                out.append((f"{pn}.{msg} default", pn, lambda e, msg=msg: u_drop_default(e, msg)))
                sks, full, mids = skeletons(lang, proto, msg, tier)
                for i, sk in enumerate(sks + mids if tier == "thorough" else sks[:1] + sks[-4:] + mids[:3]):
                    for mode in ("ok", "cut", "oom") + (("enum",) if proto.enums else ()):
                        out.append((f"{pn}.{msg} life {mode} #{i}", pn, lambda e, msg=msg, sk=sk, i=i, mode=mode: u_cycle(e, msg, sk, i, mode)))
            names = msgs
            one = lambda m, n=1, s=1: {k: shapes.uniform(t, n, s, 1) for k, t in proto.messages[m].members}
            seqs = [[(a, one(a)) for a in names[:3]]]
            if pn in ("stream", "nest"):
                seqs += [[], [(names[-1], one(names[-1], 2, 2))]] + [[(a, one(a, 2, 1)), (b, one(b))] for a in names for b in names]
            if pn == "stream":          # more messages than a result list may first have room for
                seqs.append([(names[0], one(names[0]))] * 10)
            for i, seq in enumerate(seqs):
                nm = "+".join(m for m, _ in seq) or "none"
                if len(seq) > 9:
                    nm = "ten"
                for mode in ("process ok", "process cut", "process unknown", "process max", "process oom", "unpack ok", "unpack cut", "unpack count",
                             "unpack unknown", "unpack oom"):
                    out.append((f"{pn} life {mode} {nm}", pn, lambda e, seq=seq, mode=mode, i=i: u_cycle_list(e, seq, i, mode)))
        else:
            names = msgs
            one = lambda m, n=1, s=1: {k: shapes.uniform(t, n, s, 1) for k, t in proto.messages[m].members}
            if pn == "stream":
                seqs = [[]] + [[(m, one(m))] for m in names] + [[(a, one(a)), (b, one(b, 2, 0))] for a in names for b in names]
                seqs += [[(a, one(a, 0, 0)) for a in names], [(a, one(a, 1, 2)) for a in reversed(names)]]
                seqs.append([(names[i % 2], one(names[i % 2])) for i in range(11)])
            elif pn == "many":
                seqs = [[(a, one(a))] for a in names] + [[(a, one(a)) for a in names[1:]]]
            elif pn in ("nest", "enums", "names", "names_cs", "sized_b", "text") or tier == "thorough":
                seqs = [[(a, one(a)) for a in names[:4]]]
            else:
                continue
            for i, seq in enumerate(seqs):
                nm = "+".join(m for m, _ in seq) or "none"
                if len(seq) > 9:
                    nm = "eleven"
                for ending in ("plain", "zero", "unknown", "cut", "max"):
                    if ending == "cut" and len(seq) == 2 and i % 2 and tier == "quick":
                        continue
                    if ending in ("unknown", "cut") and (len(seq) > 9 or pn == "many" and ending == "unknown"):
                        continue                # (there is no unknown tag in protocol many)
                    out.append((f"{pn} stream {nm} {ending}", pn, lambda e, seq=seq, ending=ending, i=i: u_stream(e, seq, ending, i)))
                out.append((f"{pn} pack {nm}", pn, lambda e, seq=seq, i=i: u_pack(e, seq, i)))
                if lang.alias and pn == "stream" and 0 < len(seq) <= 2 and i % 3 == 1:
                    out.append((f"{pn} pack {nm} twice", pn, lambda e, seq=seq, i=i: u_pack(e, seq, i, True)))
                for how in ("ok", "mark", "count", "cut"):
                    if how == "cut" and (not lang.cut_unpack or len(seq) > 2):
                        continue
                    if how == "mark" and (len(seq) > 9 or pn == "many"):
                        continue
                    out.append((f"{pn} unpack {nm} {how}", pn, lambda e, seq=seq, how=how, i=i: u_unpack(e, seq, how, i)))
    return out


_G = {}


def _work(i):
    lang, progs, protos, us, limit, budget = _G["a"]
    name, pn, fn = us[i]
    symcore.STATS.update(queries=0, secs=0.0, paths=0, forks=0, proofs=0)
    t0 = time.time()
    out = dict(i=i, name=name, pn=pn, fail=None, error=None, case=None)
    cases = []

    def go(ctx):
        env = Env(lang, progs[pn], protos[pn], ctx)
        try:
            fn(env)
        finally:
            if "fns" in env.m.__dict__:
                out.setdefault("fns", set()).update(env.m.fns)
        if ctx.feasible() and "case" in ctx.notes and not ctx.failures:
            if len(cases) < 3:
                cases.append(ctx.notes["case"](ctx.model))
    try:
        res = symcore.explore(go, max_paths=limit, deadline=min(time.time() + 200, budget))
        if res.failures:
            (what, case), model = res.failures[0]
            out["fail"] = (what, case(model))
        out["case"] = cases
    except Budget as e:
        out["error"] = f"inconclusive: {e}"
    except Unsupported as e:
        out["error"] = f"construct not encoded: {e}"
    except RecursionError:
        out["error"] = "recursion limit"
    except Exception:
        out["error"] = "internal: " + traceback.format_exc(limit=-4)
    out["stats"] = dict(symcore.STATS)
    out["secs"] = time.time() - t0
    out["fns"] = sorted(out.get("fns", ()))
    return out


def judge(case, obs):
    """does the observed result of the real code contradict the oracle's expectation in the case?"""
    if obs.get("lost"):
        return None
    if obs.get("crash"):
        return f"crash: {obs['crash'][:300]}"
    if case["op"] == "cycle":
        return None
    if case["op"] == "default":
        if "err" in obs or obs.get("value") != case["want"]:
            return f"defaults observed {json.dumps(obs)[:300]}"
    elif case["op"] in ("write", "pack") and case["want"] == "err":
        if "err" not in obs:
            return f"gives {json.dumps(obs)[:200]} instead of reporting an error"
    elif case["op"] in ("write", "pack"):
        if "err" in obs:
            return f"refused: {obs['err'][:200]}"
        want = "a5" * case["off"] + case["want"] + "a5" * case["pad"]
        if obs["hex"] != want:
            return f"bytes written {short(obs['hex'])}, documented {short(want)}"
        if obs.get("size") is not None and obs["size"] != case["size"]:
            return f"size reported {obs['size']}, bytes {case['size']}"
    elif case["op"] == "read":
        if case["want"] == "any":
            return None
        if case["want"] == "err":
            if "err" not in obs:
                return f"read as {json.dumps(obs)[:200]} instead of reporting an error"
        elif "err" in obs:
            return f"refused: {obs['err'][:200]}"
        elif obs["value"] != case["want"]:
            return f"read back {short(json.dumps(obs['value']))} instead of {short(json.dumps(case['want']))}"
        elif obs.get("pos") is not None and obs["pos"] != case["pos"]:
            return f"position {obs['pos']} instead of {case['pos']}"
    else:
        if case["want"] == "err":
            if "err" not in obs:
                return f"gives {json.dumps(obs)[:200]} instead of reporting an error"
        elif "err" in obs:
            return f"refused: {obs['err'][:200]}"
        elif obs["value"] != case["want"]:
            return f"gives {short(json.dumps(obs['value']))} instead of {short(json.dumps(case['want']))}"
    return None


def short(s):
    return s if len(s) < 240 else s[:150] + "..." + s[-80:]


def run(lang, prop, rep, tier):
    kind = prop[-1]
    budget = time.time() + (600 if tier == "quick" else 3000)
    wd = common.workdir(lang.letter)
    protos, progs = {}, {}
    only = os.environ.get("VERIF_PROTOS")
    names = only.split(",") if only else list(lang.protos)
    if kind == "4":
        names = [n for n in names if n in ("stream", "nest", "enums", "names", "names_cs", "sized_b", "text", "many") or tier == "thorough"]
    elif kind != "1" and tier == "quick":
        names = [n for n in names if n != "many" and (n != "odd" or kind in "23")]

    def prep(pn):
        try:
            p = Proto(os.path.join(common.CORPUS, pn + ".toml"))
            return pn, p, lang.prepare(p, os.path.join(wd, pn)), None
        except (common.GenError, CompileError) as e:
            return pn, None, None, e
    for pn, p, prog, err in common.pmap(prep, names):
        if err is not None:
            rep.violation(f"{pn}: generated code does not build", f"{type(err).__name__}: {str(err)[:1500]}",
                          {"protocol.toml": open(os.path.join(common.CORPUS, pn + ".toml")).read(), "error.txt": str(err)})
        else:
            protos[pn], progs[pn] = p, prog
    us = units(lang, protos, kind, tier)
    if os.environ.get("VERIF_ONLY"):
        us = [u for u in us if os.environ["VERIF_ONLY"] in u[0]]
    random.Random(common.SEED).shuffle(us)
    us.sort(key=lambda u: 0 if "long" in u[0] else 1)
    _G["a"] = (lang, progs, protos, us, 5000 if tier == "quick" else 50000, budget)
    outs = []
    if us:
        if os.environ.get("VERIF_SERIAL"):
            outs = [_work(i) for i in range(len(us))]
        else:
            with mp.get_context("fork").Pool(common.JOBS) as pool:
                for o in pool.imap_unordered(_work, range(len(us)), chunksize=1):
                    outs.append(o)
    outs.sort(key=lambda o: o["name"])
    ncases = {}
    for o in outs:
        st = o["stats"]
        rep.query(st["queries"], st["secs"])
        rep.states += st["paths"]
        rep.transitions += st["paths"] + st["forks"]
        rep.functions.update(o["fns"])
        rep.unit(o["name"], paths=st["paths"], proofs=st["proofs"], queries=st["queries"], secs=round(o["secs"], 2))
        if os.environ.get("VERIF_DEBUG"):
            print(f"[{o['secs']:.2f}] {o['name']} paths={st['paths']} q={st['queries']} {'FAIL' if o['fail'] else ''}")
        if o["error"]:
            rep.error(f"{o['name']}: {o['error']}")
        if not o["fail"] and not o["error"] and not st["paths"]:
            rep.error(f"{o['name']}: vacuous, no feasible path")
        rep.vacuity_ok += bool(st["paths"])
    # confirm counterexamples and cross-check the encoding, one batch per protocol
    lim = 60 if tier == "quick" else 400
    for pn in progs:
        batch = []
        for o in outs:
            if o["pn"] != pn:
                continue
            if o["fail"] and sum(1 for b in batch if b[0]["fail"]) < 12:
                batch.append((o, o["fail"][0], o["fail"][1]))
            elif o["case"]:
                for c in o["case"]:
                    batch.append((o, None, c))
        fails = [b for b in batch if b[1]]
        oks = [b for b in batch if not b[1]]
        random.Random(common.SEED).shuffle(oks)
        batch = fails + oks[:lim]
        if not batch:
            continue
        try:
            obs = lang.replay(progs[pn], [c for _, _, c in batch])
        except Exception as e:
            rep.error(f"{pn}: replay failed: {str(e)[:1500]}")
            continue
        for (o, what, c), ob in zip(batch, obs):
            bad = judge(c, ob)
            rep.replayed += 1
            if what and bad:
                rep.violation(o["name"], f"{what}\nobserved in the real code: {bad}", {
                    "case.json": json.dumps(c), "observed.json": json.dumps(ob),
                    "protocol.toml": open(protos[pn].path).read()})
            elif what:
                rep.error(f"{o['name']}: counterexample not reproduced by the real code: {what}: {short(json.dumps(c))} observed {short(json.dumps(ob))}")
            elif bad:
                rep.violation(o["name"], f"concrete run of a solver-generated case contradicts the oracle: {bad}\n(the encoding did not show it)",
                              {"case.json": json.dumps(c), "observed.json": json.dumps(ob), "protocol.toml": open(protos[pn].path).read()})
            elif len(rep.samples) < 8:
                rep.samples.append(dict(unit=o["name"], case=short(json.dumps(c))))
    rep.bounds = dict(protocols=names, lists=f"up to {lang.lcap} elements per level", strings=f"up to {lang.scap} characters of UTF-8 classes {lang.classes}",
                      skeletons_per_message=lang.quick_limit if tier == "quick" else lang.thorough_limit,
                      long="lengths past 127/32767 for one- and two-byte size types, contents mostly concrete" if lang.big else "none",
                      stream="all ordered pairs of the stream protocol's messages, each alone, all in both orders, eleven of them; first, middle and last of 255 message types; every maximum 0..n+1")
