"""Adapter base for languages executed as LLVM IR behind the common shim entry
vf_run(in, n, out, cap) -> bytes of out.  Input: operation, message, parameters, canonical value; output: status and results.
Canonical value: numbers little-endian, strings and lists with a 32-bit length, structs member by member."""
import json
import os
import struct

import z3

import codec
import common
import llvmsym
import symval
from codec import CodeError, Crash
from llvmsym import Trap
from symcore import bv, concat_le, is_sym, model_int, norm_b
from symval import Text


def valid_utf8(ctx, b):
    """decided for the byte string: forks only when both are possible"""
    n = len(b)
    c = [bv(x, 8) for x in b]
    F, T = z3.BoolVal(False), z3.BoolVal(True)
    ok = [F] * (n + 5)
    ok[n] = T
    rng = lambda x, lo, hi: z3.And(z3.UGE(x, lo), z3.ULE(x, hi))
    for i in range(n - 1, -1, -1):
        if isinstance(b[i], int) and b[i] < 0x80:
            ok[i] = ok[i + 1]
            continue
        x = c[i]
        alts = [z3.And(z3.ULT(x, 0x80), ok[i + 1])]
        if i + 1 < n:
            y = c[i + 1]
            alts.append(z3.And(rng(x, 0xc2, 0xdf), rng(y, 0x80, 0xbf), ok[i + 2]))
        if i + 2 < n:
            z = rng(c[i + 2], 0x80, 0xbf)
            alts.append(z3.And(z3.Or(z3.And(x == 0xe0, rng(y, 0xa0, 0xbf)), z3.And(rng(x, 0xe1, 0xec), rng(y, 0x80, 0xbf)),
                                     z3.And(x == 0xed, rng(y, 0x80, 0x9f)), z3.And(rng(x, 0xee, 0xef), rng(y, 0x80, 0xbf))), z, ok[i + 3]))
        if i + 3 < n:
            alts.append(z3.And(z3.Or(z3.And(x == 0xf0, rng(y, 0x90, 0xbf)), z3.And(rng(x, 0xf1, 0xf3), rng(y, 0x80, 0xbf)),
                                     z3.And(x == 0xf4, rng(y, 0x80, 0x8f))), z, rng(c[i + 3], 0x80, 0xbf), ok[i + 4]))
        ok[i] = norm_b(z3.Or(*alts))
        if isinstance(ok[i], bool):
            ok[i] = z3.BoolVal(ok[i])
    return ctx.branch(norm_b(ok[0]))


def u32(n):
    return list(struct.pack("<I", n & 0xffffffff))


def canon(proto, t, v):
    if t.kind in ("num", "enum"):
        from symcore import split_le
        return split_le(v, t.size)
    if t.kind == "string":
        b = v.utf8() if isinstance(v, Text) else list(v)
        return u32(len(b)) + b
    if t.kind == "list":
        out = u32(len(v))
        for e in v:
            out += canon(proto, t.elem, e)
        return out
    out = []
    for n, mt in t.ref.members:
        out += canon(proto, mt, v[n])
    return out


def canon_msg(proto, msg, v):
    out = []
    for n, mt in proto.messages[msg].members:
        out += canon(proto, mt, v[n])
    return out


class Uncanon:
    def __init__(self, bs, ctx=None):
        self.b, self.p, self.ctx = bs, 0, ctx

    def take(self, n):
        r = self.b[self.p:self.p + n]
        if len(r) < n:
            raise Crash("short result")
        self.p += n
        return r

    def num(self, n):
        return concat_le(self.take(n))

    def len(self):
        x = self.num(4)
        if is_sym(x):
            x = self.ctx.value(x)
        return x

    def value(self, t):
        if t.kind in ("num", "enum"):
            return self.num(t.size)
        if t.kind == "string":
            return self.take(self.len())
        if t.kind == "list":
            return [self.value(t.elem) for _ in range(self.len())]
        return {n: self.value(mt) for n, mt in t.ref.members}

    def msg(self, proto, name):
        return {n: self.value(mt) for n, mt in proto.messages[name].members}


def unhex(h):
    return list(bytes.fromhex(h))


class Machine:
    def __init__(self, prog, ctx):
        self.fns = set()
        self.proto, self.ctx, self.prog = prog["proto"], ctx, prog
        self.names = list(self.proto.messages)
        self.x = None

    def cycle(self, sub, msg, data, fail, mx):
        if sub == "default":
            return self.run(9, msg, u32(0xffffffff), clean=True)
        w = self.prog["lang"].window(data, [], []) if sub != "process" else u32(mx) + list(data)
        return self.run(dict(read=9, process=10, unpack=11)[sub], msg, u32(fail) + w, clean=True)

    def run(self, op, msg, rest, cap=0, clean=False):
        """a fresh memory for every call"""
        k = self.names.index(msg) if msg else 0
        inp = [op, k] + rest
        cap = cap or 4 * len(inp) + 4096
        x = llvmsym.Exec(self.prog["mod"], self.ctx, self.fns, self.prog["hooks"])
        ia = x.alloc(len(inp), list(inp), kind="input")
        oa = x.alloc(cap, [None] * cap, kind="output")
        try:
            n = x.call("vf_run", [ia, len(inp), oa, cap])
        except Trap as e:
            raise Crash(str(e))
        if is_sym(n):
            n = self.ctx.value(n)
        if n > cap:
            raise Crash("result too long")
        if clean:
            left = sum(1 for q in x.objs if q.kind == "heap" and not q.freed)
            if left:
                raise Crash(f"leaves {left} block{'s' * (left > 1)} allocated")
        o = x.find(oa, cap)
        bs = [x.byte(o, i) for i in range(n)]
        if not bs:
            raise Crash("no result")
        st = bs[0]
        if is_sym(st):
            st = self.ctx.value(st)
        if st == 1:
            raise CodeError("error reported")
        if st != 0:
            raise Crash(f"status {st}")
        return Uncanon(bs[1:], self.ctx)

    def default(self, msg):
        return self.run(0, msg, []).msg(self.proto, msg)

    def make(self, msg, v):
        return msg, canon_msg(self.proto, msg, v)

    def size(self, o):
        return self.run(1, o[0], o[1]).num(8)

    def write(self, o, n, off, tag):
        r = self.run(2, o[0], [int(tag)] + u32(off) + u32(n) + o[1])
        pos = r.num(8)
        return r.b[r.p:], pos

    def write_default(self, msg, n):
        r = self.run(8, msg, u32(n))
        size = r.num(8)
        pos = r.num(8)
        return size, r.b[r.p:], pos

    def read(self, msg, data, pre, post):
        r = self.run(3, msg, self.prog["lang"].window(data, pre, post))
        pos = r.num(8)
        return r.msg(self.proto, msg), pos if self.prog["lang"].pos else None

    def list(self, r):
        n = r.len()
        out = []
        for _ in range(n):
            k = r.num(1)
            if is_sym(k):
                k = self.ctx.value(k)
            out.append((self.names[k], r.msg(self.proto, self.names[k])))
        return out

    def process(self, data, mx):
        return self.list(self.run(4, None, u32(mx) + list(data)))

    def objs(self, objs):
        out = u32(len(objs))
        for k, o in enumerate(objs):
            out += [255] if k and o is objs[k - 1] else [self.names.index(o[0])] + o[1]       # 255: the one before again
        return out

    def packed_size(self, objs):
        return self.run(5, None, self.objs(objs)).num(8)

    def pack(self, objs, n, off):
        r = self.run(6, None, u32(off) + u32(n) + self.objs(objs))
        return r.b[r.p:]

    def unpack(self, data, pre, post):
        return self.list(self.run(7, None, self.prog["lang"].window(data, pre, post)))


class ShimLang(codec.Lang):
    pos = False

    def window(self, data, pre, post):
        return list(data)

    def prepare(self, proto, wd):
        src = common.generate(self.name, proto.path, wd)
        ll = self.build_ir(proto, wd, src)
        mod = llvmsym.Module(open(ll).read())
        if "vf_run" not in mod.fns:
            raise common.CheckError("no vf_run in the IR")
        return dict(proto=proto, mod=mod, hooks=self.hooks(), wd=wd, lang=self)

    def machine(self, prog, ctx):
        return Machine(prog, ctx)

    # -- the real thing --------------------------------------------------------------
    def replay(self, prog, cases):
        wd, proto = prog["wd"], prog["proto"]
        host = prog.get("host")
        exe = os.path.join(wd, "replay")
        if not host and not os.path.exists(exe):
            exe = self.build_native(wd)
        names = list(proto.messages)

        def go(op, msg, rest):
            inp = bytes([op, names.index(msg) if msg else 0] + rest)
            if host:
                out = host.ask(inp)
                if out[:1] == b"\x02":
                    raise Crash(out[1:].decode("utf-8", "replace"))
            else:
                rc, out, err = sh_bytes([exe], inp)
                if rc:
                    raise Crash(f"exit {rc}: {err[-300:]}")
            if not out:
                raise Crash("no result")
            if out[0] == 1:
                raise CodeError("error reported")
            return Uncanon(list(out[1:]))

        def js(t, v):
            return symval.concrete(None, t, v)

        def jmsg(n, v):
            return {m: js(t, v[m]) for m, t in proto.messages[n].members}

        def cv(n, j):
            return canon_msg(proto, n, {m: symval.from_desc(proto, t, j[m]) for m, t in proto.messages[n].members})

        def lst(r):
            out = []
            for _ in range(r.len()):
                n = names[r.num(1)]
                out.append([n, jmsg(n, r.msg(proto, n))])
            return out

        def one(c):
            try:
                op = c["op"]
                if op == "cycle":
                    if c["sub"] == "default":
                        go(9, c["msg"], u32(0xffffffff))
                    elif c["sub"] == "process":
                        go(10, None, u32(c["fail"]) + u32(c["max"]) + unhex(c["hex"]))
                    else:
                        go(9 if c["sub"] == "read" else 11, c["msg"], u32(c["fail"]) + self.window(unhex(c["hex"]), [], []))
                    return dict(value=None)
                if op == "default":
                    return dict(value=jmsg(c["msg"], go(0, c["msg"], []).msg(proto, c["msg"])))
                if op == "write":
                    total = c["off"] + (c["room"] if "room" in c else len(c["want"]) // 2 + c["pad"])
                    if c["value"] is None:
                        r = go(8, c["msg"], u32(total))
                        size = r.num(8)
                        r.num(8)
                        return dict(hex=bytes(r.b[r.p:]).hex(), size=size)
                    v = cv(c["msg"], c["value"])
                    size = go(1, c["msg"], v).num(8)
                    r = go(2, c["msg"], [int(c["tag"])] + u32(c["off"]) + u32(total) + v)
                    r.num(8)
                    return dict(hex=bytes(r.b[r.p:]).hex(), size=size)
                if op == "read":
                    r = go(3, c["msg"], self.window(unhex(c["hex"]), [0x5a] * c.get("pre", 0), unhex(c.get("post", ""))))
                    pos = r.num(8)
                    res = dict(value=jmsg(c["msg"], r.msg(proto, c["msg"])))
                    if self.pos:
                        res["pos"] = pos
                    return res
                if op == "process":
                    return dict(value=lst(go(4, None, u32(c["max"]) + unhex(c["hex"]))))
                if op == "pack":
                    ms = u32(len(c["msgs"]) * (2 if c.get("dup") else 1))
                    for n, j in c["msgs"]:
                        ms += [names.index(n)] + cv(n, j) + ([255] if c.get("dup") else [])
                    total = c["off"] + len(c["want"]) // 2 + c["pad"]
                    size = go(5, None, ms).num(8)
                    r = go(6, None, u32(c["off"]) + u32(total) + ms)
                    return dict(hex=bytes(r.b[r.p:]).hex(), size=size)
                if op == "unpack":
                    return dict(value=lst(go(7, None, self.window(unhex(c["hex"]), [0x5a] * c.get("pre", 0), unhex(c.get("post", ""))))))
            except CodeError as e:
                return dict(err=str(e))
            except Crash as e:
                return dict(crash=str(e))
            return dict(crash="unknown case")
        return common.pmap(one, cases)


def sh_bytes(cmd, inp, timeout=60):
    import subprocess
    try:
        p = subprocess.run(cmd, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return -999, b"", "does not finish"
    return p.returncode, p.stdout, p.stderr.decode("utf-8", "replace")
