"""TypeScript: symbolic execution of the module beschi generates (types erased by the TypeScript compiler, syntax tree
interpreted by lib/jsinterp.py), after a strict type check of the generated source."""
import json
import os

import z3

import codec
import common
import jsinterp
import symcore
import symval
from codec import CodeError, CompileError, Crash
from jsinterp import Arr, Buf, F32, F64, JBig, JSThrow, SymB, SymNum, SymStr, UNDEF, View
from spec import NUM
from symcore import Unsupported, bv, is_sym, norm, norm_b, sx
from symval import Text

NODE_TS = "/opt/veriftools/node/node_modules/typescript"


def to_js(t, v, m):
    if t.kind == "num":
        if t.name == "bool":
            return (v != 0) if isinstance(v, int) else SymB(v != 0)
        if t.name == "float":
            return F32(v)
        if t.name == "double":
            return F64(v)
        w = 8 * t.size
        signed = NUM[t.name][1]
        if w == 64:
            return JBig((sx(v, 64) if signed else v) if isinstance(v, int) else norm((z3.SignExt if signed else z3.ZeroExt)(64, v)))
        return (sx(v, w) if signed else v) if isinstance(v, int) else SymNum(norm((z3.SignExt if signed else z3.ZeroExt)(64 - w, v)))
    if t.kind == "enum":
        w = 8 * t.size
        signed = NUM[t.ref.encoding][1]
        return (sx(v, w) if signed else v) if isinstance(v, int) else SymNum(norm((z3.SignExt if signed else z3.ZeroExt)(64 - w, v)))
    if t.kind == "string":
        return jsinterp.mkstr(v.utf16())
    if t.kind == "list":
        return Arr([to_js(t.elem, e, m) for e in v])
    o = m.new_obj(t.name)
    for n, mt in t.ref.members:
        m.setf(o, n, to_js(mt, v[n], m))
    return o


def from_js(t, x, it):
    """oracle value, None where the dynamic type is wrong"""
    if t.kind == "num" and t.name == "bool":
        if isinstance(x, bool):
            return int(x)
        return norm(z3.If(x.c, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))) if isinstance(x, SymB) else None
    if t.kind == "num" and NUM[t.name][2]:
        if not jsinterp.isnum(x):
            return None
        return it.fbits(x, 8 * t.size)
    if t.kind in ("num", "enum"):
        w = 8 * t.size
        signed = NUM[t.name if t.kind == "num" else t.ref.encoding][1]
        if w == 64:
            if not isinstance(x, JBig):
                return None
            e = x.e
            if isinstance(e, int):
                lo, hi = (-2**63, 2**63 - 1) if signed else (0, 2**64 - 1)
                return e & (2**64 - 1) if lo <= e <= hi else None
            ok = (z3.SignExt if signed else z3.ZeroExt)(64, z3.Extract(63, 0, e)) == e
            if not it.ctx.branch(norm_b(ok)):
                return None
            return norm(z3.Extract(63, 0, e))
        if not jsinterp.isnum(x) or isinstance(x, bool):
            return None
        e = it.i64(x)
        if e is None:
            return None
        if isinstance(e, int):
            lo, hi = (-2**(w - 1), 2**(w - 1) - 1) if signed else (0, 2**w - 1)
            return e & (2**w - 1) if lo <= e <= hi else None
        low = z3.Extract(w - 1, 0, e)
        if not it.ctx.branch(norm_b((z3.SignExt if signed else z3.ZeroExt)(64 - w, low) == e)):
            return None
        return norm(low)
    if t.kind == "string":
        return it.utf8_encode(x) if isinstance(x, (str, SymStr)) else None
    if t.kind == "list":
        if not isinstance(x, Arr) or any(e is jsinterp.Sentinel for e in x.a):
            return None
        return [from_js(t.elem, e, it) for e in x.a]
    if not isinstance(x, jsinterp.Obj) or x.cls is None or x.cls.name != t.name:
        return None
    return {n: from_js(mt, it.get(x, n), it) for n, mt in t.ref.members}


class Machine:
    def __init__(self, prog, ctx):
        self.fns = set()
        self.proto, self.ctx = prog["proto"], ctx
        try:
            self.it = jsinterp.Interp(prog["ast"], ctx, self.fns)
        except JSThrow as e:
            raise Unsupported("module initialisation throws: " + self.msg(e))
        self.g = self.it.glob.v

    @staticmethod
    def msg(e):
        v = e.v
        if isinstance(v, jsinterp.Obj):
            m = v.p.get("message", "")
            return f"{v.p.get('name', 'Error')}: {m if isinstance(m, str) else '<text>'}"
        return str(v)

    def js(self, f, *a):
        try:
            return f(*a)
        except JSThrow as e:
            raise CodeError(self.msg(e))

    def new_obj(self, name):
        if name not in self.g:
            raise CodeError(f"class {name} does not exist")
        return self.js(self.it.new, self.g[name], [])

    def setf(self, o, n, v):
        if n not in o.p:
            raise CodeError(f"field {n} does not exist")
        self.it.set(o, n, v)

    def members(self, msg):
        return self.proto.messages[msg].members

    def obj(self, msg, o):
        if o.cls is None or o.cls.name != msg:
            raise CodeError("wrong class")
        return {n: from_js(mt, self.it.get(o, n), self.it) for n, mt in self.members(msg)}

    def default(self, msg):
        return self.obj(msg, self.new_obj(msg))

    def dv(self, data, pre=(), post=()):
        b = Buf(list(pre) + list(data) + list(post))
        return b, View("dv", b, len(pre), len(data))

    def da(self, view):
        return self.js(self.it.new, self.g["DataAccess"], [view])

    def meth(self, o, n, *a):
        f = self.it.get(o, n)
        return self.js(self.it.call, f, o, list(a))

    def make(self, msg, v):
        o = self.new_obj(msg)
        for n, mt in self.members(msg):
            self.setf(o, n, to_js(mt, v[n], self))
        return o

    def num(self, x):
        e = self.it.i64(x)
        if e is None:
            raise CodeError("size is not an integer")
        return e & (2**64 - 1) if isinstance(e, int) else e

    def size(self, o):
        return self.num(self.meth(o, "getSizeInBytes"))

    def write(self, o, n, off, tag):
        """through a DataAccess over a window of a larger buffer"""
        b, view = self.dv([codec.FILL] * n, [0x5a] * 2, [0x5a] * 2)
        da = self.da(view)
        da.p["currentOffset"] = off
        self.meth(o, "writeBytes", da, tag)
        if b.d[:2] != [0x5a] * 2 or b.d[-2:] != [0x5a] * 2:
            raise Crash("wrote outside the view")
        return b.d[2:-2], self.num(da.p["currentOffset"])

    def write_default(self, msg, n):
        o = self.new_obj(msg)
        size = self.size(o)
        b, view = self.dv([codec.FILL] * n)
        self.meth(o, "writeBytes", view, False)
        return size, b.d, None

    def read(self, msg, data, pre, post):
        _, view = self.dv(data, pre, post)
        if len(pre) % 2:
            da = self.da(view)
            o = self.meth(self.g[msg], "fromBytes", da)
            return self.obj(msg, o), self.num(da.p["currentOffset"])
        if pre or post:
            o = self.meth(self.g[msg], "fromBytes", view)
        else:
            o = self.meth(self.g[msg], "fromBytes", view.buf)
        return self.obj(msg, o), None

    def msgs(self, arr):
        if not isinstance(arr, Arr):
            raise CodeError("no list returned")
        out = []
        for o in arr.a:
            n = o.cls.name if isinstance(o, jsinterp.Obj) and o.cls is not None else None
            if n not in self.proto.messages:
                raise CodeError("not a message")
            if self.meth(o, "getMessageType") != self.proto.tag[n]:
                raise CodeError("wrong message type")
            out.append((n, self.obj(n, o)))
        return out

    def process(self, data, mx):
        _, view = self.dv(data, [0x5a] * 2, [0x5a] * 2)
        return self.msgs(self.js(self.it.call, self.g["ProcessRawBytes"], UNDEF, [view, mx]))

    def packed_size(self, objs):
        return self.num(self.js(self.it.call, self.g["GetPackedSize"], UNDEF, [Arr(objs)]))

    def pack(self, objs, n, off):
        b, view = self.dv([codec.FILL] * n, [0x5a] * 2, [0x5a] * 2)
        if off:
            da = self.da(view)
            da.p["currentOffset"] = off
        else:
            da = view
        self.js(self.it.call, self.g["PackMessages"], UNDEF, [Arr(objs), da])
        if b.d[:2] != [0x5a] * 2 or b.d[-2:] != [0x5a] * 2:
            raise Crash("wrote outside the view")
        return b.d[2:-2]

    def unpack(self, data, pre, post):
        _, view = self.dv(data, pre, post)
        return self.msgs(self.js(self.it.call, self.g["UnpackMessages"], UNDEF, [view]))


DRIVER = r'''
import fs from "fs";
const M = await import("file://" + process.argv[2]);
const P = JSON.parse(fs.readFileSync(process.argv[3], "utf8"));
const cases = JSON.parse(fs.readFileSync(process.argv[4], "utf8"), (k, v) => v);
const W = { byte: [8, false], bool: [8, false], uint16: [16, false], int16: [16, true], uint32: [32, false], int32: [32, true], uint64: [64, false], int64: [64, true] };
const fbuf = new DataView(new ArrayBuffer(8));
const dec = new TextDecoder("utf-8", { ignoreBOM: true, fatal: true }), enc = new TextEncoder();
const unhex = h => Uint8Array.from(h.match(/../g) || [], x => parseInt(x, 16));
const hex = b => Array.from(b, x => x.toString(16).padStart(2, "0")).join("");
// numbers travel as decimal strings
function toJs(t, v) {
  if (typeof t === "string") {
    if (t === "string") return dec.decode(unhex(v));
    if (t === "bool") return BigInt(v) !== 0n;
    if (t === "float") { fbuf.setUint32(0, Number(BigInt(v))); return fbuf.getFloat32(0); }
    if (t === "double") { fbuf.setBigUint64(0, BigInt(v)); return fbuf.getFloat64(0); }
    const [w, s] = W[t], b = s ? BigInt.asIntN(w, BigInt(v)) : BigInt(v);
    return w === 64 ? b : Number(b);
  }
  if (t.enum) return toJs(t.enc, v);
  if (t.list) return v.map(e => toJs(t.list, e));
  return fill(new M[t.struct](), P.structs[t.struct], v);
}
function fill(o, mem, v) { for (const [n, t] of mem) { if (!(n in o)) throw new Error("no field " + n); o[n] = toJs(t, v[n]); } return o; }
function fromJs(t, x) {
  if (typeof t === "string") {
    if (t === "string") return typeof x === "string" ? hex(enc.encode(x)) : null;
    if (t === "bool") return typeof x === "boolean" ? (x ? 1 : 0) : null;
    if (t === "float") { if (typeof x !== "number") return null; fbuf.setFloat32(0, x); return fbuf.getUint32(0); }
    if (t === "double") { if (typeof x !== "number") return null; fbuf.setFloat64(0, x); return "#" + fbuf.getBigUint64(0); }
    const [w, s] = W[t];
    if (w === 64) { if (typeof x !== "bigint") return null; const y = s ? BigInt.asIntN(64, x) : BigInt.asUintN(64, x); return y === x ? "#" + BigInt.asUintN(64, x) : null; }
    if (typeof x !== "number" || !Number.isInteger(x)) return null;
    const b = BigInt(x), y = s ? BigInt.asIntN(w, b) : BigInt.asUintN(w, b);
    return y === b ? Number(BigInt.asUintN(w, b)) : null;
  }
  if (t.enum) return fromJs(t.enc, x);
  if (t.list) return Array.isArray(x) ? Array.from(x, e => fromJs(t.list, e)) : null;
  return x instanceof M[t.struct] ? out(P.structs[t.struct], x) : null;
}
function out(mem, o) { const r = {}; for (const [n, t] of mem) r[n] = fromJs(t, o[n]); return r; }
const list = ms => ms.map(m => { const n = Object.keys(P.messages).find(k => m instanceof M[k]); if (m.getMessageType() !== P.tag[n]) throw new Error("wrong type"); return [n, out(P.messages[n], m)]; });
const view = (data, pre, post) => { const b = new Uint8Array(pre + data.length + post.length).fill(0x5a); b.set(data, pre); b.set(post, pre + data.length); return new DataView(b.buffer, pre, data.length); };
const body = (dv) => { const b = new Uint8Array(dv.buffer); for (let i = 0; i < b.length; i++) if ((i < dv.byteOffset || i >= dv.byteOffset + dv.byteLength) && b[i] !== 0x5a) throw new Error("OUTSIDE"); return hex(b.slice(dv.byteOffset, dv.byteOffset + dv.byteLength)); };
const res = [];
for (const c of cases) {
  let r;
  try {
    const P2 = 2, POST = new Uint8Array(2).fill(0x5a);
    if (c.op === "default") r = { value: out(P.messages[c.msg], new M[c.msg]()) };
    else if (c.op === "write") {
      const o = c.value === null ? new M[c.msg]() : fill(new M[c.msg](), P.messages[c.msg], c.value);
      const size = o.getSizeInBytes();
      const dv = view(new Uint8Array(c.off + c.pad + c.want.length / 2).fill(0xa5), P2, POST);
      const da = new M.DataAccess(dv); da.currentOffset = c.off;
      o.writeBytes(da, c.tag); r = { hex: body(dv), size };
    } else if (c.op === "read") {
      const pre = c.pre || 0, post = unhex(c.post || "");
      const dv = view(unhex(c.hex), pre, post);
      if (pre % 2) { const da = new M.DataAccess(dv); r = { value: out(P.messages[c.msg], M[c.msg].fromBytes(da)), pos: da.currentOffset }; }
      else r = { value: out(P.messages[c.msg], M[c.msg].fromBytes(pre || post.length ? dv : dv.buffer)) };
    } else if (c.op === "process") r = { value: list(M.ProcessRawBytes(view(unhex(c.hex), P2, POST), c.max)) };
    else if (c.op === "pack") {
      let os = c.msgs.map(([n, v]) => fill(new M[n](), P.messages[n], v)); if (c.dup) os = os.flatMap(o => [o, o]);
      const size = M.GetPackedSize(os);
      const dv = view(new Uint8Array(c.off + c.pad + c.want.length / 2).fill(0xa5), P2, POST);
      let da = dv; if (c.off) { da = new M.DataAccess(dv); da.currentOffset = c.off; }
      M.PackMessages(os, da); r = { hex: body(dv), size };
    } else if (c.op === "unpack") r = { value: list(M.UnpackMessages(view(unhex(c.hex), c.pre || 0, unhex(c.post || "")))) };
  } catch (e) { r = String(e && e.message) === "OUTSIDE" ? { crash: "wrote outside the view" } : { err: String(e) }; }
  res.push(r);
}
fs.writeFileSync(process.argv[5], JSON.stringify(res));
'''

TSC = r'''
const ts = require("%s");
const o = { target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.ESNext, strict: true, noEmit: true, skipLibCheck: true, lib: ["lib.es2022.d.ts", "lib.dom.d.ts"], types: [] };
const p = ts.createProgram([process.argv[2]], o);
const d = ts.getPreEmitDiagnostics(p);
if (d.length) { console.log(d.map(x => (x.file ? x.file.fileName.split("/").pop() + ":" + (x.file.getLineAndCharacterOfPosition(x.start).line + 1) + " " : "") + ts.flattenDiagnosticMessageText(x.messageText, "\n")).join("\n")); process.exit(1); }
''' % NODE_TS


def strnum(x):
    """JSON numbers as decimal strings (they may exceed a double)"""
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return str(x)
    if isinstance(x, list):
        return [strnum(e) for e in x]
    if isinstance(x, dict):
        return {k: strnum(v) for k, v in x.items()}
    return x


def unstr(x):
    if isinstance(x, str) and x.startswith("#"):
        return int(x[1:])
    if isinstance(x, list):
        return [unstr(e) for e in x]
    if isinstance(x, dict):
        return {k: unstr(v) for k, v in x.items()}
    return x


class TS(codec.Lang):
    name, letter = "typescript", "T"
    nan = False
    views = alias = True

    def prepare(self, proto, wd):
        out = common.generate("typescript", proto.path, wd)
        js, ast = os.path.join(wd, "m.mjs"), os.path.join(wd, "ast.json")
        chk = os.path.join(wd, "tsc.cjs")
        open(chk, "w").write(TSC)
        rc, so, se = common.sh(["node", chk, out], timeout=120)
        if rc:
            raise CompileError("the TypeScript compiler rejects the generated code:\n" + (so + se)[:1500])
        rc, so, se = common.sh(["node", os.path.join(common.VERIF, "tools", "ts_ast.js"), out, ast, js], timeout=120)
        if rc:
            raise CompileError("the TypeScript compiler rejects the generated code:\n" + (so + se)[:1500])
        return dict(proto=proto, ast=json.load(open(ast)), js=js, wd=wd)

    def machine(self, prog, ctx):
        return Machine(prog, ctx)

    def replay(self, prog, cases):
        wd = prog["wd"]
        p = lambda n: os.path.join(wd, n)
        open(p("driver.mjs"), "w").write(DRIVER)
        json.dump(symval.proto_desc(prog["proto"]), open(p("desc.json"), "w"))
        cs = [dict(c, **{k: strnum(c[k]) for k in ("value", "msgs") if c.get(k) is not None}) for c in cases]
        json.dump(cs, open(p("cases.json"), "w"))
        rc, so, se = common.sh(["node", p("driver.mjs"), prog["js"], p("desc.json"), p("cases.json"), p("res.json")], timeout=300)
        if rc:
            raise RuntimeError(so + se)
        return unstr(json.load(open(p("res.json"))))


def run(prop, rep, tier):
    rep.assumptions += ["type erasure by the TypeScript compiler keeps the behaviour", "Node's DataView, TextEncoder and TextDecoder behave as standardised",
                        "NaN payloads are left out (a JavaScript engine may replace them)"]
    codec.run(TS(), prop, rep, tier)
