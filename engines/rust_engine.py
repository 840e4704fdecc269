"""Rust: symbolic execution of the module beschi generates, at the level of the LLVM IR rustc makes of it together with a small
generated shim (canonical values in, results out); lib/llvmsym.py executes the IR.  The same shim, compiled natively, replays cases."""
import json
import os
import re

import z3

import codec
import common
import llvm_shim
import llvmsym
import symval
from codec import CompileError
from llvmsym import Trap
from spec import NUM
from symcore import Unsupported, norm_b

RTYPE = dict(byte="u8", bool="bool", uint16="u16", int16="i16", uint32="u32", int32="i32", uint64="u64", int64="i64", float="f32",
             double="f64")
FLAGS = ["--edition", "2021", "-C", "opt-level=2", "-C", "overflow-checks=on", "-C", "debug-assertions=on", "-C", "debuginfo=0", "-C", "codegen-units=1"]

PRE = r'''
#![allow(non_snake_case, dead_code, unused_variables, unused_mut)]
mod gen;
use gen::*;

pub struct In<'a> { s: &'a [u8], p: usize }
impl<'a> In<'a> {
    fn take(&mut self, n: usize) -> &'a [u8] { let r = &self.s[self.p..self.p + n]; self.p += n; r }
    fn len(&mut self) -> usize { let b = self.take(4); u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize }
    fn u8(&mut self) -> u8 { self.take(1)[0] }
    fn rest(&mut self) -> &'a [u8] { let n = self.s.len() - self.p; self.take(n) }
}
pub struct Out { p: *mut u8, n: usize, cap: usize }
impl Out {
    fn put(&mut self, b: &[u8]) { if self.n + b.len() > self.cap { panic!("shim: output full") } unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), self.p.add(self.n), b.len()) }; self.n += b.len(); }
    fn len(&mut self, n: usize) { self.put(&(n as u32).to_le_bytes()) }
}
pub trait Canon { fn load(i: &mut In) -> Self; fn dump(&self, o: &mut Out); }
macro_rules! num { ($($t:ty),*) => { $(impl Canon for $t {
    fn load(i: &mut In) -> Self { let b = i.take(std::mem::size_of::<$t>()); let mut a = [0u8; std::mem::size_of::<$t>()]; a.copy_from_slice(b); <$t>::from_le_bytes(a) }
    fn dump(&self, o: &mut Out) { o.put(&self.to_le_bytes()) }
})* } }
num!(u8, u16, i16, u32, i32, u64, i64, f32, f64);
impl Canon for bool { fn load(i: &mut In) -> Self { i.u8() != 0 } fn dump(&self, o: &mut Out) { o.put(&[*self as u8]) } }
impl Canon for String {
    fn load(i: &mut In) -> Self { let n = i.len(); unsafe { String::from_utf8_unchecked(i.take(n).to_vec()) } }
    fn dump(&self, o: &mut Out) { o.len(self.len()); o.put(self.as_bytes()) }
}
impl<T: Canon> Canon for Vec<T> {
    fn load(i: &mut In) -> Self { let n = i.len(); let mut v = Vec::with_capacity(n); for _ in 0..n { v.push(T::load(i)) } v }
    fn dump(&self, o: &mut Out) { o.len(self.len()); for e in self { e.dump(o) } }
}
'''

POST = r'''
fn fill(writer: &mut Vec<u8>, n: usize) { for _ in 0..n { writer.push(0xa5) } }
fn dump_list(ms: &[Message], o: &mut Out) { o.len(ms.len()); for m in ms { dump_any(m, o) } }
fn load_list(i: &mut In) -> Vec<Message> { let n = i.len(); let mut v = Vec::with_capacity(n); for _ in 0..n { let k = i.u8(); v.push(load_any(k, i)) } v }

#[no_mangle]
pub extern "C" fn vf_run(inp: *const u8, n: usize, out: *mut u8, cap: usize) -> usize {
    let i = &mut In { s: unsafe { std::slice::from_raw_parts(inp, n) }, p: 0 };
    let o = &mut Out { p: out, n: 0, cap };
    let op = i.u8();
    let k = i.u8();
    match op {
        0 => { o.put(&[0]); default_any(k, o) }
        1 => { let m = load_any(k, i); o.put(&[0]); o.put(&(m.get_size_in_bytes() as u64).to_le_bytes()) }
        2 => {
            let tag = i.u8() != 0;
            let off = i.len();
            let total = i.len();
            let m = load_any(k, i);
            let mut w = Vec::new();
            fill(&mut w, off);
            m.write_bytes(&mut w, tag);
            let pos = w.len();
            while w.len() < total { w.push(0xa5) }
            o.put(&[0]);
            o.put(&(pos as u64).to_le_bytes());
            o.put(&w)
        }
        3 => {
            let mut r = BufferReader::new(i.rest());
            if !read_any(k, &mut r, o) { o.n = 0; o.put(&[1]) }
        }
        4 => {
            let max = i.len() as u32 as i32;
            let mut r = BufferReader::new(i.rest());
            match process_raw_bytes(&mut r, max) { Ok(ms) => { o.put(&[0]); dump_list(&ms, o) } Err(_) => o.put(&[1]) }
        }
        5 => { let ms = load_list(i); o.put(&[0]); o.put(&(get_packed_size(&ms) as u64).to_le_bytes()) }
        6 => {
            let off = i.len();
            let total = i.len();
            let ms = load_list(i);
            let mut w = Vec::new();
            fill(&mut w, off);
            pack_messages(&ms, &mut w);
            while w.len() < total { w.push(0xa5) }
            o.put(&[0]);
            o.put(&w)
        }
        7 => {
            let mut r = BufferReader::new(i.rest());
            match unpack_messages(&mut r) { Ok(ms) => { o.put(&[0]); dump_list(&ms, o) } Err(_) => o.put(&[1]) }
        }
        8 => { default_msg(k, i, o) }
        _ => panic!("shim: op"),
    }
    o.n
}
'''

MAIN = r'''
fn main() {
    use std::io::{Read, Write};
    let mut v = Vec::new();
    std::io::stdin().read_to_end(&mut v).unwrap();
    let mut out = vec![0u8; 4 * v.len() + 200000];
    let n = vf_run(v.as_ptr(), v.len(), out.as_mut_ptr(), out.len());
    std::io::stdout().write_all(&out[..n]).unwrap();
}
'''


def rtype(t):
    if t.kind == "num":
        return RTYPE[t.name]
    if t.kind == "string":
        return "String"
    if t.kind == "list":
        return f"Vec<{rtype(t.elem)}>"
    return "gen::" + t.name


def snake(s):
    """the documented renaming of members"""
    s = re.sub("(.)([A-Z][a-z]+)", r"\1_\2", s)
    return re.sub("([a-z0-9])([A-Z])", r"\1_\2", s).lower()


def shim(proto):
    out = [PRE]
    for n, e in proto.enums.items():
        w = RTYPE[e.encoding]
        arms = " ".join(f"{v} => gen::{n}::{k}," for k, v in e.values)
        out.append(f"impl Canon for gen::{n} {{\n  fn load(i: &mut In) -> Self {{ let v = <{w}>::load(i); if std::mem::size_of::<gen::{n}>() == "
                   f"std::mem::size_of::<{w}>() {{ unsafe {{ std::mem::transmute_copy::<{w}, gen::{n}>(&v) }} }} else {{ match v {{ {arms} _ => panic!(\"shim\") }} }} }}\n"
                   f"  fn dump(&self, o: &mut Out) {{ (*self as {w}).dump(o) }}\n}}")
    for n, s in list(proto.structs.items()) + list(proto.messages.items()):
        ld = " ".join(f"m.{snake(f)} = <{rtype(t)} as Canon>::load(i);" for f, t in s.members)
        dp = " ".join(f"<{rtype(t)} as Canon>::dump(&self.{snake(f)}, o);" for f, t in s.members)
        out.append(f"impl Canon for gen::{n} {{\n  fn load(i: &mut In) -> Self {{ let mut m = gen::{n}::default(); {ld} m }}\n"
                   f"  fn dump(&self, o: &mut Out) {{ {dp} }}\n}}")
    ms = list(proto.messages)
    cap = lambda f: " ".join(f(i, n) for i, n in enumerate(ms))
    out.append("fn load_any(k: u8, i: &mut In) -> Message { match k { " +
               cap(lambda i, n: f"{i} => Message::{n}(<gen::{n} as Canon>::load(i)),") + ' _ => panic!("shim: message") } }')
    out.append("fn dump_any(m: &Message, o: &mut Out) { match m { " +
               cap(lambda i, n: f"Message::{n}(x) => {{ if !matches!(m.get_message_type(), MessageType::{n}) {{ panic!(\"wrong message type\") }} o.put(&[{i}]); x.dump(o) }}") + " } }")
    out.append("fn default_any(k: u8, o: &mut Out) { match k { " + cap(lambda i, n: f"{i} => gen::{n}::default().dump(o),") + ' _ => panic!("shim: message") } }')
    out.append("fn read_any(k: u8, r: &mut BufferReader, o: &mut Out) -> bool { match k { " +
               cap(lambda i, n: f"{i} => match gen::{n}::from_bytes(r) {{ Ok(m) => {{ o.put(&[0]); o.put(&(r.current_position as u64).to_le_bytes()); m.dump(o); true }} Err(_) => false }},") +
               ' _ => panic!("shim: message") } }')
    out.append("fn default_msg(k: u8, i: &mut In, o: &mut Out) { let total = i.len(); let mut w = Vec::new(); let size; match k { " +
               cap(lambda i, n: f"{i} => {{ let m = gen::{n}::default(); size = m.get_size_in_bytes(); m.write_bytes(&mut w, false) }}") +
               ' _ => panic!("shim: message") }; while w.len() < total { w.push(0xa5) } o.put(&[0]); o.put(&(size as u64).to_le_bytes()); o.put(&(w.len() as u64).to_le_bytes()); o.put(&w) }')
    out.append(POST)
    return "\n".join(out)


# -- library functions that stay external --------------------------------------------------------
def trap(msg):
    def f(x, a):
        raise Trap(msg)
    return f


def from_utf8(x, a):
    """core::str::from_utf8(sret Result<&str, Utf8Error>, ptr, len)"""
    ret, p, n = a
    n = x.conc(n)
    bs = [x.byte(x.find(x.conc(p), n), x.conc(p) - x.find(x.conc(p), n).a + k) for k in range(n)]
    ok = llvm_shim.valid_utf8(x.ctx, bs)
    if ok:
        x.store_word(ret, 0, 8)
        x.store_word(ret + 8, p, 8)
        x.store_word(ret + 16, n, 8)
    else:
        x.store_word(ret, 1, 8)
        x.store_word(ret + 8, 0, 8)
        x.store_word(ret + 16, 1, 8)


def count_chars(x, a):
    """core::str::count: bytes that are no continuation bytes of UTF-8"""
    p, n = x.conc(a[0]), x.conc(a[1])
    tot = 0
    for k in range(n):
        b = x.load_word(p + k, 1)
        if isinstance(b, int):
            tot = tot + ((b & 0xc0) != 0x80)
        else:
            tot = tot + z3.If((b & 0xc0) != 0x80, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
    return z3.simplify(tot) if not isinstance(tot, int) else tot


def alloc(x, a):
    n = x.conc(a[0])
    if n > 1 << 26:
        raise Trap(f"allocates {n} bytes")
    return x.alloc(n, align=x.conc(a[1]))


def alloc_zeroed(x, a):
    n = x.conc(a[0])
    if n > 1 << 26:
        raise Trap(f"allocates {n} bytes")
    return x.alloc(n, [0] * n, align=x.conc(a[1]))


def realloc(x, a):
    p, old, al, n = (x.conc(q) for q in a)
    q = x.alloc(n, align=al)
    x.write_bytes(q, list(x.read_bytes(p, min(old, n))))
    x.free(p)
    return q


PRIM = dict(a=1, b=1, h=1, s=2, t=2, l=4, m=4, f=4, c=4, d=8, x=8, y=8, i=8, j=8)


def grow_one(x, a):
    """alloc::raw_vec::RawVec<T>::grow_one, for the element types liballoc and std carry their own copy for"""
    m = re.search(r"RawVec([a-z])E8grow_one|6RawVecNtNt[^_]*_6string(6String)E8grow_one", x.callee)
    if not m:
        raise Unsupported("external function " + x.callee)
    sz = PRIM[m[1]] if m[1] else 24
    al = min(sz, 8)
    v = a[0]
    cap = x.conc(x.load_word(v, 8))
    new = max(2 * cap, cap + 1, 8 if sz == 1 else 4)
    q = x.alloc(new * sz, align=al)
    if cap:
        p = x.conc(x.load_word(v + 8, 8))
        x.write_bytes(q, list(x.read_bytes(p, cap * sz)))
        x.free(p)
    x.store_word(v, new, 8)
    x.store_word(v + 8, q, 8)


HOOKS = [(r"8grow_one", grow_one), (r"___rust_alloc_zeroed", alloc_zeroed), (r"___rust_alloc(_|$)|12___rust_alloc", alloc), (r"___rust_dealloc", lambda x, a: x.free(x.conc(a[0]))),
         (r"___rust_realloc", realloc), (r"no_alloc_shim", lambda x, a: None), (r"4core3str8converts9from_utf8$", from_utf8),
         (r"4core3str5count(23char_count_general_case|14do_count_chars)$", count_chars),
         (r"9panicking|handle_error|slice_index|unwrap_failed|expect_failed|len_mismatch|panic|capacity_overflow|handle_alloc|copy_from_slice|slice_.*fail|bounds|5abort", None)]


class Rust(llvm_shim.ShimLang):
    name, letter = "rust", "R"
    pos = True

    def build_ir(self, proto, wd, src):
        p = lambda n: os.path.join(wd, n)
        os.replace(src, p("gen.rs"))
        open(p("lib.rs"), "w").write(shim(proto))
        open(p("main.rs"), "w").write(shim(proto) + MAIN)
        rc, so, se = common.sh(["rustc", *FLAGS, "--crate-type", "lib", "--emit=llvm-ir", "-C", "panic=abort", "-C", "no-vectorize-loops", "-C",
                                "no-vectorize-slp", "-Zshare-generics=no", "--cap-lints", "allow", "-o", p("m.ll"), p("lib.rs")], timeout=300, cwd=wd, env={"RUSTC_BOOTSTRAP": "1"})
        if rc:
            raise CompileError("the Rust compiler rejects the generated code or the shim that uses it:\n" + (so + se)[:2500])
        return p("m.ll")

    def hooks(self):
        h = {"*": []}
        for pat, fn in HOOKS:
            h["*"].append((re.compile(pat), fn or trap("panic")))
        return h

    def build_native(self, wd):
        p = lambda n: os.path.join(wd, n)
        rc, so, se = common.sh(["rustc", *FLAGS, "--crate-type", "bin", "--cap-lints", "allow", "-o", p("replay"), p("main.rs")], timeout=300, cwd=wd)
        if rc:
            raise RuntimeError("replay program does not build: " + se[:1500])
        return p("replay")


def run(prop, rep, tier):
    rep.assumptions += ["rustc's lowering (release optimisation, with overflow checks and debug assertions) keeps the behaviour of the source",
                        "allocator and core::str::from_utf8 behave as documented (modelled)"]
    codec.run(Rust(), prop, rep, tier)
