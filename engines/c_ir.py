"""C, second engine: the generated header and a small generated shim, compiled to LLVM IR by clang, executed symbolically by lib/llvmsym.py.

Complements the CBMC harnesses (c_engine.py) with longer contents, arbitrary overlong length prefixes and failing allocations.
Undefined behaviour clang's sanitizer instruments (overflow, shifts, out-of-range float casts, ...) is a trap of the IR.
"""
import os

import codec
import common
import llvm_shim
import symcore
import z3
from c_engine import NATIVE
from codec import CompileError
from llvmsym import Trap
from symcore import norm_b

UB = ["-fsanitize=undefined", "-fno-sanitize=alignment,null,vptr,function,object-size,nonnull-attribute,pointer-overflow", "-fsanitize-trap=all"]
FLAGS = ["-std=c99", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-builtin-memcmp", "-w", *UB]

PRELUDE = r'''
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
void* vf_alloc(size_t n);
void vf_free(void* p);
void* vf_realloc(void* p, size_t n);
void* vf_tmp(size_t n);
_Noreturn void vf_panic(void);
static size_t fail_at;
static int fails(void) { if (fail_at) { fail_at--; return fail_at == 0; } return 0; }
static void* do_alloc(size_t n) { return fails() ? NULL : vf_alloc(n); }
static void* do_realloc(void* p, size_t n) { return fails() ? NULL : vf_realloc(p, n); }
#define @U@MALLOC(n) do_alloc(n)
#define @U@REALLOC(p, n) do_realloc(p, n)
#define @U@FREE(p) vf_free(p)
#define @U@IMPLEMENTATION
#include "gen.h"

typedef struct { uint8_t* s; size_t n, p; } In;
typedef struct { uint8_t* s; size_t n; } Out;
static uint8_t* take(In* i, size_t n) { if (n > i->n - i->p) vf_panic(); i->p += n; return i->s + i->p - n; }
static uint64_t num(In* i, int n) { uint8_t* b = take(i, n); uint64_t v = 0; for (int k = 0; k < n; k++) v |= (uint64_t)b[k] << (8 * k); return v; }
static size_t len(In* i) { return num(i, 4); }
static void put(Out* o, uint64_t v, int n) { for (int k = 0; k < n; k++) o->s[o->n++] = (uint8_t)(v >> (8 * k)); }
static void putb(Out* o, const uint8_t* b, size_t n) { for (size_t k = 0; k < n; k++) o->s[o->n++] = b[k]; }
static float in_f(In* i) { uint32_t v = (uint32_t)num(i, 4); float f; memcpy(&f, &v, 4); return f; }
static double in_d(In* i) { uint64_t v = num(i, 8); double f; memcpy(&f, &v, 8); return f; }
static void out_f(Out* o, float f) { uint32_t v; memcpy(&v, &f, 4); put(o, v, 4); }
static void out_d(Out* o, double f) { uint64_t v; memcpy(&v, &f, 8); put(o, v, 8); }
static uint8_t* room(size_t n) { uint8_t* b = vf_tmp(n + 1); memset(b, 0xa5, n); return b; }
static char* in_s(In* i, size_t* n) { *n = len(i); uint8_t* b = take(i, *n); char* s = vf_tmp(*n + 1); memcpy(s, b, *n); s[*n] = 0; return s; }
static void out_s(Out* o, const char* s, size_t n) {
    put(o, n, 4);
    if (!s && !n) return;
    putb(o, (const uint8_t*)s, n);
    if (s[n] != 0) vf_panic();      /* strings are NUL-terminated */
}
'''

POST = r'''
static void** load_list(In* i, size_t* n) {
    *n = len(i);
    void** ms = vf_tmp(*n * sizeof(void*) + 1);
    for (size_t k = 0; k < *n; k++) { uint8_t t = num(i, 1); ms[k] = load_any(t, i); }
    return ms;
}
static void dump_list(void** ms, size_t n, Out* o) {
    put(o, n, 4);
    for (size_t k = 0; k < n; k++) dump_any(ms[k], o);
}

size_t vf_run(uint8_t* inp, size_t n, uint8_t* out, size_t cap) {
    In in = { inp, n, 0 }, *i = &in;
    Out ou = { out, 0 }, *o = &ou;
    uint8_t op = num(i, 1), k = num(i, 1);
    fail_at = 0;
    (void)cap;
    switch (op) {
    case 0: case 1: case 2: case 3: case 8: case 9: by_message(op, k, i, o); break;
    case 4: case 10: {
        if (op == 10) fail_at = len(i);
        int32_t max = (int32_t)(uint32_t)num(i, 4);
        @p@DataAccess r = { i->s + i->p, i->n - i->p, 0 };
        void** ms = NULL; size_t c = 0;
        @p@err_t err = @p@ProcessRawBytes(&r, max, &ms, &c);
        if (err) put(o, 1, 1); else { put(o, 0, 1); dump_list(ms, c, o); }
        if (op == 10) @p@DestroyMessageList(ms, c);
        break; }
    case 5: {
        size_t c, sz = 0; void** ms = load_list(i, &c);
        @p@err_t err = @p@GetPackedSize(ms, c, &sz);
        if (err) put(o, 1, 1); else { put(o, 0, 1); put(o, sz, 8); }
        break; }
    case 6: {
        size_t off = len(i), total = len(i), c; void** ms = load_list(i, &c);
        uint8_t* b = room(total);
        @p@DataAccess w = { b, total, off };
        @p@err_t err = @p@PackMessages(ms, c, &w);
        if (err) put(o, 1, 1); else { put(o, 0, 1); putb(o, b, total); }
        break; }
    case 7: case 11: {
        if (op == 11) fail_at = len(i);
        size_t pre = len(i), c2 = len(i);
        @p@DataAccess r = { i->s + i->p, pre + c2, pre };
        void** ms = NULL; size_t c = 0;
        @p@err_t err = @p@UnpackMessages(&r, &ms, &c);
        if (err) put(o, 1, 1); else { put(o, 0, 1); dump_list(ms, c, o); }
        if (op == 11) @p@DestroyMessageList(ms, c);
        break; }
    default: vf_panic();
    }
    return o->n;
}
'''

ONE = r'''
static void by_@M@(uint8_t op, In* i, Out* o) {
    switch (op) {
    case 0: { @p@@M@ m = @p@@M@_default; if (@p@GetMessageType(&m) != @p@MessageType_@M@) vf_panic(); put(o, 0, 1); dump_@M@(&m, o); break; }
    case 1: {
        @p@@M@* m = load_@M@(i); size_t a = 0, b = 0;
        if (@p@@M@_GetSizeInBytes(m, &a) || @p@GetSizeInBytes(m, &b)) { put(o, 1, 1); break; }
        if (a != b) vf_panic();
        put(o, 0, 1); put(o, a, 8); break; }
    case 2: {
        bool tag = num(i, 1) != 0; size_t off = len(i), total = len(i);
        @p@@M@* m = load_@M@(i); uint8_t* b = room(total);
        @p@DataAccess w = { b, total, off };
        if (tag ? @p@WriteBytes(&w, m, tag) : @p@@M@_WriteBytes(&w, m, tag)) { put(o, 1, 1); break; }
        put(o, 0, 1); put(o, w.position, 8); putb(o, b, total); break; }
    case 3: case 9: {
        if (op == 9) fail_at = len(i);
        if (fail_at == 0xffffffff) {
            fail_at = 0;
            @p@@M@* m = @p@@M@_Create();
            if (m) { dump_@M@(m, o); o->n = 0; @p@Destroy(m); }
            put(o, 1, 1); break; }
        size_t pre = len(i), n = len(i);
        @p@DataAccess r = { i->s + i->p, pre + n, pre };
        @p@@M@* m = vf_tmp(sizeof(@p@@M@));
        @p@err_t err = @p@@M@_FromBytes(&r, m);
        if (err) put(o, 1, 1);
        else { if (@p@IsFinished(&r) != (r.position == pre + n)) vf_panic(); put(o, 0, 1); put(o, r.position - pre, 8); dump_@M@(m, o); }
        if (op == 9) @p@@M@_Cleanup(m);
        break; }
    case 8: {
        size_t total = len(i), sz = 0; @p@@M@ m = @p@@M@_default; uint8_t* b = room(total);
        @p@DataAccess w = { b, total, 0 };
        if (@p@@M@_GetSizeInBytes(&m, &sz) || @p@@M@_WriteBytes(&w, &m, false)) { put(o, 1, 1); break; }
        put(o, 0, 1); put(o, sz, 8); put(o, w.position, 8); putb(o, b, total); break; }
    default: vf_panic();
    }
}
'''

MAIN = r'''
#include <stdio.h>
#include <unistd.h>
static long live = 0;
void* vf_alloc(size_t n) { if (n > 1u << 26) return NULL; live++; void* p = malloc(n); if (n) memset(p, 0xA5, n); return p; }
void vf_free(void* p) { if (p) live--; free(p); }
void* vf_realloc(void* p, size_t n) { if (!p) live++; return realloc(p, n); }
void* vf_tmp(size_t n) { return malloc(n); }
void vf_panic(void) { _exit(99); }
int main(void) {
    size_t cap = 1 << 16, n = 0; uint8_t* b = malloc(cap);
    for (;;) { if (n == cap) b = realloc(b, cap *= 2); ssize_t r = read(0, b + n, cap - n); if (r <= 0) break; n += r; }
    uint8_t* ex = malloc(n); memcpy(ex, b, n);
    size_t oc = 4 * n + 200000; uint8_t* o = malloc(oc);
    int clean = ex[0] >= 9;
    size_t m = vf_run(ex, n, o, oc);
    fwrite(o, 1, m, stdout); fflush(stdout);
    _exit(clean && live ? 77 : 0);
}
'''


class Shim:
    def __init__(self, proto):
        self.P = proto
        self.p = (proto.namespace or "beschi") + "_"
        self.lsz, self.ssz = NATIVE[proto.list_size], NATIVE[proto.string_size]

    def ctype(self, t):
        return NATIVE[t.name] if t.kind == "num" else "char*" if t.kind == "string" else self.p + t.name

    def load(self, t, lv, ln, d=0):
        if t.kind == "num":
            if t.name in ("float", "double"):
                return f"{lv} = in_{t.name[0]}(i);"
            return f"{lv} = num(i, 1) != 0;" if t.name == "bool" else f"{lv} = ({NATIVE[t.name]})num(i, {t.size});"
        if t.kind == "enum":
            return f"{lv} = ({self.p}{t.name})({NATIVE[t.ref.encoding]})num(i, {t.size});"
        if t.kind == "string":
            return f"{{ size_t n_; {lv} = in_s(i, &n_); {ln} = ({self.ssz})n_; }}"
        if t.kind == "list":
            ct = self.ctype(t.elem)
            els = f"{lv}_els_len = vf_tmp(sizeof({self.ssz}) * c_ + 1); " if t.elem.kind == "string" else ""
            return (f"{{ size_t c_ = len(i); {ln} = ({self.lsz})c_; {lv} = vf_tmp(sizeof({ct}) * c_ + 1); {els}"
                    f"for (size_t x_ = 0; x_ < c_; x_++) {{ {self.load(t.elem, lv + '[x_]', lv + '_els_len[x_]')} }} }}")
        return f"load_into_{t.name}(i, &({lv}));"

    def dump(self, t, lv, ln):
        if t.kind == "num":
            if t.name in ("float", "double"):
                return f"out_{t.name[0]}(o, {lv});"
            return f"put(o, (uint64_t)({lv}), {t.size});"
        if t.kind == "enum":
            return f"put(o, (uint64_t)(int64_t)({lv}), {t.size});"
        if t.kind == "string":
            return f"out_s(o, {lv}, (size_t)({ln}));"
        if t.kind == "list":
            return (f"put(o, (uint64_t)({ln}), 4); for (size_t x_ = 0; x_ < (size_t)({ln}); x_++) "
                    f"{{ {self.dump(t.elem, lv + '[x_]', lv + '_els_len[x_]')} }}")
        return f"dump_{t.name}(&({lv}), o);"

    def text(self):
        p = self.p
        sub = lambda s, m="": s.replace("@p@", p).replace("@U@", p.upper()).replace("@M@", m)
        out = [sub(PRELUDE)]
        aggs = list(self.P.structs.values()) + list(self.P.messages.values())
        for a in aggs:
            out.append(f"static void load_into_{a.name}(In* i, {p}{a.name}* v); static void dump_{a.name}(const {p}{a.name}* v, Out* o);")
        for a in aggs:
            out.append(f"static void load_into_{a.name}(In* i, {p}{a.name}* v) {{ (void)i; (void)v;")
            out += ["    " + self.load(t, f"v->{n}", f"v->{n}_len") for n, t in a.members]
            out.append(f"}}\nstatic void dump_{a.name}(const {p}{a.name}* v, Out* o) {{ (void)o; (void)v;")
            out += ["    " + self.dump(t, f"v->{n}", f"v->{n}_len") for n, t in a.members] + ["}"]
        names = list(self.P.messages)
        for m in names:
            out.append(f"static {p}{m}* load_{m}(In* i) {{ {p}{m}* v = vf_tmp(sizeof({p}{m})); *v = {p}{m}_default; load_into_{m}(i, v); return v; }}")
            out.append(sub(ONE, m))
        out.append("static void* load_any(uint8_t k, In* i) { switch (k) {")
        out += [f"    case {k}: return load_{m}(i);" for k, m in enumerate(names)]
        out.append(f"    default: vf_panic(); }} }}\nstatic void dump_any(const void* v, Out* o) {{ switch ({p}GetMessageType(v)) {{")
        out += [f"    case {p}MessageType_{m}: put(o, {k}, 1); dump_{m}(v, o); break;" for k, m in enumerate(names)]
        out.append("    default: vf_panic(); } }\nstatic void by_message(uint8_t op, uint8_t k, In* i, Out* o) { switch (k) {")
        out += [f"    case {k}: by_{m}(op, i, o); break;" for k, m in enumerate(names)]
        out.append("    default: vf_panic(); } }")
        out.append(sub(POST))
        return "\n".join(out)


LAZY = 1 << 14        # a block of a size that depends on the input: at most this big (its true size is what accesses are checked against)


def vf_alloc(x, a):
    n = a[0]
    if symcore.is_sym(n):
        if x.ctx.branch(z3.UGT(n, LAZY)):
            return 0
        p = x.alloc(LAZY)
        x.find(p, 0).sn = n
        return p
    if n > 1 << 26:
        return 0
    return x.alloc(n)


def vf_free(x, a):
    p = x.conc(a[0])
    if p:
        x.free(p)


def vf_realloc(x, a):
    p, n = x.conc(a[0]), x.conc(a[1])
    q = x.alloc(n)
    if p:
        o = x.find(p, 0)
        if o.a != p or o.kind != "heap":
            raise Trap("invalid realloc")
        x.write_bytes(q, list(x.read_bytes(p, min(o.n, n))))
        x.free(p)
    return q


def vf_tmp(x, a):
    return x.alloc(x.conc(a[0]), kind="tmp")


def vf_panic(x, a):
    raise Trap("inconsistent result (message type, size, terminator or position)")


def cmem(x, a):
    n = x.conc(a[2])
    p, q = (list(x.read_bytes(x.conc(a[k]), n)) for k in (0, 1))
    for b, c in zip(p, q):
        if x.ctx.branch(norm_b(symcore.bv(b, 8) != symcore.bv(c, 8))):
            return 1 if x.ctx.branch(norm_b(z3.UGT(symcore.bv(b, 8), symcore.bv(c, 8)))) else 0xffffffff
    return 0


def cstrlen(x, a):
    p, n = x.conc(a[0]), 0
    while x.ctx.branch(norm_b(symcore.bv(x.load_word(p + n, 1), 8) != 0)):
        n += 1
    return n


class C(llvm_shim.ShimLang):
    name, letter = "c", "C"
    offsets = views = pos = short = True

    def window(self, data, pre, post):
        return llvm_shim.u32(len(pre)) + llvm_shim.u32(len(data)) + list(pre) + list(data) + list(post)

    def build_ir(self, proto, wd, src):
        p = lambda n: os.path.join(wd, n)
        os.replace(src, p("gen.h"))
        open(p("shim.c"), "w").write(Shim(proto).text())
        open(p("main.c"), "w").write('#include "shim.c"\n' + MAIN)
        rc, so, se = common.sh(["clang", *FLAGS, "-S", "-emit-llvm", "-o", p("m.ll"), p("shim.c")], timeout=120, cwd=wd)
        if rc:
            raise CompileError("clang rejects the generated code or the shim that uses it:\n" + (so + se)[:2500])
        return p("m.ll")

    def hooks(self):
        return {"vf_alloc": vf_alloc, "vf_free": vf_free, "vf_realloc": vf_realloc, "vf_tmp": vf_tmp, "vf_panic": vf_panic,
                "memcmp": cmem, "bcmp": cmem, "strlen": cstrlen, "*": []}

    def build_native(self, wd):
        p = lambda n: os.path.join(wd, n)
        rc, so, se = common.sh(["gcc", "-std=gnu99", "-g", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-o", p("replay"), p("main.c")],
                               timeout=120, cwd=wd)
        if rc:
            raise RuntimeError("replay program does not build: " + se[:1500])
        return p("replay")


def run(prop, rep, tier):
    rep.assumptions += ["clang's lowering (-O1) keeps the behaviour of the source; an allocation fails where the check makes it fail, or when it asks for more than the model grants"]
    codec.run(C(), prop, rep, tier)
