"""C: CBMC on the header beschi generates, against a reference codec written from the protocol text.

Every harness is one C file: it draws a symbolic message (all scalar bits, list counts and string lengths
within the bounds are solver variables), runs the generated code on it and asserts the documented effect.
The same file compiled with -DREPLAY is the replay of a counterexample on the real code (gcc, ASan/UBSan).
"""
import json
import os
import re
import time

import common
import shapes
import spec
from common import CheckError, GenError

NATIVE = {"byte": "uint8_t", "bool": "bool", "uint16": "uint16_t", "int16": "int16_t", "uint32": "uint32_t",
          "int32": "int32_t", "uint64": "uint64_t", "int64": "int64_t", "float": "float", "double": "double"}

PRELUDE = r'''
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#ifdef REPLAY
#include <stdio.h>
static uint64_t nd_vals[] = {
#include "values.inc"
0};
static size_t nd_n = sizeof(nd_vals)/sizeof(nd_vals[0]) - 1, nd_i = 0;
static uint64_t nd_raw(void) { uint64_t v = nd_i < nd_n ? nd_vals[nd_i] : 0; nd_i++; return v; }
#define CHECK(c, l) do { if (!(c)) { printf("CHECK-FAILED %s\n", l); fflush(stdout); exit(1); } } while (0)
#define ASSUME(c) do { if (!(c)) { printf("ASSUMPTION-FALSE %s\n", #c); exit(3); } } while (0)
#define REACH() do { printf("REACHED\n"); } while (0)
static void* vf_malloc(size_t n) { unsigned char* p = (unsigned char*)malloc(n); for (size_t i = 0; i < n; i++) p[i] = 0xA5; return p; }
#define VIEW(k, mx) ((uint8_t*)vf_malloc(k))
#else
/* memcpy as the byte loop it is: CBMC's own model copies whole objects and is far slower here */
static void* vf_memcpy(void* d, const void* s, size_t n) {
    for (size_t i = 0; i < n; i++) ((unsigned char*)d)[i] = ((const unsigned char*)s)[i];
    return d;
}
/* into an integer: one typed store of the little-endian value (the same effect; keeps constants constant) */
#define VF_CP(T) static void* vf_cp_##T(T* d, const void* s, size_t n) { \
    const unsigned char* b = (const unsigned char*)s; uint64_t v = 0; \
    if (n != sizeof(T)) return vf_memcpy(d, s, n); \
    for (size_t i = 0; i < sizeof(T); i++) v |= (uint64_t)b[i] << (8 * i); \
    *d = (T)v; return d; }
VF_CP(uint16_t) VF_CP(int16_t) VF_CP(uint32_t) VF_CP(int32_t) VF_CP(uint64_t) VF_CP(int64_t)
#define memcpy(d, s, n) _Generic((d), uint16_t*: vf_cp_uint16_t, int16_t*: vf_cp_int16_t, uint32_t*: vf_cp_uint32_t, \
    int32_t*: vf_cp_int32_t, uint64_t*: vf_cp_uint64_t, int64_t*: vf_cp_int64_t, default: vf_memcpy)((d), (s), (n))
uint64_t nondet_u64(void);
static uint64_t nd_raw(void) { uint64_t nd_v = nondet_u64(); return nd_v; }
#define CHECK(c, l) __CPROVER_assert(c, "VF:" l)
#define ASSUME(c) __CPROVER_assume(c)
#define REACH() __CPROVER_assert(0, "VFREACH")
#define VIEW(k, mx) (store + ((mx) - (k)))
#define vf_malloc(n) malloc(n)   /* allocation does not fail: --no-malloc-may-fail */
#endif
static int vf_valid = 1;
/* enum members: all symbolic (en_sym), or every one a fixed valid value (rotated by en_var) except number en_bad */
static int en_sym = 1; static size_t en_var = 0, en_bad = 999, en_i = 0;
static size_t LENS[64]; static size_t li = 0;
static size_t nd_len(void) { size_t v = LENS[li]; li++; return v; }
static void nd_fill(void* p, size_t n) { uint64_t v = nd_raw(); memcpy(p, &v, n); }
static size_t put(uint8_t* o, size_t p, uint64_t v, size_t n) {
    for (size_t b = 0; b < n; b++) { o[p + b] = (uint8_t)(v >> (8 * b)); }
    return p + n;
}
static uint64_t bits_f(float f) { uint32_t v; memcpy(&v, &f, 4); return v; }
static uint64_t bits_d(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static int eq_bytes(const char* a, const char* b, size_t n) {
    for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return 0; }
    return 1;
}
'''


class Gen:
    """Writes the harness functions for one protocol."""

    def __init__(self, proto):
        self.P = proto
        ns = proto.namespace
        self.pf = (ns if ns else "beschi") + "_"
        self.U = self.pf.upper()
        self.lsz = NATIVE[proto.list_size]
        self.ssz = NATIVE[proto.string_size]

    def ctype(self, t):
        if t.kind == "num":
            return NATIVE[t.name]
        if t.kind == "string":
            return "char*"
        return self.pf + t.name

    def enc_size(self, t, sk):
        if t.kind in ("num", "enum"):
            return t.size
        if t.kind == "string":
            return spec.NUM[self.P.string_size][0] + sk
        if t.kind == "list":
            return spec.NUM[self.P.list_size][0] + sum(self.enc_size(t.elem, e) for e in sk)
        return sum(self.enc_size(m, sk[n]) for n, m in t.ref.members)

    def msg_size(self, msg, sk):
        return sum(self.enc_size(t, sk[n]) for n, t in self.P.messages[msg].members)

    def nd(self, t, lv, d=0):
        """statements giving lv an arbitrary value of type t; lengths are the fork's"""
        if t.kind == "num":
            if t.name == "bool":
                return f"{lv} = (nd_raw() & 1) != 0;"
            if t.name in ("float", "double"):
                return f"nd_fill(&({lv}), {t.size});"
            return f"{lv} = ({NATIVE[t.name]})nd_raw();"
        if t.kind == "enum":
            enc = NATIVE[t.ref.encoding]
            lit = lambda v: str(v) if v > -2**31 else "(-2147483647-1)"
            ok = " || ".join(f"e_ == {lit(v)}" for _, v in t.ref.values)
            tbl = ", ".join(lit(v) for _, v in t.ref.values)
            return (f"{{ {enc} e_; static const int32_t t_[] = {{ {tbl} }}; "
                    f"if (en_sym || en_i == en_bad) {{ e_ = ({enc})nd_raw(); if (!({ok})) vf_valid = 0; }} "
                    f"else {{ e_ = ({enc})t_[(en_i + en_var) % {len(t.ref.values)}]; }} en_i++; "
                    f"{lv} = ({self.pf}{t.name})e_; }}")
        if t.kind == "string":
            return (f"{{ size_t n_ = nd_len(); char* s_ = (char*)vf_malloc(n_ + 1); "
                    f"for (size_t c_ = 0; c_ < n_; c_++) {{ s_[c_] = (c_ < 4 || c_ + 1 == n_) ? (char)nd_raw() : 'x'; }} s_[n_] = 0; "
                    f"{lv} = s_; {self.lenof(lv)} = ({self.ssz})n_; }}")
        if t.kind == "list":
            ct = self.ctype(t.elem)
            els = ""
            if t.elem.kind == "string":
                els = f"{lv}_els_len = vf_malloc(sizeof(*({lv}_els_len)) * n{d}_);"
            ix = f"x{d}_"
            body = self.nd(t.elem, f'{lv}[{ix}]', d+1)
            if t.elem.kind == "num":
                body = f"if ({ix} < 4 || {ix} + 1 == n{d}_) {{ {body} }} else {{ {lv}[{ix}] = 0; }}"
            return (f"{{ size_t n{d}_ = nd_len(); {lv}_len = ({self.lsz})n{d}_; "
                    f"{lv} = ({ct}*)vf_malloc(sizeof({ct}) * n{d}_); {els} "
                    f"for (size_t {ix} = 0; {ix} < n{d}_; {ix}++) {{ {body} }} }}")
        return f"nd_{t.name}(&({lv}));"

    @staticmethod
    def lenof(lv):
        m = re.match(r"(.*)\[(x\d+_)\]$", lv)
        return f"{m.group(1)}_els_len[{m.group(2)}]" if m else f"{lv}_len"

    def ref(self, t, lv, d=0):
        if t.kind == "num":
            v = {"float": f"bits_f({lv})", "double": f"bits_d({lv})", "bool": f"(({lv}) ? 1u : 0u)"}.get(
                t.name, f"(uint64_t)({lv})")
            return f"p = put(o, p, {v}, {t.size});"
        if t.kind == "enum":
            return f"p = put(o, p, (uint64_t)(int64_t)({lv}), {t.size});"
        if t.kind == "string":
            n = self.lenof(lv)
            return (f"{{ size_t n_ = nd_len(); p = put(o, p, (uint64_t)n_, {spec.NUM[self.P.string_size][0]}); "
                    f"for (size_t c_ = 0; c_ < n_; c_++) {{ o[p] = (uint8_t)(({lv})[c_]); p++; }} }}")
        if t.kind == "list":
            ix = f"x{d}_"
            return (f"{{ size_t n{d}_ = nd_len(); p = put(o, p, (uint64_t)n{d}_, {spec.NUM[self.P.list_size][0]}); "
                    f"for (size_t {ix} = 0; {ix} < n{d}_; {ix}++) {{ {self.ref(t.elem, f'{lv}[{ix}]', d+1)} }} }}")
        return f"p = ref_{t.name}(o, p, &({lv}));"

    def eq(self, t, a, b, d=0):
        """a: the original (lengths known), b: what was read"""
        if t.kind == "num":
            if t.name == "float":
                return f"if (bits_f({a}) != bits_f({b})) return 0;"
            if t.name == "double":
                return f"if (bits_d({a}) != bits_d({b})) return 0;"
            return f"if (({a}) != ({b})) return 0;"
        if t.kind == "enum":
            return f"if (({a}) != ({b})) return 0;"
        if t.kind == "string":
            return (f"{{ size_t n_ = nd_len(); if ((size_t){self.lenof(b)} != n_) return 0; "
                    f"if (!eq_bytes({a}, {b}, n_)) return 0; }}")
        if t.kind == "list":
            ix = f"x{d}_"
            return (f"{{ size_t n{d}_ = nd_len(); if ((size_t){b}_len != n{d}_) return 0; "
                    f"for (size_t {ix} = 0; {ix} < n{d}_; {ix}++) {{ {self.eq(t.elem, f'{a}[{ix}]', f'{b}[{ix}]', d+1)} }} }}")
        return f"if (!eq_{t.name}(&({a}), &({b}))) return 0;"

    def functions(self):
        out = []
        order, seen = [], set()

        def visit(s):
            if s in seen:
                return
            seen.add(s)
            for _, t in self.P.structs[s].members:
                while t.kind == "list":
                    t = t.elem
                if t.kind == "struct":
                    visit(t.name)
            order.append(s)
        for s in self.P.structs:
            visit(s)
        for n in order:
            out += self.agg_functions(self.P.structs[n])
        for m in self.P.messages.values():
            out += self.agg_functions(m)
        return "\n".join(out)

    def agg_functions(self, a):
        ct = self.pf + a.name
        o = [f"static void nd_{a.name}({ct}* v) {{ (void)v;"]
        if a.is_message:
            o.append(f"v->_mt = {self.pf}MessageType_{a.name};")
        o += ["  " + self.nd(t, f"v->{n}") for n, t in a.members] + ["}"]
        o += [f"static size_t ref_{a.name}(uint8_t* o, size_t p, const {ct}* v) {{ (void)o; (void)v;"]
        o += ["  " + self.ref(t, f"v->{n}") for n, t in a.members] + ["  return p; }"]
        o += [f"static int eq_{a.name}(const {ct}* a, const {ct}* b) {{ (void)a; (void)b;"]
        o += ["  " + self.eq(t, f"a->{n}", f"b->{n}") for n, t in a.members] + ["  return 1; }"]
        return o

    def head(self, header):
        return (PRELUDE + f"#define {self.U}MALLOC(n) vf_malloc(n)\n"
                f"#define {self.U}REALLOC(p, n) realloc(p, n)\n#define {self.U}FREE(p) free(p)\n"
                f"#define {self.U}IMPLEMENTATION\n#include \"{header}\"\n" + self.functions())

    def main(self, body_fn, calls):
        """calls: [(lens, args text)]"""
        o = [body_fn, "int main(void) {"]
        for i, (ln, args, *en) in enumerate(calls):
            sym, var, bad = en[0] if en else (0, i, 999)
            o.append("    " + " ".join(f"LENS[{i}] = {v};" for i, v in enumerate(ln))
                     + f" en_sym = {sym}; en_var = {var % 60}; en_bad = {bad}; run({args});")
        o.append("    REACH();\n    return 0;\n}")
        return "\n".join(o)

    # ---- the harnesses -----------------------------------------------------
    def h_write(self, msg, sks, short):
        """short False: enough room (bytes and size exact). True: the buffer is too small."""
        pf, tag, U = self.pf, self.P.tag[msg], self.U
        mem = self.P.messages[msg].members
        mx = max(self.msg_size(msg, sk) for sk in sks) + 8
        common_ = f'''
    {pf}{msg} v; li = 0; en_i = 0; vf_valid = 1; nd_{msg}(&v); ASSUME(vf_valid);
    static uint8_t exp_[{mx}];
    size_t n = 0; if (tag) {{ exp_[0] = {tag}; n = 1; }}
    li = 0; n = ref_{msg}(exp_, n, &v);
    {pf}err_t err; {pf}DataAccess w;'''
        if not short:
            body = f'''
static void run(int tag, int generic, size_t p0, size_t slack) {{{common_}
    size_t sz = 99999;
    err = generic ? {pf}GetSizeInBytes(&v, &sz) : {pf}{msg}_GetSizeInBytes(&v, &sz);
    CHECK(err == {U}ERR_OK, "measuring succeeds");
    CHECK(sz == n - (size_t)tag, "GetSizeInBytes equals the encoded size");
    CHECK({pf}GetMessageType(&v) == {pf}MessageType_{msg}, "GetMessageType identifies the message");
    size_t k = p0 + n + slack;
    static uint8_t store[{mx}]; uint8_t* base = VIEW(k, {mx});
    for (size_t i = 0; i < p0; i++) base[i] = 0x5A;
    for (size_t i = p0 + n; i < k; i++) base[i] = 0x5A;
    w.buffer = base; w.bufferSize = k; w.position = p0;
    err = generic ? {pf}WriteBytes(&w, &v, tag != 0) : {pf}{msg}_WriteBytes(&w, &v, tag != 0);
    CHECK(err == {U}ERR_OK, "a write that fits succeeds");
    CHECK(w.position == p0 + n, "the position advances by the encoded size");
    int same = 1, kept = 1;
    for (size_t i = 0; i < n; i++) same &= base[p0 + i] == exp_[i];
    for (size_t i = 0; i < p0; i++) kept &= base[i] == 0x5A;
    for (size_t i = p0 + n; i < k; i++) kept &= base[i] == 0x5A;
    CHECK(same, "the bytes are the documented encoding");
    CHECK(kept, "bytes outside the message are untouched");
}}'''
            calls = []
            for i, sk in enumerate(sks):
                L = shapes.msg_lens(mem, sk)
                calls.append((L, f"{i & 1}, {(i >> 1) & 1}, {(i % 3)}, {(i + 1) % 2}", (1, 0, 999)))
            L = shapes.msg_lens(mem, sks[-1])
            calls += [(L, f"{t}, {g}, {t}, {g}", (1, 0, 999)) for t in (0, 1) for g in (0, 1)]
            return self.main(body, calls)
        body = f'''
static void run(int tag, int generic, size_t p0) {{{common_}
    for (size_t room = 0; room < n; room++) {{
        size_t k = p0 + room;
        static uint8_t store[{mx}]; uint8_t* base = VIEW(k, {mx});
        w.buffer = base; w.bufferSize = k; w.position = p0;
        err = generic ? {pf}WriteBytes(&w, &v, tag != 0) : {pf}{msg}_WriteBytes(&w, &v, tag != 0);
        CHECK(err != {U}ERR_OK, "a write that does not fit reports an error");
    }}
}}'''
        return self.main(body, [(shapes.msg_lens(mem, sk), f"{i & 1}, {(i >> 1) & 1}, {i % 3}", (1, 0, 999)) for i, sk in enumerate(sks)])

    def h_read(self, msg, sks, bad, cuts=True):
        """bad False: complete valid bytes read back as the value. True: a strict prefix, or an enum
        value outside the protocol, is an error."""
        pf, U = self.pf, self.U
        mem = self.P.messages[msg].members
        mx = max(self.msg_size(msg, sk) for sk in sks) + 8
        common_ = f'''
    {pf}{msg} v; li = 0; en_i = 0; vf_valid = 1; nd_{msg}(&v);
    static uint8_t enc_[{mx}];
    li = 0; size_t n = ref_{msg}(enc_, 0, &v);
    {pf}err_t err; {pf}DataAccess r;'''
        if not bad:
            body = f'''
static void run(size_t p0, size_t extra) {{{common_}
    ASSUME(vf_valid);
    size_t k = p0 + n + extra;
    static uint8_t store[{mx}]; uint8_t* base = VIEW(k, {mx});
    for (size_t i = 0; i < n; i++) base[p0 + i] = enc_[i];
    r.buffer = base; r.bufferSize = k; r.position = p0;
    {pf}{msg} d;
    err = {pf}{msg}_FromBytes(&r, &d);
    CHECK(err == {U}ERR_OK, "valid input reads without error");
    li = 0; CHECK(eq_{msg}(&v, &d), "the value read is the value encoded");
    CHECK(r.position == p0 + n, "reading consumes exactly the message");
    CHECK({pf}GetMessageType(&d) == {pf}MessageType_{msg}, "the message read is tagged with its type");
    CHECK({pf}IsFinished(&r) == (extra == 0), "IsFinished tells whether bytes remain");
}}'''
            calls = [(shapes.msg_lens(mem, sk), f"{i % 3}, {(i + 1) % 2}") for i, sk in enumerate(sks)]
            if _has_enum(mem):
                calls += [(shapes.msg_lens(mem, sks[-1]), "0, 0", (0, v, 999)) for v in range(4)]
            return self.main(body, calls)
        has_enum = _has_enum(mem)
        body = f'''
static void run(size_t p0, int cuts) {{{common_}
    {pf}{msg} d;
    if (!cuts) {{
        ASSUME(!vf_valid);
        static uint8_t store[{mx}]; uint8_t* base = VIEW(p0 + n, {mx});
        for (size_t i = 0; i < n; i++) base[p0 + i] = enc_[i];
        r.buffer = base; r.bufferSize = p0 + n; r.position = p0;
        err = {pf}{msg}_FromBytes(&r, &d);
        CHECK(err != {U}ERR_OK, "a value outside the enum reports an error");
        return;
    }}
    for (size_t cut = 1; cut <= n; cut++) {{
        size_t k = p0 + n - cut;
        static uint8_t store[{mx}]; uint8_t* base = VIEW(k, {mx});
        for (size_t i = 0; i < n - cut; i++) base[p0 + i] = enc_[i];
        r.buffer = base; r.bufferSize = k; r.position = p0;
        err = {pf}{msg}_FromBytes(&r, &d);
        CHECK(err != {U}ERR_OK, "truncated input reports an error");
    }}
}}'''
        calls = []
        for i, sk in enumerate(sks):
            L = shapes.msg_lens(mem, sk)
            calls.append((L, f"{i % 2}, 1"))
        return body, calls, [(shapes.msg_lens(mem, sk), f"{i % 2}, 0", (0, i, q))
                             for i, sk in enumerate(sks) for q in range(count_enums(mem, sk))]

    def default_checks(self, members, a, out):
        for n, t in members:
            lv = f"{a}{n}"
            if t.kind == "num":
                z = {"float": f"bits_f({lv}) == 0", "double": f"bits_d({lv}) == 0"}.get(t.name, f"{lv} == 0")
                out.append(f'CHECK({z}, "{n} starts as zero");')
            elif t.kind == "enum":
                out.append(f'CHECK({lv} == {self.pf}{t.name}_{t.ref.values[0][0]}, "{n} starts as the first enum entry");')
            elif t.kind in ("string", "list"):
                out.append(f'CHECK({lv}_len == 0, "{n} starts empty");')
            else:
                self.default_checks(t.ref.members, lv + ".", out)

    def h_create(self, msg):
        pf = self.pf
        chk = []
        self.default_checks(self.P.messages[msg].members, "m->", chk)
        d = self.P.encode_msg(msg, self.P.default_msg(msg))
        dv = " && ".join([f"buf[{i}] == {b}" for i, b in enumerate(d)] or ["1"])
        return f'''
int main(void) {{
    {pf}{msg}* m = {pf}{msg}_Create();
    CHECK(m != NULL, "Create allocates");
    CHECK({pf}GetMessageType(m) == {pf}MessageType_{msg}, "Create identifies the message");
    {chr(10).join("    " + c for c in chk)}
    static uint8_t buf[{len(d) + 1}];
    {pf}DataAccess w; w.buffer = buf; w.bufferSize = {len(d)}; w.position = 0;
    CHECK({pf}{msg}_WriteBytes(&w, m, false) == {self.U}ERR_OK && w.position == {len(d)}, "a created message can be written");
    CHECK({dv}, "a created message encodes the documented defaults");
    {pf}{msg} c = {pf}{msg}_default; w.position = 0;
    CHECK({pf}{msg}_WriteBytes(&w, &c, false) == {self.U}ERR_OK && w.position == {len(d)}, "the default constant can be written");
    CHECK({dv}, "the default constant encodes the documented defaults");
    int how = (int)(nd_raw() & 1);
    if (how) {pf}{msg}_Destroy(m); else {pf}Destroy(m);
    {pf}{msg}_Cleanup(&c);
    m = NULL;
    REACH();
    return 0;
}}
'''

    def h_lifecycle(self, msg, sks):
        """read (valid bytes), then release by each documented way: nothing freed twice, nothing leaked"""
        pf, tag, U = self.pf, self.P.tag[msg], self.U
        mem = self.P.messages[msg].members
        mx = max(self.msg_size(msg, sk) for sk in sks) + 8
        body = f'''
static void run(int how) {{
    static uint8_t enc_[{mx}];
    {pf}{msg} v; li = 0; en_i = 0; vf_valid = 1; nd_{msg}(&v); ASSUME(vf_valid);
    enc_[0] = {tag}; li = 0; size_t n = ref_{msg}(enc_, 1, &v);
    {pf}{msg}_Cleanup(&v);
    {pf}DataAccess r; r.buffer = enc_; r.bufferSize = n; r.position = 1;
    if (how == 0) {{
        {pf}{msg} d; CHECK({pf}{msg}_FromBytes(&r, &d) == {U}ERR_OK, "valid input reads");
        {pf}{msg}_Cleanup(&d);
    }} else if (how == 1) {{
        {pf}{msg}* d = ({pf}{msg}*)vf_malloc(sizeof({pf}{msg}));
        CHECK({pf}{msg}_FromBytes(&r, d) == {U}ERR_OK, "valid input reads");
        {pf}{msg}_Destroy(d); d = NULL;
    }} else if (how == 2) {{
        {pf}{msg}* d = ({pf}{msg}*)vf_malloc(sizeof({pf}{msg}));
        CHECK({pf}{msg}_FromBytes(&r, d) == {U}ERR_OK, "valid input reads");
        CHECK({pf}Destroy(d) == {U}ERR_OK, "Destroy succeeds"); d = NULL;
    }} else {{
        void** l = NULL; size_t ln = 0; r.position = 0;
        CHECK({pf}ProcessRawBytes(&r, -1, &l, &ln) == {U}ERR_OK && ln == 1, "the stream reads");
        if (ln == 1) {{ CHECK({pf}DestroyMessageList(l, ln) == {U}ERR_OK, "DestroyMessageList succeeds"); }}
        l = NULL;
    }}
}}'''
        return self.main(body, [(shapes.msg_lens(mem, sk), f"{h}") for sk in sks for h in range(4)])

    def h_failed(self, msg, sk, how):
        """a read that fails (input cut short) leaves a message, or a list, that can be destroyed"""
        pf, tag, U = self.pf, self.P.tag[msg], self.U
        mem = self.P.messages[msg].members
        mx = self.msg_size(msg, sk) + 8
        body = f'''
static void run(int how) {{
    static uint8_t enc_[{mx}];
    {pf}{msg} v; li = 0; en_i = 0; vf_valid = 1; nd_{msg}(&v); ASSUME(vf_valid);
    enc_[0] = {tag}; li = 0; size_t n = ref_{msg}(enc_, 1, &v);
    {pf}{msg}_Cleanup(&v);
    for (size_t k = 1; k < n; k++) {{
        static uint8_t store[{mx}]; uint8_t* base = VIEW(k, {mx});
        for (size_t i = 0; i < k; i++) base[i] = enc_[i];
        {pf}DataAccess r; r.buffer = base; r.bufferSize = k; r.position = 1;
        if (how == 0) {{
            {pf}{msg}* d = ({pf}{msg}*)vf_malloc(sizeof({pf}{msg}));
            CHECK({pf}{msg}_FromBytes(&r, d) != {U}ERR_OK, "truncated input reports an error");
            {pf}{msg}_Destroy(d); d = NULL;
        }} else {{
            void** l = NULL; size_t ln = 0; r.position = 0;
            {pf}err_t err = {pf}ProcessRawBytes(&r, -1, &l, &ln);
            CHECK(err != {U}ERR_OK, "truncated input reports an error");
            {pf}DestroyMessageList(l, ln); l = NULL;
        }}
#ifdef REPLAY
        free(base);
#endif
    }}
}}'''
        return self.main(body, [(shapes.msg_lens(mem, sk), f"{how}")])

    def stream_values(self, kinds):
        return "\n    ".join(f"{self.pf}{k} m{i}; nd_{k}(&m{i}); list[{i}] = &m{i};" for i, k in enumerate(kinds))

    def refs(self, kinds):
        return "\n    ".join(f"at_[{i}] = n; exp_[n] = {self.P.tag[k]}; n = ref_{k}(exp_, n + 1, &m{i});"
                             for i, k in enumerate(kinds)) + f" at_[{len(kinds)}] = n;"

    def seq_size(self, kinds, sks):
        return max(sum(self.msg_size(k, s) + 1 for k, s in zip(kinds, sk)) for sk in sks)

    def seq_lens(self, kinds, sk):
        return [x for k, s in zip(kinds, sk) for x in shapes.msg_lens(self.P.messages[k].members, s)]

    def backs(self, kinds, cond):
        return "\n        ".join(
            f'if ({cond.format(i=i)}) {{ CHECK({self.pf}GetMessageType(out[{i}]) == {self.pf}MessageType_{k}, "messages keep order and type"); '
            f'CHECK(eq_{k}(&m{i}, ({self.pf}{k}*)out[{i}]), "messages keep their values"); }}' for i, k in enumerate(kinds))

    def seq_common(self, kinds, mx):
        return f'''
    static uint8_t exp_[{mx}]; size_t at_[{len(kinds) + 1}]; void* list[{max(len(kinds), 1)}];
    li = 0; en_i = 0; vf_valid = 1;
    {self.stream_values(kinds)}
    ASSUME(vf_valid);
    size_t n = 0;'''

    def h_pack(self, kinds, sks):
        """PackMessages / GetPackedSize / UnpackMessages for a given sequence of message kinds"""
        pf, n, U = self.pf, len(kinds), self.U
        mx = self.seq_size(kinds, sks) + 16
        body = f'''
static void run(size_t p0) {{{self.seq_common(kinds, mx)}
    exp_[0] = 'B'; exp_[1] = 'S'; exp_[2] = 'C'; exp_[3] = 'I'; n = put(exp_, 4, {n}, 4);
    li = 0;
    {self.refs(kinds)}
    exp_[n] = 0; n++;
    size_t ps = 0;
    CHECK({pf}GetPackedSize(list, {n}, &ps) == {U}ERR_OK, "GetPackedSize succeeds");
    CHECK(ps == n, "GetPackedSize is the packed size");
    {pf}DataAccess w; {pf}err_t err;
    for (size_t room = 0; room < n; room++) {{
        static uint8_t store[{mx}]; uint8_t* small = VIEW(p0 + room, {mx});
        w.buffer = small; w.bufferSize = p0 + room; w.position = p0;
        CHECK({pf}PackMessages(list, {n}, &w) != {U}ERR_OK, "packing into too small a buffer reports an error");
    }}
    static uint8_t store[{mx}]; uint8_t* base = VIEW(p0 + n, {mx});
    for (size_t i = 0; i < p0; i++) base[i] = 0x5A;
    w.buffer = base; w.bufferSize = p0 + n; w.position = p0;
    err = {pf}PackMessages(list, {n}, &w);
    CHECK(err == {U}ERR_OK, "packing succeeds");
    CHECK(w.position == p0 + n, "packing advances by the packed size");
    int same = 1, kept = 1;
    for (size_t i = 0; i < n; i++) same &= base[p0 + i] == exp_[i];
    for (size_t i = 0; i < p0; i++) kept &= base[i] == 0x5A;
    CHECK(same, "the packed bytes are the documented ones");
    CHECK(kept, "bytes before the packed messages are untouched");
    void** out = NULL; size_t outn = 77;
    for (size_t i = 0; i < n; i++) base[p0 + i] = exp_[i];
    w.position = p0;
    err = {pf}UnpackMessages(&w, &out, &outn);
    CHECK(err == {U}ERR_OK, "unpacking what was packed succeeds");
    CHECK(outn == {n}, "unpacking returns every message");
    li = 0;
    if (outn == {n}) {{
        {self.backs(kinds, "1")}
    }}
}}'''
        return self.main(body, [(self.seq_lens(kinds, sk), f"{i % 2}") for i, sk in enumerate(sks)])

    def h_unpack_bad(self, kinds, sks):
        """a packed buffer whose header, count or length is wrong is an error, never a crash"""
        pf, n, U = self.pf, len(kinds), self.U
        mx = self.seq_size(kinds, sks) + 16
        body = f'''
static void run(int what, size_t cut) {{{self.seq_common(kinds, mx)}
    exp_[0] = 'B'; exp_[1] = 'S'; exp_[2] = 'C'; exp_[3] = 'I';
    n = put(exp_, 4, {n}, 4);
    li = 0;
    {self.refs(kinds)}
    exp_[n] = 0; n++;
    if (what == 0) {{         /* another header */
        uint8_t h[4]; for (int i = 0; i < 4; i++) {{ h[i] = (uint8_t)nd_raw(); }}
        ASSUME(h[0] != 'B' || h[1] != 'S' || h[2] != 'C' || h[3] != 'I');
        for (int i = 0; i < 4; i++) exp_[i] = h[i];
    }} else if (what == 1) {{  /* counts more messages than there are */
        put(exp_, 4, {n} + cut, 4); cut = 0;
    }}                         /* otherwise: cut short */
    if (cut > n) return;
    if (what == 2 && {n} == 0 && cut == 1) return;
    size_t k = n - cut;
    static uint8_t store[{mx}]; uint8_t* base = VIEW(k, {mx});
    for (size_t i = 0; i < k; i++) base[i] = exp_[i];
    {pf}DataAccess r; r.buffer = base; r.bufferSize = k; r.position = 0;
    void** out = NULL; size_t outn = 77;
    if (what == 2 && cut == 1) return;   /* only the terminator is missing: every message is there */
    {pf}err_t err = {pf}UnpackMessages(&r, &out, &outn);
    CHECK(err != {U}ERR_OK, "a bad packed buffer reports an error");
}}'''
        calls = []
        for sk in sks:
            L = self.seq_lens(kinds, sk)
            calls += [(L, "0, 0"), (L, "1, 1"), (L, "1, 2")]
            tot = sum(self.msg_size(k, s) + 1 for k, s in zip(kinds, sk)) + 9
            calls += [(L, f"2, {c}") for c in range(2, tot + 1)]
        return self.main(body, calls)

    def h_process(self, kinds, sks, end):
        """ProcessRawBytes over a given sequence; end: 'eof' | 'zero' | 'unknown' | 'cut'"""
        pf, n, U = self.pf, len(kinds), self.U
        mx = self.seq_size(kinds, sks) + 8
        nmsg = len(self.P.messages)
        tail = {"eof": "",
                "zero": "exp_[n] = 0; n++; if (arg) { exp_[n] = (uint8_t)nd_raw(); n++; }",
                "unknown": f"{{ uint8_t t = (uint8_t)nd_raw(); ASSUME(t > {nmsg}); exp_[n] = t; n++; }}",
                "cut": "n -= arg;"}[end]
        verdict = {"unknown": f"max < 0 || max > {n}", "cut": f"max < 0 || max >= {n}"}.get(end, "0")
        body = f'''
static void run(int32_t max, size_t arg) {{{self.seq_common(kinds, mx)}
    li = 0;
    {self.refs(kinds)}
    {tail}
    static uint8_t store[{mx}]; uint8_t* base = VIEW(n, {mx});
    for (size_t i = 0; i < n; i++) base[i] = exp_[i];
    int bad = {verdict};
    size_t want = max < 0 || max > {n} ? {n} : (size_t)max;
    {pf}DataAccess r; r.buffer = base; r.bufferSize = n; r.position = 0;
    void** out = NULL; size_t outn = 77;
    {pf}err_t err = {pf}ProcessRawBytes(&r, max, &out, &outn);
    if (bad) {{
        CHECK(err != {U}ERR_OK, "a malformed stream reports an error");
    }} else {{
        CHECK(err == {U}ERR_OK, "a well-formed stream reads without error");
        CHECK(outn == want, "the stream yields as many messages as asked for and present");
        li = 0;
        if (outn == want) {{
        {self.backs(kinds, "want > {i}")}
        }}
    }}
}}'''
        calls = []
        for sk in sks:
            L = self.seq_lens(kinds, sk)
            if end == "cut":
                last = self.msg_size(kinds[-1], sk[-1])
                calls += [(L, f"{mxv}, {c}") for c in range(1, last + 1) for mxv in (-1, n)]
            else:
                calls += [(L, f"{mxv}, {mxv & 1}") for mxv in range(-1, n + 2)] + [(L, "(-2147483647 - 1), 0"), (L, "2147483647, 1")]
        return self.main(body, calls)


def count_enums(members, sk):
    def cnt(t, k):
        if t.kind == "enum":
            return 1
        if t.kind == "list":
            return sum(cnt(t.elem, e) for e in k)
        if t.kind == "struct":
            return sum(cnt(m, k[n]) for n, m in t.ref.members)
        return 0
    return sum(cnt(t, sk[n]) for n, t in members)


def _has_enum(members):
    for _, t in members:
        while t.kind == "list":
            t = t.elem
        if t.kind == "enum" or (t.kind == "struct" and _has_enum(t.ref.members)):
            return True
    return False


def functions_of(header, pf):
    txt = open(header).read()
    return re.findall(r"^[A-Za-z_][\w\s\*]*?\b(" + re.escape(pf) + r"\w+)\([^;]*\) \{", txt, re.M)


CBMC_BASE = ["cbmc", "--json-ui", "--trace", "--no-standard-checks", "--bounds-check", "--pointer-check",
             "--unwinding-assertions", "--no-malloc-may-fail", "--drop-unused-functions", "--object-bits", "12", "--max-field-sensitivity-array-size"]


def parse_json(out):
    try:
        return json.loads(out)
    except Exception:
        return None


def run_unit(rep, name, gen, header, main, unwind, timeout, extra=(), leak=False, key=None, fieldsens=700):
    """One harness: solve, and on a counterexample replay on the real code."""
    d = common.workdir("c_" + re.sub(r"\W", "_", name))
    src = os.path.join(d, "h.c")
    text = gen.head(os.path.relpath(header, d)) + main
    open(src, "w").write(text)
    cmd = CBMC_BASE + [str(fieldsens), "--unwind", str(unwind), *extra, src]
    if leak:
        cmd.insert(1, "--memory-leak-check")
    t0 = time.time()
    rc, out, err = common.sh(cmd, timeout=timeout, cwd=d, mem_gb=10)
    dt = time.time() - t0
    if os.environ.get("VERIF_DEBUG"):
        print(f"[{dt:6.1f}s] {name} rc={rc}", flush=True)
    js = parse_json(out)
    if js is None or rc not in (0, 10):
        # a header that does not compile is a violation only if a real compiler agrees
        tail = " ".join(re.findall(r"\"messageText\": \"([^\"]*)\"", out)[-1:]) + err[-300:]
        c, o, e = common.sh(["gcc", "-std=c99", "-fsyntax-only", src], timeout=60, cwd=d)
        open(os.path.join(d, "values.inc"), "w").write("")
        if c != 0 and rc != -999:
            c2, o2, e2 = common.sh(["gcc", "-std=c99", "-DREPLAY", "-fsyntax-only", src], timeout=60, cwd=d)
            rep.violation("compile:" + os.path.basename(header)[:-2], f"generated C does not compile: {(e2 or e)[:400]}",
                          {"h.c": text, "header.h": open(header).read(), "compiler.txt": e2 or e})
            return
        rep.error(f"{name}: cbmc gave no verdict (rc {rc}): {tail}")
        return
    results = []
    for item in js:
        if isinstance(item, dict) and "result" in item:
            results = item["result"]
    nq = len(results)
    rep.query(nq, dt)
    reach = [r for r in results if r["description"].startswith("VFREACH")]
    fails = [r for r in results if r["status"] == "FAILURE" and not r["description"].startswith("VFREACH")]
    if not fails and any(r["status"] not in ("SUCCESS", "FAILURE") for r in results):
        rep.error(f"{name}: undecided assertions")
        return
    unwound = [r for r in fails if "unwinding" in r["description"] or "recursion" in r["description"]]
    if unwound and len(unwound) == len(fails):
        rep.error(f"{name}: unwinding bound too small: {unwound[0]['property']}")
        return
    if not fails:
        if not reach or reach[0]["status"] != "FAILURE":
            rep.error(f"{name}: vacuous (end of harness unreachable)")
            return
        with rep.lock:
            rep.vacuity_ok += 1
        rep.unit(name, assertions=nq - 1, seconds=round(dt, 2))
        return
    rep.unit(name, assertions=nq - 1, seconds=round(dt, 2), failed=[f["description"] for f in fails])
    last = ""
    for f in sorted(fails, key=lambda r: "unwinding" in r["description"]):
        vals = []
        for st in f.get("trace", []):
            if st.get("stepType") == "assignment" and st.get("lhs") == "nd_v" and not st.get("hidden"):
                b = st["value"].get("binary")
                if b is not None:
                    vals.append(int(b, 2))
        ok, log = replay(d, src, vals)
        with rep.lock:
            rep.replayed += 1
        if ok:
            rep.violation(key or name, f"{f['description'].replace('VF:', '')} [{name}]; replay: {log.strip().splitlines()[0] if log.strip() else ''}",
                          {"h.c": text, "header.h": open(header).read(), "values.inc": "".join(f"{v}ull," for v in vals),
                           "replay.txt": log,
                           "HOWTO.txt": "gcc -std=c99 -DREPLAY -fsanitize=address,undefined h.c && ./a.out\n"})
            return
        last += f"\n{f['description']}: values {vals[:40]} -> {log[:300]}"
    rep.error(f"{name}: counterexample did not reproduce on the real code: {last}")


def replay(d, src, vals):
    open(os.path.join(d, "values.inc"), "w").write("".join(f"{v}ull," for v in vals))
    exe = os.path.join(d, "replay")
    rc, o, e = common.sh(["gcc", "-std=c99", "-g", "-w", "-DREPLAY", "-fsanitize=address,undefined",
                          "-fno-sanitize-recover=undefined", src, "-o", exe], timeout=120, cwd=d)
    if rc != 0:
        return False, "replay does not compile: " + e[:500]
    rc, o, e = common.sh([exe], timeout=60, cwd=d,
                         env={"ASAN_OPTIONS": "detect_leaks=%d:malloc_fill_byte=165:max_malloc_fill_size=4096" % (1 if "h_leak" in src or "leak" in d else 0)})
    log = (o + "\n" + e)
    if "ASSUMPTION-FALSE" in o:
        return False, log
    if "CHECK-FAILED" in o or "ERROR: AddressSanitizer" in e or "runtime error" in e or "LeakSanitizer" in e or rc not in (0,):
        return True, log
    return False, log


PROTOS = ["scalars", "lists", "enums", "text", "sized_a", "sized_b", "sized_c", "sized_d", "sized_e", "sized_f",
          "nest", "stream", "names", "shadow", "deep"]


def note_functions(rep, p, header, g, main):
    fns = functions_of(header, g.pf)
    body = open(header).read()
    todo = [f for f in fns if re.search(r"\b" + re.escape(f) + r"\(", main)]
    seen = set()
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        m = re.search(r"\b" + re.escape(f) + r"\([^;{]*\) \{\n(.*?)\n\}", body, re.S)
        if m:
            todo += [x for x in fns if x not in seen and re.search(r"\b" + re.escape(x) + r"\(", m.group(1))]
    rep.functions.update(f"{p}.h:{f}" for f in seen)


def run(prop, rep, tier):
    which = os.environ.get("VERIF_ENGINE", "ir,cbmc")
    if "ir" in which:
        import c_ir
        c_ir.run(prop, rep, tier)
    if "cbmc" in which:
        run_cbmc(prop, rep, tier)


def run_cbmc(prop, rep, tier):
    wd = common.workdir("c_gen")
    protos, headers = {}, {}
    for p in (os.environ["VERIF_PROTOS"].split(",") if os.environ.get("VERIF_PROTOS") else PROTOS):
        P = spec.Proto(os.path.join(common.CORPUS, p + ".toml"))
        try:
            headers[p] = common.generate("c", p, wd)
            protos[p] = P
        except GenError as e:
            rep.violation(f"gen:{p}", str(e), {"cmd.txt": " ".join(e.cmd), p + ".toml": P.text})
    jobs = []
    tmo = int(os.environ.get('VERIF_UNIT_TIMEOUT', 0)) or 300 if tier == "quick" else 800
    limit, lc, sc = (16, 2, 2) if tier == "quick" else (80, 3, 3)

    def add(name, p, gen, main, unwind, **kw):
        note_functions(rep, p, headers[p], gen, main)
        kw.setdefault("fieldsens", 64 if prop == "C01" else 700)
        jobs.append(lambda: run_unit(rep, name, gen, headers[p], main, unwind, tmo, **kw))

    def batches(sks, n):
        return [sks[i:i + n] for i in range(0, len(sks), n)]

    exhaustive = {}
    for p, P in protos.items():
        if prop == "C04":
            break
        g = Gen(P)
        for m, a in P.messages.items():
            sks, full = shapes.shapes(a.members, lc, sc, limit if p != "deep" or tier == "thorough" else 6)
            mids = shapes.one_long(a.members, 3, 5)
            if tier == "quick" and prop in ("C03", "C05"):
                cap = 30 if prop == "C03" else 24
                sks = [k for k in sks if shapes.weight(k) <= cap]
                mids = [k for k in mids if shapes.weight(k) <= cap][:4]
            if prop in ("C01", "C02"):
                sks = sks + [k for k in mids if k not in sks]
            exhaustive[f"{p}/{m}"] = f"{len(sks)} length skeletons" + (" (all)" if full else "")
            uw = max(g.msg_size(m, s) for s in sks + mids) + 12
            for bi, b in enumerate(batches(sks, 4 if prop == 'C05' else 8)):
                tail = f" #{bi}" if len(sks) > 8 else ""
                if prop == "C01":
                    add(f"{p}/{m} write{tail}", p, g, g.h_write(m, b, False), uw)
                elif prop == "C02":
                    add(f"{p}/{m} read{tail}", p, g, g.h_read(m, b, False), uw)
                elif prop == "C05" and bi < (2 if tier == "quick" else 99):
                    add(f"{p}/{m} leak{tail}", p, g, g.h_lifecycle(m, b), uw, leak=True)
            if prop == "C03":
                some = sks if tier == "thorough" else [] if p == "deep" else sks[:5]
                for bi, b in enumerate(batches(some, 2) + batches(mids, 2)):
                    body, cuts, bads = g.h_read(m, b, True)
                    add(f"{p}/{m} truncated #{bi}", p, g, g.main(body, cuts), uw)
                    for ci, c in enumerate([] if p == "deep" else (bads[:6] if bi < 2 else []) if tier == "quick" else bads):
                        # one enum member at a time is outside its enum; each its own query
                        add(f"{p}/{m} bad-enum #{bi}.{ci}", p, g, g.main(body, [c]), uw)
                    add(f"{p}/{m} short #{bi}", p, g, g.h_write(m, b, True), uw)
            if prop == "C05":
                for bi, sk in enumerate(sks + mids if tier == "thorough" else sks[1:5] + mids[:2]):
                    if tier == "quick" and (shapes.weight(sk) > 16 or g.msg_size(m, sk) > 60):
                        continue
                    add(f"{p}/{m} failed leak #{bi}", p, g, g.h_failed(m, sk, bi % 2), uw, leak=True)
                add(f"{p}/{m} create", p, g, g.h_create(m), uw + 8, leak=True)
        if prop in ("C01", "C02"):
            add_big(prop, p, P, g, add, tier)
    if prop == "C04" and "stream" in headers:
        stream_jobs(protos["stream"], add, tier)
    rep.bounds = {"IR engine": rep.bounds, "list elements": f"0..{lc}, and 3 for one list at a time wherever it is nested", "string bytes": f"0..{sc}, and 5 for one string at a time",
                  "boundary lengths": "128, 255, 256 (quick); 127..129, 255..257, 300 (thorough)",
                  "length skeletons per message": limit, "skeletons": exhaustive,
                  "scalars, enum values, string bytes": "all bit patterns (solver variables)",
                  "truncations / short buffers": "every length"}
    rep.assumptions = ["allocation succeeds", "little-endian LP64 target (as the C documentation states)",
                       "CBMC 6.11 C semantics and memory model"]
    rep.samples = [f"{k}: {v}" for k, v in list(exhaustive.items())[:6]] or ["stream sequences"]
    common.pmap(lambda j: j(), jobs)


def add_big(prop, p, P, g, add, tier):
    if not (p.startswith("sized") or p in ("text", "lists")):
        return
    lim = {"byte": 255, "int16": 32767, "uint16": 65535}
    for m, a in P.messages.items():
        tops = [(n, t) for n, t in a.members if t.kind == "string" or (t.kind == "list" and t.elem.kind == "num")]
        if not tops or m not in ("Both", "One", "Small"):
            continue
        for n, t in tops:
            mx = lim.get(P.string_size if t.kind == "string" else P.list_size, 10**9)
            if tier == "quick" and p == "lists" and n == "b":
                continue
            quick = [128, 255] if mx == 255 else [256]
            for L in (quick if tier == "quick" else [127, 128, 129, 255, 256, 257, 300]):
                if L > mx:
                    continue
                sk = {k: shapes.uniform(kt, 1) for k, kt in a.members}
                sk[n] = L if t.kind == "string" else [None] * L
                main = g.h_write(m, [sk], False) if prop == "C01" else g.h_read(m, [sk], False)
                add(f"{p}/{m} {n}={L}", p, g, main, g.msg_size(m, sk) + 20)


def stream_jobs(P, add, tier):
    import itertools
    g = Gen(P)
    ms = list(P.messages)
    seqs = [()] + [(a,) for a in ms] + list(itertools.product(ms, repeat=2))
    if tier == "thorough":
        seqs += list(itertools.product(ms, repeat=3))
    else:
        seqs += [("Tiny", "Empty", "Word"), ("Seq", "Word", "Tiny")]
    for s in seqs:
        nm = "+".join(s) or "none"
        opts = [[{n: shapes.uniform(t, k) for n, t in P.messages[m].members} for m in s] for k in ((1, 2) if s else (0,))]
        if len(s) > 1:
            opts.append([{n: shapes.uniform(t, (i + 1) % 2) for n, t in P.messages[m].members} for i, m in enumerate(s)])
        uw = g.seq_size(s, opts) + 24
        add(f"pack {nm}", "stream", g, g.h_pack(s, opts), uw)
        add(f"unpack-bad {nm}", "stream", g, g.h_unpack_bad(s, opts[:1]), uw)
        for end in ("eof", "zero", "unknown") + (("cut",) if s and s[-1] != "Empty" else ()):
            add(f"process {nm} {end}", "stream", g, g.h_process(s, opts[:2], end), uw)
    long_ = ("Empty",) * 9 + ("Tiny",)     # more messages than the result list first holds
    sk = [[{n: None for n, _ in P.messages[m].members} for m in long_]]
    add("process long", "stream", g, g.h_process(long_, sk, "eof"), 60)
    add("pack long", "stream", g, g.h_pack(long_, sk), 60)
