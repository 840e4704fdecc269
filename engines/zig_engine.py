"""Zig: symbolic execution of the generated module at the level of the LLVM IR zig makes of it (ReleaseSafe: bounds, overflow and cast
checks on) together with a small generated shim; lib/llvmsym.py executes the IR.  The same shim, compiled natively, replays cases."""
import os
import re

import codec
import common
import llvm_shim
import symcore
import z3
from symcore import norm_b
from codec import CompileError
from llvmsym import Trap

ZIG = "/opt/venv/bin/zig"
FLAGS = ["-O", "ReleaseSafe", "-fstrip", "-fno-error-tracing", "-fno-stack-check", "-fno-stack-protector", "-fsingle-threaded", "-target", "x86_64-linux-gnu",
         "-mcpu", "x86_64"]

SHIM = r'''
const std = @import("std");
const gen = @import("gen.zig");

extern fn vf_alloc(n: usize, a: usize) ?[*]u8;
extern fn vf_free(p: [*]u8, n: usize) void;
extern fn vf_tmp(n: usize) [*]u8;
extern fn vf_panic() noreturn;

pub fn panic(_: []const u8, _: ?*std.builtin.StackTrace, _: ?usize) noreturn { vf_panic(); }

var fail_at: usize = 0;
var state: u8 = 0;

fn do_alloc(_: *anyopaque, n: usize, la: u8, _: usize) ?[*]u8 {
    if (fail_at > 0) { fail_at -= 1; if (fail_at == 0) return null; }
    return vf_alloc(n, @as(usize, 1) << @as(u6, @intCast(la)));
}
fn do_resize(_: *anyopaque, _: []u8, _: u8, _: usize, _: usize) bool { return false; }
fn do_free(_: *anyopaque, b: []u8, _: u8, _: usize) void { vf_free(b.ptr, b.len); }
const vtable = std.mem.Allocator.VTable{ .alloc = do_alloc, .resize = do_resize, .free = do_free };
const allocator = std.mem.Allocator{ .ptr = &state, .vtable = &vtable };

const In = struct {
    s: []u8,
    p: usize = 0,
    fn take(self: *In, n: usize) []u8 { const r = self.s[self.p..][0..n]; self.p += n; return r; }
    fn num(self: *In, comptime T: type) T { return std.mem.readInt(T, self.take(@sizeOf(T))[0..@sizeOf(T)], .little); }
    fn len(self: *In) usize { return self.num(u32); }
};
const Out = struct {
    p: []u8,
    n: usize = 0,
    fn put(self: *Out, b: []const u8) void { for (b) |c| { self.p[self.n] = c; self.n += 1; } }
    fn num(self: *Out, comptime T: type, v: T) void { std.mem.writeInt(T, self.p[self.n..][0..@sizeOf(T)], v, .little); self.n += @sizeOf(T); }
};

fn tmp(comptime T: type, n: usize) []T {
    const p: [*]T = @ptrCast(@alignCast(vf_tmp(n * @sizeOf(T) + 1)));
    return p[0..n];
}

fn UInt(comptime T: type) type { return std.meta.Int(.unsigned, 8 * @sizeOf(T)); }

fn load(comptime T: type, i: *In) T {
    switch (@typeInfo(T)) {
        .Int, .Float => return @bitCast(i.num(UInt(T))),
        .Bool => return i.num(u8) != 0,
        .Enum => |e| return @enumFromInt(load(e.tag_type, i)),
        .Pointer => |p| {
            const n = i.len();
            if (p.child == u8) return i.take(n);
            const s = tmp(p.child, n);
            for (s) |*e| e.* = load(p.child, i);
            return s;
        },
        .Struct => {
            var r = T{};
            inline for (comptime order(T)) |f| @field(r, f) = load(@TypeOf(@field(r, f)), i);
            return r;
        },
        else => @compileError("shim: type"),
    }
}

fn dump(comptime T: type, v: T, o: *Out) void {
    switch (@typeInfo(T)) {
        .Int, .Float => o.num(UInt(T), @bitCast(v)),
        .Bool => o.num(u8, @intFromBool(v)),
        .Enum => |e| dump(e.tag_type, @intFromEnum(v), o),
        .Pointer => |p| {
            o.num(u32, @intCast(v.len));
            for (v) |e| dump(p.child, e, o);
        },
        .Struct => {
            inline for (comptime order(T)) |f| dump(@TypeOf(@field(v, f)), @field(v, f), o);
        },
        else => @compileError("shim: type"),
    }
}

fn drop(comptime T: type, m: *T) void {
    if (@hasDecl(T, "deinit")) m.deinit(allocator);
}
fn from(comptime T: type, off: usize, b: []const u8) anyerror!Read(T) {
    if (@typeInfo(@TypeOf(T.fromBytes)).Fn.params.len == 3) {
        const r = try T.fromBytes(allocator, off, b);
        return .{ .value = r.value, .pos = off + r.bytes_read };
    }
    const r = try T.fromBytes(off, b);
    return .{ .value = r.value, .pos = off + r.bytes_read };
}
fn Read(comptime T: type) type { return struct { value: T, pos: usize }; }

fn read_any(comptime T: type, i: *In, o: *Out, clean: bool) void {
    const pre = i.len();
    const n = i.len();
    const all = i.take(i.s.len - i.p);
    var r = from(T, pre, all[0 .. pre + n]) catch {
        o.num(u8, 1);
        return;
    };
    o.num(u8, 0);
    o.num(u64, r.pos - pre);
    dump(T, r.value, o);
    if (clean) drop(T, &r.value);
}

fn write_any(comptime T: type, m: T, i: *In, o: *Out, tag: bool, off: usize, total: usize) void {
    _ = i;
    const b = tmp(u8, total);
    @memset(b, 0xa5);
    const w = m.writeBytes(off, b, tag);
    o.num(u8, 0);
    o.num(u64, off + w);
    o.put(b);
}

fn dump_list(ms: []gen.Message, o: *Out) void {
    o.num(u32, @intCast(ms.len));
    for (ms) |m| dump_message(m, o);
}
fn drop_list(ms: []gen.Message) void {
    for (ms) |*m| drop_message(m);
    allocator.free(ms);
}
fn load_list(i: *In) []gen.Message {
    const ms = tmp(gen.Message, i.len());
    for (ms) |*m| m.* = load_message(i.num(u8), i);
    return ms;
}

export fn vf_run(inp: [*]u8, n: usize, out: [*]u8, cap: usize) usize {
    var i = In{ .s = inp[0..n] };
    var o = Out{ .p = out[0..cap] };
    const op = i.num(u8);
    const k = i.num(u8);
    fail_at = 0;
    switch (op) {
        0, 1, 2, 3, 8, 9 => by_message(op, k, &i, &o),
        4, 10 => {
            if (op == 10) fail_at = i.len();
            const max: i32 = @bitCast(i.num(u32));
            const ms = gen.processRawBytes(allocator, i.take(i.s.len - i.p), max) catch {
                o.num(u8, 1);
                return o.n;
            };
            o.num(u8, 0);
            dump_list(ms, &o);
            if (op == 10) drop_list(ms);
        },
        5 => {
            const ms = load_list(&i);
            o.num(u8, 0);
            o.num(u64, gen.getPackedSize(ms));
        },
        6 => {
            const off = i.len();
            const total = i.len();
            const ms = load_list(&i);
            const b = tmp(u8, total);
            @memset(b, 0xa5);
            gen.packMessages(ms, b[off..]);
            o.num(u8, 0);
            o.put(b);
        },
        7, 11 => {
            if (op == 11) fail_at = i.len();
            const pre = i.len();
            const len = i.len();
            const all = i.take(i.s.len - i.p);
            const ms = gen.unpackMessages(allocator, all[pre .. pre + len]) catch {
                o.num(u8, 1);
                return o.n;
            };
            o.num(u8, 0);
            dump_list(ms, &o);
            if (op == 11) drop_list(ms);
        },
        else => vf_panic(),
    }
    return o.n;
}

fn by_one(comptime T: type, op: u8, i: *In, o: *Out) void {
    switch (op) {
        0 => { o.num(u8, 0); dump(T, T{}, o); },
        1 => {
            const m = load(T, i);
            o.num(u8, 0);
            o.num(u64, m.getSizeInBytes());
        },
        2 => {
            const tag = i.num(u8) != 0;
            const off = i.len();
            const total = i.len();
            write_any(T, load(T, i), i, o, tag, off, total);
        },
        3 => read_any(T, i, o, false),
        8 => {
            const m = T{};
            const total = i.len();
            const b = tmp(u8, total);
            @memset(b, 0xa5);
            const w = m.writeBytes(0, b, false);
            o.num(u8, 0);
            o.num(u64, m.getSizeInBytes());
            o.num(u64, w);
            o.put(b);
        },
        9 => {
            fail_at = i.len();
            if (fail_at == 0xffffffff) {
                var m = T{};
                drop(T, &m);
                o.num(u8, 1);
                return;
            }
            read_any(T, i, o, true);
        },
        else => vf_panic(),
    }
}
'''

MAIN = r'''
var live: usize = 0;
const libc = @cImport({ @cInclude("stdlib.h"); @cInclude("unistd.h"); });
export fn vf_alloc(n: usize, a: usize) ?[*]u8 {
    if (n > 1 << 26) return null;
    live += 1;
    const p: [*]u8 = @ptrCast(libc.aligned_alloc(@max(a, 64), (n + 127 + 64) / 64 * 64));
    @memset(p[0 .. n + 64], 0xa5);
    std.mem.writeInt(u64, p[0..8], n, .little);
    std.mem.writeInt(u64, p[8..16], 0x1234567890abcdef, .little);
    return p + 64;
}
export fn vf_free(q: [*]u8, n: usize) void {
    const p = q - 64;
    if (std.mem.readInt(u64, p[8..16], .little) != 0x1234567890abcdef) libc._exit(78);
    if (std.mem.readInt(u64, p[0..8], .little) != n) libc._exit(79);
    @memset(p[0 .. n + 64], 0xdd);
    live -= 1;
}
export fn vf_tmp(n: usize) [*]u8 { return @ptrCast(libc.malloc(n)); }
export fn vf_panic() noreturn { libc._exit(99); }
pub fn main() u8 {
    var cap: usize = 1 << 16;
    var b: [*]u8 = @ptrCast(libc.malloc(cap));
    var n: usize = 0;
    while (true) {
        if (n == cap) { cap *= 2; b = @ptrCast(libc.realloc(b, cap)); }
        const r = libc.read(0, b + n, cap - n);
        if (r <= 0) break;
        n += @intCast(r);
    }
    const oc = 4 * n + 200000;
    const o: [*]u8 = @ptrCast(libc.malloc(oc));
    const clean = b[0] >= 9;
    const m = vf_run(b, n, o, oc);
    var k: usize = 0;
    while (k < m) { const r = libc.write(1, o + k, m - k); if (r <= 0) break; k += @intCast(r); }
    if (clean and live != 0) return 77;
    return 0;
}
'''


def zid(n):
    return n if re.fullmatch(r"[A-Za-z_]\w*", n) else f'@"{n}"'


def shim(proto):
    out = [SHIM.replace("0xffffffff) {", "0xffffffff) {")]
    q = lambda f: f'"{f}"'
    out.append("fn order(comptime T: type) []const []const u8 {")
    for n, s in list(proto.structs.items()) + list(proto.messages.items()):
        out.append(f"    if (T == gen.{n}) return &.{{ {', '.join(q(f) for f, _ in s.members)} }};")
    out.append('    @compileError("shim: struct");\n}')
    ms = list(enumerate(proto.messages))
    out.append("fn by_message(op: u8, k: u8, i: *In, o: *Out) void {\n    switch (k) {")
    out += [f"        {k} => by_one(gen.{n}, op, i, o)," for k, n in ms]
    out.append("        else => vf_panic(),\n    }\n}")
    out.append("fn load_message(k: u8, i: *In) gen.Message {\n    return switch (k) {")
    out += [f"        {k} => gen.Message{{ .{n} = load(gen.{n}, i) }}," for k, n in ms]
    out.append("        else => vf_panic(),\n    };\n}")
    out.append("fn dump_message(m: gen.Message, o: *Out) void {\n    switch (m) {")
    out += [f"        .{n} => |x| {{ o.num(u8, {k}); dump(gen.{n}, x, o); }}," for k, n in ms]
    out.append("    }\n}")
    out.append("fn drop_message(m: *gen.Message) void {\n    switch (m.*) {")
    out += [f"        .{n} => |*x| drop(gen.{n}, x)," for k, n in ms]
    out.append("    }\n}")
    return "\n".join(out)


LAZY = 1 << 14        # an allocation of a size that depends on the input is this big, or fails when it asks for more


def vf_alloc(x, a):
    n, al = a[0], x.conc(a[1])
    if symcore.is_sym(n):
        if x.ctx.branch(z3.UGT(n, LAZY)):
            return 0
        p = x.alloc(LAZY, align=al)
        x.find(p, 0).sn = n
        return p
    if n > 1 << 26:
        return 0
    return x.alloc(n, align=al)


def vf_tmp(x, a):
    return x.alloc(x.conc(a[0]), kind="tmp")


def vf_free(x, a):
    p, n = x.conc(a[0]), a[1]
    o = x.find(p, 0)
    if o.sn is not None:
        same = not x.ctx.branch(norm_b(symcore.bv(o.sn, 64) != symcore.bv(n, 64)))
    else:
        same = o.n == x.conc(n)
    if not same:
        raise Trap("memory is freed with another size than it was allocated with")
    x.free(p)


def vf_panic(x, a):
    raise Trap("panic")


class Zig(llvm_shim.ShimLang):
    name, letter = "zig", "Z"
    offsets = views = pos = True

    def window(self, data, pre, post):
        return llvm_shim.u32(len(pre)) + llvm_shim.u32(len(data)) + list(pre) + list(data) + list(post)

    def env(self, wd):
        return {"ZIG_GLOBAL_CACHE_DIR": os.path.join(common.scratch(), "zig-cache"), "ZIG_LOCAL_CACHE_DIR": os.path.join(wd, "zc")}

    def build_ir(self, proto, wd, src):
        p = lambda n: os.path.join(wd, n)
        os.replace(src, p("gen.zig"))
        open(p("shim.zig"), "w").write(shim(proto))
        open(p("main.zig"), "w").write(shim(proto).replace("extern fn vf_", "// extern fn vf_") + MAIN)
        rc, so, se = common.sh([ZIG, "build-obj", *FLAGS, "-fno-emit-bin", "-femit-llvm-ir=" + p("m.ll"), p("shim.zig")], timeout=600, cwd=wd, env=self.env(wd))
        if rc:
            raise CompileError("zig rejects the generated code or the shim that uses it:\n" + (so + se)[:2500])
        return p("m.ll")

    def hooks(self):
        return {"vf_alloc": vf_alloc, "vf_free": vf_free, "vf_tmp": vf_tmp, "vf_panic": vf_panic, "*": []}

    def build_native(self, wd):
        p = lambda n: os.path.join(wd, n)
        rc, so, se = common.sh([ZIG, "build-exe", *FLAGS, "-lc", "-femit-bin=" + p("replay"), p("main.zig")], timeout=600, cwd=wd, env=self.env(wd))
        if rc:
            raise RuntimeError("replay program does not build: " + se[:1500])
        return p("replay")


def run(prop, rep, tier):
    rep.assumptions += ["zig's lowering (ReleaseSafe) keeps the behaviour of the source"]
    codec.run(Zig(), prop, rep, tier)
