"""Go: symbolic execution of the package beschi generates, from the SSA form the Go project's own go/ssa builds of it
(tools/gossa, type-checking against the installed standard library), interpreted by lib/gointerp.py."""
import hashlib
import json
import lzma
import os
import shutil
import threading

import z3

import codec
import common
import gointerp
import symval
from codec import CodeError, CompileError, Crash
from gointerp import GoErr, GoPanic, Iface, Ptr, Reader, Slice, SV, Writer
from spec import NUM
from symcore import Unsupported, norm, norm_b

GOENV = dict(GOFLAGS="-mod=mod", GOPROXY="off", GONOSUMDB="*", GOTOOLCHAIN="local", GOSUMDB="off", CGO_ENABLED="0", GO111MODULE="on")
TOOL = os.path.join(common.VERIF, "tools", "gossa")
_lock = threading.Lock()


def goroot():
    if "GOROOT" not in GOENV:
        GOENV["GOROOT"] = common.sh(["go", "env", "GOROOT"], timeout=60)[1].strip()
    return GOENV["GOROOT"]


def source_hash():
    h = hashlib.sha256()
    for n in ("main.go", "go.mod", "go.sum"):
        h.update(open(os.path.join(TOOL, n), "rb").read())
    return h.hexdigest()


def gossa():
    """the dumper: the committed build of it when it is the build of the committed source, else built now"""
    with _lock:
        goroot()
        exe = os.path.join(common.workdir("gossa"), "gossa")
        if os.path.exists(exe):
            return exe
        pre, tag = os.path.join(TOOL, "gossa.xz"), os.path.join(TOOL, "gossa.sha256")
        if os.path.exists(pre) and os.path.exists(tag) and open(tag).read().strip() == source_hash():
            with open(exe + ".tmp", "wb") as f:
                f.write(lzma.open(pre).read())
            os.chmod(exe + ".tmp", 0o755)
            if common.sh([exe + ".tmp"], timeout=20)[0] in (0, 1, 2, 3):
                os.replace(exe + ".tmp", exe)
                return exe
        rc, so, se = common.sh(["go", "build", "-trimpath", "-ldflags=-s -w", "-o", exe, "."], timeout=600, cwd=TOOL, env=GOENV)
        if rc:
            raise common.CheckError("gossa does not build: " + so + se)
        return exe


def capital(n):
    return n[0].upper() + n[1:]


class Machine:
    def __init__(self, prog, ctx):
        self.fns = set()
        self.proto, self.ctx, self.prog = prog["proto"], ctx, prog["ssa"]
        self.pkg = self.prog["pkg"]
        try:
            self.it = gointerp.Interp(self.prog, ctx, self.fns)
        except GoPanic as e:
            raise Unsupported("package initialisation panics: " + str(e))

    def go(self, name, *a):
        if name not in self.prog["funcs"]:
            raise CodeError(f"function {name} does not exist")
        try:
            return self.it.call(name, list(a))
        except GoPanic as e:
            raise Crash(str(e))

    def invoke(self, obj, m, *a):
        """a method of a message held through the Message interface"""
        try:
            return self.it.call_value((obj, m), list(a))
        except GoPanic as e:
            raise Crash(str(e))

    def fields(self, t):
        return {f["name"]: (k, f["type"]) for k, f in enumerate(self.it.under(t)["fields"])}

    def msgs_t(self, msg):
        if msg not in self.prog["decls"]:
            raise CodeError(f"type {msg} does not exist")
        return self.prog["decls"][msg]

    def to_go(self, t, v, gt):
        d = self.it.under(gt)
        if t.kind == "num" and t.name == "bool":
            return v != 0 if isinstance(v, int) else norm_b(v != 0)
        if t.kind in ("num", "enum"):
            return v
        if t.kind == "string":
            return tuple(v.utf8())
        if t.kind == "list":
            xs = [self.to_go(t.elem, e, d["elem"]) for e in v]
            return Slice(xs, 0, len(xs), len(xs)) if xs else Slice(None, 0, 0, 0)
        try:
            o = self.it.call(f"{self.pkg}.New{t.name}Default", []) if f"{self.pkg}.New{t.name}Default" in self.prog["funcs"] else self.it.zero(gt)
        except GoPanic as e:
            raise Crash(str(e))
        self.fill(t.ref.members, v, o, gt)
        return o

    def fill(self, members, v, o, gt):
        fs = self.fields(gt)
        for n, mt in members:
            if capital(n) not in fs:
                raise CodeError(f"field {n} does not exist")
            k, ft = fs[capital(n)]
            o.f[k] = self.to_go(mt, v[n], ft)

    def from_go(self, t, x, gt):
        d = self.it.under(gt)
        if t.kind == "num" and t.name == "bool":
            if isinstance(x, bool):
                return int(x)
            return norm(z3.If(x, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
        if t.kind in ("num", "enum"):
            n = t.name if t.kind == "num" else t.ref.encoding
            w, signed, isf = NUM[n]
            info = self.it.intinfo(gt)
            if isf:
                return x if self.it.isfloat(gt) == 8 * w else None
            return x if info == (8 * w, signed) else None
        if t.kind == "string":
            return list(x)
        if t.kind == "list":
            return [self.from_go(t.elem, e, d["elem"]) for e in (x.items() if x.s is not None else [])]
        return self.struct(t.ref.members, x, gt)

    def struct(self, members, o, gt):
        fs = self.fields(gt)
        if any(capital(n) not in fs for n, _ in members):
            raise CodeError("a field does not exist")
        return {n: self.from_go(mt, o.f[fs[capital(n)][0]], fs[capital(n)][1]) for n, mt in members}

    def obj(self, msg, o):
        return self.struct(self.proto.messages[msg].members, o, self.msgs_t(msg))

    def new(self, msg):
        return self.go(f"{self.pkg}.New{msg}Default")

    def box(self, msg, o):
        t = self.it.typeid("*" + self.it.types[self.msgs_t(msg)]["str"])
        if t is None:
            raise CodeError(f"type *{msg} does not exist")
        return Iface(t, Ptr([o], 0))

    def default(self, msg):
        return self.obj(msg, self.new(msg))

    def make(self, msg, v):
        o = self.new(msg)
        self.fill(self.proto.messages[msg].members, v, o, self.msgs_t(msg))
        return self.box(msg, o)

    def size(self, o):
        return self.invoke(o, "GetSizeInBytes")

    def out(self, w, n):
        return w.d + [codec.FILL] * (n - len(w.d))

    def write(self, o, n, off, tag):
        w = Writer()
        self.invoke(o, "WriteBytes", Iface("host:Writer", w), tag)
        return self.out(w, n), None

    def write_default(self, msg, n):
        o = self.box(msg, self.new(msg))
        size = self.size(o)
        w = Writer()
        self.invoke(o, "WriteBytes", Iface("host:Writer", w), False)
        return size, self.out(w, n), None

    def reader(self, data):
        return Iface("host:Reader", Reader(data, 1 if len(data) % 2 else None))

    def err(self, e):
        if e is not None:
            raise CodeError(e.v.text if isinstance(e.v, GoErr) else "error")

    def read(self, msg, data, pre, post):
        r = self.reader(data)
        p, e = self.go(f"{self.pkg}.{msg}FromBytes", r)
        self.err(e)
        if p is None:
            raise Crash("neither a message nor an error")
        return self.obj(msg, p.c[p.i]), r.v.pos

    def list(self, s):
        out = []
        for x in (s.items() if s.s is not None else []):
            if x is None:
                raise Crash("a nil message in the list")
            name = self.it.types[x.t]["str"]
            n = name.rsplit(".", 1)[-1]
            if n not in self.proto.messages:
                raise Crash("not a message in the list")
            if self.invoke(x, "GetMessageType") != self.proto.tag[n]:
                raise Crash("wrong message type")
            o = x.v.c[x.v.i] if isinstance(x.v, Ptr) else x.v
            out.append((n, self.obj(n, o)))
        return out

    def process(self, data, mx):
        s, e = self.go(self.pkg + ".ProcessRawBytes", self.reader(data), mx & (2**64 - 1))
        self.err(e)
        return self.list(s)

    def packed_size(self, objs):
        return self.go(self.pkg + ".GetPackedSize", Slice(list(objs), 0, len(objs), len(objs)))

    def pack(self, objs, n, off):
        w = Writer()
        self.go(self.pkg + ".PackMessages", Slice(list(objs), 0, len(objs), len(objs)), Iface("host:Writer", w))
        return self.out(w, n)

    def unpack(self, data, pre, post):
        s, e = self.go(self.pkg + ".UnpackMessages", self.reader(data))
        self.err(e)
        return self.list(s)


DRIVER = r'''package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"reflect"
	"strings"
	"time"

	gen "replay/gen"
)

type R = reflect.Value
type J = map[string]any

var desc struct {
	Structs  map[string][][2]any
	Messages map[string][][2]any
	Tag      map[string]int
}

// one byte per call, no Seek
type slow struct{ r *bytes.Reader }

func (s slow) Read(p []byte) (int, error) {
	if len(p) > 1 {
		p = p[:1]
	}
	return s.r.Read(p)
}

func reader(h string) (io.Reader, *bytes.Reader) {
	b, _ := hex.DecodeString(h)
	r := bytes.NewReader(b)
	if len(b)%2 == 1 {
		return slow{r}, r
	}
	return r, r
}

func capital(n string) string { return strings.ToUpper(n[:1]) + n[1:] }

func set(t any, v any, x R) {
	switch t := t.(type) {
	case string:
		switch t {
		case "string":
			b, _ := hex.DecodeString(v.(string))
			x.SetString(string(b))
		case "bool":
			x.SetBool(v.(json.Number).String() != "0")
		case "float":
			x.SetFloat(0)
			*(x.Addr().Interface().(*float32)) = math.Float32frombits(uint32(u64(v)))
		case "double":
			x.SetFloat(math.Float64frombits(u64(v)))
		default:
			num(v, x)
		}
	case J:
		if _, ok := t["enum"]; ok {
			num(v, x)
		} else if e, ok := t["list"]; ok {
			vs := v.([]any)
			if len(vs) == 0 {
				return
			}
			s := reflect.MakeSlice(x.Type(), len(vs), len(vs))
			for i, w := range vs {
				if sd, ok := e.(J); ok && sd["struct"] != nil {
					s.Index(i).Set(fresh(sd["struct"].(string), s.Index(i)))
				}
				set(e, w, s.Index(i))
			}
			x.Set(s)
		} else {
			fill(desc.Structs[t["struct"].(string)], v.(J), x)
		}
	}
}

func fresh(n string, z R) R {
	if f, ok := news[n]; ok {
		return reflect.ValueOf(f).Call(nil)[0]
	}
	return z
}

func u64(v any) uint64 {
	var u uint64
	fmt.Sscan(v.(json.Number).String(), &u)
	return u
}

func num(v any, x R) {
	u := u64(v)
	if x.CanInt() {
		x.SetInt(int64(u) << (64 - x.Type().Bits()) >> (64 - x.Type().Bits()))
	} else {
		x.SetUint(u)
	}
}

func fill(mem [][2]any, v J, x R) {
	for _, m := range mem {
		f := x.FieldByName(capital(m[0].(string)))
		if !f.IsValid() {
			panic("no field")
		}
		set(m[1], v[m[0].(string)], f)
	}
}

func get(t any, x R) any {
	switch t := t.(type) {
	case string:
		switch t {
		case "string":
			return hex.EncodeToString([]byte(x.String()))
		case "bool":
			if x.Bool() {
				return 1
			}
			return 0
		case "float":
			return math.Float32bits(x.Interface().(float32))
		case "double":
			return math.Float64bits(x.Float())
		default:
			return unnum(x)
		}
	case J:
		if _, ok := t["enum"]; ok {
			return unnum(x)
		} else if e, ok := t["list"]; ok {
			out := []any{}
			for i := 0; i < x.Len(); i++ {
				out = append(out, get(e, x.Index(i)))
			}
			return out
		}
		return rec(desc.Structs[t["struct"].(string)], x)
	}
	return nil
}

func unnum(x R) any {
	if x.CanInt() {
		return uint64(x.Int()) & (1<<uint(x.Type().Bits()-1)<<1 - 1)
	}
	return x.Uint()
}

func rec(mem [][2]any, x R) J {
	out := J{}
	for _, m := range mem {
		out[m[0].(string)] = get(m[1], x.FieldByName(capital(m[0].(string))))
	}
	return out
}

func list(ms []gen.Message) any {
	out := []any{}
	for _, m := range ms {
		x := reflect.Indirect(reflect.ValueOf(m))
		n := x.Type().Name()
		if int(m.GetMessageType()) != desc.Tag[n] {
			panic("wrong message type")
		}
		out = append(out, []any{n, rec(desc.Messages[n], x)})
	}
	return out
}

func mk(n string, v any) gen.Message {
	p := reflect.New(reflect.TypeOf(news[n]).Out(0))
	p.Elem().Set(reflect.ValueOf(news[n]).Call(nil)[0])
	if v != nil {
		fill(desc.Messages[n], v.(J), p.Elem())
	}
	return p.Interface().(gen.Message)
}

func body(b []byte, c J) string {
	want := len(c["want"].(string))/2 + int(u64(c["off"])) + int(u64(c["pad"]))
	for len(b) < want {
		b = append(b, 0xa5)
	}
	return hex.EncodeToString(b)
}

func one(c J) (res J) {
	defer func() {
		if e := recover(); e != nil {
			res = J{"crash": fmt.Sprint(e)}
		}
	}()
	switch c["op"] {
	case "default":
		n := c["msg"].(string)
		return J{"value": rec(desc.Messages[n], reflect.ValueOf(news[n]).Call(nil)[0])}
	case "write":
		m := mk(c["msg"].(string), c["value"])
		var b bytes.Buffer
		size := m.GetSizeInBytes()
		m.WriteBytes(&b, c["tag"].(bool))
		return J{"hex": body(b.Bytes(), c), "size": size}
	case "read":
		r, br := reader(c["hex"].(string))
		out := reflect.ValueOf(reads[c["msg"].(string)]).Call([]R{reflect.ValueOf(&r).Elem()})
		if !out[1].IsNil() {
			return J{"err": fmt.Sprint(out[1])}
		}
		return J{"value": rec(desc.Messages[c["msg"].(string)], out[0].Elem()), "pos": int(br.Size()) - br.Len()}
	case "process":
		r, _ := reader(c["hex"].(string))
		mx := 0
		fmt.Sscan(c["max"].(json.Number).String(), &mx)
		ms, err := gen.ProcessRawBytes(r, mx)
		if err != nil {
			return J{"err": err.Error()}
		}
		return J{"value": list(ms)}
	case "pack":
		ms := []gen.Message{}
		for _, e := range c["msgs"].([]any) {
			m := mk(e.([]any)[0].(string), e.([]any)[1])
			ms = append(ms, m)
			if c["dup"] == true { ms = append(ms, m) }
		}
		var b bytes.Buffer
		size := gen.GetPackedSize(ms)
		gen.PackMessages(ms, &b)
		return J{"hex": body(b.Bytes(), c), "size": size}
	case "unpack":
		r, _ := reader(c["hex"].(string))
		ms, err := gen.UnpackMessages(r)
		if err != nil {
			return J{"err": err.Error()}
		}
		return J{"value": list(ms)}
	}
	return nil
}

func load(p string, v any) {
	f, err := os.Open(p)
	if err != nil {
		panic(err)
	}
	d := json.NewDecoder(f)
	d.UseNumber()
	if err := d.Decode(v); err != nil {
		panic(err)
	}
}

func main() {
	load(os.Args[1], &desc)
	var cases []J
	load(os.Args[2], &cases)
	out := []J{}
	for _, c := range cases {
		ch := make(chan J, 1)
		go func() { ch <- one(c) }()
		select {
		case r := <-ch:
			out = append(out, r)
		case <-time.After(30 * time.Second):
			out = append(out, J{"crash": "does not finish within 30 s"})
		}
	}
	b, _ := json.Marshal(out)
	if err := os.WriteFile(os.Args[3], b, 0o644); err != nil {
		panic(err)
	}
}
'''


class Go(codec.Lang):
    name, letter = "go", "G"
    offsets = False
    alias = True

    def prepare(self, proto, wd):
        out = common.generate("go", proto.path, os.path.join(wd, "gen"))
        js = os.path.join(wd, "ssa.json")
        rc, so, se = common.sh([gossa(), out, js], timeout=120, env=GOENV)
        if rc:
            raise CompileError("the Go type checker rejects the generated code:\n" + (so + se)[:1500])
        return dict(proto=proto, ssa=json.load(open(js)), wd=wd, src=out)

    def machine(self, prog, ctx):
        return Machine(prog, ctx)

    def replay(self, prog, cases):
        wd = prog["wd"]
        p = lambda n: os.path.join(wd, n)
        if not os.path.exists(p("replay")):
            proto, funcs = prog["proto"], prog["ssa"]["funcs"]
            pkg = prog["ssa"]["pkg"]
            open(p("go.mod"), "w").write("module replay\n\ngo 1.21\n")
            names = [n for n in list(proto.structs) + list(proto.messages) if f"{pkg}.New{n}Default" in funcs]
            reg = "\nvar news = map[string]any{%s}\nvar reads = map[string]any{%s}\n" % (
                ", ".join(f'"{n}": gen.New{n}Default' for n in names),
                ", ".join(f'"{n}": gen.{n}FromBytes' for n in proto.messages))
            open(p("main.go"), "w").write(DRIVER + reg)
            json.dump(symval.proto_desc(proto), open(p("desc.json"), "w"))
            rc, so, se = common.sh(["go", "build", "-o", "replay", "."], timeout=600, cwd=wd, env=GOENV)
            if rc:
                raise RuntimeError("replay program does not build: " + so + se)
        json.dump(cases, open(p("cases.json"), "w"))
        rc, so, se = common.sh([p("replay"), p("desc.json"), p("cases.json"), p("res.json")], timeout=600, cwd=wd)
        if rc:
            raise RuntimeError(so + se)
        return json.load(open(p("res.json")))


def run(prop, rep, tier):
    rep.assumptions += ["go/ssa's lowering keeps the behaviour of the source", "encoding/binary, io, fmt and bytes behave as documented (modelled)",
                        "readers tried: bytes.Reader for even lengths of data, a one-byte-per-call io.Reader without Seek for odd ones"]
    codec.run(Go(), prop, rep, tier)
