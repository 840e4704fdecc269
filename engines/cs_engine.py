"""C#: symbolic execution of the generated module at the level of the CIL the C# compiler makes of it together with a small generated
shim (canonical values in, results out); lib/cil.py executes it.  The same assembly, run by the .NET runtime, replays cases."""
import json
import os

import cil
import codec
import common
import llvm_shim
from codec import CodeError, CompileError, Crash
from symcore import is_sym

SDK = "/usr/lib/dotnet"
ENV = dict(DOTNET_CLI_TELEMETRY_OPTOUT="1", DOTNET_NOLOGO="1", DOTNET_SKIP_FIRST_TIME_EXPERIENCE="1", DOTNET_gcServer="0", DOTNET_GCHeapHardLimit="0x40000000",
           DOTNET_TieredPGO="0", DOTNET_EnableDiagnostics="0")
TYPE = dict(byte="byte", bool="bool", uint16="ushort", int16="short", uint32="uint", int32="int", uint64="ulong", int64="long", float="float",
            double="double")
RUNTIME = json.dumps(dict(runtimeOptions=dict(tfm="net8.0", framework=dict(name="Microsoft.NETCore.App", version="8.0.0"))))


def first(pat):
    import glob
    r = sorted(glob.glob(pat))
    if not r:
        raise common.CheckError("not installed: " + pat)
    return r[-1]


def csc(out, srcs, exe=False):
    ref = os.path.dirname(first(SDK + "/packs/Microsoft.NETCore.App.Ref/*/ref/net*/System.Runtime.dll"))
    refs = ["-r:" + os.path.join(ref, f) for f in sorted(os.listdir(ref)) if f.endswith(".dll") and not f.startswith("Microsoft.VisualBasic")]
    rc, so, se = common.sh(["dotnet", first(SDK + "/sdk/*/Roslyn/bincore/csc.dll"), "-noconfig", "-nostdlib", "-nologo", "-optimize+", "-checked-", "-unsafe-",
                            "-nowarn:0649,0169,0414,0219", "-langversion:12", *refs, "-target:" + ("exe" if exe else "library"), "-out:" + out, *srcs],
                           timeout=300, cwd=os.path.dirname(out), env=ENV)
    if rc == 0:
        with open(out[:-4] + ".runtimeconfig.json", "w") as f:
            f.write(RUNTIME)
    return rc, so + se


PRE = r'''
class VfIn {
    public byte[] s; public int p;
    public byte U8() { return s[p++]; }
    public ulong Num(int n) { ulong r = 0; for (int i = 0; i < n; i++) { r |= (ulong)s[p + i] << (8 * i); } p += n; return r; }
    public int Len() { return (int)Num(4); }
    public string Str() { int n = Len(); string r = System.Text.Encoding.UTF8.GetString(s, p, n); p += n; return r; }
    public System.IO.MemoryStream Rest() { return new System.IO.MemoryStream(s, p, s.Length - p, false); }
    public System.IO.MemoryStream Window() { int pre = Len(); int n = Len(); return new System.IO.MemoryStream(s, p + pre, n, false); }
}
class VfOut {
    public System.Collections.Generic.List<byte> b = new System.Collections.Generic.List<byte>();
    public void Num(ulong v, int n) { for (int i = 0; i < n; i++) { b.Add((byte)(v >> (8 * i))); } }
    public void Len(int n) { Num((ulong)(uint)n, 4); }
    public void Bytes(byte[] v) { b.AddRange(v); }
    public void Str(string s) { byte[] v = System.Text.Encoding.UTF8.GetBytes(s); Len(v.Length); Bytes(v); }
}
'''

POST = r'''
    static byte[] Fill(int n) { byte[] b = new byte[n]; for (int i = 0; i < n; i++) { b[i] = 0xa5; } return b; }
    static System.Collections.Generic.List<@Message> LoadList(VfIn i) {
        int n = i.Len(); var r = new System.Collections.Generic.List<@Message>();
        for (int k = 0; k < n; k++) { byte q = i.U8(); r.Add(q == 255 ? r[k - 1] : LoadAny(q, i)); } return r;
    }
    static void DumpList(@Message[] ms, VfOut o) { o.Len(ms.Length); foreach (var m in ms) { DumpAny(m, o); } }

    static void Go(VfIn i, VfOut o) {
        byte op = i.U8(); byte k = i.U8();
        if (op == 0) { DumpBody(New(k), o); }
        else if (op == 1) { o.Num((ulong)(long)LoadAny(k, i).GetSizeInBytes(), 8); }
        else if (op == 2) {
            bool tag = i.U8() != 0; int off = i.Len(); byte[] buf = Fill(i.Len()); var m = LoadAny(k, i);
            var s = new System.IO.MemoryStream(buf); s.Position = off;
            m.WriteBytes(new System.IO.BinaryWriter(s), tag);
            o.Num((ulong)s.Position, 8); o.Bytes(buf);
        }
        else if (op == 3) {
            var s = i.Window(); var m = Read(k, new System.IO.BinaryReader(s));
            o.Num((ulong)s.Position, 8); DumpBody(m, o);
        }
        else if (op == 4) { int mx = i.Len(); DumpList(@Message.ProcessRawBytes(new System.IO.BinaryReader(i.Rest()), mx), o); }
        else if (op == 5) { o.Num((ulong)(long)@Message.GetPackedSize(LoadList(i)), 8); }
        else if (op == 6) {
            int off = i.Len(); byte[] buf = Fill(i.Len()); var ms = LoadList(i);
            var s = new System.IO.MemoryStream(buf); s.Position = off;
            @Message.PackMessages(ms, new System.IO.BinaryWriter(s));
            o.Bytes(buf);
        }
        else if (op == 7) { DumpList(@Message.UnpackMessages(new System.IO.BinaryReader(i.Window())), o); }
        else {
            byte[] buf = Fill(i.Len()); var m = New(k); o.Num((ulong)(long)m.GetSizeInBytes(), 8);
            var s = new System.IO.MemoryStream(buf); m.WriteBytes(new System.IO.BinaryWriter(s), false);
            o.Num((ulong)s.Position, 8); o.Bytes(buf);
        }
    }

    public static byte[] Run(byte[] inp) {
        VfIn i = new VfIn(); i.s = inp; VfOut o = new VfOut(); o.b.Add(0);
        try { Go(i, o); }
        catch (@DataReadErrorException) { return new byte[] { 1 }; }
        catch (@UnknownMessageTypeException) { return new byte[] { 1 }; }
        return o.b.ToArray();
    }

    public static int Main(string[] args) {
        while (true) {
            var si = System.Console.OpenStandardInput();
            byte[] h = new byte[4];
            int got = 0;
            while (got < 4) { int q = si.Read(h, got, 4 - got); if (q <= 0) return 0; got += q; }
            int n = System.BitConverter.ToInt32(h, 0);
            byte[] v = new byte[n];
            got = 0;
            while (got < n) { int q = si.Read(v, got, n - got); if (q <= 0) return 0; got += q; }
            byte[] r;
            try { r = Run(v); } catch (System.Exception e) { r = System.Text.Encoding.UTF8.GetBytes("\x02" + e.GetType().FullName + ": " + e.Message); }
            var so = System.Console.OpenStandardOutput();
            so.Write(System.BitConverter.GetBytes(r.Length), 0, 4);
            so.Write(r, 0, r.Length);
            so.Flush();
        }
    }
}
'''


class Gen:
    def __init__(self, proto, ns):
        self.proto = proto
        self.q = "global::" + (ns + "." if ns else "")
        self.n = 0

    def ty(self, t):
        if t.kind == "num":
            return TYPE[t.name]
        if t.kind == "string":
            return "string"
        if t.kind == "list":
            return f"System.Collections.Generic.List<{self.ty(t.elem)}>"
        return self.q + t.name

    def load(self, t, lhs):
        """statements that set lhs"""
        if t.kind == "num":
            if t.name == "bool":
                return f"{lhs} = i.U8() != 0;"
            if t.name == "float":
                return f"{lhs} = System.BitConverter.Int32BitsToSingle((int)i.Num(4));"
            if t.name == "double":
                return f"{lhs} = System.BitConverter.Int64BitsToDouble((long)i.Num(8));"
            return f"{lhs} = ({TYPE[t.name]})i.Num({t.size});"
        if t.kind == "enum":
            return f"{lhs} = ({self.ty(t)})({TYPE[t.ref.encoding]})i.Num({t.size});"
        if t.kind == "string":
            return f"{lhs} = i.Str();"
        if t.kind == "struct":
            return f"{lhs} = Load_{t.name}(i);"
        self.n += 1
        k = self.n
        return (f"{{ int n{k} = i.Len(); var l{k} = new {self.ty(t)}(); for (int k{k} = 0; k{k} < n{k}; k{k}++) {{ {self.ty(t.elem)} e{k}; "
                f"{self.load(t.elem, f'e{k}')} l{k}.Add(e{k}); }} {lhs} = l{k}; }}")

    def dump(self, t, x):
        if t.kind == "num":
            if t.name == "bool":
                return f"o.b.Add((byte)({x} ? 1 : 0));"
            if t.name == "float":
                return f"o.Num((ulong)(uint)System.BitConverter.SingleToInt32Bits({x}), 4);"
            if t.name == "double":
                return f"o.Num((ulong)System.BitConverter.DoubleToInt64Bits({x}), 8);"
            return f"o.Num((ulong){x}, {t.size});"
        if t.kind == "enum":
            return f"o.Num((ulong)({TYPE[t.ref.encoding]}){x}, {t.size});"
        if t.kind == "string":
            return f"o.Str({x});"
        if t.kind == "struct":
            return f"Dump_{t.name}({x}, o);"
        self.n += 1
        k = self.n
        return f"o.Len({x}.Count); foreach (var d{k} in {x}) {{ {self.dump(t.elem, f'd{k}')} }}"

    def shim(self):
        p, q = self.proto, self.q
        out = [PRE, "public static class VfShim {"]
        for n, s in list(p.structs.items()) + list(p.messages.items()):
            out.append(f"  static {q}{n} Load_{n}(VfIn i) {{ var m = new {q}{n}();")
            out += ["    " + self.load(t, "m." + f) for f, t in s.members]
            out.append("    return m; }")
            out.append(f"  static void Dump_{n}({q}{n} m, VfOut o) {{")
            out += ["    " + self.dump(t, "m." + f) for f, t in s.members]
            out.append("  }")
        ms = list(p.messages)
        bad = 'throw new System.InvalidOperationException("shim");'
        out.append(f"  static {q}Message LoadAny(byte k, VfIn i) {{ " + " ".join(f"if (k == {i}) return Load_{n}(i);" for i, n in enumerate(ms)) + bad + " }")
        out.append(f"  static {q}Message New(byte k) {{ " + " ".join(f"if (k == {i}) return new {q}{n}();" for i, n in enumerate(ms)) + bad + " }")
        out.append(f"  static {q}Message Read(byte k, System.IO.BinaryReader r) {{ " +
                   " ".join(f"if (k == {i}) return {q}{n}.FromBytes(r);" for i, n in enumerate(ms)) + bad + " }")
        out.append(f"  static void DumpBody({q}Message m, VfOut o) {{ " +
                   " ".join(f"if (m is {q}{n}) {{ Dump_{n}(({q}{n})m, o); return; }}" for n in ms) + bad + " }")
        out.append(f"  static void DumpAny({q}Message m, VfOut o) {{ " +
                   " ".join(f"if (m is {q}{n}) {{ if (m.GetMessageType() != {q}MessageType.{n}Type) {bad} o.b.Add({i}); Dump_{n}(({q}{n})m, o); return; }}"
                            for i, n in enumerate(ms)) + bad + " }")
        out.append(POST.replace("@", q))
        return "\n".join(out)


class Machine(llvm_shim.Machine):
    def run(self, op, msg, rest, cap=0, clean=False):
        k = self.names.index(msg) if msg else 0
        inp = [op, k] + rest
        x = cil.Exec(self.prog["asm"], self.ctx, self.fns)
        try:
            r = x.call(self.prog["run"], [cil.Arr("System.Byte", inp)])
        except cil.Throw as e:
            raise Crash("throws " + e.obj.t)
        st = r.v[0]
        if is_sym(st):
            st = self.ctx.value(st)
        if st == 1:
            raise CodeError("error reported")
        return llvm_shim.Uncanon(r.v[1:], self.ctx)


class CSharp(llvm_shim.ShimLang):
    name, letter = "csharp", "S"
    pos = True
    views = alias = True
    protos = [p if p != "names" else "names_cs" for p in codec.PROTOS]      # names.toml has a member called as a C# keyword

    def __init__(self):
        wd = common.workdir("S")
        self.dump = os.path.join(wd, "dump.dll")
        rc, msg = csc(self.dump, [os.path.join(os.path.dirname(os.path.abspath(cil.__file__)), "cs", "Dump.cs")], exe=True)
        if rc:
            raise common.CheckError("the metadata reader does not build: " + msg[:1000])

    def window(self, data, pre, post):
        u = llvm_shim.u32
        return u(len(pre)) + u(len(data)) + list(pre) + list(data) + list(post)

    def prepare(self, proto, wd):
        src = common.generate(self.name, proto.path, wd)
        shim = os.path.join(wd, "VfShim.cs")
        with open(shim, "w") as f:
            f.write(Gen(proto, proto.namespace).shim())
        dll = os.path.join(wd, "gen.dll")
        rc, msg = csc(dll, [src, shim], exe=True)
        if rc:
            raise CompileError("the C# compiler rejects the generated code or the shim that uses it:\n" + msg[:2500])
        js = os.path.join(wd, "il.json")
        rc, so, se = common.sh(["dotnet", self.dump, dll, js], timeout=120, cwd=wd, env=ENV)
        if rc:
            raise common.CheckError("reading the assembly fails: " + (so + se)[:1500])
        asm = cil.Assembly(json.load(open(js)))
        run = next(m for m in asm.methods.values() if m.owner == "VfShim" and m.name == "Run")
        return dict(proto=proto, asm=asm, run=run, wd=wd, lang=self, dll=dll)

    def machine(self, prog, ctx):
        return Machine(prog, ctx)

    def replay(self, prog, cases):
        prog = dict(prog, host=Host(["dotnet", prog["dll"]], prog["wd"]))
        try:
            return super().replay(prog, cases)
        finally:
            prog["host"].close()


class Host:
    """one process of the real runtime answers all cases of a protocol"""
    def __init__(self, cmd, cwd):
        self.cmd, self.cwd, self.p = cmd, cwd, None
        import threading
        self.lock = threading.Lock()

    def ask(self, inp):
        import struct
        import subprocess
        import threading
        with self.lock:
            if self.p is None:
                self.p = subprocess.Popen(self.cmd, cwd=self.cwd, env=dict(os.environ, **ENV), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            p = self.p
            t = threading.Timer(60, p.kill)
            t.start()
            try:
                p.stdin.write(struct.pack("<I", len(inp)) + inp)
                p.stdin.flush()
                h = p.stdout.read(4)
                if len(h) < 4:
                    raise OSError
                n = struct.unpack("<I", h)[0]
                return p.stdout.read(n)
            except OSError:
                self.p = None
                p.kill()
                raise Crash("the process ends or does not answer")
            finally:
                t.cancel()

    def close(self):
        if self.p:
            self.p.kill()
            self.p.wait()


def run(prop, rep, tier):
    rep.assumptions += ["the C# compiler's lowering to CIL and the runtime keep the behaviour of the source",
                        "List, BinaryReader, BinaryWriter, MemoryStream and Encoding.UTF8 behave as documented (modelled in lib/cil.py)"]
    codec.run(CSharp(), prop, rep, tier)
