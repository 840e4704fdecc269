// Prints the types and the decoded intermediate language of an assembly as JSON (metadata read with System.Reflection).
using System;
using System.Collections.Generic;
using System.IO;
using System.Linq;
using System.Reflection;
using System.Reflection.Emit;
using System.Text;

class Dump
{
    static readonly StringBuilder o = new StringBuilder();
    static readonly Dictionary<MethodBase, int> ids = new Dictionary<MethodBase, int>();
    static readonly Dictionary<int, OpCode> ops = new Dictionary<int, OpCode>();
    const BindingFlags All = BindingFlags.Public | BindingFlags.NonPublic | BindingFlags.Instance | BindingFlags.Static | BindingFlags.DeclaredOnly;

    static void S(string s)
    {
        o.Append('"');
        foreach (char c in s)
        {
            if (c == '"' || c == '\\') o.Append('\\').Append(c);
            else if (c < 0x20 || c > 0x7e) o.Append("\\u").Append(((int)c).ToString("x4"));
            else o.Append(c);
        }
        o.Append('"');
    }
    static void K(string k) { S(k); o.Append(':'); }
    static string B(bool b) => b ? "true" : "false";

    static string T(Type t)
    {
        if (t.IsByRef) return T(t.GetElementType()) + "&";
        if (t.IsPointer) return T(t.GetElementType()) + "*";
        if (t.IsArray) return T(t.GetElementType()) + "[]";
        if (t.IsGenericParameter) return t.Name;
        string n = (t.IsNested ? T(t.DeclaringType) + "/" : t.Namespace == null ? "" : t.Namespace + ".") + t.Name;
        if (t.IsGenericType && !t.IsGenericTypeDefinition)
            n += "<" + string.Join(",", t.GetGenericArguments().Select(T)) + ">";
        return n;
    }

    static void TypeArr(IEnumerable<Type> ts)
    {
        o.Append('[');
        bool f = true;
        foreach (var t in ts) { if (!f) o.Append(','); f = false; S(T(t)); }
        o.Append(']');
    }

    static MethodBase Def(MethodBase m)
    {
        if (ids.ContainsKey(m)) return m;
        try { return m.Module.ResolveMethod(m.MetadataToken); } catch { return m; }
    }

    static void MethodRef(MethodBase m)
    {
        o.Append('{');
        K("type"); S(T(m.DeclaringType)); o.Append(',');
        K("name"); S(m.Name); o.Append(',');
        K("static"); o.Append(B(m.IsStatic)); o.Append(',');
        K("virtual"); o.Append(B(m.IsVirtual)); o.Append(',');
        K("params"); TypeArr(m.GetParameters().Select(p => p.ParameterType)); o.Append(',');
        K("ret"); S(m is MethodInfo mi ? T(mi.ReturnType) : "System.Void"); o.Append(',');
        K("gen"); TypeArr(m.IsGenericMethod ? m.GetGenericArguments() : Type.EmptyTypes); o.Append(',');
        var d = Def(m);
        K("id"); o.Append(ids.TryGetValue(d, out int id) ? id.ToString() : "null");
        o.Append('}');
    }

    static void FieldRef(FieldInfo f)
    {
        o.Append('{');
        K("type"); S(T(f.DeclaringType)); o.Append(',');
        K("name"); S(f.Name); o.Append(',');
        K("static"); o.Append(B(f.IsStatic)); o.Append(',');
        K("ft"); S(T(f.FieldType)); o.Append(',');
        K("rva");
        if ((f.Attributes & FieldAttributes.HasFieldRVA) != 0)
        {
            object v = f.GetValue(null);
            int n = System.Runtime.InteropServices.Marshal.SizeOf(v.GetType());
            byte[] b = new byte[n];
            var h = System.Runtime.InteropServices.GCHandle.Alloc(v, System.Runtime.InteropServices.GCHandleType.Pinned);
            System.Runtime.InteropServices.Marshal.Copy(h.AddrOfPinnedObject(), b, 0, n);
            h.Free();
            S(BitConverter.ToString(b).Replace("-", ""));
        }
        else o.Append("null");
        o.Append('}');
    }

    static void Method(MethodBase m)
    {
        o.Append('{');
        K("id"); o.Append(ids[m]); o.Append(',');
        K("type"); S(T(m.DeclaringType)); o.Append(',');
        K("name"); S(m.Name); o.Append(',');
        K("static"); o.Append(B(m.IsStatic)); o.Append(',');
        K("virtual"); o.Append(B(m.IsVirtual)); o.Append(',');
        K("params"); TypeArr(m.GetParameters().Select(p => p.ParameterType)); o.Append(',');
        K("ret"); S(m is MethodInfo mi ? T(mi.ReturnType) : "System.Void"); o.Append(',');
        var bd = m is MethodInfo mi2 ? mi2.GetBaseDefinition() : null;
        K("gparams"); TypeArr(m.IsGenericMethodDefinition ? m.GetGenericArguments() : Type.EmptyTypes); o.Append(',');
        K("base"); o.Append(bd != null && ids.TryGetValue(bd, out int bid) ? bid.ToString() : "null"); o.Append(',');
        K("basename"); S(bd == null ? "" : T(bd.DeclaringType) + "::" + bd.Name); o.Append(',');
        var body = m.GetMethodBody();
        K("locals"); TypeArr(body == null ? Type.EmptyTypes : body.LocalVariables.OrderBy(l => l.LocalIndex).Select(l => l.LocalType)); o.Append(',');
        K("eh"); o.Append('[');
        if (body != null)
        {
            bool f = true;
            foreach (var c in body.ExceptionHandlingClauses)
            {
                if (!f) o.Append(','); f = false;
                o.Append('{');
                K("kind"); S(c.Flags.ToString()); o.Append(',');
                K("t0"); o.Append(c.TryOffset); o.Append(','); K("t1"); o.Append(c.TryOffset + c.TryLength); o.Append(',');
                K("h0"); o.Append(c.HandlerOffset); o.Append(','); K("h1"); o.Append(c.HandlerOffset + c.HandlerLength); o.Append(',');
                K("filter"); o.Append(c.Flags == ExceptionHandlingClauseOptions.Filter ? c.FilterOffset : -1); o.Append(',');
                K("catch"); S(c.Flags == ExceptionHandlingClauseOptions.Clause ? T(c.CatchType) : "");
                o.Append('}');
            }
        }
        o.Append("],");
        K("il"); o.Append('[');
        if (body != null) Code(m, body.GetILAsByteArray());
        o.Append("]}");
    }

    static void Code(MethodBase m, byte[] il)
    {
        Type[] ta = m.DeclaringType.IsGenericType ? m.DeclaringType.GetGenericArguments() : null;
        Type[] ma = m.IsGenericMethod ? m.GetGenericArguments() : null;
        int p = 0;
        bool first = true;
        while (p < il.Length)
        {
            int at = p;
            int code = il[p++];
            if (code == 0xfe) code = 0xfe00 | il[p++];
            var op = ops[code];
            if (!first) o.Append(','); first = false;
            o.Append('[').Append(at).Append(','); S(op.Name); o.Append(',');
            switch (op.OperandType)
            {
                case OperandType.InlineNone: o.Append("null"); break;
                case OperandType.ShortInlineI: o.Append((sbyte)il[p]); p += 1; break;
                case OperandType.ShortInlineVar: o.Append(il[p]); p += 1; break;
                case OperandType.InlineVar: o.Append(BitConverter.ToUInt16(il, p)); p += 2; break;
                case OperandType.InlineI: o.Append(BitConverter.ToInt32(il, p)); p += 4; break;
                case OperandType.InlineI8: o.Append('"').Append(BitConverter.ToInt64(il, p)).Append('"'); p += 8; break;
                case OperandType.ShortInlineR: o.Append(BitConverter.ToUInt32(il, p)); p += 4; break;
                case OperandType.InlineR: o.Append('"').Append(BitConverter.ToUInt64(il, p)).Append('"'); p += 8; break;
                case OperandType.ShortInlineBrTarget: { int d = (sbyte)il[p]; p += 1; o.Append(p + d); break; }
                case OperandType.InlineBrTarget: { int d = BitConverter.ToInt32(il, p); p += 4; o.Append(p + d); break; }
                case OperandType.InlineSwitch:
                    {
                        int n = BitConverter.ToInt32(il, p); p += 4;
                        int end = p + 4 * n;
                        o.Append('[');
                        for (int i = 0; i < n; i++) { if (i > 0) o.Append(','); o.Append(end + BitConverter.ToInt32(il, p)); p += 4; }
                        o.Append(']');
                        break;
                    }
                case OperandType.InlineString: S(m.Module.ResolveString(BitConverter.ToInt32(il, p))); p += 4; break;
                case OperandType.InlineField: FieldRef(m.Module.ResolveField(BitConverter.ToInt32(il, p), ta, ma)); p += 4; break;
                case OperandType.InlineMethod: MethodRef(m.Module.ResolveMethod(BitConverter.ToInt32(il, p), ta, ma)); p += 4; break;
                case OperandType.InlineType: S(T(m.Module.ResolveType(BitConverter.ToInt32(il, p), ta, ma))); p += 4; break;
                case OperandType.InlineTok:
                    {
                        var mem = m.Module.ResolveMember(BitConverter.ToInt32(il, p), ta, ma); p += 4;
                        if (mem is Type t) S(T(t)); else if (mem is FieldInfo f) FieldRef(f); else MethodRef((MethodBase)mem);
                        break;
                    }
                default: o.Append("null"); p += 4; break;
            }
            o.Append(']');
        }
    }

    static int Main(string[] args)
    {
        foreach (var f in typeof(OpCodes).GetFields(BindingFlags.Public | BindingFlags.Static))
        {
            var op = (OpCode)f.GetValue(null);
            ops[(ushort)op.Value] = op;
        }
        var asm = Assembly.LoadFrom(args[0]);
        var types = asm.GetTypes();
        foreach (var t in types)
        {
            foreach (var m in t.GetMethods(All)) ids[m] = ids.Count;
            foreach (var m in t.GetConstructors(All)) ids[m] = ids.Count;
        }
        o.Append("{\"types\":[");
        bool first = true;
        foreach (var t in types)
        {
            if (!first) o.Append(','); first = false;
            o.Append('{');
            K("name"); S(T(t)); o.Append(',');
            K("base"); S(t.BaseType == null ? "" : T(t.BaseType)); o.Append(',');
            K("kind"); S(t.IsEnum ? "enum" : t.IsValueType ? "value" : "class"); o.Append(',');
            K("under"); S(t.IsEnum ? T(Enum.GetUnderlyingType(t)) : ""); o.Append(',');
            K("flags"); o.Append(B(t.IsEnum && t.IsDefined(typeof(FlagsAttribute), false))); o.Append(',');
            K("values"); o.Append('[');
            if (t.IsEnum)
            {
                bool g = true;
                foreach (var v in Enum.GetValues(t)) { if (!g) o.Append(','); g = false; S(Convert.ToDecimal(Convert.ChangeType(v, Enum.GetUnderlyingType(t))).ToString()); }
            }
            o.Append("],");
            K("ifaces"); TypeArr(t.GetInterfaces()); o.Append(',');
            K("fields"); o.Append('[');
            bool ff = true;
            foreach (var fi in t.GetFields(All)) { if (!ff) o.Append(','); ff = false; FieldRef(fi); }
            o.Append("],");
            K("methods"); o.Append('[');
            bool fm = true;
            foreach (var m in t.GetMethods(All).Cast<MethodBase>().Concat(t.GetConstructors(All))) { if (!fm) o.Append(','); fm = false; Method(m); }
            o.Append("]}");
        }
        o.Append("]}");
        File.WriteAllText(args[1], o.ToString());
        return 0;
    }
}
