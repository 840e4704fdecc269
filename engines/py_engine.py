"""P01..P07: beschi's own Python (protocol.py, cli.py) executed with symbolic names, type texts and numbers.

For a skeleton (how many structs, members, entries; how long each text is) every text character and every number is a
z3 variable.  The real code and a short independent statement of the documented rule are run one after the other on
the same symbolic protocol; on each feasible path their verdicts (and for P01/P06/P07 the resulting values) are
compared by the solver.  A difference is replayed with the unmodified package before it is reported.
"""
import contextlib
import io
import itertools
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time

import z3

import common
import pysym
import symcore
from pysym import SDict, SymInt, SymStr
from symcore import Budget, PathEnd, Unsupported

BASIC = ["byte", "bool", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float", "double"]
SIZES = dict(byte=1, bool=1, uint16=2, int16=2, uint32=4, int32=4, uint64=8, int64=8, float=4, double=8)
RESERVED = BASIC + ["string", "list"]
INTEGRAL = ["byte", "uint16", "int16", "uint32", "int32", "uint64", "int64"]
PKG = os.path.join(common.REPO, "beschi")


def S(name, n):
    return pysym.fresh_str(name, n)


def I(name):
    return pysym.fresh_int(name)


# ---------------------------------------------------------------------------------------------
# running the tree's Protocol on symbolic data
class FakeFile(io.StringIO):
    pass


def sym_protocol_module(data_fn):
    import types
    toml = types.ModuleType("tomllib")
    toml.loads = lambda s: data_fn()
    toml.load = lambda f: data_fn()
    import tomllib as real
    toml.TOMLDecodeError = real.TOMLDecodeError
    mods = {"tomllib": toml, "__builtins__": {"open": lambda *a, **k: FakeFile("# symbolic protocol\n")}}
    return pysym.load(os.path.join(PKG, "protocol.py"), "beschi.protocol", "beschi", mods)


class Outcome:
    pass


def copy_data(x):
    if isinstance(x, SDict):
        d = SDict()
        d._k, d._v = list(x._k), [copy_data(v) for v in x._v]
        return d
    if isinstance(x, list):
        return [copy_data(v) for v in x]
    return x


def run_real(data, steps=20000):
    """(accepted, protocol or exception)"""
    mod = sym_protocol_module(lambda: copy_data(data))
    pysym.STEPS[:] = [0, steps]
    o = Outcome()
    o.hang = False
    try:
        o.proto = mod.Protocol("SYMBOLIC.toml")
        o.ok, o.exc = True, None
    except pysym.StepLimit:
        o.ok, o.exc, o.proto, o.hang = None, None, None, True
    except Exception as e:     # the command line rejects on any exception
        o.ok, o.exc, o.proto = False, e, None
    return o


# ---------------------------------------------------------------------------------------------
# the documented rules (oracle); uses the same symbolic strings, so == and `in` lists fork
def has_ws(s):
    return pysym.mkbool(symcore.disj([pysym.cin(c, pysym.WS) for c in SymStr.chars(s)]))


def eq_any(s, words):
    return pysym.x_contains(s, list(words))


def lower(s):
    return s.lower()


def split_type(t):
    """(is_list, element text) or None when the text cannot be a type"""
    if len(t) >= 2 and t[0] == "[" and t[-1:] == "]":
        return True, t[1:-1]
    return False, t


def spec(data):
    """(verdict, reason): verdict True accept / False reject / None not specified"""
    unspec = False
    structs, messages, enums = data.get("structs", []), data.get("messages", []), data.get("enums", [])
    meta = data.get("meta", {})
    if "namespace" in meta and has_ws(meta["namespace"]):
        return False, "whitespace in namespace"
    for k in ("list_size_type", "string_size_type"):
        if k in meta and not eq_any(meta[k], INTEGRAL):
            return False, k
    names = {"structs": [], "messages": [], "enums": []}
    for sec, lst in (("structs", structs), ("messages", messages), ("enums", enums)):
        for d in lst:
            if "_name" not in d:
                return False, "missing _name"
            n = d["_name"]
            if len(n) == 0:
                return False, "empty name"
            if has_ws(n):
                return False, "whitespace in name"
            if eq_any(lower(n), RESERVED):
                return False, "reserved name"
            for other in names.values():
                if eq_any(n, other):
                    return False, "name used twice"
            names[sec].append(n)
    if len(messages) > 255:
        return False, "too many messages"
    for d in enums:
        if "_values" not in d:
            return False, "missing _values"
        vals = d["_values"]
        if len(vals) == 0:
            return False, "no values"
        if all(isinstance(v, (str, SymStr)) for v in vals):
            pairs = [(v, i) for i, v in enumerate(vals)]
        else:
            if not all(isinstance(v, SDict) for v in vals):
                return False, "mixed values"
            for v in vals:
                if "_name" not in v or "_value" not in v:
                    return False, "entry incomplete"
            pairs = [(v["_name"], v["_value"]) for v in vals]
        for i, (n, v) in enumerate(pairs):
            if has_ws(n):
                return False, "whitespace in entry"
            if len(n) == 0:
                unspec = True
            if eq_any(n, names["structs"] + names["messages"]):
                return False, "entry shadows type"
            if eq_any(n, [p for p, _ in pairs[:i]]):
                return False, "entry name twice"
            for _, w in pairs[:i]:
                if v == w:
                    return False, "entry value twice"
        if any(v < -2**31 or v > 2**31 - 1 for _, v in pairs):
            return False, "enum out of range"
    for is_msg, lst in ((False, structs), (True, messages)):
        for d in lst:
            for k, t in d.items():
                if k.startswith("_"):
                    continue
                if len(k) == 0:
                    unspec = True
                if has_ws(k):
                    return False, "whitespace in member"
                if eq_any(k, RESERVED):
                    return False, "reserved member"
                if eq_any(lower(k), RESERVED):
                    unspec = True
                if not isinstance(t, (str, SymStr)):
                    return False, "type not text"
                _, el = split_type(t)
                if not eq_any(el, names["structs"] + names["enums"] + BASIC + ["string"]):
                    return False, "unknown type"
    # containment circles
    n = len(structs)
    reach = [[False] * n for _ in range(n)]
    for i, d in enumerate(structs):
        for k, t in d.items():
            if k.startswith("_"):
                continue
            _, el = split_type(t)
            for j in range(n):
                if not reach[i][j] and el == names["structs"][j]:
                    reach[i][j] = True
                    break
    for k in range(n):
        for i in range(n):
            for j in range(n):
                reach[i][j] = reach[i][j] or (reach[i][k] and reach[k][j])
    if any(reach[i][i] for i in range(n)):
        return False, "circle"
    return (None if unspec else True), "legal"


# ---------------------------------------------------------------------------------------------
# concrete protocols and replay
def toml_str(s):
    return '"' + "".join(c if 32 <= ord(c) < 127 and c not in '"\\' else f"\\u{ord(c):04x}" for c in s) + '"'


def toml_val(v):
    if isinstance(v, str):
        return toml_str(v)
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, list):
        return "[ " + ", ".join(toml_val(x) for x in v) + " ]"
    return "{ " + ", ".join(f"{toml_str(k)} = {toml_val(x)}" for k, x in v.items()) + " }"


def to_toml(data):
    out = []
    if "meta" in data:
        out.append("[meta]")
        out += [f"{k} = {toml_val(v)}" for k, v in data["meta"].items()]
    for sec in ("structs", "messages", "enums"):
        for d in data.get(sec, []):
            out.append(f"[[{sec}]]")
            out += [f"{toml_str(k)} = {toml_val(v)}" for k, v in d.items()]
    return "\n".join(out) + "\n"


REPLAY = r'''
import json, sys
from beschi.protocol import Protocol
try:
    p = Protocol(sys.argv[1])
except Exception as e:
    print(json.dumps(dict(ok=False, exc=f"{type(e).__name__}: {e}")))
    sys.exit(0)
def size(n):
    try:
        return p.get_size_of(n)
    except Exception as e:
        return "none"
r = dict(ok=True, list_size=p.list_size_type, string_size=p.string_size_type, namespace=p.namespace,
  enums={n: dict(encoding=e.encoding, values=list(map(list, e.values.items())), default=list(e.get_default_pair())) for n, e in p.enums.items()},
  aggs={n: dict(members=[[m.name, m.vartype, m.is_list, m.is_simple()] for m in s.members], simple=s.is_simple(), size=size(n))
        for n, s in list(p.structs.items()) + list(p.messages.items())})
print(json.dumps(r))
'''


def concrete_run(data):
    """the unmodified package on a concrete protocol"""
    d = tempfile.mkdtemp(prefix="beschi-verif-py-")
    try:
        with open(os.path.join(d, "p.toml"), "w") as f:
            f.write(to_toml(data))
        with open(os.path.join(d, "r.py"), "w") as f:
            f.write(REPLAY)
        rc, so, se = common.sh(["/usr/bin/python3", "-B", "r.py", "p.toml"], timeout=20, cwd=d, env={"PYTHONPATH": common.REPO})
        if rc == -999:
            return dict(ok=None, hang=True)
        if rc != 0:
            return dict(ok=None, crash=se[-500:])
        return json.loads(so)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def to_sym(x):
    """plain concrete data in the containers the oracle expects"""
    if isinstance(x, dict):
        return SDict([(k, to_sym(v)) for k, v in x.items()])
    if isinstance(x, list):
        return [to_sym(v) for v in x]
    return x


# ---------------------------------------------------------------------------------------------
# units: each is (name, builder, check) with builder() -> data (fresh symbolic, called inside a path)
def member_chars(el, allowed):
    """restrict a one-character text to the allowed characters"""
    pysym.CUR.assume(symcore.disj([pysym.cin(el.ch[0], (ord(a),)) for a in allowed]))
    return el


def D(*pairs, **kw):
    return SDict(list(pairs) + list(kw.items()))


def verdict_check(data, o, sp):
    """accept/reject agreement; sp may be None (unspecified)"""
    ctx = pysym.CUR
    v, why = sp
    if o.hang:
        ctx.fail(("hang", "the tool does not come to an end", data))
    elif v is not None and bool(o.ok) != v:
        ctx.fail(("verdict", f"tool {'accepts' if o.ok else 'rejects'} but documented rule says {why}", data))


def p01_units(tier):
    nmax = 4 if tier == "thorough" else 3
    for n in range(1, nmax + 1):
        def build(n=n):
            vals = [I(f"v{i}") for i in range(n)]
            return D(("enums", [D(("_name", "E"), ("_values", [D(("_name", "abcdef"[i]), ("_value", vals[i])) for i in range(n)]))]),
                     ("messages", [D(("_name", "M"), ("e", "E"))]))
        yield f"explicit-{n}", build, p01_check
    for n in (1, 2, 5):
        def build(n=n):
            return D(("enums", [D(("_name", "E"), ("_values", [S(f"n{i}", 1) for i in range(n)]))]),
                     ("messages", [D(("_name", "M"), ("e", "E"))]))
        if n == 5:
            def build():
                return D(("enums", [D(("_name", "E"), ("_values", ["Q", "b", "Zz", "a", "c"]))]),
                         ("messages", [D(("_name", "M"), ("e", "E"))]))
        yield f"listed-{n}", build, p01_check
    # listed enums at the byte edge: positions decide the values
    for n in (255, 256, 257, 258):
        def build(n=n):
            return D(("enums", [D(("_name", "E"), ("_values", [f"n{i}" for i in range(n)]))]),
                     ("messages", [D(("_name", "M"), ("e", "E"))]))
        yield f"listed-{n}", build, p01_check


def p01_check(data, o):
    ctx = pysym.CUR
    sp = spec(data)
    verdict_check(data, o, sp)
    if not o.ok or sp[0] is not True:
        return
    e = o.proto.enums["E"]
    vals = data["enums"][0]["_values"]
    pairs = [(v["_name"], v["_value"]) if isinstance(v, SDict) else (v, i) for i, v in enumerate(vals)]
    got = list(e.values.items())
    if len(got) != len(pairs):
        return ctx.fail(("values", "entries lost or invented", data))
    z = lambda v: v.e if isinstance(v, SymInt) else z3.IntVal(v)
    for (gn, gv), (n, v) in zip(got, pairs):
        if not (isinstance(gv, (int, SymInt)) and bool(gn == n)):
            return ctx.fail(("values", "entry names changed or reordered", data))
        if not ctx.prove(symcore.norm_b(z(gv) == z(v)), ("values", "entry value changed", data)):
            return
    dn, dv = e.get_default_pair()
    if not bool(dn == pairs[0][0]):
        return ctx.fail(("default", "default is not the first entry", data))
    if not ctx.prove(symcore.norm_b(z(dv) == z(pairs[0][1])), ("default", "default is not the first entry", data)):
        return
    allin = lambda a, b: z3.And(*[z3.And(z(v) >= a, z(v) <= b) for _, v in pairs])
    byte, i16 = allin(0, 255), allin(-2**15, 2**15 - 1)
    want = {"byte": byte, "int16": z3.And(z3.Not(byte), i16), "int32": z3.And(z3.Not(byte), z3.Not(i16))}.get(e.encoding)
    if want is None:
        return ctx.fail(("encoding", f"encoding {e.encoding} is not byte, int16 or int32", data))
    ctx.prove(want, ("encoding", f"encoding {e.encoding} is not the smallest sufficient one", data))


def p01_concrete(data, r):
    """value-level oracle on a concrete protocol and the real package's answer"""
    if not r.get("ok"):
        return None
    vals = data["enums"][0]["_values"]
    pairs = [[v["_name"], v["_value"]] if isinstance(v, dict) else [v, i] for i, v in enumerate(vals)]
    e = r["enums"]["E"]
    vs = [v for _, v in pairs]
    want = "byte" if min(vs) >= 0 and max(vs) <= 255 else ("int16" if min(vs) >= -2**15 and max(vs) < 2**15 else "int32")
    bad = []
    if e["values"] != pairs:
        bad.append(f"values {e['values']}, declared {pairs}")
    if e["default"] != pairs[0]:
        bad.append(f"default {e['default']}, first entry {pairs[0]}")
    if e["encoding"] != want:
        bad.append(f"encoding {e['encoding']}, smallest sufficient {want}")
    return "; ".join(bad) or None


def p02_units(tier):
    leaf = ("Z", D(("_name", "Z"), ("q", "byte")))
    combos = [(1,), (1, 1), (2, 1), (1, 2), (1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (1, 1, 1, 1), (2, 2, 1)]
    if tier == "thorough":
        combos += [(1, 2, 2), (2, 1, 1, 1), (1, 1, 1, 2), (1, 1, 2, 1), (1, 1, 1, 1, 1), (2, 2, 2), (3, 1, 1), (1, 2, 1, 1)]
    for c in combos:
        for lists in (False, True):
            if lists and sum(c) > 3:
                continue

            def build(c=c, lists=lists):
                names = "ABCDEF"[:len(c)]
                structs = []
                for i, m in enumerate(c):
                    d = D(("_name", names[i]))
                    for j in range(m):
                        el = member_chars(S(f"t{i}_{j}", 1), names + "Z")
                        d[f"m{j}"] = "[" + el + "]" if lists and j == 0 else el
                    structs.append(d)
                structs.append(D(("_name", "Z"), ("q", "byte")))
                return D(("structs", structs), ("messages", [D(("_name", "M"), ("a", "A"))]))
            yield f"circle-{'x'.join(map(str, c))}{'-lists' if lists else ''}", build, p02_check

    # rings: every struct may lead to the next one, the one after, or out; declared in a scrambled order
    for n in (5, 6) if tier == "quick" else (5, 6, 7):
        def build(n=n):
            names = "ABCDEFG"[:n]
            structs = []
            for i in range(n):
                el = member_chars(S(f"t{i}", 1), names[(i + 1) % n] + names[(i + 2) % n] + "Z")
                structs.append(D(("_name", names[i]), ("b", "uint16"), ("m", "[" + el + "]" if i % 2 else el)))
            structs = structs[::2] + [D(("_name", "Z"), ("q", "byte"))] + structs[1::2][::-1]
            return D(("structs", structs), ("messages", [D(("_name", "M"), ("a", "A"))]))
        yield f"ring-{n}", build, p02_check

    # rings whose every step may be a member or a list, or be missing
    for n in (3, 4, 5) if tier == "quick" else (3, 4, 5, 6):
        def build(n=n):
            names = "ABCDEF"[:n]
            structs = []
            for i in range(n):
                el = member_chars(S(f"t{i}", 1), names[(i + 1) % n] + "Z")
                if S(f"l{i}", 1) == "l":
                    el = "[" + el + "]"
                structs.append(D(("_name", names[i]), ("b", "string"), ("m", el)))
            structs = structs[1::2] + structs[::2][::-1] + [D(("_name", "Z"), ("q", "byte"))]
            return D(("structs", structs), ("messages", [D(("_name", "M"), ("a", "[B]"))]))
        yield f"ring-lists-{n}", build, p02_check

    # layers of shared structs: no circle, and the number of ways down doubles per layer
    depth = 40
    def build():
        structs = []
        for i in range(depth):
            structs.append(D(("_name", f"L{i}"), ("a", f"L{i+1}"), ("b", f"[L{i+1}]")))
        structs.append(D(("_name", f"L{depth}"), ("a", "byte")))
        return D(("structs", structs), ("messages", [D(("_name", "M"), ("a", "L0"))]))
    yield f"layers-{depth}", build, p02_check


def p02_check(data, o):
    verdict_check(data, o, spec(data))


def p03_units(tier):
    lens = list(range(0, 7)) if tier == "quick" else list(range(0, 9))

    def base():
        return D(("structs", [D(("_name", "S1"), ("a", "byte"))]), ("messages", [D(("_name", "Ms"), ("b", "S1"))]),
                 ("enums", [D(("_name", "En"), ("_values", ["Aa", "Bb"]))]))

    for n in lens:
        def u(f, n=n):
            def build():
                d = base()
                f(d, n)
                return d
            return build

        def ns(d, n): d["meta"] = D(("namespace", S("x", n)))
        def sname(d, n):
            d["structs"].append(D(("_name", S("x", n)), ("a", "byte")))
        def mname(d, n):
            d["messages"].append(D(("_name", S("x", n)), ("a", "byte")))
        def ename(d, n):
            d["enums"].append(D(("_name", S("x", n)), ("_values", ["Q", "R"])))
        def smember(d, n):
            k = S("x", n)
            d["structs"].append(D(("_name", "S2"), ("p", "byte")))
            if not (n and k.startswith("_")):
                d["structs"][-1][k] = "byte"
        def mmember(d, n):
            k = S("x", n)
            if not (n and k.startswith("_")):
                d["messages"][0][k] = "[uint16]"
        def entry(d, n):
            d["enums"][0]["_values"].append(S("x", n))
        def tentry(d, n):
            d["enums"].append(D(("_name", "E2"), ("_values", [D(("_name", "Q"), ("_value", 5)), D(("_name", S("x", n)), ("_value", -3))])))
        for f in (ns, sname, mname, ename, smember, mmember, entry, tentry):
            yield f"{f.__name__}-{n}", u(f), p03_check
    # two or three names of the same length anywhere
    for n in (1, 2):
        for kinds in itertools.product(("structs", "messages", "enums"), repeat=2 if n == 2 else 3):
            def build(n=n, kinds=kinds):
                d = D(("structs", []), ("messages", []), ("enums", []))
                for i, k in enumerate(kinds):
                    nm = S(f"x{i}", n)
                    d[k].append(D(("_name", nm), ("_values", [f"p{i}", f"q{i}"])) if k == "enums" else D(("_name", nm), ("a", "byte")))
                return d
            yield f"pair-{n}-" + "-".join(kinds), build, p03_check
    for sec in ("structs", "messages", "enums"):
        def build(sec=sec):
            d = base()
            d[sec].append(D(("_values", ["Q"])) if sec == "enums" else D(("a", "byte")))
            return d
        yield f"missing-{sec}", build, p03_check
    def build():
        d = base()
        d["enums"].append(D(("_name", "E2"), ("_values", [D(("_value", 5)), D(("_name", "K"), ("_value", 6))])))
        return d
    yield "missing-entry", build, p03_check


def p03_check(data, o):
    verdict_check(data, o, spec(data))


def p04_units(tier):
    lens = list(range(0, 9)) if tier == "quick" else list(range(0, 11))
    for n in lens:
        for where in ("struct", "message"):
            def build(n=n, where=where):
                t = S("t", n)
                target = D(("_name", "M")) if where == "message" else D(("_name", "T"))
                target["first"] = "uint16"
                target["x"] = t
                target["last"] = "string"
                structs = [D(("_name", "Q"), ("a", "byte")), D(("_name", "Strct"), ("a", "[double]"))]
                msgs = [D(("_name", "N"), ("a", "byte"))]
                (msgs if where == "message" else structs).insert(0, target)
                return D(("structs", structs), ("messages", msgs), ("enums", [D(("_name", "E"), ("_values", ["aa", "bb"]))]))
            yield f"{where}-text{n}", build, p04_check
    for v in (5, True, ["byte"], []):
        def build(v=v):
            return D(("structs", []), ("messages", [D(("_name", "M"), ("x", v))]))
        yield f"nontext-{v}".replace(" ", ""), build, p04_check


def p04_check(data, o):
    ctx = pysym.CUR
    sp = spec(data)
    verdict_check(data, o, sp)
    if not o.ok or sp[0] is not True:
        return
    for sec, got in (("structs", o.proto.structs), ("messages", o.proto.messages)):
        for d in data[sec]:
            s = got[d["_name"]]
            want = [(k,) + split_type(t) for k, t in d.items() if not k.startswith("_")]
            if len(want) != len(s.members):
                return ctx.fail(("members", "members lost or invented", data))
            for (k, isl, el), m in zip(want, s.members):
                if m.name != k or bool(m.is_list) != isl or not bool(m.vartype == el):
                    return ctx.fail(("members", f"member {k} changed", data))


def p04_concrete(data, r):
    if not r.get("ok"):
        return None
    for sec in ("structs", "messages"):
        for d in data[sec]:
            want = [[k] + list(split_type(t))[::-1] for k, t in d.items() if not k.startswith("_")]
            got = [m[:3] for m in r["aggs"][d["_name"]]["members"]]
            if want != got:
                return f"members of {d['_name']}: {got}, declared {want}"
    return None


def p06_units(tier):
    lens = [1, 3, 4, 5, 6, 8]

    def build(n, n2, where):
        t, t2 = S("t", n), S("u", n2)
        inner = D(("_name", "I"), ("a", t), ("b", t2))
        outer = D(("_name", "O"), ("k", "byte"), ("i", "I"), ("j", "double"))
        return D(("structs", [outer, inner] if where else [inner, outer]),
                 ("messages", [D(("_name", "M"), ("o", "O"), ("z", "bool"))]),
                 ("enums", [D(("_name", "E"), ("_values", [D(("_name", "A"), ("_value", I("v"))), D(("_name", "B"), ("_value", I("w")))]))]))
    pairs = [(n, 4) for n in lens] + [(4, 6), (6, 1), (1, 1), (8, 1), (6, 8), (6, 6)]
    for i, (n, n2) in enumerate(pairs):
        if tier == "quick" and (n, n2) in ((6, 6),):
            continue
        yield f"types-{n}-{n2}", (lambda n=n, n2=n2, w=i % 2: build(n, n2, w)), p06_check


def spec_simple_size(data, enc):
    structs = {d["_name"]: d for d in data["structs"]}

    def of(t):
        isl, el = split_type(t)
        if isl or bool(el == "string"):
            return None
        for b in BASIC:
            if bool(el == b):
                return SIZES[b]
        if bool(el == "E"):
            return SIZES[enc]
        for n, d in structs.items():
            if bool(el == n):
                return agg(d)
        raise Unsupported("type")

    def agg(d):
        tot = 0
        for k, t in d.items():
            if k.startswith("_"):
                continue
            s = of(t)
            if s is None:
                return None
            tot += s
        return tot
    return agg


def p06_check(data, o):
    ctx = pysym.CUR
    sp = spec(data)
    if not o.ok or sp[0] is not True:
        return              # acceptance itself is P01..P04
    ctx.notes["accepted"] = 1
    agg = spec_simple_size(data, None)
    vals = [v["_value"].e for v in data["enums"][0]["_values"]]
    allin = lambda a, b: symcore.norm_b(z3.And(*[z3.And(v >= a, v <= b) for v in vals]))
    enc = "byte" if ctx.branch(allin(0, 255)) else ("int16" if ctx.branch(allin(-2**15, 2**15 - 1)) else "int32")
    agg = spec_simple_size(data, enc)
    for sec, got in (("structs", o.proto.structs), ("messages", o.proto.messages)):
        for d in data[sec]:
            want = agg(d)
            s = got[d["_name"]]
            if bool(s.is_simple()) != (want is not None):
                return ctx.fail(("simple", f"{d['_name']} counted {'simple' if want is None else 'not simple'}", data))
            if want is not None:
                z = o.proto.get_size_of(d["_name"])
                if z != want:
                    return ctx.fail(("size", f"size of {d['_name']} reckoned {z}, stored in {want}", data))


def p06_concrete(data, r):
    if not r.get("ok"):
        return None
    sd = to_sym(data)
    vs = [v["_value"] for v in data["enums"][0]["_values"]]
    enc = "byte" if min(vs) >= 0 and max(vs) <= 255 else ("int16" if min(vs) >= -2**15 and max(vs) < 2**15 else "int32")
    agg = spec_simple_size(sd, enc)
    bad = []
    for sec in ("structs", "messages"):
        for d in sd[sec]:
            want = agg(d)
            g = r["aggs"][d["_name"]]
            if g["simple"] != (want is not None):
                bad.append(f"{d['_name']}: simple={g['simple']}")
            elif want is not None and g["size"] != want:
                bad.append(f"{d['_name']}: size {g['size']} instead of {want}")
    return "; ".join(bad) or None


def p07_units(tier):
    for n in range(0, 8 if tier == "quick" else 10):
        for which in ("list_size_type", "string_size_type"):
            def build(n=n, which=which):
                return D(("meta", D((which, S("t", n)))), ("messages", [D(("_name", "M"), ("x", "[string]"))]))
            yield f"{which}-{n}", build, p07_check
    for n1, n2 in ((4, 6), (5, 6), (6, 4), (6, 5), (4, 5)):
        def build(n1=n1, n2=n2):
            return D(("meta", D(("list_size_type", S("t", n1)), ("string_size_type", S("u", n2)))), ("messages", [D(("_name", "M"), ("x", "[string]"))]))
        yield f"both-{n1}-{n2}", build, p07_check
    for n in (0, 1, 254, 255, 256, 257, 300):
        def build(n=n):
            return D(("meta", D(("namespace", S("n", 2)))),
                     ("messages", [D(("_name", f"M{i}"), ("x", "byte")) for i in range(n)]))
        yield f"messages-{n}", build, p07_check


def p07_check(data, o):
    ctx = pysym.CUR
    sp = spec(data)
    verdict_check(data, o, sp)
    if not o.ok or sp[0] is not True:
        return
    meta = data.get("meta", {})
    for attr in ("list_size_type", "string_size_type"):
        want = meta[attr] if attr in meta else "uint32"
        if not bool(getattr(o.proto, attr) == want):
            return ctx.fail(("meta", f"{attr} is not the declared one", data))


def p07_concrete(data, r):
    if not r.get("ok"):
        return None
    meta = data.get("meta", {})
    bad = []
    for attr, k in (("list_size_type", "list_size"), ("string_size_type", "string_size")):
        if r[k] != meta.get(attr, "uint32"):
            bad.append(f"{attr}: {r[k]}")
    return "; ".join(bad) or None


UNITS = {"P01": (p01_units, p01_concrete), "P02": (p02_units, None), "P03": (p03_units, None),
         "P04": (p04_units, p04_concrete), "P06": (p06_units, p06_concrete), "P07": (p07_units, p07_concrete)}


def one_unit(args):
    """run in a worker process"""
    prop, tier, name = args
    symcore.STATS.update(queries=0, secs=0.0, paths=0, forks=0, proofs=0)
    t0 = time.time()
    out = dict(name=name, viol=None, error=None, accepted=0, rejected=0, hangs=0)
    units = {n: (b, c) for n, b, c in UNITS[prop][0](tier)}
    build, check = units[name]

    def fn(ctx):
        pysym.CUR = ctx
        data = build()
        o = run_real(data, 1500 if name.startswith(('circle', 'ring')) else 200000)
        if o.ok:
            out["accepted"] += 1
        elif o.hang:
            out["hangs"] += 1
        else:
            out["rejected"] += 1
        check(data, o)
        if out.get("sample") is None and ctx.feasible():
            out["sample"] = dict(protocol=pysym.concrete(ctx.model, data), accepted=bool(o.ok)) if len(repr(data)) < 2000 else None
    try:
        res = symcore.explore(fn, max_paths=200000, deadline=time.time() + (1500 if tier == "thorough" else 400))
        out["paths"] = res.paths
        if res.failures:
            (kind, what, data), model = res.failures[0]
            out["viol"] = (kind, what, pysym.concrete(model, data))
    except Budget as e:
        out["error"] = f"inconclusive: {e}"
    except Unsupported as e:
        out["error"] = f"construct not encoded: {e}"
    except Exception as e:
        import traceback
        out["error"] = "internal: " + traceback.format_exc(limit=-3)
    out["stats"] = dict(symcore.STATS)
    out["secs"] = time.time() - t0
    return out


def confirm(prop, kind, data):
    """does the unmodified package show it on this concrete protocol? (what, observed) or None"""
    r = concrete_run(data)
    pysym.CUR = symcore.Ctx()
    v, why = spec(to_sym(data))
    if r.get("hang"):
        return "the tool does not come to an end within 20 s", r
    if r.get("crash"):
        return None
    if v is not None and r["ok"] != v:
        return f"the tool {'accepts' if r['ok'] else 'rejects'} this protocol; documented rule: {why if v is False else 'legal'}" + \
               (f" ({r.get('exc')})" if not r["ok"] else ""), r
    conc = UNITS[prop][1]
    if conc and v is True:
        w = conc(data, r)
        if w:
            return w, r
    return None


def validate(prop, rep, samples):
    """push concrete protocols of the run through the real package: the encoding must agree with it"""
    for s in samples:
        r = concrete_run(s["protocol"])
        if r.get("ok") is not None:
            rep.replayed += 1
            if r["ok"] != s["accepted"]:
                rep.error(f"encoding disagrees with the package on {s['protocol']}: encoded {s['accepted']}, package {r['ok']}")


def run(prop, rep, tier):
    if prop == "P05":
        return run_cli(prop, rep, tier)
    rep.functions |= {"beschi/protocol.py: Protocol.__init__ and everything it calls", "beschi/protocol.py: Enum", "beschi/protocol.py: Struct, Variable"}
    rep.bounds = {"P01": "enums of 1-3 (thorough 4) explicit entries with unbounded symbolic values; listed enums incl. 255..258 entries",
                  "P02": "up to 5 (thorough 6) structs with 1-2(3) members each, every member type symbolic over all the structs and a leaf",
                  "P03": "names of 0-6 (thorough 8) symbolic 7-bit characters in every naming position; pairs and triples of names",
                  "P04": "type texts of 0-8 (thorough 10) symbolic 7-bit characters in structs and messages",
                  "P06": "two symbolic type texts (1-8 characters) in a struct nested in a struct in a message, symbolic enum values",
                  "P07": "size type texts of 0-7 (thorough 9) symbolic characters; 0, 1, 254..257, 300 messages"}[prop]
    rep.assumptions = ["text characters are 7-bit; TOML parsing itself is tomllib's and is stubbed by its result",
                       "containers are replaced by association lists with the same observable behaviour"]
    names = [n for n, _, _ in UNITS[prop][0](tier)]
    names_order = sorted(names, key=lambda n: -len(n))
    with mp.get_context("fork").Pool(common.JOBS, maxtasksperchild=20) as pool:
        outs = list(pool.imap_unordered(one_unit, [(prop, tier, n) for n in names_order], chunksize=1))
    samples = []
    acc = rej = 0
    for o in sorted(outs, key=lambda o: o["name"]):
        st = o["stats"]
        rep.query(st["queries"], st["secs"])
        rep.states += st["paths"]
        rep.transitions += st["forks"] + st["paths"]
        acc += o["accepted"]
        rej += o["rejected"]
        rep.unit(o["name"], paths=st["paths"], queries=st["queries"], accepted=o["accepted"], rejected=o["rejected"], secs=round(o["secs"], 2))
        if o.get("sample"):
            samples.append(o["sample"])
        if o["error"]:
            rep.error(f"{o['name']}: {o['error']}")
        if o["viol"] and len(rep.violations) < 3:
            kind, what, data = o["viol"]
            c = confirm(prop, kind, data)
            if c is None:
                rep.error(f"{o['name']}: counterexample not reproduced by the package: {what}: {data}")
            else:
                rep.replayed += 1
                toml = to_toml(data)
                rep.violation(f"{o['name']}:{kind}", f"{c[0]}\n{what}\nprotocol:\n{toml}", {
                    "p.toml": toml, "r.py": REPLAY,
                    "replay.sh": "#!/bin/sh\ncd \"$(dirname \"$0\")\" && PYTHONPATH=/repo timeout 20 /usr/bin/python3 -B r.py p.toml\n"})
    if not acc or (not rej and prop != "P06"):
        if not rep.violations:
            rep.error(f"vacuous: accepted paths {acc}, rejected paths {rej}")
    rep.vacuity_ok = acc + rej
    rep.samples = samples[:8]
    rep.extra = dict(paths_accepted=acc, paths_rejected=rej)
    import random
    random.Random(common.SEED).shuffle(samples)
    validate(prop, rep, samples[:10])


# ---------------------------------------------------------------------------------------------
# P05: the command line driver
MARK = "/* generated */ 0123456789 \n" * 3

CLI_CASES = []


class StubProtocol:
    def __init__(self, exc, ns):
        self.namespace = ns


EXCS = [None, FileNotFoundError("nope"), KeyError("x"), RecursionError("r"), ValueError("v"), TypeError("t"),
        NotImplementedError("n"), IndexError("i"), AttributeError("a"), UnicodeDecodeError("utf-8", b"x", 0, 1, "bad")]
GENS = [None, NotImplementedError("n"), KeyError("k"), ValueError("v"), RuntimeError("r")]


def cli_spec(case, ns, lang_ok):
    """does this invocation succeed"""
    pass


def cli_unit(args):
    idx, tier = args
    symcore.STATS.update(queries=0, secs=0.0, paths=0, forks=0, proofs=0)
    has_p, has_l, has_o, has_n, lang_len, ns_len, prior = CLI_UNITS(tier)[idx]
    out = dict(name=f"p{has_p}-l{has_l}{lang_len if has_l else ''}-o{has_o}-n{ns_len if has_n else '-'}-prior{prior}", viol=None, error=None,
               accepted=0, rejected=0, sample=None)
    t0 = time.time()

    def fn(ctx):
        pysym.CUR = ctx
        pysym.STEPS[:] = [0, 50000]
        lang = S("lang", lang_len) if has_l else None
        ns = S("ns", ns_len) if has_n else None
        pe = ctx.choose(len(EXCS))
        ge = ctx.choose(len(GENS)) if pe == 0 else 0
        case = dict(p=has_p, l=lang, o=has_o, n=ns, pe=pe, ge=ge, prior=prior)
        obs = run_cli_sym(case)
        # the documented outcome
        ok = has_p and has_l and pe == 0 and ge == 0
        if ok:
            ok = bool(eq_any(lang, list(REAL_LANGS)))
        if ok and has_n and bool(has_ws(ns)):
            ok = False
        bad = judge(obs, ok, has_o, prior)
        out["accepted" if ok else "rejected"] += 1
        if bad:
            ctx.fail((bad, case))
        elif out["sample"] is None and ctx.feasible():
            out["sample"] = dict(case=pysym.concrete(ctx.model, SDict(case)), ok=bool(ok))
    try:
        res = symcore.explore(fn, max_paths=100000, deadline=time.time() + 300)
        if res.failures:
            (what, case), model = res.failures[0]
            out["viol"] = (what, pysym.concrete(model, SDict(case)))
    except Budget as e:
        out["error"] = f"inconclusive: {e}"
    except Unsupported as e:
        out["error"] = f"construct not encoded: {e}"
    except Exception:
        import traceback
        out["error"] = "internal: " + traceback.format_exc(limit=-3)
    out["stats"] = dict(symcore.STATS)
    out["secs"] = time.time() - t0
    return out


def judge(obs, ok, has_o, prior):
    if ok:
        if obs["status"] != 0:
            return f"legal invocation ended with status {obs['status']}"
        if has_o:
            if obs["file"] != MARK:
                return "output file does not hold exactly the generated code"
        elif obs["stdout"] not in (MARK, MARK + "\n"):
            return "generated code not printed"
        return None
    if obs["status"] == 0:
        return "failure not reported by the exit status"
    if obs["file"] != ("old" if prior else None):
        return "output file touched although the invocation failed"
    if obs["stdout"].strip():
        return "output printed although the invocation failed"
    return None


def CLI_UNITS(tier):
    u = []
    for has_p in (1, 0):
        for has_l in (1, 0):
            for has_o in (1, 0):
                for ns_len in (None, 0, 1, 2, 3):
                    for lang_len in ((1, 2, 3, 4, 5, 6, 10) if has_l else (0,)):
                        if ns_len not in (None, 1) and lang_len not in (0, 4):
                            continue
                        if not has_p and lang_len not in (0, 2):
                            continue
                        for prior in ((0, 1) if has_o else (0,)):
                            if prior and lang_len not in (0, 2):
                                continue
                            u.append((has_p, has_l, has_o, ns_len is not None, lang_len, ns_len or 0, prior))
    return u


REAL_LANGS = ["c", "csharp", "go", "rust", "swift", "typescript", "zig", "assemblyscript"]


def stub_writers(case, sym):
    class W:
        def __init__(self, protocol, extra_args=None, **kw):
            self.protocol = protocol
            self.tab = "    "

        @classmethod
        def get_additional_args(cls, parser):
            pass

        def generate(self):
            e = GENS[case["ge"]]
            if e is not None:
                raise e
            return MARK
    D_ = SDict if sym else dict
    allw = D_([(n, W) for n in REAL_LANGS[:-1]])
    exp = D_([(n, W) for n in REAL_LANGS[-1:]])
    return allw, exp


def run_cli_sym(case):
    import argparse
    import types
    d = tempfile.mkdtemp(prefix="beschi-verif-cli-")
    out_path = os.path.join(d, "out.txt")
    try:
        if case["prior"]:
            open(out_path, "w").write("old")
        argv = ["beschi"]
        if case["p"]:
            argv += ["--protocol", "proto.toml"]
        if case["o"]:
            argv += ["--output", out_path]
        if case["l"] is not None:
            argv += ["--lang", "LANG"]
        if case["n"] is not None:
            argv += ["--namespace", "NS"]
        sysm = types.ModuleType("sys")
        sysm.__dict__.update(sys.__dict__)
        so, se = io.StringIO(), io.StringIO()
        sysm.stdout, sysm.stderr, sysm.argv = so, se, argv
        apm = types.ModuleType("argparse")
        apm.__dict__.update(argparse.__dict__)

        class AP(argparse.ArgumentParser):
            def parse_args(self, args=None, namespace=None):
                a = super().parse_args(argv[1:] if args is None else args, namespace)
                for k, v in list(vars(a).items()):
                    if v == "LANG":
                        setattr(a, k, case["l"])
                    elif v == "NS":
                        setattr(a, k, case["n"])
                return a
        apm.ArgumentParser = AP
        real = sym_protocol_module(lambda: SDict())
        pm = types.ModuleType("beschi.protocol")
        pm.__dict__.update({k: v for k, v in real.__dict__.items() if not k.startswith("__")})

        class P(StubProtocol):
            def __init__(self, fn=None):
                e = EXCS[case["pe"]]
                if e is not None:
                    raise e
                self.namespace = None
        pm.Protocol = P
        wm = types.ModuleType("beschi.writers")
        wm.all_writers, wm.experimental_writers = stub_writers(case, True)
        pk = types.ModuleType("beschi")
        pk.LIB_NAME, pk.LIB_VERSION = "Beschi", "0"

        def pr(*a, sep=" ", end="\n", file=None, flush=False):
            print(*a, sep=sep, end=end, file=so if file is None else file)
        mods = {"sys": sysm, "argparse": apm, ".protocol": pm, ".writers": wm, ".": pk, "__builtins__": {"print": pr}}
        m = pysym.load(os.path.join(PKG, "cli.py"), "beschi.cli", "beschi", mods)
        status = 0
        try:
            m.main()
        except SystemExit as e:
            status = 0 if e.code in (None, 0) else 1
        except pysym.StepLimit:
            status = 99
        except Exception as e:
            status = 1
        return dict(status=status, stdout=so.getvalue(), file=open(out_path).read() if os.path.exists(out_path) else None)
    finally:
        shutil.rmtree(d, ignore_errors=True)


CLI_REPLAY = r'''
import sys, json, io
case = json.load(open("case.json"))
import beschi.cli as cli
import beschi.protocol as bp
MARK = "/* generated */ 0123456789 \n" * 3
EXCS = [None, FileNotFoundError("nope"), KeyError("x"), RecursionError("r"), ValueError("v"), TypeError("t"),
        NotImplementedError("n"), IndexError("i"), AttributeError("a"), UnicodeDecodeError("utf-8", b"x", 0, 1, "bad")]
GENS = [None, NotImplementedError("n"), KeyError("k"), ValueError("v"), RuntimeError("r")]
class P:
    def __init__(self, fn=None):
        if EXCS[case["pe"]] is not None: raise EXCS[case["pe"]]
        self.namespace = None
class W:
    def __init__(self, protocol, extra_args=None, **kw): self.protocol, self.tab = protocol, "    "
    @classmethod
    def get_additional_args(cls, parser): pass
    def generate(self):
        if GENS[case["ge"]] is not None: raise GENS[case["ge"]]
        return MARK
cli.Protocol = P
cli.all_writers = {n: W for n in cli.all_writers}
cli.experimental_writers = {n: W for n in cli.experimental_writers}
argv = ["beschi"]
if case["p"]: argv += ["--protocol", "proto.toml"]
if case["o"]: argv += ["--output", "out.txt"]
if case["l"] is not None: argv += ["--lang=" + case["l"]]
if case["n"] is not None: argv += ["--namespace=" + case["n"]]
sys.argv = argv
cli.main()
'''


def run_cli_real(case):
    d = tempfile.mkdtemp(prefix="beschi-verif-cli-")
    try:
        with open(os.path.join(d, "case.json"), "w") as f:
            json.dump(case, f)
        with open(os.path.join(d, "r.py"), "w") as f:
            f.write(CLI_REPLAY)
        o = os.path.join(d, "out.txt")
        if case["prior"]:
            open(o, "w").write("old")
        rc, so, se = common.sh(["/usr/bin/python3", "-B", "r.py"], timeout=20, cwd=d, env={"PYTHONPATH": common.REPO})
        return dict(status=0 if rc == 0 else 1, stdout=so, stderr=se, file=open(o).read() if os.path.exists(o) else None)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def real_cli_end_to_end(rep):
    """the real tool on the corpus and on one broken protocol, in every language: nothing stubbed"""
    d = tempfile.mkdtemp(prefix="beschi-verif-cli-")
    try:
        with open(os.path.join(d, "bad.toml"), "w") as f:
            f.write('[[messages]]\n_name = "A"\nx = "nothing"\n')
        jobs = [(lang, ok) for lang in REAL_LANGS for ok in (True, False)]

        def one(j):
            lang, ok = j
            out = os.path.join(d, f"{lang}-{ok}.out")
            proto = os.path.join(common.CORPUS, "stream.toml") if ok else os.path.join(d, "bad.toml")
            rc, so, se = common.sh(common.beschi_cmd(lang, proto, out), cwd=d, env={"PYTHONPATH": common.REPO}, timeout=60)
            rc2, so2, _ = common.sh(common.beschi_cmd(lang, proto, out)[:-2], cwd=d, env={"PYTHONPATH": common.REPO}, timeout=60)
            if ok and (rc or not os.path.exists(out) or rc2 or so2.rstrip("\n") != open(out).read().rstrip("\n")):
                return lang, "a legal protocol is not written out completely"
            if not ok and (rc == 0 or os.path.exists(out) or so or rc2 == 0 or so2):
                return lang, "a rejected protocol leaves output or a success status"
            return None
        for r in common.pmap(one, jobs):
            rep.replayed += 1
            if r:
                rep.violation(f"tool:{r[0]}", f"{r[0]}: {r[1]}", {"bad.toml": open(os.path.join(d, "bad.toml")).read()})
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_cli(prop, rep, tier):
    rep.functions |= {"beschi/cli.py: main"}
    rep.bounds = ("every presence/absence of --protocol, --lang, --output, --namespace; language texts of 1-6 and 10 and namespaces of 0-3 symbolic "
                  "7-bit characters; 9 kinds of protocol rejection, 4 kinds of generator failure; output file existing or not")
    rep.assumptions = ["Protocol and the writers are stubs that return or raise arbitrarily; argparse itself is trusted"]
    with mp.get_context("fork").Pool(common.JOBS) as pool:
        outs = pool.map(cli_unit, [(i, tier) for i in range(len(CLI_UNITS(tier)))], chunksize=1)
    acc = rej = 0
    samples = []
    for o in outs:
        st = o["stats"]
        rep.query(st["queries"], st["secs"])
        rep.states += st["paths"]
        rep.transitions += st["forks"] + st["paths"]
        acc += o["accepted"]
        rej += o["rejected"]
        rep.unit(o["name"], paths=st["paths"], queries=st["queries"])
        if o["sample"]:
            samples.append(o["sample"])
        if o["error"]:
            rep.error(f"{o['name']}: {o['error']}")
        if o["viol"]:
            what, case = o["viol"]
            pysym.CUR = symcore.Ctx()
            ok = case["p"] and case["l"] in REAL_LANGS and case["pe"] == 0 and case["ge"] == 0 and \
                not (case["n"] and any(ord(c) in pysym.WS for c in case["n"]))
            obs = run_cli_real(case)
            bad = judge(obs, ok, case["o"], case["prior"])
            if bad:
                rep.replayed += 1
                rep.violation(what.split(" ended")[0], f"{bad}: {json.dumps(case)}\nobserved {obs}", {"case.json": json.dumps(case), "r.py": CLI_REPLAY})
            else:
                rep.error(f"{o['name']}: not reproduced: {what} {case} {obs}")
    rep.vacuity_ok = acc + rej
    if not acc or not rej:
        rep.error("vacuous")
    rep.samples = samples[:8]
    rep.extra = dict(paths_succeeding=acc, paths_failing=rej)
    for s in samples[:6]:
        obs = run_cli_real(s["case"])
        rep.replayed += 1
        if judge(obs, s["ok"], s["case"]["o"], s["case"]["prior"]):
            rep.error(f"encoding disagrees with the tool: {s} {obs}")
    real_cli_end_to_end(rep)
