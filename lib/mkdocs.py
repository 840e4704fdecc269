"""python3-vt lib/mkdocs.py: writes properties.jsonl and MANIFEST.json from the tables below.

CLAIMED lists the properties whose machinery is built; every other property is listed under not_applicable.
"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

LANGS = {
    "C": ("C", "beschi/writers/c.py", "beschi/writers/boilerplate/C.*",
          "symbolic execution of the LLVM IR clang emits for the generated C (z3), and CBMC (SAT bounded model checking) of its source",
          "error codes"),
    "R": ("Rust", "beschi/writers/rust.py", "beschi/writers/boilerplate/Rust.rs",
          "symbolic execution of the LLVM IR rustc emits for the generated Rust, z3",
          "Err results"),
    "G": ("Go", "beschi/writers/go.py", "beschi/writers/boilerplate/Go.go",
          "symbolic execution of the go/ssa form of the generated Go, z3",
          "error results"),
    "T": ("TypeScript", "beschi/writers/typescript.py", "beschi/writers/boilerplate/TypeScript.ts",
          "symbolic execution of the generated TypeScript from its AST, z3",
          "thrown errors"),
    "S": ("C#", "beschi/writers/csharp.py", "beschi/writers/boilerplate/CSharp.*",
          "symbolic execution of the CIL the C# compiler emits for the generated C#, z3",
          "thrown exceptions"),
    "Z": ("Zig", "beschi/writers/zig.py", "beschi/writers/boilerplate/Zig.zig",
          "symbolic execution of the LLVM IR zig emits for the generated Zig, z3",
          "error unions"),
    "W": ("Swift", "beschi/writers/swift.py", "beschi/writers/boilerplate/Swift.1.swift", "", "thrown errors"),
    "A": ("AssemblyScript", "beschi/writers/assemblyscript.py", "beschi/writers/boilerplate/AssemblyScript.ts",
          "", "null results"),
}

PROPS = []
X03 = {"C": " Writing into a buffer with too little room is reported, and nothing is written outside it."}


def prop(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, title
    PROPS.append(dict(id=id, title=title, statement=statement,
                      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))


def first(bp, k, n):
    return bp.replace("*", f"{n}.h" if k == "C" else "1.cs")


for k, (lang, wr, bp, tech, errs) in LANGS.items():
    prop(f"{k}01", f"{lang}: written bytes are the documented layout and the reported size",
         f"For every accepted protocol and every message value, the {lang} code generated for it writes exactly the documented "
         "bytes: members in declaration order, little-endian, strings and lists prefixed by their length in the protocol's "
         "size types, enums in their smallest encoding, and the message's 1-based tag in front when asked for. "
         "The size the message reports beforehand is the number of bytes written. "
         "A newly made message holds the defaults: zero, false, empty, and the first entry of each enum.",
         ["inputs", "programs"],
         "all protocols accepted by the tool (members of every type, nesting and size type) and all values of their messages",
         "Tests write a handful of fixed values of a few protocols and mostly read them back with the same code, so two "
         "matching mistakes cancel out; sizes, signs, empty/odd lengths and member combinations are sampled, not covered.",
         [wr, first(bp, k, 1), "docs/protocols.md"],
         [("serializer and size generation", wr), ("primitive writers", bp)])
    prop(f"{k}02", f"{lang}: reading written bytes gives back the same message",
         f"For every accepted protocol and every message value, the generated {lang} code reads the documented bytes of that value "
         "back into an equal message, member by member and element by element. "
         "Afterwards the read position stands right behind the message, whatever bytes follow it.",
         ["inputs", "programs"],
         "all protocols accepted by the tool and all encodings of their messages, followed by arbitrary bytes",
         "Tests read one or two fixed files per protocol; values at the edges of each type (sign bits, long lengths, multi-byte "
         "text, nested empties) are never enumerated.",
         [wr, first(bp, k, 1)],
         [("deserializer generation", wr), ("primitive readers", bp)])
    prop(f"{k}03", f"{lang}: truncated or invalid input is reported, never read as a message",
         f"When the input ends before the message does, at whatever byte, the generated {lang} code reports it ({errs}) "
         "and neither returns a message nor reads outside the input. "
         "A value that is not one of an enum's declared ones is reported the same way wherever an enum occurs, and "
         "every declared value is accepted. A string or list length that claims more than the input holds is reported too, and a negative "
         "one never makes the reader crash." + X03.get(k, ""),
         ["inputs", "programs", "fault_sequences"],
         "all accepted protocols, every proper prefix of every encoding, and every stored integer in every enum position",
         "Tests cut one message at one place and try one bad enum number; the other offsets, member types and enum positions "
         "(inside structs, lists, lists of structs) are not tried.",
         [wr, first(bp, k, 1)],
         [("bounds and enum checks in generated readers", wr), ("primitive readers", bp)])
    prop(f"{k}04", f"{lang}: message streams and packed buffers are framed and read correctly",
         f"In {lang}, reading a stream of tagged messages gives exactly the messages written, in order and of the right kinds, "
         "stops after the stated maximum, at a zero tag or at the end of the data, and reports an unknown tag. "
         "Packing writes the BSCI mark, the message count, the tagged messages and a closing zero in exactly the reported "
         "packed size, and unpacking gives the same messages back. "
         "Unpacking data without the mark, or with a count of more messages than are there, is reported.",
         ["inputs", "histories"],
         "all sequences of messages of a protocol, all maxima, all tags and all packed headers",
         "Tests stream one fixed sequence and try one unknown tag; other orders, repeats, maxima, terminators, headers and "
         "counts are not tried.",
         [wr, first(bp, k, 2)],
         [("stream reader and packing generation", wr)])

prop("C05", "C: message memory is owned exactly once through every life cycle",
     "In the generated C, a message that was made, filled in or read (even when the read failed) can be cleaned up or destroyed "
     "once: all memory it owns is released, nothing is released twice, nothing it does not own is released, and no "
     "freed or uninitialised memory is used. This holds for the messages a stream read or unpack returns as well.",
     ["histories", "inputs", "fault_sequences"],
     "all accepted protocols, all lengths of strings and lists (also zero), and every point at which a read can fail",
     "Tests never run with a memory checker, and never destroy a partly read message or one still holding its defaults.",
     ["beschi/writers/c.py", "beschi/writers/boilerplate/C.1.h"],
     [("create, cleanup, destroy and read functions", "beschi/writers/c.py")])

prop("Z05", "Zig: allocated memory is released exactly once through every life cycle",
     "In the generated Zig, all memory allocated while reading a message, a stream or packed data is released when the messages and the "
     "returned list are cleaned up, and already when the read fails, at whatever point and for whatever reason (also a failing "
     "allocation). Nothing is released twice or with another size, and no freed memory is used.",
     ["histories", "inputs", "fault_sequences"],
     "all accepted protocols, all lengths of strings and lists (also zero), and every point at which a read or an allocation can fail",
     "Tests check for leaks after one truncated read; other cut points, bad enums, partly read streams and failing allocations are not tried.",
     ["beschi/writers/zig.py", "beschi/writers/boilerplate/Zig.zig"],
     [("fromBytes, deinit and stream reading", "beschi/writers/zig.py"), ("readList, unpackMessages", "beschi/writers/boilerplate/Zig.zig")])

prop("P01", "Enums are stored in the smallest sufficient integer, and never out of range",
     "For every enum a protocol may declare, the stored width is one unsigned byte when every value is in 0..255, otherwise two "
     "signed bytes when every value fits, otherwise four signed bytes; an enum with a value no four-byte integer holds is "
     "rejected. Listed names get 0, 1, 2... in order, explicit values are kept, the default is the first entry, and "
     "membership is exactly the declared values.",
     ["inputs", "programs"], "all sets of enum values, listed or explicit",
     "Tests declare about five enums; the widths at the edges (-1, 255/256, -32768/32767, 2^31) and mixtures are not tried.",
     ["beschi/protocol.py"], [("enum parsing and encoding choice", "beschi/protocol.py Enum")])
prop("P02", "Circular struct references are rejected, and nothing else is for that reason",
     "For every set of structs, whatever their order and however they contain each other directly or in lists, the tool ends "
     "promptly, rejects the protocol when some struct contains itself directly or through others, and does not reject it "
     "for this reason otherwise.",
     ["inputs", "programs"], "all containment graphs between structs, in every declaration order",
     "Tests try one or two fixed circular protocols; other lengths, entry points, orders and shared (diamond) shapes are not tried.",
     ["beschi/protocol.py"], [("circular reference check", "beschi/protocol.py")])
prop("P03", "Names in a protocol are accepted exactly when they are documented as legal",
     "A protocol is rejected when the name of a struct, message or enum is missing, empty, contains whitespace, is the same as a "
     "basic type (or string or list, in any letter case) or is used by another of them, when a member name contains whitespace or is "
     "exactly one of those words, or when two entries of an enum share a name, an entry name contains whitespace or is the name of a struct or "
     "message. A namespace with whitespace, in the file or on the command line, is rejected too. "
     "A protocol with none of these faults is not rejected for its names.",
     ["inputs", "programs"], "all names in every naming position of a protocol",
     "Tests keep a short directory of faulty protocols, one per rule; the rules are not tried in every position or combination.",
     ["beschi/protocol.py", "beschi/__main__.py"], [("name validation", "beschi/protocol.py")])
prop("P04", "Member types are accepted exactly when they exist and may be contained",
     "For every protocol, a member's type is accepted exactly when it is a basic type, string, enum or struct of the "
     "protocol (declared before or after), or a list of one; unknown names, messages as members, lists of lists and "
     "malformed type text are rejected. Declared members are kept in order with their declared types.",
     ["inputs", "programs"], "all member type texts in structs and messages, and all declaration orders",
     "Tests try a few faulty types in one place each.",
     ["beschi/protocol.py"], [("member and list parsing", "beschi/protocol.py")])
prop("P05", "Rejected protocols produce an error exit and no output file",
     "Whenever the tool rejects its protocol or arguments it exits with a failure status and leaves no output behind, "
     "and whenever it accepts them it writes the complete generated code to the asked-for place and exits successfully.",
     ["inputs", "programs", "configurations"], "all protocols and command lines",
     "Tests call the library entry points, rarely the command line, and do not check what is left behind.",
     ["beschi/__main__.py", "beschi/protocol.py"], [("command line driver", "beschi/__main__.py")])
prop("P06", "Fixed-size accounting of types is exact",
     "A type is treated as simple exactly when it holds no string or list, directly or inside contained structs, and the "
     "fixed size reckoned for a simple type is the number of bytes its values are stored in.",
     ["inputs", "programs"], "all accepted protocols and all types in them",
     "Tests never look at the reckoned sizes; they only show in read-ahead and size shortcuts of some writers.",
     ["beschi/protocol.py"], [("size and simplicity of types", "beschi/protocol.py Protocol")])
prop("P07", "Protocol-wide limits and options are enforced",
     "A protocol with more than 255 messages, or with a list or string size type that is not one of the integer types, is rejected, "
     "and is not rejected for these reasons otherwise; size types default to uint32 and otherwise are the declared ones.",
     ["inputs", "programs", "configurations"], "all numbers of messages and all meta settings",
     "Tests do not reach the limits nor enumerate the size types.",
     ["beschi/protocol.py"], [("protocol parsing", "beschi/protocol.py")])

NOTES = {}
CLAIMED = ["C01", "C02", "C03", "C04", "C05"]
exec(open(os.path.join(V, "lib", "claimed.py")).read()) if os.path.exists(os.path.join(V, "lib", "claimed.py")) else None

NA = {}
for k, lang, comp in (("W", "Swift", "swiftc"), ("A", "AssemblyScript", "asc")):
    for n in "1234":
        NA[f"{k}0{n}"] = (f"no {lang} compiler ({comp}) is installed, so neither its intermediate representation can be had nor a "
                          "counterexample be replayed against the real code; judging the text instead would be another technique")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in PROPS:
        i = p["id"]
        if i in CLAIMED:
            tech = LANGS[i[0]][3] if i[0] in LANGS else "symbolic execution of beschi's Python (proxy values forked by z3)"
            checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick python3-vt lib/run.py {i}",
                               thorough_cmd=f"VERIF_TIER=thorough python3-vt lib/run.py {i}",
                               technique="solver-based checking: " + tech, level="model_checking",
                               level_note=NOTES.get(i, NOTES.get(i[0], ""))))
        else:
            na.append(dict(property=i, reason=NA.get(i, "the machinery for this property is not built yet")))
    json.dump(dict(version=1, setup_cmd="python3-vt lib/setup.py", checks=checks, not_applicable=na),
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed,", len(na), "not applicable")


main()
