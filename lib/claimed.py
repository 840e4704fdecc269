CLAIMED = ["C01", "C02", "C03", "C04", "C05", "P01", "P02", "P03", "P04", "P05", "P06", "P07", "T01", "T02", "T03", "T04",
           "G01", "G02", "G03", "G04", "R01", "R02", "R03", "R04", "S01", "S02", "S03", "S04", "Z01", "Z02", "Z03", "Z04", "Z05"]
NOTES.update({
    "C": "Bounded: the corpus protocols and, per message, the stated length skeletons with all contents symbolic. Two engines decide it: "
         "clang's LLVM IR of the generated C (with undefined-behaviour traps) is executed symbolically on a byte-level memory and z3 decides "
         "every branch and assertion; and CBMC decides the C source with unwinding and memory checks for short skeletons. Trusts clang, the IR "
         "executor (cross-checked natively on solver-generated cases in each run), CBMC and the reference codec; counterexamples are replayed "
         "natively with sanitizers before they are reported.",
    "S": "Bounded: the corpus protocols and, per message, the stated length skeletons with all contents symbolic. The CIL the C# compiler makes "
         "of the generated module is executed symbolically; z3 decides every branch and assertion. Trusts the C# compiler, the executor and its "
         "models of List, BinaryReader, BinaryWriter, MemoryStream and Encoding.UTF8 (cross-checked against the .NET runtime on solver-generated "
         "cases in each run) and the reference codec; counterexamples are replayed in the .NET runtime.",
    "P": "Bounded: the stated protocol skeletons with every text character (7-bit) and number symbolic; beschi's own Python runs on proxy "
         "values and z3 decides every branch, so all paths within the bounds are covered. Trusts the proxies (cross-checked against "
         "the unmodified package on sampled paths of each run) and tomllib; counterexamples are replayed on the unmodified package.",
    "T": "Bounded: the corpus protocols and, per message, the stated length skeletons with all contents symbolic. The generated module, "
         "types erased by the TypeScript compiler after a strict type check, is interpreted from its syntax tree; z3 decides every branch and "
         "assertion. Trusts the interpreter and its models of DataView, TextEncoder and TextDecoder (cross-checked against node on "
         "solver-generated cases in each run) and the reference codec; counterexamples are replayed in node. NaN payloads are left out.",
    "G": "Bounded: the corpus protocols and, per message, the stated length skeletons with all contents symbolic. The generated package is "
         "compiled to go/ssa and interpreted; z3 decides every branch and assertion. Trusts go/ssa, the interpreter and its models of "
         "encoding/binary, io and fmt (cross-checked against the compiled program on solver-generated cases in each run) and the reference "
         "codec; counterexamples are replayed in the compiled Go program.",
    "R": "Bounded: the corpus protocols and, per message, the stated length skeletons with all contents symbolic. rustc's LLVM IR of the "
         "generated module (optimised, overflow checks and debug assertions on) is executed symbolically on a byte-level memory; z3 decides every "
         "branch and assertion. Trusts rustc, the IR executor and models of the allocator and UTF-8 validation (cross-checked natively on "
         "solver-generated cases in each run) and the reference codec; counterexamples are replayed natively.",
    "Z": "Bounded: the corpus protocols and, per message, the stated length skeletons with all contents symbolic. zig's LLVM IR of the "
         "generated module (ReleaseSafe) is executed symbolically on a byte-level memory; z3 decides every branch and assertion. Trusts zig, "
         "the IR executor (cross-checked natively on solver-generated cases in each run) and the reference codec; counterexamples are "
         "replayed natively.",
})
