"""Which harness decides which property, under which instrumentation."""
RM = "runtime monitoring: "
CHECKS = {
    "C01": dict(parts=[dict(src=["c01.cc"], variant="ubsan")],
                technique=RM + "ASan+UBSan build, every executed expression compared with a reference interpreter of the documented semantics",
                note="Every operator, cast and math function at every type pair on edge and random values, as run-time and literal operands, and random expression trees; bounded by time and tree depth. Trusts the harness's reference semantics (harness/common/val.h) and the host libm."),
    "C02": dict(parts=[dict(src=["c02.cc"], variant="ubsan")],
                technique=RM + "every operand wrapped in a logging call; the event log of each execution is compared with the log of a reference interpreter",
                note="Random expressions and pipelines with up to dozens of logged operands under every construct that selects operands, on several inputs each; bounded by time and tree size."),
    "C03": dict(parts=[dict(src=["c03.cc"], variant="ubsan")],
                technique=RM + "log of all stores of random pipeline programs compared with a sequential reference interpreter, ASan+UBSan build",
                note="Random programs of up to ~25 statements with nested when blocks, reuse and shadowing of names, void variables and lets; several inputs each."),
    "C04": dict(parts=[dict(src=["c04.cc"], variant="ubsan")],
                technique=RM + "accept/reject oracle: exhaustive operator, branch and signature tables plus random valid programs with exactly one rule broken at a chosen position",
                note="Tables of operand types are exhaustive for one level; programs are random. Rules the documentation leaves open (pointer-typed variables, trailing pointer of context functions) are not judged."),
    "C05": dict(parts=[dict(src=["c05.cc"], variant="ubsan")],
                technique=RM + "differential monitor: store log of pipelines compiled together against each compiled alone and against the reference interpreter",
                note="Lists of 2-8 pipelines sharing sub-expressions, variable names and functions; order between different pipelines is not judged."),
    "C10": dict(parts=[dict(src=["c10.cc"], variant="ubsan")],
                technique=RM + "history monitor over shared contexts: status, ordered messages, arena bytes and returned values of every call checked against a model",
                note="Histories of up to ~200 calls over several engines sharing contexts, with failing calls at random places."),
    "C11": dict(parts=[dict(src=["c11.cc"], variant="ubsan")],
                technique=RM + "random trees printed with minimal parentheses, noise and alternative spellings, compiled from text and compared with the directly built tree; token-level accept/reject oracle from an independent recogniser of the grammar",
                note="Random trees and token sequences; literals on type boundaries. Integer literals that do not fit their suffix are not judged beyond the documented ones."),
    "C12": dict(parts=[dict(src=["c12.cc"], variant="ubsan")],
                technique=RM + "fuzzing of Compile on arbitrary and mutated text in an ASan+UBSan build, with monitors for exceptions, signals, time, output on the standard streams and usability of the object afterwards",
                note="Random bytes, token soup and mutated valid programs up to a few KB; growth and nesting probes run in forked children. Two known findings: unbounded nesting and exponential code size."),
    "C14": dict(parts=[dict(src=["c14.cc"], variant="ubsan")],
                technique=RM + "differential monitor of status, results and messages between the original engine and the one loaded from its artifact, in the same process with relocated functions and in a freshly executed process",
                note="Random single and batch programs with constants, strings, lists and C helpers; save repeated and compared."),
    "C15": dict(parts=[dict(src=["c15.cc"], variant="ubsan")],
                technique=RM + "fault injection into artifacts (bytes, lengths, truncation, extension, foreign identity, random blobs) with ASan+UBSan, allocation-size hook and behavioural check of the engine afterwards",
                note="All header bytes, all truncations of small artifacts and random ones of larger. Substituted return-type bytes and the object code itself are not covered by a checksum and are not judged."),
    "C16": dict(parts=[dict(src=["c16.cc"], variant="ubsan")],
                technique=RM + "model-based history monitor: random call histories over every engine kind, each status, result and unchanged-state compared with a life-cycle model, ASan+UBSan build with leak accounting",
                note="Histories of up to dozens of calls (compile, fail, recompile, move, save, load, execute in every form) over engines of all kinds; order of calls random."),
    "C20": dict(parts=[dict(src=["c20.cc"], variant="ubsan")],
                technique=RM + "model-based registration histories; every C function records its identity and raw arguments, and the recorded calls of each execution are compared with a resolution model",
                note="Generated C functions over the supported argument and return types with up to 8 arguments; random registration, override and refusal histories. An assembly callee keeps its argument registers: small integers must arrive extended (x86-64 only)."),
    "C22": dict(parts=[dict(src=["c22.cc"], variant="ubsan")],
                technique=RM + "sink functions record the raw bits of every constant seen at execution, before and after save/load, and compare them with the bits given",
                note="Programs and batches holding many equal and nearly equal constants: NaN payloads, signed zeros, denormals, embedded zero bytes, long strings and lists."),
    "C17": dict(parts=[dict(src=["c17.cc"], variant="ubsan")],
                technique=RM + "floating-point expressions sensitive to fusing, reassociation, NaN, infinities and signed zero, run on every engine kind: strict results compared bit for bit with IEEE arithmetic, fast ones with a running error bound",
                note="Random expressions up to depth ~5 over f32/f64 and integers; in fast mode ill-conditioned, overflowing and non-finite results are not judged. Trusts the host's IEEE arithmetic."),
    "C18": dict(parts=[dict(src=["c18.cc"], variant="ubsan", san_harness=True)],
                technique=RM + "shadow map of live blocks, heap hooks recording every block the arena holds, and a birth/death log of every object, ASan+UBSan build",
                note="Random histories of allocations, object creations, throwing constructors, refused requests and resets; chunk sizes 0 to 64 KiB, alignments 1 to 4096."),
    "C19": dict(parts=[dict(src=["c19.cc", "c06.cc", "c07.cc", "c08.cc", "c09.cc"], variant="tsan", defs=["-DVJ_COLLECT"])],
                technique=RM + "ThreadSanitizer over storms of threads sharing engines, with yielding user functions, every concurrent call compared with the same call made alone, and fresh processes whose first use is concurrent",
                note="All built-in signatures, random expressions, pipelines, batches and loaded artifacts under 3-6 threads, compiling and destroying threads beside them. Code generated by the JIT is not instrumented: races inside it are seen only through wrong results. libLLVM is not instrumented."),
    "C21": dict(parts=[dict(src=["c21.cc"], variant="ubsan")],
                technique=RM + "error-injection monitor: one error of a known kind at a marked place in a randomly laid out program; line, column, quotation and markers of the message compared with the marked place",
                note="21 kinds of type and scope errors at every expression and statement position; tabs, comments, strings, CRLF, several pipelines. Columns count bytes; text with multi-byte characters before the construct is not judged."),
    "C23": dict(parts=[dict(src=["c23.cc"], variant="ubsan")],
                technique=RM + "structural monitor over public accessors: clone compared node by node with the original before and after either is changed or destroyed, printed forms compared over equal and minimally different trees, compiled behaviour compared with the reference",
                note="Random trees of all node kinds, parsed and grouped pipelines, compiled programs. Constants' values and names that imitate another node's printed label are outside the printing claim."),
    "C24": dict(parts=[dict(src=["c24.cc", "c06.cc", "c07.cc", "c08.cc", "c09.cc"], variant="plain", defs=["-DVJ_COLLECT"])],
                technique=RM + "resource accounting: malloc, free, mmap and munmap replaced by counting versions; live heap blocks and bytes, mapped pages and descriptors read after every round of a repeated list of operations must not keep growing",
                note="Random lists of 1-3 operations over every kind of object, repeated 7 rounds (31, then 127, while a figure keeps rising). A leak that does not show in four rounds is not seen. Caches bounded by their content are not leaks."),
    "C13": dict(parts=[dict(src=["c13.cc"], variant="ubsan")],
                technique=RM + "differential monitor: every entry of a batch against a single engine of the same expression, every call form",
                note="Random batches of up to ~40 entries with failing entries, programs with variables, duplicated constants and nodes; boundary indexes."),
}

FN = ("Every documented signature on many random inputs (lengths 0 to ~3000 with vector-width boundaries, edge values, duplicates, mismatched lengths, literal and aliased arguments, "
      "results fed to other functions), exact-size heap inputs and one heap block per arena allocation so ASan sees any access outside. Bounded by time; NaN order, unsorted inputs of the *Sorted functions and invalid group indexes are outside the documented domain.")
FT = RM + "every call compared with a reference model of the documented function, ASan+UBSan build with exact-size buffers, inputs checked for modification"
for _i in ("C06", "C07", "C08", "C09"):
    CHECKS[_i] = dict(parts=[dict(src=[_i.lower() + ".cc"], variant="ubsan")], technique=FT, note=FN)
