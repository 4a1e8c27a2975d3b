NA = {}
SAI = "abstract interpretation of the generator's LLVM IR (constants x value numbers, trace partitioning) into residual assembly templates, judged by an abstract x86 machine"
TESTS = "The tests run a few dozen fixed programs, mostly on Linux (flat 32-bit), so the 16-bit, huge and unreal models and most operand-shape combinations are never executed."
NOTE = "Decides every listed operand-shape class for all constants, offsets and memory contents (no sampling of values). Trusts the transcribed x86 semantics, clang's IR and the list of operand classes; deeper nesting than the classes is covered only compositionally."
PROPS = [
 dict(id="C01", title="x86 code for arithmetic, bitwise, shift, unary and load expressions is exact",
  statement="For every x86 memory model (small, flat 32-bit, huge, unreal) and every operand kind (constant, address, global, local, pointer dereference of each size and signedness, computed value), the assembly the compiler emits for a unary, arithmetic, bitwise or shift expression or a plain load leaves in the accumulator exactly the value C gives that expression, for all operand values. It leaves memory, the stack depth, the frame pointer and the data segment unchanged.",
  over=["programs", "inputs"], quant="all operand-kind combinations and operators of each memory model; all constants, frame offsets and memory contents",
  why=TESTS, files=["v0100/cgx86.c"], mech=[("GenExpr1 operator cases", "v0100/cgx86.c GenExpr1"), ("operand loaders", "v0100/cgx86.c GenReadIdent, GenReadLocal, GenReadIndirect, GenLogicalIf")],
  observe=["assembly text written by smlrc"], tech=SAI, note=NOTE),
 dict(id="C02", title="x86 code for comparisons, conditional jumps, && and || is exact",
  statement="For every x86 memory model and operand-kind combination, emitted code for a signed or unsigned comparison yields exactly 0 or 1 as C requires, a comparison used as a condition jumps to the target label exactly when the C condition has the required truth value, and && / || evaluate the right operand exactly when C does and yield the right truth value. No such code disturbs memory, stack depth or frame registers.",
  over=["programs", "inputs"], quant="all comparison operators, condition polarities and operand-kind combinations of each memory model; all operand values",
  why=TESTS, files=["v0100/cgx86.c"], mech=[("comparison and jump emission", "v0100/cgx86.c GenCmp, GenExpr1"), ("short-circuit jumps", "v0100/cgx86.c GenExpr1 tokShortCirc/tokLogAnd/tokLogOr")],
  observe=["assembly text written by smlrc"], tech=SAI, note=NOTE),
 dict(id="C03", title="x86 code for assignment, compound assignment and ++/-- is exact",
  statement="For every x86 memory model, lvalue kind, object size and signedness, emitted code for =, every compound assignment and the four increment/decrement forms (including pointer-sized steps) writes exactly the bytes of the designated object with the C result, writes nothing else, and leaves the C value of the expression in the accumulator.",
  over=["programs", "inputs"], quant="all lvalue kinds, sizes, assignment operators and right-operand kinds of each memory model; all values",
  why=TESTS, files=["v0100/cgx86.c"], mech=[("read-modify-write emission", "v0100/cgx86.c GenExpr1 assignment cases"), ("inc/dec emission", "v0100/cgx86.c GenIncDecIdent, GenIncDecLocal, GenIncDecIndirect, GenPostIncDec*, GenPostAddSub*")],
  observe=["assembly text written by smlrc"], tech=SAI, note=NOTE),
 dict(id="C04", title="x86 code for function calls passes arguments and results correctly",
  statement="For every x86 memory model, a direct or indirect call emitted by the compiler transfers control to the designated function with every argument in its C stack position, leaves the expression stack balanced afterwards, and uses the callee's result as the value of the call.",
  over=["programs", "inputs"], quant="direct and indirect calls with zero to two arguments of every operand kind, nested as operands, in each memory model; all values",
  why=TESTS, files=["v0100/cgx86.c"], mech=[("call emission", "v0100/cgx86.c GenExpr1 call case, GenFxnCall")],
  observe=["assembly text written by smlrc"], tech=SAI, note=NOTE),
]

FSAI = "abstract interpretation of the parser's LLVM IR (constants x value numbers, trace partitioning) into intermediate code, whose denotation is compared with C's typing and value rules"
FWHY = "The tests evaluate a few hundred fixed expressions at run time on one target; they cannot cover every combination of operator, operand types, constness and target word size, nor all constant values."
FNOTE = "Decides every listed operator x operand-type class for all constant values and memory contents, for 32-bit and 16-bit words. Trusts clang's IR and the C rules written down in engine/fesem.py; host float arithmetic of the folder is uninterpreted; nesting beyond the listed shapes is covered compositionally."
PROPS += [
 dict(id="F01", title="Constant expressions are folded to the values the target would compute",
  statement="When the operands of an operator, cast or conditional expression are constants, the compiler's folded result has the type and exactly the value that C semantics on the target's word size (16 or 32 bits) gives, including signed/unsigned division, shifts, comparisons, narrowing casts and integer/float conversions, so a folded expression equals the same expression evaluated at run time. A division by a zero or an overflowing division is never folded to a value.",
  over=["programs", "inputs"], quant="all constant values of every operator, cast and two-level nesting class, for 16-bit and 32-bit words",
  why=FWHY, files=["v0100/smlrc.c"], mech=[("constant folding", "v0100/smlrc.c exprval"), ("division guards", "v0100/smlrc.c divCheckAndCalc, shiftCountCheck"), ("narrowing", "v0100/smlrc.c truncInt, truncUint, promoteType")],
  observe=["constants in the emitted assembly"], tech=FSAI, note=FNOTE),
 dict(id="F02", title="Integer and float operators get C's conversions, types and signedness",
  statement="For every unary, binary, logical, cast and conditional operator and every combination of arithmetic operand types (char, signed/unsigned char, short, int, unsigned, float; variables, constants and composite operands), the compiler gives the expression its C type and generates intermediate code that converts operands as C requires (integer promotion, usual arithmetic conversions, int/unsigned/float), picks the signed or unsigned form of the operation, and yields the C value.",
  over=["programs", "inputs"], quant="all operator and arithmetic operand type combinations, including composite operands, for 16-bit and 32-bit words; all values",
  why=FWHY, files=["v0100/smlrc.c"], mech=[("operator typing and conversion", "v0100/smlrc.c exprval"), ("float run-time calls", "v0100/smlrc.c FpFxnName, ins2 call insertion")],
  observe=["assembly text written by smlrc"], tech=FSAI, note=FNOTE),
 dict(id="F03", title="Pointer arithmetic, indexing, member access and sizeof follow C",
  statement="For every pointee type, pointer additions, subtractions, differences, comparisons, indexing, dereference, address-of, member selection (nested structures and arrays included) and sizeof produce the C result: integers are scaled by the element size, differences are divided by it, members are at their C offsets, arrays and functions decay, and the result has the C type.",
  over=["programs", "inputs"], quant="all combinations of pointer/array/structure operands with integer, float, pointer and constant operands, for 16-bit and 32-bit words; all values",
  why=FWHY, files=["v0100/smlrc.c"], mech=[("scaling", "v0100/smlrc.c exprval + - cases, tokPostAdd"), ("member offsets", "v0100/smlrc.c exprval . and -> handling"), ("sizes", "v0100/smlrc.c GetDeclSize")],
  observe=["assembly text written by smlrc"], tech=FSAI, note=FNOTE),
 dict(id="F04", title="Assignments, increments, structure copies and calls have C's effects",
  statement="For every lvalue type and right-operand type, an assignment, compound assignment, increment or decrement updates exactly the designated object with the C-converted value and has the C value and type; structure assignment copies the whole structure once from the right object to the left; a call converts each argument to its parameter's type, passes structures by value and has the declared result type.",
  over=["programs", "inputs"], quant="all assignment operators over lvalue and operand type combinations, structure copies incl. through ?:, and calls with prototyped and variadic functions, for 16-bit and 32-bit words; all values",
  why=FWHY, files=["v0100/smlrc.c"], mech=[("assignment", "v0100/smlrc.c exprval = and compound cases"), ("calls", "v0100/smlrc.c exprval ')' case"), ("structure copies", "v0100/smlrc.c StructCpyLabel, StructPushLabel")],
  observe=["assembly text written by smlrc"], tech=FSAI, note=FNOTE),
 dict(id="F05", title="Ill-typed expressions are rejected and well-typed ones accepted",
  statement="An expression whose operand types violate a C constraint (wrong operand kind for an operator, non-lvalue assigned or incremented, arithmetic on void, incomplete or function pointers, undefined members, wrong argument counts, void or structure values where a scalar is needed) stops compilation with a diagnostic, and every well-typed expression the compiler supports is accepted.",
  over=["programs"], quant="all operator x operand-type classes of the expression grammar (assignments, arithmetic, pointers, members, calls, casts, sizeof), for 16-bit and 32-bit words",
  why="A negative test exists for only a few of the several thousand ill-typed combinations, and a lost check silently turns a rejected program into wrong code.", files=["v0100/smlrc.c"], mech=[("operand checks", "v0100/smlrc.c numericTypeCheck, scalarTypeCheck, anyTypeCheck, lvalueCheck, nonVoidTypeCheck")],
  observe=["compiler diagnostics and exit status"], tech=FSAI, note=FNOTE),
 dict(id="F06", title="Expressions are grouped by C's precedence and associativity",
  statement="For every pair of operators (binary, assignment, conditional, comma, unary, postfix, cast, sizeof), an unparenthesised expression combining them is evaluated with the grouping C's grammar prescribes.",
  over=["programs"], quant="all ordered pairs of operators in both positions, for 16-bit and 32-bit words; all operand values",
  why="Tests contain only a handful of mixed-operator expressions without parentheses.", files=["v0100/smlrc.c"], mech=[("precedence table and expression parser", "v0100/smlrc.c preced, precedGEQ, isop, expr, exprUnary")],
  observe=["assembly text written by smlrc"], tech=FSAI, note=FNOTE),
]

PROPS += [
 dict(id="F07", title="Statements execute in the order and on the conditions C prescribes",
  statement="For every kind of statement and every kind of controlling expression, the generated function performs exactly the calls, branches and returns of the C source on every path: if/else, while, do, for, switch with cases, default and fall-through, break, continue and goto reach their C targets, conditions (comparisons, logical operators, constants, floats) decide as in C, declared block variables keep their values and scope, and returned values are converted to the function's type. A misplaced or ill-formed statement (stray break, continue, case or default, duplicate case or label, undefined label, missing or forbidden return value) is rejected.",
  over=["programs", "inputs"], quant="every statement kind crossed with every condition form, all pairs of nested loops and switches, goto and return shapes, in the flat, tiny/small and huge memory models; all results of the called functions",
  why="Each test runs a function on one path with one set of values; the shapes (a long for-increment, default in the middle, continue through a switch, far jumps in the huge model) multiply beyond what samples cover.",
  files=["v0100/smlrc.c", "v0100/cgx86.c"], mech=[("statement parser", "v0100/smlrc.c ParseStatement, ParseBlock"), ("jumps and labels", "v0100/cgx86.c GenJumpUncond, GenJumpIf*, GenNumLabel"), ("labels and cases", "v0100/smlrc.c AddGotoLabel, AddCase")],
  observe=["assembly text written by smlrc", "compiler diagnostics"],
  tech="abstract interpretation of the statement compiler's LLVM IR into assembly text, then exhaustive product exploration of that text's call/return transition system with the control-flow graph of the C statement",
  note="Decides every enumerated statement shape for all results of opaque calls; deeper nestings follow compositionally. Trusts the instruction table in engine/x86.py."),
]

PROPS += [
 dict(id="C05", title="Stack frames, interrupt entry and helper routines keep data intact",
  statement="Every function reads its parameters where callers put them, gives all simultaneously live locals disjoint, aligned storage inside the frame it allocates (probing it first for Windows), and returns with stack and frame pointer restored; main without a return yields 0, and a frame too large for the memory model is rejected. Interrupt functions save the whole interrupted context, hand it to the body, and restore exactly what the body left there; the structure copy and push helpers move exactly the structure's bytes and restore the state they must.",
  over=["programs", "inputs"], quant="all parameter and local types, nested blocks and sizes listed, all register, stack and memory contents, in each x86 memory model",
  why="Tests run a few frames; huge/unreal interrupt code and >32 KB structure copies are never executed by them.",
  files=["v0100/cgx86.c", "v0100/smlrc.c"], mech=[("frames", "v0100/cgx86.c GenFxnProlog, GenFxnEpilog, GenUpdateFrameSize; v0100/smlrc.c AllocLocal"), ("interrupts", "v0100/cgx86.c GenIsrProlog, GenIsrEpilog"), ("helpers", "v0100/cgx86.c GenFin")],
  observe=["assembly text written by smlrc"], tech="abstract interpretation of the compiler's LLVM IR into assembly text, then abstract execution of that text over symbolic registers, segments, stack bytes and physical addresses",
  note="Helper routines are decided for the listed sizes around their thresholds, with symbolic addresses below 1 MB. Trusts engine/low.py's instruction table."),
]

LSAI = "abstract interpretation of the linker's LLVM IR from main() over symbolic object files (exact linear forms with rounding atoms, intervals, trace partitioning); each output image is re-read by an independent loader model"
LWHY = "The tests link a few programs per format with one fixed layout each; they never vary section sizes, alignments, origins, or where relocations fall, and dosp/win/macos outputs are only linked, never run."
LNOTE = "Decides the listed object-file shapes for all section sizes, contents, addends, symbol values, origins and stack sizes. Trusts clang's IR, the loader models in engine/image.py (flat, MZ, ELF, PE, a.out, Mach-O) and the abstract C library in engine/stdio.py; file I/O is assumed not to fail here."
PROPS += [
 dict(id="L01", title="Every reference in a linked program reaches the object it names",
  statement="For every output format and any object sections (whatever their number, sizes, alignment, contents and order), each relocated field in the linked image holds the run-time address of the section, local or global symbol it refers to plus its addend (or that address relative to the field, for relative references), including the linker-made symbols bounding sections, the image and the stack. Huge and unreal images also list exactly the fields their startup code must fix up.",
  over=["inputs", "programs"], quant="all section sizes, symbol values, addends, origins and stack sizes of the listed object shapes, in all ten output formats",
  why=LWHY, files=["v0100/smlrl.c"], mech=[("relocation", "v0100/smlrl.c RelocateAndWriteSection, FindSymbolAddress, FindSectionAddress"), ("layout", "v0100/smlrl.c Pass"), ("relocation tables", "v0100/smlrl.c Pass .relot/.relod")],
  observe=["bytes of the linked image as its loader places them"], tech=LSAI, note=LNOTE),
 dict(id="L02", title="Linked images hold every section once, aligned and disjoint, in a valid file",
  statement="For every output format, the file the linker writes is one its loader accepts, its headers account for its exact length, and every input section appears in memory once, unchanged apart from relocated fields, at an address with the alignment it asked for, with access rights matching its kind, overlapping no other section, headers or stack; uninitialised data is zero or reserved and not written when the format allows.",
  over=["inputs", "programs"], quant="all section sizes, alignments up to 32, contents, origins and stack sizes of the listed object shapes, in all ten output formats with and without BSS",
  why=LWHY, files=["v0100/smlrl.c"], mech=[("layout and padding", "v0100/smlrl.c Pass"), ("headers", "v0100/smlrl.c RwElf, RwPe, RwAout, RwMach, RwDosExe, RwFlat"), ("copying", "v0100/smlrl.c RelocateAndWriteSection, FillWithByte")],
  observe=["the linked file and its loader's view of it"], tech=LSAI, note=LNOTE),
 dict(id="L03", title="Linked programs start at their entry point with the declared stack and memory",
  statement="For every output format, the entry address recorded in the image (or reached by the jump placed at its start) is the address of the requested entry symbol, and the image's stack and memory requests cover what the format, the options and the program's own sections demand.",
  over=["inputs", "programs"], quant="all section sizes, entry offsets, origins and stack sizes of the listed object shapes, in all ten output formats",
  why=LWHY, files=["v0100/smlrl.c"], mech=[("entry and headers", "v0100/smlrl.c RwElf, RwPe, RwAout, RwMach, RwDosExe, RwFlat"), ("stack", "v0100/smlrl.c FindAllSections, Pass")],
  observe=["entry point, stack and memory fields of the linked file"], tech=LSAI, note=LNOTE),
 dict(id="L04", title="Every kind of relocation is applied once, wherever it lies, or refused",
  statement="A relocation is applied exactly once wherever it lies in a section, including fields that straddle the linker's copy buffer, unordered and adjacent records, and leaves all other bytes unchanged. Every relocation type and every symbol binding and type is either applied according to its definition or makes the link fail with a diagnostic; none is silently ignored.",
  over=["inputs"], quant="all 256 relocation types, the symbol binding/type combinations, section sizes and relocation offsets around every buffer boundary, all contents",
  why="Compiled objects use four relocation types and rarely place one across the 1 KB copy buffer's edge.", files=["v0100/smlrl.c"], mech=[("chunked copy and relocation", "v0100/smlrl.c RelocateAndWriteSection"), ("type checks", "v0100/smlrl.c Relocate, FindSymbolAddress")],
  observe=["bytes of the linked image", "diagnostics and exit status"], tech=LSAI, note=LNOTE),
]
PROPS += [
 dict(id="L05", title="Symbols resolve to their one definition; only needed archive members are linked",
  statement="Whatever the order of objects and archives on the command line, a link pulls in exactly the archive members needed (transitively) to define referenced symbols, binds every reference to its single global definition or to a local symbol of its own file, and links nothing else. An undefined symbol, a symbol defined twice among linked files, or a missing entry point makes the link fail with a diagnostic naming it.",
  over=["inputs", "programs", "histories"], quant="all definition/reference graphs over the listed numbers of objects, archives and members, in every command-line order",
  why="Tests link one library in one order; cyclic needs between archives, duplicate definitions and locals shadowing globals are not exercised.", files=["v0100/smlrl.c"], mech=[("resolution", "v0100/smlrl.c FindSymbolByName, CheckDuplicates, FindAllSymbols"), ("archives", "v0100/smlrl.c loadElfObj, loadElfArchive/ar members")],
  observe=["bytes of the linked image", "diagnostics and exit status"], tech=LSAI, note="Enumerates the symbol graphs of a bounded number of files and members; section contents and sizes stay symbolic. Trusts engine/image.py and engine/stdio.py."),
 dict(id="L06", title="Object files and options the linker cannot honour are refused",
  statement="An input that is not a supported object or archive, or that uses a feature the linker cannot represent in the requested format (wrong class, machine, type, section flags, symbol kinds, relocation records, unsupported option values), makes the link fail with a diagnostic rather than produce an image or access memory outside its tables.",
  over=["inputs"], quant="every value of each listed header, section-header, symbol and relocation field (as ranges), in all output formats",
  why="Tests contain no malformed or unsupported object at all.", files=["v0100/smlrl.c"], mech=[("object validation", "v0100/smlrl.c loadElfObj, loadMeta"), ("options", "v0100/smlrl.c main")],
  observe=["diagnostics and exit status"], tech=LSAI, note="Each field is left symbolic over its whole range while the others stay valid; combinations of several bad fields are not enumerated."),
 dict(id="L07", title="Programs too large for a format's memory model are rejected, never wrapped",
  statement="A program whose code, data, stack, origin or file size exceeds what the output format's addresses and header fields can represent makes the link fail with a diagnostic; every program within those limits links.",
  over=["inputs"], quant="all section sizes, origins and stack sizes up to 2^32, in all ten output formats, on both sides of each limit",
  why="No test comes near a limit; a wrapped address produces an image that looks valid.", files=["v0100/smlrl.c"], mech=[("limit checks", "v0100/smlrl.c Pass, FindAllSections"), ("function sizes", "v0100/smlrl.c .fxnsz handling")],
  observe=["diagnostics and exit status", "bytes of the linked image"], tech=LSAI, note="Decided as regions of the size/origin space, with exact boundary values; uses the same loader models as L01-L03."),
 dict(id="L08", title="A failed file or memory operation never leaves a bad image behind",
  statement="Whenever opening, reading, writing, seeking or closing a file, or allocating memory, fails at any point of a link, the linker reports failure through a diagnostic and a failing exit status and removes the output file, or else has already produced the complete correct image; it never continues with undefined data.",
  over=["crash_points", "histories"], quant="every call of the C library's file and allocation functions on every path of the listed links failing once, in all ten output formats, with and without a map file or stub",
  why="Tests never run with a full disk, an unreadable input or exhausted memory.", files=["v0100/smlrl.c"], mech=[("checked wrappers", "v0100/smlrl.c Fopen, Fread, Fwrite, Fseek, Fclose, Malloc, Realloc"), ("cleanup", "v0100/smlrl.c error")],
  observe=["exit status, diagnostics and files left after a failure"], tech="abstract interpretation of the linker's LLVM IR with an armed single-failure C library: every failure point forks a path whose events (diagnostic, remove, exit status) are judged",
  note="One failure per run. Failures of formatted writes to the map file are assumed sticky (seen by fclose)."),
]

DSAI = "abstract interpretation of the program's LLVM IR from main() over command lines, names and file contents of unknown bytes (trace partitioning, intervals, disequalities), each path judged by an independent model"
PROPS += [
 dict(id="D01", title="The compiler driver runs the documented pipeline for every target and option",
  statement="For every target option, host, preprocessor choice, mode (link, -c, -S, library) and kind of input file, the driver runs exactly the needed preprocessor, compiler, assembler and linker commands in order, giving each the memory model, macros, wchar_t/char options, include paths, library, stub, inputs and output that the target and the user's options prescribe. Headers, library and stub come from the first documented location that has them; on success only intermediate files are deleted.",
  over=["inputs", "configurations"], quant="all targets x preprocessors x modes, every option, mixed input lists, all combinations of existing search locations, on Linux, macOS, Windows and DOS hosts; all names and values (as lower-case letters of fixed lengths)",
  why="Tests drive a handful of fixed command lines, and never those of other hosts, search locations, libraries or preprocessors.",
  files=["v0100/smlrcc.c"], mech=[("option handling", "v0100/smlrcc.c main"), ("search", "v0100/smlrcc.c AddSystemPaths"), ("pipeline", "v0100/smlrcc.c Compile, Link, Archive")],
  observe=["commands executed by the driver", "files removed"], tech=DSAI, note="Command meaning is compared, not text. Names longer than those enumerated and options combined beyond the listed pairs are covered compositionally."),
 dict(id="D02", title="A failing tool or file operation stops the driver cleanly",
  statement="When any tool the driver runs, any file operation or any memory allocation fails, the driver runs no further tool, prints a diagnostic, exits with a failing status, and removes the intermediate files and the incomplete output, without deleting any input.",
  over=["crash_points", "histories"], quant="every tool run, file operation and allocation of the listed command lines failing once, in every mode and host",
  why="Tests never make a tool fail half-way through a multi-file build.",
  files=["v0100/smlrcc.c"], mech=[("command status", "v0100/smlrcc.c System"), ("cleanup", "v0100/smlrcc.c error, DeleteTemporaryFiles")],
  observe=["exit status, commands executed, files removed"], tech=DSAI, note="One failure per run; reading an @file is assumed not to fail."),
 dict(id="D03", title="File names and option values reach the tools unchanged",
  statement="Whatever characters a file name, path, macro definition or option value given to the driver contains, each tool receives it as the same single argument, with nothing interpreted by the command processor.",
  over=["inputs"], quant="every byte value in arguments of up to two (quick) or three (thorough) unknown characters in every argument position, for sh and for the Microsoft command-line rules",
  why="Tests use plain names only.",
  files=["v0100/smlrcc.c"], mech=[("quoting", "v0100/smlrcc.c EscapingNeeded, Escape, AddOptionInner")],
  observe=["commands executed by the driver"], tech=DSAI, note="On DOS and Windows % and the double quote cannot be passed through the command processor and are excluded."),
 dict(id="D04", title="Libraries made by the driver contain every object unchanged",
  statement="An archive created with -c -o lib.a is a valid ar file that holds every object of the command line in order, each under its file name (long names included) with its exact size and contents, padded as the format requires.",
  over=["inputs"], quant="all contents and names of members, sizes around every buffer boundary, name lengths and path forms listed",
  why="Tests build no archive with odd sizes, long names or several directories and inspect none.",
  files=["v0100/smlrcc.c"], mech=[("archive writer", "v0100/smlrcc.c Archive, fsize")],
  observe=["bytes of the archive"], tech=DSAI, note="Sizes are enumerated, contents and names symbolic."),
 dict(id="N01", title="The NASM-to-FASM wrapper keeps every line in its section",
  statement="For any assembly text, the converted text holds every instruction, label and data line unchanged and in order under its section, with exactly the documented directive replacements, section order and attributes; sections it cannot represent (too many, too long a name, no name) are refused.",
  over=["inputs"], quant="all sequences of section fragments, directives, near-directives, indentations and line endings listed; all identifiers, operands and strings (as unknown printable bytes)",
  why="No test runs the wrapper.",
  files=["v0100/n2f.c"], mech=[("fragments", "v0100/n2f.c findFrags, fragCmp, addSection"), ("lines", "v0100/n2f.c n2f1, readNonspace, copyLine")],
  observe=["text written by n2f"], tech=DSAI, note="Relative white space at the start of a line is not part of the comparison."),
 dict(id="N02", title="The NASM-to-FASM wrapper reports every failure and leaves nothing behind",
  statement="When reading, seeking, writing, closing, allocating or assembling fails, the wrapper prints a diagnostic, exits with a failing status and removes its output and intermediate file, and never assembles an incomplete text; otherwise it runs the assembler once with the given names unchanged and removes the intermediate file.",
  over=["crash_points", "inputs"], quant="every file operation, allocation and assembler run failing once, in each output format; output names of unknown bytes",
  why="No test runs the wrapper.",
  files=["v0100/n2f.c"], mech=[("conversion", "v0100/n2f.c convert, n2f1"), ("assembling", "v0100/n2f.c fassemble"), ("cleanup", "v0100/n2f.c error")],
  observe=["exit status, commands executed, files left"], tech=DSAI, note="One failure per run; write errors may show at the write or only at close."),
]

PROPS += [
 dict(id="F08", title="Objects have their C layout and initialisers their C values",
  statement="Every object the compiler lays out has the size, alignment and member offsets C and the packing in force give it, and every initialiser, of static or automatic storage, scalar, array, structure, union, string, or nested or partly braced aggregate, puts exactly the value C prescribes in each element, zeroing the rest. Incomplete array sizes are taken from the initialiser, address constants refer to the right symbol and offset, uninitialised objects reserve exactly their size, and invalid initialisers (too many, non-constant, incompatible) are rejected.",
  over=["programs", "inputs"], quant="every listed aggregate type crossed with brace shapes and leaf expressions, in the flat, tiny/small, huge and unreal models and under each packing; all values of integer constants",
  why="A test checks a few fixed tables; brace elision, padding, packing and section switching combine far beyond that.",
  files=["v0100/smlrc.c", "v0100/cgx86.c"], mech=[("initialisers", "v0100/smlrc.c InitVar, InitScalar, InitArray, InitStruct"), ("layout", "v0100/smlrc.c ParseDecl, GetDeclSize, GetDeclAlignment"), ("data directives", "v0100/cgx86.c GenIntData, GenAddrData, GenZeroData, GenDumpChar")],
  observe=["assembly text written by smlrc", "compiler diagnostics"],
  tech="abstract interpretation of the declaration parser's LLVM IR into data directives, read back as bytes and addresses and compared with C's layout and initialisation rules",
  note="Types and brace shapes are enumerated, constants symbolic. Floating constants are opaque bits."),
]

FLEX = "abstract interpretation of the lexer's LLVM IR over source texts with unknown bytes, each path holding a set of values per byte; every path's tokens compared, value by value, with an independent tokenizer, and the paths required to cover all texts"
PROPS += [
 dict(id="F10", title="Source text is split into exactly the tokens and values C prescribes",
  statement="For any program text the compiler sees exactly the sequence of tokens C's lexical rules give, longest match first: identifiers, keywords, punctuators, comments, line splices, and integer, floating, character and string constants. Every constant has the type and value C (and the selected character signedness and widths) gives it, adjacent text never leaks into a token, and malformed or unrepresentable constants are rejected rather than misread.",
  over=["inputs", "configurations"], quant="all values of the unknown bytes at every position of each listed text template (up to three unknown bytes at once), with signed and unsigned char, 16- and 32-bit wchar_t and 16- and 32-bit int",
  why="Tests use well-spaced ordinary source; maximal munch, escapes and limits matter on byte combinations no test contains.",
  files=["v0100/smlrc.c"], mech=[("lexer", "v0100/smlrc.c GetToken, ShiftChar, SkipSpace"), ("constants", "v0100/smlrc.c GetNumber, GetString, GetIdent")],
  observe=["assembly text written by smlrc", "compiler diagnostics"], tech=FLEX,
  note="No NUL bytes in the text; the final decimal-to-binary floating conversion is outside."),
 dict(id="F11", title="Preprocessing directives and macros have their documented effect",
  statement="Macro definitions, expansions and removals, conditional inclusion, file inclusion with its search order, #line and the predefined macros produce exactly the token stream, line numbers and file names they are documented to produce, wherever white space, comments, strings and line ends stand. #pragma pack sets and restores exactly the packing documented, skipped text has no effect, and unterminated, unknown or malformed directives and exceeded limits are errors, not silent changes.",
  over=["inputs", "histories", "configurations"], quant="all values of the unknown bytes in each listed template, all directive sequences up to the listed length, all combinations of present include files, in each listed option set",
  why="Tests use a few fixed headers; nesting, placement and odd spacing of directives combine far beyond that.",
  files=["v0100/smlrc.c"], mech=[("directives", "v0100/smlrc.c GetToken, SkipLine, pushPrep, popPrep"), ("macros", "v0100/smlrc.c DefineMacro, UndefineMacro, FindMacro"), ("inclusion", "v0100/smlrc.c IncludeFile"), ("packing", "v0100/smlrc.c PragmaPack handling in GetToken")],
  observe=["assembly text written by smlrc", "compiler diagnostics", "files opened"], tech=FLEX,
  note="The compiler's own preprocessor (object-like macros); smlrpp is outside this property. Documented deviations (macro redefinition, #if outside skipped text) are accepted."),
]

CSAI = "abstract interpretation of the C library's LLVM IR over buffers of unknown bytes (trace partitioning, intervals, disequalities), each path judged by an independent specification"
CWHY = "The library has hardly any tests of its own; boundaries, aliasing and unusual byte values are never sampled."
PROPS += [
 dict(id="S01", title="String, memory and character functions do exactly what C says",
  statement="Every C library function of <string.h> that searches, compares, copies or tokenises, and every classification and case function of <ctype.h>, returns what C specifies for all arguments C allows, bytes above 127 compared as unsigned and overlapping moves included. It changes exactly the bytes C lets it change and reads none outside its operands, on every target.",
  over=["inputs"], quant="all contents of strings and buffers up to the listed lengths, all byte values and EOF for character functions, in each target's configuration (16-bit included)",
  why=CWHY, files=["v0100/srclib"], mech=[("string functions", "v0100/srclib/str*.c, mem*.c"), ("character classes", "v0100/srclib/ctype.c, is*.c, to*.c")],
  observe=["return values and memory contents"], tech=CSAI, note="Lengths are enumerated, contents symbolic. Inline x86 string instructions of the 16-bit variants are interpreted."),
 dict(id="S02", title="Text-to-number conversion and integer helpers are exact",
  statement="atoi, atol, strtol and strtoul accept exactly the C subject sequence for every base, return its value, saturate with ERANGE exactly when it does not fit, and set the end pointer right; abs, labs, div, ldiv, srand/rand and the long-integer helpers return what C or their names promise for all operands.",
  over=["inputs"], quant="all digits, white space, signs, prefixes and trailing text of the listed shapes around every base's limits; all operands of the integer helpers",
  why=CWHY, files=["v0100/srclib"], mech=[("conversion", "v0100/srclib/strtol.c, strtoul.c, atoi.c, atol.c"), ("helpers", "v0100/srclib/div.c, ldiv.c, abs.c, labs.c, rand.c, lng*.c")],
  observe=["return values, errno and end pointers"], tech=CSAI, note="Shapes of texts are enumerated, digits symbolic. Inputs whose result C leaves undefined are excluded."),
 dict(id="S03", title="qsort sorts and bsearch finds for every consistent comparison",
  statement="For any consistent comparison function, qsort leaves a permutation of the elements in ascending order and touches nothing outside the array, and bsearch returns an element equal to the key if there is one and a null pointer otherwise; the comparison function only ever gets the key or elements of the array.",
  over=["inputs"], quant="all orders of the elements, ties included, for the listed element counts and sizes",
  why=CWHY, files=["v0100/srclib"], mech=[("sorting", "v0100/srclib/qsort.c"), ("searching", "v0100/srclib/bsearch.c")],
  observe=["return values and memory contents"], tech=CSAI, note="Element counts and sizes are enumerated; the outcome of every comparison is forked."),
]

PROPS += [
 dict(id="S04", title="Formatted output writes exactly what the format says",
  statement="For every format and every argument value, printf and its relatives write exactly the bytes C prescribes for the flags, width, precision, length modifier and conversion, return their number, and store the running count through %n. They report a write error by a negative result and write nothing after it, and the bounded string forms never write past the given size.",
  over=["inputs"], quant="all argument values for every combination of flags, widths, precisions, modifiers and conversions listed; decimal expansions of floating arguments with unknown digits around every rounding and layout boundary",
  why=CWHY, files=["v0100/srclib"], mech=[("engine", "v0100/srclib/doprint.c __doprint"), ("destinations", "v0100/srclib/vsnprint.c, vsprintf.c, printf.c, fprintf.c")],
  observe=["characters written, return values and stored counts"], tech=CSAI, note="Integer and string arguments symbolic; floating arguments enter as decimal expansions, whose generator is taken by contract."),
 dict(id="S05", title="Formatted input reads exactly what the format says",
  statement="For every input text and format, scanf and its relatives consume exactly the characters C lets each directive match, store exactly the values those characters denote, and return the number of assigned items, or EOF when input ends first. Field widths, assignment suppression, scan sets and %n are honoured, storage outside the destination is never written, and strtod and atof read the same numbers.",
  over=["inputs"], quant="all characters of input texts of the listed shapes, for every conversion, width and modifier listed; all sign, prefix, digit and exponent shapes of numbers, around every limit",
  why=CWHY, files=["v0100/srclib"], mech=[("engine", "v0100/srclib/doscan.c __doscan"), ("floating numbers", "v0100/srclib/strtof.c"), ("sources", "v0100/srclib/sscanf.c, scanf.c, fscanf.c")],
  observe=["characters consumed, values stored and return values"], tech=CSAI, note="Text shapes are enumerated, characters symbolic; converting digits to binary is taken by contract. Hexadecimal floats, nan(...) and ranges in scan sets are not supported by the library and excluded."),
 dict(id="S06", title="The heap hands out disjoint blocks and keeps their contents",
  statement="For every history of malloc, calloc, realloc and free, a returned block lies inside the heap, is aligned, is at least as large as asked and overlaps no other live block, and live blocks keep their contents until freed, reallocated ones up to the smaller size. Requests that cannot be met, overflowing products included, return a null pointer and leave everything else usable, and freed space becomes available again.",
  over=["histories", "inputs"], quant="every operation on every arrangement of free and allocated neighbours, for all block and request sizes (as linear forms), with growing, failing and fixed heaps, in each target's configuration",
  why=CWHY, files=["v0100/srclib"], mech=[("allocator", "v0100/srclib/malloc.c, free.c, realloc.c, calloc.c")],
  observe=["pointers returned, heap structure and block contents"], tech="abstract interpretation of the allocator's LLVM IR over a heap of blocks of unknown sizes (linear relations between sizes), each operation preserving the heap invariant",
  note="One operation from any well-formed neighbourhood; histories follow by induction on the invariant. The huge model's DOS allocator is a system call."),
 dict(id="S07", title="Streams give the file's bytes in order at the right position",
  statement="Over any sequence of legal operations on a stream, in every mode and buffering, reads return the file's bytes in order, writes put exactly the given bytes at the current position, positioning and pushed-back characters act as C prescribes, and end-of-file and error indicators are set exactly when they should be. After a flush, a reposition or a close everything written is in the file, unbuffered and line-buffered streams hold nothing back, and a failed read or write is reported rather than lost.",
  over=["histories", "fault_sequences"], quant="all histories of the listed operations up to the listed length, all file and written bytes, buffer sizes around every boundary, short reads, every single failing read and write and failing allocation, in each target's configuration",
  why=CWHY, files=["v0100/srclib"], mech=[("buffering", "v0100/srclib/fillbuf.c, flushbuf.c, fflush.c, setvbuf.c"), ("transfer", "v0100/srclib/fread.c, fwrite.c, fgetc.c, fputc.c, fgets.c, ungetc.c"), ("positioning", "v0100/srclib/fseek.c, ftell.c, fseek16.c, ftell16.c")],
  observe=["results of stream calls and contents of the file"], tech="abstract interpretation of the stream functions' LLVM IR over file contents of unknown bytes, every history compared with an abstract stream",
  note="Legal means a positioning call or end of file between reading and writing; pushing back is guaranteed once, right after a successful read."),
]
PROPS += [
 dict(id="F09", title="A name always denotes the declaration C's scope rules select",
  statement="In every program, a use of an identifier denotes exactly the declaration C's block, function, file, prototype, tag, member and label scopes select at that point: inner declarations hide outer ones from the end of their declarator to the end of their scope and nothing beyond, and ordinary names, tags, members and labels never interfere. Repeated, extern and static declarations refer to the objects and functions C's linkage rules say, and the objects exported and imported are exactly those. Uses of names that are not visible, clashing redeclarations and misplaced labels are rejected.",
  over=["programs", "configurations"], quant="all ways the names of each program shape can coincide or differ; all listed sequences and nestings of declarations, uses, blocks, functions and labels, in 16- and 32-bit models",
  why="Tests seldom reuse a name; which declaration wins depends on which names coincide across kinds and nesting levels, far more combinations than any test set holds.",
  files=["v0100/smlrc.c"], mech=[("lookup", "v0100/smlrc.c FindSymbol, FindTaggedDecl, FindIdent"), ("scope ends", "v0100/smlrc.c UndoNonLabelIdents, ParseBlock, ParseFxnParams"), ("declarations", "v0100/smlrc.c ParseDecl, ParseDerived"), ("labels", "v0100/smlrc.c AddGotoLabel")],
  observe=["assembly text written by smlrc", "compiler diagnostics"],
  tech="abstract interpretation of the parser's LLVM IR over programs with unknown identifier letters, each path holding the equalities it decided; every use compared with an independent model of C scopes, name spaces and linkage",
  note="Names are one letter of two; program shapes are enumerated. Documented leniencies in redeclaration checks are accepted."),
]
PROPS += [
 dict(id="F12", title="Programs beyond the compiler's fixed capacities are refused, never corrupted",
  statement="However many or long the names, strings, macros, macro expansions, declarations, expressions, labels, cases, inclusions, conditionals, packing levels, paths and options a program uses, the compiler never reads or writes outside its internal tables. A program that exceeds a capacity makes it stop with a diagnostic, and any program it accepts is compiled exactly as it would be with larger tables.",
  over=["programs", "inputs", "configurations"], quant="every table of the compiler, filled by each kind of construct that uses it, at sizes around its last slot (found by bisection, so wherever the limit lies) and well beyond",
  why="Tests never come near the limits; one missing or misplaced guard silently overwrites neighbouring data only for programs of one exact size.",
  files=["v0100/smlrc.c", "v0100/cgx86.c"], mech=[("names and macros", "v0100/smlrc.c AddIdent, AddMacroIdent, AddMacroExpansionChar, Reserve4Expansion"), ("expressions", "v0100/smlrc.c push2, ins2, pushop2, ParseStatement"), ("declarations", "v0100/smlrc.c PushSyntax2, InsertSyntax2"), ("nesting", "v0100/smlrc.c IncludeFile, pushPrep, AddCase, AddGotoLabel"), ("globals", "v0100/cgx86.c GenAddGlobal")],
  observe=["assembly text written by smlrc", "compiler diagnostics"],
  tech="abstract interpretation of the whole compiler's LLVM IR over programs that fill each table around its bound, every access checked against its object, and accepted programs compared with the same compiler built with larger tables",
  note="Fill levels are enumerated around each bound; the three largest tables are analysed at a documented smaller build size. The last name's final byte is unknown."),
]
MWHY = "The MIPS back end has no tests at all here and nothing runs its output; a wrong instruction shows only on particular operand shapes, register pressures or values."
PROPS += [
 dict(id="M01", title="Compiled MIPS code computes what the C expression means",
  statement="When the compiler is built for MIPS, the instructions emitted for every expression compute the value C prescribes for all operand values: arithmetic, comparisons, short circuits, loads and stores of every size, assignments, increments, address arithmetic and calls with arguments in their registers and stack words. They change no other memory, keep every register and stack word the caller or an enclosing expression relies on, and never use a temporary that is already in use.",
  over=["programs", "inputs"], quant="all operand values for every operator applied to every shape and size of operand, at every nesting depth up to beyond the temporary registers",
  why=MWHY, files=["v0100/cgmips.c"], mech=[("expressions", "v0100/cgmips.c GenExpr0, GenCmp, GenPushReg, GenPopReg"), ("memory operands", "v0100/cgmips.c GenRead*, GenWrite*, GenIncDec*")],
  observe=["assembly text written by the compiler built for MIPS"],
  tech="abstract interpretation of the MIPS code generator's LLVM IR (trace partitioning over operand shapes), the emitted templates compared by value numbering with the expression's meaning under a MIPS transfer function",
  note="Operand values are unknown; shapes and nesting depths are enumerated."),
 dict(id="M02", title="Compiled MIPS functions keep the calling convention and their frames",
  statement="When the compiler is built for MIPS, every function finds its parameters where callers put them, keeps its simultaneously live variables disjoint, aligned and inside its frame, and returns to its caller with the stack pointer and saved registers as they were. Structures passed and returned by value arrive complete and unaltered, and a structure result is stored exactly where the caller asked.",
  over=["programs"], quant="all argument values and stack contents for the listed parameter lists, local variables, block nestings and structure types and sizes",
  why=MWHY, files=["v0100/cgmips.c"], mech=[("frames", "v0100/cgmips.c GenFxnProlog, GenFxnEpilog"), ("structure helpers", "v0100/cgmips.c GenFin")],
  observe=["assembly text written by the compiler built for MIPS"],
  tech="abstract interpretation of the compiler's LLVM IR over function definitions; the emitted code followed over symbolic registers, addresses and stack contents and compared with the calling convention",
  note="Parameter lists and structure sizes are enumerated. Callees follow the same convention."),
 dict(id="M03", title="Compiled MIPS statements take the control flow of the C program",
  statement="When the compiler is built for MIPS, the code of every function performs the calls, branches and returns of its C statements in the same order under the same conditions on every path, whatever the nesting of loops, switches, labels, jumps and short-circuit conditions. Returned values are those of the return expressions converted to the function's type.",
  over=["programs"], quant="all outcomes of all controlling expressions on all paths of each listed statement shape, with every kind of controlling expression",
  why=MWHY, files=["v0100/cgmips.c", "v0100/smlrc.c"], mech=[("jumps", "v0100/cgmips.c GenJumpUncond, GenJumpIfZero, GenJumpIfNotZero, GenJumpIfEqual"), ("statements", "v0100/smlrc.c ParseStatement")],
  observe=["assembly text written by the compiler built for MIPS"],
  tech="abstract interpretation of the compiler's LLVM IR into assembly, then a product walk of that assembly with an independent reference control-flow graph, branch conditions compared by value numbering",
  note="Statement shapes are enumerated; conditions and call results are unknown."),
 dict(id="M04", title="MIPS data directives lay out objects as C prescribes",
  statement="When the compiler is built for MIPS, every initialised object occupies exactly its size, is aligned for its type and holds in each byte the value or address its initialiser gives, with omitted parts zero; uninitialised objects are zero-filled and linkage is as declared. String literals contain exactly their bytes for all byte values, and invalid initialisers are rejected.",
  over=["programs", "inputs"], quant="all constant values in every listed combination of type and initialiser form, and every byte value in strings",
  why=MWHY, files=["v0100/cgmips.c", "v0100/smlrc.c"], mech=[("directives", "v0100/cgmips.c GenIntData, GenAddrData, GenZeroData, GenDumpChar"), ("initialisers", "v0100/smlrc.c InitVar, InitScalar, InitArray, InitStruct")],
  observe=["assembly text written by the compiler built for MIPS"],
  tech="abstract interpretation of the compiler's LLVM IR over declarations with unknown constants; the directives read back as bytes and addresses and compared with an independent layout model",
  note="Types and initialiser forms are enumerated. Half-words and words are placed where written."),
]
