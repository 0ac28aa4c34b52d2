#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long strings stay readable)."""
import json, os
T = "tiny/src/tiny.c"; S = "tiny/src/std.c"; L = "tiny/src/lexer.c"; H = "tiny/include/tiny.h"
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if "observe" in kw: a["observe_at"] = kw["observe"]
    if "state" in kw: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in kw["state"]]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Expressions evaluate to the value the language prescribes",
  "Every expression of an accepted program evaluates to the value prescribed by its operators and operands: int arithmetic is exact and 64-bit for + - * /, division truncates, mixing an int with a float gives a float, comparisons and equality follow the operands' types and values, && and || and if-else expressions evaluate only the operand they need. Operands and arguments are evaluated exactly once, left to right, whatever literals, constants, variables or calls they are and however deeply they are nested.",
  ["programs", "inputs"], "every well-typed expression over every combination of operators, operand forms (literal, constant, local, global, argument, field, call, index) and values",
  "The tests evaluate a few dozen fixed expressions; a wrong special case (a fused instruction, an operand that is a literal 1, a negative operand, a float on one side) passes as long as it is not one of them.",
  [T], [("expression code generation", T + ": CompileExpr"), ("instruction semantics", T + ": ExecuteCycle"), ("equality", T + ": Tiny_AreValuesEqual")],
  observe=["values received by foreign functions"])
p("C02", "Source text is read as the grammar says",
  "Any source text is split into the longest matching tokens, with comments and white space ignored, escapes and number formats (decimal, hexadecimal, float, character) converted to the value they denote, and grouped by the documented grammar: * / % & | bind tighter than + - << >>, which bind tighter than comparisons, which bind tighter than && and ||; equal precedence groups to the left; unary operators and suffixes (. -> [] ()) bind tightest.",
  ["inputs", "programs"], "every token sequence and every layout of it",
  "Tests contain one or two layouts of a handful of expressions; nothing tries operator pairs or triples, unusual spacing, escapes, or literals at the end of the text.",
  [L, T], [("tokenizer", L + ": GetToken"), ("precedence climbing", T + ": ParseBinRhs, GetTokenPrec"), ("suffixes", T + ": ParseSuffix")])
p("C03", "Control flow executes exactly the statements selected",
  "if/else, while, for, break, continue, return and blocks execute exactly the statements their conditions select, in source order, for any nesting: break leaves and continue restarts (running the step of a for) only the innermost enclosing loop, and return leaves only the current function.",
  ["programs"], "every nesting and sequence of control statements, with any number of breaks and continues, inside and outside functions",
  "The tests have a few loops with one break or continue at a fixed place; jump patching is combinatorial in nesting.",
  [T], [("jumps and patching", T + ": CompileStatement, PatchBreakContinue, PatchJumpLoc"), ("GOTO/GOTOZ/RETURN", T + ": ExecuteCycle")])
p("C04", "Calls, recursion, locals and scopes keep every variable separate",
  "A call binds the arguments to the parameters in order, gives the callee its own null-initialised locals, leaves every variable of the callers unchanged, and yields the returned value (null if none was returned). A name denotes the innermost visible declaration, local before argument before global, so an inner or later declaration never reads or clobbers another variable, for any number of arguments, locals, globals and any recursion within the limits.",
  ["programs"], "every program within the documented limits (255 arguments, 255 locals, 64 nested calls, 128 stack slots)",
  "The tests use functions with at most three or four variables and shallow recursion; slots, offsets and frame restoration are exercised at one or two sizes.",
  [T], [("frames", T + ": DoPushIndir, DoPopIndir"), ("scopes", T + ": OpenScope, CloseScope, ReferenceVariable, DeclareLocal, DeclareArgument, DeclareGlobalVar"), ("local access", T + ": GETLOCAL, GETLOCAL_W, SETLOCAL")])
p("C05", "Compilation accepts well-typed programs and rejects all others",
  "A program is accepted if and only if it is well formed: every name is declared before use (functions and structs may be used before), every operator, assignment, argument, field, return value and condition has a permitted type (any only flows into any without a cast, T flows into T?, nothing else converts), struct constructors initialise every field exactly once, break and continue are inside a loop, and no variable, constant, parameter, field or struct is declared twice in a scope. Rejection is reported as a compile error; a rejected program never runs.",
  ["programs"], "every syntactically possible program, in particular every one-step corruption of a well-typed program",
  "The tests contain about ten ill-typed programs; the type rules are a table over all expression forms and type pairs.",
  [T], [("type resolution", T + ": ResolveTypes, IsTagAssignableTo"), ("declarations", T + ": DeclareGlobalVar, DeclareLocal, DeclareConst, CheckInitialized"), ("statement checks", T + ": ParseStatement, ParseFunc, ParseStruct, CompileStatement")])
p("C06", "Structs are shared by reference and fields are independent",
  "A struct holds exactly the values its constructor was given, in positional or named form; reading a field yields the value most recently stored in that field of that struct through any reference to it, storing changes no other field or struct, and two struct values are equal exactly when they are the same object.",
  ["programs", "histories"], "every program that builds, links, mutates and compares structs of any number of fields and any nesting, including cyclic ones",
  "The tests build small structs and read them back directly; aliasing and mutation through long chains are not enumerated.",
  [T], [("struct instructions", T + ": PUSH_STRUCT, STRUCT_GET, STRUCT_SET"), ("constructor code", T + ": CompileExpr"), ("host access", T + ": Tiny_GetField")])
p("C07", "No reachable object is ever reclaimed",
  "An object that can still be reached from a global, a live local, an argument, an intermediate value, a pending or returned value, or through structs, arrays, dictionaries and host objects that protect their children, keeps its identity and contents across any number of collections. A host object's finalizer never runs while the object is reachable.",
  ["programs", "histories", "schedules"], "every allocation history and every point at which a collection can happen, including collections during foreign calls, host calls into Tiny code, and stepwise execution",
  "Collections happen at allocation-count thresholds, so which object is only held by which root at the moment of a collection depends on the whole history; tests hit very few of these moments.",
  [T, "tiny/src/array.c", "tiny/src/dict.c", S], [("marking", T + ": MarkAll, Tiny_ProtectFromGC"), ("container marking", S + ": ArrayProtectFromGC, DictProtectFromGC"), ("thresholds", T + ": ExecuteCycle, GarbageCollect"), ("values kept across host calls", T + ": Tiny_CallFunction")])
p("C08", "Unreachable objects are finalized once and garbage stays bounded",
  "Every host object is finalized exactly once, at the latest when its thread is destroyed, and never touched afterwards. Cyclic and acyclic garbage is reclaimed while the program runs: the number of objects not yet reclaimed stays within a small multiple of the number ever simultaneously reachable, however long the program runs.",
  ["programs", "histories"], "every allocation history of any length, including cyclic garbage, and every point at which the thread is destroyed",
  "The tests only check that one program does not crash; leaks, double finalization and unbounded growth are invisible to them.",
  [T], [("sweep", T + ": Sweep, DeleteObject"), ("threshold", T + ": GarbageCollect"), ("thread destruction", T + ": Tiny_DestroyThread")])
p("C09", "Threads of one state are isolated and can be stepped in any interleaving",
  "Threads started on one compiled state share only the program: each has its own globals, heap, position and results, and behaves exactly as if it ran alone, whatever the interleaving of single steps, full runs, host calls and destruction of the threads. Running a thread in one go and running it one cycle at a time are indistinguishable to the program.",
  ["schedules", "programs"], "every interleaving of steps of any number of threads, including host calls and thread destruction in between",
  "The tests interleave two threads in one fixed way; interference needs a particular interleaving.",
  [T], [("thread state", T + ": Tiny_InitThread, AllocGlobals, Tiny_StartThread"), ("stepping", T + ": Tiny_ExecuteCycle, Tiny_Run")])
p("C10", "A host call into Tiny code disturbs nothing it interrupts",
  "The host may call a Tiny function on a thread at any time - before it starts, between any two cycles, from inside a foreign function at any nesting, or after it has finished - and gets the value the function returns. The interrupted execution then continues exactly as if the call had not happened, except for the called function's own effects on globals and shared objects.",
  ["schedules", "programs", "histories"], "every point of execution at which the call can happen and every nesting of host and Tiny calls",
  "The tests call a function before or after a run, or from one foreign function; saved and restored execution state only matters in the middle of an expression.",
  [T], [("host call", T + ": Tiny_CallFunction"), ("foreign call", T + ": CALLF"), ("indirect call", S + ": CallFunction, delegate macro")])
p("C11", "A failed compilation leaves the state as it was",
  "When a compilation fails, for whatever reason and at whatever point, the state behaves in every respect as if it had not been attempted: programs compiled earlier still run the same, names it introduced do not exist, and later compilations succeed or fail and run as they would have without it.",
  ["histories", "fault_sequences"], "every history of successful and failing compilations, every kind and position of the error, with and without macros",
  "The tests compile failing programs on fresh states and stop there; what a failed compilation leaves behind shows only in what follows.",
  [T], [("rollback", T + ": Tiny_CompileString (error path)"), ("error reporting", T + ": ReportErrorSL, ReportErrorE, ReportErrorS")])
p("C12", "Compiling in pieces extends the program",
  "Compiling several sources one after another on one state gives one program that executes the top-level code of all of them in order; each source sees the functions, types, constants and globals of the earlier ones, nothing compiled later changes the meaning of what was compiled earlier, and a thread may be started and destroyed between compilations.",
  ["histories", "programs"], "every split of a program into pieces and every history of compiling, running and destroying threads in between",
  "The tests compile two pieces at most.",
  [T], [("program extension", T + ": CompileState"), ("symbol lookup", T + ": ReferenceVariable, ReferenceFunction, GetTagFromName")])
p("C13", "Any source text yields a program or an error, never a crash or a hang",
  "For any sequence of bytes given as source text, compilation terminates and either succeeds or returns an error with a message and a position inside the text; it never crashes, hangs, corrupts memory or exits the host, and the state stays usable.",
  ["inputs"], "every text, well formed or not: truncated, spliced, mutated, or with unexpected characters, at any size within the documented limits",
  "The tests give the compiler well-formed text and a few typical mistakes.",
  [T, L, "tiny/src/util.c"], [("error paths", T + ": ReportErrorSL, ReportErrorE"), ("message formatting", "tiny/src/util.c: Tiny_FormatErrorV"), ("tokenizer", L + ": GetToken")])
p("C14", "All memory goes through and returns to the caller's allocator",
  "All memory a state or thread uses is obtained from and returned to the allocator given to it, thread allocations to the thread's own allocator; after its threads and the state are destroyed nothing is left allocated and nothing was released twice or with the wrong allocator, whatever was compiled (successfully or not), run, interrupted or aborted half way.",
  ["histories", "programs", "fault_sequences"], "every history of compilations, failures, runs, host calls and destruction in any legal order",
  "The tests do not count allocations.",
  [T, S, "tiny/src/arena.c", "tiny/src/util.c", "tiny/src/array.c", "tiny/src/dict.c"], [("allocation helpers", "tiny/src/util.c: TMalloc, TRealloc, TFree"), ("destruction", T + ": Tiny_DeleteState, Tiny_DestroyThread, Symbol_destroy"), ("arena", "tiny/src/arena.c")])
p("C15", "Typed arrays behave as sequences",
  "An array created by the array macro behaves as a mathematical sequence of its element type under push, pop, shift, insert, remove, get, set, len, clear, resize, sort, indexing and construction, in any order and at any length; elements keep their values and identities as the array grows, shrinks and is shared, and different arrays never affect each other.",
  ["histories", "inputs"], "every sequence of operations on any number of arrays of any element type",
  "The tests do a few pushes and one sort; growth, shifting and aliasing depend on the history.",
  ["tiny/src/array.c", S], [("array functions", S + ": array macro and functions"), ("storage", "tiny/src/array.c")])
p("C16", "Dictionaries behave as finite maps",
  "A dictionary behaves as a finite map from keys to values under put, get, exists, remove, clear, filled count, keys and construction, in any order, for any number of keys and any pattern of colliding or removed keys; growing, removing and re-inserting never loses, duplicates or mixes up entries, and different dictionaries never affect each other.",
  ["histories", "inputs"], "every sequence of operations over any key set, including colliding keys, growth past the initial capacity and removal in the middle of probe chains",
  "The tests put a few keys and read them back; probe chains and rehashing need particular keys in a particular order.",
  ["tiny/src/dict.c", S], [("open addressing", "tiny/src/dict.c"), ("dict functions", S + ": Tiny_BindStandardDict")])
p("C17", "Strings are immutable values compared by content",
  "A string is an immutable sequence of bytes of known length, whatever created it (literal, concatenation, conversion, file, host) and whatever bytes it contains; equality, length, indexing, search, concatenation and slicing depend only on the contents, and no operation changes a string that exists already.",
  ["inputs", "programs", "histories"], "all string contents including empty strings, embedded null bytes and long strings, of every origin",
  "The tests compare a few short literals.",
  [S, T], [("string functions", S + ": Strlen, Stridx, Strchr, Strcat, Lib_Substr"), ("representation", T + ": Tiny_NewString, Tiny_NewStringCopy, Tiny_StringLen, Tiny_AreValuesEqual")])
p("C18", "Library conversions, formatting, files and JSON do what they say",
  "The standard functions return exactly what their arguments determine: number and string conversions, floor and ceil, 64-bit integer helpers, printf formatting of every kind of value, reading back what was written to a file, and JSON text of a value of any declared struct. They affect nothing else.",
  ["inputs", "histories"], "all argument values and combinations, including negative, large and boundary values, and all call sequences on files",
  "The tests call a handful of library functions once.",
  [S], [("library functions", S + ": Tiny_BindStandardLib, Tiny_BindStandardIO, Tiny_BindI64"), ("printf", S + ": Lib_Printf, PrintValue"), ("JSON", S + ": json macro")])
p("C19", "The executing line reported is the line of the executing statement",
  "Whenever a foreign function is executing, and after it returns, the file and line reported for the thread are those of the statement whose code is being executed, in whichever source, function, loop or nested call that is, whatever blank lines, comments and multi-line literals precede it, and also after failed compilations and further sources.",
  ["programs", "histories", "inputs"], "every layout of every program, every statement kind, every compilation history",
  "The tests query the line in a single fixed program.",
  [T, L], [("line records", T + ": AddPCFileLineRecord, GetFileLineForPC, Tiny_GetExecutingFileLine"), ("line counting", L + ": lineNumber")])
p("C20", "Disassembly lists the whole program, one instruction at a time",
  "Starting at the beginning and repeatedly disassembling one instruction visits every instruction of the compiled program exactly once, ends exactly at its end, never reports an unknown instruction, and prints for each the operation and operands which execution uses, so that the listing determines what the program does.",
  ["programs"], "every compiled program",
  "The tests do not disassemble.",
  [T, "tiny/include/opcodes.h"], [("disassembler", T + ": Tiny_DisasmOne"), ("encoding", T + ": GEN_VALUE, READ_VALUE_AT")])
p("C21", "Macros and delegates generate exactly the code they describe",
  "A use statement runs the named macro with exactly its arguments and as-name before the rest of the source is checked; the array, json and delegate macros make available functions of exactly the types they describe, a delegate calls the function it was created for with the arguments given and yields its result, and a macro that fails makes the compilation fail.",
  ["programs", "histories"], "every combination of macros, arguments, aliases, order of declaration and repeated use",
  "The tests use one array and one delegate.",
  [T, S], [("macro expansion", T + ": Tiny_CompileString"), ("macros", S + ": ArrayModuleFunction, DelegateMacroFunction, JsonMacro")])
p("C22", "Foreign functions get exactly the arguments and deliver their result",
  "A foreign function bound under a signature is called once for each call executed, with exactly the evaluated arguments in order and their count, and its result is the value of the call; its signature (fixed, variadic or untyped, opaque types included) decides which calls compile, and constants bound by the host have the bound value and type.",
  ["programs", "inputs"], "every signature, argument count up to the limit, argument value and call context",
  "The tests bind a few functions with up to three parameters.",
  [T], [("binding", T + ": Tiny_BindFunction, Tiny_BindConst*, Tiny_RegisterType"), ("calls", T + ": CALLF, CompileCallSymbolWithArgsPrepared")])
p("C23", "The host sees and sets globals by name",
  "Looking up a global variable or function by name gives its index if and only if it is declared; reading a global gives the value most recently assigned by the program or the host, null if none, and a value set by the host is what the program reads next, for every global and at every point of execution.",
  ["programs", "histories", "schedules"], "any number of globals, any names, every point between cycles",
  "The tests read one or two globals after a run.",
  [T], [("globals API", T + ": Tiny_GetGlobalIndex, Tiny_GetGlobal, Tiny_SetGlobal, Tiny_GetFunctionIndex"), ("GET/SET", T + ": ExecuteCycle")])
p("C24", "The C containers keep their contracts",
  "Used directly from C, the array keeps its elements in order under every operation, the dictionary is a finite map, and the arena hands out non-overlapping, suitably aligned blocks that keep their contents until it is destroyed, which releases all of its memory.",
  ["histories", "inputs"], "every sequence of operations with every size, alignment and key pattern",
  "The tests do not use these containers from C beyond one or two calls.",
  ["tiny/src/array.c", "tiny/src/dict.c", "tiny/src/arena.c"], [("array", "tiny/src/array.c"), ("dict", "tiny/src/dict.c"), ("arena", "tiny/src/arena.c")])
p("C25", "Text positions convert to the right line and column",
  "For every text and every index inside it, the friendly position is the zero-based number of line ends before the index and the zero-based offset of the index from the start of its line, and a compile error's message and position name a place in the source given, at or after the start of the offending construct.",
  ["inputs"], "every text and every index in it",
  "The tests do not check positions.",
  ["tiny/src/pos.c", "tiny/src/util.c"], [("conversion", "tiny/src/pos.c: Tiny_PosToFriendlyPos"), ("messages", "tiny/src/util.c: Tiny_FormatErrorV")])
p("C26", "What the host or a macro asks about a state agrees with its programs",
  "After every source, compiled or failed, looking up a type, function or constant by name - by the host, or by a macro in the middle of a compilation - yields exactly what the sources compiled so far (and the host and the libraries) declare: the struct's fields in order with their types, the function's parameters and return type, the constant's value; a name that was not declared, or only by a source which failed, is not found.",
  ["programs", "histories"], "every sequence of sources, macros and host registrations and every name",
  "The tests use these queries only inside the shipped macros on a few structs.",
  [T, "tiny/include/tiny.h"], [("queries", T + ": Tiny_FindTypeSymbol, Tiny_FindFuncSymbol, Tiny_FindConstSymbol"), ("rollback", T + ": Tiny_CompileString")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
