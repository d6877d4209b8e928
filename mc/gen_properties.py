#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = "none"
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Integer operators compute exact 63-bit two's-complement results",
 "For all int operands, + - * / & | ^ << >> ~ unary minus and the comparisons == < <= > >= produce the value of signed 63-bit two's-complement arithmetic (wrapping on overflow, division truncating toward zero, shifts arithmetic with the count taken modulo 64), whether an operand is a literal, variable, parameter, field, array element, captured variable or call result. Boolean operators and, or, not follow their truth tables, and every integer literal in the 63-bit range (decimal or hexadecimal, either sign) denotes exactly its value.",
 ["inputs", "programs"], "every operator x every pair of values of a boundary set covering 0, +-1, the extremes of 8/16/31/32/61/62/63-bit and bit patterns x every operand form",
 "arith.clara/bits.clara evaluate a few dozen fixed small expressions; tag/untag mistakes, wrong sign handling or 32/64-bit immediate selection only show at boundary operands or with particular operand forms.",
 ["codegen.go", "peep.go", "asm.go", "semantic.go", "lex/lex.go"],
 [("tagged arithmetic", "codegen.go genExpr opAdd..opBRight, opNeg, opBNot, tagAs/untagAs"), ("literal loading", "codegen.go genExpr opLit"), ("constant folding / overflow check", "semantic.go foldConstants"), ("peephole", "peep.go ins")])

prop("C02", "Expressions group and evaluate as the operator table says",
 "Every expression built from the binary, unary, ternary, call, index, field and parenthesis forms groups according to one fixed precedence and associativity table and yields the value of that grouping at any nesting depth. Every operand and argument of an evaluated operator or call is evaluated exactly once, left to right, and only the selected branch of a ternary is evaluated.",
 ["programs"], "all operator sequences up to length 4, all expression trees of bounded depth over all operator kinds with side-effecting leaves",
 "Tests contain a handful of hand-picked mixes; a wrong precedence level, associativity or a register/stack slip only shows for particular operator pairs, nestings or side-effect orders.",
 ["parse.go", "lex/lex.go", "codegen.go", "peep.go"],
 [("Pratt parser", "parse.go parseExpr, parseBinaryOperator, parsePrefixOperator, parseTernaryOperator"), ("precedence table", "lex/lex.go Kind.Precedence/Associativity"), ("stack machine", "codegen.go genExpr save/restore")])

prop("C03", "Calls deliver every argument and result unchanged",
 "A call of any kind (named, dot-selected, through a function value held in a variable, parameter, field, array element or call result, anonymous, closure, constructor) with any permitted number of arguments delivers each argument value to the corresponding parameter and the result back to the caller, whatever the argument expressions are and however deeply calls are nested. Locals and parameters of the caller, including in recursion, are unaffected by the callee.",
 ["programs"], "argument counts 0-6 x argument expression forms at each position (literals, arithmetic, division, shifts, nested calls, closures, ternaries, allocations) x call kinds x nesting",
 "fns.clara passes a few simple arguments; register clobbering depends on which operator appears in which argument position and how calls nest.",
 ["codegen.go", "closures.go", "install/lib/runtime.clara", "typecheck.go"],
 [("argument registers", "codegen.go genFnCall, SpillRegisters/RestoreRegisters"), ("dynamic calls", "closures.go rewriteAnonFnAndClosures; runtime.clara invokeDynamic"), ("prologue", "codegen.go genFunc")])

prop("C04", "Control-flow statements execute exactly the statements their semantics select",
 "if/elseif/else, while, for over arrays, for over ranges (start inclusive, end exclusive and increasing; decreasing, with the start excluded and the end included, when both bounds are literals with start > end or the end is a literal 0 and the start is not a literal), match, return and nested blocks execute precisely the statement sequence of the structured semantics, for every combination and nesting and every outcome of their conditions. A for statement evaluates its array expression once, and return leaves the function immediately from any nesting.",
 ["programs", "inputs"], "all statement trees of bounded size over if/elseif/else/while/for/match/return/assignment x all condition outcomes and loop bounds in a small range",
 "flow.clara and for.clara run single examples of each construct; jumps, labels and slot allocation interact only in particular nestings.",
 ["codegen.go", "semantic.go", "parse.go"],
 [("if chains and loops", "codegen.go genIfElseIfElseStmts, genWhileStmt, genStmtList"), ("for lowering", "semantic.go lowerForStatement"), ("match lowering", "semantic.go lowerMatchStatement")])

prop("C05", "Variables, scopes and storage behave independently",
 "Every variable, parameter, struct field, enum field and array element is its own storage: an assignment changes exactly the addressed one and is seen by every later read through any alias of the same object, while ints, bools and references are copied by assignment and parameter passing. Names resolve lexically to the innermost enclosing declaration, sibling scopes do not interfere, and a declared variable always starts with its declared initial value, including in every loop iteration.",
 ["programs", "histories"], "all short sequences of declare/assign/alias/mutate/read operations over variables, two structs, arrays and nested objects, with declarations spread over nested and sibling blocks",
 "structs.clara/arrays.clara read back single writes; slot sharing, wrong offsets or scope leaks need two or more interacting locations.",
 ["codegen.go", "symtab.go", "typecheck.go", "semantic.go"],
 [("stack slots", "codegen.go genFunc, genAssignStmt"), ("field offsets", "semantic.go processTopLevelTypes, typecheck.go substituteType"), ("scopes", "symtab.go Child/Resolve/Define")])

prop("C06", "Closures capture the enclosing variables they use, by value, wherever used",
 "A closure sees, for every enclosing variable or parameter it mentions in any syntactic position and at any closure nesting depth, the value that variable had when the closure was created. Assignments inside the closure persist across its own calls but never affect the enclosing function or other closures, and behaviour does not depend on whether the function value is a closure, anonymous or named function.",
 ["programs", "histories"], "syntactic use position x number of captures x captured type x nesting depth x create/mutate/call sequences",
 "closures.clara captures one or two variables in simple positions; free-variable discovery walks the tree per node kind, so a missed kind shows only for a use in that position.",
 ["closures.go", "walk.go", "ast.go", "install/lib/runtime.clara"],
 [("free variables", "closures.go freeVarChecker.IdentityFreeVars/isFree"), ("environment rewrite", "closures.go clRewriteFreeVars, generateStruct"), ("invocation", "runtime.clara invokeDynamic/isClosure")])

prop("C07", "Garbage collection never reclaims a reachable object",
 "At every allocation (each one runs a collection), every heap object still reachable from a live variable, parameter, pending argument or temporary, captured variable, field, array element or the runtime's globals keeps its identity and contents. No program that avoids unsafe operations reads or writes reclaimed memory.",
 ["programs", "histories"], "every holder context (local, parameter, field, array element, enum payload, closure environment, pending argument at each position, operand/receiver/assignment temporary, loop variable, match variable) x object type x allocation point, with freed memory poisoned and made inaccessible",
 "gc.clara is the only collector test and exercises a few locals; a missing root shows only if an allocation happens while exactly that slot is the sole reference.",
 ["codegen.go", "gc.go", "install/lib/gc.clara", "install/lib/mem.clara", "semantic.go"],
 [("root maps", "gc.go GcState; codegen.go NewGcMap, SpillRegisters, genAssignStmt"), ("type maps", "codegen.go genTypeInfoTable; gc.go AssignId"), ("mark and sweep", "gc.clara gcMark/gcMarkPointer/gcSweep")])

prop("C08", "Garbage collection reclaims objects once they become unreachable",
 "After an object becomes unreachable from every live root, collections at subsequent allocations free it exactly once, including cyclic structures and garbage produced in loops, so a program with a bounded live set runs in bounded memory for arbitrarily many allocations. Each allocated block is freed at most once, and only through the block list.",
 ["programs", "histories"], "object shapes (chains, cycles, arrays, enums, closures, strings, bytes) x ways of becoming unreachable x loop iteration counts, with every calloc/free observed",
 "No test measures reclamation; leaks and double frees are invisible in program output.",
 ["install/lib/gc.clara", "install/lib/mem.clara", "gc.go", "codegen.go"],
 [("sweep", "gc.clara gcSweep"), ("block list", "mem.clara claralloc; runtime.c getBlocks/setBlocks"), ("root scoping", "gc.go OpenScope/CloseScope")])

prop("C09", "Out-of-range accesses always stop the program with a panic",
 "Reading or writing an array element, a byte of bytes or a byte of a string with an index below 0 or at or above the length terminates the program with a panic message and exit status 1 before any memory is read or written, for every index value and every length. Accesses with an index in range never panic.",
 ["inputs"], "lengths 0..N x every index in a window around the bounds and at the extremes x read/write x array element types x direct/field/call/closure receivers",
 "tests/panic checks one index per container; off-by-one, sign and unsigned-compare mistakes need the exact boundary and negative or huge indices.",
 ["codegen.go", "install/lib/bytes.clara", "install/lib/strings.clara", "install/lib/runtime.clara"],
 [("array bounds check", "codegen.go genExpr opArray, genIoobTrampoline"), ("bytes", "bytes.clara get/set"), ("strings", "strings.clara byte")])

prop("C10", "Ill-typed programs are rejected, well-typed programs are accepted",
 "The compiler produces an executable only if every operator, condition, index, assignment, declaration, argument, return, array element, ternary, match and field access is type-correct under the language's nominal typing with exact generic instantiation; any single violation, at any position and nesting (including inside anonymous functions and branches), yields a compile error. Programs that respect the rules compile.",
 ["programs"], "every operator x every pair of operand types, every (expected type, actual type) pair in every typed position x every enclosing context",
 "tests/types.clara and others are positive programs; the few negative cases cannot show that each position x type pair x nesting is guarded.",
 ["typecheck.go", "semantic.go", "symtab.go"],
 [("type checker", "typecheck.go typeCheck and helpers"), ("type equality", "symtab.go MatchesImpl"), ("operator table", "semantic.go operatorTypes")])

prop("C11", "Names, declarations and returns are statically checked",
 "Uses of undeclared names, out-of-scope variables, redeclarations in one scope, duplicate top-level types, functions, fields or parameters, unknown types or fields, wrong argument or type-argument counts, assignments to non-assignable targets and functions that can fall off their end without returning a value are all compile errors at any nesting. Each corresponding correct program compiles and a shadowing declaration in an inner scope is allowed.",
 ["programs"], "every rule x every syntactic context and nesting; every control-flow shape of bounded size for the must-return rule",
 "Only a few of these are exercised; for example missing-return analysis must hold for every shape of if/elseif/else/while/for/match.",
 ["typecheck.go", "semantic.go", "symtab.go", "ast.go"],
 [("redeclaration", "symtab.go Define; semantic.go processTopLevelTypes"), ("termination analysis", "ast.go isTerminating"), ("resolution", "typecheck.go typeCheckIdentifier")])

prop("C12", "The compiler always terminates with an executable or a located error",
 "For every source text the compiler terminates and either writes an executable that starts, or exits with status 1 and at least one error message carrying file, line and column; it never crashes, hangs, silently drops source text, or emits assembly that fails to assemble. In particular a source cut off anywhere inside a declaration is rejected.",
 ["inputs"], "every truncation point of a corpus, every single-token deletion, duplication, swap and replacement, and all short token sequences",
 "Tests feed only complete, mostly correct programs; unexpected-EOF and error-recovery paths depend on the exact token position.",
 ["parse.go", "lex/lex.go", "main.go", "typecheck.go", "semantic.go", "codegen.go", "asm.go"],
 [("EOF recovery", "parse.go next/onUnexpectedEof"), ("error recovery", "parse.go need/syntaxError"), ("lexer errors", "lex/lex.go"), ("driver", "main.go Compile")])

prop("C13", "Compile errors point at the offending source position",
 "Every syntax, name and type error names the source file and the line on which the offending token starts, and (beyond the first line) an undeclared name's column in characters, regardless of how much code, comments, blank lines or multi-byte text precedes it. Independent name and type errors in separate functions are each reported.",
 ["inputs"], "each error kind x each line offset and preceding filler (comments, blank lines, CRLF, strings with escapes, multi-byte text) x position in the file",
 "lex_test.go checks token positions of a few snippets; line counting across comments, strings and line endings is not covered.",
 ["lex/lex.go", "parse.go", "semantic.go", "typecheck.go"],
 [("line tracking", "lex/lex.go next/emit"), ("messages", "semantic.go semanticError; parse.go syntaxError")])

prop("C14", "Source text denotes the same program under any layout and exact string bytes",
 "A string literal denotes exactly its bytes after escape processing (length, content and NUL-safe identity) for every byte and escape, in every program position. Comments, blank lines, indentation, line endings and optional spaces between tokens never change a program's meaning.",
 ["inputs"], "every byte value and escape in first/middle/last position; every gap of a program x every filler",
 "strings.clara uses plain ASCII text; the escape language of the compiler and of the assembler differ, so agreement must hold for each byte and escape.",
 ["lex/lex.go", "asm.go", "codegen.go"],
 [("lexer states", "lex/lex.go"), ("literal emission", "asm.go stringLit/flush")])

prop("C15", "Meaning does not depend on declaration order, naming or unrelated code",
 "A program behaves the same under every order of its top-level declarations, under consistent renaming of its functions, types and variables (including names used by the standard library's locals), and when unrelated declarations are added. Compiling the same source repeatedly yields programs with the same behaviour.",
 ["programs"], "all permutations of a mixed set of declarations; renaming each identifier to each candidate name; adding unrelated declarations of every kind",
 "Each test has one fixed order and fixed names; symbol-name mangling, forward references and type-id numbering depend on order and names.",
 ["semantic.go", "symtab.go", "codegen.go", "gc.go", "main.go"],
 [("top-level passes", "semantic.go processTopLevelTypes"), ("assembly names", "symtab.go AsmName"), ("type ids", "gc.go AssignId; codegen.go genTypeInfoTable")])

prop("C16", "Overload resolution selects the function matching the argument types",
 "A call selects the unique visible function of that name whose parameter count and types match the arguments exactly, independent of declaration order and of call notation (plain or dot), and a function name passed as an argument selects the overload of the required type. If none matches the program is rejected, and functions with distinct parameter lists may coexist.",
 ["programs"], "all subsets and orders of overload sets over a type alphabet x all argument type tuples x call notation",
 "fns.clara has two or three overloads; matching is structural over nested types, so confusions (arrays, function types, generics) need specific pairs.",
 ["typecheck.go", "symtab.go", "semantic.go"],
 [("matching", "typecheck.go matchFuncCallBySymbol/matchFuncCallByType"), ("mangling", "symtab.go AsmName"), ("chaining", "semantic.go processFnType")])

prop("C17", "Enums and match: exhaustive, exact dispatch with exact payloads",
 "Matching an enum value runs exactly the case of the constructor that built it, with each payload variable equal to the corresponding constructor argument, for any number of cases (in any order) and up to five payload values of any types. A match that misses a case, repeats one, names another enum's case or binds the wrong number of variables is rejected.",
 ["programs", "inputs"], "enums with 1..N cases x payload arities 0..5 x payload types x case orders x nesting; all subsets of cases for the exhaustiveness rule",
 "enums.clara has one or two enums in declaration order; tag numbering and payload offsets depend on case order and arity.",
 ["semantic.go", "typecheck.go", "codegen.go", "install/lib/enums.clara"],
 [("lowering", "semantic.go lowerMatchStatement"), ("checking", "typecheck.go opMatch/typeCheckCase"), ("construction", "codegen.go genConstructor")])

prop("C18", "Generic code behaves as its instantiation at every type",
 "A generic struct, enum or function used at any type argument (inferred or explicit, nested, recursive, or a function type) stores and returns exactly the values given and behaves as the same code written for that type, and distinct instantiations never interfere. Type arguments that are inconsistent, not inferable and not given, or given in a list of the wrong length are rejected.",
 ["programs"], "generic declarations x all type arguments up to a nesting depth x inference vs explicit x combination",
 "generics.clara instantiates at a few types; binding and substitution are recursive over type structure.",
 ["typecheck.go", "symtab.go", "semantic.go"],
 [("binding", "symtab.go PolyMatch/MatchesImpl"), ("substitution", "typecheck.go substituteType/findUnboundTypeParameters"), ("instantiation", "semantic.go instantiateType")])

prop("C19", "The hash map behaves as a finite map for every operation history",
 "For every sequence of put, get, contains, remove, orElse and foreach, with any pure hash function (including colliding, constant, negative or extreme ones) and matching equality, a map returns exactly what a mathematical finite map would, including across any number of resizes. Its size equals the number of keys and foreach visits each entry exactly once.",
 ["histories"], "all operation sequences up to a depth over a small key set x hash functions; systematic growth and shrink across resize thresholds",
 "maps.clara runs a few scripted sequences with one well-behaved hash.",
 ["install/lib/map.clara", "install/lib/list.clara", "install/lib/functional.clara", "install/lib/core.clara"],
 [("buckets", "map.clara put/get/remove/search/indexFor"), ("resize", "map.clara resize/threshold")])

prop("C20", "List, option, result, either and pair operators satisfy their laws",
 "For all inputs, list operations (toList, append, remove, reverse, find, foreach, map, reduce) and option/result operations (map, then, filter, peek, orElse, isSome, isNone) return what the corresponding sequence, optional and sum-type operations define, call their function argument exactly on the elements and in the order those define, and never modify their input.",
 ["inputs", "histories"], "all lists up to a length over a small alphabet x all operations and pairs of operations; all variants of option/result x all functions in a small space",
 "Tests map over one or two literal lists.",
 ["install/lib/list.clara", "install/lib/functional.clara"],
 [("list", "list.clara"), ("option/result", "functional.clara")])

prop("C21", "String, bytes and byte-buffer operations are exact on every content",
 "For all byte contents and arguments, append, Equals, Substring, IndexOf, byte, length, copyArray, and byte-buffer append/grow/reset/substring/toString behave as the corresponding operations on byte sequences and never modify their inputs, whatever the initial capacity and history of the buffer. Invalid ranges panic instead of producing a corrupt string.",
 ["inputs", "histories"], "all strings up to a length over an alphabet incl. NUL and bytes >= 0x80, all index arguments; all operation sequences over buffers of each small capacity",
 "strings.clara checks single examples; off-by-one in growth, overlap and search need exact lengths and repeated patterns.",
 ["install/lib/strings.clara", "install/lib/bytes.clara", "install/lib/arrays.clara"],
 [("search/substring", "strings.clara IndexOf, Substring, toString"), ("buffer", "strings.clara append/grow/substring"), ("copy", "arrays.clara copyArray; strings.clara copyString")])

prop("C22", "Number formatting, hashing and time arithmetic are exact for every value",
 "toString, print/println, printHex, toBinary and mod produce the exact representation or remainder for every 63-bit int, bool formatting is true/false, fnv1a equals the 32-bit FNV-1a hash of the bytes for every string, and time conversions equal the corresponding integer arithmetic.",
 ["inputs"], "boundary and exhaustive small-range integers, all one- and two-byte strings over an alphabet covering every byte",
 "core.clara and hash.clara check a handful of values.",
 ["install/lib/core.clara", "install/lib/hash.clara", "install/lib/time.clara"],
 [("formatting", "core.clara toString/toBinary/print*"), ("hash", "hash.clara fnv1a"), ("time", "time.clara")])

prop("C23", "Programs see exactly their command line and environment and exit cleanly",
 "A started program sees exactly the argument strings and environment entries it was given, byte for byte and in order, whatever their number, length or content (arguments that are options containing g are the runtime's own debug switches), and exits with status 0 when main returns, 1 on panic, or the status passed to exit, with all previously printed output delivered.",
 ["inputs", "configurations"], "argument/environment vectors: count x length across buffer-growth boundaries x content classes; exit paths",
 "runtime.clara checks a single argument/environment setting.",
 ["install/lib/runtime.clara", "install/init/bootstrap.c", "install/init/runtime.c", "codegen.go"],
 [("argv/envp", "runtime.clara parseArgs/parseEnv/parseCString"), ("entry", "codegen.go genAsmEntrypoint; bootstrap.c main"), ("exit", "runtime.clara panic/exit")])

prop("C24", "File operations return the data or an error for every fault",
 "Opening, sizing, seeking, reading a file returns Ok with exactly the file's bytes or position (readAll: all bytes of the file, whatever the current position), or Err/Some carrying the errno (and path) of the system call that failed, for every file content and every point at which open, lseek or read fails. No fault crashes the program, sizing a file leaves its position unchanged, and describe gives the standard text of the errno, followed by the path if there is one.",
 ["fault_sequences", "inputs"], "each system call of each operation failing with each errno of a set; file sizes 0..N and binary content",
 "No test injects a failing system call; only a missing file is tried.",
 ["install/lib/fs.clara", "install/lib/io.clara", "install/lib/err.clara", "install/init/runtime.c"],
 [("open/size/readAll", "fs.clara"), ("seek/read", "io.clara"), ("describe", "err.clara")])

prop("C25", "Memory exhaustion at any allocation is a clean panic",
 "If any single allocation of a program fails, the program stops with a panic message and exit status 1; it never continues with an invalid object or crashes with a signal, and output printed before that point is delivered.",
 ["fault_sequences"], "for a set of programs covering every allocating construct, the k-th allocation fails, for every k",
 "No test can make calloc fail.",
 ["install/lib/mem.clara", "codegen.go", "install/lib/runtime.clara"],
 [("allocator", "mem.clara claralloc/isValidBlock"), ("panic", "runtime.clara panic")])

prop("C26", "Concurrent and repeated compilations do not interfere",
 "Any number of compilations running at the same time, in any interleaving and also when the programs share a file name, each produce the executable or errors of their own source. Compiling never modifies its input files, a failed compilation never leaves a new executable behind, and no compilation, successful or failed, leaves any other file behind (temporary files included).",
 ["schedules", "histories"], "all interleavings, at file-system and tool-invocation granularity, of two or three compilations with equal and different names and outcomes; all orders of repeated compilations",
 "The test harness has to run with -parallel 1; no test runs two compilers at once.",
 ["main.go", "closures.go"],
 [("temporary assembly file", "main.go Compile"), ("linking", "main.go exec gcc"), ("package-level state", "closures.go id")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
