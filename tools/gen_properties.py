"""Writes /verif/properties.jsonl (kept as code so that the anchors are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name","meaning","where"), s)) for s in state],
                          "mechanism": [dict(zip(("name","where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
OPT = "sonolus/backend/_opt/"
prop("P01", "Optimisation never changes what a compiled callback does",
 "For every control-flow program the frontend may produce, every optimisation level, and every target mode and callback, the emitted engine program performs exactly the same sequence of observable effects (writes to engine memory, drawing, spawning, logging, exporting and other effectful calls, with the same arguments) as a direct execution of the unoptimised program, and finishes without a fault whenever that execution does. Memory that something in the program or in the chosen callback can change is re-read in order with respect to those changes; results of calls without effects may be shared or dropped only when nothing observable depends on it.",
 ["programs", "inputs", "configurations"],
 "all well-formed CFGs (loops, multi-way branches, temporaries, arrays, pointers, effects) x levels minimal/fast/standard x (mode, callback) x initial memory contents, restricted to executions that read no uninitialised temporary and do not fault",
 "The tests pin a few dozen hand-written shapes plus a small Hypothesis corpus over two plain blocks with no mode; interactions of SSA, value numbering, loop-invariant motion, if-conversion, switch rewriting, lowering, packing and fused updates over arbitrary programs cannot be sampled by them.",
 [OPT+"midend.pyx", OPT+"lower.pyx", OPT+"analysis.pyx", OPT+"emit.pyx", OPT+"driver.pyx", OPT+"ir.pyx"],
 [("per-level pipelines", OPT+"driver.pyx:_pipeline"), ("SCCP/GVN/DCE/LICM/switch rewriting", OPT+"midend.pyx"), ("if-conversion, treeification, coalescing, allocation, RMW fusion", OPT+"lower.pyx"), ("EngineNode emission", OPT+"emit.pyx:emit_func")],
 [("engine memory blocks","observable memory, by block id and index","sonolus/backend/blocks.py"),("temporary block 10000","scratch memory owned by the compiler",OPT+"lower.pyx:allocate_func")],
 ["return of sonolus.backend.optimize.optimize_and_finalize", "return of run_passes + cfg_to_engine_node"])
prop("P02", "Compile-time evaluation of an operation equals its run-time value",
 "Whenever the compiler evaluates a pure operation on constant operands, the value it uses is the same double, bit for bit, that executing that operation at run time yields, and it leaves unevaluated every operation whose run-time execution would fault. The bundled reference executor and the plain-Python implementations of the same operations agree with the documented meaning of each operation.",
 ["inputs"], "all foldable operations x operand tuples (integers, fractions, signed zeros, halves, huge/tiny/subnormal values, domain edges) and nested expressions of them",
 "Fold tests compare kernels with the bundled interpreter on fixed operand grids; they do not cover arbitrary doubles, nested expressions, or an error shared by both sides.",
 [OPT+"kernels.pyx", "sonolus/backend/interpret.py", "sonolus/script/num.py", "sonolus/script/internal/math_impls.py", "sonolus/script/easing.py"],
 [("fold kernels", OPT+"kernels.pyx:fold"), ("expression folding while tracing", "sonolus/script/num.py"), ("reference executor", "sonolus/backend/interpret.py:Interpreter.run")],
 [], ["kernels.fold", "EngineNode emitted for constant programs", "Interpreter.run"])
prop("P03", "A compiled callback behaves like the Python function it came from",
 "For every function written in the supported Python subset (numbers, branches, loops with break/continue/else, match, comprehensions, generators, nested functions, tuples, dicts and sets of compile-time keys, records and arrays), running the compiled function has the same logged values, results and order of side effects as running the same source in CPython, at every optimisation level. This holds whether operands are compile-time constants or only known at run time.",
 ["programs", "inputs"], "all type-correct terminating functions of the supported subset x inputs x constant/run-time operand binding x optimisation level",
 "The script tests check individual constructs in isolation; the merging of variable bindings across branches, loops, early exits, inlined calls and generators depends on combinations they never form.",
 ["sonolus/script/internal/visitor.py", "sonolus/script/internal/context.py", "sonolus/backend/utils.py", "sonolus/script/internal/builtin_impls.py", "sonolus/script/num.py"],
 [("AST tracing", "sonolus/script/internal/visitor.py:Visitor"), ("scope merging and loop variables", "sonolus/script/internal/context.py"), ("callback compilation", "sonolus/build/compile.py:callback_to_cfg")],
 [], ["DebugLog/Set effects of the compiled program", "return value of the Python function"])
prop("P04", "Records, arrays and variables keep copy and alias semantics",
 "Assigning into a record field, array element, or container copies the value, while binding a name, passing an argument, taking an element or constructing a record from records and arrays aliases it (constructing an array copies its elements), and no later write through one storage location is ever visible through a different location. In-place operators, copy-from assignment, equality, construction, swaps and freezing act on exactly the fields and elements they name, identically in Python mode and compiled.",
 ["programs", "histories"], "all operation sequences over nested records and arrays of numbers with constant and dynamic indexes, in Python mode and compiled at each level",
 "Tests assert single assignments; aliasing faults appear only in sequences that mix constant and dynamic indexes, nested aggregates and control flow.",
 ["sonolus/script/record.py", "sonolus/script/array.py", "sonolus/script/values.py", "sonolus/script/num.py", "sonolus/script/globals.py", "sonolus/script/internal/value.py", "sonolus/script/internal/transient.py"],
 [("record field get/set/copy", "sonolus/script/record.py"), ("array element access", "sonolus/script/array.py")],
 [], ["values logged by the compiled program and by Python mode"])
prop("P05", "Collections behave as the abstract data types they implement",
 "After any history of operations, variable-length arrays, array-backed sets and maps, frozen number sets, pointer views, sorted arrays and linked lists, and the range, zip, enumerate, map, filter and reversed adapters hold and yield exactly what the corresponding Python list, set, dict or iterator would, in the documented order. Sorting yields an ordered permutation of its input and is stable where documented, and no operation touches elements beyond the collection's own size.",
 ["histories", "inputs"], "all operation histories up to capacity over small key ranges, all key/reverse options, sizes on both sides of the algorithm switch points, Python mode and compiled at each level",
 "Unit tests exercise short fixed histories; removal order, reuse after removal, duplicates, full/empty boundaries and the size thresholds between algorithms need long mixed histories.",
 ["sonolus/script/containers.py", "sonolus/script/array_like.py", "sonolus/script/iterator.py", "sonolus/script/internal/range.py", "sonolus/script/internal/builtin_impls.py", "sonolus/script/maybe.py"],
 [("VarArray/ArraySet/ArrayMap/FrozenNumSet/linked sort", "sonolus/script/containers.py"), ("ordering, searching, sorting", "sonolus/script/array_like.py")],
 [("size","number of live elements","sonolus/script/containers.py:VarArray._size")], ["values logged after each operation"])
prop("P06", "Run-time checks stop execution exactly where Python would raise",
 "With terminating run-time checks on, a compiled callback stops at the first failing assertion, out-of-range index, overflowing or underflowing collection operation, missing key or explicit error, exactly when and only when the same source raises in Python, and every effect before that point and none after it happens. With checks off, or when no check fails, the checks change nothing observable (only an assertion already known to be false at compile time may still stop the callback).",
 ["programs", "inputs", "configurations"], "all programs with assertions and bounds-checked operations x inputs that do or do not trip them x check modes x levels",
 "Tests cover one failing and one passing case per operation, never a failure in the middle of loops, after effects, or moved/merged by optimisation.",
 ["sonolus/script/debug.py", "sonolus/script/containers.py", "sonolus/script/array_like.py", "sonolus/script/array.py", "sonolus/script/internal/context.py", "sonolus/script/internal/range.py"],
 [("error() and require()", "sonolus/script/debug.py"), ("index checks", "sonolus/script/array_like.py:check_positive_index, get_positive_index")],
 [], ["effects and completion flag of the compiled program"])
prop("P07", "Temporary memory allocation never lets live values collide",
 "Every temporary of an allocated program lives in its own slots of the temporary memory for as long as its value may still be read, every access to temporary memory stays inside the declared extent of the variable it names and below the fixed 4096-slot limit, and array temporaries keep all their elements. A program that needs more is rejected with an error instead of being emitted with overlapping or out-of-range slots, and one that fits is never rejected by the packing allocator at a lower optimisation than needed.",
 ["programs"], "all programs with scalar and array temporaries under each allocator (bump, fall-back, packing), around the capacity limit",
 "Allocation tests use a handful of shapes; interference depends on the liveness of arbitrary interleavings of arrays, loops and partial writes.",
 [OPT+"lower.pyx", OPT+"analysis.pyx"],
 [("bump/try-bump/packing", OPT+"lower.pyx:allocate_func"), ("liveness", OPT+"analysis.pyx")],
 [("temporary block","4096 slots of block 10000",OPT+"lower.pyx")], ["temporary-memory accesses of the emitted program"])
prop("P08", "Analyses are exact and intermediate programs stay well formed",
 "Dominators, loop nests, liveness and the other facts the optimiser derives equal their graph-theoretic definitions on every control-flow graph, and after every phase the intermediate program is well formed: each value is defined once and on every path before its use, merge nodes have one input per predecessor, edges are consistent in both directions, and unreachable code is gone. Each phase on its own preserves the observable behaviour of the program.",
 ["programs"], "all control-flow graphs (nested and multi-exit loops, multi-way branches, unreachable parts) x all phases and phase prefixes",
 "Tests check listed graphs against listed answers; the internal verifier is compiled out of release builds.",
 [OPT+"analysis.pyx", OPT+"midend.pyx", OPT+"ir.pyx", OPT+"lower.pyx"],
 [("dominators, loop forest, liveness", OPT+"analysis.pyx"), ("verify()", OPT+"ir.pyx")],
 [], ["analysis debug functions, CFG exported after each phase"])
prop("P09", "Builds are reproducible and side-effect free",
 "Compiling the same program or project twice yields byte-identical output, whatever the process, the hash seed, the number of compilations done before, and the order in which independent programs are compiled. Compilation never modifies the program it is given or any state that changes the outcome of another compilation.",
 ["histories", "configurations", "programs"], "all programs and projects x hash seeds x processes x prior compilation histories x sequential/parallel callback compilation",
 "Tests run in one process under one hash seed and do not compare artefacts.",
 [OPT+"driver.pyx", OPT+"ir.pyx", "sonolus/backend/optimize/flow.py", "sonolus/script/internal/context.py", "sonolus/build/compile.py", "sonolus/build/engine.py", "sonolus/build/node.py"],
 [("ordered traversal", "sonolus/backend/optimize/flow.py"), ("deterministic numbering on marshal-in", OPT+"ir.pyx:marshal_in"), ("gzip with zero mtime", "sonolus/build/engine.py:package_data")],
 [], ["bytes of packaged engine data", "emitted node trees", "input CFG before/after"])
prop("P10", "Every route from a program to an engine tree agrees",
 "Compiling in one fused step, optimising and then emitting, and exporting and re-importing the intermediate program any number of times give equivalent engine programs: the same tree up to temporary slot numbers and the spelling of an address, and always the same behaviour. A program exported without change executes like the original, including its temporaries, sizes, offsets, switch cases and defaults, and the emitted tree contains only operations with the arity the engine expects, integer-valued block ids, and numbers the engine can represent.",
 ["programs", "configurations"], "all programs x levels x number of export/re-import steps",
 "Tests round-trip a fixed set of CFGs; the fused path is compared on few programs.",
 [OPT+"ir.pyx", OPT+"emit.pyx", OPT+"driver.pyx", "sonolus/backend/optimize/__init__.py"],
 [("marshal in/out", OPT+"ir.pyx:marshal_in,to_basic_blocks"), ("emission", OPT+"emit.pyx:emit_func")],
 [], ["node trees of both routes"])
prop("P11", "Packaged node tables, constants and resources decode to what was compiled",
 "Decoding the packaged node table from any callback's root index gives exactly the engine program compiled for that callback; nodes may be shared but only between identical programs, and every index refers to an earlier entry. Packaged data decompress to the same document, and every constant placed in read-only memory is found at the index the code reads, as the nearest single-precision value.",
 ["programs", "inputs"], "all sets of engine programs and constants added to one table in any order",
 "Tests do not decode packaged output at all.",
 ["sonolus/build/node.py", "sonolus/build/engine.py", "sonolus/build/level.py", "sonolus/script/internal/context.py"],
 [("node interning", "sonolus/build/node.py:OutputNodeGenerator"), ("package_data/package_rom", "sonolus/build/engine.py"), ("read-only memory interning", "sonolus/script/internal/context.py:ReadOnlyMemory")],
 [], ["packaged bytes"])
prop("P12", "A resource collection stays complete and content-addressed",
 "After any sequence of loading, adding, merging, linking and writing, every resource a collection item refers to is present in the repository under the hash of its exact bytes with a URL naming that hash, items keep all their data, and writing then loading the collection again gives the same items. Merging lets the later source win by item name without losing other items, and localised text falls back deterministically.",
 ["histories", "inputs"], "all histories of load/add/update/link/write over generated source trees (plain and gzipped data, duplicate names, localised fields, overlapping assets)",
 "Tests use a few small fixed collections and do not check integrity across histories.",
 ["sonolus/build/collection.py", "sonolus/build/project.py", "sonolus/build/cli.py"],
 [("repository and item maps", "sonolus/build/collection.py:Collection")],
 [("repository","hash -> bytes or path","sonolus/build/collection.py:Collection.repository"),("categories","category -> name -> item","sonolus/build/collection.py:Collection.categories")],
 ["files written under repository/ and the item documents"])
prop("P13", "The native optimiser never touches memory it does not own",
 "No input program, however large, deep, wide or malformed, makes the compiled optimiser read or write out of bounds, use freed or uninitialised memory, overflow a signed counter, leak the program's storage, or crash the process. Invalid programs are refused with an ordinary Python exception and leave the optimiser usable.",
 ["programs", "inputs", "fault_sequences"], "all programs including extreme sizes (very deep, very wide, very many blocks) and ill-formed ones (bad operand types, out-of-range numbers, too many arguments)",
 "Tests run an uninstrumented release build, in which an out-of-bounds access usually goes unnoticed.",
 [OPT+"ir.pyx", OPT+"midend.pyx", OPT+"lower.pyx", OPT+"analysis.pyx", OPT+"emit.pyx", OPT+"kernels.pyx"],
 [("arena vectors and hot maps", OPT+"ir.pyx, "+OPT+"khash.h")],
 [], ["AddressSanitizer and UndefinedBehaviorSanitizer reports", "process exit status"])
prop("P14", "Archetype and level data land where the engine and the code look for them",
 "For any hierarchy of archetypes, each imported, exported, memory, shared and data field occupies its own slots within the engine's limits, and every read or write of a field, from the entity itself, through a reference to another entity, or by a spawn, reaches that field's slots and no other. Level files list each entity's archetype and every imported value it was given, under the names the package loads into that field's slots, with references naming the right entity, whatever its position, and a parsed level gives the same values back. An inherited archetype keeps its parents' layout.",
 ["programs", "inputs", "configurations"], "all archetype hierarchies and field mixes (numbers, records, arrays, references), defaults and names, all modes, all level contents",
 "Tests compile one sample project and never vary the archetype layout.",
 ["sonolus/script/archetype.py", "sonolus/script/level.py", "sonolus/build/level.py", "sonolus/build/engine.py", "sonolus/build/compile.py"],
 [("field allocation", "sonolus/script/archetype.py:_BaseArchetype._init_fields"), ("level data entries", "sonolus/script/archetype.py:to_level_data / sonolus/script/level.py")],
 [], ["engine memory effects of compiled callbacks", "level data documents", "archetype entries of engine data"])
prop("P15", "Replay streams return what was recorded",
 "A value written at a key of a stream during play is what reading that stream at that key returns during watch, for every declared stream, element and type of value, and writes to one stream never change another. Queries for the previous or next key, membership and ascending or descending iteration visit exactly the recorded keys in order, within the documented bounds. Declarations extended at the end still read old recordings. Reading in play, writing in watch and any use in other modes is refused.",
 ["histories", "inputs"], "all stream declarations (types, groups, sizes) x histories of writes x queries",
 "There is no test of streams at all in the stable suite.",
 ["sonolus/script/stream.py"],
 [("offset assignment and group addressing", "sonolus/script/stream.py:streams, Stream, StreamGroup"), ("iteration", "sonolus/script/stream.py")],
 [], ["StreamSet/StreamGet* effects of compiled callbacks against a model store"])
prop("P16", "Geometry, interval, easing and numeric helpers match their definitions",
 "Vectors, quads and rectangles, 2D transforms, intervals, interpolation, easing, quantisation, rounding and random helpers compute the mathematically defined result for every finite input within floating-point tolerance, and give the same result in Python mode and compiled. Derived laws hold: composing then applying equals applying in turn, an inverse undoes, remapping ends on its end points, results that are clamped stay within bounds.",
 ["inputs"], "all finite inputs of each helper, including degenerate intervals and points, angles of any quadrant, negative and huge magnitudes",
 "Property tests for some types exist but compare a formula with itself in two modes and are outside the stable suite; algebraic laws over the whole input space are not checked.",
 ["sonolus/script/vec.py", "sonolus/script/quad.py", "sonolus/script/transform.py", "sonolus/script/interval.py", "sonolus/script/easing.py", "sonolus/script/numtools.py", "sonolus/script/internal/math_impls.py", "sonolus/script/internal/random.py"],
 [("formulas", "sonolus/script/{vec,quad,transform,interval,easing,numtools}.py")],
 [], ["values returned in Python mode and logged by the compiled program"])
prop("P17", "A packaged engine contains every declared part, correctly linked",
 "For every project, each archetype, callback, configuration option, sprite, effect clip, particle, instruction, bucket and interface setting that the source declares appears exactly once in the package of each mode that uses it, with its declared name, order, default and limits, and the identifier the code uses for it is the one the package assigns. Every callback entry points to the program compiled from that archetype's own (possibly inherited) method, and callbacks the source does not override are left out. The built site holds the same parts, with the resources, levels, converted resource levels and schema the project declares.",
 ["configurations", "programs"], "all project declarations x modes x optimisation levels",
 "Tests build one sample project and look at a few fields.",
 ["sonolus/build/engine.py", "sonolus/build/compile.py", "sonolus/script/options.py", "sonolus/script/sprite.py", "sonolus/script/effect.py", "sonolus/script/particle.py", "sonolus/script/bucket.py", "sonolus/script/instruction.py", "sonolus/script/ui.py", "sonolus/script/engine.py"],
 [("package_engine/build_*_mode", "sonolus/build/engine.py"), ("compile_mode", OPT+"driver.pyx:compile_mode")],
 [], ["decoded package documents of each mode"])
prop("P18", "Rebuilding after edits equals building from scratch",
 "After any sequence of source edits and rebuilds in one long-lived process, with the unchanged-function caches and module reloading in use, everything the built site offers equals what a fresh process builds from the same sources. A function compiled again after what it refers to was rebound (helpers, defaults, properties, methods, constants, closures) uses the new state. A build that fails on bad source reports an error and does not spoil the following ones.",
 ["histories"], "all sequences of edits (bodies, helpers, constants, declarations, errors) interleaved with rebuilds",
 "Tests cover single edits of a single function.",
 ["sonolus/build/dev_server.py", "sonolus/build/project.py", "sonolus/backend/utils.py", "sonolus/script/internal/context.py", "sonolus/build/cli.py"],
 [("cache invalidation", "sonolus/backend/utils.py"), ("rebuild command", "sonolus/build/dev_server.py")],
 [], ["bytes of the built project after each step"])
prop("P19", "Engine API calls reach the engine as documented",
 "In every mode and callback, each call of the engine API (sprites, particles, sound effects, timing, printing, instructions, judgment windows and buckets, score and life, touches, runtime information, transforms, background, interface layouts and settings) performs exactly the documented engine operation with the arguments given, defaults filled in, and each query returns what the engine holds for it, or the documented default in modes that lack it. A write to engine or level data compiles exactly in the callbacks that may make it and changes exactly the data named; elsewhere it is refused at compile time.",
 ["programs", "inputs", "configurations"], "all API calls x argument forms x modes x callbacks x contents of the engine's memory",
 "Tests do not compile API calls for each mode and callback, and the engine that would show a wrong operand order, slot or default is not part of the repository.",
 ["sonolus/script/sprite.py", "sonolus/script/particle.py", "sonolus/script/effect.py", "sonolus/script/runtime.py", "sonolus/script/timing.py", "sonolus/script/printing.py", "sonolus/script/bucket.py", "sonolus/script/instruction.py", "sonolus/script/globals.py", "sonolus/backend/blocks.py", "sonolus/script/internal/native.py"],
 [("runtime blocks and their layout", "sonolus/script/runtime.py, sonolus/script/globals.py"), ("who may write what", "sonolus/backend/blocks.py, sonolus/script/internal/context.py:check_writable")],
 [], ["engine operations, reads and writes of compiled callbacks"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
