"""Per check: time budgets (seconds of workload), floors below which a run is inconclusive, evidence text."""
CHECKS = {
    "P01": dict(hang_is_violation=True, grace=90, quick=70, thorough=700, level="exploration",
                floor={"programs": 300, "comparisons": 1500, "events": 2000, "corpus-executions": 20},
                rule="seeded random control-flow programs (shapes: mixed, pressure, loops, branches, switches, memory, arrays) and the sample project's callbacks, "
                     "each executed directly and at three levels on several memories; non-trivial: at least two observable events and three executed blocks; distinct by event log",
                technique="differential execution monitor (event logs of CFG vs emitted tree)",
                note="Each program is executed directly and at three levels by an independent executor and the complete event logs are compared; assurance is over the programs generated, which are reproducible from the seed.",
                assumptions=["signs of zeros are not compared", "executions that fault or use an uninitialised temporary are discarded"]),
    "P02": dict(quick=60, thorough=600, level="exploration",
                floor={"operations": 20000, "folded": 5000, "expressions": 2000, "script-values": 500},
                technique="differential value monitor over all evaluators of an operation",
                note="Every pure operation is evaluated by the fold kernel, the repository's executor, the whole pipeline and the script layer on shared operands; kernel and executor must agree bit for bit, all must agree with an independent definition to a few ulps.",
                rule="random operand tuples for every pure operation (integers, halves, signed zeros, huge, tiny, domain edges), random nested constant and half-known expressions, and script expressions with every mix of constant and run-time operands; distinct by operation and operands",
                assumptions=["values of transcendental functions are compared with libm's to 4e-15", "signs of zeros are compared between kernel and executor only"]),
    "P03": dict(hang_is_violation=True, grace=90, quick=80, thorough=700, level="exploration",
                floor={"programs": 120, "comparisons": 800, "events": 2000},
                technique="differential execution monitor (log of the compiled callback vs log of the same source in CPython)",
                note="Random programs in the supported Python subset run in CPython and, compiled at three levels, on an independent executor; the complete logs of values are compared for several inputs.",
                rule="seeded random functions with nested control flow, generators, closures, operators of records, augmented and destructuring assignments, calls of every argument form, pattern matching, on three inputs each; non-trivial: at least three log entries; distinct by log",
                assumptions=["inputs on which CPython raises are discarded (P06 covers them)", "tuples are not mixed with other iterables in zip"]),
    "P04": dict(hang_is_violation=True, grace=90, quick=60, thorough=600, level="exploration",
                floor={"programs": 100, "comparisons": 800, "events": 5000},
                technique="model-based monitor of copies and aliases (library in Python and compiled vs a reference model of places)",
                note="Random programs that copy, alias, overwrite, swap and compare nested records and arrays in locals, constants, containers and level memory run in Python, compiled at three levels, and on an independent model; the value of every leaf they log must be the same.",
                rule="seeded random programs over nested records (also generic and frozen), arrays of numbers, records and arrays, level memory, constants and containers, with constant and dynamic indexes, helper functions, loops, in-place operators and destructuring; non-trivial: at least three log entries; distinct by log",
                assumptions=["a copy between values that overlap in part is not judged", "a frozen value is observed only if it is independent of its original"]),
    "P05": dict(hang_is_violation=True, grace=90, quick=60, thorough=600, level="exploration",
                floor={"programs": 100, "comparisons": 800, "events": 2000, "linked-sorts": 10},
                technique="model-based monitor of operation histories (library in Python and compiled vs list/set/dict model)",
                note="Random histories of operations run on the library's collections, in Python and compiled at three levels, and on independent list/set/dict models; every value they log must be the same.",
                rule="seeded random histories over VarArray, Array, ArraySet, ArrayMap, FrozenNumSet, ranges, iterators, reversed and unchecked views, Maybe and linked entity lists, with number, pair, record and array elements and capacities around the algorithm switch points; non-trivial: at least three log entries; distinct by log",
                assumptions=["the order of sets, maps and arrays used as sets is unspecified and observed only through sums"]),
    "P06": dict(hang_is_violation=True, grace=90, quick=60, thorough=600, level="exploration",
                floor={"programs": 100, "comparisons": 800, "stopped": 100, "completed": 100},
                technique="differential execution monitor of failing runs (stopping point, log and notification vs CPython and list/set/dict models)",
                note="Programs full of assertions, explicit errors, indexes and collection operations that may fail run in CPython and compiled in every check mode; the callback must stop exactly where Python raises, after the same log, with the message of that check.",
                rule="seeded random functions and collection histories with unguarded checks of every form, on inputs that do and do not trip them, three check modes, three levels; non-trivial: at least two log entries; distinct by log and exception",
                assumptions=["division by zero and domain errors are not run-time checks", "whether a disabled assertion's condition is evaluated is left open, and one known to be false at compile time may stop", "an index known at compile time to be out of range may be refused"]),
    "P07": dict(hang_is_violation=True, grace=90, quick=60, thorough=600, level="exploration",
                floor={"programs": 300, "temp-accesses": 20000, "capacity-programs": 20, "evaluations": 500},
                technique="shadow-memory monitor of temporary slots; capacity stress",
                note="Each allocated program is aligned with the unallocated one, executed with a shadow of the physical slots, and every read of a temporary is compared with what its slot holds; programs around the 4096-slot limit must be accepted or refused correctly and still run correctly.",
                rule="seeded random programs (scalar pressure, arrays, loops) under bump, packing and fall-back allocation in raw and optimised form, and programs with arrays or scalars totalling 4090-5000 slots; non-trivial: at least three slots in use; distinct by program, route and memory",
                assumptions=["a program whose allocated form cannot be aligned statement by statement is left to the event comparison of P01"]),
    "P08": dict(hang_is_violation=True, grace=90, quick=60, thorough=600, level="exploration",
                floor={"programs": 100, "graphs": 200, "comparisons": 1000},
                technique="analysis facts and phase outputs monitored against definitional oracles",
                note="Dominators, loops and liveness reported by the optimiser are compared with definitional computations on random graphs; after each phase (alone and in sequences) the exported program is checked for form and executed against the original.",
                rule="random graphs of 2-130 blocks (reducible and not, parallel edges, self loops), random programs for liveness, and random programs through every phase and random phase sequences; distinct by graph, program or (program, phases, memory)",
                assumptions=["for arrays liveness may lie anywhere between 'written and read later' and 'read later'", "a phase's debug entry point that no longer exists is skipped"]),
    "P10": dict(hang_is_violation=True, grace=90, quick=50, thorough=500, level="exploration",
                floor={"programs": 300, "comparisons": 2000, "round-trips": 200},
                technique="route-agreement monitor over emitted trees; independent normal form of programs",
                note="Each program is taken to an engine tree by every route (fused, passes then emission, with re-imports, with profiling, again) and the trees are compared structurally; exports are compared with an independent normal form and executed.",
                rule="seeded random programs and programs made of unusual constants, places, switch conditions and n-ary operators; distinct by program and level",
                assumptions=["temporaries may be renamed by an export", "signs of zero constants matter in exports, not in leaves"]),
    "P12": dict(quick=45, thorough=400, level="exploration",
                floor={"histories": 200, "writes": 50, "reloads": 20, "interrupted-writes": 5, "states": 1000},
                technique="model-based history monitor over the collection's state and files, with write faults",
                note="Random histories of every collection operation run against an independent model; the whole state is compared after each step, and every file written (also after an interrupted write) is compared, hashed and loaded back.",
                rule="random histories of 3-25 operations over 1-3 collections, generated source trees and archives with odd entries, localised texts, shared assets, repeated names and writes cut short by a file size limit; distinct by sequence of operations",
                assumptions=["levels carry the keys the format requires", "items are not called info or list"]),
    "P16": dict(hang_is_violation=True, grace=90, quick=50, thorough=600, level="exploration",
                floor={"programs": 100, "comparisons": 1500, "events": 5000, "random-runs": 100, "orderings": 500},
                technique="model-based value monitor of helper compositions (Python mode and compiled vs definitions with error bounds)",
                note="Random compositions of every geometric and numeric helper run in Python mode and compiled at three levels, and every component they log must be within the propagated rounding error of its mathematical definition; random helpers are observed for range and reach under ordinary and extreme draws, comparable floats for order in 64- and 32-bit arithmetic.",
                rule="seeded random compositions of some 230 helper forms over literal, constant and run-time operands including edges of domains, three input sets each; random helpers with 120-200 draws each; orderings of 10-50 tuples with sizes up to 2^31; distinct by values logged",
                assumptions=["outcomes within rounding error of a discontinuity are not judged", "points within 1e-3 of a polygon's edge are not judged", "divisors are at least 1e-3"]),
}
CHECKS.update({
    "P17": dict(hang_is_violation=True, grace=90, quick=50, thorough=500, level="exploration",
                floor={"engines": 60, "programs-run": 1000, "events": 5000, "declarations": 300, "options": 60, "sites": 8},
                technique="model-based monitor over packaged engines: declared parts vs decoded documents, and effects of executing every decoded callback",
                note="Whole engine sources are generated with a description of everything they declare; each is built, the packages are decoded independently, every document is compared with the declarations, and every callback entry is executed and its effects (which sprite, clip, archetype, option place, bucket...) compared with what its own source says. Some are built to a site and read back from the files.",
                rule="seeded random engine sources: 1-4 modes, archetype hierarchies with mixins and derived archetypes, options, resources and groups, interface settings, build flags, three optimisation levels; distinct by packaged documents",
                assumptions=["names are unique within a listing"]),
    "P14": dict(hang_is_violation=True, grace=90, quick=50, thorough=500, level="exploration",
                floor={"engines": 60, "programs-run": 1000, "places": 1000, "level-values": 1000, "level-refs": 50, "limits": 20},
                technique="layout monitor: places of every field observed by executing packaged callbacks, cross-checked with imports, exports and level documents",
                note="Archetype hierarchies with every kind of field are compiled; executing every packaged callback shows in which engine memory each field component is read and written, and those observations must be injective, within range, equal for parents and children, and agree with the imports and exports the package lists and with the names, values and references level documents give.",
                rule="seeded random archetype hierarchies (inheritance, mixins, derived archetypes, records, arrays, references, names with odd characters, layouts filled to the limit and beyond) and level contents (nested lists, forward and late references, copied values); distinct by packaged documents",
                assumptions=["names are unique within an archetype"]),
    "P11": dict(hang_is_violation=True, grace=90, quick=50, thorough=500, level="exploration",
                floor={"engines": 40, "trees": 500, "roots": 500, "compared": 500, "documents": 200, "rom-values": 500, "sample-builds": 1},
                technique="record-and-decode monitor: programs and trees recorded on their way into the package vs independently decoded tables, executed on both sides",
                note="What the frontend traced and what the optimiser emitted for every callback is recorded during real builds; the packaged tables are decoded independently (every argument must refer backwards), must give node for node the emitted trees, must behave like the traced programs, and every constant read at run time must be the nearest single-precision value of the declared one.",
                rule="seeded random engines with many overlapping constant arrays, the sample project with random build flags, tables of 2-30 random trees with almost-equal constants and shared, rebuilt or slightly altered subtrees, random documents; distinct by packaged documents",
                assumptions=["constants fit in single precision's range", "-0.0 and 0.0 are one constant"]),
    "P09": dict(hang_is_violation=True, grace=280, quick=60, thorough=500, level="exploration",
                floor={"processes": 20, "comparisons": 2000, "engine": 50, "compiled": 50, "site": 10, "threads": 10},
                technique="differential monitor over processes: digests of every artefact under different hash seeds, histories, orders, directory orders and configurations of the interpreter",
                note="The same engines, scripts, control flow graphs and projects are compiled in several processes with different hash seeds, orders of compilation, earlier compilations (also refused ones), memory layouts, directory listings in random order and threads; every artefact's bytes must agree, and a program must be unchanged by compiling it.",
                rule="cases of about 58 random items compiled in 3 processes each, in different orders with repetitions and unrelated activity in between; distinct by digests",
                assumptions=["source files stay at one path"]),
    "P15": dict(hang_is_violation=True, grace=90, quick=50, thorough=500, level="exploration",
                floor={"programs": 100, "comparisons": 1000, "writes": 1000, "reads": 5000, "mode-uses": 40},
                technique="record-and-replay monitor: stream events of compiled play callbacks answer the queries of compiled watch callbacks, compared with a model of sorted maps",
                note="A play callback with a random history of writes is compiled and executed, its recorded stream events become the backing store that answers the queries of a compiled watch callback (at another optimisation level, also with fields added at the end of the declaration), and everything watch logs must be what plain sorted maps give; uses in the wrong mode must be refused.",
                rule="seeded random declarations (numbers, vectors, records, nested, generic and empty records, arrays, groups, data fields, directly created streams), histories of writes, every query and iteration, four input sets each; distinct by values read",
                assumptions=["the engine interpolates linearly between keys and holds the end values", "keys are finite"]),
    "P18": dict(hang_is_violation=True, grace=280, quick=60, thorough=600, level="exploration",
                floor={"histories": 20, "rebuilds": 80, "fresh-builds": 100, "comparisons": 1000, "failed-builds": 10, "decodes": 10, "rebindings": 60},
                technique="history monitor of real development servers: the served site after every rebuild vs the site a pristine process builds from the same files",
                note="Real development servers run on generated multi-module projects; sources, resources, levels and converters are edited, spoiled, repaired and undone between rebuild commands, and after each one everything reachable on the served site (and the decoding of message codes) must equal what a pristine process builds from the same files; a failed rebuild must report and leave the site as it was.",
                rule="random histories of 3-6 steps over 36 kinds of edits and 12 kinds of errors at three optimisation levels; distinct by site",
                assumptions=["files no longer reachable from the start page may stay on disk", "edits change a file's time stamp", "functions keep their code objects"]),
    "P13": dict(build="asan", trees=["asan", "asanr", "release"], sanitized=2, hang_is_violation=False, grace=200, quick=60, thorough=600, level="exploration",
                floor={"malformed": 300, "programs": 60, "faults": 200, "extremes": 20, "deep": 8, "sentinels": 300, "accepted": 200, "folds": 1000,
                       "build:checked": 4, "build:release-directives": 4},
                technique="AddressSanitizer and UndefinedBehaviorSanitizer on instrumented builds of the extensions, a failing/filling/counting allocator, and exit status of processes with an ordinary stack",
                note="The extensions are rebuilt with address and undefined-behaviour sanitizers (once with bounds checks, once with the release directives) and run on legal, malformed and extreme programs, with every n-th allocation failing and with fresh memory filled with different patterns; a sanitizer report, a crash, an out-of-range list access, output that depends on fresh memory, growth of what stays allocated, or a compiler that gives other results afterwards is a violation.",
                rule="seeded random programs with 1-6 parts replaced by junk (40 kinds of values, hostile sequences, cycles, wrong arities and edges), 22 extreme shapes up to their time limits, expressions nested 1000-300000 deep in processes with an 8 MB stack, allocation failures at random points; distinct by kind and place of refusal, shape and size, tree",
                assumptions=["the address space is at least 4 GB", "helper arguments other than programs (operation ids, phase names in impossible orders) are not part of the input"]),
    "P19": dict(hang_is_violation=True, grace=90, quick=50, thorough=500, level="exploration",
                floor={"programs": 150, "comparisons": 1500, "operations": 1000, "writes": 500, "reads": 1000, "permitted": 50, "forbidden": 100},
                technique="event-trace monitor: engine operations, reads and writes of compiled API programs vs an explicit model of the engine's interface",
                note="Random programs that draw, spawn particles, play sounds, query timing, touches and the interface, judge, print, instruct and configure are compiled for every mode and callback and executed; every engine operation with its arguments, every engine value read and every place written must be what an independently written table of the engine's interface says, and a write must be refused exactly in the callbacks that must not make it.",
                rule="seeded random programs of 4-14 API statements in 4 modes and all their callbacks with every way of passing quads, z-indexes, optional and keyword arguments, groups by index and iteration, branches and loops, three memories each; every API write place in every callback, alone and guarded; distinct by event trace",
                assumptions=["the order of adjacent writes to different places is not observable", "engine memory holds finite numbers, and 0 or 1 where it holds a flag"]),
})
