NOTES = "Every check is bounded-exhaustive enumeration of executions of the code built from /repo's working tree; see DESIGN.md."
NYB = "no check built yet (work in progress)"
WASP = ["wasp-compiler/src/lib.rs", "wasp-compiler/wasp.pest", "wasp-compiler/src/ast/pest/mod.rs", "wasp-compiler/src/ast/wasp.rs"]
JP = WASP + ["wasp-compiler/src/wasp_interface.rs", "wasp-compiler/src/joinpoints.rs"]
MERGE = ["wasm-merge/src/lib.rs", "wasm-merge/src/options.rs", "wasm-merge/src/error.rs"]
ENUM = "bounded-exhaustive model checking of the implementation: every input up to a bound against a reference model"
TRUST = "Exhaustive within the stated bounds, on the real code; trusts the reference model (wasp-mc/src/spec.rs)."
CORE = ["wastrumentation/src/lib.rs", "wastrumentation/src/instrument/mod.rs", "wastrumentation/src/instrument/function_application.rs", "wastrumentation/src/parse_nesting/typed_high_level_body.rs"]
CORETRUST = "Exhaustive within the stated bounds, on the real instrumenter and the library it generates; trusts the event model, the interpreter and the wasabi_wasm stand-in under /verif/core (the real dependencies cannot be fetched)."
ASTRUST = "Exhaustive within the stated bounds, on the real generator and instrumenter; trusts, besides the event model, interpreter and wasabi_wasm stand-in, a stand-in for the AssemblyScript compiler that implements the subset in use and refuses the rest (core/asc-compiler-rs)."
SIDE = "bounded-exhaustive model checking of the implementation: every program of a bounded family is instrumented and executed next to the original under a reference model of the events"
PROPS = [
 dict(id="C01", title="A legal WASP program compiles to a tree that says what was written",
  statement="Compiling any legal WASP program yields exactly its advice, in source order, each with its own kind, its mutability marker, its formal parameter names and types in the order written, and its guest text. Nothing is dropped, merged, duplicated, reordered or taken from a neighbour, whatever names the program chooses for its parameters.",
  over=["programs"], **{"for": "all legal WASP programs: every kind of advice, any sequence of advice, any parameter names, any specialised signature"},
  why="The tests compile two fixed programs; mix-ups between advice, positions or names appear only for particular sequences and signatures.",
  files=WASP, mech=[("WaspRoot and AdviceDefinition conversions", "wasp-compiler/src/ast/wasp.rs"), ("grammar to pest tree", "wasp-compiler/src/ast/pest/mod.rs")],
  observe=["wasp_compiler::compile(..).wasp_root"],
  check=(ENUM, "exploration", TRUST)),
 dict(id="C02", title="Exactly the join points with advice are instrumented",
  statement="The set of join points a compiled program asks for contains a join point if and only if some advice of the program names it: generic apply, call before/after, indirect call before/after, if-then, if-then-else, br_if, br_table, select, block before/after, loop before/after. It depends only on which kinds of advice occur: not on their order, number, names, guest text or on global advice.",
  over=["programs", "histories"], **{"for": "all WASP programs; states are the reachable join-point sets, a transition adds one advice"},
  why="Tests look at one program per kind; interference between kinds needs combinations, of which there are 2^16.",
  files=JP, mech=[("join point collection", "wasp-compiler/src/joinpoints.rs")],
  observe=["wasp_compiler::compile(..).join_points", "JoinPoints::instrumented_join_points"],
  check=("explicit-state breadth-first search over all reachable join-point sets, each transition executed by the real compiler and compared with a reference model", "model_checking", TRUST)),
 dict(id="C03", title="Specialised apply advice requests exactly the signatures written",
  statement="The set of specialised signatures a compiled program asks for contains a signature if and only if some specialised apply advice was written with exactly those argument types and result types, in that order. Arguments and results are never swapped or mixed, and equal signatures are requested once.",
  over=["programs"], **{"for": "all lists of argument and result types up to the bound, in single advice, all pairs of advice and all sequences over colliding signatures"},
  why="Tests use one or two signatures; confusion of order, arity or of arguments with results shows only for particular type lists.",
  files=JP, mech=[("specialised signature collection", "wasp-compiler/src/joinpoints.rs"), ("parameter lists", "wasp-compiler/src/ast/wasp.rs")],
  observe=["JoinPoints::specialised_apply"],
  check=(ENUM, "exploration", TRUST)),
 dict(id="C04", title="Exactly the legal programs compile; others get the right error, no panic",
  statement="For every text, the compiler accepts it if it is a legal WASP program and otherwise returns an error, without panicking. Text outside the grammar is a syntax error; formal parameters that share a name, or an apply formal with a type that does not belong in its place, are rejected with the corresponding error naming the offender.",
  over=["inputs"], **{"for": "all token strings up to a bound in every context of the grammar, all patterns of equal parameter names, all type words in all type positions, all single-character edits of a set of base programs"},
  why="Tests try a handful of wrong programs; acceptance is a property of every string, and rejections hide in particular combinations of names and types.",
  files=WASP, mech=[("grammar", "wasp-compiler/wasp.pest"), ("static rules", "wasp-compiler/src/ast/wasp.rs")],
  observe=["wasp_compiler::compile(..) and its error"],
  check=(ENUM, "exploration", TRUST)),
 dict(id="C05", title="Layout and comments between tokens never change the meaning of a program",
  statement="Adding, removing or changing white space and comments between tokens of a WASP program changes nothing about what it compiles to, as long as words that were separate stay separate. Comments may contain any text up to their terminator, including text that looks like program text.",
  over=["programs"], **{"for": "all base programs, all gaps, every filler in every one and in every two gaps"},
  why="One test compares one pair of layouts; a gap where layout is not accepted, or a comment that is misread, is a property of each gap.",
  files=WASP, mech=[("implicit whitespace and comments", "wasp-compiler/wasp.pest")],
  observe=["wasp_compiler::compile(..)"],
  check=(ENUM, "exploration", TRUST)),
 dict(id="C06", title="Guest code is carried verbatim and is opaque to the compiler",
  statement="Whatever text stands between the guest markers, other than the closing marker itself, arrives unchanged as the guest code of that advice. It never influences how the rest of the program is read, even when it contains comment delimiters, parentheses, opening markers or parts of a closing marker.",
  over=["programs", "inputs"], **{"for": "all guest texts composed of significant fragments up to a bound, in every kind of advice and next to advice that could end what it begins"},
  why="Tests use short well-behaved guest code; misreadings need guest text that resembles the surrounding language.",
  files=WASP, mech=[("guest block rule", "wasp-compiler/wasp.pest")],
  observe=["guest code in wasp_compiler::compile(..).wasp_root"],
  check=(ENUM, "exploration", TRUST)),
 dict(id="C07", title="Run-time support is requested exactly when the advice needs it",
  statement="A compiled program's tree answers that it instruments generic application (`instruments_generic_apply`) exactly when there is generic apply advice, branches (`instruments_if`) exactly when there is if-then, if-then-else, br_if, br_table or select advice, and calls (`instruments_call`) exactly when there is advice on calls or indirect calls, before or after. No other advice changes these answers.",
  over=["programs", "histories"], **{"for": "all reachable join-point sets, reached by every order of adding advice"},
  why="Tests do not combine kinds; a missing or extra case in an answer needs the one program that has only that kind.",
  files=JP, mech=[("support queries", "wasp-compiler/src/ast/wasp.rs")],
  observe=["Root::instruments_generic_apply, instruments_if, instruments_call"],
  check=("explicit-state breadth-first search over all reachable join-point sets, each transition executed by the real compiler and compared with a reference model", "model_checking", TRUST)),
 dict(id="C10", title="The merge tool receives exactly the options that were enabled",
  statement="For every combination of merge options, the external merge tool is invoked with the documented flag of each enabled option and with no flag of a disabled one.",
  over=["configurations"], **{"for": "all sets of options with up to three enabled or up to three disabled (thorough: five)"},
  why="No test looks at the flags; the two that merge need the real tool and use two options.",
  files=MERGE, mech=[("option to flag", "wasm-merge/src/options.rs"), ("argument assembly", "wasm-merge/src/lib.rs")],
  observe=["argument vector of the tool"],
  check=("bounded-exhaustive enumeration of configurations against a recording stand-in for the tool", "exploration", "Exhaustive within bounds on the real code; trusts the table of documented flags.")),
 dict(id="C11", title="The merge tool receives every module once, in order, primary first",
  statement="For every list of modules, the merge tool is given each module's exact bytes, complete before it starts, together with that module's own namespace: the primary first if there is one, then the others in the order given. Equal modules or namespaces are not merged or skipped.",
  over=["inputs", "configurations"], **{"for": "all sequences of modules over small alphabets of contents and namespaces, with and without a primary; long lists; sizes around buffer boundaries; every failing, interrupted or partial system call, alone and in pairs"},
  why="Tests merge two small modules; lost, swapped or truncated modules depend on number, order, size and equality.",
  files=MERGE, mech=[("temporary inputs and argument order", "wasm-merge/src/lib.rs")],
  observe=["arguments and input files as seen by the tool"],
  check=("bounded-exhaustive enumeration of inputs and of faults at every system call against a recording stand-in for the tool", "exploration", "Exhaustive within bounds on the real code: every input up to the bounds, every single fault and every pair of faults at the system calls of a merge (errors, short reads and writes, interruptions).")),
 dict(id="C12", title="A merge reports success exactly when the tool succeeded, with its output",
  statement="A merge returns a module if and only if the tool was started, terminated with success and wrote nothing to its error stream; the module is byte for byte what the tool wrote. In every other case, including a missing tool, abnormal termination and exhausted disk space or file descriptors, it returns an error (never a panic or a stale, partial or empty module) that carries what the tool reported.",
  over=["fault_sequences", "configurations"], **{"for": "all combinations of tool output, error text, standard output and ending; every system call of a merge failing, interrupted or done in part, alone and in pairs; every point at which descriptors or disk space run out; missing or unusable tool and temporary directory"},
  why="Tests see one success and one failure of the tool; the other endings and the faults are environment behaviour a test does not produce.",
  files=MERGE, mech=[("status, error stream and result handling", "wasm-merge/src/lib.rs")],
  observe=["MergeOptions::merge result"],
  check=("exhaustive enumeration of faults at every system call and of the environment's answers, on the real code", "fault_enumeration", "Exhaustive over the enumerated tool behaviours, every resource-exhaustion point, and all single faults and pairs of faults at the system calls of a merge.")),
 dict(id="C13", title="A merge leaves no temporary files behind, however it ends",
  statement="When a merge returns, with a module or with an error, at whatever point it failed, the temporary directory contains nothing that was not there before.",
  over=["fault_sequences"], **{"for": "the same scenarios and fault points as C12"},
  why="Tests do not look at the temporary directory, and leaks appear on the error paths they do not take.",
  files=MERGE, mech=[("scoped temporary files", "wasm-merge/src/lib.rs")],
  observe=["directory listing after MergeOptions::merge"],
  check=("exhaustive enumeration of faults at every system call and of the environment's answers, on the real code", "fault_enumeration", "Exhaustive over the enumerated tool behaviours, every resource-exhaustion point, and all single faults and pairs of faults at the system calls of a merge.")),
 dict(id="C14", title="Namespaces and paths reach the merge tool verbatim, never interpreted",
  statement="Whatever characters a namespace or the path of the temporary directory contains, the merge tool receives them unchanged as single arguments: nothing is split, expanded, dropped or executed. A name that cannot be passed to a process at all leads to an error.",
  over=["inputs"], **{"for": "all sequences of up to three shell-significant fragments as namespaces, all single ASCII characters, and all such names for the temporary directory"},
  why="Tests use two plain namespaces.",
  files=MERGE, mech=[("argument passing", "wasm-merge/src/lib.rs")],
  observe=["argument vector of the tool"],
  check=("bounded-exhaustive enumeration of inputs against a recording stand-in for the tool", "exploration", "Exhaustive within bounds on the real code.")),
 dict(id="C15", title="Concurrent merges do not disturb each other",
  statement="When several merges run at the same time in one process, each one's tool sees exactly that merge's options and modules, each call returns exactly its own outcome, and no temporary file is shared or left behind, whatever the interleaving.",
  over=["schedules"], **{"for": "all interleavings of the tools' steps of two merges (with all combinations of endings) and of three; all interleavings of the system calls and lock operations of two merges with up to three preemptions and of three with up to two; one of them failing at any system call; deliberately colliding inputs"},
  why="No test runs merges concurrently.",
  files=MERGE, mech=[("per-call temporary files", "wasm-merge/src/lib.rs")],
  observe=["results and tool invocations of concurrent MergeOptions::merge calls"],
  check=("stateless model checking of the implementation: concurrent merges under a controlled scheduler that decides at every system call, lock operation and tool step", "model_checking", "All schedules within the preemption bounds on the real code; races of plain memory accesses with no system call or lock operation in between are not interleaved.")),

 dict(id="C20", title="A forwarding analysis leaves the program's behaviour unchanged",
  statement="For every valid WebAssembly program and every set of hooks, if the analysis performs every operation it is asked about and passes on what it was given, then the instrumented program computes what the original computes: the same results, traps, calls of imports with the same arguments in the same order, and the same globals, memory and tables afterwards.",
  over=["programs", "configurations", "inputs"], **{"for": "all valid function bodies over small instruction alphabets (control, calls, recursion, tables, variables, references, multiple values) up to a length, all operators and memory accesses on boundary operands; modules of every shape; sets of hooks: none, all, each alone, each left out, all pairs"},
  why="The tests instrument a handful of programs; wrong nesting depths, clobbered operands or dropped code appear only for particular shapes of bodies combined with particular hooks.",
  files=CORE, mech=[("per-hook transformation of bodies", "wastrumentation/src/instrument/"), ("nested view of bodies", "wastrumentation/src/parse_nesting/typed_high_level_body.rs"), ("application wrapper", "wastrumentation/src/instrument/function_application.rs")],
  observe=["results, traps, import calls and exported state of original and instrumented module"],
  check=(SIDE, "exploration", CORETRUST)),
 dict(id="C21", title="Every executed operation with a hook is reported once, in order, in full",
  statement="For every program, the analysis sees exactly the executed operations whose hooks are enabled: each once, at its moment, in execution order, with its operands, its static arguments (operator, local or global index, offset, label, call target, arity) and its place (function index and instruction index in the original module). Operations that are not reached, or whose hook is not enabled, are not reported; a trap of the analysis stops the program there.",
  over=["programs", "configurations", "inputs", "histories"], **{"for": "the programs, inputs and sets of hooks of C20, and the analysis trapping at every one of the first events"},
  why="Tests look at final results of a few analyses; order, place and operands are properties of every execution.",
  files=CORE, mech=[("per-hook transformation of bodies", "wastrumentation/src/instrument/"), ("instruction indices", "wastrumentation/src/parse_nesting/typed_high_level_body.rs")],
  observe=["calls of the analysis' functions"],
  check=(SIDE, "exploration", CORETRUST)),
 dict(id="C22", title="What the analysis answers takes effect, there and nowhere else",
  statement="For every hook that asks the analysis for a value or a decision (conditions of if, br_if and select, the table index, call targets, results of constants, operators, loads, memory size and growth, local and global accesses, return values), the program continues exactly as if the original operation had produced the answer; everything else is unaffected.",
  over=["programs", "configurations", "inputs"], **{"for": "the programs, inputs and sets of hooks of C20 under analyses that alter every answer in one of two ways, or exactly one answer, for each of the first events"},
  why="Tests with altering analyses cover one program each.",
  files=CORE, mech=[("per-hook transformation of bodies", "wastrumentation/src/instrument/")],
  observe=["results, traps, state and events of the instrumented module"],
  check=(SIDE, "exploration", CORETRUST)),
 dict(id="C23", title="Only the selected functions are instrumented, the rest is untouched",
  statement="When the configuration selects functions by their index, exactly the operations of the selected functions are reported, whatever the order or repetition of the selection and whatever indices it names beyond the module's; without a selection all functions are. Functions not selected behave as in the original, in both directions of calls between the two kinds, and through tables, exports and the start function.",
  over=["configurations", "programs"], **{"for": "all subsets of the functions of modules with imports, table entries, exports and start function; selections reversed, repeated and beyond range; bounded families of calling functions"},
  why="Tests select at most one function.",
  files=CORE, mech=[("selection of targets", "wastrumentation/src/instrument/mod.rs")],
  observe=["results and events of the instrumented module"],
  check=(SIDE, "exploration", CORETRUST)),
 dict(id="C25", title="Applications pass arguments and results through intact, for every signature",
  statement="With generic apply advice, each application of a function reports the function, its argument and result counts, types and values, and whether it is an import; performing it (zero, one or several times, with the arguments or results altered or not) has exactly the effect of applying the original, and the caller receives the results the analysis leaves. Nested and recursive applications do not disturb each other's values, and the buffers of completed applications are reclaimed.",
  over=["programs", "inputs", "histories"], **{"for": "all signatures over four value types up to a bound, six ways to treat an application, boundary bit patterns, bounded families of functions calling each other, recursion across buffer page boundaries, long series of calls"},
  why="Tests use a few signatures; argument order, offsets, reclaiming and re-entrance depend on the signature and the call history.",
  files=["wastrumentation/src/instrument/function_application.rs", "wastrumentation/src/stack_library.rs", "wastrumentation/src/instrument/mod.rs"], mech=[("application wrapper", "wastrumentation/src/instrument/function_application.rs"), ("value buffers", "wastrumentation/src/stack_library.rs")],
  observe=["events, results and memory of the instrumented module and its library"],
  check=(SIDE, "exploration", CORETRUST)),
 dict(id="C30", title="The exported base memory operations do what the instruction would have done",
  statement="The load and store operations, memory.size and memory.grow that an instrumented module exports for analyses behave exactly as the instruction they stand for: same width, sign, value, effect and traps for every pointer and offset, including out of range and wrapping sums. In a module without a memory they have no effect.",
  over=["inputs", "histories"], **{"for": "all loads and stores on boundary pointers, offsets and values, all sequences of growth, size and access up to a depth, memories of every shape and none"},
  why="Tests load and store small values at small addresses.",
  files=["wastrumentation/src/instrument/memory.rs"], mech=[("injected base operations", "wastrumentation/src/instrument/memory.rs")],
  observe=["exports of the instrumented module"],
  check=(SIDE, "exploration", CORETRUST)),

 dict(id="C26", title="Instrumented modules are valid and keep the original interface and state",
  statement="For every valid module with at most one memory and every set of hooks and selection, instrumenting succeeds without panicking and yields a valid module. It keeps all imports and exports of the original under the same names and types, its memory, tables, globals, segments and start function, and adds only imports of the analysis and of the library, with the types these offer, and exports under its own reserved names.",
  over=["programs", "configurations"], **{"for": "all combinations of up to four unusual features of modules (thorough: all) out of imports, memories, tables, globals, start, export names and segments; all valid bodies up to a length including code that is never reached; sets of hooks"},
  why="Tests instrument a few modules; which feature breaks which other is a matter of combinations, and unreachable code is never executed.",
  files=CORE, mech=[("instrumentation passes and added imports", "wastrumentation/src/instrument/mod.rs"), ("typed bodies", "wastrumentation/src/parse_nesting/typed_indexed_instr.rs")],
  observe=["imports, exports, validity and state after instantiation of the instrumented module"],
  check=("bounded-exhaustive enumeration of module shapes and bodies, each instrumented, validated, compared and instantiated next to the original", "exploration", CORETRUST)),
 dict(id="C27", title="Value buffers of the library are independent, last in first out, and reused",
  statement="The instrumentation library compiles for every set of signatures and offers all functions for each. Every buffer of values or types holds exactly what was stored last in each of its slots, bit for bit, whichever function was used to store or load, whatever happens to other live buffers. Buffers freed in reverse order of allocation are used again, and memory grows as needed.",
  over=["histories", "inputs"], **{"for": "all signatures up to five arguments and results; all sequences of allocating, storing and freeing up to a depth over small libraries, all slots of all live buffers compared after each step; buffers around page boundaries"},
  why="The test compares generated text with a stored copy and executes nothing.",
  files=["supported-languages/webassembly/src/generate/instrumentation/mod.rs", "wastrumentation/src/wasm_constructs/mod.rs"], mech=[("generated library", "supported-languages/webassembly/src/generate/instrumentation/mod.rs"), ("names of its functions", "wastrumentation/src/wasm_constructs/mod.rs")],
  observe=["exports of the compiled library"],
  check=("explicit-state depth-first exploration of operation sequences on the compiled library against a reference model of buffers", "model_checking", CORETRUST)),
 dict(id="C28", title="The nested view of a body loses nothing and flattening restores it exactly",
  statement="For every valid function body, the nested view contains exactly its instructions, nested as the blocks, loops and conditionals enclose them, each with its own index in the flat body (constructs: the index of their first instruction) and the function's index, and none marked as instrumentation. Flattening it yields the original body.",
  over=["programs"], **{"for": "all valid bodies over instruction alphabets up to a length, including unreachable code; all nestings up to a size; depths up to 400"},
  why="Tests nest a few bodies; confusions of alternatives, ends and indices depend on the shape.",
  files=["wastrumentation/src/parse_nesting/typed_high_level_body.rs", "wastrumentation/src/parse_nesting/typed_indexed_instr.rs"], mech=[("nesting and flattening", "wastrumentation/src/parse_nesting/typed_high_level_body.rs")],
  observe=["HighLevelBody::try_from, LowLevelBody::from"],
  check=("bounded-exhaustive enumeration of bodies against an independent parser", "exploration", CORETRUST)),
 dict(id="C32", title="The right parts are merged in the right roles, or the right failure is reported",
  statement="Instrumenting a program ends with one merge of exactly the instrumented program, the compiled analysis and (if functions are applied) the compiled library for exactly the selected signatures, each under its own namespace, with the selected one as primary and with validation off and renaming, multiple memories and bulk memory on; the result is what the merge produced. If a stage fails, nothing is merged after it and its own error is returned.",
  over=["configurations", "fault_sequences"], **{"for": "all choices of the primary module, with and without library, all combinations of failing stages, selections and analyses"},
  why="Tests always use one configuration and never a failing stage.",
  files=["wastrumentation/src/lib.rs", "wastrumentation/src/error.rs", "wastrumentation/src/stack_library.rs"], mech=[("stages and merge assembly", "wastrumentation/src/lib.rs")],
  observe=["arguments of the merge and result of Wastrumenter::wastrument"],
  check=("exhaustive enumeration of configurations and stage failures with recording stand-ins", "fault_enumeration", CORETRUST)),
 dict(id="C33", title="A branch table takes, and reports, the label its index selects",
  statement="For every branch table and every index, the analysis is told the index, the label that the index selects (the default label beyond the table's end) and the default; with the index it answers, the branch goes exactly where the original table would have gone, taking its values along.",
  over=["inputs", "programs"], **{"for": "all tables with up to five entries over five labels (thorough: seven) and any default, indices in and around the table and at the limits, long tables, with and without values, under analyses that keep or alter the index"},
  why="Tests use two tables and a few indices.",
  files=["wastrumentation/src/instrument/branch_if.rs", "wastrumentation/src/instrument/branch_if/generate_branch_table.rs"], mech=[("generated selection of the label", "wastrumentation/src/instrument/branch_if/generate_branch_table.rs")],
  observe=["events and results of the instrumented module"],
  check=(SIDE, "exploration", CORETRUST)),

 dict(id="C40", title="A set of hooks asks for exactly the traps it names",
  statement="For every set of hooks chosen for an analysis, the Rust and the WebAssembly front ends ask the instrumenter for exactly the traps those hooks name (each with the exported name and the parameter and result types the instrumenter calls it with), for no other trap, and hand on the analysis source unchanged. All hooks can be named, and a name stands for the same hook in both languages.",
  over=["configurations"], **{"for": "all sets of up to four of the 28 hooks, and all sets lacking up to four (thorough: five), in both languages"},
  why="Tests use a few sets of hooks; a hook that sets the wrong field of the interface, or interferes with another, shows only with that hook.",
  files=["supported-languages/rust/src/generate/analysis/mod.rs", "supported-languages/webassembly/src/generate/analysis/mod.rs", "wastrumentation/src/analysis.rs"], mech=[("interface of a set of hooks", "supported-languages/rust/src/generate/analysis/mod.rs"), ("interface of a set of hooks", "supported-languages/webassembly/src/generate/analysis/mod.rs")],
  observe=["interface_from, ProcessedAnalysis of an analysis specification"],
  check=("exhaustive enumeration of configurations on the implementation against a table of traps", "exploration", CORETRUST)),
 dict(id="C41", title="WASP advice in AssemblyScript does at run time what its text says",
  statement="Every WASP program with AssemblyScript guest code becomes an analysis that compiles, asks for exactly the traps of its advice, and, linked with the instrumented program, runs that advice at exactly the join points it names: each once, in order, with the operands, labels, targets, types and values of that execution, however the formal parameters are named. What the advice answers, alters through its arguments and results or leaves out takes effect, and nothing else; accesses by an index out of range trap.",
  over=["programs", "configurations", "inputs", "histories"], **{"for": "all sets of the kinds of advice (quick: all small and all nearly full ones), all orders of names over an alphabet with colliding candidates, all signatures over four types up to a bound, all in-range and boundary indices; bounded families of target programs under fixed and one-event-only answers"},
  why="Tests compare the generated text with a stored copy; none executes an analysis that comes from WASP.",
  files=["supported-languages/assemblyscript/src/generate/analysis/", "supported-languages/assemblyscript/src/generate/analysis/wasp.rs", "wasp-compiler/src/wasp_interface.rs", "wastrumentation/src/instrument/"], mech=[("from WASP to AssemblyScript", "supported-languages/assemblyscript/src/generate/analysis/wasp.rs"), ("argument and result accessors", "supported-languages/assemblyscript/src/generate/analysis/"), ("instrumentation", "wastrumentation/src/instrument/")],
  observe=["reports that the compiled guest code makes through the advice API, results and state of the linked program"],
  check=("bounded-exhaustive exploration of programs, analyses, inputs and answers: the compiled and linked analysis is executed by an explicit-state machine next to the reference semantics and compared event by event", "exploration", ASTRUST)),
 dict(id="C42", title="Value buffers of the Rust library are independent, last in first out, and reused",
  statement="The instrumentation library generated for Rust compiles for every set of signatures, in both profiles, and offers all functions for each. Every buffer of values or types holds exactly what was stored last in each of its slots, bit for bit, whichever function was used to store or load, whatever happens to other live buffers. Memory is released with the layout it was allocated with, and is used again.",
  over=["histories", "inputs"], **{"for": "libraries for all signatures up to a bound; all sequences of allocating, storing and freeing up to a depth over small libraries, all slots of all live buffers compared after each step; an allocator that verifies layouts and poisons released memory"},
  why="Tests compare generated text with a stored copy and execute nothing.",
  files=["supported-languages/rust/src/generate/instrumentation/mod.rs", "wastrumentation/src/wasm_constructs/mod.rs"], mech=[("generated library", "supported-languages/rust/src/generate/instrumentation/mod.rs"), ("names of its functions", "wastrumentation/src/wasm_constructs/mod.rs")],
  observe=["exports of the library compiled by rustc for wasm32"],
  check=("explicit-state depth-first exploration of operation sequences on the compiled library against a reference model of buffers", "model_checking", CORETRUST)),
 dict(id="C43", title="The AssemblyScript library keeps values apart and applies functions faithfully",
  statement="The instrumentation library generated for AssemblyScript compiles for every set of signatures and offers all functions for each. Every buffer of values or types holds exactly what was stored last in each of its slots, bit for bit, whatever happens to other live buffers; freed buffers are used again. Programs instrumented with it still pass the arguments and results of every application through exactly as the analysis leaves them.",
  over=["histories", "programs", "inputs"], **{"for": "all signatures over four types up to a bound; all sequences of allocating, storing and freeing up to a depth over small libraries, all slots of all live buffers compared after each step; six ways to treat an application, boundary bit patterns, nested and recursive applications"},
  why="Tests compare generated text with a stored copy and execute nothing.",
  files=["supported-languages/assemblyscript/src/generate/instrumentation/mod.rs", "wastrumentation/src/wasm_constructs/mod.rs", "wastrumentation/src/stack_library.rs"], mech=[("generated library", "supported-languages/assemblyscript/src/generate/instrumentation/mod.rs"), ("names of its functions", "wastrumentation/src/wasm_constructs/mod.rs")],
  observe=["exports of the compiled library, events and results of programs linked with it"],
  check=("explicit-state depth-first exploration of operation sequences on the compiled library against a reference model of buffers", "model_checking", ASTRUST)),
 dict(id="C44", title="Programs instrumented with the Rust library behave as the advice says",
  statement="With the Rust instrumentation library in the place of the WebAssembly one, applications of functions of every signature still report their arguments and results exactly and have exactly the effect of the original where the analysis leaves them alone, also when nested, repeated or left out.",
  over=["programs", "inputs", "histories"], **{"for": "all signatures over four value types up to a bound, six ways to treat an application, boundary bit patterns, nested and recursive applications"},
  why="The Rust library is never executed by the tests that need no network, and then only for two signatures.",
  files=["supported-languages/rust/src/generate/instrumentation/mod.rs", "supported-languages/rust/src/compile/compiler.rs", "wastrumentation/src/stack_library.rs", "wastrumentation/src/instrument/function_application.rs"], mech=[("generated library", "supported-languages/rust/src/generate/instrumentation/mod.rs"), ("application wrapper", "wastrumentation/src/instrument/function_application.rs")],
  observe=["events, results and memory of the instrumented module and its library"],
  check=(SIDE, "exploration", CORETRUST)),
 dict(id="C45", title="The command line instruments exactly what its arguments say",
  statement="The command-line program instruments the module it reads for exactly the hooks that are named (all of them if none is named) in exactly the functions that are listed (all if none is listed), with the analysis whose manifest it is given, compiled without WASI, and writes the whole merged module to the given path or to standard output; whatever the order, the spelling and the repetition of the options, and however many pieces reading and writing take. Where an argument is wrong, the input is no module, or reading, compiling, merging or writing fails, it ends unsuccessfully and does not leave a whole result.",
  over=["configurations", "inputs", "fault points"], **{"for": "all single hooks, pairs of hooks, sets lacking one, all sets of functions of a program that executes every kind of instruction, all orders of the options in five spellings, pieces of many sizes, a failure at every byte read or written"},
  why="No test runs the program.",
  files=["cli/src/main.rs", "supported-languages/rust/src/generate/analysis/mod.rs", "supported-languages/rust/src/compile/compiler.rs", "wastrumentation/src/lib.rs"], mech=[("arguments, hooks and output", "cli/src/main.rs")],
  observe=["exit status and output of the process, behaviour of the instrumented module in it"],
  check=("exhaustive enumeration of command lines and of failures on the real program; the modules it writes are explored side by side with a model of the instrumentation", "exploration", "Trusted: the stand-ins for clap and clio (options with values; files, standard streams), for the cargo driver and for the merge, which hand on what they are given; otherwise as C20.")),
 dict(id="C46", title="A compiler gets exactly its source, and its answer is handed on",
  statement="Every compilation through a language asks the compiler of that language exactly once: for Rust, for exactly the manifest and source text, or the manifest path, with the WASI support and the profile given (release by default); for AssemblyScript, for exactly the source text. The module answered is returned unchanged, and an error as an error with its text. For WebAssembly, a binary is returned unchanged, and a text is encoded, or refused with a reason. No compilation affects another through the same compiler, and none panics.",
  over=["inputs", "configurations", "operation sequences"], **{"for": "all combinations of WASI support, profile, kinds of source, texts and paths of several lengths and encodings, modules and errors answered; all sequences of compilations up to a depth"},
  why="The tests need the compilers at hand and compile a few sources, each once.",
  files=["supported-languages/rust/src/compile/compiler.rs", "supported-languages/assemblyscript/src/compile/compiler.rs", "supported-languages/webassembly/src/compile/compiler.rs", "wastrumentation/src/compiler/mod.rs"], mech=[("Compiles", "supported-languages/rust/src/compile/compiler.rs")],
  observe=["what the compiler is asked for, what compile returns"],
  check=("exhaustive enumeration of compilations and of sequences of them through one compiler, against a scripted compiler that records what it is asked for", "exploration", "Trusted: the stand-ins for the crates that run rustc and asc (they take what the real ones take, record it, and answer as scripted).")),
 dict(id="C50", title="A function reported as immutable reaches no state and no import",
  statement="Every function which the static analysis reports as immutable is defined in the module, and neither it nor any function it can reach by direct calls contains an instruction that reads or writes a global, a table, a memory or a segment, an indirect call, or a call of an import; wherever such an instruction stands in a body.",
  over=["programs"], **{"for": "all call graphs up to a size over kinds of functions, every instruction and pair of instructions in every place up to a nesting, bounded families of bodies, chains up to a length"},
  why="The tests judge a few modules; a wrong answer needs a particular graph, order, place or instruction.",
  files=["wastrumentation-static-analysis/src/lib.rs", "wastrumentation/src/parse_nesting/typed_high_level_body.rs"], mech=[("fixpoint of purity", "wastrumentation-static-analysis/src/lib.rs")],
  observe=["immutable_functions, immutable_functions_from_binary"],
  check=("bounded-exhaustive enumeration of call graphs and bodies against an independent reachability computation", "exploration", CORETRUST)),
 dict(id="C51", title="The static analysis always answers and misses no plain immutable function",
  statement="For every valid module the static analysis terminates without panicking and, unless functions call each other mutually, reports every function from which no state, indirect call or import can be reached: whatever the order of the functions, the length of the chains of calls, and calls of a function to itself. For bytes that are no module it reports nothing.",
  over=["programs"], **{"for": "all call graphs up to a size over kinds of functions, every instruction and pair of instructions in every place up to a nesting, bounded families of bodies, chains up to a length"},
  why="The tests judge a few modules; a fixpoint that stops early, or skips a place, needs a particular graph.",
  files=["wastrumentation-static-analysis/src/lib.rs", "wastrumentation/src/parse_nesting/typed_high_level_body.rs"], mech=[("fixpoint of purity", "wastrumentation-static-analysis/src/lib.rs")],
  observe=["immutable_functions, immutable_functions_from_binary"],
  check=("bounded-exhaustive enumeration of call graphs and bodies against an independent reachability computation", "exploration", CORETRUST)),
 dict(id="C52", title="The static analysis program lists its findings completely or fails",
  statement="The command-line program of the static analysis writes, as one JSON list of function indices without repetition and nothing else, every function it finds immutable whose body has at least the given number of instructions (its final `end` included; every immutable function if no number is given), to the given path or to standard output, however many pieces reading and writing take. Where an argument is wrong, the input is no module, or reading or writing fails, it ends unsuccessfully.",
  over=["programs", "configurations", "fault points"], **{"for": "all modules of few functions of several sizes, pure or not, calling nothing, an import, an earlier function or themselves, and some of up to 1200 functions; every minimum around every size; all orders of the options in five spellings; pieces of many sizes; a failure at every byte read or written"},
  why="No test runs the program.",
  files=["wastrumentation-static-analysis/src/main.rs", "wastrumentation-static-analysis/src/lib.rs"], mech=[("arguments, filter and output", "wastrumentation-static-analysis/src/main.rs")],
  observe=["exit status and output of the process"],
  check=("exhaustive enumeration of modules, command lines and failures on the real program against an independent list", "exploration", "Trusted: the stand-ins for clap and clio (options with values; files, standard streams) and for the decoder of modules.")),
]
