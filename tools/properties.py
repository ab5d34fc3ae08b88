AP = "autoprecompiles/src/"
CS = "constraint-solver/src/"
BASE = "Seeded sampling, not proof. Trusts the simulated zkVM (its rows are re-checked against the original instruction AIRs in every run) and the simulator's seams. "
prop("P01", "Building a precompile is reproducible",
 "Building a precompile twice from the same block, machine description and profile gives the same precompile: the same columns, constraints, bus interactions, column-filling rules and run-time conditions in the same order. Nothing in the environment of the build - random hash keys, clock readings, number and interleaving of worker threads, log and metrics consumers, other builds running before it or at the same time - may change it.",
 ["schedules", "programs", "fault_sequences"], "for every block, profile, hash-key choice, clock behaviour, thread count and interleaving of the build",
 "A test builds once per process with the hash keys it happened to get; prover and verifier build in different processes, and a difference only shows when two of them are compared under different keys or schedules.",
 [AP+"lib.rs", AP+"optimizer.rs", AP+"constraint_optimizer.rs", CS+"rule_based_optimizer/driver.rs", CS+"rule_based_optimizer/environment.rs", CS+"solver/base.rs", AP+"memory_optimizer.rs"],
 [("ordered collections and sorted work lists", CS+"indexed_constraint_system.rs, "+CS+"solver/base.rs"), ("canonical order of rule-system input", CS+"rule_based_optimizer/driver.rs")],
 "the same build repeated under different seeded hash keys, clocks, pool sizes and interleavings, alone and while other builds run on the same pool; results compared",
 "Seeded sampling of blocks and environments, not proof. The environment of a build is what the simulator controls: hash keys, clock, thread pool, allocator preemption, log and metrics consumers, other builds in the process.")
prop("P02", "Every execution of a block has an accepted precompile row",
 "For every execution of the block (for a precompile specialised to a profile: every profiled execution), filling the precompile's row from the original instructions' rows by the precompile's own rules gives a row that satisfies all its constraints and lookups. The row's net effect on memory, control flow and clock is exactly that of the original instructions.",
 ["programs", "histories", "inputs", "configurations"], "for every block or chain of blocks, every initial state, every access history, every profile learned from such executions",
 "The snapshot tests fix the optimised constraints of some hundred blocks but never run an execution through them; no offline test fills a row.",
 [AP+"lib.rs", AP+"optimizer.rs", AP+"constraint_optimizer.rs", AP+"memory_optimizer.rs", AP+"range_constraint_optimizer.rs", AP+"low_degree_bus_interaction_optimizer.rs", AP+"empirical_constraints.rs", AP+"symbolic_machine_generator.rs", CS+"solver/base.rs", CS+"inliner.rs", "openvm-bus-interaction-handler/src/lib.rs"],
 [("equivalence-preserving optimisation steps", AP+"optimizer.rs, "+AP+"constraint_optimizer.rs"), ("substitutions from original columns and derived columns", AP+"lib.rs Apc::new"), ("constraints learned from observed rows only", AP+"empirical_constraints.rs")],
 "simulated zkVM executes random blocks over random access histories; the real builder's precompile must accept and reproduce each execution",
 BASE + "Blocks of up to 8 (quick) or 14 (thorough) instructions out of 13 instruction AIRs; most runs use instruction sets whose AIRs are drawn at random (3-5 instructions).")
prop("P03", "No accepted precompile row does anything the block cannot do",
 "Whatever row a dishonest prover fills in, if the precompile's constraints and lookups accept it and the state it starts from is possible, then its net effect on memory, control flow and clock is the effect of running the original instructions from that state, or no effect at all.",
 ["programs", "fault_sequences", "inputs", "configurations"], "for every block, profile and every accepted row, including rows no honest prover would produce",
 "Tests compare optimised constraints with recorded text; none tries to satisfy them dishonestly, so a dropped or weakened constraint is invisible once the snapshot is updated.",
 [AP+"lib.rs", AP+"optimizer.rs", AP+"constraint_optimizer.rs", AP+"memory_optimizer.rs", AP+"range_constraint_optimizer.rs", AP+"low_degree_bus_interaction_optimizer.rs", CS+"solver/base.rs", CS+"solver/exhaustive_search.rs", CS+"inliner.rs", CS+"range_constraint.rs", CS+"rule_based_optimizer/rules.rs", "openvm-bus-interaction-handler/src/lib.rs"],
 [("equivalence-preserving optimisation steps", AP+"optimizer.rs"), ("range constraints kept when interactions are dropped", AP+"range_constraint_optimizer.rs"), ("memory interactions matched only at provably equal addresses", AP+"memory_optimizer.rs")],
 "a Byzantine prover (seeded search for accepted rows off the honest path) against the real builder's precompile; accepted rows are judged by re-execution",
 BASE + "The forger samples; a hole it cannot hit within its attempts is missed.")
prop("P04", "Chosen precompile calls are complete, never overlap and follow priority",
 "While a program runs, a tracked precompile candidate completes exactly when its whole length was executed with all its run-time conditions holding; no calls are handed out while any candidate is in progress, and the calls handed out never overlap in time and are handed out once. Among completed candidates conflicts are settled pairwise in the order they were started, where higher priority wins, then longer span, then the earlier start, and a candidate that already lost drops nobody else.",
 ["schedules", "histories", "fault_sequences", "crash_points"], "for every interleaving of starts, steps, segment cuts, extractions and restarts, every set of precompiles",
 "The unit tests walk a dozen hand-written sequences; overlaps of three or more candidates, cuts between steps and delayed extraction are combinations they do not reach.",
 [AP+"execution/candidates.rs", AP+"execution/evaluator.rs"],
 [("candidate bookkeeping and conflict resolution", AP+"execution/candidates.rs")],
 "seeded interleavings of machine steps, candidate starts, segment cuts, extractions and restarts against a reference model, checked at every step",
 "Seeded sampling against an executable reference model. Assumes a strictly increasing clock and candidates of at least one cycle.")
prop("P05", "Run-time conditions are decided at the first step that decides them",
 "Stepping a set of run-time conditions through an execution reports failure at the first step at which some condition has all its values available and does not hold, and never otherwise. Conditions about earlier steps use the values of those steps, and the verdict does not depend on hash keys, on other executions using the same set, or on the set having been stored and reloaded.",
 ["histories", "crash_points", "schedules", "inputs"], "for every execution history, every set of conditions, every restart point with the set reloaded from storage",
 "Unit tests fix a few literal sets and two or three steps; conditions spanning distant steps and shared sets across restarts are not reached.",
 [AP+"execution/evaluator.rs", AP+"execution/ast.rs"],
 [("values recorded when first available, conditions indexed by the step that decides them", AP+"execution/evaluator.rs")],
 "simulated executions with crash and reload of the condition set at seeded points against a direct evaluation of the recorded history",
 "Seeded sampling against an executable reference model.")
prop("P06", "Profile knowledge is the same however observations are merged",
 "What is learned from profiled executions - value ranges and execution counts per instruction, equal cells per block - is exactly what holds in all of them together, whatever order, grouping or thread interleaving merges them and whether partial results were stored and reloaded. What is then used for a chain of blocks is each block's knowledge shifted to its position, restricted to the admitted cells and to code executed often enough.",
 ["schedules", "histories", "crash_points", "configurations"], "for every set of observations, merge order, pool size, interleaving and restart point",
 "Tests merge two or three fixed partitions sequentially; the chunked parallel path starts at dozens of partitions and depends on thread scheduling.",
 [AP+"equivalence_classes.rs", AP+"empirical_constraints.rs", AP+"optimistic/config.rs"],
 [("intersection of partitions, sequential and parallel", AP+"equivalence_classes.rs"), ("merging, block view, filtering and threshold", AP+"empirical_constraints.rs")],
 "profile merging on a simulated thread pool under seeded schedules, merge orders and reloads, against a label-vector reference model; the conditions generated from them compared with the definition too",
 "Seeded sampling against an executable reference model; the thread pool is the simulator's; up to 20 instructions, 45 columns and hundreds of observations.")
prop("P07", "Basic blocks and superblocks describe the executed program",
 "The blocks collected from a program partition its instructions, breaking exactly after branching instructions, around instructions no precompile may contain, and before jump targets. From a recorded execution the detected superblocks are exactly the chains of consecutively executed usable blocks within the configured limits of blocks, instructions and executions, each with its true number of non-overlapping occurrences and holding exactly its instructions at their addresses; the set, counts and order do not depend on thread interleaving or hash keys.",
 ["histories", "schedules", "programs", "configurations"], "for every program, execution history, limit setting, pool size and interleaving",
 "Tests use a few short hand-written traces; the counting runs in parallel over runs collected in hash maps.",
 [AP+"blocks/mod.rs", AP+"blocks/detection.rs"],
 [("block splitting", AP+"blocks/mod.rs collect_basic_blocks"), ("run splitting, sub-sequence enumeration, non-overlapping counting", AP+"blocks/detection.rs")],
 "random programs executed as random walks; detection run on a simulated thread pool under seeded schedules and hash keys, compared with the definition evaluated on the recorded history",
 "Seeded sampling against an executable reference model; executions start and end at block boundaries.")
prop("P08", "Precompile selection follows the profile, within limits, in every environment",
 "Cost-driven selection repeatedly takes the candidate with the highest value per cost over the part of the recorded execution no earlier choice covers, within the column budget; instruction-count and static selection take the highest-ranked blocks. The requested number is returned after skipping the requested number of best ones; blocks that cannot be built are left out without affecting the others. Each returned precompile carries its own block and true statistics, and the selection does not depend on thread interleaving, pool size or hash keys.",
 ["histories", "schedules", "configurations", "fault_sequences"], "for every program, execution history, cost assignment, limit setting, pool size, interleaving and set of blocks that fail to build",
 "Candidates are built in parallel and ranked by values depending on the whole execution; tests fix a handful of small runs and one schedule.",
 [AP+"pgo/mod.rs", AP+"pgo/cell/mod.rs", AP+"pgo/cell/selection.rs", AP+"pgo/instruction.rs", AP+"pgo/none.rs", AP+"adapter.rs", AP+"evaluation.rs"],
 [("greedy selection over remaining runs", AP+"pgo/cell/selection.rs"), ("parallel candidate generation", AP+"pgo/mod.rs, "+AP+"pgo/cell/mod.rs")],
 "profiled random walks through the real selection on a simulated thread pool, with blocks that fail to build; each choice judged against the definition over the remaining history, and compared across environments",
 "Seeded sampling; among candidates of exactly equal density any order is accepted, but it must be the same in every environment.")
prop("P09", "Each precompile row is filled from the records of its own call",
 "Given the instruction records of any number of precompile calls, in the order executed and stored per instruction table, filling the precompile's rows takes every column of a call's row from the record of the right instruction of that call, writes no column twice, computes exactly the derived columns and yields one row per call, in call order, whatever the thread interleaving.",
 ["histories", "schedules", "configurations"], "for every precompile, number of calls, sharing of tables between instructions, pool size and interleaving",
 "No offline test calls it: it runs only inside the prover, in parallel.",
 [AP+"trace_handler.rs", AP+"symbolic_machine.rs"],
 [("record offsets per table and call", AP+"trace_handler.rs generate_trace")],
 "records of random executions with uniquely numbered cells; rows assembled on a simulated thread pool and compared cell by cell",
 "Seeded sampling; instructions none of whose columns survive leave no record.")
prop("P10", "An execution profile is exactly the execution it was taken of",
 "Profiling an execution records every executed instruction address, in order, and its exact number of executions. Other log events, executions on other threads, profiles nested in it and logging before or after it neither add to it nor take from it, and an execution that dies half-way disturbs no other profile.",
 ["schedules", "histories"], "for every execution, every interleaving with other profiled executions and other log output",
 "Profiles are collected through a logging subscriber shared with everything else that logs; tests run one at a time.",
 [AP+"execution_profile.rs"],
 [("event visitor and thread-local subscriber", AP+"execution_profile.rs")],
 "several simulated threads profile, log and at times die, interleaved by the scheduler at every event; each profile compared with the executed history",
 "Seeded sampling; the executor emits its events on the thread that asked for the profile.")
prop("P11", "Exports are complete or the failure is visible, and never change the result",
 "Exporting precompiles and candidate lists does not change what is built. If a build that exports reports success, every export file is present, complete and says what was built; if writing fails, the failure is visible. Interrupted and short writes are no failure, leftovers of earlier exports do not matter, and repeating the build after a failure or crash yields the complete files.",
 ["fault_sequences", "crash_points", "configurations", "schedules"], "for every program, export level, file-system fault at every operation, crash point and left-over content",
 "Tests export nothing, and a test cannot make the n-th write fail.",
 [AP+"export.rs", AP+"pgo/cell/mod.rs", AP+"lib.rs"],
 [("export files", AP+"export.rs"), ("candidates file", AP+"pgo/cell/mod.rs")],
 "the real builder exports through an interposed file system with errors, outages that heal, short writes, interruptions, full disk and crashes at seeded operations; directory contents judged after each outcome and after recovery",
 "Seeded sampling; completed system calls are durable (no page-cache loss: the code never syncs).")
prop("P12", "Stored values are read back exactly, or the failure is visible",
 "Columns of field elements (CSV in every rendering, CBOR), tables of values and symbolic machines are stored and read back. If storing reports success, everything is in the file and reading it back gives exactly what was stored, for every field. A failed, cut-off or interrupted write or read is reported and never yields other values; short reads and writes are no failure, left-over content does not matter, and storing again after a failure completes.",
 ["fault_sequences", "crash_points", "inputs", "configurations"], "for every value, field, rendering, fault at every operation of the stream or file, crash point, cut-off file and left-over content",
 "Two unit tests store one small table in memory, where no read or write is ever short, interrupted or fails.",
 ["number/src/serialize.rs", "number/src/plonky3_macros.rs", "number/src/macros.rs", "number/src/goldilocks.rs", AP+"expression.rs", AP+"symbolic_machine.rs", "expression/src/lib.rs"],
 [("CSV and CBOR", "number/src/serialize.rs"), ("text form of references", AP+"expression.rs")],
 "drawn values through the real writers and readers over streams and an interposed file system with short, interrupted, failing and torn operations, outages that heal, full disk, crashes and cut-off files; what is read judged against what was stored",
 "Seeded sampling; cut-off CSV files are excluded (the format carries no length), completed system calls are durable.")
prop("P13", "The constraint solver never claims anything false",
 "A client adds constraints, bus interactions and promised ranges to a solver in any order, solves, asks and lets it forget columns at any point. Every value, equality, range, constant or difference the solver reports is true for every assignment that satisfies what it was told until then, and it never reports a satisfiable system as unsatisfiable. Columns already reported as assigned are not reported again to a client that applies what it is told.",
 ["histories", "inputs"], "for every system, every history of additions, solves, queries and forgetting, and every satisfying assignment",
 "Unit tests add everything at once, solve once and compare the printed result; no test evaluates a claim on satisfying assignments, least of all on ones that only satisfy the part told so far.",
 [CS+"solver.rs", CS+"solver/base.rs", CS+"solver/boolean_extractor.rs", CS+"solver/linearizer.rs", CS+"solver/exhaustive_search.rs", CS+"solver/constraint_splitter.rs", CS+"algebraic_constraint/solve.rs", CS+"range_constraint.rs", "openvm-bus-interaction-handler/src/lib.rs"],
 [("incremental solving with caches and introduced variables", CS+"solver/base.rs"), ("assumptions about bus contents", "openvm-bus-interaction-handler/src/lib.rs")],
 "seeded client histories against the real solver; every claim checked on honest and Byzantine assignments of the part told so far; differences are also asked of expressions made equal in one of them",
 BASE + "Systems of up to 3 instructions with up to 6 gadgets each, histories of up to 40 operations.")
prop("P14", "Optimizing any machine keeps exactly its behaviours",
 "A machine (columns, constraints, lookups and stateful bus interactions, not only those of known instructions) is optimized. Every execution of the machine is still accepted, with the same effect on the stateful buses, after computing derived columns; no accepted row of the result has an effect on the stateful buses that no execution of the machine has; new columns can be computed; degree bounds are kept; machines with executions are neither refused nor make the optimizer panic.",
 ["inputs", "fault_sequences", "configurations"], "for every machine that follows the bus protocol (including already optimized ones), every execution, every accepted row and degree bound",
 "Tests optimize fixed instruction sequences and compare sizes or text; a rule that is unsound for shapes which these do not contain passes all of them.",
 [AP+"optimizer.rs", AP+"constraint_optimizer.rs", AP+"memory_optimizer.rs", AP+"range_constraint_optimizer.rs", AP+"low_degree_bus_interaction_optimizer.rs", CS+"rule_based_optimizer/rules.rs", CS+"rule_based_optimizer/driver.rs", CS+"inliner.rs", CS+"indexed_constraint_system.rs"],
 [("rule-based replacement", CS+"rule_based_optimizer/rules.rs"), ("removal of unobservable columns", AP+"constraint_optimizer.rs")],
 "seeded machines with a reference semantics through the real optimizer; honest executions and Byzantine rows judged against the reference",
 BASE + "Machines of up to 4 instructions with up to 7 gadgets each out of 29 kinds.")
prop("P15", "Unused precompile rows are inert",
 "A row marked as unused can be padded with zeroes: all constraints accept it. No accepted row marked as unused, whatever else a prover puts in it, takes part in any lookup, memory access or control-flow step.",
 ["programs", "fault_sequences", "configurations"], "for every block, profile and every accepted row marked as unused",
 "Traces are padded to a power of two by the prover; snapshot tests show the guards as text but never evaluate them on padding or forged padding.",
 [AP+"lib.rs", AP+"powdr.rs"],
 [("validity guards", AP+"lib.rs add_guards")],
 "padding and forged-padding rows (Byzantine prover) against the real builder's precompile",
 BASE)
prop("P16", "Precompiles respect the requested degree bounds",
 "Every constraint of a built precompile has at most the requested degree for constraints, and every bus interaction's fields and multiplicity have at most the requested degree for bus interactions.",
 ["programs", "configurations"], "for every block, profile and degree bound not below the one of the original instructions",
 "Snapshot tests use one bound; the built-in final check only looks at the machine before guards are added and does not separate the two bounds for every part.",
 [AP+"optimizer.rs", AP+"lib.rs", CS+"inliner.rs", AP+"low_degree_bus_interaction_optimizer.rs"],
 [("degree-bounded inlining", CS+"inliner.rs"), ("final degree check", AP+"optimizer.rs")],
 "random blocks and bounds through the real builder in seeded environments; every expression's degree measured",
 BASE)
prop("P17", "Running with precompiles means the same as running without",
 "A program is profiled, blocks are collected, precompiles are built and selected, and an execution is proved with them. Precompiles are called only for stretches that executed exactly their instructions, never twice for the same step, and for every undisturbed stretch no other precompile competes for. The rows filled for these calls are accepted, and together with the rows of the remaining instructions they have exactly the effect of the plain execution - across segment cuts, storing and reloading precompiles, and prover and verifier compiling separately in different environments.",
 ["programs", "histories", "schedules", "crash_points", "configurations"], "for every program, profile, selection mode, execution, segmentation, restart between stages and environment of either party",
 "The only tests that run the stages together need the proving stack and a fixed set of guest programs.",
 [AP+"lib.rs", AP+"blocks/mod.rs", AP+"blocks/detection.rs", AP+"execution_profile.rs", AP+"pgo/mod.rs", AP+"execution/candidates.rs", AP+"trace_handler.rs", AP+"symbolic_machine_generator.rs"],
 [("run-time conditions of a superblock", AP+"lib.rs superblock_pc_constraints"), ("stages glued by addresses, instruction indices and column ids", AP+"lib.rs, "+AP+"trace_handler.rs")],
 "whole-pipeline simulation: profiling, compiling and proving parties with restarts and segment cuts between them; bus balance over the whole execution as oracle; chains of up to 9 blocks left by the execution at every block",
 BASE + "Programs of two loops with branches, calls and opaque instructions, up to about 40 instructions.")
prop("P18", "Run-time conditions say what the learned constraints say",
 "For a block and a profile, columns are mapped to values an executor can see (a limb of an address at a step), and learned constraints on such columns to conditions an executor can check. In every execution the column's value is the value of its literal; an execution meets a condition exactly if it meets the learned constraint; and every execution the profile was taken of meets all of them.",
 ["programs", "histories", "inputs"], "for every block, profile, execution (profiled or not) and degree bound, for instructions whose operands settle which registers they touch",
 "No test executes a block and compares a literal with the column it stands for; tests evaluate hand-written conditions only.",
 [AP+"optimistic/execution_literals.rs", AP+"optimistic/execution_constraint_generator.rs", AP+"optimistic/algebraic_references.rs", AP+"empirical_constraints.rs", AP+"execution/evaluator.rs", AP+"execution/ast.rs"],
 [("literal of a memory limb", AP+"optimistic/execution_literals.rs"), ("conditions", AP+"optimistic/execution_constraint_generator.rs")],
 "seeded blocks and executions through the real literal and condition generators; the executor's recorded memory at every step decides what literals and conditions must say",
 BASE + "Blocks of up to 5 instructions (8 thorough), up to 8 executions each.")
# ---------------------------------------------------------------- not applicable
prop("N01", "Field arithmetic is that of the prime field",
 "Addition, subtraction, multiplication, division, exponentiation and conversion of field elements agree with arithmetic modulo the field's prime for all values.",
 ["inputs"], "for all pairs of field elements", "Tests sample values.",
 ["number/src/plonky3_macros.rs", "number/src/goldilocks.rs", "number/src/bn254.rs"], [("reduction", "number/src/goldilocks.rs")],
 None, "A pure function of its inputs: no schedule, clock, I/O, fault or second party for a simulator to vary.")
prop("N02", "Range-constraint algebra over-approximates",
 "The range computed for a combination of expressions contains every value the combination can take for values in the operands' ranges.",
 ["inputs"], "for all ranges and values", "Tests sample ranges.",
 [CS+"range_constraint.rs"], [("interval and mask arithmetic", CS+"range_constraint.rs")],
 None, "A pure function of its inputs with no nondeterminism, time, I/O or second party; its consequences for precompiles are covered by P02 and P03.")
prop("N03", "ELF loading and label recovery preserve the program",
 "The instructions, data and jump destinations recovered from a RISC-V executable are those of the executable.",
 ["inputs"], "for all executables", "Tests load none offline.",
 ["riscv-elf/src/lib.rs"], [("decoding", "riscv-elf/src/lib.rs")],
 None, "A pure function of one input file read in one call; nothing for a scheduler or fault injector to vary beyond the read itself.")
prop("N04", "Guest programs with precompiles prove and verify end to end",
 "A program executed with precompiles yields a proof the verifier accepts, with the same public values as without precompiles.",
 ["programs", "inputs", "configurations"], "for all programs and inputs", "The integration tests need the proving stack.",
 ["openvm/src/lib.rs", "openvm-riscv/src/lib.rs", "cli-openvm-riscv/src/main.rs"], [("prover integration", "openvm/src")],
 None, "The crates that run the prover do not build in this sandbox (their dependencies are not available offline), so the real code cannot run inside a simulator; P02, P03 and P15 cover the same guarantee at the level of the precompile's constraints.")
