# Per property: how it is decided (the statement is in properties.jsonl).
D = {}
D["P01"] = """* Simulated: a block (RISC-V subset, or a block of a zkVM whose instruction set was drawn at random) and a
  profile are built two or three times, each in another environment: hash keys, clock (jumps, stalls), pool size,
  preemption at allocations / log events / metrics, all from the tape.
* Oracle: byte equality of the serialized precompiles (or of the error).
* Bounds and cost: blocks of up to 5 (thorough 10) instructions; about 3500 runs in 65 s.
* Beyond tests: a test process has one set of hash keys and compares with itself."""
D["P02"] = """* Simulated: executions of the block over random access histories, optionally a profiler that learns from some
  of them, the real builder in a drawn environment, the trace writer (substitutions, then derived columns).
* Oracle: the row verifier accepts the filled row; its net effect on the stateful buses equals that of the
  original instruction rows, which in turn are checked against the original AIRs in every run.
* One block in twelve is RISC-V; the others use instruction AIRs grown from the gadgets of P14 (own columns per
  instruction, operands fixed by the program lookup, jumps between blocks), which are ~50 times faster to build and
  have shapes the RISC-V AIRs do not have. About 10,000 builds in 65 s.
* Beyond tests: snapshot tests never run an execution through a precompile."""
D["P03"] = """* Simulated: a Byzantine prover. From honest rows it tampers cells (other roots of constraints, wrap-arounds,
  bits, copies of other cells, bytes for memory limbs, nearby times for access times), then repairs violated
  constraints and lookups by local search, and climbs from accepted forgeries.
* Oracle: an accepted row must start in a possible state (bytes in memory, times in range, each cell once) and
  have exactly the effect the reference interpreter (or the reference semantics of the drawn instructions, over
  all their nondeterministic choices) computes from that state; or no effect.
* About 10,000 builds and 1.7 million forging attempts in 75 s, a third of which end in an accepted row that is judged.
* Limits: sampling; a hole that needs a simultaneous change the local search does not find is missed."""
D["P04"] = """* Simulated: an executor with up to several tracked candidates; starts, steps, aborts by failing conditions,
  segment cuts, extractions and restarts interleaved from the tape. Oracle: an executable reference model of the
  tracker, compared after every operation. About 100,000 histories in 12 s."""
D["P05"] = """* Simulated: condition sets (literals about pc, registers and limbs at several steps) stepped through executions;
  crash and reload (serialize / deserialize) at drawn points, several evaluators sharing a set, hash keys from the
  tape. Oracle: direct evaluation of the recorded history."""
D["P06"] = """* Simulated: profiling shards merged in drawn order and grouping, on the simulated pool (the chunked parallel
  path starts at dozens of partitions), with stored and reloaded partial results. Oracle: label vectors computed
  directly from all observations; block view, filter and threshold recomputed from the definition."""
D["P07"] = """* Simulated: random programs run as random walks; block collection and superblock detection on the simulated
  pool under several environments. Oracle: the definition evaluated on the recorded history; equality across environments."""
D["P08"] = """* Simulated: profiled walks, candidates built in parallel on the simulated pool, blocks that fail to build.
  Oracle: each choice judged against the definition over the part of the history not covered by earlier choices;
  equality across environments. Ties in density may be broken in any way, but in the same way everywhere."""
D["P09"] = """* Simulated: records of calls with uniquely numbered cells, rows assembled on the simulated pool. Oracle: each
  cell compared with the record it has to come from."""
D["P10"] = """* Simulated: threads that profile, nest profiles and log, interleaved at every event. Oracle: the executed history."""
D["P11"] = """* Simulated: builds that export at every level through the interposed file system: EIO/ENOSPC/EACCES at the n-th
  operation, short and interrupted writes, disk full from a byte on, crash with torn write, left-over files.
  Oracle: what was built is unchanged; success implies all files present, parseable and equal to what was built;
  failure is visible; a repeated build after recovery yields the complete files."""
D["P12"] = """* Simulated: storing field-element columns and witness values (CSV and CBOR) and reading them back through streams and
  files that deliver short reads and writes, EINTR, errors at the n-th operation, full disks, torn writes and
  truncated files. Oracle: what was stored is read back exactly, or an error (or panic) is visible; never other values."""
D["P13"] = """* Simulated: a client of the solver with a drawn history of additions, solves, queries and forgetting, over
  systems grown from gadgets. Oracle: every claim evaluated on honest executions and on Byzantine assignments of
  the part told so far (found by the forger of P03); satisfiable systems must not be refused."""
D["P14"] = """* Simulated: machines grown from 29 kinds of gadgets (bits, selections, carries, xor, one-hot, is-zero,
  comparisons, conditional lookups and accesses, redundant and scaled constraints...), each with reference
  semantics: a machine's columns are computed from what it receives and from free choices. Oracle: executions
  accepted with the same effect; accepted forged rows must match one of the executions over all free choices."""
D["P15"] = """* Simulated: padding rows, and a Byzantine prover that marks a row unused and repairs the rest. Oracle: zero row
  accepted; every accepted unused row has multiplicity 0 in every interaction."""
D["P16"] = """* Simulated: blocks and degree bounds through the real builder in drawn environments. Oracle: degree of every
  expression as written (sum: max, product: sum)."""
D["P17"] = """* Simulated: the whole pipeline on one program: profile, collect and detect blocks, select and build (two
  parties, separate environments), store and reload, execute with candidate tracking and segment cuts, fill traces
  with the real trace handler. Oracle: calls judged against the executed history; all rows accepted; the sum of
  bus messages over the whole execution is that of the plain execution."""
D["P18"] = """* Simulated: executions of a block; the real builder's map from columns to run-time literals; the real
  evaluator of run-time conditions stepping through the executor's states. Oracle: in every execution the value of
  the column is the value of the literal at its step, and the generated conditions hold exactly for the executions
  that satisfy the learned constraints they stand for."""
FALSE_ALARMS = """Alarms that turned out to be the harness's fault, and what was corrected:

* the simulated pool lost a wake-up of the root task, which looked like a deadlock of the code under test;
* the small AIRs used for selection (vm/tiny.rs) allowed only fall-through, so blocks ending in jumps were refused;
* drawn machines ordered two accesses to one cell by column order instead of time;
* a reference `xor` of values that are not bytes was not reduced modulo the field's prime (harness panic);
* P13 demanded that a column be reported as assigned at most once; with promised ranges the solver may legitimately
  repeat itself, so this is only demanded in histories without promises;
* the forger produced a cell outside the field (harness panic);
* P12 compared machines by their printed form, where a field's second representation of zero looked like a difference;
* P18 was given a degree bound below the degree of the instruction's own AIR, where no build is promised;
* P18 read a literal of an address that an instruction touches more than once while another of its accesses is
  conditional: which of the accesses a run performs is then not fixed by the record, and the comparison is skipped."""
