WALK = " Decided by an abstract interpretation of every exported entry point over the SSA form, inlining all repository callees (interface calls by class hierarchy), with the set of locks held, the memory regions reached and the critical section of every access as its state; all paths are covered, joined only after calls. Trusted: go/types and go/ssa, the models of sync, container/heap and the third-party queues, no unsafe or reflection."
claim("P01", "interprocedural lockset analysis over SSA, with goroutine spawn/join tracking", "Every access to a shared field that any operation changes holds the owning object's lock (exclusive for writes) on every path." + WALK)
claim("P02", "interprocedural lock typestate analysis over SSA", "No path acquires a lock it may hold, releases one it does not, or returns with a different set of locks than it was entered with." + WALK)
claim("P03", "critical-section dataflow over SSA: the sections in which each result-relevant read and each write happens", "Every query reads an object's changing state in one critical section, and every mutator changes it in one." + WALK)
claim("P04", "interprocedural effect analysis over SSA: writes reaching package-level state", "No exported entry point writes memory reachable from a package-level variable." + WALK)
claim("P05", "interprocedural region/escape analysis over SSA", "No path writes memory reachable from a caller's slice, map or config, none stores such memory in an object, and results do not alias internal state." + WALK)
claim("P33", "interprocedural effect analysis over SSA: writes reaching the receiver in query methods", "No query method writes memory reachable from its receiver." + WALK)

REF = (" Each function is brought to a value graph that covers all its paths: every result, error, panic condition and "
  "final memory cell as a term over its inputs, with branches as choices, loops as closed forms or summaries matched by induction over aligned states, "
  "and callees inlined or taken by their own equality; it is then compared with the value graph of the property's reference function in /verif/spec, modulo "
  "real arithmetic, reordering of independent effects, extraction and inlining of helpers and renaming of unexported members. A difference is reported "
  "only when it is definite (the two terms differ under a satisfiable condition that no unmatched part can repair); loops without a summary are compared "
  "up to a bound, and what cannot be brought to a comparable form is printed as UNDECIDED and listed in the evidence, not reported. Trusted: go/types and "
  "go/ssa, the reference program, floats as reals, the models of the ring buffer, the deque, container/heap, multierror and math.")
RT = "semantic equivalence by value graphs: SSA of every function normalised to terms on all paths and compared with a reference program"
def ref(id, text): claim(id, RT, text + REF)
ref("P06", "Push, Clear, eviction and queue construction of every windowed metric keep exactly the queue discipline of the reference: get when full, undo, put.")
ref("P07", "Which pushes fail, and what a failing push leaves in memory, equals the reference, in which every check precedes every change.")
ref("P08", "In every function, the condition under which an error is returned covers the one of the reference, which returns every inner error.")
ref("P09", "The conditions for errors and panics of every push, query and clear equal the reference's, which has no panic and an error for each unset, empty or out-of-domain case.")
ref("P10", "The validators, constructors and options accept exactly the reference's conditions, and store exactly what they accept.")
ref("P11", "The final memory of every Clear equals the reference's.")
ref("P12", "The config each metric declares, what its core wiring sets and which sums its value reads equal the reference's.")
ref("P13", "The values of the univariate metrics and queries equal the documented formulas as real-valued terms.")
ref("P14", "The final count, mean and power sums of add, addDecay and remove equal the reference's recurrences for every power.")
ref("P15", "The values of the joint metrics and queries equal the documented formulas as real-valued terms.")
ref("P16", "The final count, means and joint sums of add, addDecay and remove, and the tuple iteration they use, equal the reference's.")
ref("P17", "Add, remove, rotations and balancing of both trees leave exactly the reference's tree.")
ref("P18", "The sizes, heights, colors and shape that every tree operation leaves equal the reference's.")
ref("P19", "Rank and Select of all implementations, and the size and width updates they rest on, equal the reference's.")
ref("P20", "The links, widths and length that every skip list operation leaves equal the reference's.")
ref("P21", "The heap identity and position that every heap operation records equal the reference's.")
ref("P22", "Push, rebalance, eviction, clear and value of the heap median equal the reference's.")
ref("P23", "The quantile, median and interquartile range values equal the documented interpolation as real-valued terms.")
claim("P24", "goroutine spawn/join typestate over SSA and value-graph comparison with a reference program", "Every goroutine an aggregate starts is waited for on every path, and its results are collected under the lock; what is pushed, cleared and collected per metric, and which errors are reported, equals the reference." + REF)
ref("P25", "The deque that every Push leaves and the value reported equal the reference's monotonic deque.")
ref("P26", "The string every metric forms equals the reference's format over the same parameters.")
ref("P28", "Every NewGlobal constructor leaves the same object as the reference's, which is the windowed constructor with window 0.")
ref("P29", "Push, Sample and Clear of the reservoir equal the reference's reservoir rule for every draw of the random index.")
ref("P30", "The merged config, the conditions for failure and the untouched inputs equal the reference's.")
claim("P27", "interprocedural reachability of ambient sources and order-dependence dataflow over SSA loops and goroutines", "No exported entry point outside the reservoir's and the skip list's drawing reaches the clock, a global random source or the environment; no loop over a map (or over a slice filled from one) reads what another iteration changes, lets the last iteration decide a value, accumulates floating point values or keeps a slice unsorted; no goroutine appends or accumulates results in completion order. Patterns outside these rules are printed as UNDECIDED. Trusted: go/types, go/ssa, the list of ambient sources.")
claim("P31", "type-system check of method sets, and interprocedural type-flow of container payloads to type assertions over SSA", "Every documented type implements its documented interface by go/types' rules, every documented interface requires its documented methods, and for every unchecked type assertion every concrete type that flows there, through the ring buffers, the deque and container/heap, satisfies it. Trusted: go/types, go/ssa, the table of documented interfaces.")
