#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    files = list(dict.fromkeys(files))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})


p("S01", "Incremental SAT answers are exact under any call history",
  "After any history of adding formulas, constraints and propositions, satisfiability calls with assumptions or call-local formulas, cancelled calls, optimisations, enumerations and state restores, a solver call reports satisfiable exactly when the conjunction of everything currently added together with that call's assumptions and formulas is satisfiable. "
  "A returned model assigns exactly the requested variables known to the solver and extends to a model of that conjunction. "
  "Assumptions and call-local formulas and propositions have no effect on later calls. The predicates which decide formulas with a solver of their own (satisfiable, tautology, contradiction, implies, equivalent) are exact.",
  ["histories", "configurations", "inputs"],
  "all interleavings of solver operations, all solver configurations (CNF method, at-most clauses, clause minimisation, restart and clause-database limits, proofs on/off) and all points at which an earlier call was cancelled",
  "Tests replay a few fixed add/call sequences with the default low-level limits; restarts, clause-database reduction and cancellation followed by reuse are practically never reached, and learnt state makes the outcome depend on the whole history.",
  ["sat/core.go", "sat/solver.go", "sat/call.go", "sat/encoding_result.go", "sat/pg_on_solver.go"],
  [("CDCL search, propagation, conflict analysis", "sat/core.go search/propagate/analyze"),
   ("call-local formulas via a saved state", "sat/call.go initialize/close"),
   ("clausification on the solver", "sat/pg_on_solver.go, sat/encoding_result.go")],
  [("solver clauses, trail, learnts", "the incremental core state", "sat/core.go CoreSolver"),
   ("assumptions of the call", "restored after the call", "sat/call.go satCall")],
  ["Solver.Call", "Solver.Sat", "CallResult.Model"])

p("S02", "Saving and loading solver states restores exactly that state",
  "Loading a saved state makes the SAT solver answer every later query exactly as if nothing had been added after the state was saved, whatever was added, solved, cancelled or loaded in between, and the state can be loaded repeatedly. "
  "Loading a state which was saved after the currently loaded one, or which was invalidated by loading an earlier one, returns an error and leaves the solver unchanged.",
  ["histories", "configurations"],
  "all nestings of save, add, solve, cancel, load (valid, repeated and stale) on one solver under every configuration",
  "Tests check a handful of linear save/load scenarios on tiny instances; bookkeeping errors show only after deeper nestings or after solving with learning in between.",
  ["sat/solver.go", "sat/core.go", "sat/call.go"],
  [("state stack with validity marks", "sat/core.go saveState/loadState"), ("public wrapper", "sat/solver.go SaveState/LoadState")],
  [("validStates / nextStateID", "which saved states may still be loaded", "sat/core.go")],
  ["Solver.SaveState", "Solver.LoadState", "Solver.Call"])

p("S03", "Unsatisfiable cores are genuine",
  "When a call with core computation is unsatisfiable, every proposition of the returned core is one which was added to the solver (in its current state) or passed to this call as proposition, formula or assumption, or stands for a clause of content that was added without a proposition, and the conjunction of the core's propositions alone is unsatisfiable. "
  "This holds after any incremental history with assumptions, state restores and earlier calls.",
  ["histories", "configurations", "inputs"],
  "all incremental histories with proof generation enabled, all mixes of propositions, assumptions and call-local formulas, all orders of literals",
  "Tests check cores only on a few fixed DIMACS files or propositions; proof bookkeeping across restarts, restores and assumptions depends on the full history.",
  ["sat/proofs.go", "sat/call.go", "sat/core.go", "explanation/unsat_core.go"],
  [("proof recording and DRUP trimming", "sat/core.go pgProof, sat/proofs.go"), ("mapping of original clauses and assumptions to propositions", "sat/proofs.go computeUnsatCore")],
  [("pgProof/pgOriginalClauses", "recorded proof of the current state", "sat/core.go")],
  ["CallResult.UnsatCore"])

p("S04", "Cardinality and PB constraints on a solver mean what they say",
  "Adding a cardinality or pseudo-Boolean constraint to a solver, by any encoding or natively, constrains the constraint's variables to exactly the assignments that satisfy it, alone and combined with all other formulas. "
  "An incremental constraint starts with its own bound and each successful tightening restricts the number of true variables to exactly the new bound, within any interleaving of adding, solving, tightening and state restores.",
  ["histories", "configurations", "inputs"],
  "all constraints over up to about ten variables, all encoder configurations, all histories of tightening steps interleaved with solving and state restores",
  "Tests check model counts for fixed right-hand sides and one direction of tightening; combinations of encoders, several constraints on one solver and restores are not covered.",
  ["encoding/cc_encoding.go", "encoding/cc_incremental_data.go", "encoding/pbc_encoding.go", "sat/solver.go", "sat/core.go"],
  [("encoders writing into a solver result", "encoding/*"), ("at-most clauses in the core", "sat/core.go"), ("incremental data", "encoding/cc_incremental_data.go")],
  [("CCIncrementalData", "current bound and output vector", "encoding/cc_incremental_data.go")],
  ["Solver.AddIncrementalCC", "CCIncrementalData.NewUpperBoundForSolver", "encoding.EncodeCC", "encoding.EncodePBC"])

p("S05", "Backbones are exact and leave the solver usable",
  "A backbone computation that completes reports the formula's satisfiability and, if satisfiable, classifies each requested variable as positive, negative or optional exactly as all models of the solver's current content do, restricted to the requested polarity. "
  "It leaves the solver's content unchanged, also when the computation was cancelled.",
  ["histories", "configurations", "fault_sequences"],
  "all solver histories, variable subsets, backbone sorts and cancellation points",
  "Tests compute backbones on fixed formulas with default settings and do not cancel midway and continue.",
  ["sat/backbone.go", "sat/core.go"],
  [("iterative SAT calls with candidate refinement", "sat/core.go computeBackbone, sat/backbone.go")],
  [("backboneCandidates/backboneMap", "working sets of the computation", "sat/core.go")],
  ["Solver.ComputeBackbone", "Solver.ComputeBackboneWithHandler"])

p("S06", "Optimisation on the solver returns the true optimum",
  "Maximising or minimising the number of satisfied literals on a solver returns a model of the solver's current content whose number of satisfied target literals is the true maximum or minimum, and no model exactly if the content is unsatisfiable; a cancelled computation returns either nothing or a genuine model that is flagged as not optimal. "
  "In every case the solver answers later queries as before.",
  ["histories", "configurations", "fault_sequences"],
  "all solver histories, target literal sets (duplicates, complementary, unknown variables), additional variables and cancellation points",
  "Tests optimise a few fixed formulas; state restoration after cancellation and interaction with earlier learnt clauses are history dependent.",
  ["sat/optimizer_function.go", "sat/solver.go", "encoding/cc_incremental_data.go"],
  [("bound tightening with an incremental constraint inside a saved state", "sat/optimizer_function.go")],
  [("initial state of the optimisation", "restored at the end", "sat/optimizer_function.go")],
  ["Solver.Maximize", "Solver.Minimize", "Solver.MaximizeWithHandler", "Solver.MinimizeWithHandler"])

p("S07", "What a solver reports about its content is true",
  "The formulas a solver reports as its content are, projected to the user's variables, equivalent to the conjunction of everything currently added. "
  "Literals reported as implied at level zero are implied by that content, and the known variables and variable occurrences belong to the current content, in every reachable solver state including after restores and cancellations.",
  ["histories", "configurations"],
  "all solver histories followed by inspection calls",
  "Inspection is tested right after adding one formula, not after search, restarts, learnt units and state restores.",
  ["sat/solver.go", "sat/var_occs.go", "sat/core.go", "sat/call.go"],
  [("reading clauses and level-0 trail back", "sat/solver.go FormulasOnSolver, sat/core.go upZeroLiterals")],
  [("trail at level 0", "unit facts of the solver", "sat/core.go")],
  ["Solver.FormulasOnSolver", "CallResult.UpZeroLits", "Solver.VarOccurrences"])

p("H01", "A computation is reported cancelled exactly if its handler stopped it",
  "Every function that takes a handler reports cancellation if the handler asked to stop at one of its events during that call, and reports success otherwise. "
  "On cancellation it names the event at which the handler stopped it and returns no value that could be mistaken for a complete result; with success its result is the one the function computes without handler.",
  ["fault_sequences", "schedules", "histories"],
  "all cancellation points (every event of every computation, persistent or one-shot handlers, timeouts at arbitrary simulated instants) of all functions with handler",
  "Tests cancel a few functions at hand-picked events; each computation has hundreds of cancellation points and nested sub-computations through which the cancellation must be propagated.",
  ["handler/handler.go", "sat/core.go", "sat/call.go", "sat/optimizer_function.go", "model/iter/iteration.go", "model/enum/enumeration.go", "model/count/dnnf_counting.go", "maxsat/solver.go", "bdd/construction.go", "bdd/bdd.go", "dnnf/compiler.go", "normalform/cnf.go", "primeimplicant/computation.go", "simplification/advanced.go", "simplification/advanced.go", "explanation/mus", "explanation/smus"],
  [("handler state threaded through the call tree", "handler.State in all listed files")],
  (), ["all *WithHandler functions", "sat.CallResult.State"])

p("H02", "Cancelled computations stop promptly and always return",
  "Once a handler has asked a computation to stop, the computation returns, without starting further search work, after at most a small constant number of further handler events, and a handler that keeps refusing never causes it to spin. "
  "Without cancellation every computation returns.",
  ["fault_sequences", "schedules"],
  "all cancellation points of all functions with handler, for handlers that refuse once and handlers that keep refusing",
  "Tests only look at the final state, not at how much work happens after the refusal; each nested computation can swallow the refusal.",
  ["handler/handler.go", "sat/core.go", "model/iter/iteration.go", "maxsat/algorithm.go", "bdd/construction.go", "dnnf/compiler.go", "normalform/cnf.go", "primeimplicant/computation.go"],
  [("early return after a refused event", "all functions with handler")],
  (), ["event stream seen by the handler"])

p("H03", "Timeouts stop computations exactly according to the clock",
  "A timeout with a duration lets a computation run while less than that duration has elapsed since the timeout was created and cancels it at its next event afterwards, whatever jumps the wall clock makes meanwhile. "
  "A timeout with a fixed end cancels at the first event at which the current time lies after that end and never before it (an event exactly at the end is still in time), also when the end has already passed at creation, and a timeout may be reused for several computations sharing the budget.",
  ["schedules", "fault_sequences", "inputs"],
  "all assignments of simulated times to the events of a computation, including wall-clock jumps in both directions, already expired and very long deadlines",
  "Tests use the real clock with generous margins and cannot produce clock jumps or an event exactly at the deadline.",
  ["handler/timeout.go", "handler/handler.go"],
  [("comparison of the clock with the end on every event", "handler/timeout.go ShouldResume")],
  [("end of the timeout", "instant with monotonic part for durations", "handler/timeout.go")],
  ["handler.NewTimeoutWithDuration", "handler.NewTimeoutWithEnd"])

p("H05", "Handlers with a bound stop computations exactly at the bound",
  "A model-limit handler stops an enumeration at the first event at which the models found since its start (without those of undone splits) reach the limit, a BDD node handler when the nodes added since the start reach its bound, a factorisation handler when the distributions or clauses since the start exceed theirs; none of them stops earlier, and each of them can be used for any number of computations, each starting with a full budget. "
  "A computation that stays within the bound returns its complete result; an enumeration stopped by a limit returns only different real models, without splitting at least as many as the limit.",
  ["histories", "configurations", "schedules"],
  "all bounds, formulas, enumeration strategies and sequences of computations with the same handler, also after a computation it stopped",
  "Tests use each handler once with one bound.",
  ["model/iter/handler.go", "bdd/handler.go", "normalform/handler.go", "model/iter/iteration.go"],
  [("reset at the start event, counting, comparison with the bound", "ShouldResume of the three handlers")],
  [("counters of the handler", "per handler, reused over computations", "model/iter/handler.go, bdd/handler.go, normalform/handler.go")],
  ["iter.HandlerWithLimit", "bdd.HandlerWithNodes", "normalform.NewFactorizationHandler"])

p("H04", "Cancelled and interleaved computations leave no trace",
  "A computation that was cancelled at any point leaves the factory, solvers, kernels and caches it used in a state in which every later computation, including the same one repeated, gives the same result as if the cancelled one had never been started. "
  "Computations interleaved at handler events on one factory do not influence each other's results.",
  ["fault_sequences", "schedules", "histories"],
  "all cancellation points and all interleavings at handler events of computations that share a factory, each followed by further use",
  "Tests end after the cancellation; partially filled caches, changed solver phases or leftover constraints only matter for later computations.",
  ["formula/factory.go", "formula/transformation.go", "normalform/cnf.go", "bdd/kernel.go", "sat/solver.go", "sat/call.go", "maxsat/algorithm.go", "model/iter/iteration.go"],
  [("restoring states on cancellation", "sat/call.go, sat/optimizer_function.go, maxsat/algorithm.go, model/iter/iteration.go"), ("caching only complete results", "normalform/*, formula/transformation.go")],
  [("transformation, predicate and function caches", "shared by all computations on a factory", "formula/factory.go")],
  ["results of the following computations"])

p("E01", "Model enumeration yields every projected model exactly once",
  "An enumeration that completes yields each assignment of the requested variables that extends to a model of the solver's content exactly once, each extended to the additional variables by some model, for every split strategy, and the set of models the enumerated BDD represents is that same set. "
  "An enumeration stopped by a handler reports the cancellation, yields only genuine and distinct assignments, and leaves the solver's content unchanged.",
  ["fault_sequences", "configurations", "inputs", "histories"],
  "all formulas and solver histories, projections, additional variables, split strategies and limits, and all cancellation points",
  "Tests enumerate fixed formulas to completion; cancellation inside nested split iterations and rollback of partially collected assignments are not reached.",
  ["model/iter/iteration.go", "model/iter/strategy.go", "model/iter/split.go", "model/enum/enumeration.go", "model/enum/enumeration_bdd.go", "model/enum/normalform.go"],
  [("recursive split iteration with commit and rollback", "model/iter/iteration.go"), ("blocking clauses", "model/iter/iteration.go")],
  [("uncommitted models", "models of the current split that may be rolled back", "model/enum/enumeration.go")],
  ["enum.OnSolver", "enum.OnFormula", "enum.ToBddOnSolver", "enum.CanonicalDNF", "enum.CanonicalCNF"])

p("E02", "Model counting is exact",
  "A model count that completes equals the number of assignments of the given variables that satisfy (or, on a solver, extend to a model of) the formulas, for the general counter, the counters that iterate on a solver or formula, the BDD count and the DNNF count alike. "
  "A cancelled count reports cancellation instead of a number.",
  ["fault_sequences", "configurations", "inputs", "histories"],
  "all formulas, variable supersets, split strategies, cancellation points and repeated counts on shared factories and BDDs",
  "Tests compare counts of fixed formulas once; repetition, cancellation and shared caches decide whether a later count is still right.",
  ["model/count/dnnf_counting.go", "model/count/sat_counting.go", "model/iter/iteration.go", "bdd/operation.go", "dnnf/dnnf.go", "dnnf/compiler.go"],
  [("component decomposition and DNNF counting", "model/count/dnnf_counting.go"), ("counting iteration collector", "model/count")],
  (), ["count.Count", "count.OnSolver", "count.OnFormula", "BDD.ModelCount", "DNNF.ModelCount"])

p("M01", "MaxSAT solving returns the true optimum in every history",
  "A completed MaxSAT solve reports unsatisfiable exactly if the hard formulas are unsatisfiable and otherwise reports the minimal total weight of violated soft formulas with a model that satisfies all hard formulas and violates exactly that weight, for every algorithm and configuration. "
  "This holds for every solve in a history of adding formulas, solving, saving and loading states and cancelled solves; loading an invalidated state is an error.",
  ["histories", "configurations", "fault_sequences", "inputs"],
  "all seven algorithms, their configurations, all weighted and unweighted instances over up to about ten variables, and all histories with cancellation and state restores",
  "Tests solve fixed files once per algorithm; reuse of a solver after solving, restoring and cancelling is tested only on trivial examples.",
  ["maxsat/solver.go", "maxsat/algorithm.go", "maxsat/alg_linear_su.go", "maxsat/alg_linear_us.go", "maxsat/alg_msu3.go", "maxsat/alg_wmsu3.go", "maxsat/alg_wbo.go", "maxsat/alg_incwbo.go", "maxsat/alg_oll.go", "maxsat/enc_*.go"],
  [("core-guided and linear search algorithms", "maxsat/alg_*.go"), ("state stack of the MaxSAT solver", "maxsat/algorithm.go saveState/loadState")],
  [("soft/hard clauses, weights, bounds", "state of the algorithm", "maxsat/algorithm.go")],
  ["Solver.Solve", "Solver.SolveWithHandler", "Solver.SaveState", "Solver.LoadState"])

p("M02", "MaxSAT bound events enclose the optimum",
  "Every lower bound announced to the handler during a MaxSAT computation is at most the optimum, and every upper bound announced is at least the optimum (whenever the hard formulas are satisfiable). "
  "Within one computation announced lower bounds never decrease and upper bounds never increase.",
  ["schedules", "configurations", "inputs", "histories"],
  "all bound events of all algorithms over all instances and histories",
  "Tests look at the final result only; a user who stops at a bound relies on it at that instant.",
  ["maxsat/algorithm.go", "maxsat/event.go", "maxsat/alg_*.go"],
  [("bound bookkeeping", "maxsat/algorithm.go foundLowerBound/foundUpperBound")],
  [("lbCost/ubCost", "bounds announced to the handler", "maxsat/algorithm.go")],
  ["EventMaxSATNewLowerBound", "EventMaxSATNewUpperBound"])

p("B01", "BDD operations are exact through resizing, GC and reordering",
  "Every BDD and every result of a BDD operation, quantification or restriction represents exactly the Boolean function defined by its inputs, and keeps representing it whatever is later built, reordered, swapped or cancelled on the same kernel, including when node-table growth, garbage collection or reordering is triggered in the middle of an operation. "
  "Its queries (model, counts, enumeration, normal forms, support, structure) describe that function.",
  ["histories", "configurations", "fault_sequences"],
  "all histories of compile, operate, quantify, reorder, query and cancelled compile on one kernel with small and large node tables and caches",
  "Tests build BDDs in kernels that are large enough to never collect garbage during an operation and query them immediately.",
  ["bdd/kernel.go", "bdd/construction.go", "bdd/operation.go", "bdd/reordering.go", "bdd/bdd.go", "bdd/function.go", "bdd/cache.go"],
  [("reference counting and mark/sweep collection", "bdd/kernel.go"), ("operation caches reset on GC and reorder", "bdd/cache.go, bdd/kernel.go"), ("sifting and window permutation", "bdd/reordering.go")],
  [("nodes, refstack, caches", "shared state of all BDDs on a kernel", "bdd/kernel.go")],
  ["all methods of bdd.BDD", "Kernel.Reorder", "Kernel.SwapVariables"])

p("B02", "BDDs are canonical and their queries repeatable",
  "On one kernel two BDDs have the same index exactly if they represent the same function, at all times and under every variable order, so that equality, tautology and contradiction checks are decided by the index. "
  "Repeating a query on an unchanged BDD gives the same answer, and values handed out are not changed by later operations.",
  ["histories", "configurations"],
  "all histories on one kernel including reorderings and garbage collections, all repetitions of queries",
  "Tests query each BDD once, in a fresh kernel; canonicity must survive reorganisation of the unique table.",
  ["bdd/kernel.go", "bdd/operation.go", "bdd/bdd.go", "bdd/reordering.go"],
  [("unique table", "bdd/kernel.go makeNode"), ("rehashing", "bdd/kernel.go, bdd/reordering.go")],
  [("hash chains of the unique table", "find existing nodes", "bdd/kernel.go")],
  ["BDD.Index", "BDD.IsTautology", "BDD.ModelCount"])

p("D01", "DNNF compilation is equivalent and well-formed",
  "A completed DNNF compilation yields a formula that is equivalent to its input, deterministic and decomposable, on a shared factory after any history of other (also cancelled) computations. "
  "A cancelled compilation yields nothing.",
  ["inputs", "histories", "fault_sequences"],
  "all formulas over up to about ten variables, all factory histories and all cancellation points",
  "Tests check model counts of fixed formulas on fresh factories.",
  ["dnnf/compiler.go", "dnnf/dnnf.go", "dnnf/dtree.go", "dnnf/dtree_generator.go", "sat/dnnf_solver.go"],
  [("component-wise compilation with caching along a dtree", "dnnf/compiler.go"), ("special SAT solver", "sat/dnnf_solver.go")],
  [("cache of compiled components", "shared between branches of the compilation", "dnnf/compiler.go")],
  ["dnnf.Compile", "dnnf.CompileWithHandler"])

p("F01", "Transformations preserve meaning and shape on a shared factory",
  "Normal forms, simplifications, eliminations and substitutions computed on a factory that has served any other (also cancelled) computations are equivalent to their input (equisatisfiable with the same projected models for Tseitin and Plaisted-Greenbaum, the quantified function for quantifier elimination, the substituted function for substitutions). "
  "Results that promise a syntactic shape (CNF, DNF, NNF, AIG, canonical forms) have that shape, and a handler-limited transformation gives the full result or none.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "all formulas over up to about ten variables, all orders of transformations on one factory with its caches, all transformation configurations and cancellation points",
  "Tests call each transformation on fixed or random formulas with a fresh factory; caches shared between transformations make the result depend on the history.",
  ["normalform/cnf.go", "normalform/cnf.go", "normalform/dnf.go", "normalform/handler.go", "normalform/nnf.go", "normalform/aig.go", "simplification/*.go", "transformation/*.go", "formula/transformation.go"],
  [("transformation caches keyed by sort and formula", "formula/transformation.go"), ("factorisation with handler", "normalform/cnf.go")],
  [("transformation and predicate caches", "memoised results", "formula/factory.go")],
  ["normalform.*", "simplification.*", "transformation.*"])

p("F02", "The factory is canonical and formulas are immutable",
  "On one factory, constructing the same formula again (the same constructor with the same operands in the same order) at any later time gives the identical formula, distinct formulas never coincide, and every constructed formula denotes the function of its construction. "
  "A formula once constructed keeps its operands, meaning, and query answers (variables, literals, printed form, predicates) for ever, whatever other computations use it.",
  ["histories", "schedules"],
  "all histories of constructions and of computations which receive formulas or operand slices of the factory, interleaved at handler events",
  "Tests check identity directly after construction; a computation that modifies a shared operand slice or a cache entry corrupts formulas only for later users.",
  ["formula/factory.go", "formula/function.go", "formula/predicate.go", "sat/solver.go", "encoding/pbc_encoding.go", "normalform/*.go"],
  [("hash consing tables", "formula/factory.go"), ("slices shared between factory and callers", "PBCOps, NaryOperands, Operands")],
  [("operand slices of n-ary formulas and constraints", "returned by reference", "formula/factory.go")],
  ["Factory constructors", "NaryOperands", "PBCOps", "Formula.Sprint", "Variables"])

p("X01", "Minimal explanations are unsatisfiable and minimal",
  "A completed MUS computation returns an unsatisfiable subset of the given propositions from which no single proposition can be removed, and a completed smallest-MUS computation returns one of minimum cardinality relative to the additional constraints, or none exactly if there is none. "
  "A satisfiable input is answered with an error, a cancelled computation with no explanation, and the given propositions are not changed.",
  ["inputs", "fault_sequences", "histories"],
  "all small sets of propositions, both MUS algorithms and the SMUS algorithm, all cancellation points, on factories with arbitrary history",
  "Tests compute MUSes of fixed instances without cancelling and rarely check minimality independently.",
  ["explanation/mus/mus.go", "explanation/smus/smus.go"],
  [("deletion and insertion based extraction", "explanation/mus"), ("hitting-set duality with an optimisation solver", "explanation/smus")],
  (), ["mus.ComputeInsertionBased", "mus.ComputeDeletionBased", "smus.Compute", "smus.ComputeForFormulas"])

p("X02", "Prime covers and minimum implicants are what they claim",
  "A completed prime-cover computation returns only prime implicants and prime implicates of the formula, the side that is promised complete covers the formula exactly, and the disjunction (conjunction) is equivalent to it; a minimum prime implicant is an implicant of minimum length. "
  "A two-level minimisation is equivalent to its input, and a cancelled computation returns no cover.",
  ["inputs", "fault_sequences", "configurations", "histories"],
  "all formulas over up to about eight variables, both cover types and sorts, all cancellation points, on shared factories",
  "Tests check fixed formulas; primality and coverage are not checked independently of the solver under test.",
  ["primeimplicant/computation.go", "primeimplicant/computation.go", "primeimplicant/minimum_implicant.go", "simplification/advanced.go", "np/set_cover.go"],
  [("implicant search by optimisation and reduction", "primeimplicant/computation.go, primeimplicant/computation.go")],
  (), ["primeimplicant.CoverMin", "primeimplicant.CoverMax", "primeimplicant.Minimum", "simplification.QMC"])

p("R01", "Readers return the file's content or an error, never a part of it",
  "Reading a formula file, a DIMACS CNF file or a MaxSAT DIMACS file returns without error only if the complete content was read and is exactly what the file means, however the reads are split or delayed. "
  "If opening or reading fails at any point, or the content is malformed so that it has no meaning, an error is returned; the reader never panics and never returns or keeps a silently truncated problem as complete. A file it opened itself is closed again in every case.",
  ["fault_sequences", "inputs"],
  "all contents (valid files, truncations and corruptions) and all failures, short reads and interruptions at every read call",
  "Tests read intact files from a healthy disk; I/O errors and short reads cannot be produced there.",
  ["io/formula_reader.go", "io/dimacs_reader.go", "maxsat/reader.go"],
  [("scanner loops and their error checks", "io/formula_reader.go, io/dimacs_reader.go, maxsat/reader.go")],
  (), ["io.ReadFormula", "io.ReadFormulas", "io.ReadDimacs", "maxsat.ReadDimacsToSolver"])

p("W01", "Writers report every failure and otherwise write the whole content",
  "A writer that reports no error has delivered the complete content to the file or stream, and reading it back with a healthy reader gives an equivalent formula (identical variables and clauses for DIMACS), whatever short or delayed writes occurred. "
  "If opening, any write or the final close fails, an error is returned.",
  ["fault_sequences", "inputs"],
  "all formulas and all failures (disk full, I/O error, short and torn writes, failing close) at every write call of every writer",
  "Tests write to a healthy disk; a full disk or a failing close cannot be produced there.",
  ["io/formula_writer.go", "io/dimacs_writer.go", "graphical/dot_writer.go", "graphical/mermaid_writer.go"],
  [("error propagation from writes and close", "io/*_writer.go, graphical/*_writer.go")],
  (), ["io.WriteFormula", "io.WriteDimacs", "graphical.WriteDotToFile", "graphical.WriteMermaidToFile"])

p("N01", "Seeded randomness is reproducible",
  "Two formula randomizers created with the same seed and configuration produce the same formulas call by call, in any process, whatever other computations are interleaved and whatever order maps iterate in. "
  "Produced formulas respect the configured variables, depth and sorts.",
  ["schedules", "histories", "configurations"],
  "all seeds, configurations, call sequences and interleavings, and all runtime random states",
  "Tests compare two generators in one process with one runtime random state.",
  ["randomizer/formula_randomizer.go", "randomizer/formula_randomizer.go"],
  [("own random source seeded once", "randomizer/formula_randomizer.go")],
  [("random source", "per randomizer", "randomizer/formula_randomizer.go")],
  ["randomizer.New", "randomizer.NewWithSeed"])

p("N02", "Results do not depend on the runtime's randomness",
  "Verdicts, counts, optima, backbones, cover sizes and the meaning of all returned formulas are the same under every map iteration order and every state of the runtime's random source. "
  "Minimum set covers are covers of minimum size in every such execution.",
  ["schedules", "inputs"],
  "all map iteration orders (seeds of the runtime's randomness) of all computations that iterate over maps",
  "A test observes one random iteration order per execution and cannot repeat it.",
  ["np/set_cover.go", "graph/*.go", "dnnf/*.go", "model/count/dnnf_counting.go", "transformation/*.go", "simplification/*.go", "primeimplicant/*.go", "explanation/smus/smus.go", "model/iter/*.go"],
  [("order-independent algorithms or sorted iteration", "packages listed")],
  (), ["np.MinimumSetCover", "all listed results"])

p("P01", "Parsing and printing round-trip",
  "Parsing the printed form of any formula on the same factory yields the identical formula, parsing accepts exactly the documented grammar and respects its precedences, and malformed text is answered with an error by the checked parser.",
  ["inputs"], "all formulas and all strings",
  "Tests parse a fixed list of strings.",
  ["parser/propositional_parser.go", "parser/propositional_parser.go", "formula/printer.go"],
  [("generated parser", "parser/")], (), ["parser.Parse", "Formula.Sprint"])

p("G01", "Assignments, restriction and graph algorithms are exact",
  "Evaluating or restricting a formula under an assignment gives the value or residual function the semantics define, and constraint graphs and connected components link exactly the variables that occur together.",
  ["inputs"], "all formulas and assignments",
  "Tests sample fixed formulas.",
  ["assignment/*.go", "graph/*.go"],
  [("recursive evaluation", "assignment/"), ("graph construction", "graph/")], (), ["assignment.Evaluate", "assignment.Restrict", "graph.ComputeConnectedComponents"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as fh:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        fh.write(json.dumps(x) + "\n")
print(len(P), "properties")
