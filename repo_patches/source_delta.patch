From 960abead487d04bd496a97abe5a39ef8162a897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 01/38] fix: reset reused slices in the cardinality network
 encoding

The builtin clear zeroes the elements of a slice but keeps its length, so
clauses of the direct sorter contained literals of earlier clauses (as the
zero literal), which made the encoded constraint unsound on a solver.
---
 encoding/cc_cardinality_network.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/encoding/cc_cardinality_network.go b/encoding/cc_cardinality_network.go
index ac60705..e97e9ff 100644
--- a/encoding/cc_cardinality_network.go
+++ b/encoding/cc_cardinality_network.go
@@ -116,22 +116,22 @@ func directSorterValue(n int) int {
 
 func sort(m int, input, output *[]f.Literal, result Result, direction dir) {
 	if m == 0 {
-		clear(*output)
+		*output = (*output)[:0]
 		return
 	}
 	n := len(*input)
 	m2 := min(m, n)
 	if n == 0 {
-		clear(*output)
+		*output = (*output)[:0]
 		return
 	}
 	if n == 1 {
-		clear(*output)
+		*output = (*output)[:0]
 		*output = append(*output, (*input)[0])
 		return
 	}
 	if n == 2 {
-		clear(*output)
+		*output = (*output)[:0]
 		o1 := result.NewAuxVar(f.AuxCC).AsLiteral()
 		if m2 == 2 {
 			o2 := result.NewAuxVar(f.AuxCC).AsLiteral()
@@ -181,7 +181,7 @@ func comparator4(x1, x2, y1, y2 f.Literal, result Result, direction dir) {
 }
 
 func recursiveSorter(m int, input, output *[]f.Literal, result Result, direction dir) {
-	clear(*output)
+	*output = (*output)[:0]
 	n := len(*input)
 	l := n / 2
 	tmpLitsA := make([]f.Literal, l)
@@ -228,7 +228,7 @@ func counterSorter(k int, x, output *[]f.Literal, result Result, direction dir)
 			}
 		}
 	}
-	clear(*output)
+	*output = (*output)[:0]
 	for i := range k {
 		*output = append(*output, auxVars[n-1][i])
 	}
@@ -238,13 +238,13 @@ func directSorter(m int, input, output *[]f.Literal, result Result) {
 	n := len(*input)
 	bitmask := 1
 	clause := make([]f.Literal, 0)
-	clear(*output)
+	*output = (*output)[:0]
 	for range m {
 		*output = append(*output, result.NewAuxVar(f.AuxCC).AsLiteral())
 	}
 	for bitmask < int(math.Pow(2, float64(n))) {
 		count := 0
-		clear(clause)
+		clause = clause[:0]
 		for i := range n {
 			if ((1 << i) & bitmask) != 0 {
 				count++
@@ -264,7 +264,7 @@ func directSorter(m int, input, output *[]f.Literal, result Result) {
 
 func merge(m int, inputA, inputB, output *[]f.Literal, result Result, direction dir) {
 	if m == 0 {
-		clear(*output)
+		*output = (*output)[:0]
 		return
 	}
 	a := len(*inputA)
@@ -289,7 +289,7 @@ func merge(m int, inputA, inputB, output *[]f.Literal, result Result, direction
 func recursiveMerger(
 	c int, inputA *[]f.Literal, a int, inputB *[]f.Literal, b int, result Result, output *[]f.Literal, direction dir,
 ) {
-	clear(*output)
+	*output = (*output)[:0]
 	a2 := a
 	b2 := b
 	if a2 > c {
-- 
2.43.0


From bcbd2fe08648cc05372ead9a7b6bc6d93c5eb636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 02/38] fix: stop the SAT search when the handler cancels it

CoreSolver.Solve discarded the handler state of the search and searched on
after a cancellation; the pending conflict was ignored, which could even
yield a wrong model.
---
 sat/core.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/sat/core.go b/sat/core.go
index df4873e..f5fb0ac 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -394,7 +394,12 @@ func (m *CoreSolver) Solve(hdl handler.Handler) (f.Tristate, handler.State) {
 	}
 	status := f.TristateUndef
 	for status == f.TristateUndef {
-		status, _ = m.search(hdl)
+		var state handler.State
+		status, state = m.search(hdl)
+		if !state.Success {
+			m.cancelUntil(0)
+			return f.TristateFalse, state
+		}
 	}
 
 	if m.config.ProofGeneration && len(m.assumptions) == 0 {
@@ -437,6 +442,13 @@ func (m *CoreSolver) search(hdl handler.Handler) (f.Tristate, handler.State) {
 		confl := m.propagate()
 		if confl != nil {
 			if e := event.SatConflictDetected; !hdl.ShouldResume(e) {
+				if m.decisionLevel() == 0 {
+					// the conflict was already propagated and would not be found again
+					m.ok = false
+					if m.config.ProofGeneration {
+						m.pgProof = append(m.pgProof, []int32{0})
+					}
+				}
 				return f.TristateUndef, handler.Cancelation(e)
 			}
 			m.conflicts++
-- 
2.43.0


From 735c5bde68cd70d03a96a5036cfe93bcb1ce5dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 03/38] fix: keep assumption propositions aligned with their
 literals

The assumption literals were sorted (in place, also reordering the operands
stored in the factory when a constraint was added natively) but their
propositions were not, so unsat cores contained the wrong propositions.
---
 sat/call.go   | 14 ++++++++++++--
 sat/solver.go |  1 +
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/sat/call.go b/sat/call.go
index b496e1e..44130f0 100644
--- a/sat/call.go
+++ b/sat/call.go
@@ -1,6 +1,9 @@
 package sat
 
 import (
+	"cmp"
+	"slices"
+
 	"github.com/booleworks/logicng-go/errorx"
 	"github.com/booleworks/logicng-go/explanation"
 	f "github.com/booleworks/logicng-go/formula"
@@ -257,17 +260,24 @@ func initCall(solver *Solver, hdl handler.Handler, addProps []f.Proposition) *ca
 }
 
 func splitPropsIntoLitsAndFormulas(additionalPropositions []f.Proposition) additionals {
-	var lits []f.Literal
 	var propsForLits []f.Proposition
 	var props []f.Proposition
 	for _, prop := range additionalPropositions {
 		if prop.Formula().Sort() == f.SortLiteral {
-			lits = append(lits, f.Literal(prop.Formula()))
 			propsForLits = append(propsForLits, prop)
 		} else {
 			props = append(props, prop)
 		}
 	}
+	// the assumption literals are sorted on the solver, the propositions must
+	// have the same order
+	slices.SortStableFunc(propsForLits, func(p, q f.Proposition) int {
+		return cmp.Compare(p.Formula(), q.Formula())
+	})
+	lits := make([]f.Literal, len(propsForLits))
+	for i, prop := range propsForLits {
+		lits[i] = f.Literal(prop.Formula())
+	}
 	return additionals{lits, propsForLits, props}
 }
 
diff --git a/sat/solver.go b/sat/solver.go
index a3f64ae..29899f8 100644
--- a/sat/solver.go
+++ b/sat/solver.go
@@ -147,6 +147,7 @@ func (s *Solver) addClause(formula f.Formula, proposition f.Proposition) {
 
 func (s *Solver) generateClauseVector(literals []f.Literal) []int32 {
 	clause := make([]int32, len(literals))
+	literals = slices.Clone(literals)
 	slices.Sort(literals)
 	for i, lit := range literals {
 		_, phase, _ := s.fac.LitNamePhase(lit)
-- 
2.43.0


From 7d79d2fd1cfd3812ca515e956ef3649be8d34841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 04/38] fix: backbone computation on a solver with proof
 generation

SolveWithAssumptions had no propositions for its assumptions (index out of
range) and would have left the assumptions among the original clauses.
---
 sat/core.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sat/core.go b/sat/core.go
index f5fb0ac..2404f5f 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -429,6 +429,14 @@ func (m *CoreSolver) SolveWithAssumptions(
 	hdl handler.Handler, assumptions []int32,
 ) (res f.Tristate, state handler.State) {
 	m.assumptions = assumptions
+	if m.config.ProofGeneration {
+		m.assumptionProps = make([]f.Proposition, len(assumptions))
+		originalClauses := len(m.pgOriginalClauses)
+		defer func() {
+			m.assumptionProps = []f.Proposition{}
+			shrinkTo(&m.pgOriginalClauses, originalClauses)
+		}()
+	}
 	res, state = m.Solve(hdl)
 	m.assumptions = []int32{}
 	return
-- 
2.43.0


From f3072677ee0054c2ad24ec7a410ff49076ae2bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:29 +0000
Subject: [PATCH 05/38] fix: terminate the proof of an unsatisfiable call with
 assumptions

Without the final empty clause the DRUP check read beyond the proof (panic)
or reported learnt clauses as part of the core.
---
 sat/unsat_core.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sat/unsat_core.go b/sat/unsat_core.go
index 627c096..d5ce10c 100644
--- a/sat/unsat_core.go
+++ b/sat/unsat_core.go
@@ -28,7 +28,12 @@ func (s *Solver) computeUnsatCore() *e.UnsatCore {
 		return e.NewUnsatCore([]f.Proposition{emptyClause}, true)
 	}
 
-	result := drupCompute(&clauses, &s.core.pgProof)
+	// the proof of a call with assumptions is not terminated by an empty clause
+	proof := s.core.pgProof
+	if len(proof) == 0 || !slices.Equal(proof[len(proof)-1], []int32{0}) {
+		proof = append(slices.Clone(proof), []int32{0})
+	}
+	result := drupCompute(&clauses, &proof)
 
 	if result.trivialUnsat {
 		return handleTrivialCase(s)
-- 
2.43.0


From e19c681ca2614306e3f2c5ba0af9da95814ef1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 06/38] fix: reset variable levels when the SAT solver
 backtracks completely

---
 sat/core.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sat/core.go b/sat/core.go
index 2404f5f..bf656a9 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -633,6 +633,7 @@ func (m *CoreSolver) completeBacktrack() {
 	for v := 0; v < len(m.vars); v++ {
 		vari := m.vars[v]
 		vari.assignment = f.TristateUndef
+		vari.level = -1
 		vari.reason = nil
 		if !m.orderHeap.inHeap(int32(v)) && vari.decision {
 			m.orderHeap.insert(int32(v))
-- 
2.43.0


From 2768b809faac53dd3444d9dba5414de464d81bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:26 +0000
Subject: [PATCH 07/38] fix: report cancellation in model iteration and restore
 the solver state

---
 model/iter/iteration.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/model/iter/iteration.go b/model/iter/iteration.go
index dc06f08..3bf4392 100644
--- a/model/iter/iteration.go
+++ b/model/iter/iteration.go
@@ -51,7 +51,7 @@ func (m *ModelIterator[R]) Iterate(
 		return emptyElement, handler.Cancelation(e)
 	}
 	knownVariables := solver.CoreSolver().KnownVariables(solver.Factory())
-	additionalVarsNotOnSolver := difference(m.additionalVars, knownVariables)
+	additionalVarsNotOnSolver := difference(difference(m.additionalVars, knownVariables), m.vars)
 	dontCareVariablesNotOnSolver := difference(m.vars, knownVariables)
 	collector := newCollector(solver.Factory(), knownVariables, dontCareVariablesNotOnSolver, additionalVarsNotOnSolver)
 	initialSplitVars := f.NewMutableVarSet()
@@ -75,6 +75,10 @@ func (m *ModelIterator[R]) iterRecursive(
 	solver.Add(f.LiteralsAsFormulas(splitModel)...)
 	iterFinished, iterState := iterate(collector, solver, iterVars, m.additionalVars, maxModelsForIter, m.hdl)
 	if !iterState.Success {
+		err := solver.LoadState(state)
+		if err != nil {
+			panic(err)
+		}
 		collector.Commit(m.hdl)
 		return iterState
 	}
@@ -127,7 +131,14 @@ func (m *ModelIterator[R]) iterRecursive(
 			recursiveSplitAssignment := make([]f.Literal, newSplitAssignment.Size())
 			copy(recursiveSplitAssignment, newSplitAssignment.Literals)
 			recursiveSplitAssignment = append(recursiveSplitAssignment, splitModel...)
-			m.iterRecursive(collector, solver, recursiveSplitAssignment, iterVars, recursiveSplitVars, recursionDepth+1)
+			recState := m.iterRecursive(collector, solver, recursiveSplitAssignment, iterVars, recursiveSplitVars, recursionDepth+1)
+			if !recState.Success {
+				err := solver.LoadState(state)
+				if err != nil {
+					panic(err)
+				}
+				return recState
+			}
 			if s := collector.Commit(m.hdl); !s.Success {
 				err := solver.LoadState(state)
 				if err != nil {
@@ -166,7 +177,11 @@ func iterate[R any](
 
 	foundModels := 0
 	state := handler.Success()
-	for iterSATCall(solver, hdl) {
+	for {
+		var sat bool
+		if sat, state = iterSATCall(solver, hdl); !sat {
+			break
+		}
 		modelFromSolver := solver.CoreSolver().Model()
 		foundModels++
 		if foundModels >= maxModels {
@@ -194,9 +209,9 @@ func iterate[R any](
 	return true, succ
 }
 
-func iterSATCall(solver *sat.Solver, hdl handler.Handler) bool {
+func iterSATCall(solver *sat.Solver, hdl handler.Handler) (bool, handler.State) {
 	sResult := solver.Call(sat.Params().Handler(hdl))
-	return sResult.OK() && sResult.Sat()
+	return sResult.OK() && sResult.Sat(), sResult.State()
 }
 
 func generateBlockingClause(modelFromSolver []bool, relevantVars []int32) []int32 {
-- 
2.43.0


From de55bf260be640e0626f85df1c959964e8b1e723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:26 +0000
Subject: [PATCH 08/38] fix: keep additional variables out of the split
 assignments

---
 model/enum/enumeration.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/model/enum/enumeration.go b/model/enum/enumeration.go
index 9ea035d..5b014c9 100644
--- a/model/enum/enumeration.go
+++ b/model/enum/enumeration.go
@@ -97,9 +97,7 @@ func (c *modelEnumCollector) AddModel(
 ) handler.State {
 	e := iter.EventIteratorFoundModels{NumberOfModels: len(c.baseModels)}
 	mdl := solver.CoreSolver().CreateModel(solver.Factory(), modelFromSolver, relevantAllIndices)
-	modelLiterals := c.additionalVariablesNotOnSolver.Content()
-	modelLiterals = append(modelLiterals, mdl.Literals...)
-	c.uncommittedModels = append(c.uncommittedModels, modelLiterals)
+	c.uncommittedModels = append(c.uncommittedModels, mdl.Literals)
 	if !hdl.ShouldResume(e) {
 		return handler.Cancelation(e)
 	}
@@ -137,11 +135,13 @@ func (c *modelEnumCollector) Result() []*model.Model {
 }
 
 func (c *modelEnumCollector) expandUncommittedModels() []*model.Model {
+	additionalLits := c.additionalVariablesNotOnSolver.Content()
 	expanded := make([]*model.Model, 0, len(c.baseModels))
 	for _, baseModel := range c.baseModels {
 		for _, uncommittedModel := range c.uncommittedModels {
-			completeModel := make([]f.Literal, 0, len(baseModel)+len(uncommittedModel))
+			completeModel := make([]f.Literal, 0, len(baseModel)+len(additionalLits)+len(uncommittedModel))
 			completeModel = append(completeModel, baseModel...)
+			completeModel = append(completeModel, additionalLits...)
 			completeModel = append(completeModel, uncommittedModel...)
 			expanded = append(expanded, model.New(completeModel...))
 		}
-- 
2.43.0


From e2cdf55c5382e6a9bb6ab489e893857ad63e6708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:26 +0000
Subject: [PATCH 09/38] fix: more decision levels than variables in the LBD
 computation

---
 sat/core.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sat/core.go b/sat/core.go
index bf656a9..9b2aea1 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -1037,6 +1037,10 @@ func (m *CoreSolver) computeLBD(lits *[]int32) int {
 	m.myflag++
 	for i := 0; i < len(*lits); i++ {
 		l := m.v((*lits)[i]).level
+		for l >= len(m.permDiff) {
+			// repeated assumptions can lead to more decision levels than variables
+			m.permDiff = append(m.permDiff, 0)
+		}
 		if m.permDiff[l] != m.myflag {
 			m.permDiff[l] = m.myflag
 			nbLevels++
-- 
2.43.0


From 85435e12c924d5305651161cef8a3dc774c98ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:47 +0000
Subject: [PATCH 10/38] fix: proof checker and clauses with duplicate literals

---
 sat/core.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sat/core.go b/sat/core.go
index 9b2aea1..18bab50 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -264,6 +264,9 @@ func (m *CoreSolver) AddClause(ps []int32, proposition f.Proposition) bool {
 		for i, p := range ps {
 			slice[i] = (Vari(p) + 1) * (-2*signAsInt(p) + 1)
 		}
+		// the proof checker cannot handle duplicate literals in a clause
+		slices.Sort(slice)
+		slice = slices.Compact(slice)
 		m.pgOriginalClauses = append(m.pgOriginalClauses, proofInformation{slice, proposition})
 	}
 	if !m.ok {
@@ -300,6 +303,7 @@ func (m *CoreSolver) AddClause(ps []int32, proposition f.Proposition) bool {
 	}
 
 	if flag {
+		oc = slices.Compact(oc)
 		slice := make([]int32, len(ps)+1)
 		slice[0] = 1
 		for i := 0; i < len(ps); i++ {
-- 
2.43.0


From fab2bef65a2d4617c5bab6b87c7966d8b2675734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:12 +0000
Subject: [PATCH 11/38] fix: basic clause minimization with at-most clauses as
 reasons

---
 sat/core.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sat/core.go b/sat/core.go
index 18bab50..01811a9 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -1088,12 +1088,15 @@ func (m *CoreSolver) simplifyClause(outLearnt *[]int32) {
 				j++
 			} else {
 				var k int
-				if c.size() == 2 {
+				if c.size() == 2 || c.isAtMost {
 					k = 0
 				} else {
 					k = 1
 				}
 				for ; k < c.size(); k++ {
+					if c.isAtMost && m.value(c.get(k)) != f.TristateTrue {
+						continue
+					}
 					if !m.seen[Vari(c.get(k))] && m.v(c.get(k)).level > 0 {
 						(*outLearnt)[j] = (*outLearnt)[i]
 						j++
-- 
2.43.0


From 76793e24e999e94c3d71236413e43c7416d1db40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:33 +0000
Subject: [PATCH 12/38] fix: MaxSAT solver state after a cancelled computation

---
 maxsat/algorithm.go | 6 +++---
 maxsat/solver.go    | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/maxsat/algorithm.go b/maxsat/algorithm.go
index ddc457b..21a22e4 100644
--- a/maxsat/algorithm.go
+++ b/maxsat/algorithm.go
@@ -104,11 +104,11 @@ func (m *maxSatAlgorithm) innerSearch(
 	}
 	stateBeforeSolving := m.saveState()
 	result, state := search()
-	if e := event.MaxSatCallFinished; !hdl.ShouldResume(e) {
-		return Result{}, handler.Cancelation(e)
-	}
 	_ = m.loadState(stateBeforeSolving)
 	m.hdl = nil
+	if e := event.MaxSatCallFinished; !hdl.ShouldResume(e) && state.Success {
+		return Result{}, handler.Cancelation(e)
+	}
 	return result, state
 }
 
diff --git a/maxsat/solver.go b/maxsat/solver.go
index 2f5e80c..852e759 100644
--- a/maxsat/solver.go
+++ b/maxsat/solver.go
@@ -231,7 +231,7 @@ func (m *Solver) SolveWithHandler(hdl handler.Handler) (Result, handler.State) {
 	}
 	var state handler.State
 	m.result, state = m.solver.search(hdl)
-	m.ok = true
+	m.ok = state.Success
 	return m.result, state
 }
 
-- 
2.43.0


From 08c18412ed7a1950a99e948fa9f7d86eea7836fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:33 +0000
Subject: [PATCH 13/38] fix: keep the weights of the WMSU3 solver over a
 computation

---
 maxsat/alg_wmsu3.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/maxsat/alg_wmsu3.go b/maxsat/alg_wmsu3.go
index 027fa52..13d3a4d 100644
--- a/maxsat/alg_wmsu3.go
+++ b/maxsat/alg_wmsu3.go
@@ -36,11 +36,12 @@ func (m *wmsu3) search(hdl handler.Handler) (Result, handler.State) {
 		panic(errorx.BadInput("wmsu3 does not support unweighted MaxSAT instances"))
 	}
 	m.encoder = newEncoder()
-	isBMO := m.bmoMode && m.isBmo(true)
-	if !isBMO {
-		m.currentWeight = 1
-	}
 	return m.innerSearch(hdl, func() (Result, handler.State) {
+		// the stratification over the weights is only used by the iterative BMO search
+		isBMO := m.bmoMode && m.incrementalStrategy == IncIterative && m.isBmo(true)
+		if !isBMO {
+			m.currentWeight = 1
+		}
 		switch m.incrementalStrategy {
 		case IncNone:
 			return m.none()
-- 
2.43.0


From ecbb2965e9ed1e6992b9f130a076e1746def901a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:43 +0000
Subject: [PATCH 14/38] fix: pseudo-Boolean encoding of the MaxSAT solvers with
 a single literal left

---
 maxsat/enc_swc.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/maxsat/enc_swc.go b/maxsat/enc_swc.go
index d05d518..f7569c8 100644
--- a/maxsat/enc_swc.go
+++ b/maxsat/enc_swc.go
@@ -59,11 +59,8 @@ func (m *swc) encode(s *sat.CoreSolver, lits *[]int32, coeffs *[]int, rhs int) {
 			addUnitClause(s, sat.Not(simpLits[i]))
 		}
 	}
-	if len(*lits) == 1 {
-		addUnitClause(s, sat.Not((*lits)[0]))
-		return
-	}
-	if len(*lits) == 0 {
+	// a single remaining literal never exceeds the right-hand side
+	if len(*lits) <= 1 {
 		return
 	}
 	n := len(*lits)
-- 
2.43.0


From 110145ddd8d441eb82908edaa285853f9cbea5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:16 +0000
Subject: [PATCH 15/38] fix: empty clauses in the MaxSAT solvers

---
 maxsat/algorithm.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/maxsat/algorithm.go b/maxsat/algorithm.go
index 21a22e4..fb5404d 100644
--- a/maxsat/algorithm.go
+++ b/maxsat/algorithm.go
@@ -263,8 +263,9 @@ func (m *maxSatAlgorithm) getModel() []bool {
 }
 
 func (m *maxSatAlgorithm) addClause(formula f.Formula, weight int) {
-	clauseVec := make([]int32, f.NumberOfAtoms(m.fac, formula))
-	for i, lit := range f.Literals(m.fac, formula).Content() {
+	literals := f.Literals(m.fac, formula).Content()
+	clauseVec := make([]int32, len(literals))
+	for i, lit := range literals {
 		variable := lit.Variable()
 		index, ok := m.var2index[variable]
 		if !ok {
-- 
2.43.0


From c8f54c1989814294b796ddd97f96177fe9b2a643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:09 +0000
Subject: [PATCH 16/38] fix: keep the numbers in the BDD caches unchanged

---
 bdd/operation.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/bdd/operation.go b/bdd/operation.go
index c292588..a780bcd 100644
--- a/bdd/operation.go
+++ b/bdd/operation.go
@@ -181,9 +181,7 @@ func (k *Kernel) allUnsatRec(r int32, models *[][]byte, allunsatProfile *[]byte)
 func (k *Kernel) satCount(r int32) *big.Int {
 	size, i, e := big.NewInt(0), big.NewInt(2), big.NewInt(int64(k.level(r)))
 	size.Exp(i, e, nil)
-	satcount := k.satCountRec(r, cacheidSatcou)
-	satcount.Mul(satcount, size)
-	return satcount
+	return new(big.Int).Mul(size, k.satCountRec(r, cacheidSatcou))
 }
 
 func (k *Kernel) satCountRec(root, miscid int32) *big.Int {
@@ -210,7 +208,7 @@ func (k *Kernel) satCountRec(root, miscid int32) *big.Int {
 }
 
 func (k *Kernel) pathCountOne(r int32) *big.Int {
-	return k.pathCountRecOne(r, cacheidPathcouOne)
+	return new(big.Int).Set(k.pathCountRecOne(r, cacheidPathcouOne))
 }
 
 func (k *Kernel) pathCountRecOne(r, miscid int32) *big.Int {
@@ -226,7 +224,7 @@ func (k *Kernel) pathCountRecOne(r, miscid int32) *big.Int {
 		return entry.bdres
 	}
 	count := k.pathCountRecOne(k.low(r), miscid)
-	size = count.Add(count, k.pathCountRecOne(k.high(r), miscid))
+	size = new(big.Int).Add(count, k.pathCountRecOne(k.high(r), miscid))
 	entry.a = r
 	entry.c = miscid
 	entry.bdres = size
@@ -234,7 +232,7 @@ func (k *Kernel) pathCountRecOne(r, miscid int32) *big.Int {
 }
 
 func (k *Kernel) pathCountZero(r int32) *big.Int {
-	return k.pathCountRecZero(r, cacheidPathcouZero)
+	return new(big.Int).Set(k.pathCountRecZero(r, cacheidPathcouZero))
 }
 
 func (k *Kernel) pathCountRecZero(r, miscid int32) *big.Int {
@@ -250,7 +248,7 @@ func (k *Kernel) pathCountRecZero(r, miscid int32) *big.Int {
 		return entry.bdres
 	}
 	count := k.pathCountRecZero(k.low(r), miscid)
-	size = count.Add(count, k.pathCountRecZero(k.high(r), miscid))
+	size = new(big.Int).Add(count, k.pathCountRecZero(k.high(r), miscid))
 	entry.a = r
 	entry.c = miscid
 	entry.bdres = size
-- 
2.43.0


From db90f6d386dd348e8abe58eb4d39f37e1491a5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 17/38] fix: reference the results of BDD restriction and
 quantification

---
 bdd/bdd.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bdd/bdd.go b/bdd/bdd.go
index ca2d54a..acaa28d 100644
--- a/bdd/bdd.go
+++ b/bdd/bdd.go
@@ -337,21 +337,24 @@ func (b *BDD) NumberOfCNFClauses() *big.Int {
 // the respective variables anymore.
 func (b *BDD) Restrict(restriction ...f.Literal) *BDD {
 	resBdd := CompileLiterals(restriction, b.Kernel)
-	return newBdd(b.Kernel.restrict(b.Index, resBdd.Index), b.Kernel)
+	bdd, _ := b.Kernel.addRef(b.Kernel.restrict(b.Index, resBdd.Index), handler.NopHandler)
+	return newBdd(bdd, b.Kernel)
 }
 
 // Exists performs existential quantifier elimination for a given set of
 // variables and return the resulting BDD.
 func (b *BDD) Exists(variable ...f.Variable) *BDD {
 	resBdd := CompileLiterals(f.VariablesAsLiterals(variable), b.Kernel)
-	return newBdd(b.Kernel.exists(b.Index, resBdd.Index), b.Kernel)
+	bdd, _ := b.Kernel.addRef(b.Kernel.exists(b.Index, resBdd.Index), handler.NopHandler)
+	return newBdd(bdd, b.Kernel)
 }
 
 // ForAll performs universal quantifier elimination for a given set of
 // variables and returns the resulting BDD.
 func (b *BDD) ForAll(variable ...f.Variable) *BDD {
 	resBdd := CompileLiterals(f.VariablesAsLiterals(variable), b.Kernel)
-	return newBdd(b.Kernel.forAll(b.Index, resBdd.Index), b.Kernel)
+	bdd, _ := b.Kernel.addRef(b.Kernel.forAll(b.Index, resBdd.Index), handler.NopHandler)
+	return newBdd(bdd, b.Kernel)
 }
 
 // Model returns an arbitrary model of the BDD.  An error is returned if the
-- 
2.43.0


From 5496d021f2c51a9d700f2b5f94bbd6cc0994722e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:53 +0000
Subject: [PATCH 18/38] fix: keep variable blocks together when blocks are not
 adjacent

---
 bdd/reordering.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdd/reordering.go b/bdd/reordering.go
index cfd9500..992c979 100644
--- a/bdd/reordering.go
+++ b/bdd/reordering.go
@@ -571,7 +571,7 @@ func (r *reordering) blockdown(left *bddTree) {
 	}
 
 	// Move right to where left started
-	for r.k.var2level[rseq[0]] > leftstart {
+	for r.k.var2level[rseq[rightsize]] > leftstart+rightsize {
 		for n = rightsize; n > 0; n-- {
 			if r.k.var2level[rseq[n]]-1 != r.k.var2level[rseq[n-1]] && r.k.var2level[rseq[n]] > leftstart {
 				r.reorderVarup(rseq[n])
-- 
2.43.0


From b1d8b810b4d1db62403cc5ac00b9a1794c089ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:45 +0000
Subject: [PATCH 19/38] fix: keep external references of all BDD nodes when
 reordering

---
 bdd/reordering.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdd/reordering.go b/bdd/reordering.go
index 992c979..0395c31 100644
--- a/bdd/reordering.go
+++ b/bdd/reordering.go
@@ -200,7 +200,7 @@ func (r *reordering) reorderDone() {
 	}
 	for n := int32(2); n < r.k.nodesize; n++ {
 		if r.k.marked(n) {
-			r.k.unmark(n)
+			r.k.unmarkNode(n)
 		} else {
 			r.k.setRefcou(n, 0)
 		}
-- 
2.43.0


From 52417300acd81d54be9f435107682ec4cfa404b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:32 +0000
Subject: [PATCH 20/38] fix: BDD negation and quantification when a reordering
 is triggered

---
 bdd/construction.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/bdd/construction.go b/bdd/construction.go
index ff06d3f..1f17031 100644
--- a/bdd/construction.go
+++ b/bdd/construction.go
@@ -74,9 +74,15 @@ func (k *Kernel) notRec(r int32) (int32, bool) {
 	if entry.a == r && entry.c == bddNot.v {
 		return entry.res, false
 	}
-	node, _ := k.notRec(k.low(r))
+	node, reorder := k.notRec(k.low(r))
+	if reorder {
+		return -1, true
+	}
 	k.pushRef(node)
-	node, _ = k.notRec(k.high(r))
+	node, reorder = k.notRec(k.high(r))
+	if reorder {
+		return -1, true
+	}
 	k.pushRef(node)
 	res, reorder := k.makeNode(k.level(r), k.readRef(2), k.readRef(1))
 	if reorder {
@@ -93,8 +99,8 @@ func (k *Kernel) restrict(r, variable int32) int32 {
 	if variable < 2 {
 		return r
 	}
-	k.varset2svartable(variable)
 	return k.doWithPotentialReordering(func() (int32, bool) {
+		k.varset2svartable(variable)
 		return k.restrictRec(r, (variable<<3)|cacheidRestrict)
 	})
 }
@@ -145,8 +151,8 @@ func (k *Kernel) exists(r, variable int32) int32 {
 	if variable < 2 {
 		return r
 	}
-	k.varset2vartable(variable)
 	return k.doWithPotentialReordering(func() (int32, bool) {
+		k.varset2vartable(variable)
 		return k.quantRec(r, bddOr, variable<<3)
 	})
 }
@@ -155,8 +161,8 @@ func (k *Kernel) forAll(r, variable int32) int32 {
 	if variable < 2 {
 		return r
 	}
-	k.varset2vartable(variable)
 	return k.doWithPotentialReordering(func() (int32, bool) {
+		k.varset2vartable(variable)
 		return k.quantRec(r, bddAnd, (variable<<3)|cacheidForall)
 	})
 }
-- 
2.43.0


From 647fd463094eef38ae97256b60ddef3885381f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:13 +0000
Subject: [PATCH 21/38] fix: pseudo-Boolean constraints keep copies of the
 caller's slices

---
 formula/factory.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/formula/factory.go b/formula/factory.go
index 5472f5e..f2da613 100644
--- a/formula/factory.go
+++ b/formula/factory.go
@@ -2,6 +2,7 @@ package formula
 
 import (
 	"fmt"
+	"slices"
 	"strings"
 
 	"github.com/booleworks/logicng-go/configuration"
@@ -736,6 +737,8 @@ func (fac *CachingFactory) constructPBC(comparator CSort, rhs int, literals []Li
 	if !ok {
 		id := fac.nextPosId()
 		constraint = EncodeFormula(SortPBC, id)
+		pbc.literals = slices.Clone(literals)
+		pbc.coefficients = slices.Clone(coefficients)
 		fac.pbcCache[hash] = append(fac.pbcCache[hash], constraint)
 		fac.pbcs[constraint] = pbc
 	}
-- 
2.43.0


From 76a51f3585c511ce89b73277db98f34561a8f622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:13 +0000
Subject: [PATCH 22/38] fix: DNNF of tautological clauses on factories which
 conserve variables

---
 dnnf/compiler.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dnnf/compiler.go b/dnnf/compiler.go
index 7f0aef4..c93b9b9 100644
--- a/dnnf/compiler.go
+++ b/dnnf/compiler.go
@@ -2,6 +2,7 @@ package dnnf
 
 import (
 	"math/bits"
+	"slices"
 
 	"github.com/booleworks/logicng-go/event"
 	f "github.com/booleworks/logicng-go/formula"
@@ -331,6 +332,10 @@ func (c *compiler) leaf2ddnnf(leaf *dtreeLeaf) f.Formula {
 		case f.TristateTrue:
 			return c.fac.Verum()
 		case f.TristateUndef:
+			if slices.Contains(leafCurrentLiterals, lit) {
+				// the negation of the literal occurs before, the clause is a tautology
+				return c.fac.Verum()
+			}
 			leafCurrentLiterals = append(leafCurrentLiterals, lit)
 			leafResultOperands = append(leafResultOperands, c.fac.And(f.LiteralsAsFormulas(leafCurrentLiterals)...))
 			leafCurrentLiterals[index] = lit.Negate(c.fac)
-- 
2.43.0


From f0e763f0809ae7b8feb19e02b596946b25dc7992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 23/38] fix: AIG of formulas with negated constraints

---
 normalform/aig.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/normalform/aig.go b/normalform/aig.go
index 7dc3d54..68c38f5 100644
--- a/normalform/aig.go
+++ b/normalform/aig.go
@@ -1,6 +1,7 @@
 package normalform
 
 import (
+	"github.com/booleworks/logicng-go/encoding"
 	"github.com/booleworks/logicng-go/errorx"
 	f "github.com/booleworks/logicng-go/formula"
 )
@@ -39,6 +40,15 @@ func IsAIG(fac f.Factory, formula f.Formula) bool {
 // AIG returns the given formula as AIG (and-inverter-graph), therefore only
 // containing conjunctions and negations.
 func AIG(fac f.Factory, formula f.Formula) f.Formula {
+	if encoding.ContainsPBC(fac, formula) {
+		// encodings of constraints can contain auxiliary variables and must
+		// therefore not be negated
+		return aigRec(fac, NNF(fac, formula))
+	}
+	return aigRec(fac, formula)
+}
+
+func aigRec(fac f.Factory, formula f.Formula) f.Formula {
 	cached, ok := f.LookupTransformationCache(fac, f.TransAIG, formula)
 	if ok {
 		return cached
@@ -49,32 +59,30 @@ func AIG(fac f.Factory, formula f.Formula) f.Formula {
 		result = formula
 	case f.SortNot:
 		op, _ := fac.NotOperand(formula)
-		result = fac.Not(AIG(fac, op))
+		result = fac.Not(aigRec(fac, op))
 	case f.SortImpl:
 		left, right, _ := fac.BinaryLeftRight(formula)
-		result = fac.Not(fac.And(AIG(fac, left), fac.Not(AIG(fac, right))))
+		result = fac.Not(fac.And(aigRec(fac, left), fac.Not(aigRec(fac, right))))
 	case f.SortEquiv:
 		left, right, _ := fac.BinaryLeftRight(formula)
 		result = fac.And(
-			fac.Not(fac.And(AIG(fac, left), fac.Not(AIG(fac, right)))),
+			fac.Not(fac.And(aigRec(fac, left), fac.Not(aigRec(fac, right)))),
 			fac.Not(fac.And(fac.Not(left), right)),
 		)
 	case f.SortAnd:
 		ops, _ := fac.NaryOperands(formula)
 		nops := make([]f.Formula, len(ops))
 		for i, op := range ops {
-			nops[i] = AIG(fac, op)
+			nops[i] = aigRec(fac, op)
 		}
 		result = fac.And(nops...)
 	case f.SortOr:
 		ops, _ := fac.NaryOperands(formula)
 		nops := make([]f.Formula, len(ops))
 		for i, op := range ops {
-			nops[i] = fac.Not(AIG(fac, op))
+			nops[i] = fac.Not(aigRec(fac, op))
 		}
 		result = fac.Not(fac.And(nops...))
-	case f.SortCC, f.SortPBC:
-		result = AIG(fac, CNF(fac, formula))
 	default:
 		panic(errorx.UnknownEnumValue(formula.Sort()))
 	}
-- 
2.43.0


From 7680acf6621c3e4fdc3702e5dea4f190ebc823dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 24/38] fix: encodings of constraints with repeated variables
 do not create clauses with duplicates

---
 encoding/result.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/result.go b/encoding/result.go
index 98cdfb0..a056a2c 100644
--- a/encoding/result.go
+++ b/encoding/result.go
@@ -34,7 +34,7 @@ func ResultForFormula(fac f.Factory) *FormulaEncoding {
 
 // AddClause adds a set of literals as a clause to the encoding result.
 func (r *FormulaEncoding) AddClause(literals ...f.Literal) {
-	r.result = append(r.result, r.fac.Clause(literals...))
+	r.result = append(r.result, r.fac.Or(f.LiteralsAsFormulas(literals)...))
 }
 
 // NewAuxVar returns a new auxiliary variable of the given sort from the
-- 
2.43.0


From a746003696405c4745e900b68136a4af5fcd60b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 25/38] fix: no empty literals in the state of a CNF
 transformation

---
 normalform/cnf.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/normalform/cnf.go b/normalform/cnf.go
index d5480f6..abfe39a 100644
--- a/normalform/cnf.go
+++ b/normalform/cnf.go
@@ -284,7 +284,9 @@ func PGCNF(fac f.Factory, formula f.Formula, boundaryForFactorization int, state
 		topLevel, _ := assignment.New(fac, state.LiteralMap[nnf])
 		pg = assignment.Restrict(fac, pg, topLevel)
 	}
-	state.LiteralMap[formula] = state.LiteralMap[nnf]
+	if literal, ok := state.LiteralMap[nnf]; ok {
+		state.LiteralMap[formula] = literal
+	}
 	return pg
 }
 
@@ -394,7 +396,9 @@ func TseitinCNF(fac f.Factory, formula f.Formula, boundaryForFactorization int,
 		topLevel, _ := assignment.New(fac, state.LiteralMap[nnf])
 		tseitin = assignment.Restrict(fac, state.FormulaMap[nnf], topLevel)
 	}
-	state.LiteralMap[formula] = state.LiteralMap[nnf]
+	if literal, ok := state.LiteralMap[nnf]; ok {
+		state.LiteralMap[formula] = literal
+	}
 	return tseitin
 }
 
-- 
2.43.0


From 698b73c238cce77a07514431ec141499e6df4448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 26/38] fix: DNNF compilation independent of the factory's CNF
 configuration

---
 dnnf/compiler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dnnf/compiler.go b/dnnf/compiler.go
index c93b9b9..88afe99 100644
--- a/dnnf/compiler.go
+++ b/dnnf/compiler.go
@@ -26,7 +26,8 @@ func Compile(fac f.Factory, formula f.Formula) *DNNF {
 func CompileWithHandler(fac f.Factory, formula f.Formula, hdl handler.Handler) (*DNNF, handler.State) {
 	originalVariables := f.NewMutableVarSet()
 	originalVariables.AddAll(f.Variables(fac, formula))
-	cnf := normalform.CNF(fac, formula)
+	// the CNF must not introduce variables which change the number of models
+	cnf := normalform.CNF(fac, formula, normalform.DefaultCNFConfig())
 	originalVariables.AddAll(f.Variables(fac, cnf))
 	simplifiedFormula := simplifyFormula(fac, cnf)
 	compiler := newCompiler(fac, simplifiedFormula)
-- 
2.43.0


From dd434fe847617d20c8769cdca7162c2c47c05d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 27/38] fix: insertion-based MUS of the empty set of
 propositions is an error

---
 explanation/mus/mus.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/explanation/mus/mus.go b/explanation/mus/mus.go
index b3c508b..5744ee9 100644
--- a/explanation/mus/mus.go
+++ b/explanation/mus/mus.go
@@ -30,6 +30,9 @@ func ComputeInsertionBasedWithHandler(
 	if e := event.MusComputationStarted; !hdl.ShouldResume(e) {
 		return nil, handler.Cancelation(e), nil
 	}
+	if len(*propositions) == 0 {
+		return nil, handler.Success(), errorx.BadInput("formula set is satisfiable")
+	}
 	currentFormula := make([]f.Proposition, len(*propositions))
 	copy(currentFormula, *propositions)
 	mus := make([]f.Proposition, 0, len(*propositions))
-- 
2.43.0


From 8f86fe1fdfac699170798dacbd9015ab2b97a71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 28/38] fix: propositional parser does not panic on malformed
 text and reads numeric operands of constraints

---
 parser/propositional_parser.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parser/propositional_parser.go b/parser/propositional_parser.go
index 65c873c..4f410a7 100644
--- a/parser/propositional_parser.go
+++ b/parser/propositional_parser.go
@@ -52,11 +52,12 @@ func (p *PropositionalParser) parse(data string) (f.Formula, error) {
 	lngParser := NewLogicNGPropositionalParser(stream)
 	lngParser.RemoveErrorListeners()
 	lngParser.AddErrorListener(errorListener)
-	listener := &formulaListener{fac: p.fac}
-	antlr.ParseTreeWalkerDefault.Walk(listener, lngParser.Formula())
+	tree := lngParser.Formula()
 	if errorListener.err {
 		return p.fac.Falsum(), errorx.BadInput("%s", errorListener.message)
 	}
+	listener := &formulaListener{fac: p.fac}
+	antlr.ParseTreeWalkerDefault.Walk(listener, tree)
 	return listener.formula(), nil
 }
 
@@ -216,13 +217,13 @@ func (l *formulaListener) ExitMul(c *MulContext) {
 	case c.LITERAL() != nil && len(c.AllNUMBER()) == 0:
 		lit = c.LITERAL().GetText()
 	case c.LITERAL() == nil && len(c.AllNUMBER()) == 1:
-		lit = c.LITERAL().GetText()
+		lit = c.NUMBER(0).GetText()
 	case c.LITERAL() != nil && len(c.AllNUMBER()) == 1:
 		lit = c.LITERAL().GetText()
 		coeff, _ = strconv.Atoi(c.NUMBER(0).GetText())
 	case c.LITERAL() == nil && len(c.AllNUMBER()) == 2:
-		lit = c.NUMBER(0).GetText()
-		coeff, _ = strconv.Atoi(c.NUMBER(1).GetText())
+		lit = c.NUMBER(1).GetText()
+		coeff, _ = strconv.Atoi(c.NUMBER(0).GetText())
 	}
 	name, phase := parseLiteral(lit)
 	literal := l.fac.Lit(name, phase)
-- 
2.43.0


From 5408d74f74900d4f28f4a0e9cfdf9d4c6b9b3b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 29/38] fix: formula reader returns an error for malformed
 lines instead of panicking

---
 io/formula_reader.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/io/formula_reader.go b/io/formula_reader.go
index c2b4820..fbba57c 100644
--- a/io/formula_reader.go
+++ b/io/formula_reader.go
@@ -54,7 +54,11 @@ func ReadFormulasFile(fac f.Factory, file *os.File) ([]f.Formula, error) {
 	scanner.Buffer(buf, 1024*1024)
 	for scanner.Scan() {
 		line := scanner.Text()
-		ops = append(ops, parser.ParseUnsafe(line))
+		op, err := parser.Parse(line)
+		if err != nil {
+			return nil, err
+		}
+		ops = append(ops, op)
 	}
 	if err := scanner.Err(); err != nil {
 		return nil, err
-- 
2.43.0


From 59c028ac0fdd4bc806985cd48fa8cbade260233a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:32 +0000
Subject: [PATCH 30/38] fix: DIMACS reader rejects literals which are no
 non-zero integers

---
 io/dimacs_reader.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/io/dimacs_reader.go b/io/dimacs_reader.go
index 5184cb0..93277ea 100644
--- a/io/dimacs_reader.go
+++ b/io/dimacs_reader.go
@@ -3,6 +3,7 @@ package io
 import (
 	"bufio"
 	"os"
+	"strconv"
 	"strings"
 
 	"github.com/booleworks/logicng-go/errorx"
@@ -47,13 +48,11 @@ func ReadDimacsFile(fac f.Factory, file *os.File, prefix ...string) (*[]f.Formul
 			}
 			vars := make([]f.Formula, 0, len(split)-1)
 			for _, lit := range split[:len(split)-1] {
-				if lit != "" {
-					if strings.HasPrefix(lit, "-") {
-						vars = append(vars, fac.Literal(pfx+lit[1:], false))
-					} else {
-						vars = append(vars, fac.Variable(pfx+lit))
-					}
+				index, err := strconv.Atoi(lit)
+				if err != nil || index == 0 {
+					return nil, errorx.BadInput("line %s contains the invalid literal %s", line, lit)
 				}
+				vars = append(vars, fac.Literal(pfx+strconv.Itoa(max(index, -index)), index > 0))
 			}
 			result = append(result, fac.Or(vars...))
 		}
-- 
2.43.0


From bdc67b226919c7574298aae1734f588cb9bb51da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:32 +0000
Subject: [PATCH 31/38] fix: MaxSAT reader reports read errors and malformed
 content

---
 maxsat/reader.go | 73 ++++++++++++++++++++++++++++++------------------
 1 file changed, 46 insertions(+), 27 deletions(-)

diff --git a/maxsat/reader.go b/maxsat/reader.go
index b17fa1d..7b2d2d3 100644
--- a/maxsat/reader.go
+++ b/maxsat/reader.go
@@ -3,11 +3,11 @@ package maxsat
 import (
 	"bufio"
 	"fmt"
-	"math"
 	"os"
 	"strconv"
 	"strings"
 
+	"github.com/booleworks/logicng-go/errorx"
 	f "github.com/booleworks/logicng-go/formula"
 )
 
@@ -22,50 +22,69 @@ func ReadDimacsToSolver(fac f.Factory, solver *Solver, filename string) error {
 	defer file.Close()
 	pureMaxSat := false
 	hardWeight := -1
+	headerFound := false
 	scanner := bufio.NewScanner(file)
-	for scanner.Scan() {
+	for !headerFound && scanner.Scan() {
 		line := scanner.Text()
 		if strings.HasPrefix(line, "p wcnf") {
-			header := strings.Split(strings.TrimSpace(line), " ")
+			headerFound = true
+			header := strings.Fields(line)
 			if len(header) > 4 {
-				hardWeight, _ = strconv.Atoi(header[4])
+				hardWeight, err = strconv.Atoi(header[4])
+				if err != nil {
+					return err
+				}
 			}
-			break
 		} else if strings.HasPrefix(line, "p cnf") {
+			headerFound = true
 			pureMaxSat = true
-			break
+		} else if !strings.HasPrefix(line, "c") && strings.TrimSpace(line) != "" {
+			return errorx.BadInput("line %s before the problem line", line)
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return err
+	}
+	if !headerFound {
+		return errorx.BadInput("no problem line found")
+	}
 	for scanner.Scan() {
-		tokens := strings.Split(strings.TrimSpace(scanner.Text()), " ")
-		weight, err := strconv.Atoi(tokens[0])
-		if err != nil {
-			return err
-		}
-		var start int
+		line := scanner.Text()
+		tokens := strings.Fields(line)
+		start := 1
 		if pureMaxSat {
 			start = 0
-		} else {
-			start = 1
+		}
+		if len(tokens) <= start || tokens[len(tokens)-1] != "0" {
+			return errorx.BadInput("line %s did not end with 0", line)
 		}
 		literals := make([]f.Formula, len(tokens)-start-1)
 		for i := start; i < len(tokens)-1; i++ {
-			if len(tokens[i]) > 0 {
-				parsedLit, err := strconv.Atoi(tokens[i])
-				if err != nil {
-					return err
-				}
-				variable := fmt.Sprintf("v%d", int(math.Abs(float64(parsedLit))))
-				literals[i-start] = fac.Literal(variable, parsedLit > 0)
+			parsedLit, err := strconv.Atoi(tokens[i])
+			if err != nil {
+				return err
+			}
+			if parsedLit == 0 {
+				return errorx.BadInput("line %s contains 0 before its end", line)
 			}
+			variable := fmt.Sprintf("v%d", max(parsedLit, -parsedLit))
+			literals[i-start] = fac.Literal(variable, parsedLit > 0)
 		}
-		if pureMaxSat {
-			solver.AddSoftFormula(fac.Or(literals...), 1)
-		} else if weight == hardWeight {
+		weight := 1
+		if !pureMaxSat {
+			weight, err = strconv.Atoi(tokens[0])
+			if err != nil {
+				return err
+			}
+			if weight < 1 {
+				return errorx.BadInput("line %s has weight %d", line, weight)
+			}
+		}
+		if !pureMaxSat && weight == hardWeight {
 			solver.AddHardFormula(fac.Or(literals...))
-		} else {
-			solver.AddSoftFormula(fac.Or(literals...), weight)
+		} else if err = solver.AddSoftFormula(fac.Or(literals...), weight); err != nil {
+			return err
 		}
 	}
-	return nil
+	return scanner.Err()
 }
-- 
2.43.0


From 66541682f410b89ee40949b8c9fc65826ca41570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:32 +0000
Subject: [PATCH 32/38] fix: writers report errors of closing the file and of
 all intermediate writes

---
 graphical/dot_writer.go     | 23 +++++++++++++++--------
 graphical/error_writer.go   | 19 +++++++++++++++++++
 graphical/mermaid_writer.go | 26 ++++++++++++++++++--------
 io/dimacs_writer.go         |  7 +++++--
 io/formula_writer.go        |  7 +++++--
 5 files changed, 62 insertions(+), 20 deletions(-)
 create mode 100644 graphical/error_writer.go

diff --git a/graphical/dot_writer.go b/graphical/dot_writer.go
index e4f384b..e595f69 100644
--- a/graphical/dot_writer.go
+++ b/graphical/dot_writer.go
@@ -24,34 +24,41 @@ func WriteDotToFileName(filename string, representation *Representation) error {
 	if err != nil {
 		return err
 	}
-	defer file.Close()
-	return WriteDotToWriter(file, representation)
+	err = WriteDotToWriter(file, representation)
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 // WriteDotToFile writes the given graphical representation as a Dot file to
 // the given file.  Returns an error when there was a problem writing the file.
 func WriteDotToFile(file *os.File, representation *Representation) error {
-	defer file.Close()
-	return WriteDotToWriter(file, representation)
+	err := WriteDotToWriter(file, representation)
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 // WriteDotToWriter writes the given graphical representation as a Dot file to
 // the given writer.  Returns an error when there was a problem writing to
 // the writer.
 func WriteDotToWriter(writer io.Writer, representation *Representation) error {
-	err := writeDotPreamble(writer, representation)
+	out := &errorWriter{writer: writer}
+	err := writeDotPreamble(out, representation)
 	if err != nil {
 		return err
 	}
-	err = writeDotNodes(writer, representation)
+	err = writeDotNodes(out, representation)
 	if err != nil {
 		return err
 	}
-	err = writeDotEdges(writer, representation)
+	err = writeDotEdges(out, representation)
 	if err != nil {
 		return err
 	}
-	return writeDotClosing(writer)
+	return writeDotClosing(out)
 }
 
 func writeDotPreamble(writer io.Writer, representation *Representation) error {
diff --git a/graphical/error_writer.go b/graphical/error_writer.go
new file mode 100644
index 0000000..d659cb0
--- /dev/null
+++ b/graphical/error_writer.go
@@ -0,0 +1,19 @@
+package graphical
+
+import "io"
+
+// errorWriter remembers the first error of the underlying writer and returns
+// it for all following writes.
+type errorWriter struct {
+	writer io.Writer
+	err    error
+}
+
+func (w *errorWriter) Write(data []byte) (int, error) {
+	if w.err != nil {
+		return 0, w.err
+	}
+	var n int
+	n, w.err = w.writer.Write(data)
+	return n, w.err
+}
diff --git a/graphical/mermaid_writer.go b/graphical/mermaid_writer.go
index 2ce2a5e..dc86071 100644
--- a/graphical/mermaid_writer.go
+++ b/graphical/mermaid_writer.go
@@ -30,32 +30,42 @@ func WriteMermaidToFileName(filename string, representation *Representation) err
 	if err != nil {
 		return err
 	}
-	defer file.Close()
-	return WriteMermaidToWriter(file, representation)
+	err = WriteMermaidToWriter(file, representation)
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 // WriteMermaidToFile writes the given graphical representation as a
 // Mermaid.js file to the given file.  Returns an error when there was a
 // problem writing the file.
 func WriteMermaidToFile(file *os.File, representation *Representation) error {
-	defer file.Close()
-	return WriteMermaidToWriter(file, representation)
+	err := WriteMermaidToWriter(file, representation)
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 // WriteMermaidToWriter writes the given graphical representation as a
 // Mermaid.js file to the writer.  Returns an error when there was a
 // problem writing to the writer.
 func WriteMermaidToWriter(writer io.Writer, representation *Representation) error {
-	err := writeMermaidPreamble(writer)
+	out := &errorWriter{writer: writer}
+	err := writeMermaidPreamble(out)
 	if err != nil {
 		return err
 	}
-	err = writeMermaidNodes(writer, representation)
+	err = writeMermaidNodes(out, representation)
 	if err != nil {
 		return err
 	}
-	err = writeMermaidEdges(writer, representation)
-	return err
+	err = writeMermaidEdges(out, representation)
+	if err != nil {
+		return err
+	}
+	return out.err
 }
 
 func writeMermaidPreamble(writer io.Writer) error {
diff --git a/io/dimacs_writer.go b/io/dimacs_writer.go
index b1a62d4..a336153 100644
--- a/io/dimacs_writer.go
+++ b/io/dimacs_writer.go
@@ -32,8 +32,11 @@ func WriteDimacs(fac f.Factory, filename string, formula f.Formula) (map[f.Varia
 	if err != nil {
 		return nil, err
 	}
-	defer file.Close()
-	return WriteDimacsToWriter(fac, file, formula)
+	mapping, err := WriteDimacsToWriter(fac, file, formula)
+	if closeErr := file.Close(); err == nil && closeErr != nil {
+		return nil, closeErr
+	}
+	return mapping, err
 }
 
 // WriteDimacsToFile writes the given formula in CNF to the given file in the
diff --git a/io/formula_writer.go b/io/formula_writer.go
index 49b89e7..c005894 100644
--- a/io/formula_writer.go
+++ b/io/formula_writer.go
@@ -17,8 +17,11 @@ func WriteFormula(fac f.Factory, filename string, formula f.Formula, splitAnd ..
 	if err != nil {
 		return err
 	}
-	defer file.Close()
-	return WriteFormulaToWriter(fac, file, formula, splitAnd...)
+	err = WriteFormulaToWriter(fac, file, formula, splitAnd...)
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 // WriteFormulaToFile writes the given formula to the given file. The flag
-- 
2.43.0


From 9987034408d0d2bffbb34093ce6e03f315e28648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 33/38] fix: bounding handlers can be used again after a
 cancelled computation

---
 bdd/handler.go        | 1 +
 normalform/handler.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/bdd/handler.go b/bdd/handler.go
index 4dfd375..73f0ca3 100644
--- a/bdd/handler.go
+++ b/bdd/handler.go
@@ -23,6 +23,7 @@ func (n *NodesHandler) ShouldResume(e event.Event) bool {
 	switch e {
 	case event.BddComputationStarted:
 		n.count = 0
+		n.canceled = false
 	case event.BddNewRefAdded:
 		n.count++
 		n.canceled = n.count >= n.bound
diff --git a/normalform/handler.go b/normalform/handler.go
index 87ec8c4..43d76cc 100644
--- a/normalform/handler.go
+++ b/normalform/handler.go
@@ -24,6 +24,7 @@ func (f *FactorizationHandler) ShouldResume(e event.Event) bool {
 	case event.FactorizationStarted:
 		f.currentDistributions = 0
 		f.currentClauses = 0
+		f.canceled = false
 	case event.DistributionPerformed:
 		f.currentDistributions++
 		f.canceled = f.distributionBoundary != -1 && f.currentDistributions > f.distributionBoundary
-- 
2.43.0


From 754158d1e6a0691d5d326a5fb89a9fe65f0cd74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:56 +0000
Subject: [PATCH 34/38] fix: formula randomizer keeps the order of constraint
 variables independent of map iteration

---
 randomizer/formula_randomizer.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/randomizer/formula_randomizer.go b/randomizer/formula_randomizer.go
index 066e2ea..9404f91 100644
--- a/randomizer/formula_randomizer.go
+++ b/randomizer/formula_randomizer.go
@@ -355,14 +355,15 @@ func (r *FormulaRandomizer) ConstraintSet(numConstraints, maxDepth int) []f.Form
 }
 
 func (r *FormulaRandomizer) ccVariables() []f.Variable {
-	variables := make(map[f.Variable]present)
+	seen := make(map[f.Variable]present)
 	bound := r.random.Intn(r.config.MaximumOpsCC-1) + 2
+	vars := make([]f.Variable, 0, bound)
 	for range bound {
-		variables[r.Variable()] = present{}
-	}
-	vars := make([]f.Variable, 0, len(variables))
-	for v := range variables {
-		vars = append(vars, v)
+		v := r.Variable()
+		if _, ok := seen[v]; !ok {
+			seen[v] = present{}
+			vars = append(vars, v)
+		}
 	}
 	return vars
 }
-- 
2.43.0


From fa72309a119829e1c94659b150300fdcc694d259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:32 +0000
Subject: [PATCH 35/38] fix: model iteration terminates if variables are not
 known by the solver

---
 model/iter/iteration.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/model/iter/iteration.go b/model/iter/iteration.go
index 3bf4392..a26d7ae 100644
--- a/model/iter/iteration.go
+++ b/model/iter/iteration.go
@@ -115,7 +115,9 @@ func (m *ModelIterator[R]) iterRecursive(
 			}
 		}
 
-		remainingVars := f.NewMutableVarSetCopy(iterVars)
+		// variables not known by the solver do not occur in a split assignment,
+		// splitting over them would make no progress
+		remainingVars := variablesOnSolver(iterVars, solver)
 		remainingVars.RemoveAll(newSplitVars)
 		for _, literal := range splitModel {
 			remainingVars.Remove(literal.Variable())
@@ -257,6 +259,18 @@ func relevantIndicesFromSolver(variables *f.VarSet, solver *sat.Solver) []int32
 	return relevantIndices
 }
 
+func variablesOnSolver(variables *f.VarSet, solver *sat.Solver) *f.MutableVarSet {
+	fac := solver.Factory()
+	result := f.NewMutableVarSet()
+	for _, v := range variables.Content() {
+		name, _ := fac.VarName(v)
+		if solver.CoreSolver().IdxForName(name) != -1 {
+			result.Add(v)
+		}
+	}
+	return result
+}
+
 func relevantAllIndicesFromSolver(
 	variables *f.VarSet,
 	additionalVariables *f.VarSet,
-- 
2.43.0


From 5cd3a2d475cc574a236c72270db20074455ade9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:32 +0000
Subject: [PATCH 36/38] fix: subsumption stops at the event at which its
 handler refuses

---
 simplification/subsumption.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/simplification/subsumption.go b/simplification/subsumption.go
index d466b93..84393d7 100644
--- a/simplification/subsumption.go
+++ b/simplification/subsumption.go
@@ -105,21 +105,16 @@ func generateSubsumedUBTree(fac f.Factory, formula f.Formula, hdl handler.Handle
 		return nil, handler.Cancelation(e)
 	}
 	ubTree := newUbtree()
-	e := event.Nothing
-	mapping.Each(func(_ any, value any) {
-		value.(*arraylist.List).Each(func(_ int, _set any) {
-			set := _set.(*f.LitSet)
+	for _, terms := range mapping.Values() {
+		for _, set := range terms.(*arraylist.List).Values() {
+			set := set.(*f.LitSet)
 			if ubTree.firstSubset(set) == nil {
 				ubTree.addSet(set)
-				if ev := event.SubsumptionAddedNewSet; !hdl.ShouldResume(ev) {
-					e = ev
-					return
+				if e := event.SubsumptionAddedNewSet; !hdl.ShouldResume(e) {
+					return nil, handler.Cancelation(e)
 				}
 			}
-		})
-	})
-	if e != event.Nothing {
-		return nil, handler.Cancelation(e)
+		}
 	}
 	return ubTree, handler.Success()
 }
-- 
2.43.0


From fba4fa1e9bf09716e68832b862b9ffe2f7ef0297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:36 +0000
Subject: [PATCH 37/38] fix: native at-most clauses and constraints with
 repeated literals

---
 sat/solver.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/sat/solver.go b/sat/solver.go
index 29899f8..2fb496e 100644
--- a/sat/solver.go
+++ b/sat/solver.go
@@ -83,7 +83,9 @@ func (s *Solver) addWithProp(formula f.Formula, proposition f.Proposition) {
 	if formula.Sort() == f.SortCC {
 		if s.config.UseAtMostClauses {
 			comparator, rhs, literals, _, _ := s.fac.PBCOps(formula)
-			if comparator == f.LE {
+			if hasRepeatedLiteral(literals) {
+				s.addFormulaAsCNF(formula, proposition) // at-most clauses count a literal only once
+			} else if comparator == f.LE {
 				s.core.addAtMost(s.generateClauseVector(literals), rhs)
 			} else if comparator == f.LT && rhs > 3 {
 				s.core.addAtMost(s.generateClauseVector(literals), rhs-1)
@@ -108,6 +110,17 @@ func (s *Solver) addWithProp(formula f.Formula, proposition f.Proposition) {
 	}
 }
 
+func hasRepeatedLiteral(literals []f.Literal) bool {
+	seen := make(map[f.Literal]bool, len(literals))
+	for _, literal := range literals {
+		if seen[literal] {
+			return true
+		}
+		seen[literal] = true
+	}
+	return false
+}
+
 func (s *Solver) addFormulaAsCNF(formula f.Formula, proposition f.Proposition) {
 	switch s.config.CNFMethod {
 	case CNFFactory:
-- 
2.43.0


From 15a477657bad31e048e9fde0c48fbaadffde4b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:25 +0000
Subject: [PATCH 38/38] fix: numbers of found models which exceed the largest
 integer saturate

---
 model/count/sat_counting.go   |  7 ++++++-
 model/enum/enumeration_bdd.go |  5 ++++-
 model/iter/handler.go         | 16 +++++++++++++---
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/model/count/sat_counting.go b/model/count/sat_counting.go
index 2d413e6..aad4c1c 100644
--- a/model/count/sat_counting.go
+++ b/model/count/sat_counting.go
@@ -1,6 +1,7 @@
 package count
 
 import (
+	"math"
 	"math/big"
 
 	"github.com/booleworks/logicng-go/event"
@@ -68,7 +69,11 @@ func newModelCountCollector(_ f.Factory, _, dontCaresNotOnSolver, _ *f.VarSet) i
 func (c *modelCountCollector) AddModel(
 	modelFromSolver []bool, _ *sat.Solver, relevantAllIndices []int32, hdl handler.Handler,
 ) handler.State {
-	e := iter.EventIteratorFoundModels{NumberOfModels: int(c.dontCareFactor.Int64())}
+	numberOfModels := math.MaxInt
+	if c.dontCareFactor.IsInt64() {
+		numberOfModels = int(c.dontCareFactor.Int64())
+	}
+	e := iter.EventIteratorFoundModels{NumberOfModels: numberOfModels}
 	c.uncommittedModels = append(c.uncommittedModels, modelFromSolver)
 	c.uncommittedIndices = append(c.uncommittedIndices, relevantAllIndices)
 	if !hdl.ShouldResume(e) {
diff --git a/model/enum/enumeration_bdd.go b/model/enum/enumeration_bdd.go
index 7b39cc9..905f3c1 100644
--- a/model/enum/enumeration_bdd.go
+++ b/model/enum/enumeration_bdd.go
@@ -82,7 +82,10 @@ func generateModelCollector(
 		numVars := sortedVariables.Size()
 		kernel := bdd.NewKernelWithOrdering(fac, sortedVariables.Content(), int32(numVars*30), int32(numVars*50))
 		committedModels := bdd.CompileWithKernel(fac, fac.Falsum(), kernel)
-		dontCareFactor := int(math.Pow(2, float64(dontCaresNotOnSolver.Size())))
+		dontCareFactor := math.MaxInt
+		if size := dontCaresNotOnSolver.Size(); size < 63 {
+			dontCareFactor = 1 << size
+		}
 		return &modelEnumBddCollector{
 			kernel:            kernel,
 			committedModels:   committedModels,
diff --git a/model/iter/handler.go b/model/iter/handler.go
index 6050a68..d10564b 100644
--- a/model/iter/handler.go
+++ b/model/iter/handler.go
@@ -1,6 +1,8 @@
 package iter
 
 import (
+	"math"
+
 	"github.com/booleworks/logicng-go/event"
 )
 
@@ -27,12 +29,20 @@ func (h *LimitHandler) ShouldResume(e event.Event) bool {
 		h.countCommitted = 0
 		h.countUncommitted = 0
 	} else if e == event.ModelEnumerationCommit {
-		h.countCommitted += h.countUncommitted
+		h.countCommitted = saturatedAdd(h.countCommitted, h.countUncommitted)
 		h.countUncommitted = 0
 	} else if e == event.ModelEnumerationRollback {
 		h.countUncommitted = 0
 	} else if efm, ok := e.(EventIteratorFoundModels); ok {
-		h.countUncommitted += efm.NumberOfModels
+		h.countUncommitted = saturatedAdd(h.countUncommitted, efm.NumberOfModels)
+	}
+	return saturatedAdd(h.countUncommitted, h.countCommitted) < h.bound
+}
+
+// saturatedAdd adds two non-negative numbers, limited to the largest integer.
+func saturatedAdd(a, b int) int {
+	if a > math.MaxInt-b {
+		return math.MaxInt
 	}
-	return h.countUncommitted+h.countCommitted < h.bound
+	return a + b
 }
-- 
2.43.0

