package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"

	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/configuration"
	"github.com/booleworks/logicng-go/encoding"
	"github.com/booleworks/logicng-go/event"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/model/count"
	"github.com/booleworks/logicng-go/model/enum"
	"github.com/booleworks/logicng-go/model/iter"
	"github.com/booleworks/logicng-go/sat"
)

func init() { kinds["sat"] = newSatClient }

// configuration indices of a SAT client
const (
	cCNF = iota
	cAtMost
	cProofs
	cMin
	cPhase
	cLL
	cEnc
	cAMO
	cAMK
	cALK
	cEXK
	cPBC
	cBim
	cBinM
	satCfgLen
)

func cfgAt(c []int, i int) int {
	if i < len(c) {
		return c[i]
	}
	return 0
}

func satConfig(c []int) *sat.Config {
	cfg := sat.DefaultConfig()
	cfg.CNFMethod = []sat.CNFMethod{sat.CNFPG, sat.CNFFactory, sat.CNFFullPG}[cfgAt(c, cCNF)%3]
	cfg.UseAtMostClauses = cfgAt(c, cAtMost)%2 == 1
	cfg.ProofGeneration = cfgAt(c, cProofs)%2 == 1
	cfg.ClauseMinimization = []sat.ClauseMinimization{sat.ClauseMinDeep, sat.ClauseMinNone, sat.ClauseMinBasic}[cfgAt(c, cMin)%3]
	cfg.InitialPhase = cfgAt(c, cPhase)%2 == 1
	ll := cfg.LowLevelConfig
	switch cfgAt(c, cLL) % 5 {
	case 1: // constant restarts and reductions
		ll.SizeLBDQueue, ll.SizeTrailQueue, ll.RestartFirst = 2, 3, 1
		ll.FirstReduceDB, ll.IncReduceDB, ll.SpecialIncReduceDB = 2, 1, 1
	case 2: // frequent reductions only
		ll.FirstReduceDB, ll.IncReduceDB, ll.SpecialIncReduceDB = 1, 1, 1
		ll.LBLBDFrozenClause = 1
	case 3: // frequent restarts only
		ll.SizeLBDQueue, ll.SizeTrailQueue, ll.FactorK = 1, 2, 1.5
	case 4:
		ll.SizeLBDQueue, ll.SizeTrailQueue = 4, 5
		ll.FirstReduceDB, ll.IncReduceDB, ll.SpecialIncReduceDB = 5, 3, 2
		ll.ClauseDecay = 0.5
		ll.VarDecay, ll.MaxVarDecay, ll.LBLBDMinimizingClause, ll.LBSizeMinimizingClause = 0.5, 0.6, 2, 3
	}
	return cfg
}

func encConfig(c []int) *encoding.Config {
	cfg := encoding.DefaultConfig()
	cfg.AMOEncoder = encoding.AMOEncoder(cfgAt(c, cAMO) % 8)
	cfg.AMKEncoder = encoding.AMKEncoder(cfgAt(c, cAMK) % 4)
	cfg.ALKEncoder = encoding.ALKEncoder(cfgAt(c, cALK) % 4)
	cfg.EXKEncoder = encoding.EXKEncoder(cfgAt(c, cEXK) % 3)
	cfg.PBCEncoder = encoding.PBCEncoder(cfgAt(c, cPBC) % 4)
	cfg.BimanderGroupSize = encoding.BimanderGroupSize(cfgAt(c, cBim) % 3)
	b := cfgAt(c, cBinM)
	cfg.BimanderFixedGroupSize = 2 + b/8%3
	cfg.NestingGroupSize = 3 + b/16%3
	cfg.CommanderGroupSize = 3 + b/8%2
	cfg.ProductRecursiveBound = []int{20, 4, 2}[b/4%3]
	cfg.BinaryMergeUseGAC = b%2 == 0
	cfg.BinaryMergeNoSupportForSingleBit = b/2%2 == 1
	cfg.BinaryMergeUseWatchDog = b/4%2 == 0
	return cfg
}

type satSaved struct {
	st    *sat.SolverState
	tt    TT
	known map[f.Variable]bool
	props int
	plain int
	incs  int
	rhs   []int
	valid bool
}

type satInc struct {
	data      *encoding.CCIncrementalData
	vars      []int
	upper     bool
	rhs       int // bound of the data object
	live      bool
	onFormula bool
}

// satClient runs a history on one SAT solver against a truth-table model.
type satClient struct {
	*Client
	cfg   []int
	sol   *sat.Solver
	tt    TT
	saved []*satSaved // stack of all ever saved states, in order
	props []f.Proposition
	plain []TT
	incs  []*satInc
}

func newSatClient(c *Client) clientKind {
	s := &satClient{Client: c, cfg: c.plan.Cfg}
	s.setEnc()
	s.sol = sat.NewSolver(c.fac, satConfig(s.cfg))
	s.tt = ttConst(c.nv, true)
	return s
}

func (s *satClient) setEnc() {
	if cfgAt(s.cfg, cEnc) > 0 {
		_ = s.fac.PutConfiguration(configuration.Config(encConfig(s.cfg)))
	}
}

func (s *satClient) proofs() bool { return cfgAt(s.cfg, cProofs)%2 == 1 }

func (s *satClient) knownSet() map[f.Variable]bool {
	m := map[f.Variable]bool{}
	for _, v := range s.sol.CoreSolver().KnownVariables(s.fac).Content() {
		m[v] = true
	}
	return m
}

// contentProp is the property blamed when the content of the solver is wrong
// after an operation of the given kind.
func (s *satClient) op(o *Op) {
	switch o.K {
	case "add":
		for _, n := range o.F {
			s.sol.Add(n.build(s.fac))
			t := n.tt(s.nv)
			s.plain = append(s.plain, t)
			s.tt = s.tt.and(t)
		}
	case "addprop":
		for _, n := range o.F {
			var p f.Proposition = f.NewStandardProposition(n.build(s.fac), fmt.Sprintf("p%d", len(s.props)))
			if len(s.props)%3 == 2 {
				p = f.NewExtendedProposition(p.Formula(), big.NewInt(int64(len(s.props))))
			}
			s.sol.AddProposition(p)
			s.props = append(s.props, p)
			s.tt = s.tt.and(n.tt(s.nv))
		}
	case "addenc": // encode a constraint to formulas and add those
		n := o.F[0]
		form := n.build(s.fac)
		var fs []f.Formula
		var err error
		switch form.Sort() {
		case f.SortCC:
			fs, err = encoding.EncodeCC(s.fac, form, s.encArgs(o.a(0))...)
		case f.SortPBC:
			fs, err = encoding.EncodePBC(s.fac, form, s.encArgs(o.a(0))...)
		default:
			fs = []f.Formula{form}
		}
		s.check(err == nil, "S04", "encode-error", "encoding of %v fails: %v", n, err)
		for _, x := range fs {
			s.check(x.Sort() == f.SortTrue || isClause(s.fac, x), "S04", "encode-shape", "encoding of %v contains the non-clause %s", n, x.Sprint(s.fac))
		}
		s.sol.Add(fs...)
		t := n.tt(s.nv)
		s.plain = append(s.plain, t)
		s.tt = s.tt.and(t)
	case "inc":
		s.opInc(o)
	case "bound":
		s.opBound(o)
	case "call":
		s.opCall(o)
	case "save":
		st := &satSaved{st: s.sol.SaveState(), tt: s.tt, known: s.knownSet(), props: len(s.props), plain: len(s.plain), incs: len(s.incs), valid: true}
		s.saved = append(s.saved, st)
	case "load":
		s.opLoad(o)
	case "bb":
		s.opBackbone(o)
	case "opt":
		s.opOptimize(o)
	case "enum":
		s.opEnum(o)
	case "count":
		s.opCount(o)
	case "enumbdd":
		s.opEnumBdd(o)
	case "fos":
		s.opFOS()
	case "occ":
		s.opOcc(o)
	case "probe":
		s.probe(o.A, "S01", "probe")
	default:
		panic("simbug: sat op " + o.K)
	}
}

func isClause(fac f.Factory, x f.Formula) bool {
	switch x.Sort() {
	case f.SortFalse, f.SortLiteral:
		return true
	case f.SortOr:
		ops, _ := fac.NaryOperands(x)
		for _, o := range ops {
			if o.Sort() != f.SortLiteral {
				return false
			}
		}
		return true
	}
	return false
}

// probe asks the solver about random cubes and compares with the model.
func (s *satClient) probe(seeds []int, prop, code string) {
	for _, sd := range seeds {
		r := NewRng(uint64(sd), 99)
		m := map[int]bool{}
		var a []int
		for v := 0; v < s.nv; v++ {
			if r.P(60) {
				p := r.P(50)
				m[v] = p
				if p {
					a = append(a, v+1)
				} else {
					a = append(a, -(v + 1))
				}
			}
		}
		s.probeCube(a, prop, code)
	}
}

func (s *satClient) probeCube(a []int, prop, code string) {
	want := s.tt.and(litsTT(s.nv, a)).sat()
	var res sat.CallResult
	if len(a) == 0 {
		res = s.sol.Call()
	} else {
		res = s.sol.Call(sat.WithAssumptions(s.lits(a)))
	}
	s.check(res.OK(), "H01", "spurious:call", "call without handler is reported as cancelled")
	s.check(res.Sat() == want, prop, code, "solver says sat=%v under assumptions %v, expected %v", res.Sat(), a, want)
}

func (s *satClient) finish() {
	// complete comparison of the solver's content with the model
	if s.nv <= 5 {
		for m := 0; m < 1<<s.nv; m++ {
			var a []int
			for v := 0; v < s.nv; v++ {
				if m>>v&1 == 1 {
					a = append(a, v+1)
				} else {
					a = append(a, -(v + 1))
				}
			}
			s.probeCube(a, s.blame(), "final-content")
		}
	} else {
		var sd []int
		for i := 0; i < 24; i++ {
			sd = append(sd, i+len(s.plan.Ops)*31)
		}
		s.probe(sd, s.blame(), "final-content")
	}
	s.probeCube(nil, s.blame(), "final-content")
}

// blame attributes a wrong content to the property under check when the
// history contains an operation which that property is about.
func (s *satClient) blame() string {
	need := map[string][]string{"S02": {"load"}, "S04": {"inc", "bound", "addenc"}, "S05": {"bb"}, "S06": {"opt"}, "E01": {"enum", "enumbdd"}, "E02": {"count"}, "S03": {"call"}, "S07": {"fos", "occ"}}
	if ks, ok := need[s.s.target]; ok {
		for _, o := range s.plan.Ops {
			if contains2(ks, o.K) {
				return s.s.target
			}
		}
		if s.s.target == "S04" {
			for _, o := range s.plan.Ops {
				for _, n := range o.F {
					if hasPBC(n) {
						return "S04"
					}
				}
			}
		}
	}
	return "S01"
}

func hasPBC(n *Node) bool {
	if n.K == "p" {
		return true
	}
	for _, k := range n.N {
		if hasPBC(k) {
			return true
		}
	}
	return false
}

func contains2(a []string, x string) bool {
	for _, y := range a {
		if x == y {
			return true
		}
	}
	return false
}

func (s *satClient) opInc(o *Op) {
	n := o.F[0]
	form := n.build(s.fac)
	if form.Sort() != f.SortCC {
		return
	}
	cmp, rhs, lits, _, _ := s.fac.PBCOps(form)
	if cmp == f.EQ {
		return
	}
	var vs []int
	for _, l := range lits {
		vs = append(vs, s.decodeLit(l)-1)
	}
	var data *encoding.CCIncrementalData
	var err error
	onFormula := o.a(0)%2 == 1
	if onFormula {
		// encoded to formulas which are then added
		res := encoding.ResultForFormula(s.fac)
		data, err = encoding.EncodeIncremental(s.fac, form, res, s.encArgs(o.a(1))...)
		s.sol.Add(res.Formulas()...)
	} else {
		data, err = s.sol.AddIncrementalCC(form)
	}
	s.check((data == nil) == (err != nil), "S04", "inc-result", "incremental constraint %v returns data=%v err=%v", n, data != nil, err)
	t := n.tt(s.nv)
	s.plain = append(s.plain, t)
	s.tt = s.tt.and(t)
	if data != nil {
		upper := cmp == f.LE || cmp == f.LT
		if cmp == f.LT {
			rhs--
		}
		if cmp == f.GT {
			rhs++
		}
		s.incs = append(s.incs, &satInc{data, vs, upper, rhs, true, onFormula})
	} else {
		// only trivial constraints may be refused, and those must hold already
		k := rhs
		if cmp == f.LT {
			k--
		}
		if cmp == f.GT {
			k++
		}
		up := cmp == f.LE || cmp == f.LT
		trivial := up && (k <= 0 || k >= len(vs)) || !up && (k <= 1 || k >= len(vs))
		s.check(trivial, "S04", "inc-refused", "incremental constraint %v is refused: %v", n, err)
	}
}

// encArgs passes the configuration of encodings or leaves it to the factory.
func (s *satClient) encArgs(x int) []*encoding.Config {
	if x%2 == 1 {
		return nil
	}
	return []*encoding.Config{encConfig(s.cfg)}
}

func (s *satClient) opBound(o *Op) {
	var live []*satInc
	for _, i := range s.incs {
		if i.live {
			live = append(live, i)
		}
	}
	if len(live) == 0 {
		return
	}
	inc := live[o.a(0)%len(live)]
	d := 1 + o.a(1)%3
	n := &Node{K: "p"}
	for _, v := range inc.vars {
		n.N = append(n.N, nVar(v))
		n.C = append(n.C, 1)
	}
	if inc.upper {
		b := inc.rhs - d
		if b < 0 {
			return
		}
		if inc.onFormula {
			s.sol.Add(inc.data.NewUpperBound(b)...)
		} else {
			inc.data.NewUpperBoundForSolver(b)
		}
		inc.rhs, n.O, n.R = b, "<=", b
	} else {
		b := inc.rhs + d
		if b > len(inc.vars) {
			return
		}
		if inc.onFormula {
			s.sol.Add(inc.data.NewLowerBound(b)...)
		} else {
			inc.data.NewLowerBoundForSolver(b)
		}
		inc.rhs, n.O, n.R = b, ">=", b
	}
	s.s.count("probe:bound-tightened")
	t := n.tt(s.nv)
	s.plain = append(s.plain, t)
	s.tt = s.tt.and(t)
}

func (s *satClient) opLoad(o *Op) {
	if len(s.saved) == 0 {
		return
	}
	i := o.a(0) % len(s.saved)
	st := s.saved[i]
	err := s.sol.LoadState(st.st)
	s.logf("load %d err=%v", i, err != nil)
	if !st.valid {
		s.s.count("probe:stale-state")
		s.check(err != nil, "S02", "stale-accepted", "loading an invalidated state succeeds")
		s.check(mapEq(s.knownSet(), s.knownSet()), "S02", "stale-changed", "")
		return
	}
	s.check(err == nil, "S02", "valid-refused", "loading a valid state fails: %v", err)
	s.s.count("probe:state-restored")
	for _, x := range s.saved[i+1:] {
		x.valid = false
	}
	s.tt = st.tt
	s.props = s.props[:st.props]
	s.plain = s.plain[:st.plain]
	for j := st.incs; j < len(s.incs); j++ {
		s.incs[j].live = false
	}
	s.check(mapEq(s.knownSet(), st.known), "S02", "known-vars", "known variables after the restore differ from those at the save")
}

func mapEq(a, b map[f.Variable]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

// checkModel checks a model against the allowed assignments.
func (s *satClient) checkModel(mdl *model.Model, allowed TT, vars []int, known map[f.Variable]bool, prop, what string) map[int]bool {
	s.check(mdl != nil, prop, "no-model:"+what, "%s yields no model", what)
	m := map[int]bool{}
	for _, l := range mdl.Literals {
		x := s.decodeLit(l)
		if x == 0 {
			if vars == nil {
				continue
			}
			s.fail(prop, "model-vars:"+what, "%s: model contains the unexpected literal %s", what, l.Sprint(s.fac))
		}
		v := x - 1
		if x < 0 {
			v = -x - 1
		}
		if _, dup := m[v]; dup {
			s.fail(prop, "model-dup:"+what, "%s: model contains variable %s twice", what, varName(v))
		}
		m[v] = x > 0
		if vars != nil && !contains(vars, v) {
			s.fail(prop, "model-vars:"+what, "%s: model contains the variable %s which was not requested", what, varName(v))
		}
	}
	for _, v := range vars {
		_, in := m[v]
		if known != nil {
			s.check(in == known[s.v(v)], prop, "model-known:"+what, "%s: variable %s in model: %v, known to the solver: %v", what, varName(v), in, known[s.v(v)])
		}
	}
	ext := allowed.and(cubeTT(s.nv, m))
	s.check(ext.sat(), prop, "wrong-model:"+what, "%s: model %s is no model of the content", what, mdl.Sprint(s.fac))
	return m
}

// flags of a call
const (
	fModel = 1 << iota
	fAllModel
	fCore
	fUp
)

func (s *satClient) opCall(o *Op) {
	flags := o.a(0)
	assum := append([]int(nil), o.A[min(1, len(o.A)):]...)
	p := sat.Params()
	var h *Hdl
	if o.H != nil {
		h = s.newHdl(o.H)
		if len(assum)%2 == 0 {
			p = sat.WithHandler(h)
		} else {
			p.Handler(h)
		}
	} else if flags&fModel != 0 && flags>>7&1 == 1 {
		p = sat.WithModel(s.vset(o.B))
	} else if flags&fCore != 0 && s.proofs() && flags>>7&1 == 1 {
		p = sat.WithCore()
	}
	// keep the propositions of this call to judge cores
	var callProps []f.Proposition
	order := NewRng(uint64(len(assum)), uint64(flags), 3)
	for _, l := range s.lits(assum) {
		pr := f.NewStandardProposition(l.AsFormula(), "assumption "+l.Sprint(s.fac))
		callProps = append(callProps, pr)
	}
	local := ttConst(s.nv, true)
	var localForms []f.Formula
	for i, n := range o.F {
		form := n.build(s.fac)
		local = local.and(n.tt(s.nv))
		localForms = append(localForms, form)
		callProps = append(callProps, f.NewStandardProposition(form, fmt.Sprintf("local %d", i)))
	}
	if flags>>6&1 == 1 {
		// through the convenience setters instead of propositions
		if o.H == nil && len(localForms) == 0 && flags == 1<<6 {
			p = sat.WithAssumptions(s.lits(assum))
		} else {
			p.Literal(s.lits(assum)...).Formula(localForms...)
		}
	} else {
		for _, i := range order.Perm(len(callProps)) {
			p.Proposition(callProps[i])
		}
	}
	if flags&fModel != 0 {
		p.WithModel(s.vset(o.B))
	} else if flags&fAllModel != 0 {
		p.WithModel(nil)
	}
	if flags&fCore != 0 && s.proofs() {
		p.WithCore()
	}
	if flags&fUp != 0 {
		p.WithUPZeros()
	}
	known := s.knownSet()
	for _, l := range s.lits(assum) {
		known[l.Variable()] = true
	}
	for _, x := range localForms {
		if flags&fModel != 0 {
			for v := range formulaVars(s.fac, x) {
				// may or may not get onto the solver
				delete(known, v)
			}
		}
	}
	res := s.sol.Call(p)
	allowed := s.tt.and(local)
	full := allowed.and(litsTT(s.nv, assum))
	want := full.sat()
	if h != nil {
		if h.outcome("sat.call", res.State()) {
			s.check(res.Canceled() && !res.OK(), "H01", "state:sat.call", "a cancelled call claims to be ok")
			s.check(!res.Sat() && res.Model() == nil && res.UnsatCore() == nil && res.UpZeroLits() == nil, "H01", "result:sat.call", "a cancelled call returns a result")
			return
		}
	} else {
		s.check(res.OK(), "H01", "spurious:sat.call", "call without handler is reported as cancelled")
	}
	s.logf("sat=%v", res.Sat())
	s.check(res.Sat() == want, s.callProp(), "verdict", "call reports sat=%v, expected %v (assumptions %v, local %v)", res.Sat(), want, assum, o.F)
	if res.Sat() {
		s.s.count("probe:sat")
		if flags&fModel != 0 {
			var kn map[f.Variable]bool
			if len(o.F) == 0 {
				kn = known
			}
			s.checkModel(res.Model(), full, o.B, kn, "S01", "call")
		} else if flags&fAllModel != 0 {
			s.checkModel(res.Model(), full, nil, nil, "S01", "call")
		}
		if flags&fUp != 0 {
			s.check(res.UpZeroLits() != nil || true, "S07", "upzero", "")
			for _, l := range res.UpZeroLits() {
				x := s.decodeLit(l)
				if x == 0 {
					continue
				}
				s.s.count("probe:upzero-literal")
				s.check(allowed.implies(litTT(s.nv, x)), "S07", "upzero", "literal %s is reported as implied at level 0 but is not implied", l.Sprint(s.fac))
			}
		}
		s.check(res.UnsatCore() == nil, "S03", "core-of-sat", "a satisfiable call returns a core")
	} else {
		s.s.count("probe:unsat")
		s.check(res.Model() == nil, "S01", "model-of-unsat", "an unsatisfiable call returns a model")
		if flags&fCore != 0 && s.proofs() {
			s.checkCore(res, callProps, flags>>6&1 == 1, assum, localForms, o.F)
		}
	}
}

func (s *satClient) callProp() string {
	switch s.s.target {
	case "S02", "S04":
		return s.blame()
	}
	return "S01"
}

func (s *satClient) checkCore(res sat.CallResult, callProps []f.Proposition, anon bool, assum []int, localForms []f.Formula, nodes []*Node) {
	core := res.UnsatCore()
	s.check(core != nil, "S03", "no-core", "an unsatisfiable call with core computation returns no core")
	s.s.count("probe:core")
	ok := map[f.Proposition]bool{}
	for _, p := range s.props {
		ok[p] = true
	}
	for _, p := range callProps {
		ok[p] = true
	}
	anonForms := map[f.Formula]bool{}
	if anon {
		for _, p := range callProps {
			anonForms[p.Formula()] = true
		}
	}
	var cl []f.Formula
	plainAll := ttConst(s.nv, true)
	for _, t := range s.plain {
		plainAll = plainAll.and(t)
	}
	if anon {
		plainAll = plainAll.and(litsTT(s.nv, assum))
		for _, n := range nodes {
			plainAll = plainAll.and(n.tt(s.nv))
		}
	}
	for _, p := range core.Propositions {
		s.check(p != nil && !isNil(p), "S03", "core-nil", "core contains a nil proposition")
		form := p.Formula()
		cl = append(cl, form)
		if ok[p] || anon && anonForms[form] {
			continue
		}
		// content which was added without a proposition is represented by its clauses
		if len(s.plain) == 0 && !anon {
			s.fail("S03", "core-foreign", "core contains %s which was neither added nor passed", form.Sprint(s.fac))
		}
		s.check(isClause(s.fac, form), "S03", "core-foreign", "core contains %s which was neither added nor passed", form.Sprint(s.fac))
		rd := newReader(s.fac, s.nv)
		if t, isPlan := rd.tt(form); isPlan {
			s.check(plainAll.implies(t), "S03", "core-foreign", "core contains the clause %s which does not follow from what was added without proposition", form.Sprint(s.fac))
		}
	}
	sort.Slice(cl, func(i, j int) bool { return cl[i] < cl[j] })
	var names []string
	for _, x := range cl {
		names = append(names, x.Sprint(s.fac))
	}
	s.logf("core %s", strings.Join(names, "; "))
	coreSat, rd0, auxInCore := false, newReader(s.fac, s.nv), false
	tcore := ttConst(s.nv, true)
	for _, x := range cl {
		if t, isPlan := rd0.tt(x); isPlan {
			tcore = tcore.and(t)
		} else {
			auxInCore = true
		}
	}
	if coreSat = tcore.sat(); auxInCore && coreSat && s.formulasSat(cl, nil) {
		// a clause of the content that was added without proposition talks about
		// an auxiliary variable whose definition may have been recorded with
		// another formula: the content itself stands for it
		coreSat = tcore.and(plainAll).sat()
		s.s.count("probe:core-with-aux-clause")
	} else {
		coreSat = coreSat && !auxInCore
	}
	s.check(!coreSat, "S03", "core-sat", "the core [%s] is satisfiable", strings.Join(names, "; "))
	if core.IsGuaranteedMUS {
		for i := range cl {
			rest := append(append([]f.Formula{}, cl[:i]...), cl[i+1:]...)
			s.check(s.formulasSat(rest, nil), "S03", "core-mus", "the core [%s] is announced as minimal but %s is superfluous", strings.Join(names, "; "), cl[i].Sprint(s.fac))
		}
	}
}

// formulasSat decides the conjunction of formulas under a cube by the
// reference procedures (truth tables, DPLL when auxiliary variables occur).
func (c *Client) formulasSat(fs []f.Formula, cube map[int]bool) bool {
	rd := newReader(c.fac, c.nv)
	t := cubeTT(c.nv, cube)
	var rest []f.Formula
	for _, x := range fs {
		if tt, ok := rd.tt(x); ok {
			t = t.and(tt)
		} else {
			rest = append(rest, x)
		}
	}
	if len(rest) == 0 {
		return t.sat()
	}
	if !t.sat() {
		return false
	}
	for m := 0; m < 1<<c.nv; m++ {
		if !t.get(m) {
			continue
		}
		if c.auxSat(rest, m) {
			return true
		}
	}
	return false
}

// auxSat decides whether clauses (and CCs) with auxiliary variables are
// satisfiable under the full assignment m of the plan variables.
func (c *Client) auxSat(fs []f.Formula, m int) bool {
	d := newDpll()
	idx := map[f.Variable]int{}
	val := func(l f.Literal) (int, int) { // (const: 1 true, -1 false, 0 aux), lit
		x := c.decodeLit(l)
		if x > 0 {
			return 2*(m>>(x-1)&1) - 1, 0
		}
		if x < 0 {
			return 1 - 2*(m>>(-x-1)&1), 0
		}
		v := l.Variable()
		i, ok := idx[v]
		if !ok {
			i = len(idx) + 1
			idx[v] = i
		}
		if l.IsNeg() {
			return 0, -i
		}
		return 0, i
	}
	for _, x := range fs {
		switch {
		case isClause(c.fac, x):
			var cl []int
			satisfied := false
			lits := []f.Formula{x}
			if x.Sort() == f.SortFalse {
				lits = nil
			} else if x.Sort() == f.SortOr {
				lits, _ = c.fac.NaryOperands(x)
			}
			for _, l := range lits {
				k, y := val(f.Literal(l))
				if k > 0 {
					satisfied = true
				} else if k == 0 {
					cl = append(cl, y)
				}
			}
			if !satisfied {
				d.clauses = append(d.clauses, cl)
			}
		case x.Sort() == f.SortTrue:
		case x.Sort() == f.SortCC || x.Sort() == f.SortPBC:
			cmp, rhs, lits, coeffs, _ := c.fac.PBCOps(x)
			k := 0
			var as []int
			for i, l := range lits {
				co := 1
				if len(coeffs) == len(lits) {
					co = coeffs[i]
				}
				t, y := val(l)
				if t > 0 {
					k += co
				} else if t == 0 {
					if co != 1 {
						panic("simbug: auxSat with weighted aux constraint")
					}
					as = append(as, y)
				}
			}
			if len(as) == 0 {
				if !cmpOp(k, cStr(cmp), rhs) {
					return false
				}
				continue
			}
			if cmp != f.LE {
				panic("simbug: auxSat with comparator " + cStr(cmp))
			}
			d.amks = append(d.amks, amk{as, rhs - k})
		default:
			// general formula over aux variables: expand by cases on its variables
			return c.generalAuxSat(fs, m)
		}
	}
	d.nv = len(idx)
	return d.solve()
}

// generalAuxSat is the fallback for formulas that are not clauses.
func (c *Client) generalAuxSat(fs []f.Formula, m int) bool {
	aux := map[f.Variable]int{}
	for _, x := range fs {
		for v := range formulaVars(c.fac, x) {
			if c.decodeLit(v.AsLiteral()) == 0 {
				if _, ok := aux[v]; !ok {
					aux[v] = c.nv + len(aux)
				}
			}
		}
	}
	if c.nv+len(aux) > 18 {
		panic(undecided{})
	}
	rd := newReader(c.fac, c.nv)
	rd.aux = aux
	t := ttConst(c.nv+len(aux), true)
	for _, x := range fs {
		tt, _ := rd.tt(x)
		t = t.and(tt)
	}
	for v := 0; v < c.nv; v++ {
		t = t.cofactor(v, m>>v&1 == 1)
	}
	return t.sat()
}

func (s *satClient) opBackbone(o *Op) {
	sorts := []sat.BackboneSort{sat.BBBoth, sat.BBPos, sat.BBNeg}
	so := o.a(0) % 3
	vars := uniq(o.B)
	var bb *sat.Backbone
	if o.H != nil {
		h := s.newHdl(o.H)
		b, st := s.sol.ComputeBackboneWithHandler(s.fac, s.vset(vars), h, sorts[so])
		if h.outcome("backbone", st) {
			s.check(b == nil, "H01", "result:backbone", "a cancelled backbone computation returns a result")
			return
		}
		bb = b
	} else {
		bb = s.sol.ComputeBackbone(s.fac, s.vset(vars), sorts[so])
	}
	s.check(bb != nil, "S05", "nil", "no backbone is returned")
	want := s.tt.sat()
	s.check(bb.Sat == want, "S05", "sat", "backbone reports sat=%v, expected %v", bb.Sat, want)
	if !want {
		s.check(len(bb.Positive)+len(bb.Negative)+len(bb.Optional) == 0, "S05", "unsat-lits", "backbone of an unsatisfiable content has literals")
		return
	}
	var pos, neg, opt []int
	for _, v := range vars {
		switch {
		case s.tt.implies(ttVar(s.nv, v)):
			pos = append(pos, v)
		case s.tt.implies(ttVar(s.nv, v).not()):
			neg = append(neg, v)
		default:
			opt = append(opt, v)
		}
	}
	if so == 1 {
		neg, opt = nil, nil
	}
	if so == 2 {
		pos, opt = nil, nil
	}
	get := func(vs []f.Variable) string {
		var r []int
		for _, v := range vs {
			r = append(r, s.decodeLit(v.AsLiteral())-1)
		}
		sort.Ints(r)
		return fmt.Sprint(r)
	}
	g := fmt.Sprint(get(bb.Positive), get(bb.Negative), get(bb.Optional))
	w := fmt.Sprint(fmt.Sprint(append([]int{}, pos...)), fmt.Sprint(append([]int{}, neg...)), fmt.Sprint(append([]int{}, opt...)))
	s.logf("backbone %s", g)
	s.s.count("probe:backbone")
	s.check(g == w, "S05", "wrong", "backbone (pos,neg,opt) of %v sort %d is %s, expected %s", vars, so, g, w)
}

func (s *satClient) opOptimize(o *Op) {
	maxi := o.a(0)%2 == 0
	lits := o.A[min(1, len(o.A)):]
	add := o.B
	known := s.knownSet()
	var mdl *model.Model
	cancelled := false
	better := -1
	score := func(m int) int {
		n := 0
		for _, x := range lits {
			if litTT(s.nv, x).get(m) {
				n++
			}
		}
		return n
	}
	best, found := 0, false
	for m := 0; m < 1<<s.nv; m++ {
		if s.tt.get(m) {
			v := score(m)
			if !found || maxi && v > best || !maxi && v < best {
				best, found = v, true
			}
		}
	}
	if o.H != nil {
		h := s.newHdl(o.H)
		h.onEvent = func(e event.Event) {
			if b, ok := e.(sat.EventFoundBetterBound); ok {
				s.s.count("probe:better-bound")
				better++
				m := b.Model()
				s.checkModel(m, s.tt, nil, nil, "S06", "bound-model")
			}
		}
		var st = h
		if maxi {
			m2, state := s.sol.MaximizeWithHandler(s.lits(lits), st, s.vset(add)...)
			mdl, cancelled = m2, h.outcome("maximize", state)
		} else {
			m2, state := s.sol.MinimizeWithHandler(s.lits(lits), st, s.vset(add)...)
			mdl, cancelled = m2, h.outcome("minimize", state)
		}
	} else if maxi {
		mdl = s.sol.Maximize(s.lits(lits), s.vset(add)...)
	} else {
		mdl = s.sol.Minimize(s.lits(lits), s.vset(add)...)
	}
	if cancelled && mdl == nil {
		return
	}
	if !found && !cancelled {
		s.check(mdl == nil, "S06", "model-of-unsat", "optimisation of an unsatisfiable content returns a model")
		return
	}
	s.check(mdl != nil, "S06", "no-model", "optimisation of a satisfiable content returns no model")
	want := uniq(append([]int{}, add...))
	for _, x := range lits {
		if x < 0 {
			x = -x
		}
		want = append(want, x-1)
	}
	want = uniq(want)
	m := s.checkModel(mdl, s.tt, want, known, "S06", "optimum")
	if cancelled {
		return
	}
	// the model must extend to an optimal one
	ok := false
	cube := cubeTT(s.nv, m)
	for a := 0; a < 1<<s.nv; a++ {
		if s.tt.get(a) && cube.get(a) && score(a) == best {
			ok = true
			break
		}
	}
	s.logf("optimum %d", best)
	s.s.count("probe:optimum")
	s.check(ok, "S06", "not-optimal", "optimisation (max=%v) of %v returns %s which does not reach the optimum %d", maxi, lits, mdl.Sprint(s.fac), best)
}

func strategy(fac f.Factory, kind, maxModels int, vars []f.Variable) iter.Strategy {
	if kind >= 1000 {
		return userStrategy{uint64(kind), maxModels}
	}
	var sp iter.SplitProvider
	switch kind % 6 {
	case 0:
		return nil
	case 5:
		sp = iter.NewLeastCommonVarProvider(0.3, 4)
	case 1:
		sp = iter.DefaultLeastCommonVarProvider()
	case 2:
		sp = iter.DefaultMostCommonVarProvider()
	case 3:
		sp = iter.NewFixedVarProvider(f.NewVarSet(vars[:(len(vars)+1)/2]...))
	default:
		sp = iter.NewMostCommonVarProvider(1, 3)
	}
	return iter.NewBasicStrategy(sp, maxModels)
}

// userStrategy is a strategy of the caller: other limits and other subsets of
// the offered variables at every depth.
type userStrategy struct {
	seed uint64
	max  int
}

func (u userStrategy) limit(depth, salt int) int {
	return max(3, NewRng(u.seed, uint64(depth), uint64(salt)).Range(3, max(3, u.max)))
}

func (u userStrategy) MaxModelsForIter(depth int) int             { return u.limit(depth, 1) }
func (u userStrategy) MaxModelsForSplitAssignments(depth int) int { return u.limit(depth, 2) }

func (u userStrategy) subset(vars *f.VarSet, depth, most int) *f.VarSet {
	vs := vars.Content()
	if len(vs) == 0 {
		return f.NewVarSet()
	}
	r := NewRng(u.seed, uint64(depth), uint64(len(vs)), 3)
	n := r.Range(1, max(1, min(most, len(vs))))
	var res []f.Variable
	for _, i := range r.Perm(len(vs))[:n] {
		res = append(res, vs[i])
	}
	return f.NewVarSet(res...)
}

func (u userStrategy) SplitVarsForRecursionDepth(vars *f.VarSet, _ *sat.Solver, depth int) *f.VarSet {
	return u.subset(vars, depth, 6)
}

func (u userStrategy) ReduceSplitVars(vars *f.VarSet, depth int) *f.VarSet {
	return u.subset(vars, depth+100, vars.Size()-1)
}

func dedupe(vs []int) []int {
	seen := map[int]bool{}
	var r []int
	for _, v := range vs {
		if !seen[v] {
			seen[v] = true
			r = append(r, v)
		}
	}
	return r
}

// checkEnum judges enumerated models; complete says whether all are due.
func (c *Client) checkEnum(models []*model.Model, tt TT, vars, add []int, complete bool, prop string, api string) {
	proj := tt.exists(complement(c.nv, vars))
	seen := map[int]bool{}
	allowedVars := map[int]bool{}
	for _, v := range vars {
		allowedVars[v] = true
	}
	for _, v := range add {
		allowedVars[v] = true
	}
	for _, m := range models {
		a := map[int]bool{}
		for _, l := range m.Literals {
			x := c.decodeLit(l)
			if x == 0 {
				c.fail(prop, "lit:"+api, "%s: enumerated model contains %s", api, l.Sprint(c.fac))
			}
			v := max(x, -x) - 1
			if _, dup := a[v]; dup || !allowedVars[v] {
				c.fail(prop, "var:"+api, "%s: enumerated model %s contains an unexpected or repeated variable", api, m.Sprint(c.fac))
			}
			a[v] = x > 0
		}
		key := 0
		for i, v := range vars {
			b, ok := a[v]
			if !ok {
				c.fail(prop, "missing-var:"+api, "%s: enumerated model %s lacks variable %s", api, m.Sprint(c.fac), varName(v))
			}
			if b {
				key |= 1 << i
			}
		}
		for _, v := range add {
			if _, ok := a[v]; !ok {
				c.fail(prop, "missing-add:"+api, "%s: enumerated model %s lacks the additional variable %s", api, m.Sprint(c.fac), varName(v))
			}
		}
		c.check(!seen[key], prop, "duplicate:"+api, "%s: model %s is enumerated twice", api, m.Sprint(c.fac))
		seen[key] = true
		c.check(tt.and(cubeTT(c.nv, a)).sat(), prop, "wrong:"+api, "%s: enumerated assignment %s is no model", api, m.Sprint(c.fac))
	}
	if complete {
		want := proj.count() >> (c.nv - len(vars))
		c.check(len(seen) == want, prop, "incomplete:"+api, "%s: %d models enumerated over %v, expected %d", api, len(seen), vars, want)
	}
	c.logf("%s %d models", api, len(models))
}

func (s *satClient) opEnum(o *Op) {
	vars := dedupe(o.A[min(2, len(o.A)):])
	var add []int
	for _, v := range dedupe(o.B) {
		add = append(add, v)
	}
	vs := s.vset(vars)
	st := strategy(s.fac, o.a(0), o.a(1), vs)
	var models []*model.Model
	complete := true
	if o.H == nil && st == nil {
		models = enum.OnSolver(s.sol, vs, s.vset(add)...)
	} else {
		h := s.newHdl(o.H)
		cfg := &iter.Config{Handler: h, Strategy: st}
		m, state := enum.OnSolverWithConfig(s.sol, vs, cfg, s.vset(add)...)
		complete = !h.outcome("enum", state)
		models = m
	}
	if len(models) > 0 {
		s.s.count("probe:models-enumerated")
	}
	s.checkEnum(models, s.tt, vars, add, complete, "E01", "enum")
}

func (s *satClient) opEnumBdd(o *Op) {
	vars := dedupe(o.A[min(2, len(o.A)):])
	if len(vars) == 0 {
		return
	}
	vs := s.vset(vars)
	st := strategy(s.fac, o.a(0), o.a(1), vs)
	scale := s.addUnknown(o, &vs)
	var b *bdd.BDD
	complete := true
	if o.H == nil && st == nil {
		b = enum.ToBddOnSolver(s.sol, vs)
	} else {
		h := s.newHdl(o.H)
		bb, state := enum.ToBddOnSolverWithConfig(s.sol, vs, &iter.Config{Handler: h, Strategy: st})
		complete = !h.outcome("enumbdd", state)
		b = bb
	}
	if b == nil {
		s.check(!complete, "E01", "bdd-nil", "no BDD returned")
		return
	}
	proj := s.tt.exists(complement(s.nv, vars))
	t, ok := newReader(s.fac, s.nv).tt(b.ToFormula(s.fac))
	s.check(ok, "E01", "bdd-aux", "enumerated BDD has unexpected variables")
	if complete {
		s.check(t.eq(proj), "E01", "bdd-wrong", "enumerated BDD represents %d of %d assignments", t.count(), proj.count())
		want := scale(proj.count() >> (s.nv - len(vars)))
		got := b.ModelCount()
		s.check(got.Cmp(want) == 0, "E01", "bdd-count", "enumerated BDD has %v models, expected %v", got, want)
	} else {
		s.check(t.implies(proj), "E01", "bdd-wrong", "partially enumerated BDD contains wrong assignments")
	}
	s.logf("enumbdd %d", t.count())
}

// addUnknown adds variables which nobody else knows to vs, as many as the
// first element of B says, and returns how this scales a model count.
func (c *Client) addUnknown(o *Op, vs *[]f.Variable) func(int) *big.Int {
	k := 0
	if len(o.B) > 0 {
		k = o.B[0] % 80
	}
	for i := range k {
		*vs = append(*vs, c.fac.Var(fmt.Sprintf("unknown%d", i)))
	}
	return func(n int) *big.Int {
		return new(big.Int).Lsh(big.NewInt(int64(n)), uint(k))
	}
}

func (s *satClient) opCount(o *Op) {
	vars := dedupe(o.A[min(2, len(o.A)):])
	vs := s.vset(vars)
	st := strategy(s.fac, o.a(0), o.a(1), vs)
	scale := s.addUnknown(o, &vs)
	var n *big.Int
	if o.H == nil && st == nil {
		n = count.OnSolver(s.sol, vs)
	} else {
		h := s.newHdl(o.H)
		nn, state := count.OnSolverWithConfig(s.sol, vs, &iter.Config{Handler: h, Strategy: st})
		if h.outcome("count.solver", state) {
			proj := scale(s.tt.exists(complement(s.nv, vars)).count() >> (s.nv - len(vars)))
			s.check(nn == nil || nn.Cmp(proj) <= 0, "E02", "partial", "cancelled count reports %v of %v", nn, proj)
			return
		}
		n = nn
	}
	want := scale(s.tt.exists(complement(s.nv, vars)).count() >> (s.nv - len(vars)))
	s.check(n != nil && n.Cmp(want) == 0, "E02", "wrong:solver", "count over %v is %v, expected %v", vars, n, want)
	s.logf("count %v", n)
}

func (s *satClient) opFOS() {
	fs := s.sol.FormulasOnSolver()
	s.s.count("probe:formulas-on-solver")
	ms := 1 << s.nv
	if s.nv <= 7 {
		for m := 0; m < ms; m++ {
			s.fosAt(fs, m)
		}
		return
	}
	r := NewRng(uint64(s.opIdx), 11)
	for i := 0; i < 48; i++ {
		s.fosAt(fs, r.Intn(ms))
	}
}

func (s *satClient) fosAt(fs []f.Formula, m int) {
	got := s.auxSat(fs, m)
	s.check(got == s.tt.get(m), "S07", "formulas", "formulas on solver allow=%v the assignment %b, the content allows=%v", got, m, s.tt.get(m))
}

func (s *satClient) opOcc(o *Op) {
	known := s.knownSet()
	sup := s.tt.support()
	if !s.tt.sat() {
		sup = nil
	}
	for _, v := range sup {
		s.check(known[s.v(v)], "S07", "known", "variable %s is constrained but not known to the solver", varName(v))
	}
	var occ map[f.Variable]int
	var req []int
	if o.a(0)%2 == 0 {
		occ = s.sol.VarOccurrences(nil)
		req = sup
	} else {
		req = dedupe(o.B)
		occ = s.sol.VarOccurrences(f.NewVarSet(s.vset(req)...))
		for _, v := range req {
			_, ok := occ[s.v(v)]
			s.check(ok, "S07", "occ-missing", "occurrences of the requested variable %s are not reported", varName(v))
		}
		for v := range occ {
			i := s.decodeLit(v.AsLiteral())
			s.check(i > 0 && contains(req, i-1), "S07", "occ-extra", "occurrences of an unrequested variable are reported")
		}
	}
	for v, n := range occ {
		s.check(n >= 0 && (n == 0 || known[v]), "S07", "occ-known", "variable %s is reported with %d occurrences but is unknown", v.Sprint(s.fac), n)
	}
	for _, v := range req {
		if contains(sup, v) {
			s.check(occ[s.v(v)] > 0, "S07", "occ-zero", "variable %s is constrained but reported with %d occurrences", varName(v), occ[s.v(v)])
		}
	}
}

var _ = math.MaxInt
