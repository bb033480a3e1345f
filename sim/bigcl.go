package main

import (
	"fmt"
	"math/big"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/model/count"
	"github.com/booleworks/logicng-go/model/enum"
	"github.com/booleworks/logicng-go/model/iter"
	"github.com/booleworks/logicng-go/sat"
)

// The big client runs histories on one SAT solver with problems of 20 to 60
// variables, hard enough for restarts, clause deletion and activity rescaling.
// Its content are clauses, at-most-k constraints and parity constraints; the
// reference is a counter-based DPLL, or Gaussian elimination if there are only
// parity constraints.

func init() { kinds["satbig"] = newBigClient }

type bigSaved struct {
	st              *sat.SolverState
	cls, amks, xors int
	props           int
	known           map[f.Variable]bool
	valid           bool
}

type bigClient struct {
	*Client
	cfg   []int
	sol   *sat.Solver
	cls   [][]int
	amks  []amk
	xors  [][]int
	props []f.Proposition
	saved []*bigSaved
	inv   map[f.Formula][][]int // clauses of a formula
}

func newBigClient(c *Client) clientKind {
	s := &bigClient{Client: c, cfg: c.plan.Cfg, inv: map[f.Formula][][]int{}}
	s.sol = sat.NewSolver(c.fac, satConfig(s.cfg))
	return s
}

func xorClauses(x []int) [][]int {
	var r [][]int
	for m := 0; m < 1<<len(x); m++ {
		// forbid the assignments with even parity
		p := 0
		cl := make([]int, len(x))
		for i, l := range x {
			if m>>i&1 == 1 {
				p ^= 1
				cl[i] = -l
			} else {
				cl[i] = l
			}
		}
		if p == 0 {
			r = append(r, cl)
		}
	}
	return r
}

// gauss decides the parity constraints under assumptions; ok is false if
// there are other constraints, too.
func (s *bigClient) gauss(assum []int) (sat bool, rank int, ok bool) {
	if len(s.cls)+len(s.amks) > 0 {
		return false, 0, false
	}
	type row struct {
		m uint64
		b uint64
	}
	var rows []row
	add := func(x []int) bool {
		r := row{0, 1}
		for _, l := range x {
			if l < 0 {
				r.b ^= 1
				l = -l
			}
			r.m ^= 1 << (l - 1)
		}
		for _, q := range rows {
			if r.m&(q.m&-q.m) != 0 {
				r.m ^= q.m
				r.b ^= q.b
			}
		}
		if r.m == 0 {
			return r.b == 0
		}
		rows = append(rows, r)
		return true
	}
	for _, x := range s.xors {
		if !add(x) {
			return false, 0, true
		}
	}
	for _, a := range assum {
		if !add([]int{a}) {
			return false, 0, true
		}
	}
	return true, len(rows), true
}

// refSat decides the content under assumptions and further constraints.
func (s *bigClient) refSat(assum []int, extra ...amk) bool {
	if len(extra) == 0 {
		if r, _, ok := s.gauss(assum); ok {
			return r
		}
	}
	d := newCounter(s.nv)
	for _, c := range s.cls {
		d.clause(c)
	}
	for _, x := range s.xors {
		for _, c := range xorClauses(x) {
			d.clause(c)
		}
	}
	for _, a := range s.amks {
		d.atMost(a.lits, a.k)
	}
	for _, a := range extra {
		d.atMost(a.lits, a.k)
	}
	return d.solve(assum)
}

func nodeLits(n *Node) []int {
	lit := func(k *Node) int {
		if k.K == "!" {
			return -(k.N[0].V + 1)
		}
		return k.V + 1
	}
	if n.K != "|" {
		return []int{lit(n)}
	}
	var r []int
	for _, k := range n.N {
		r = append(r, lit(k))
	}
	return r
}

func (s *bigClient) known() map[f.Variable]bool {
	m := map[f.Variable]bool{}
	for _, v := range s.sol.CoreSolver().KnownVariables(s.fac).Content() {
		m[v] = true
	}
	return m
}

func (s *bigClient) proofs() bool { return cfgAt(s.cfg, cProofs)%2 == 1 }

func (s *bigClient) add(form f.Formula, clauses [][]int) {
	if s.proofs() {
		p := f.NewStandardProposition(form, fmt.Sprintf("p%d", len(s.props)))
		s.inv[form] = clauses
		s.props = append(s.props, p)
		s.sol.AddProposition(p)
	} else {
		s.sol.Add(form)
	}
}

// blame is the property whose check a wrong verdict belongs to.
func (s *bigClient) blame() string {
	if s.s.target == "S02" {
		for _, o := range s.plan.Ops[:min(s.opIdx+1, len(s.plan.Ops))] {
			if o.K == "load" {
				return "S02"
			}
		}
	}
	if s.s.target == "S05" || s.s.target == "S06" {
		want := map[string]string{"S05": "bb", "S06": "opt"}[s.s.target]
		for _, o := range s.plan.Ops[:min(s.opIdx+1, len(s.plan.Ops))] {
			if o.K == want {
				return s.s.target
			}
		}
	}
	if s.s.target == "S04" {
		return "S04"
	}
	return "S01"
}

func (s *bigClient) op(o *Op) {
	switch o.K {
	case "cl":
		for _, n := range o.F {
			cl := nodeLits(n)
			s.add(n.build(s.fac), [][]int{cl})
			s.cls = append(s.cls, cl)
		}
	case "amk":
		if len(o.A) < 3 {
			return
		}
		lits := o.A[1:]
		k := o.A[0]
		pos := true
		for _, l := range lits {
			pos = pos && l > 0
		}
		var form f.Formula
		if pos {
			form = s.fac.CC(f.LE, uint32(k), s.varsOf(lits)...)
		} else {
			cs := make([]int, len(lits))
			for i := range cs {
				cs[i] = 1
			}
			form = s.fac.PBC(f.LE, k, s.lits(lits), cs)
		}
		s.sol.Add(form)
		s.amks = append(s.amks, amk{lits, k})
	case "xor":
		x := append([]int(nil), o.A...)
		if len(x) < 1 || len(x) > 5 {
			return
		}
		cls := xorClauses(x)
		if o.S == "e" && len(x) > 1 {
			ls := s.lits(x)
			if len(x)%2 == 0 {
				ls[0] = ls[0].Negate(s.fac)
			}
			form := ls[0].AsFormula()
			for _, l := range ls[1:] {
				form = s.fac.Equivalence(l.AsFormula(), form)
			}
			s.add(form, cls)
		} else {
			for _, c := range cls {
				ls := s.lits(c)
				s.add(s.fac.Clause(ls...), [][]int{c})
			}
		}
		s.xors = append(s.xors, x)
	case "call":
		s.call(o)
	case "save":
		s.saved = append(s.saved, &bigSaved{s.sol.SaveState(), len(s.cls), len(s.amks), len(s.xors), len(s.props), s.known(), true})
	case "load":
		if len(s.saved) == 0 {
			return
		}
		i := o.a(0) % len(s.saved)
		st := s.saved[i]
		err := s.sol.LoadState(st.st)
		s.check((err == nil) == st.valid, "S02", "load", "loading state %d (valid=%v) returns %v", i, st.valid, err)
		if !st.valid {
			return
		}
		for _, x := range s.saved[i+1:] {
			x.valid = false
		}
		s.cls, s.amks, s.xors, s.props = s.cls[:st.cls], s.amks[:st.amks], s.xors[:st.xors], s.props[:st.props]
		s.check(mapEq(s.known(), st.known), "S02", "known-vars", "known variables after the restore differ from those at the save")
	case "bb":
		s.backbone(o)
	case "opt":
		s.optimize(o)
	case "count":
		s.count2(o)
	default:
		panic("simbug: satbig op " + o.K)
	}
}

func (s *bigClient) varsOf(lits []int) []f.Variable {
	var r []f.Variable
	for _, l := range lits {
		r = append(r, s.v(max(l, -l)-1))
	}
	return r
}

func (s *bigClient) modelLits(m *model.Model) []int {
	var r []int
	seen := map[int]bool{}
	for _, l := range m.Literals {
		if x := s.decodeLit(l); x != 0 {
			v := max(x, -x)
			s.check(!seen[v], "S01", "model-dup:call", "model contains variable %s twice", varName(v-1))
			seen[v] = true
			r = append(r, x)
		}
	}
	return r
}

func (s *bigClient) call(o *Op) {
	flags := o.a(0)
	assum := append([]int(nil), o.A[min(1, len(o.A)):]...)
	p := sat.Params()
	var h *Hdl
	if o.H != nil {
		h = s.newHdl(o.H)
		p.Handler(h)
	}
	ok := map[f.Proposition]bool{}
	if s.proofs() {
		for _, l := range s.lits(assum) {
			pr := f.NewStandardProposition(l.AsFormula(), "assumption "+l.Sprint(s.fac))
			ok[pr] = true
			p.Proposition(pr)
		}
	} else {
		p.Literal(s.lits(assum)...)
	}
	all := allVars(s.nv)
	if flags&fModel != 0 {
		p.WithModel(s.vset(all))
	}
	if flags&fCore != 0 && s.proofs() {
		p.WithCore()
	}
	if flags&fUp != 0 {
		p.WithUPZeros()
	}
	before := s.s.events
	res := s.sol.Call(p)
	if h != nil && h.outcome("sat.call", res.State()) {
		s.check(!res.OK() && !res.Sat() && res.Model() == nil && res.UnsatCore() == nil, "H01", "result:sat.call", "a cancelled call returns a result")
		return
	}
	s.check(res.OK(), "H01", "spurious:sat.call", "call is reported as cancelled")
	if s.s.events-before > 200 {
		s.s.count("probe:big-call-200-events")
	}
	s.logf("sat=%v", res.Sat())
	if res.Sat() && flags&fModel != 0 {
		// the model itself proves the verdict
		s.check(res.Model() != nil, "S01", "no-model:call", "call yields no model")
		ml := s.modelLits(res.Model())
		s.check(s.refSat(append(append([]int{}, assum...), ml...)), "S01", "wrong-model:call", "model is no model of the content (assumptions %v)", assum)
		s.s.count("probe:sat")
		return
	}
	want := s.refSat(assum)
	s.check(res.Sat() == want, s.blame(), "verdict", "call reports sat=%v, expected %v (assumptions %v)", res.Sat(), want, assum)
	if res.Sat() {
		s.s.count("probe:sat")
	} else {
		s.s.count("probe:unsat")
	}
	if flags&fUp != 0 && want {
		for i, l := range res.UpZeroLits() {
			if x := s.decodeLit(l); x != 0 && i < 3 {
				s.check(!s.refSat([]int{-x}), "S07", "upzero", "literal %s is reported as implied at level 0 but is not implied", l.Sprint(s.fac))
			}
		}
	}
	if !want && flags&fCore != 0 && s.proofs() {
		core := res.UnsatCore()
		s.check(core != nil, "S03", "no-core", "an unsatisfiable call with core computation returns no core")
		s.s.count("probe:core")
		for _, pr := range s.props {
			ok[pr] = true
		}
		d := newCounter(s.nv)
		var as []int
		for _, pr := range core.Propositions {
			s.check(pr != nil && ok[pr], "S03", "core-foreign", "core contains a proposition which was neither added nor passed")
			if cs, in := s.inv[pr.Formula()]; in {
				for _, c := range cs {
					d.clause(c)
				}
			} else {
				as = append(as, s.decodeLit(f.Literal(pr.Formula())))
			}
		}
		s.check(!d.solve(as), "S03", "core-sat", "the core with %d propositions is satisfiable", len(core.Propositions))
	}
}

func (s *bigClient) hdl(o *Op) (*Hdl, handler.Handler) {
	h := s.newHdl(o.H)
	return h, h
}

func (s *bigClient) backbone(o *Op) {
	vars := uniq(o.B)
	h, hd := s.hdl(o)
	b, st := s.sol.ComputeBackboneWithHandler(s.fac, s.vset(vars), hd, sat.BBBoth)
	if h.outcome("backbone", st) {
		s.check(b == nil, "H01", "result:backbone", "a cancelled backbone computation returns a result")
		return
	}
	want := s.refSat(nil)
	s.check(b.Sat == want, "S05", "sat", "backbone reports sat=%v, expected %v", b.Sat, want)
	if !want {
		return
	}
	s.s.count("probe:backbone")
	cls := map[int]int{}
	set := func(vs []f.Variable, c int) {
		for _, v := range vs {
			cls[s.decodeLit(v.AsLiteral())-1] += c
		}
	}
	set(b.Positive, 1)
	set(b.Negative, 2)
	set(b.Optional, 4)
	for _, v := range vars {
		w := 4
		if !s.refSat([]int{-(v + 1)}) {
			w = 1
		} else if !s.refSat([]int{v + 1}) {
			w = 2
		}
		s.check(cls[v] == w, "S05", "wrong", "backbone classifies %s as %d, expected %d", varName(v), cls[v], w)
		delete(cls, v)
	}
	s.check(len(cls) == 0, "S05", "wrong", "backbone classifies variables which were not requested")
}

func (s *bigClient) optimize(o *Op) {
	maxi := o.a(0)%2 == 0
	lits := o.A[min(1, len(o.A)):]
	if len(lits) == 0 {
		return
	}
	h, hd := s.hdl(o)
	var m *model.Model
	var st handler.State
	if maxi {
		m, st = s.sol.MaximizeWithHandler(s.lits(lits), hd)
	} else {
		m, st = s.sol.MinimizeWithHandler(s.lits(lits), hd)
	}
	cancelled := h.outcome("optimize", st)
	if cancelled && m == nil {
		return
	}
	if m == nil {
		s.check(!s.refSat(nil), "S06", "no-model", "optimisation of a satisfiable content returns no model")
		return
	}
	ml := s.modelLits(m)
	s.check(s.refSat(ml), "S06", "wrong-model:optimum", "optimisation returns an assignment which is no model")
	if cancelled {
		return
	}
	// variables the solver does not know can be chosen freely
	val := map[int]bool{}
	for _, x := range ml {
		val[x] = true
	}
	sc := 0
	target := append([]int{}, lits...)
	if !maxi {
		for i := range target {
			target[i] = -target[i]
		}
	}
	neg := make([]int, len(target))
	for i, x := range target {
		neg[i] = -x
		if val[x] || !val[-x] {
			sc++
		}
	}
	s.s.count("probe:optimum")
	if sc < len(target) {
		s.check(!s.refSat(nil, amk{neg, len(target) - sc - 1}), "S06", "not-optimal", "optimisation (max=%v) returns a model with %d of %d, but there is a better one", maxi, sc, len(target))
	}
}

func (s *bigClient) count2(o *Op) {
	ok2, rank, ok := s.gauss(nil)
	if !ok {
		return
	}
	want := 0
	if ok2 {
		if s.nv-rank > 7 {
			return
		}
		want = 1 << (s.nv - rank)
	}
	vs := s.vset(allVars(s.nv))
	st := strategy(s.fac, o.a(0), 10+o.a(1), vs)
	h, hd := s.hdl(o)
	cfg := &iter.Config{Handler: hd, Strategy: st}
	s.s.count("probe:big-count")
	if o.a(0)/8%2 == 0 {
		n, state := count.OnSolverWithConfig(s.sol, vs, cfg)
		if h.outcome("count.solver", state) {
			return
		}
		s.check(n != nil && n.Cmp(big.NewInt(int64(want))) == 0, "E02", "wrong:solver", "count is %v, expected %d", n, want)
		return
	}
	ms, state := enum.OnSolverWithConfig(s.sol, vs, cfg)
	done := !h.outcome("enum", state)
	seen := map[string]bool{}
	for _, m := range ms {
		ml := s.modelLits(m)
		s.check(len(ml) == s.nv, "E01", "missing-var:enum", "enumerated model has %d of %d variables", len(ml), s.nv)
		key := fmt.Sprint(sortedInts(ml))
		s.check(!seen[key], "E01", "duplicate:enum", "a model is enumerated twice")
		seen[key] = true
		s.check(s.refSat(ml), "E01", "wrong:enum", "enumerated assignment is no model")
	}
	if done {
		s.check(len(ms) == want, "E01", "incomplete:enum", "%d models enumerated, expected %d", len(ms), want)
	}
}

func (s *bigClient) finish() {
	s.opIdx = len(s.plan.Ops) - 1
	res := s.sol.Call()
	want := s.refSat(nil)
	s.check(res.Sat() == want, s.blame(), "final-content", "solver says sat=%v, expected %v", res.Sat(), want)
	r := NewRng(uint64(len(s.plan.Ops)), 4)
	for i := 0; i < 4; i++ {
		var a []int
		for _, v := range r.Perm(s.nv)[:s.nv/3] {
			a = append(a, (v+1)*(2*r.Intn(2)-1))
		}
		res := s.sol.Call(sat.WithAssumptions(s.lits(a)))
		want := s.refSat(a)
		s.check(res.Sat() == want, s.blame(), "final-content", "solver says sat=%v under %v, expected %v", res.Sat(), a, want)
	}
}

// ------------------------------------------------------------ reference ----

// counter is a DPLL solver which counts the literals of its constraints.
type counter struct {
	nv    int
	cls   [][]int
	amks  []amk
	occ   [][]int // literal -> clauses
	aocc  [][]int // literal -> at-mosts
	nTrue []int
	nFree []int
	aTrue []int
	val   []int8
	trail []int
	q     []int
	steps int
	bad   bool
}

func newCounter(nv int) *counter {
	return &counter{nv: nv, occ: make([][]int, 2*nv+2), aocc: make([][]int, 2*nv+2), val: make([]int8, nv+1)}
}

func (d *counter) ix(l int) int {
	if l > 0 {
		return 2 * l
	}
	return -2*l + 1
}

func (d *counter) clause(c []int) {
	in := map[int]bool{}
	var u []int
	for _, l := range c {
		if in[-l] {
			return
		}
		if !in[l] {
			in[l] = true
			u = append(u, l)
		}
	}
	if len(u) == 0 {
		d.bad = true
		return
	}
	for _, l := range u {
		d.occ[d.ix(l)] = append(d.occ[d.ix(l)], len(d.cls))
	}
	d.cls = append(d.cls, u)
	d.nTrue = append(d.nTrue, 0)
	d.nFree = append(d.nFree, len(u))
}

func (d *counter) atMost(lits []int, k int) {
	if k < 0 {
		d.bad = true
		return
	}
	for _, l := range lits {
		d.aocc[d.ix(l)] = append(d.aocc[d.ix(l)], len(d.amks))
	}
	d.amks = append(d.amks, amk{lits, k})
	d.aTrue = append(d.aTrue, 0)
}

func (d *counter) lv(l int) int8 {
	if l > 0 {
		return d.val[l]
	}
	return -d.val[-l]
}

// set assigns literals and propagates; false on conflict.  The trail is kept
// consistent in any case.
func (d *counter) set(l int) bool {
	d.q = append(d.q[:0], l)
	ok := true
	for len(d.q) > 0 && ok {
		l := d.q[0]
		d.q = d.q[1:]
		switch d.lv(l) {
		case 1:
			continue
		case -1:
			return false
		}
		if l > 0 {
			d.val[l] = 1
		} else {
			d.val[-l] = -1
		}
		d.trail = append(d.trail, l)
		for _, c := range d.occ[d.ix(l)] {
			d.nTrue[c]++
		}
		for _, c := range d.occ[d.ix(-l)] {
			d.nFree[c]--
			if d.nTrue[c] == 0 {
				switch d.nFree[c] {
				case 0:
					ok = false
				case 1:
					for _, x := range d.cls[c] {
						if d.lv(x) == 0 {
							d.q = append(d.q, x)
						}
					}
				}
			}
		}
		for _, a := range d.aocc[d.ix(l)] {
			d.aTrue[a]++
			if d.aTrue[a] > d.amks[a].k {
				ok = false
			} else if d.aTrue[a] == d.amks[a].k {
				for _, x := range d.amks[a].lits {
					if d.lv(x) == 0 {
						d.q = append(d.q, -x)
					}
				}
			}
		}
	}
	return ok
}

func (d *counter) undo(n int) {
	for len(d.trail) > n {
		l := d.trail[len(d.trail)-1]
		d.trail = d.trail[:len(d.trail)-1]
		d.val[max(l, -l)] = 0
		for _, c := range d.occ[d.ix(l)] {
			d.nTrue[c]--
		}
		for _, c := range d.occ[d.ix(-l)] {
			d.nFree[c]++
		}
		for _, a := range d.aocc[d.ix(l)] {
			d.aTrue[a]--
		}
	}
}

func (d *counter) solve(assum []int) bool {
	if d.bad {
		return false
	}
	for _, c := range d.cls {
		if len(c) == 1 && !d.set(c[0]) {
			return false
		}
	}
	for i, a := range d.amks {
		if d.aTrue[i] >= a.k {
			if d.aTrue[i] > a.k {
				return false
			}
			for _, x := range a.lits {
				if d.lv(x) == 0 && !d.set(-x) {
					return false
				}
			}
		}
	}
	for _, l := range assum {
		if !d.set(l) {
			return false
		}
	}
	return d.rec()
}

func (d *counter) rec() bool {
	// branch on the literal with the most occurrences in the shortest open clauses
	score := make([]int, 2*d.nv+2)
	best, bs := 0, 0
	for c, cl := range d.cls {
		if d.nTrue[c] > 0 {
			continue
		}
		w := 1
		if d.nFree[c] == 2 {
			w = 6
		}
		for _, x := range cl {
			if d.lv(x) == 0 {
				i := d.ix(x)
				score[i] += w
				if t := score[i]*16 + score[i^1]*8; t > bs {
					best, bs = x, t
				}
			}
		}
	}
	if best == 0 {
		for _, a := range d.amks {
			for _, x := range a.lits {
				if best == 0 && d.lv(x) == 0 {
					best = -x
				}
			}
		}
		if best == 0 {
			return true
		}
	}
	d.steps++
	if d.steps > 20000 {
		panic(undecided{})
	}
	for _, l := range []int{best, -best} {
		n := len(d.trail)
		if d.set(l) && d.rec() {
			return true
		}
		d.undo(n)
	}
	return false
}

// ------------------------------------------------------------ generator ----

type bigMix struct{ call, save, load, bb, opt, count, amk int }

// bigRun generates a history of a big SAT client.
func (g *planGen) bigRun(m bigMix, proof bool) {
	r := g.r
	c := &ClientPlan{Kind: "satbig", Cfg: g.satCfg()}
	c.Cfg[cProofs] = 0
	if proof {
		c.Cfg[cProofs], c.Cfg[cAtMost] = 1, 0
	}
	fam := r.Pick(4, 3, 4)
	if proof {
		fam = r.Pick(4, 0, 4)
	}
	if m.amk > 0 {
		fam = 1
	}
	n := 0
	switch fam {
	case 0:
		n = r.Range(20, 64)
	case 1:
		n = r.Range(14, 40)
	default:
		n = r.Range(14, 62)
	}
	g.p.NV = n
	// most instances have a hidden model which all but few constraints respect,
	// so that the content stays satisfiable and assumptions decide
	hidden := make([]int, n)
	for v := range hidden {
		hidden[v] = (v + 1) * (2*r.Intn(2) - 1)
	}
	noise := []int{100, 0, 0, 2}[r.Intn(4)]
	keep := func() bool { return !r.P(noise) }
	lit := func(v int) int { return (v + 1) * (2*r.Intn(2) - 1) }
	wide := []int{0, 2, 8, 20}[r.Intn(4)]
	xor := func() *Op {
		k := r.Pick(0, 0, 2, 6, wide, wide)
		var a []int
		for _, v := range r.Perm(n)[:k] {
			a = append(a, lit(v))
		}
		if keep() {
			p := 0
			for _, l := range a {
				if hidden[max(l, -l)-1] == l {
					p ^= 1
				}
			}
			if p == 0 {
				a[0] = -a[0]
			}
		}
		return &Op{K: "xor", A: a, S: []string{"c", "c", "e"}[r.Intn(3)]}
	}
	amkOp := func() *Op {
		w := r.Range(4, min(n, 12))
		pos := r.P(60)
		a := []int{r.Range(1, w-2)}
		if r.P(40) {
			a[0] = 1 + r.Intn(2)
		}
		for _, v := range r.Perm(n)[:w] {
			if pos {
				a = append(a, v+1)
			} else {
				a = append(a, lit(v))
			}
		}
		if keep() {
			t := 0
			for _, l := range a[1:] {
				if hidden[max(l, -l)-1] == l {
					t++
				}
			}
			a[0] = max(a[0], t)
		}
		return &Op{K: "amk", A: a}
	}
	clauses := func(k int) *Op {
		o := &Op{K: "cl"}
		for ; k > 0; k-- {
			w := 3
			if r.P(10) {
				w = r.Range(1, 5)
			}
			var ls []*Node
			good := !keep()
			for _, v := range r.Perm(n)[:w] {
				p := r.P(50)
				good = good || p == (hidden[v] > 0)
				ls = append(ls, nLit(v, p))
			}
			if !good {
				v := ls[0]
				for v.K != "v" {
					v = v.N[0]
				}
				ls[0] = nLit(v.V, hidden[v.V] > 0)
			}
			if len(ls) == 1 {
				o.F = append(o.F, ls[0])
			} else {
				o.F = append(o.F, nOr(ls...))
			}
		}
		return o
	}
	switch fam {
	case 0:
		c.Ops = append(c.Ops, clauses(n*r.Range(36, 44)/10))
	case 1:
		if r.P(40) {
			// pigeons and holes
			hs := 3
			for hs*hs+2*hs < n {
				hs++
			}
			ps := min(n/hs, 2*hs)
			for i := 0; i < ps; i++ {
				var ls []*Node
				for j := 0; j < hs; j++ {
					ls = append(ls, nLit(i*hs+j, true))
				}
				c.Ops = append(c.Ops, &Op{K: "cl", F: []*Node{nOr(ls...)}})
			}
			for j := 0; j < hs; j++ {
				a := []int{max(1, (ps-r.Intn(2))/hs+r.Intn(2))}
				for i := 0; i < ps; i++ {
					a = append(a, i*hs+j+1)
				}
				c.Ops = append(c.Ops, &Op{K: "amk", A: a})
			}
			break
		}
		c.Ops = append(c.Ops, clauses(n*r.Range(15, 35)/10))
		for k := r.Range(1, 5); k > 0; k-- {
			c.Ops = append(c.Ops, amkOp())
		}
	default:
		for k := n * r.Range(12, 20) / 20; k > 0; k-- {
			c.Ops = append(c.Ops, xor())
		}
	}
	assum := func() []int {
		var a []int
		for _, v := range r.Perm(n)[:r.Pick(4, 2, 2, 1, 1, 1)] {
			a = append(a, lit(v))
		}
		return a
	}
	for k := r.Range(4, 24); k > 0; k-- {
		switch r.Pick(8, m.call, m.save, m.load, m.bb, m.opt, m.count) {
		case 0:
			switch fam {
			case 0:
				c.Ops = append(c.Ops, clauses(r.Range(1, 1+n/12)))
			case 1:
				if r.P(40) {
					c.Ops = append(c.Ops, amkOp())
				} else {
					c.Ops = append(c.Ops, clauses(r.Range(1, 1+n/12)))
				}
			default:
				c.Ops = append(c.Ops, xor())
			}
		case 1:
			fl := []int{0, fModel, fModel | fUp}[r.Intn(3)]
			if proof {
				fl |= fCore
			}
			c.Ops = append(c.Ops, &Op{K: "call", A: append([]int{fl}, assum()...), H: g.hspecN(400, satEvents...)})
		case 2:
			c.Ops = append(c.Ops, &Op{K: "save"})
		case 3:
			c.Ops = append(c.Ops, &Op{K: "load", A: []int{r.Intn(64)}})
		case 4:
			c.Ops = append(c.Ops, &Op{K: "bb", B: append([]int{}, r.Perm(n)[:r.Range(1, n)]...), H: g.hspecN(400, append(satEvents, "Backbone Computation Started")...)})
		case 5:
			a := []int{r.Intn(2)}
			for _, v := range r.Perm(n)[:r.Range(1, min(n, 10))] {
				a = append(a, lit(v))
			}
			c.Ops = append(c.Ops, &Op{K: "opt", A: a, H: g.hspecN(400, append(satEvents, "Optimization Function Started", "Found Better Bound")...)})
		case 6:
			c.Ops = append(c.Ops, &Op{K: "count", A: []int{r.Intn(16), r.Intn(40)}, H: g.hspecN(400, iterEvents...)})
		}
	}
	g.p.Clients = append(g.p.Clients, c)
}
