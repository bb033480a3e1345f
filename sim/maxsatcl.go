package main

import (
	"github.com/booleworks/logicng-go/event"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/maxsat"
	"github.com/booleworks/logicng-go/sat"
)

func init() { kinds["maxsat"] = newMaxsatClient }

// configuration indices of a MaxSAT client
const (
	mAlg = iota
	mCNF
	mInc
	mStrat
	mSym
	mLimit
	mBmo
	mDefault // use the algorithm's default configuration
	maxsatCfgLen
)

const (
	algWBO = iota
	algIncWBO
	algLinearSU
	algOLL
	algWMSU3
	algLinearUS
	algMSU3
)

func maxsatConfig(c []int) *maxsat.Config {
	cfg := maxsat.DefaultConfig()
	cfg.CNFMethod = []sat.CNFMethod{sat.CNFFactory, sat.CNFPG, sat.CNFFullPG}[cfgAt(c, mCNF)%3]
	cfg.IncrementalStrategy = []maxsat.IncrementalStrategy{maxsat.IncNone, maxsat.IncIterative}[cfgAt(c, mInc)%2]
	cfg.WeightStrategy = []maxsat.WeightStrategy{maxsat.WeightNone, maxsat.WeightNormal, maxsat.WeightDiversify}[cfgAt(c, mStrat)%3]
	cfg.Symmetry = cfgAt(c, mSym)%2 == 0
	cfg.Limit = []int{cfg.Limit, 0, 1, 3, 10}[cfgAt(c, mLimit)%5]
	cfg.BMO = cfgAt(c, mBmo)%2 == 0
	return cfg
}

type softC struct {
	t TT
	w int
}

type maxSaved struct {
	st    *maxsat.SolverState
	hard  TT
	soft  int
	valid bool
}

// maxsatClient runs a history on one MaxSAT solver; the reference computes
// the optimum over all assignments.
type maxsatClient struct {
	*Client
	sol   *maxsat.Solver
	hard  TT
	soft  []softC
	saved []*maxSaved
	alg   int
}

func newMaxsatClient(c *Client) clientKind {
	m := &maxsatClient{Client: c, hard: ttConst(c.nv, true), alg: cfgAt(c.plan.Cfg, mAlg) % 7}
	mk := []func(f.Factory, ...*maxsat.Config) *maxsat.Solver{maxsat.WBO, maxsat.IncWBO, maxsat.LinearSU, maxsat.OLL, maxsat.WMSU3, maxsat.LinearUS, maxsat.MSU3}[m.alg]
	if cfgAt(c.plan.Cfg, mDefault)%2 == 1 {
		m.sol = mk(c.fac)
	} else {
		m.sol = mk(c.fac, maxsatConfig(c.plan.Cfg))
	}
	return m
}

// optimum returns the true optimum, -1 when the hard formulas are unsatisfiable.
func (m *maxsatClient) optimum() int {
	best := -1
	for a := 0; a < 1<<m.nv; a++ {
		if !m.hard.get(a) {
			continue
		}
		if c := m.cost(a); best < 0 || c < best {
			best = c
		}
	}
	return best
}

func (m *maxsatClient) cost(a int) int {
	c := 0
	for _, s := range m.soft {
		if !s.t.get(a) {
			c += s.w
		}
	}
	return c
}

func (m *maxsatClient) supported() bool {
	w := 1
	for _, s := range m.soft {
		w = max(w, s.w)
	}
	return w == 1 && m.sol.SupportsUnweighted() || w > 1 && m.sol.SupportsWeighted()
}

func (m *maxsatClient) op(o *Op) {
	switch o.K {
	case "hard":
		for _, n := range o.F {
			m.sol.AddHardFormula(n.build(m.fac))
			m.hard = m.hard.and(n.tt(m.nv))
		}
	case "soft":
		err := m.sol.AddSoftFormula(o.F[0].build(m.fac), o.a(0))
		m.check((err != nil) == (o.a(0) < 1), "M01", "soft-error", "adding a soft formula of weight %d returns %v", o.a(0), err)
		if err == nil {
			m.soft = append(m.soft, softC{o.F[0].tt(m.nv), o.a(0)})
		}
	case "save":
		m.saved = append(m.saved, &maxSaved{m.sol.SaveState(), m.hard, len(m.soft), true})
	case "load":
		if len(m.saved) == 0 {
			return
		}
		i := o.a(0) % len(m.saved)
		st := m.saved[i]
		err := m.sol.LoadState(st.st)
		m.check((err == nil) == st.valid, "M01", "load", "loading state %d (valid=%v) returns %v", i, st.valid, err)
		if st.valid {
			m.hard, m.soft = st.hard, append([]softC(nil), m.soft[:st.soft]...)
			for _, x := range m.saved[i+1:] {
				x.valid = false
			}
			m.s.count("probe:maxsat-load")
		} else {
			m.s.count("probe:maxsat-load-invalid")
		}
	case "solve":
		m.solve(o)
	default:
		panic("simbug: maxsat op " + o.K)
	}
}

func (m *maxsatClient) solve(o *Op) {
	if !m.supported() {
		m.s.count("probe:maxsat-unsupported")
		return
	}
	opt := m.optimum()
	h := m.newHdl(o.H)
	var last [2]int
	var have [2]bool
	vetoed := false
	h.onEvent = func(e event.Event) {
		switch b := e.(type) {
		case maxsat.EventMaxSatNewLowerBound:
			m.s.count("probe:maxsat-lower-bound")
			m.check(opt < 0 || b.Bound <= opt, "M02", "lower-bound", "announced lower bound %d exceeds the optimum %d", b.Bound, opt)
			m.check(!have[0] || b.Bound >= last[0], "M02", "lower-order", "announced lower bound decreases from %d to %d", last[0], b.Bound)
			last[0], have[0] = b.Bound, true
		case maxsat.EventMaxSatNewUpperBound:
			m.s.count("probe:maxsat-upper-bound")
			m.check(opt < 0 || b.Bound >= opt, "M02", "upper-bound", "announced upper bound %d is below the optimum %d", b.Bound, opt)
			m.check(!have[1] || b.Bound <= last[1], "M02", "upper-order", "announced upper bound increases from %d to %d", last[1], b.Bound)
			m.check(opt >= 0, "M02", "upper-unsat", "upper bound %d announced for unsatisfiable hard formulas", b.Bound)
			last[1], have[1] = b.Bound, true
		}
	}
	res, st := m.sol.SolveWithHandler(h)
	vetoed = h.outcome("maxsat.SolveWithHandler", st)
	if vetoed {
		m.check(!res.Satisfiable && res.Model == nil, "H01", "result:maxsat", "cancelled MaxSAT computation returns the result %v", res)
		return
	}
	p := "M01"
	m.logf("maxsat sat=%v opt=%d", res.Satisfiable, res.Optimum)
	m.check(res.Satisfiable == (opt >= 0), p, "sat", "MaxSAT reports satisfiable=%v, expected %v", res.Satisfiable, opt >= 0)
	if opt < 0 {
		m.s.count("probe:maxsat-unsat")
		m.check(res.Model == nil, p, "unsat-result", "unsatisfiable MaxSAT problem reported with optimum %d", res.Optimum)
		return
	}
	m.s.count("probe:maxsat-optimum")
	m.check(res.Optimum == opt, p, "optimum", "MaxSAT reports optimum %d, expected %d", res.Optimum, opt)
	m.check(res.Model != nil, p, "model", "no model for satisfiable MaxSAT problem")
	a := 0
	seen := map[int]bool{}
	for _, l := range res.Model.Literals {
		x := m.decodeLit(l)
		if x == 0 {
			continue
		}
		v := x
		if v < 0 {
			v = -v
		}
		m.check(!seen[v], p, "model-dup", "variable occurs twice in MaxSAT model")
		seen[v] = true
		if x > 0 {
			a |= 1 << (x - 1)
		}
	}
	m.check(m.hard.get(a), p, "model-hard", "MaxSAT model violates the hard formulas")
	m.check(m.cost(a) == opt, p, "model-cost", "MaxSAT model has cost %d, reported optimum is %d", m.cost(a), opt)
}

func (m *maxsatClient) finish() {
	m.solve(&Op{K: "solve"})
}

// ------------------------------------------------------------ generator ----

type maxMix struct {
	hard, soft, solve, save, load int
	nvLo, nvHi, ops               int
}

var maxBase = maxMix{5, 8, 5, 2, 2, 3, 7, 16}

func (g *planGen) maxsatClient(m maxMix) *ClientPlan {
	r := g.r
	c := &ClientPlan{Kind: "maxsat", Cfg: make([]int, maxsatCfgLen)}
	c.Cfg[mAlg] = r.Intn(7)
	if r.P(75) {
		c.Cfg[mCNF] = r.Pick(3, 1, 1)
		c.Cfg[mInc] = r.Intn(2)
		c.Cfg[mStrat] = r.Intn(3)
		c.Cfg[mSym] = r.Intn(2)
		c.Cfg[mLimit] = r.Intn(5)
		c.Cfg[mBmo] = r.Intn(2)
		if c.Cfg[mAlg] == algLinearUS || c.Cfg[mAlg] == algMSU3 || c.Cfg[mAlg] == algWMSU3 {
			// documented algorithm/strategy combinations only
			c.Cfg[mInc] = r.Intn(2)
		}
	} else {
		c.Cfg[mDefault] = 1
	}
	unweighted := c.Cfg[mAlg] >= algLinearUS || c.Cfg[mAlg] != algWMSU3 && r.P(25)
	ws := [][]int{{1, 2, 3}, {1, 10, 100}, {2, 2, 5}, {7, 3, 4, 1, 1}, {4, 8, 16}, {2}, {1, 1, 1, 2}}[r.Intn(7)]
	if r.P(30) {
		ws = nil
		for i, hi := 0, []int{6, 20, 100}[r.Intn(3)]; i < 12; i++ {
			ws = append(ws, r.Range(1, hi))
		}
	}
	gc := GenCfg{nv: g.p.NV, depth: 2, pbc: 4, cons: 3, width: 3, rep: 4}
	w := []int{m.hard, m.soft, m.solve, m.save, m.load}
	if r.P(40) {
		w[3], w[4] = 0, 0
	} else if r.P(30) {
		w[3], w[4] = 4, 6
	}
	n := r.Range(4, m.ops)
	if g.p.NV >= 8 {
		// a harder problem to start with
		if r.P(70) {
			c.Ops = append(c.Ops, &Op{K: "hard", F: []*Node{gc.cnfk(r, r.Range(g.p.NV, 3*g.p.NV), 3)}})
		}
		hi := []int{14, 14, 24}[r.Intn(3)]
		if c.Cfg[mAlg] <= algIncWBO {
			hi = 8 // core-guided search without totalizers blows up early
		}
		for k := r.Range(4, hi); k > 0; k-- {
			wt := ws[r.Intn(len(ws))]
			if unweighted {
				wt = 1
			}
			o := &Op{K: "soft", A: []int{wt}, F: []*Node{gc.clause(r, r.Range(1, 3))}}
			c.Ops = append(c.Ops, o)
		}
		n = len(c.Ops) + r.Range(1, 8)
		w[2] += 2
	}
	for len(c.Ops) < n {
		switch r.Pick(w...) {
		case 0:
			o := &Op{K: "hard", F: []*Node{g.softContent(gc)}}
			if r.P(30) {
				o.F = []*Node{gc.cnfk(r, r.Range(1, 2*g.p.NV), 3)}
			}
			c.Ops = append(c.Ops, o)
		case 1:
			for k := r.Pick(1, 2, 2, 1); k >= 0; k-- {
				wt := ws[r.Intn(len(ws))]
				if unweighted {
					wt = 1
				} else if r.P(2) {
					wt = r.Intn(2) - 1
				}
				c.Ops = append(c.Ops, &Op{K: "soft", A: []int{wt}, F: []*Node{g.softContent(gc)}})
			}
		case 2:
			c.Ops = append(c.Ops, &Op{K: "solve", H: g.hspecN(40, "Max-SAT Call Started", "Max-SAT Call Finished", "SAT Call Started", "SAT Call Finished", "SAT Conflict Detected", "Max-SAT New Lower Bound", "Max-SAT New Upper Bound")})
		case 3:
			c.Ops = append(c.Ops, &Op{K: "save"})
		case 4:
			c.Ops = append(c.Ops, &Op{K: "load", A: []int{r.Intn(64)}})
		}
	}
	return c
}

func (g *planGen) softContent(gc GenCfg) *Node {
	r := g.r
	switch r.Pick(4, 4, 2) {
	case 0:
		return gc.lit(r)
	case 1:
		return gc.clause(r, 3)
	default:
		gc.depth = r.Range(1, 2)
		return gc.formula(r)
	}
}

func init() {
	mx := func(quick int, veto int) propSpec {
		return propSpec{quick, func(g *planGen) {
			g.p.NV = g.r.Range(maxBase.nvLo, maxBase.nvHi)
			if g.r.P(30) {
				g.p.NV = g.r.Range(8, 10)
				if g.r.P(30) {
					g.p.NV = g.r.Range(10, 12)
				}
			}
			n := 1
			if g.r.P(10) {
				n = 2
			}
			for i := 0; i < n; i++ {
				g.p.Clients = append(g.p.Clients, g.maxsatClient(maxBase))
			}
		}}
	}
	props["M01"] = mx(400000, 0)
	props["M02"] = mx(400000, 0)
}
