package main

import (
	"math"
	"math/big"
	"sort"
	"time"

	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/dnnf"
	"github.com/booleworks/logicng-go/event"
	"github.com/booleworks/logicng-go/explanation/mus"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/maxsat"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/model/count"
	"github.com/booleworks/logicng-go/model/enum"
	"github.com/booleworks/logicng-go/model/iter"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/primeimplicant"
	"github.com/booleworks/logicng-go/sat"
	"github.com/booleworks/logicng-go/simplification"
)

func init() { kinds["hdl"] = newHdlClient }

// hdlClient uses the library's own handlers: timeouts, and handlers with a
// bound on models, BDD nodes or factorisation steps.  Handlers live in slots
// and are used for several computations.
type hdlClient struct {
	*Client
	slots []*Hdl
}

func newHdlClient(c *Client) clientKind { return &hdlClient{Client: c} }

func (k *hdlClient) finish() {}

func (k *hdlClient) op(o *Op) {
	switch o.K {
	case "new":
		k.slots = append(k.slots, k.newHdl(o.H))
	case "stall":
		// the process is not scheduled for a while
		k.s.mono += int64(o.a(0))
		k.s.wall += int64(o.a(0))
		k.s.count("fault:stall")
		k.logf("stall %d", o.a(0))
	case "jump":
		k.s.wall += int64(o.a(0))
		k.s.count("fault:clock-jump")
		k.logf("jump %d", o.a(0))
	case "ask":
		if h := k.slot(o); h != nil {
			h.begin()
			for i := 0; i < o.a(1); i++ {
				h.ShouldResume(event.SatConflictDetected)
			}
		}
	case "run":
		if h := k.slot(o); h != nil {
			h.begin()
			k.run(o, h)
		}
	default:
		panic("simbug: op " + o.K)
	}
}

func (k *hdlClient) slot(o *Op) *Hdl {
	if len(k.slots) == 0 {
		return nil
	}
	return k.slots[o.a(0)%len(k.slots)]
}

const numHdlRuns = 13

func (k *hdlClient) run(o *Op, h *Hdl) {
	n := o.F[0]
	fac := k.fac
	x := n.build(fac)
	t := n.tt(k.nv)
	vars := uniq(o.B)
	in := map[int]bool{}
	n.vars(in)
	for v := range in {
		vars = append(vars, v)
	}
	vars = uniq(vars)
	sort.Ints(vars)
	p := "F01"
	if h.spec.M == "limit" || h.spec.M == "nodes" || h.spec.M == "fact" {
		p = "H05"
	}
	same := func(api string, st handler.State, r f.Formula) {
		if h.outcome(api, st) {
			k.check(r == 0, "H01", "result-after-cancel:"+api, "cancelled %s returns a formula", api)
			return
		}
		got, ok := k.rd.tt(r)
		k.check(ok && got.eq(t), p, "meaning:"+api, "%s of %s returns %s", api, k.sp(x), k.sp(r))
	}
	switch o.a(1) % numHdlRuns {
	case 0:
		b, st := bdd.CompileWithHandler(fac, x, h)
		if h.outcome("bdd.Compile", st) {
			k.check(b == nil, "H01", "result-after-cancel:bdd", "cancelled BDD compilation returns a BDD")
			return
		}
		got, ok := k.rd.tt(b.ToFormula(fac))
		k.check(ok && got.eq(t), p, "meaning:bdd", "BDD of %s represents %s", k.sp(x), k.sp(b.ToFormula(fac)))
	case 1:
		r, st := normalform.FactorizedCNFWithHandler(fac, x, h)
		same("FactorizedCNF", st, r)
	case 2:
		r, st := normalform.FactorizedDNFWithHandler(fac, x, h)
		same("FactorizedDNF", st, r)
	case 3:
		d, st := dnnf.CompileWithHandler(fac, x, h)
		if h.outcome("dnnf.Compile", st) {
			k.check(d == nil, "H01", "result-after-cancel:dnnf", "cancelled DNNF compilation returns a DNNF")
		}
	case 4:
		s := sat.NewSolver(fac)
		s.Add(x)
		r := s.Call(sat.Params().Handler(h).WithModel(k.vset(vars)))
		if h.outcome("sat.Call", r.State()) {
			k.check(r.Model() == nil, "H01", "result-after-cancel:sat", "cancelled SAT call returns a model")
			return
		}
		k.check(r.Sat() == t.sat(), "S01", "verdict", "SAT call of %s returns %v", k.sp(x), r.Sat())
	case 5:
		c, err, st := count.CountWithHandler(fac, k.vset(vars), h, x)
		if h.outcome("count.Count", st) {
			k.check(c == nil, "H01", "result-after-cancel:count", "cancelled count returns %v", c)
			return
		}
		if err == nil {
			k.check(c.Cmp(big.NewInt(int64(t.count()>>(k.nv-len(vars))))) == 0, "E02", "count:hdl", "%v models counted", c)
		}
	case 6:
		s := sat.NewSolver(fac)
		s.Add(x)
		b, st := s.ComputeBackboneWithHandler(fac, k.vset(vars), h)
		if h.outcome("sat.ComputeBackbone", st) {
			k.check(b == nil, "H01", "result-after-cancel:backbone", "cancelled backbone computation returns a backbone")
			return
		}
		k.check(b.Sat == t.sat(), "S05", "sat:hdl", "backbone of %s says sat=%v", k.sp(x), b.Sat)
	case 7:
		r, st := primeimplicant.CoverMaxWithHandler(fac, x, primeimplicant.CoverImplicants, h)
		if h.outcome("primeimplicant.CoverMax", st) {
			k.check(r == nil, "H01", "result-after-cancel:prime", "cancelled prime computation returns a result")
		}
	case 8:
		props := []f.Proposition{f.NewStandardProposition(x), f.NewStandardProposition(fac.Not(x))}
		_, st, err := mus.ComputeDeletionBasedWithHandler(fac, &props, h)
		if !h.outcome("mus.Deletion", st) {
			k.check(err == nil, "X01", "rejected:hdl", "deletion-based MUS fails: %v", err)
		}
	case 9:
		s := maxsat.OLL(fac)
		s.AddHardFormula(x)
		for _, v := range vars {
			_ = s.AddSoftFormula(fac.Literal(varName(v), v%2 == 0), 1+v%3)
		}
		r, st := s.SolveWithHandler(h)
		if !h.outcome("maxsat.Solve", st) {
			k.check(r.Satisfiable == t.sat(), "M01", "verdict:hdl", "MaxSAT says satisfiable=%v", r.Satisfiable)
		}
	case 10:
		r, st := simplification.QMCWithHandler(fac, x, h)
		same("QMC", st, r)
	case 11, 12:
		k.enum(o, h, n, x, t, vars)
	}
}

func (k *hdlClient) enum(o *Op, h *Hdl, n *Node, x f.Formula, t TT, vars []int) {
	if len(vars) == 0 {
		return
	}
	s := sat.NewSolver(k.fac)
	s.Add(x)
	vs := k.vset(vars)
	cfg := &iter.Config{Handler: h, Strategy: strategy(k.fac, o.a(2), []int{2, 3, 5, 10, 100}[o.a(3)%5], vs)}
	all := t.exists(complement(k.nv, vars)).count() >> (k.nv - len(vars))
	p := "E01"
	if h.spec.M == "limit" {
		p = "H05"
	}
	got := 0
	complete := false
	if o.a(4) > 0 && o.a(1)%numHdlRuns != 11 {
		// variables nobody knows: the counted models soon exceed every integer
		scale := k.addUnknown(&Op{B: []int{o.a(4)}}, &vs)
		want := scale(all)
		c, st := count.OnSolverWithConfig(s, vs, cfg)
		complete = !h.outcome("count.OnSolver", st)
		k.check(c == nil || c.Cmp(want) <= 0 && (!complete || c.Cmp(want) == 0), p, "count:hdl", "%v of %v models counted", c, want)
		if h.spec.M == "limit" {
			reached := want.Cmp(big.NewInt(int64(h.spec.N))) >= 0
			k.check(!complete || !reached, "H05", "limit-missed", "enumeration with a limit of %d models completes with %v models", h.spec.N, want)
			k.check(complete || reached || cfg.Strategy != nil, "H05", "limit-early", "enumeration of %v models stops although the limit is %d", want, h.spec.N)
		}
		return
	}
	if o.a(1)%numHdlRuns == 11 {
		var models []*model.Model
		var st handler.State
		models, st = enum.OnSolverWithConfig(s, vs, cfg)
		complete = !h.outcome("enum", st)
		k.checkEnum(models, t, vars, nil, complete, p, "enum:hdl")
		got = len(models)
	} else {
		c, st := count.OnSolverWithConfig(s, vs, cfg)
		complete = !h.outcome("count.OnSolver", st)
		if c != nil {
			got = int(c.Int64())
		}
		k.check(got <= all && (!complete || got == all), p, "count:hdl", "%d of %d models counted", got, all)
	}
	if h.spec.M != "limit" {
		return
	}
	bound := h.spec.N
	k.logf("limit %d of %d: %d", bound, all, got)
	if complete {
		k.s.count("probe:limit-not-reached")
		k.check(all < bound, "H05", "limit-missed", "enumeration with a limit of %d models completes with %d models", bound, got)
		return
	}
	k.s.count("probe:limit-reached")
	// what was found is returned: without splitting the iteration stops at the
	// limit itself
	if cfg.Strategy == nil {
		k.check(all >= bound, "H05", "limit-early", "enumeration of %d models stops although the limit is %d", all, bound)
		if bound > 0 {
			k.check(got >= bound, "H05", "limit-lost", "enumeration stopped at its limit of %d models returns %d", bound, got)
		}
	}
}

// expectBound predicts the decision of a handler with a bound.
func (h *Hdl) expectBound(e event.Event) bool {
	switch h.spec.M {
	case "limit":
		switch x := e.(type) {
		case iter.EventIteratorFoundModels:
			h.open += x.NumberOfModels
		default:
			switch e {
			case event.ModelEnumerationStarted:
				h.open, h.closed = 0, 0
			case event.ModelEnumerationCommit:
				h.closed += h.open
				h.open = 0
			case event.ModelEnumerationRollback:
				h.open = 0
			}
		}
		return h.open+h.closed < h.spec.N
	case "nodes":
		switch e {
		case event.BddComputationStarted:
			h.open = 0
		case event.BddNewRefAdded:
			h.open++
		}
		// the bound is looked at when a node is added
		return h.open == 0 || h.open < h.spec.N
	default:
		switch e {
		case event.FactorizationStarted:
			h.open, h.closed = 0, 0
		case event.DistributionPerformed:
			h.open++
		case event.FactorizationCreatedClause:
			h.closed++
		}
		return !(h.spec.N >= 0 && h.open > h.spec.N) && !(h.spec.D >= 0 && int64(h.closed) > h.spec.D)
	}
}

func newBound(s *HSpec) handler.Handler {
	switch s.M {
	case "limit":
		return iter.HandlerWithLimit(s.N)
	case "nodes":
		return bdd.HandlerWithNodes(s.N)
	default:
		return normalform.NewFactorizationHandler(s.N, int(s.D))
	}
}

// newTimeout creates the timeout of a specification and notes its end on the
// simulated clocks.
func (h *Hdl) newTimeout() {
	s := h.c.s
	switch h.spec.M {
	case "dur":
		h.dlMono = s.mono + h.spec.D
		if h.spec.D > 0 && h.dlMono < 0 {
			h.dlMono = math.MaxInt64
		}
		h.to = handler.NewTimeoutWithDuration(time.Duration(h.spec.D))
	case "end":
		h.endWall = s.wall + h.spec.D
		h.to = handler.NewTimeoutWithEnd(time.Unix(0, h.endWall))
	case "now": // the natural way to compute an end
		h.endWall = s.wall + h.spec.D
		h.dlMono = s.mono + h.spec.D
		h.to = handler.NewTimeoutWithEnd(time.Now().Add(time.Duration(h.spec.D)))
	case "abs": // seconds, far away
		h.to = handler.NewTimeoutWithEnd(time.Unix(h.spec.D, 0))
		if h.spec.D == absZero {
			h.to = handler.NewTimeoutWithEnd(time.Time{})
		}
	}
}

const absZero = -62135596800

// checkTimeout compares the decision of a real timeout handler with the
// simulated clocks.
func (h *Hdl) checkTimeout(resume bool) {
	c := h.c
	var elapsed bool
	var left int64
	switch h.spec.M {
	case "dur":
		elapsed, left = c.s.mono > h.dlMono, h.dlMono-c.s.mono
	case "end":
		elapsed, left = c.s.wall > h.endWall, h.endWall-c.s.wall
	case "now":
		elapsed, left = c.s.mono > h.dlMono, h.dlMono-c.s.mono
		if elapsed != (c.s.wall > h.endWall) {
			return // the clocks disagree since a jump
		}
	case "abs":
		elapsed, left = h.spec.D < 0, h.spec.D
	}
	if elapsed {
		c.s.count("probe:timeout-elapsed")
	} else {
		c.s.count("probe:timeout-running")
	}
	if left == 0 {
		c.s.count("probe:timeout-exact")
	}
	c.check(resume != elapsed, "H03", "timeout-"+h.spec.M,
		"timeout handler (%s) resumes=%v although its end is %d ns away", h.spec.M, resume, left)
}

// ------------------------------------------------------------ generator ----

func (g *planGen) timeSpec(scale int64) *HSpec {
	r := g.r
	d := int64(r.Log(64)) * scale
	if r.P(20) {
		d = int64(r.Log(64))*scale - scale/2
	}
	switch r.Pick(8, 6, 3, 1) {
	case 0:
		if r.P(8) {
			d = []int64{0, -1, 1, -scale, math.MaxInt64, math.MaxInt64 / 2, int64(24 * time.Hour), int64(time.Second)}[r.Intn(8)]
		}
		return &HSpec{M: "dur", D: d}
	case 1:
		if r.P(15) {
			d = []int64{0, -1, 1, -scale, int64(time.Hour), -int64(time.Hour)}[r.Intn(6)]
		}
		return &HSpec{M: "end", D: d}
	case 2:
		return &HSpec{M: "now", D: d}
	default:
		return &HSpec{M: "abs", D: []int64{absZero, -1, 253402300799, 1 << 40}[r.Intn(4)]}
	}
}

func (g *planGen) clock() int64 {
	r := g.r
	c := &g.p.Clock
	c.Step = []int64{0, 1, 1, 1000, 1000, 1000000, 100000000, 1000000000, 60000000000}[r.Intn(9)]
	scale := max(c.Step, 1)
	if r.P(50) {
		for i := r.Range(1, 4); i > 0; i-- {
			j := int64(r.Log(1000)) * scale
			switch r.Intn(4) {
			case 0:
				j = int64(r.Range(1, 24)) * int64(time.Hour)
			case 1:
				j = int64(r.Range(1, 3000)) * int64(24*time.Hour)
			}
			if r.P(50) {
				j = -j
			}
			c.Jumps = append(c.Jumps, [2]int64{int64(r.Log(300)), j})
		}
	}
	return scale
}

func (g *planGen) boundSpec() (*HSpec, []int) {
	r := g.r
	switch r.Intn(3) {
	case 0:
		return &HSpec{M: "limit", N: r.Range(0, 12)}, []int{11, 12}
	case 1:
		return &HSpec{M: "nodes", N: r.Log(40)}, []int{0}
	default:
		s := &HSpec{M: "fact", N: -1, D: -1}
		if r.P(70) {
			s.N = r.Range(0, 12)
		}
		if r.P(70) {
			s.D = int64(r.Range(0, 12))
		}
		return s, []int{1, 2}
	}
}

// hdlClient generates a history of handlers and computations.
func (g *planGen) hdlClient(timeouts bool) *ClientPlan {
	r := g.r
	c := &ClientPlan{Kind: "hdl"}
	scale := max(g.p.Clock.Step, 1)
	var which [][]int
	for n := r.Range(3, 12); n > 0; n-- {
		switch {
		case len(which) == 0 || r.P(25):
			o := &Op{K: "new"}
			w := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
			if timeouts {
				o.H = g.timeSpec(scale)
			} else {
				o.H, w = g.boundSpec()
			}
			which = append(which, w)
			c.Ops = append(c.Ops, o)
		case timeouts && r.P(15):
			c.Ops = append(c.Ops, &Op{K: "stall", A: []int{r.Log(64) * int(scale)}})
		case timeouts && r.P(10):
			c.Ops = append(c.Ops, &Op{K: "jump", A: []int{(r.Log(64) - 20) * int(scale)}})
		case timeouts && r.P(25):
			c.Ops = append(c.Ops, &Op{K: "ask", A: []int{r.Intn(len(which)), r.Log(40)}})
		default:
			i := r.Intn(len(which))
			gc := GenCfg{nv: g.p.NV, depth: r.Range(1, 3), width: 3}
			n := gc.formula(r)
			if r.P(40) {
				n = gc.cnf(r, r.Range(1, 5), 3)
			}
			op := &Op{K: "run", A: []int{i, which[i][r.Intn(len(which[i]))], r.Intn(5), r.Intn(5)}, B: g.varsSub(0), F: []*Node{n}}
			if r.Intn(8) == 0 { // variables nobody knows
				op.A = append(op.A, []int{1, 2, 5, 31, 62, 63, 64, 70}[r.Intn(8)])
			}
			c.Ops = append(c.Ops, op)
		}
	}
	return c
}

// onlyTimeouts turns the cancellations of a client into timeouts.
func (g *planGen) onlyTimeouts(c *ClientPlan) *ClientPlan {
	scale := max(g.p.Clock.Step, 1)
	for _, o := range c.Ops {
		if o.H != nil && o.H.M != "never" {
			o.H = g.timeSpec(scale)
		}
	}
	return c
}

func init() {
	props["H03"] = propSpec{350000, func(g *planGen) {
		r := g.r
		g.p.NV = r.Range(2, 6)
		g.clock()
		g.cancel = 70
		n := 1
		if r.P(25) {
			n = 2
		}
		for i := 0; i < n; i++ {
			switch r.Pick(10, 1, 1, 1, 1) {
			case 0:
				g.p.Clients = append(g.p.Clients, g.hdlClient(true))
			case 1:
				m := satBase
				m.ops = 8
				g.p.Clients = append(g.p.Clients, g.onlyTimeouts(g.satClient(m)))
			case 2:
				g.p.Clients = append(g.p.Clients, g.onlyTimeouts(g.maxsatClient(maxBase)))
			case 3:
				g.p.Clients = append(g.p.Clients, g.onlyTimeouts(g.bddClient(6)))
			default:
				g.p.Clients = append(g.p.Clients, g.onlyTimeouts(g.explClient(4)))
			}
		}
	}}
	props["H05"] = propSpec{350000, func(g *planGen) {
		g.p.NV = g.r.Range(2, 6)
		n := 1
		if g.r.P(20) {
			n = 2
		}
		for i := 0; i < n; i++ {
			g.p.Clients = append(g.p.Clients, g.hdlClient(false))
		}
	}}
}
