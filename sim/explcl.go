package main

import (
	"github.com/booleworks/logicng-go/explanation/mus"
	"github.com/booleworks/logicng-go/explanation/smus"
	f "github.com/booleworks/logicng-go/formula"

	expl "github.com/booleworks/logicng-go/explanation"
	"github.com/booleworks/logicng-go/handler"
)

func init() { kinds["expl"] = newExplClient }

// explClient computes minimal explanations of sets of propositions.
type explClient struct {
	*Client
	props []f.Proposition
	nodes []*Node
	tts   []TT
}

func newExplClient(c *Client) clientKind { return &explClient{Client: c} }

func (k *explClient) op(o *Op) {
	switch o.K {
	case "prop":
		for _, n := range o.F {
			x := n.build(k.fac)
			if o.a(0)%3 == 0 && len(k.props) > 0 {
				// the same formula as an earlier one in a proposition of its own
				i := o.a(1) % len(k.props)
				x, n = k.props[i].Formula(), k.nodes[i]
			}
			k.props = append(k.props, f.NewStandardProposition(x))
			k.nodes = append(k.nodes, n)
			k.tts = append(k.tts, n.tt(k.nv))
		}
	case "drop":
		if len(k.props) > 0 {
			i := o.a(0) % len(k.props)
			k.props = append(append([]f.Proposition{}, k.props[:i]...), k.props[i+1:]...)
			k.nodes = append(append([]*Node{}, k.nodes[:i]...), k.nodes[i+1:]...)
			k.tts = append(append([]TT{}, k.tts[:i]...), k.tts[i+1:]...)
		}
	case "mus":
		k.mus(o)
	case "smus":
		k.smus(o)
	default:
		panic("simbug: op " + o.K)
	}
}

func (k *explClient) conj(idx []int, base TT) TT {
	t := base
	for _, i := range idx {
		t = t.and(k.tts[i])
	}
	return t
}

// picked selects the propositions of an operation; duplicates are possible.
func (k *explClient) picked(o *Op) ([]f.Proposition, []int) {
	var ps []f.Proposition
	var ix []int
	for _, i := range o.B {
		if len(k.props) > 0 {
			ix = append(ix, i%len(k.props))
			ps = append(ps, k.props[i%len(k.props)])
		}
	}
	if len(o.B) == 0 {
		for i, p := range k.props {
			ix = append(ix, i)
			ps = append(ps, p)
		}
	}
	return ps, ix
}

func (k *explClient) mus(o *Op) {
	ps, ix := k.picked(o)
	given := append([]f.Proposition{}, ps...)
	hdl := k.newHdl(o.H)
	var core *expl.UnsatCore
	var st handler.State
	var err error
	api := "MUSInsertion"
	if o.a(0)%2 == 0 {
		if o.H == nil {
			core, err = mus.ComputeInsertionBased(k.fac, &ps)
			st = handler.Success()
		} else {
			core, st, err = mus.ComputeInsertionBasedWithHandler(k.fac, &ps, hdl)
		}
	} else {
		api = "MUSDeletion"
		if o.H == nil {
			core, err = mus.ComputeDeletionBased(k.fac, &ps)
			st = handler.Success()
		} else {
			core, st, err = mus.ComputeDeletionBasedWithHandler(k.fac, &ps, hdl)
		}
	}
	p := "X01"
	k.check(len(ps) == len(given), p, "input-changed", "%s changes the given slice from %d to %d propositions", api, len(given), len(ps))
	for i := range given {
		k.check(ps[i] == given[i], p, "input-changed", "%s changes the given propositions at position %d", api, i)
	}
	if hdl.outcome(api, st) {
		k.check(core == nil && err == nil, "H01", "result-after-cancel:"+api, "cancelled %s returns %v, %v", api, core, err)
		return
	}
	all := k.conj(ix, ttConst(k.nv, true))
	if all.sat() {
		k.check(err != nil && core == nil, p, "satisfiable-accepted", "%s of a satisfiable set of %d propositions returns no error", api, len(ix))
		return
	}
	k.check(err == nil && core != nil, p, "unsat-refused", "%s of an unsatisfiable set fails: %v", api, err)
	k.logf("%s %d", api, len(core.Propositions))
	k.check(core.IsGuaranteedMUS, p, "not-guaranteed", "%s does not mark its result as MUS", api)
	got := k.locate(core.Propositions, given, ix, api)
	k.check(!k.conj(got, ttConst(k.nv, true)).sat(), p, "satisfiable-mus", "%s returns a satisfiable set of %d propositions", api, len(got))
	for j := range got {
		rest := append(append([]int{}, got[:j]...), got[j+1:]...)
		k.check(k.conj(rest, ttConst(k.nv, true)).sat(), p, "not-minimal", "%s returns %d propositions, number %d can be removed", api, len(got), j)
	}
}

// locate maps the propositions of a result to the given ones.
func (k *explClient) locate(res, given []f.Proposition, ix []int, api string) []int {
	var r []int
	used := map[int]bool{}
	for _, q := range res {
		found := -1
		for i, g := range given {
			if g == q && !used[i] {
				found = i
				break
			}
		}
		k.check(found >= 0, "X01", "foreign-proposition", "%s returns a proposition more often than it was given", api)
		used[found] = true
		r = append(r, ix[found])
	}
	return r
}

func (k *explClient) smus(o *Op) {
	ps, ix := k.picked(o)
	given := append([]f.Proposition{}, ps...)
	base := ttConst(k.nv, true)
	var add []f.Formula
	for _, n := range o.F {
		add = append(add, n.build(k.fac))
		base = base.and(n.tt(k.nv))
	}
	hdl := k.newHdl(o.H)
	p := "X01"
	var got []int
	var st handler.State
	var none bool
	if o.a(0)%2 == 0 {
		var res []f.Proposition
		if o.H == nil {
			res, st = smus.Compute(k.fac, ps, add...), handler.Success()
		} else {
			res, st = smus.ComputeWithHandler(k.fac, ps, hdl, add...)
		}
		none = res == nil
		for i := range given {
			k.check(ps[i] == given[i], p, "input-changed", "SMUS changes the given propositions at position %d", i)
		}
		if st.Success {
			got = k.locate(res, given, ix, "SMUS")
		}
	} else {
		fs := make([]f.Formula, len(ps))
		for i, q := range ps {
			fs[i] = q.Formula()
		}
		var res []f.Formula
		if o.H == nil {
			res, st = smus.ComputeForFormulas(k.fac, fs, add...), handler.Success()
		} else {
			res, st = smus.ComputeForFormulasWithHandler(k.fac, fs, hdl, add...)
		}
		none = res == nil
		for i, q := range given {
			k.check(fs[i] == q.Formula(), p, "input-changed", "SMUS changes the given formulas at position %d", i)
		}
		used := map[int]bool{}
		for _, x := range res {
			found := -1
			for i := range fs {
				if fs[i] == x && !used[i] {
					found = i
					break
				}
			}
			k.check(found >= 0, p, "foreign-proposition", "SMUS returns a formula more often than it was given")
			used[found] = true
			got = append(got, ix[found])
		}
	}
	if hdl.outcome("SMUS", st) {
		k.check(none, "H01", "result-after-cancel:SMUS", "cancelled SMUS computation returns a result")
		return
	}
	all := k.conj(ix, base)
	if all.sat() {
		k.check(none, p, "satisfiable-accepted", "SMUS of a satisfiable set returns %d propositions", len(got))
		k.sem("smus", -1)
		return
	}
	k.check(!none, p, "unsat-refused", "SMUS of an unsatisfiable set of %d propositions returns none", len(ix))
	k.logf("SMUS %d", len(got))
	k.check(!k.conj(got, base).sat(), p, "satisfiable-mus", "SMUS returns a satisfiable set of %d propositions", len(got))
	k.sem("smus", len(got))
	best := k.smallest(ix, base)
	k.check(len(got) == best, p, "not-smallest", "SMUS returns %d propositions, %d suffice", len(got), best)
}

// smallest is the size of a smallest unsatisfiable subset.
func (k *explClient) smallest(ix []int, base TT) int {
	best := len(ix)
	var rec func(i, n int, t TT)
	rec = func(i, n int, t TT) {
		if !t.sat() {
			best = min(best, n)
			return
		}
		if i == len(ix) || n+1 >= best {
			return
		}
		rec(i+1, n+1, t.and(k.tts[ix[i]]))
		rec(i+1, n, t)
	}
	rec(0, 0, base)
	return best
}

func (k *explClient) finish() {
	for i, q := range k.props {
		t, ok := newReader(k.fac, k.nv).tt(q.Formula())
		k.check(ok && t.eq(k.tts[i]), "X01", "proposition-changed", "proposition %d changed its formula", i)
	}
}

// ------------------------------------------------------------ generator ----

func (g *planGen) explClient(maxOps int) *ClientPlan {
	r := g.r
	c := &ClientPlan{Kind: "expl"}
	gc := GenCfg{nv: g.p.NV, depth: 2, pbc: 8, cons: 3, width: 3, rep: 4}
	if r.P(50) {
		gc.pbc = 0
	}
	one := func() *Node {
		switch r.Pick(6, 3, 2, 1) {
		case 0:
			return gc.clause(r, 3)
		case 1:
			return gc.lit(r)
		case 2:
			return gc.formula(r)
		default:
			return gc.cnf(r, r.Range(1, 3), 3)
		}
	}
	add := func(n int) {
		o := &Op{K: "prop", A: []int{r.Range(1, 2), r.Intn(64)}}
		if r.P(12) {
			o.A[0] = 0
		}
		for ; n > 0; n-- {
			o.F = append(o.F, one())
		}
		c.Ops = append(c.Ops, o)
	}
	add(r.Range(2, 8))
	for n := r.Range(2, maxOps); len(c.Ops) < n; {
		switch r.Pick(3, 1, 4, 4) {
		case 0:
			add(r.Range(1, 3))
		case 1:
			c.Ops = append(c.Ops, &Op{K: "drop", A: []int{r.Intn(64)}})
		case 2:
			o := &Op{K: "mus", A: []int{r.Intn(2)}, H: g.hspecN(40, append([]string{"MUS Computation Started"}, satEvents...)...)}
			if r.P(30) {
				for i := r.Range(1, 10); i > 0; i-- {
					o.B = append(o.B, r.Intn(12))
				}
			}
			c.Ops = append(c.Ops, o)
		default:
			o := &Op{K: "smus", A: []int{r.Intn(2)}, H: g.hspecN(60, append([]string{"SMUS Computation Started", "Optimization Function Started", "Found Better Bound"}, satEvents...)...)}
			if r.P(30) {
				for i := r.Range(1, 8); i > 0; i-- {
					o.B = append(o.B, r.Intn(12))
				}
			}
			for r.P(40) && len(o.F) < 3 {
				o.F = append(o.F, one())
			}
			c.Ops = append(c.Ops, o)
		}
	}
	return c
}

func init() {
	props["X01"] = propSpec{300000, func(g *planGen) {
		g.p.NV = g.r.Range(2, 6)
		n := 1
		if g.r.P(15) {
			n = 2
		}
		if g.r.P(20) {
			g.p.FCnf = g.r.Range(1, 4)
		}
		for i := 0; i < n; i++ {
			g.p.Clients = append(g.p.Clients, g.explClient(9))
		}
	}}
}
