package main

import (
	"sort"
)

// propSpec says how runs of a property are generated.
type propSpec struct {
	quick int // number of runs of the quick check
	gen   func(g *planGen)
}

var props = map[string]propSpec{}

func propIDs() []string {
	var r []string
	for k := range props {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

type planGen struct {
	p      *Plan
	r      *Rng
	cancel int // percentage of cancellable operations which are cancelled
}

// genPlan derives the plan of one run from the seed.
func genPlan(prop string, seed uint64, run int) *Plan {
	r := NewRng(seed, hashStr(prop), uint64(run))
	p := &Plan{Prop: prop, Run: run, Seed: seed, RandSeed: r.Next() | 1, Sched: r.Next(), NV: 5,
		Clock: ClockPlan{Start: 1_700_000_000 + int64(r.Intn(1000)), Step: 1000, Seed: r.Next()}}
	g := &planGen{p: p, r: r, cancel: []int{0, 10, 30, 60}[r.Intn(4)]}
	p.SwitchP = []int{2, 10, 30, 60}[r.Intn(4)]
	props[prop].gen(g)
	if len(p.Clients) > 1 && !p.Shared {
		p.Shared = true
	}
	plainEncodings(p)
	if p.FCnf == 1 {
		// factorising a formula around an encoded constraint explodes
		for _, c := range p.Clients {
			for _, o := range c.Ops {
				for _, n := range o.F {
					if c.Kind != "form" && p.FCnf == 1 && n.K != "p" && n.has("p") {
						p.FCnf = 2
					}
				}
			}
		}
	}
	return p
}

// plainEncodings keeps the default encodings of constraints on a factory which
// is also used for BDDs: these are compiled only from constraints which are
// encoded without auxiliary variables.
func plainEncodings(p *Plan) {
	bdd := false
	for _, c := range p.Clients {
		bdd = bdd || c.Kind == "bdd"
	}
	for _, c := range p.Clients {
		if bdd && c.Kind == "sat" {
			c.Cfg[cEnc] = 0
		}
	}
}

var satEvents = []string{"SAT Call Started", "SAT Call Finished", "SAT Conflict Detected"}
var iterEvents = []string{"SAT Call Started", "SAT Call Finished", "Model Enumeration Started", "Model Enumeration Commit", "Model Enumeration Rollback", "Model Iterator Found Models"}

// hspec generates the handler of an operation: none, one that only observes,
// or one that cancels.
func (g *planGen) hspec(events ...string) *HSpec { return g.hspecN(64, events...) }

func (g *planGen) hspecN(maxN int, events ...string) *HSpec {
	r := g.r
	if !r.P(g.cancel) {
		if r.P(60) {
			return nil
		}
		return &HSpec{M: "never"}
	}
	n := r.Log(maxN)
	switch r.Pick(4, 4, 2, 2, 1, 1) {
	case 0:
		return &HSpec{M: "from", N: n}
	case 1:
		return &HSpec{M: "once", N: n}
	case 2:
		if len(events) > 0 {
			return &HSpec{M: "type", T: events[r.Intn(len(events))], N: r.Log(6)}
		}
		return &HSpec{M: "from", N: n}
	case 3:
		if len(events) > 0 {
			return &HSpec{M: "typeonce", T: events[r.Intn(len(events))], N: r.Log(6)}
		}
		return &HSpec{M: "once", N: n}
	case 4:
		return &HSpec{M: "dur", D: int64(n) * 1000}
	default:
		return &HSpec{M: "end", D: int64(n)*1000 - 500}
	}
}

func (g *planGen) lits(maxN int) []int {
	r := g.r
	k := r.Range(0, min(maxN, g.p.NV))
	var a []int
	for _, v := range r.Perm(g.p.NV)[:k] {
		if r.P(50) {
			a = append(a, v+1)
		} else {
			a = append(a, -(v + 1))
		}
	}
	return a
}

func (g *planGen) varsSub(minN int) []int {
	r := g.r
	k := r.Range(min(minN, g.p.NV), g.p.NV)
	return append([]int{}, r.Perm(g.p.NV)[:k]...)
}

// satCfg draws the configuration of a SAT solver; unlisted entries stay default.
func (g *planGen) satCfg() []int {
	r := g.r
	c := make([]int, satCfgLen)
	if r.P(50) {
		c[cCNF] = r.Intn(3)
	}
	if r.P(30) {
		c[cAtMost] = 1
	}
	if r.P(25) {
		c[cProofs] = 1
	}
	if r.P(60) {
		c[cMin] = r.Intn(3)
	}
	if r.P(40) {
		c[cPhase] = r.Intn(2)
	}
	if r.P(70) {
		c[cLL] = r.Intn(5)
	}
	if c[cProofs] == 1 {
		// native at-most constraints are not part of the traced proof
		c[cAtMost] = 0
	}
	if r.P(40) {
		g.encCfg(c)
	}
	return c
}

func (g *planGen) encCfg(c []int) {
	r := g.r
	c[cEnc] = 1
	c[cAMO] = r.Intn(8)
	c[cAMK] = r.Intn(4)
	c[cALK] = r.Intn(4)
	c[cEXK] = r.Intn(3)
	c[cPBC] = r.Intn(4)
	c[cBim] = r.Intn(3)
	c[cBinM] = r.Intn(64)
}

// satMix are the weights of the operations of a SAT history.
type satMix struct {
	add, addprop, addenc, inc, bound, call, save, load, bb, opt, enum, count, enumbdd, fos, occ, probe int
	core, pbc, rep                                                                                     int
	nvLo, nvHi, ops                                                                                    int
}

var satBase = satMix{add: 8, addprop: 2, addenc: 1, inc: 1, bound: 2, call: 10, save: 3, load: 3, bb: 1, opt: 1, enum: 1, count: 1, enumbdd: 0, fos: 1, occ: 1, probe: 1, core: 20, pbc: 15, rep: 4, nvLo: 4, nvHi: 11, ops: 18}

func (g *planGen) content(m *satMix) *Node {
	r := g.r
	gc := GenCfg{nv: g.p.NV, depth: 2, pbc: m.pbc, cons: 2, width: 3, rep: m.rep}
	switch r.Pick(5, 4, 3, 1, m.pbc/5+1) {
	case 0:
		return gc.cnfk(r, r.Range(1, 2+2*g.p.NV/2), 3)
	case 1:
		return gc.cnf(r, r.Range(1, 4), 4)
	case 2:
		gc.depth = r.Range(1, 3)
		return gc.formula(r)
	case 3:
		return gc.lit(r)
	default:
		if m.pbc == 0 {
			return gc.clause(r, 3)
		}
		return gc.pbcNode(r)
	}
}

// satClient generates a history for a SAT solver.
func (g *planGen) satClient(m satMix) *ClientPlan {
	r := g.r
	c := &ClientPlan{Kind: "sat", Cfg: g.satCfg()}
	if m.core >= 60 {
		c.Cfg[cProofs], c.Cfg[cAtMost] = 1, 0
	}
	gc := GenCfg{nv: g.p.NV}
	if r.P(50) {
		// start from a problem near the satisfiability threshold
		n := g.p.NV
		c.Ops = append(c.Ops, &Op{K: "add", F: []*Node{gc.cnfk(r, r.Range(2*n, 4*n), 3)}})
	}
	nops := r.Range(3, m.ops)
	// swarm: drop some operation kinds in this run
	w := []int{m.add, m.addprop, m.addenc, m.inc, m.bound, m.call, m.save, m.load, m.bb, m.opt, m.enum, m.count, m.enumbdd, m.fos, m.occ, m.probe}
	for i := range w {
		if w[i] > 0 && w[i] <= 3 && r.P(35) {
			w[i] = 0
		} else if r.P(20) {
			w[i] *= 2
		}
	}
	if w[6] == 0 {
		w[7] = 0
	}
	for len(c.Ops) < nops {
		c.Ops = append(c.Ops, g.satOp(r.Pick(w...), &m))
	}
	return c
}

func (g *planGen) satOp(k int, m *satMix) *Op {
	r := g.r
	gc := GenCfg{nv: g.p.NV, depth: 2, pbc: m.pbc, width: 3, rep: m.rep}
	switch k {
	case 0:
		return &Op{K: "add", F: []*Node{g.content(m)}}
	case 1:
		return &Op{K: "addprop", F: []*Node{g.content(m)}}
	case 2:
		return &Op{K: "addenc", A: []int{r.Intn(2)}, F: []*Node{gc.pbcNode(r)}}
	case 3:
		n := gc.ccNode(r)
		if n.O == "=" {
			n.O = "<="
		}
		return &Op{K: "inc", A: []int{r.Intn(2), r.Intn(2)}, F: []*Node{n}}
	case 4:
		return &Op{K: "bound", A: []int{r.Intn(8), r.Pick(5, 2, 1)}}
	case 5:
		fl := 0
		if r.P(40) {
			fl |= fModel
		} else if r.P(40) {
			fl |= fAllModel
		}
		if r.P(m.core) {
			fl |= fCore
		}
		if r.P(25) {
			fl |= fUp
		}
		if r.P(30) {
			fl |= 64
		}
		if r.P(20) {
			fl |= 128
		}
		o := &Op{K: "call", A: append([]int{fl}, g.lits(r.Pick(3, 2, 1)*r.Range(1, 5))...), H: g.hspecN(24, satEvents...)}
		if fl&fModel != 0 {
			o.B = g.varsSub(0)
		}
		for r.P(30) && len(o.F) < 3 {
			o.F = append(o.F, g.content(m))
		}
		return o
	case 6:
		return &Op{K: "save"}
	case 7:
		return &Op{K: "load", A: []int{r.Intn(64)}}
	case 8:
		return &Op{K: "bb", A: []int{r.Intn(3)}, B: g.varsSub(1), H: g.hspecN(32, append(satEvents, "Backbone Computation Started")...)}
	case 9:
		return &Op{K: "opt", A: append([]int{r.Intn(2)}, g.lits(g.p.NV)...), B: g.smallVars(), H: g.hspecN(48, append(satEvents, "Optimization Function Started", "Found Better Bound")...)}
	case 10, 11, 12:
		maxModels := []int{2, 3, 5, 10, 100}[r.Intn(5)]
		o := &Op{K: []string{"enum", "count", "enumbdd"}[k-10], A: append([]int{r.Intn(6), maxModels}, g.varsSub(1)...), H: g.hspecN(100, iterEvents...)}
		if r.P(20) {
			o.A[0] = 1000 + r.Intn(1000)
		}
		if k > 10 && r.Intn(12) == 0 { // variables nobody knows
			o.B = []int{[]int{1, 2, 5, 31, 62, 63, 64, 70}[r.Intn(8)]}
		}
		if k == 10 && r.P(40) {
			o.B = g.smallVars()
		}
		return o
	case 13:
		return &Op{K: "fos"}
	case 14:
		return &Op{K: "occ", A: []int{r.Intn(2)}, B: g.varsSub(0)}
	default:
		return &Op{K: "probe", A: []int{r.Intn(1 << 20), r.Intn(1 << 20), r.Intn(1 << 20)}}
	}
}

func (g *planGen) smallVars() []int {
	return append([]int{}, g.r.Perm(g.p.NV)[:g.r.Intn(min(4, g.p.NV))]...)
}

func (g *planGen) satRun(m satMix, clients int) {
	r := g.r
	g.p.NV = r.Range(m.nvLo, m.nvHi)
	for i := 0; i < clients; i++ {
		g.p.Clients = append(g.p.Clients, g.satClient(m))
	}
}

func init() {
	props["S01"] = propSpec{240000, func(g *planGen) {
		if g.r.P(8) {
			g.bigRun(bigMix{10, 3, 4, 1, 1, 2, 0}, g.r.P(15))
			return
		}
		if g.r.P(3) {
			m := formBase
			m.pred, m.wide = 20, 20
			g.formRun(m)
			return
		}
		n := 1
		if g.r.P(20) {
			n = 2
		}
		g.satRun(satBase, n)
	}}
	props["S02"] = propSpec{300000, func(g *planGen) {
		if g.r.P(8) {
			g.bigRun(bigMix{10, 7, 9, 0, 0, 0, 0}, g.r.P(15))
			return
		}
		m := satBase
		m.save, m.load, m.add, m.bound, m.inc = 7, 8, 9, 3, 2
		g.satRun(m, 1)
	}}
	props["S03"] = propSpec{300000, func(g *planGen) {
		if g.r.P(8) {
			g.bigRun(bigMix{12, 3, 4, 0, 0, 0, 0}, true)
			return
		}
		m := satBase
		m.core, m.addprop, m.call, m.enum, m.count, m.bb, m.opt = 90, 9, 14, 0, 0, 0, 0
		m.nvHi, m.pbc, m.inc, m.bound, m.addenc = 7, 6, 0, 0, 0
		g.satRun(m, 1)
	}}
	props["S04"] = propSpec{350000, func(g *planGen) {
		if g.r.P(5) {
			g.bigRun(bigMix{10, 3, 4, 0, 0, 0, 1}, false)
			return
		}
		m := satBase
		m.pbc, m.inc, m.bound, m.addenc = 60, 4, 8, 4
		m.nvHi = 9
		g.satRun(m, 1)
		g.encCfg(g.p.Clients[0].Cfg)
	}}
	props["S05"] = propSpec{250000, func(g *planGen) {
		if g.r.P(5) {
			g.bigRun(bigMix{6, 2, 3, 9, 0, 0, 0}, g.r.P(10))
			return
		}
		m := satBase
		m.bb, m.opt, m.enum, m.count = 12, 0, 0, 0
		g.satRun(m, 1)
	}}
	props["S06"] = propSpec{250000, func(g *planGen) {
		if g.r.P(5) {
			g.bigRun(bigMix{6, 2, 3, 0, 9, 0, 0}, g.r.P(10))
			return
		}
		m := satBase
		m.opt, m.bb, m.enum, m.count = 12, 0, 0, 0
		m.nvHi = 9
		g.satRun(m, 1)
	}}
	props["S07"] = propSpec{300000, func(g *planGen) {
		m := satBase
		m.fos, m.occ, m.save, m.load = 8, 8, 5, 5
		m.nvHi = 8
		g.satRun(m, 1)
	}}
	props["E01"] = propSpec{240000, func(g *planGen) {
		if g.r.P(4) {
			g.bigRun(bigMix{6, 2, 3, 0, 0, 10, 0}, false)
			return
		}
		if g.r.P(10) {
			m := formBase
			m.enumf, m.wide, m.dnnf, m.prime, m.minprime, m.count = 20, 10, 1, 0, 0, 1
			g.formRun(m)
			return
		}
		m := satBase
		m.enum, m.enumbdd, m.call, m.count = 10, 4, 4, 0
		m.nvHi = 7
		if g.r.P(25) {
			m.nvLo, m.nvHi, m.ops = 7, 11, 10
		}
		g.satRun(m, 1)
	}}
}
