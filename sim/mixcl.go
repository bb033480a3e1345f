package main

// Plans which mix all kinds of clients on one factory: they serve the
// properties about cancellation, interleaving and randomness.

// mixClient generates a client of an arbitrary kind.
func (g *planGen) mixClient() *ClientPlan {
	r := g.r
	switch r.Pick(8, 4, 4, 8, 3, 2) {
	case 0:
		m := satBase
		m.enum, m.count, m.enumbdd, m.bb, m.opt = 3, 3, 1, 3, 3
		m.ops = 12
		return g.satClient(m)
	case 1:
		return g.maxsatClient(maxBase)
	case 2:
		return g.bddClient(14)
	case 3:
		m := formBase
		m.dnnf, m.prime, m.minprime, m.count = 2, 2, 2, 2
		return g.formClient(m)
	case 4:
		return g.explClient(5)
	default:
		return g.hdlClient(r.P(50))
	}
}

// again repeats computations which are cancelled, sometimes several times.
func (g *planGen) again(c *ClientPlan) {
	if c.Kind == "hdl" {
		return
	}
	var ops []*Op
	for _, o := range c.Ops {
		ops = append(ops, o)
		if o.H != nil && o.H.M != "never" && g.r.P(35) {
			q := *o
			q.H = nil
			if g.r.P(40) {
				// first another point of cancellation
				h := *o.H
				h.N = g.r.Log(200)
				p := *o
				p.H = &h
				ops = append(ops, &p)
			}
			ops = append(ops, &q)
		}
	}
	c.Ops = ops
}

func (g *planGen) mixRun(cancels []int, maxClients int) {
	r := g.r
	g.p.NV = r.Range(2, 6)
	g.p.Conserve = r.P(10)
	if r.P(20) {
		g.p.FCnf = r.Range(1, 4)
	}
	g.cancel = cancels[r.Intn(len(cancels))]
	if g.cancel > 0 && r.P(12) {
		// long searches with many conflicts
		g.bigRun(bigMix{call: 8, save: 1, load: 1, bb: 1, opt: 1, count: 1}, r.P(10))
		g.again(g.p.Clients[0])
		return
	}
	if g.cancel > 0 && r.P(4) {
		m := formBase
		m.wide, m.dnnf, m.count = 100, 6, 4
		g.formRun(m)
		return
	}
	n := 1
	if maxClients > 1 {
		n = 1 + r.Pick(5, 4, 2)
	}
	for i := 0; i < n; i++ {
		c := g.mixClient()
		if g.cancel > 0 {
			g.again(c)
		}
		g.p.Clients = append(g.p.Clients, c)
	}
}

func init() {
	props["H01"] = propSpec{180000, func(g *planGen) { g.mixRun([]int{15, 40, 80}, 3) }}
	props["H02"] = propSpec{180000, func(g *planGen) { g.mixRun([]int{15, 40, 80}, 3) }}
	props["H04"] = propSpec{180000, func(g *planGen) { g.mixRun([]int{0, 15, 40, 80}, 3) }}
	props["N02"] = propSpec{120000, func(g *planGen) {
		if g.r.P(25) {
			g.cancel = 0
			g.p.Clients = append(g.p.Clients, g.npClient())
			return
		}
		g.mixRun([]int{0}, 1)
	}}
}
