package main

import (
	"fmt"
	"runtime"
	"sort"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/np"
	"github.com/booleworks/logicng-go/randomizer"
)

func init() {
	kinds["rand"] = newRandClient
	kinds["np"] = func(c *Client) clientKind { return &npClient{c} }
}

// randClient compares formula randomizers which have to produce the same
// formulas: they live on different factories with different histories, run
// under different states of the runtime's randomness and are used at
// different times.
type randClient struct {
	*Client
	pairs []*randPair
	facs  []f.Factory
	n     uint64
}

type randPair struct {
	cfg    *randomizer.Config
	vars   map[string]bool
	names  []string
	gens   []*randomizer.FormulaRandomizer
	facs   []f.Factory
	record []string // outputs of the most advanced randomizer
	pos    []int
	calls  []*Op
}

func newRandClient(c *Client) clientKind {
	k := &randClient{Client: c}
	return k
}

// chaos changes the state of the runtime's randomness.
func (k *randClient) chaos() {
	k.n++
	runtime.SimRandSeed(NewRng(k.s.plan.RandSeed, 0x77, uint64(k.id), k.n).Next() | 1)
}

func (k *randClient) factory(i int) f.Factory {
	for len(k.facs) < 3 {
		k.facs = append(k.facs, f.NewFactory(k.s.plan.Conserve)) // simplification depends on it
	}
	if i%4 == 3 {
		return k.fac
	}
	return k.facs[i%4]
}

// config decodes a configuration.
func (k *randClient) config(o *Op, fac f.Factory) (*randomizer.Config, []string) {
	cfg := randomizer.DefaultConfig()
	cfg.Seed = int64(o.a(0))
	cfg.NumVars = 1 + o.a(1)%30
	w := func(i int) float64 { return []float64{0, 0.1, 1, 10}[o.a(2)>>(2*i)&3] }
	cfg.WeightConstant, cfg.WeightPosLit, cfg.WeightNegLit = w(0), 0.5+w(1), 0.5+w(2)
	cfg.WeightOr, cfg.WeightAnd, cfg.WeightNot = w(3), w(4), w(5)
	cfg.WeightImpl, cfg.WeightEquiv = w(6), w(7)
	cfg.WeightPBC, cfg.WeightCC, cfg.WeightAMO, cfg.WeightEXO = w(8), w(9), w(10), w(11)
	cfg.WeightPBCCoeffNeg = w(12)
	cfg.MaximumOpsAnd, cfg.MaximumOpsOr = 3+o.a(3)%4, 3+o.a(3)/4%4
	cfg.MaximumOpsPBC, cfg.MaximumOpsCC, cfg.MaximumCoeffPBC = 2+o.a(3)/16%6, 2+o.a(3)/128%6, 1+o.a(3)/1024%10
	var names []string
	if o.a(4) > 0 {
		cfg.NumVars = 0
		for i := 0; i < o.a(4); i++ {
			names = append(names, fmt.Sprintf("w%d", (i*7+o.a(0))%40))
			cfg.Variables = append(cfg.Variables, fac.Var(names[i]))
		}
	}
	return cfg, names
}

func (k *randClient) op(o *Op) {
	defer k.s.reseed()
	switch o.K {
	case "new":
		p := &randPair{}
		for i := 0; i < 2+o.a(5)%2; i++ {
			k.chaos()
			fac := k.factory(o.a(6+i) + i)
			var gen *randomizer.FormulaRandomizer
			cfg, names := k.config(o, fac)
			if o.a(9)%4 == 1 {
				cfg = randomizer.DefaultConfig()
				cfg.Seed, names = int64(o.a(0)), nil
				gen = randomizer.NewWithSeed(fac, cfg.Seed)
			} else if o.a(9)%4 == 2 {
				_ = fac.PutConfiguration(cfg)
				gen = randomizer.New(fac)
			} else {
				gen = randomizer.New(fac, cfg)
			}
			p.cfg, p.names = cfg, names
			p.gens, p.facs, p.pos = append(p.gens, gen), append(p.facs, fac), append(p.pos, 0)
		}
		p.vars = map[string]bool{}
		for _, n := range p.names {
			p.vars[n] = true
		}
		k.pairs = append(k.pairs, p)
	case "gen":
		if len(k.pairs) == 0 {
			return
		}
		p := k.pairs[o.a(0)%len(k.pairs)]
		p.calls = append(p.calls, o)
		if o.a(4)%3 == 0 {
			return // the calls are made up later
		}
		i := o.a(4) % len(p.gens)
		k.advance(p, i)
	case "noise":
		// other computations on the factories and on the global random source
		k.chaos()
		fac := k.factory(o.a(0))
		gc := o.F[0]
		_ = gc.build(fac)
	default:
		panic("simbug: op " + o.K)
	}
}

func (k *randClient) finish() {
	defer k.s.reseed()
	for _, p := range k.pairs {
		for i := range p.gens {
			k.advance(p, i)
		}
	}
}

// advance makes all calls one randomizer has not yet seen.
func (k *randClient) advance(p *randPair, i int) {
	for ; p.pos[i] < len(p.calls); p.pos[i]++ {
		o := p.calls[p.pos[i]]
		k.chaos()
		fs := k.generate(p.gens[i], p, o)
		out := ""
		for _, x := range fs {
			out += x.Sprint(p.facs[i]) + "\n"
			k.respects(p, o, p.facs[i], x)
		}
		k.logf("generated %d", len(out))
		if p.pos[i] == len(p.record) {
			p.record = append(p.record, out)
			continue
		}
		k.s.count("probe:compared")
		k.check(p.record[p.pos[i]] == out, "N01", "differs", "randomizers with seed %d produce %.200q and %.200q for call %d (%s)", p.cfg.Seed, p.record[p.pos[i]], out, p.pos[i], randMethods[o.a(1)%len(randMethods)])
		k.s.yield(k.Client)
	}
}

var randMethods = []string{"Formula", "ConstraintSet", "And", "Or", "Not", "Impl", "Equiv", "PBC", "CC", "AMO", "EXO", "Atom", "Literal", "Variable", "Constant"}

// possible reports whether a call can produce a formula of its sort at all.
func possible(c *randomizer.Config, vars int) bool {
	return vars >= 3
}

func (k *randClient) generate(r *randomizer.FormulaRandomizer, p *randPair, o *Op) []f.Formula {
	d := o.a(2) % 4
	vars := p.cfg.NumVars
	if p.names != nil {
		vars = len(p.vars)
	}
	m := randMethods[o.a(1)%len(randMethods)]
	if !possible(p.cfg, vars) {
		m = []string{"Literal", "Variable", "Constant", "AMO", "EXO"}[o.a(1)%5]
	}
	one := func(x f.Formula) []f.Formula { return []f.Formula{x} }
	switch m {
	case "Formula":
		return one(r.Formula(d))
	case "ConstraintSet":
		return r.ConstraintSet(o.a(3)%4, d)
	case "And":
		return one(r.And(d))
	case "Or":
		return one(r.Or(d))
	case "Not":
		return one(r.Not(d))
	case "Impl":
		return one(r.Impl(d))
	case "Equiv":
		return one(r.Equiv(d))
	case "PBC":
		return one(r.PBC())
	case "CC":
		return one(r.CC())
	case "AMO":
		return one(r.AMO())
	case "EXO":
		return one(r.EXO())
	case "Atom":
		return one(r.Atom())
	case "Literal":
		return one(r.Literal().AsFormula())
	case "Variable":
		return one(r.Variable().AsFormula())
	}
	return one(r.Constant())
}

// respects checks that a formula uses the configured variables and sorts.
func (k *randClient) respects(p *randPair, o *Op, fac f.Factory, x f.Formula) {
	vars := formulaVars(fac, x)
	if p.names == nil {
		for v := range vars {
			p.vars[k.name(fac, v)] = true
		}
		k.check(len(p.vars) <= p.cfg.NumVars, "N01", "variables", "formulas over %d variables are configured, %d occur", p.cfg.NumVars, len(p.vars))
	} else {
		for v := range vars {
			k.check(p.vars[k.name(fac, v)], "N01", "variables", "%s contains the variable %s which is not configured", x.Sprint(fac), k.name(fac, v))
		}
	}
	k.check(formDepth(fac, x) <= o.a(2)%4, "N01", "depth", "formula %s exceeds depth %d", x.Sprint(fac), o.a(2)%4)
	m := randMethods[o.a(1)%len(randMethods)]
	if m != "Formula" && m != "ConstraintSet" {
		return
	}
	k.checkSorts(p, fac, x)
}

func (k *randClient) name(fac f.Factory, v f.Variable) string {
	n, _ := fac.VarName(v)
	return n
}

func formDepth(fac f.Factory, x f.Formula) int {
	switch x.Sort() {
	case f.SortAnd, f.SortOr, f.SortImpl, f.SortEquiv, f.SortNot:
		d := 0
		for _, y := range fac.Operands(x) {
			d = max(d, formDepth(fac, y))
		}
		return d + 1
	}
	return 0
}

func (k *randClient) checkSorts(p *randPair, fac f.Factory, x f.Formula) {
	c := p.cfg
	ok := true
	switch x.Sort() {
	case f.SortAnd:
		ok = c.WeightAnd > 0
	case f.SortOr:
		ok = c.WeightOr > 0
	case f.SortImpl:
		ok = c.WeightImpl > 0
	case f.SortEquiv:
		ok = c.WeightEquiv > 0
	case f.SortNot:
		ok = c.WeightNot > 0
	case f.SortCC:
		ok = c.WeightCC+c.WeightAMO+c.WeightEXO+c.WeightPBC > 0
	case f.SortPBC:
		ok = c.WeightPBC > 0
	}
	k.check(ok, "N01", "sorts", "%s contains a sort with weight 0", x.Sprint(fac))
	switch x.Sort() {
	case f.SortAnd, f.SortOr, f.SortImpl, f.SortEquiv, f.SortNot:
		for _, y := range fac.Operands(x) {
			k.checkSorts(p, fac, y)
		}
	}
}

// npClient computes minimum set covers.
type npClient struct{ *Client }

func (k *npClient) finish() {}

func (k *npClient) op(o *Op) {
	if o.K != "cover" {
		panic("simbug: op " + o.K)
	}
	n := o.a(0) // number of sets; A[1..n] are bit masks of their elements
	masks := make([]int, n)
	all := 0
	for i := range masks {
		masks[i] = o.a(i + 1)
		all |= masks[i]
	}
	best := n + 1
	for s := 0; s < 1<<n; s++ {
		u, c := 0, 0
		for i := range masks {
			if s>>i&1 == 1 {
				u |= masks[i]
				c++
			}
		}
		if u == all && c < best {
			best = c
		}
	}
	var res []int
	if o.a(n+1)%2 == 0 {
		res = coverOf(k, masks, func(e int) string { return fmt.Sprintf("e%d", e) })
	} else {
		res = coverOf(k, masks, func(e int) int { return e * 17 })
	}
	u := 0
	for _, m := range res {
		u |= m
	}
	sort.Ints(res)
	k.logf("cover %d of %d sets", len(res), n)
	k.s.count("probe:covers")
	k.check(u == all, "N02", "no-cover", "%v does not cover the union of %v", res, masks)
	k.check(len(res) == best, "N02", "no-minimum", "cover of %v by %d sets returned, %d are enough", masks, len(res), best)
	k.sem("cover size", len(res))
}

// coverOf computes a cover and translates its sets back to masks.
func coverOf[T comparable](k *npClient, masks []int, el func(int) T) []int {
	var sets [][]T
	for _, m := range masks {
		s := []T{}
		for e := 0; e < 16; e++ {
			if m>>e&1 == 1 {
				s = append(s, el(e))
			}
		}
		sets = append(sets, s)
	}
	cover := np.MinimumSetCover(sets)
	var res []int
	for _, s := range cover {
		m := 0
		for _, x := range s {
			for e := 0; e < 16; e++ {
				if el(e) == x {
					m |= 1 << e
				}
			}
		}
		found := false
		for _, g := range masks {
			found = found || g == m
		}
		k.check(found, "N02", "foreign-set", "the cover of %v contains the set %v", masks, s)
		res = append(res, m)
	}
	return res
}

// ------------------------------------------------------------ generator ----

func (g *planGen) npClient() *ClientPlan {
	r := g.r
	c := &ClientPlan{Kind: "np"}
	for i := r.Range(1, 3); i > 0; i-- {
		n := r.Range(0, 8)
		o := &Op{K: "cover", A: []int{n}}
		el := r.Range(1, 9)
		for j := 0; j < n; j++ {
			m := 0
			for e := 0; e < el; e++ {
				if r.P(35) {
					m |= 1 << e
				}
			}
			o.A = append(o.A, m)
		}
		o.A = append(o.A, r.Intn(2))
		c.Ops = append(c.Ops, o)
	}
	return c
}

func (g *planGen) randClient() *ClientPlan {
	r := g.r
	c := &ClientPlan{Kind: "rand"}
	n := 0
	for i := r.Range(3, 14); i > 0; i-- {
		switch {
		case n == 0 || r.P(15):
			w := r.Intn(1 << 30)
			// a structural sort has to be possible
			w |= 2<<6 | 2<<8
			vars := 0
			if r.P(40) {
				vars = r.Range(1, 12)
			}
			c.Ops = append(c.Ops, &Op{K: "new", A: []int{r.Intn(1000) - 2, r.Pick(1, 8)*2 + r.Intn(26), w, r.Intn(1 << 14), vars, r.Intn(2), r.Intn(4), r.Intn(4), r.Intn(4), r.Intn(4)}})
			n++
		case r.P(15):
			gc := GenCfg{nv: g.p.NV, depth: 2, pbc: 10, cons: 3, width: 3, rep: 4}
			c.Ops = append(c.Ops, &Op{K: "noise", A: []int{r.Intn(4)}, F: []*Node{gc.formula(r)}})
		default:
			c.Ops = append(c.Ops, &Op{K: "gen", A: []int{r.Intn(n), r.Intn(2 * len(randMethods)), r.Intn(4), r.Intn(4), r.Intn(9)}})
		}
	}
	return c
}

func init() {
	props["N01"] = propSpec{500000, func(g *planGen) {
		n := 1
		if g.r.P(30) {
			n = 2
		}
		for i := 0; i < n; i++ {
			g.p.Clients = append(g.p.Clients, g.randClient())
		}
	}}
}
