package main

import (
	"math/big"
	"sort"

	"github.com/booleworks/logicng-go/bdd"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/model"
)

func init() { kinds["bdd"] = newBddClient }

// configuration indices of a BDD client
const (
	bNodes = iota // size of the node table
	bCache        // size of the caches
	bSpare        // more variables than the plan uses
	bOrder        // seed of the variable order
	bCtor         // 0 = kernel with ordering, 1 = plain kernel
	bddCfgLen
)

var reorderMethods = []bdd.ReorderingMethod{bdd.ReorderNone, bdd.ReorderWin2, bdd.ReorderWin2Ite, bdd.ReorderWin3, bdd.ReorderWin3Ite, bdd.ReorderSift, bdd.ReorderSiftIte, bdd.ReorderRandom}

type bddHeld struct {
	b *bdd.BDD
	t TT
}

type bigHeld struct {
	v    *big.Int
	want int
	what string
}

type bddClient struct {
	*Client
	k      *bdd.Kernel
	held   []*bddHeld
	bigs   []bigHeld
	models []*heldModel
	known  map[int]bool // plan variables known to the kernel
	vars   int          // variables of the kernel
	blocks [][3]int     // first, last (kernel indices), fixed
	byIdx  []int        // kernel index -> plan variable
	moved  bool
}

type heldModel struct {
	m    *model.Model
	lits []f.Literal
}

func newBddClient(c *Client) clientKind {
	b := &bddClient{Client: c, known: map[int]bool{}}
	cfg := c.plan.Cfg
	nodes := int32(cfgAt(cfg, bNodes))
	cache := int32(cfgAt(cfg, bCache))
	b.vars = c.nv + cfgAt(cfg, bSpare)
	order := NewRng(uint64(cfgAt(cfg, bOrder)), 3).Perm(c.nv)
	if cfgAt(cfg, bCtor)%2 == 0 && b.vars == c.nv {
		b.k = bdd.NewKernelWithOrdering(c.fac, c.vset(order), nodes, cache)
		for _, v := range order {
			b.know(v)
		}
	} else {
		b.k = bdd.NewKernel(c.fac, int32(b.vars), nodes, cache)
	}
	return b
}

func (b *bddClient) know(v int) {
	if !b.known[v] {
		b.known[v] = true
		b.byIdx = append(b.byIdx, v)
	}
}

func (b *bddClient) knowFormula(n *Node) {
	vs := map[int]bool{}
	n.vars(vs)
	for i := 0; i < b.nv; i++ {
		if !b.known[i] {
			if _, err := b.k.IndexForVariable(b.v(i)); err == nil {
				b.check(vs[i], "B01", "unknown-variable", "variable %d is on the kernel although it was never used", i)
				b.known[i] = true
			}
		}
	}
	if len(b.known) != len(b.byIdx) {
		b.byIdx = make([]int, len(b.known))
		for v := range b.known {
			i, _ := b.k.IndexForVariable(b.v(v))
			b.check(int(i) < len(b.byIdx), "B01", "variable-index", "variable index %d out of range", i)
			b.byIdx[i] = v
		}
	}
}

// blame attributes a wrong result; counts are promised by several properties.
func (b *bddClient) blame(d string) string {
	switch t := b.s.target; {
	case t == "B01" && d == "E02", t == "E02" && d == "count":
		return t
	case d == "count":
		return "B02"
	}
	return d
}

// bddTT evaluates a BDD by walking its node representation.
func (c *Client) bddTT(b *bdd.BDD, prop string) TT {
	memo := map[bdd.Node]TT{}
	vi := map[string]int{}
	for i := 0; i < c.nv; i++ {
		vi[varName(i)] = i
	}
	var rec func(n bdd.Node) TT
	rec = func(n bdd.Node) TT {
		if t, ok := memo[n]; ok {
			return t
		}
		var t TT
		if !n.InnerNode() {
			t = ttConst(c.nv, n.Label() == "$true")
		} else {
			i, ok := vi[n.Label()]
			c.check(ok, prop, "node-variable", "BDD node with the variable %q", n.Label())
			x := ttVar(c.nv, i)
			t = x.not().and(rec(n.Low())).or(x.and(rec(n.High())))
		}
		memo[n] = t
		return t
	}
	return rec(b.NodeRepresentation())
}

func (b *bddClient) hold(x *bdd.BDD, t TT) {
	b.logf("bdd %d = %s", len(b.held), ttKey(t))
	h := &bddHeld{x, t}
	b.verify(h, "result")
	b.held = append(b.held, h)
	if len(b.held) > 14 {
		b.held = b.held[1:]
	}
}

func ttKey(t TT) string {
	s := make([]byte, 0, 17*len(t.w))
	for _, w := range t.w {
		for i := 0; i < 16; i++ {
			s = append(s, "0123456789abcdef"[w>>(60-4*i)&15])
		}
	}
	return string(s)
}

// verify compares the function a BDD represents with the expected one and
// its index with the indices of the other BDDs.
func (b *bddClient) verify(h *bddHeld, what string) {
	p := b.blame("B01")
	got := b.bddTT(h.b, p)
	b.check(got.eq(h.t), p, "function:"+what, "BDD %d does not represent its function (%d models instead of %d)", h.b.Index, got.count(), h.t.count())
	q := b.blame("B02")
	b.check(h.b.IsTautology() == (h.t.count() == 1<<b.nv), q, "tautology", "IsTautology=%v", h.b.IsTautology())
	b.check(h.b.IsContradiction() == !h.t.sat(), q, "contradiction", "IsContradiction=%v", h.b.IsContradiction())
	for _, o := range b.held {
		b.check((o.b.Index == h.b.Index) == o.t.eq(h.t), q, "canonical", "indices %d and %d for functions that are equal=%v", o.b.Index, h.b.Index, o.t.eq(h.t))
	}
}

func (b *bddClient) verifyAll(what string) {
	for _, h := range b.held {
		b.verify(h, what)
	}
	for _, x := range b.bigs {
		b.check(x.v.IsInt64() && x.v.Int64() == int64(x.want), b.blame("B02"), "aliased", "the number %d returned by %s earlier is now %v", x.want, x.what, x.v)
	}
	for _, m := range b.models {
		for i, l := range m.lits {
			b.check(m.m.Literals[i] == l, b.blame("B02"), "aliased-model", "a model returned earlier was changed")
		}
	}
}

func (b *bddClient) get(i int) *bddHeld {
	if len(b.held) == 0 {
		return nil
	}
	return b.held[i%len(b.held)]
}

// usable drops variables that do not fit on the kernel any more.
func (b *bddClient) usable(vs []int) []int {
	var r []int
	free := b.vars - len(b.known)
	for _, v := range uniq(vs) {
		if v < 0 || v >= b.nv {
			continue
		}
		if !b.known[v] {
			if free == 0 {
				continue
			}
			free--
		}
		r = append(r, v)
	}
	return r
}

func (b *bddClient) op(o *Op) {
	switch o.K {
	case "compile":
		n := o.F[0]
		form := n.build(b.fac)
		if o.H == nil {
			x := bdd.CompileWithKernel(b.fac, form, b.k)
			b.knowFormula(n)
			b.hold(x, n.tt(b.nv))
			return
		}
		h := b.newHdl(o.H)
		x, st := bdd.CompileWithKernelAndHandler(b.fac, form, b.k, h)
		b.knowFormula(n)
		if h.outcome("bdd.CompileWithKernelAndHandler", st) {
			b.check(x == nil, "H01", "result:bdd", "cancelled BDD compilation returns a BDD")
			b.verifyAll("after-cancel")
			return
		}
		b.hold(x, n.tt(b.nv))
	case "owncc":
		// a constraint on a kernel of its own, with the default order
		n := o.F[0]
		x := bdd.Compile(b.fac, n.build(b.fac))
		b.check(b.bddTT(x, "B01").eq(n.tt(b.nv)), "B01", "function:constraint", "BDD does not represent its constraint")
	case "own":
		// compile on a kernel of its own
		n := o.F[0]
		form := n.build(b.fac)
		h := b.newHdl(o.H)
		var x *bdd.BDD
		st := handler.Success()
		if o.a(0)%6 == 0 {
			if o.H == nil {
				x = bdd.Compile(b.fac, form)
			} else {
				x, st = bdd.CompileWithHandler(b.fac, form, h)
			}
		} else {
			ord := []func(f.Factory, f.Formula) []f.Variable{bdd.BFSOrder, bdd.DFSOrder, bdd.MaxToMinOrder, bdd.MinToMaxOrder, bdd.ForceOrder}[o.a(0)%6-1](b.fac, form)
			want := formulaVars(b.fac, form)
			b.check(len(ord) == len(want), "B01", "ordering", "variable ordering %d has %d variables, the formula %d", o.a(0)%6, len(ord), len(want))
			for _, v := range ord {
				b.check(want[v], "B01", "ordering", "variable ordering %d has a foreign or repeated variable", o.a(0)%6)
				delete(want, v)
			}
			if o.H == nil {
				x = bdd.CompileWithVarOrder(b.fac, form, ord)
			} else {
				x, st = bdd.CompileWithVarOrderAndHandler(b.fac, form, ord, h)
			}
		}
		if h.outcome("bdd.Compile", st) {
			b.check(x == nil, "H01", "result:bdd", "cancelled BDD compilation returns a BDD")
			return
		}
		t := n.tt(b.nv)
		p := b.blame("B01")
		b.check(b.bddTT(x, p).eq(t), p, "function:own", "BDD does not represent its formula")
		vs := len(formulaVars(b.fac, form))
		b.checkBig(x.ModelCount(), t.count()>>(b.nv-vs), "ModelCount", b.blame("E02"))
		b.checkBig(x.ModelCount(), t.count()>>(b.nv-vs), "ModelCount (repeated)", b.blame("count"))
		b.shape(x, t, true)
	case "lits":
		lits := b.usableLits(o.A)
		if len(lits) == 0 {
			return
		}
		x := bdd.CompileLiterals(b.lits(lits), b.k)
		b.knowLits(lits)
		b.hold(x, litsTT(b.nv, lits))
	case "neg":
		if h := b.get(o.a(0)); h != nil {
			b.hold(h.b.Negate(), h.t.not())
		}
	case "bin":
		l, r := b.get(o.a(0)), b.get(o.a(1))
		if l == nil {
			return
		}
		switch o.a(2) % 5 {
		case 0:
			b.hold(l.b.And(r.b), l.t.and(r.t))
		case 1:
			b.hold(l.b.Or(r.b), l.t.or(r.t))
		case 2:
			b.hold(l.b.Implies(r.b), l.t.not().or(r.t))
		case 3:
			b.hold(l.b.ImpliedBy(r.b), r.t.not().or(l.t))
		case 4:
			b.hold(l.b.Equivalence(r.b), l.t.and(r.t).or(l.t.not().and(r.t.not())))
		}
	case "restrict":
		h := b.get(o.a(0))
		if h == nil || len(o.A) < 1 {
			return
		}
		lits := b.usableLits(o.A[1:])
		x := h.b.Restrict(b.lits(lits)...)
		b.knowLits(lits)
		t := h.t
		for _, l := range lits {
			if l > 0 {
				t = t.cofactor(l-1, true)
			} else {
				t = t.cofactor(-l-1, false)
			}
		}
		b.hold(x, t)
	case "exists", "forall":
		h := b.get(o.a(0))
		if h == nil {
			return
		}
		vs := b.usable(o.B)
		if o.K == "exists" {
			x := h.b.Exists(b.vset(vs)...)
			b.knowVars(vs)
			b.hold(x, h.t.exists(vs))
		} else {
			x := h.b.ForAll(b.vset(vs)...)
			b.knowVars(vs)
			b.hold(x, h.t.forall(vs))
		}
	case "query":
		if h := b.get(o.a(0)); h != nil {
			b.query(h, o)
		}
	case "swap":
		if len(b.blocks) > 0 {
			return // documented as not allowed
		}
		x, y := o.a(0)%b.nv, o.a(1)%b.nv
		err := b.k.SwapVariables(b.v(x), b.v(y))
		b.check((err == nil) == (b.known[x] && b.known[y]), "B01", "swap-error", "swapping variables returns %v", err)
		if err == nil && x != y {
			b.moved = true
			b.s.count("probe:bdd-swap")
		}
		b.verifyAll("after-swap")
	case "reorder":
		b.k.Reorder(reorderMethods[o.a(0)%len(reorderMethods)])
		b.moved = true
		b.s.count("probe:bdd-reorder")
		b.verifyAll("after-reorder")
		b.checkBlocks()
	case "auto":
		b.moved = true
		b.k.ActivateReorderDuringBuild(reorderMethods[o.a(0)%len(reorderMethods)], int32(o.a(1)))
	case "block":
		if b.moved {
			return
		}
		first, last := o.a(0)%b.vars, o.a(1)%b.vars
		if first > last {
			first, last = last, first
		}
		for _, x := range b.blocks {
			if first == x[0] && last == x[1] {
				return
			}
			if first < x[0] && last >= x[0] && last < x[1] || first > x[0] && first <= x[1] && last > x[1] {
				return // blocks must not intersect
			}
		}
		b.k.AddVariableBlock(int32(first), int32(last), o.a(2)%2 == 1)
		b.blocks = append(b.blocks, [3]int{first, last, o.a(2) % 2})
	case "blocks":
		if b.moved {
			return // blocks refer to the initial variable order
		}
		b.k.AddAllVariablesAsBlock()
		for i := 0; i < b.vars; i++ {
			b.blocks = append(b.blocks, [3]int{i, i, 0})
		}
	case "check":
		b.verifyAll("later")
	default:
		panic("simbug: bdd op " + o.K)
	}
}

func (b *bddClient) usableLits(a []int) []int {
	var vs []int
	ph := map[int]int{}
	for _, l := range a {
		v := l
		if v < 0 {
			v = -v
		}
		if v == 0 {
			continue
		}
		vs = append(vs, v-1)
		ph[v-1] = l
	}
	var r []int
	for _, v := range b.usable(vs) {
		r = append(r, ph[v])
	}
	return r
}

func (b *bddClient) knowLits(lits []int) {
	for _, l := range lits {
		if l < 0 {
			l = -l
		}
		b.know(l - 1)
	}
}

func (b *bddClient) knowVars(vs []int) {
	for _, v := range vs {
		b.know(v)
	}
}

// checkBlocks checks that the variables of a block stayed together.
func (b *bddClient) checkBlocks() {
	if len(b.known) != b.vars || len(b.held) == 0 {
		return
	}
	pos := map[int]int{}
	for i, v := range b.order(b.held[0].b) {
		pos[v] = i
	}
	for _, bl := range b.blocks {
		lo, hi := b.vars, -1
		for i := bl[0]; i <= bl[1]; i++ {
			p := pos[b.byIdx[i]]
			lo, hi = min(lo, p), max(hi, p)
		}
		b.check(hi-lo == bl[1]-bl[0], b.blame("B01"), "block", "variables of block %v are spread over levels %d..%d", bl, lo, hi)
	}
}

// order returns the variable order, nil if the kernel has unused variables.
func (b *bddClient) order(x *bdd.BDD) []int {
	ord := x.VariableOrder()
	var r []int
	seen := map[int]bool{}
	for _, v := range ord {
		name, _ := b.fac.VarName(v)
		i := varIdx(name)
		b.check(i >= 0 && i < b.nv && !seen[i], b.blame("B01"), "order", "variable order contains %q (unknown or repeated)", name)
		seen[i] = true
		r = append(r, i)
	}
	b.check(len(r) == len(b.known), b.blame("B01"), "order-length", "variable order has %d variables, the kernel %d", len(r), len(b.known))
	return r
}

type bddShape struct {
	nodes     int
	one, zero int
	profile   map[int]int
}

// reducedShape computes the reduced ordered BDD of a function for an order.
func reducedShape(t TT, ord []int) bddShape {
	sh := bddShape{profile: map[int]int{}}
	type pc struct{ one, zero int }
	memo := map[string]pc{}
	var rec func(t TT, i int) pc
	rec = func(t TT, i int) pc {
		if !t.sat() {
			return pc{0, 1}
		}
		if t.count() == 1<<t.n {
			return pc{1, 0}
		}
		key := ttKey(t)
		if r, ok := memo[key]; ok {
			return r
		}
		for !t.dependsOn(ord[i]) {
			i++
		}
		sh.nodes++
		sh.profile[ord[i]]++
		l := rec(t.cofactor(ord[i], false), i+1)
		h := rec(t.cofactor(ord[i], true), i+1)
		r := pc{l.one + h.one, l.zero + h.zero}
		memo[key] = r
		return r
	}
	r := rec(t, 0)
	sh.one, sh.zero = r.one, r.zero
	return sh
}

func (c *bddClient) checkBig(v *big.Int, want int, what, prop string) {
	c.check(v != nil && v.IsInt64() && v.Int64() == int64(want), prop, "number:"+what, "%s returns %v, expected %d", what, v, want)
	c.bigs = append(c.bigs, bigHeld{v, want, what})
}

// shape compares the structural queries with the reduced BDD.
func (b *bddClient) shape(x *bdd.BDD, t TT, own bool) {
	p := b.blame("B01")
	var ord []int
	for _, v := range x.VariableOrder() {
		name, _ := b.fac.VarName(v)
		i := varIdx(name)
		if name == "" {
			return // a variable of the kernel which is not in use
		}
		b.check(i >= 0 && i < b.nv, p, "order", "variable order contains %q", name)
		ord = append(ord, i)
	}
	sh := reducedShape(t, ord)
	b.check(x.NodeCount() == sh.nodes, p, "node-count", "NodeCount returns %d, the reduced BDD has %d nodes", x.NodeCount(), sh.nodes)
	prof := x.VariableProfile()
	for v, n := range prof {
		name, _ := b.fac.VarName(v)
		b.check(sh.profile[varIdx(name)] == n, p, "profile", "VariableProfile of %s is %d, expected %d", name, n, sh.profile[varIdx(name)])
	}
	b.checkBig(x.PathCountOne(), sh.one, "PathCountOne", p)
	b.checkBig(x.PathCountZero(), sh.zero, "PathCountZero", p)
	b.checkBig(x.PathCountOne(), sh.one, "PathCountOne (repeated)", b.blame("B02"))
}

func (b *bddClient) query(h *bddHeld, o *Op) {
	p := b.blame("B01")
	x, t := h.b, h.t
	full := len(b.known) == b.vars
	scale := 0
	if b.vars > b.nv {
		scale = b.vars - b.nv
	}
	switch o.a(1) % 12 {
	case 0:
		b.checkBig(x.ModelCount(), t.count()<<scale, "ModelCount", b.blame("E02"))
	case 1:
		vs := b.usable(o.B)
		var kn []int
		for _, v := range vs {
			if b.known[v] {
				kn = append(kn, v)
			}
		}
		ms := x.ModelEnumeration(b.vset(vs)...)
		want := map[int]bool{}
		for a := 0; a < 1<<b.nv; a++ {
			if t.get(a) {
				m := 0
				for i, v := range kn {
					if a>>v&1 == 1 {
						m |= 1 << i
					}
				}
				want[m] = true
			}
		}
		got := map[int]bool{}
		for _, m := range ms {
			b.check(len(m.Literals) == len(kn), p, "enum-size", "enumerated model has %d literals, expected %d", len(m.Literals), len(kn))
			k := 0
			seen := 0
			for _, l := range m.Literals {
				d := b.decodeLit(l)
				for i, v := range kn {
					if d == v+1 {
						k |= 1 << i
						seen |= 1 << i
					} else if d == -v-1 {
						seen |= 1 << i
					}
				}
			}
			b.check(seen == 1<<len(kn)-1, p, "enum-vars", "enumerated model does not assign the requested variables")
			b.check(!got[k], p, "enum-dup", "model enumerated twice")
			got[k] = true
			b.check(want[k], p, "enum-wrong", "enumerated assignment is no projected model")
			if len(b.models) < 40 {
				b.models = append(b.models, &heldModel{m, append([]f.Literal(nil), m.Literals...)})
			}
		}
		b.check(len(got) == len(want), p, "enum-missing", "%d of %d models enumerated", len(got), len(want))
	case 2:
		b.normalForm(x.CNF(), t, "CNF", p)
	case 3:
		b.normalForm(x.DNF(), t, "DNF", p)
	case 4:
		m, err := x.Model()
		b.checkModel(m, err, t, nil, true, p)
	case 5:
		vs := b.usable(o.B)
		if o.a(2)%2 == 0 {
			vs = b.knownOf(vs)
		}
		m, err := x.ModelWithVariables(o.a(3)%2 == 1, b.vset(vs)...)
		b.knowVars(vs)
		b.checkModel(m, err, t, vs, o.a(3)%2 == 1, p)
	case 6:
		if full && b.vars == b.nv {
			m, err := x.FullModel()
			b.checkModel(m, err, t, allVars(b.nv), true, p)
		}
	case 7:
		if full && b.vars == b.nv {
			b.order(x)
			b.shape(x, t, false)
		}
	case 8:
		var got []int
		for _, v := range x.Support() {
			got = append(got, b.decodeLit(v.AsLiteral())-1)
		}
		sort.Ints(got)
		b.check(eqInts(got, t.support()), p, "support", "Support returns %v, expected %v", got, t.support())
	case 9:
		form := x.ToFormula(b.fac, o.a(2)%2 == 0, true)
		g, ok := b.rd.tt(form)
		b.check(ok && g.eq(t), p, "to-formula", "ToFormula returns a formula with a different meaning")
	case 10:
		if full && b.vars == b.nv {
			sh := reducedShape(t, b.order(x))
			b.checkBig(x.NumberOfCNFClauses(), sh.zero, "NumberOfCNFClauses", p)
		}
	default:
		// the same count twice in a row, and on the negation
		b.checkBig(x.ModelCount(), t.count()<<scale, "ModelCount", b.blame("E02"))
		b.checkBig(x.ModelCount(), t.count()<<scale, "ModelCount (repeated)", b.blame("count"))
	}
	b.verifyAll("after-query")
}

func (b *bddClient) knownOf(vs []int) []int {
	var r []int
	for _, v := range vs {
		if b.known[v] {
			r = append(r, v)
		}
	}
	return r
}

func (b *bddClient) normalForm(form f.Formula, t TT, what, p string) {
	g, ok := b.rd.tt(form)
	b.check(ok && g.eq(t), p, "normal-form:"+what, "%s of a BDD has a different meaning", what)
	b.check(isShape(b.fac, form, what == "CNF"), p, "shape:"+what, "%s of a BDD has not that shape: %s", what, b.sp(form))
}

func (b *bddClient) checkModel(m *model.Model, err error, t TT, vs []int, def bool, p string) {
	b.check((err == nil) == t.sat(), p, "model-exists", "model query returns error %v although satisfiable=%v", err, t.sat())
	if err != nil {
		return
	}
	cube := ttConst(b.nv, true)
	seen := map[int]bool{}
	phase := map[int]bool{}
	for _, l := range m.Literals {
		d := b.decodeLit(l)
		b.check(d != 0, p, "model-literal", "model contains an unknown literal")
		cube = cube.and(litTT(b.nv, d))
		v := d - 1
		if d < 0 {
			v = -d - 1
		}
		b.check(!seen[v], p, "model-dup", "variable occurs twice in a model")
		seen[v] = true
		phase[v] = d > 0
	}
	b.check(cube.sat() && cube.implies(t), p, "model-wrong", "model is no model of the BDD")
	for _, v := range vs {
		b.check(seen[v], p, "model-vars", "model lacks a requested variable")
		if !t.dependsOn(v) {
			b.s.count("probe:bdd-dontcare")
		}
	}
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// isShape reports whether a formula is a CNF (or DNF) by walking it.
func isShape(fac f.Factory, form f.Formula, cnf bool) bool {
	inner, outer := f.SortOr, f.SortAnd
	if !cnf {
		inner, outer = outer, inner
	}
	term := func(x f.Formula) bool {
		switch x.Sort() {
		case f.SortLiteral:
			return true
		case inner:
			ops, _ := fac.NaryOperands(x)
			for _, o := range ops {
				if o.Sort() != f.SortLiteral {
					return false
				}
			}
			return true
		}
		return false
	}
	switch form.Sort() {
	case f.SortTrue, f.SortFalse:
		return true
	case outer:
		ops, _ := fac.NaryOperands(form)
		for _, o := range ops {
			if !term(o) {
				return false
			}
		}
		return true
	}
	return term(form)
}

func (b *bddClient) finish() { b.verifyAll("finish") }

// ------------------------------------------------------------ generator ----

func (g *planGen) bddClient(nops int) *ClientPlan {
	r := g.r
	c := &ClientPlan{Kind: "bdd", Cfg: make([]int, bddCfgLen)}
	c.Cfg[bNodes] = []int{0, 3, 10, 20, 40, 80, 150, 400}[r.Intn(8)]
	c.Cfg[bCache] = []int{0, 3, 10, 50, 300}[r.Intn(5)]
	if r.P(15) {
		c.Cfg[bSpare] = r.Range(1, 3)
	}
	c.Cfg[bCtor] = r.Pick(4, 1)
	c.Cfg[bOrder] = r.Intn(1 << 20)
	gc := GenCfg{nv: g.p.NV, depth: 3, cons: 2, width: 3, pure: true, rep: 4}
	w := []int{10, 2, 2, 8, 3, 2, 2, 8, 3, 3, 2, 2, 1, 1, 2}
	for i := range w {
		if i != 0 && i != 3 && r.P(30) {
			w[i] = 0
		}
	}
	if r.P(60) {
		// reordering needs variable blocks, which exclude swapping
		w[8] = 0
		for r.P(40) {
			c.Ops = append(c.Ops, &Op{K: "block", A: []int{r.Intn(64), r.Intn(64), r.Intn(2)}})
		}
		if r.P(80) {
			c.Ops = append(c.Ops, &Op{K: "blocks"})
		}
		for r.P(40) {
			c.Ops = append(c.Ops, &Op{K: "block", A: []int{r.Intn(64), r.Intn(64), r.Intn(2)}})
		}
		if r.P(50) {
			c.Ops = append(c.Ops, &Op{K: "auto", A: []int{r.Range(1, 7), []int{1, 3, 1000}[r.Intn(3)]}})
		}
	} else {
		w[11], w[12], w[10] = 0, 0, 0
	}
	n := r.Range(4, nops)
	idx := func() int { return r.Intn(64) }
	form := func() *Node {
		gc.depth = r.Range(1, 4)
		if r.P(25) {
			return gc.cnfk(r, r.Range(2, 3*g.p.NV), 3)
		}
		if r.P(8) {
			// constraints only in positive positions: a negated constraint is encoded with auxiliary variables
			return nAnd(gc.pbcNode(r), gc.formula(r))
		}
		return gc.formula(r)
	}
	for len(c.Ops) < n {
		switch r.Pick(w...) {
		case 0:
			c.Ops = append(c.Ops, &Op{K: "compile", F: []*Node{form()}, H: g.hspecN(60, "BDD Computation Started", "BDD New Ref Added")})
		case 1:
			c.Ops = append(c.Ops, &Op{K: "lits", A: g.lits(4)})
		case 2:
			c.Ops = append(c.Ops, &Op{K: "neg", A: []int{idx()}})
		case 3:
			c.Ops = append(c.Ops, &Op{K: "bin", A: []int{idx(), idx(), r.Intn(5)}})
		case 4:
			c.Ops = append(c.Ops, &Op{K: "restrict", A: append([]int{idx()}, g.lits(4)...)})
		case 5:
			c.Ops = append(c.Ops, &Op{K: "exists", A: []int{idx()}, B: g.smallVars()})
		case 6:
			c.Ops = append(c.Ops, &Op{K: "forall", A: []int{idx()}, B: g.smallVars()})
		case 7:
			c.Ops = append(c.Ops, &Op{K: "query", A: []int{idx(), r.Intn(12), r.Intn(2), r.Intn(2)}, B: g.varsSub(0)})
		case 8:
			c.Ops = append(c.Ops, &Op{K: "swap", A: []int{idx(), idx()}})
		case 9:
			c.Ops = append(c.Ops, &Op{K: "reorder", A: []int{r.Intn(8)}})
		case 10:
			c.Ops = append(c.Ops, &Op{K: "auto", A: []int{r.Intn(8), []int{0, 1, 3, 1000}[r.Intn(4)]}})
		case 11:
			c.Ops = append(c.Ops, &Op{K: "block", A: []int{idx(), idx(), r.Intn(2)}})
		case 12:
			c.Ops = append(c.Ops, &Op{K: "blocks"})
		case 13:
			c.Ops = append(c.Ops, &Op{K: "own", A: []int{r.Intn(6)}, F: []*Node{form()}, H: g.hspecN(60, "BDD Computation Started", "BDD New Ref Added")})
		case 14:
			c.Ops = append(c.Ops, &Op{K: "check"})
		}
	}
	return c
}

func init() {
	gen := func(g *planGen) {
		g.p.NV = g.r.Range(3, 9)
		n := 1
		if g.r.P(10) {
			n = 2
		}
		for i := 0; i < n; i++ {
			g.p.Clients = append(g.p.Clients, g.bddClient(30))
		}
	}
	props["B01"] = propSpec{600000, func(g *planGen) {
		gen(g)
		if g.r.P(1) {
			gc := GenCfg{nv: g.p.NV, pbc: 100}
			ops := &g.p.Clients[0].Ops
			*ops = append(*ops, &Op{K: "owncc", F: []*Node{gc.pbcNode(g.r)}})
		}
	}}
	props["B02"] = propSpec{500000, gen}
}
