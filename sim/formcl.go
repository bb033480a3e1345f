package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/dnnf"
	"github.com/booleworks/logicng-go/event"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/model/count"
	"github.com/booleworks/logicng-go/model/enum"
	"github.com/booleworks/logicng-go/model/iter"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/primeimplicant"
	"github.com/booleworks/logicng-go/sat"
	"github.com/booleworks/logicng-go/simplification"
	"github.com/booleworks/logicng-go/transformation"
)

func init() { kinds["form"] = newFormClient }

// formHeld is a formula of the factory together with everything that was
// observed about it when it was first held.
type formHeld struct {
	form  f.Formula
	t     TT
	node  *Node // construction, nil for results of transformations
	cc    int   // 0 no constraint, 1 only constraints encoded without auxiliary variables at top level, 2 other
	str   string
	facts string
	big   bool // the factorised normal forms are too large
}

// formClient works on formulas of a (shared) factory.
type formClient struct {
	*Client
	held   []*formHeld
	byForm map[f.Formula]int
	states []*normalform.CNFAuxState
	anon   *transformation.Anonymizer
	counts []*bigHeld
	rng    *Rng
	begun  bool
}

// begin constructs the formulas of the plan.
func (k *formClient) begin() {
	k.begun = true
	for _, n := range k.plan.F {
		k.hold(n.build(k.fac), n.tt(k.nv), n)
	}
}

func newFormClient(c *Client) clientKind {
	k := &formClient{Client: c, byForm: map[f.Formula]int{}, rng: NewRng(c.s.plan.Sched, uint64(c.id), 991)}
	for i := 0; i < 4; i++ { // two for Plaisted & Greenbaum, two for Tseitin
		k.states = append(k.states, normalform.NewCNFAuxState())
	}
	return k
}

// treeSize is the number of nodes of the tree of a formula (bounded).
func treeSize(fac f.Factory, x f.Formula) int {
	memo := map[f.Formula]int{}
	var rec func(y f.Formula) int
	rec = func(y f.Formula) int {
		if n, ok := memo[y]; ok {
			return n
		}
		n := 1
		for _, o := range fac.Operands(y) {
			n = min(n+rec(o), 1<<30)
		}
		memo[y] = n
		return n
	}
	return rec(x)
}

// cnfEstimate estimates the number of clauses and minterms which factorisation
// creates.
func cnfEstimate(fac f.Factory, x f.Formula) float64 {
	type est struct{ cp, cn, dp, dn float64 } // clauses/minterms of the formula and its negation
	mul := func(a, b float64) float64 { return max(1, a) * max(1, b) }
	and := func(a, b est) est { return est{a.cp + b.cp, mul(a.cn, b.cn), mul(a.dp, b.dp), a.dn + b.dn} }
	not := func(a est) est { return est{a.cn, a.cp, a.dn, a.dp} }
	or := func(a, b est) est { return not(and(not(a), not(b))) }
	worst := 0.0
	var rec func(y f.Formula) est
	rec = func(y f.Formula) est {
		ops := fac.Operands(y)
		var r est
		switch y.Sort() {
		case f.SortTrue, f.SortFalse, f.SortLiteral:
			r = est{1, 1, 1, 1}
		case f.SortNot:
			r = not(rec(ops[0]))
		case f.SortImpl:
			r = or(not(rec(ops[0])), rec(ops[1]))
		case f.SortEquiv:
			a, b := rec(ops[0]), rec(ops[1])
			r = and(or(not(a), b), or(a, not(b)))
		case f.SortCC, f.SortPBC:
			_, _, ls, _, _ := fac.PBCOps(y)
			n := float64(len(ls) * len(ls) * 3)
			r = est{n, n, n * n, n * n}
		default:
			r = rec(ops[0])
			for _, o := range ops[1:] {
				if y.Sort() == f.SortAnd {
					r = and(r, rec(o))
				} else {
					r = or(r, rec(o))
				}
			}
		}
		worst = max(worst, r.cp)
		return r
	}
	rec(x)
	return worst
}

// lazyForm prints a formula only when a message is needed.
type lazyForm struct {
	fac f.Factory
	x   f.Formula
}

func (l lazyForm) String() string {
	if n := treeSize(l.fac, l.x); n > 2000 {
		return fmt.Sprintf("<formula with %d nodes>", n)
	}
	return l.x.Sprint(l.fac)
}

func (c *Client) sp(x any) lazyForm {
	switch y := x.(type) {
	case f.Formula:
		return lazyForm{c.fac, y}
	case f.Literal:
		return lazyForm{c.fac, f.Formula(y)}
	case f.Variable:
		return lazyForm{c.fac, f.Formula(y)}
	}
	panic("simbug: sp")
}

// ccClass classifies the constraints of a formula.
func ccClass(fac f.Factory, x f.Formula) int {
	switch x.Sort() {
	case f.SortTrue, f.SortFalse, f.SortLiteral:
		return 0
	case f.SortCC:
		cmp, rhs, _, _, _ := fac.PBCOps(x)
		if cmp == f.LE && rhs == 1 || cmp == f.EQ && rhs == 1 || cmp == f.LT && rhs == 2 {
			return 1
		}
		return 2
	case f.SortPBC:
		return 2
	case f.SortAnd:
		r := 0
		for _, o := range fac.Operands(x) {
			r = max(r, ccClass(fac, o))
		}
		return r
	}
	for _, o := range fac.Operands(x) {
		if ccClass(fac, o) > 0 {
			return 2
		}
	}
	return 0
}

// expandable reports whether all constraints are at-most-one or exactly-one.
func expandable(fac f.Factory, x f.Formula) bool {
	switch x.Sort() {
	case f.SortTrue, f.SortFalse, f.SortLiteral:
		return true
	case f.SortCC:
		return ccClass(fac, x) == 1
	case f.SortPBC:
		return false
	}
	for _, o := range fac.Operands(x) {
		if !expandable(fac, o) {
			return false
		}
	}
	return true
}

// describe computes what the library reports about a formula and compares it
// with an independent walk over the formula.
func (k *formClient) describe(x f.Formula) string {
	p := "F02"
	fac := k.fac
	var sb strings.Builder
	vs := formulaVars(fac, x)
	names := make([]string, 0, len(vs))
	for v := range vs {
		n, _ := fac.VarName(v)
		names = append(names, n)
	}
	sort.Strings(names)
	got := []string{}
	for _, v := range f.Variables(fac, x).Content() {
		n, _ := fac.VarName(v)
		got = append(got, n)
	}
	sort.Strings(got)
	k.check(fmt.Sprint(names) == fmt.Sprint(got), p, "variables", "variables of %s are reported as %v", k.sp(x), got)
	lits := map[f.Literal]int{}
	atoms, nodes, depth := 0, 0, 0
	var walk func(y f.Formula, d int)
	walk = func(y f.Formula, d int) {
		nodes++
		depth = max(depth, d)
		switch y.Sort() {
		case f.SortTrue, f.SortFalse:
			atoms++
		case f.SortLiteral:
			atoms++
			lits[f.Literal(y)]++
		case f.SortCC, f.SortPBC:
			atoms++
			_, _, ls, _, _ := fac.PBCOps(y)
			for _, l := range ls {
				lits[l]++
				nodes++
			}
		case f.SortNot:
			o, _ := fac.NotOperand(y)
			walk(o, d+1)
		case f.SortImpl, f.SortEquiv:
			a, b, _ := fac.BinaryLeftRight(y)
			walk(a, d+1)
			walk(b, d+1)
		default:
			ops, _ := fac.NaryOperands(y)
			for _, o := range ops {
				walk(o, d+1)
			}
		}
	}
	walk(x, 0)
	gl := f.Literals(fac, x).Content()
	same := len(gl) == len(lits)
	for _, l := range gl {
		same = same && lits[l] > 0
	}
	k.check(same, p, "literals", "literals of %s are reported as %v", k.sp(x), gl)
	k.check(f.NumberOfAtoms(fac, x) == atoms, p, "atoms", "number of atoms of %s is reported as %d, counted %d", k.sp(x), f.NumberOfAtoms(fac, x), atoms)
	k.check(f.NumberOfNodes(fac, x) == nodes, p, "nodes", "number of nodes of %s is reported as %d, counted %d", k.sp(x), f.NumberOfNodes(fac, x), nodes)
	k.check(f.Depth(fac, x) == depth, p, "depth", "depth of %s is reported as %d, counted %d", k.sp(x), f.Depth(fac, x), depth)
	prof := f.LiteralProfile(fac, x)
	same = len(prof) == len(lits)
	for l, n := range lits {
		same = same && prof[l] == n
	}
	k.check(same, p, "profile", "literal profile of %s is reported as %v", k.sp(x), prof)
	vprof := f.VariableProfile(fac, x)
	vcount := map[f.Variable]int{}
	for l, n := range lits {
		vcount[l.Variable()] += n
	}
	same = same && len(vprof) == len(vcount)
	for v, n := range vprof {
		same = same && n == vcount[v]
	}
	k.check(same, p, "profile", "variable profile of %s is wrong", k.sp(x))
	sub := map[f.Formula]bool{}
	var subs func(y f.Formula)
	subs = func(y f.Formula) {
		if !sub[y] {
			sub[y] = true
			for _, o := range fac.Operands(y) {
				subs(o)
			}
		}
	}
	subs(x)
	sn := f.SubNodes(fac, x)
	pos := map[f.Formula]int{}
	for i, y := range sn {
		_, dup := pos[y]
		k.check(sub[y] && !dup, p, "subnodes", "sub-nodes of %s contain a wrong or repeated formula", k.sp(x))
		pos[y] = i
	}
	k.check(len(sn) == len(sub) && pos[x] == len(sn)-1, p, "subnodes", "sub-nodes of %s are incomplete", k.sp(x))
	for y, i := range pos {
		for _, o := range fac.Operands(y) {
			k.check(pos[o] < i, p, "subnodes-order", "sub-nodes of %s are not ordered bottom-up", k.sp(x))
		}
	}
	preds := []bool{normalform.IsNNF(fac, x), normalform.IsCNF(fac, x), normalform.IsDNF(fac, x), normalform.IsAIG(fac, x)}
	wants := []bool{isNNFShape(fac, x), isShape(fac, x, true), isShape(fac, x, false), isAIGShape(fac, x)}
	for i, n := range []string{"NNF", "CNF", "DNF", "AIG"} {
		k.check(preds[i] == wants[i], p, "predicate-"+n, "Is%s of %s is reported as %v", n, k.sp(x), preds[i])
	}
	fmt.Fprint(&sb, names, atoms, nodes, depth, preds, x.Sort())
	return sb.String()
}

func isNNFShape(fac f.Factory, x f.Formula) bool {
	if treeSize(fac, x) > 100000 {
		return true // not judged
	}
	return nnfShape(fac, x)
}

func nnfShape(fac f.Factory, x f.Formula) bool {
	switch x.Sort() {
	case f.SortTrue, f.SortFalse, f.SortLiteral:
		return true
	case f.SortAnd, f.SortOr:
		for _, o := range fac.Operands(x) {
			if !nnfShape(fac, o) {
				return false
			}
		}
		return true
	}
	return false
}

// equivOverNonAIG reports whether a formula without constraints contains an
// equivalence with an operand that is no AIG.
func equivOverNonAIG(fac f.Factory, x f.Formula) bool {
	if x.Sort() == f.SortCC || x.Sort() == f.SortPBC {
		return false
	}
	for _, o := range fac.Operands(x) {
		if x.Sort() == f.SortEquiv && !isAIGShape(fac, o) || equivOverNonAIG(fac, o) {
			return true
		}
	}
	return false
}

func isAIGShape(fac f.Factory, x f.Formula) bool {
	if treeSize(fac, x) > 100000 {
		return true // not judged
	}
	return aigShape(fac, x)
}

func aigShape(fac f.Factory, x f.Formula) bool {
	switch x.Sort() {
	case f.SortTrue, f.SortFalse, f.SortLiteral:
		return true
	case f.SortAnd, f.SortNot:
		for _, o := range fac.Operands(x) {
			if !aigShape(fac, o) {
				return false
			}
		}
		return true
	}
	return false
}

func (k *formClient) hold(x f.Formula, t TT, n *Node) {
	p := "F02"
	got, ok := newReader(k.fac, k.nv).tt(x)
	k.check(ok && got.eq(t), p, "meaning", "the constructed formula %s does not denote the function of its construction", k.sp(x))
	if treeSize(k.fac, x) > 2000 {
		k.s.count("probe:large-formula")
		return
	}
	str := x.Sprint(k.fac)
	k.logf("hold %s", str)
	if i, old := k.byForm[x]; old {
		h := k.held[i]
		k.check(h.t.eq(t), p, "coincide", "formula %s was constructed twice with different meanings", str)
		k.verify(h)
		if h.node == nil {
			h.node = n
		}
		return
	}
	h := &formHeld{form: x, t: t, node: n, str: str, cc: ccClass(k.fac, x), facts: k.describe(x), big: cnfEstimate(k.fac, x) > 3000}
	k.byForm[x] = len(k.held)
	k.held = append(k.held, h)
}

// verify re-checks a formula that was constructed earlier.
func (k *formClient) verify(h *formHeld) {
	p := "F02"
	got, ok := newReader(k.fac, k.nv).tt(h.form)
	k.check(ok && got.eq(h.t), p, "changed-meaning", "formula %s (once %s) changed its meaning", k.sp(h.form), h.str)
	k.check(h.form.Sprint(k.fac) == h.str, p, "changed-print", "formula once printed as %s is now %s", h.str, k.sp(h.form))
	facts := k.describe(h.form)
	k.check(facts == h.facts, p, "changed-facts", "query answers for %s changed from %s to %s", h.str, h.facts, facts)
	if h.node != nil {
		again := h.node.rebuild(k.fac, k.rng)
		k.check(again == h.form, p, "not-identical", "constructing %s again gives the different formula %s", h.str, k.sp(again))
	}
}

// rebuild constructs the node again through other constructors and
// other nestings.
func (n *Node) rebuild(fac f.Factory, r *Rng) f.Formula {
	switch n.K {
	case "&", "|":
		ops := make([]f.Formula, len(n.N))
		for i, k := range n.N {
			ops[i] = k.rebuild(fac, r)
		}
		if len(ops) > 2 && r.P(30) { // nesting is flattened
			i := 1 + r.Intn(len(ops)-1)
			if n.K == "&" {
				return fac.And(fac.And(ops[:i]...), fac.And(ops[i:]...))
			}
			return fac.Or(fac.Or(ops[:i]...), fac.Or(ops[i:]...))
		}
		sort := f.SortAnd
		if n.K == "|" {
			sort = f.SortOr
		}
		if r.P(50) {
			x, _ := fac.NaryOperator(sort, ops...)
			return x
		}
		var lits []f.Literal
		seen := map[f.Literal]bool{}
		for _, o := range ops {
			if o.Sort() != f.SortLiteral {
				lits = nil
				break
			}
			l := f.Literal(o)
			if seen[l] || seen[l.Negate(fac)] {
				lits = nil
				break
			}
			seen[l] = true
			lits = append(lits, l)
		}
		if len(lits) > 0 {
			if n.K == "&" {
				return fac.Minterm(lits...)
			}
			return fac.Clause(lits...)
		}
		if n.K == "&" {
			return fac.And(ops...)
		}
		return fac.Or(ops...)
	case ">":
		l := n.N[0].rebuild(fac, r)
		x, _ := fac.BinaryOperator(f.SortImpl, l, n.N[1].rebuild(fac, r))
		return x
	case "=":
		l := n.N[0].rebuild(fac, r)
		return fac.Equivalence(l, n.N[1].rebuild(fac, r))
	case "!":
		x := n.N[0].rebuild(fac, r)
		if x.Sort() == f.SortLiteral && r.P(50) {
			return x.Negate(fac)
		}
		return fac.Not(x)
	}
	return n.build(fac)
}

func (k *formClient) get(i int) *formHeld {
	if len(k.held) == 0 {
		k.hold(k.fac.Verum(), ttConst(k.nv, true), nTrue())
	}
	if i < 0 {
		i = -i
	}
	return k.held[i%len(k.held)]
}

// judge compares a result with the expected function, projected to the plan's
// variables when auxiliary variables may occur.
func (k *formClient) judge(x f.Formula, t TT, aux bool, p, what string) {
	got, ok := newReader(k.fac, k.nv).tt(x)
	if ok {
		k.check(got.eq(t), p, "not-equivalent:"+what, "%s returns %s which is not equivalent to the expected function", what, k.sp(x))
		k.hold(x, t, nil)
		return
	}
	k.check(aux, p, "aux:"+what, "%s returns %s with foreign variables", what, k.sp(x))
	k.s.count("probe:aux-result")
	fs := []f.Formula{x}
	if x.Sort() == f.SortAnd {
		fs = k.fac.Operands(x)
	}
	for m := 0; m < 1<<k.nv; m++ {
		k.check(k.auxSat(fs, m) == t.get(m), p, "not-equisatisfiable:"+what, "%s returns %s whose models do not project to those of the input (assignment %b)", what, k.sp(x), m)
	}
}

func (k *formClient) op(o *Op) {
	if !k.begun {
		k.begin()
	}
	switch o.K {
	case "new":
		n := o.F[0]
		k.hold(n.build(k.fac), n.tt(k.nv), n)
	case "alias":
		k.opAlias(o)
	case "verify":
		if o.a(0) == 0 {
			for _, h := range k.held {
				k.verify(h)
			}
		} else {
			k.verify(k.get(o.a(1)))
		}
		k.verifyCounts()
	case "comb":
		k.opComb(o)
	case "tr":
		k.opTransform(o)
	case "dnnf":
		k.opDnnf(o)
	case "prime":
		k.opPrime(o)
	case "minprime":
		k.opMinPrime(o)
	case "count":
		k.opCount(o)
	case "enumf":
		k.opEnum(o)
	case "pred":
		k.opPred(o)
	default:
		panic("simbug: unknown form op " + o.K)
	}
}

// opAlias constructs a constraint from slices which the caller changes later.
func (k *formClient) opAlias(o *Op) {
	n := o.F[0]
	lits := make([]f.Literal, len(n.N))
	for i, x := range n.N {
		lits[i] = f.Literal(x.build(k.fac))
	}
	cs := append([]int(nil), n.C...)
	x := k.fac.PBC(cSort(n.O), n.R, lits, cs)
	for i := range lits {
		lits[i] = lits[0]
		cs[i] = 77
	}
	k.hold(x, n.tt(k.nv), n)
}

// opComb combines two held formulas.
func (k *formClient) opComb(o *Op) {
	a, b := k.get(o.a(1)), k.get(o.a(2))
	if len(a.str)+len(b.str) > 400 {
		return
	}
	switch o.a(0) % 5 {
	case 0:
		k.hold(k.fac.And(a.form, b.form), a.t.and(b.t), nil)
	case 1:
		k.hold(k.fac.Or(a.form, b.form), a.t.or(b.t), nil)
	case 2:
		k.hold(k.fac.Implication(a.form, b.form), a.t.not().or(b.t), nil)
	case 3:
		k.hold(k.fac.Equivalence(a.form, b.form), a.t.and(b.t).or(a.t.not().and(b.t.not())), nil)
	default:
		k.hold(a.form.Negate(k.fac), a.t.not(), nil)
	}
}

const numTransforms = 25

// budget gives up on computations with exponential results.
func (k *formClient) budget(n int) {
	if n > 1500 {
		k.s.count("undecided:large-result")
		panic(undecided{})
	}
}

func (k *formClient) opTransform(o *Op) {
	h := k.get(o.a(1))
	if len(h.str) > k.limit(600) || h.big && k.s.plan.FCnf == 1 {
		return
	}
	fac, x, t := k.fac, h.form, h.t
	p := "F01"
	hasCC := h.cc > 0
	hdl := k.newHdl(o.H)
	hdl.onEvent = func(event.Event) { k.budget(hdl.n) }
	cancelled := func(api string, st handler.State, res f.Formula) bool {
		if hdl.outcome(api, st) {
			k.check(res == 0, "H01", "result-after-cancel:"+api, "%s: cancelled but returns a formula", api)
			return true
		}
		return false
	}
	// without handler the library's functions without handler are used
	plain := o.H == nil && len(h.str) <= 200 && k.nv <= 8
	shape := func(ok bool, what, s string, r f.Formula) {
		k.soft(ok, p, "shape:"+what, "%s returns %s which is no %s", what, k.sp(r), s)
	}
	switch o.a(0) % numTransforms {
	case 0:
		r := normalform.NNF(fac, x)
		k.judge(r, t, hasCC, p, "NNF")
		shape(isNNFShape(fac, r), "NNF", "NNF", r)
	case 1:
		r, st := normalform.FactorizedCNFWithHandler(fac, x, hdl)
		if cancelled("FactorizedCNF", st, r) {
			return
		}
		k.judge(r, t, hasCC, p, "FactorizedCNF")
		shape(isShape(fac, r, true), "FactorizedCNF", "CNF", r)
	case 2:
		cfg := &normalform.CNFConfig{
			Algorithm:                            normalform.CNFAlgorithm(o.a(2) % 4),
			FallbackAlgorithmForAdvancedEncoding: normalform.CNFTseitin + normalform.CNFAlgorithm(o.a(2)/4%2),
			DistributionBoundary:                 []int{-1, 0, 2, 10}[o.a(3)%4],
			CreatedClauseBoundary:                []int{1000, 0, 3, -1}[o.a(3)/4%4],
			AtomBoundary:                         []int{12, 0, 3, 6}[o.a(3)/16%4],
		}
		if h.big && (cfg.Algorithm == normalform.CNFFactorization || cfg.CreatedClauseBoundary < 0) {
			return
		}
		var r f.Formula
		if o.a(4)%3 == 0 {
			r = normalform.CNF(fac, x)
		} else {
			r = normalform.CNF(fac, x, cfg)
		}
		k.judge(r, t, true, p, "CNF")
		shape(isShape(fac, r, true), "CNF", "CNF", r)
	case 3:
		st := k.states[o.a(2)%2]
		if o.a(2)%4 >= 2 {
			st = normalform.NewCNFAuxState()
		}
		r := normalform.PGCNF(fac, x, []int{12, 0, 3, 5}[o.a(3)%4], st)
		k.judge(r, t, true, p, "PGCNF")
		shape(isShape(fac, r, true), "PGCNF", "CNF", r)
	case 4:
		st := k.states[2+o.a(2)%2]
		if o.a(2)%4 >= 2 {
			st = normalform.NewCNFAuxState()
		}
		r := normalform.TseitinCNF(fac, x, []int{12, 0, 3, 5}[o.a(3)%4], st)
		k.judge(r, t, true, p, "TseitinCNF")
		shape(isShape(fac, r, true), "TseitinCNF", "CNF", r)
	case 5:
		var r f.Formula
		st := handler.Success()
		if plain && h.cc == 0 && len(h.str) <= 80 {
			r = normalform.FactorizedDNF(fac, x)
		} else {
			r, st = normalform.FactorizedDNFWithHandler(fac, x, hdl)
		}
		if cancelled("FactorizedDNF", st, r) {
			return
		}
		k.judge(r, t, hasCC, p, "FactorizedDNF")
		shape(isShape(fac, r, false), "FactorizedDNF", "DNF", r)
	case 6:
		r := normalform.AIG(fac, x)
		k.judge(r, t, hasCC, p, "AIG")
		what := "AIG"
		if equivOverNonAIG(fac, x) {
			what = "AIG-equivalence"
		}
		shape(isAIGShape(fac, r), what, "AIG", r)
	case 7, 8:
		if h.cc > 1 {
			return
		}
		cnf := o.a(0)%numTransforms == 7
		var r f.Formula
		var st handler.State
		if cnf {
			if plain {
				r, st = bdd.CNF(fac, x), handler.Success()
			} else {
				r, st = bdd.CNFWithHandler(fac, x, hdl)
			}
		} else {
			if plain {
				r, st = bdd.DNF(fac, x), handler.Success()
			} else {
				r, st = bdd.DNFWithHandler(fac, x, hdl)
			}
		}
		if cancelled("BDDNormalForm", st, r) {
			return
		}
		k.judge(r, t, hasCC, p, "BDDNormalForm")
		shape(isShape(fac, r, cnf), "BDDNormalForm", "CNF/DNF", r)
	case 9, 10:
		cnf := o.a(0)%numTransforms == 9
		var r f.Formula
		var st handler.State
		if cnf {
			if plain {
				r, st = enum.CanonicalCNF(fac, x), handler.Success()
			} else {
				r, st = enum.CanonicalCNFWithHandler(fac, x, hdl)
			}
		} else {
			if plain {
				r, st = enum.CanonicalDNF(fac, x), handler.Success()
			} else {
				r, st = enum.CanonicalDNFWithHandler(fac, x, hdl)
			}
		}
		if cancelled("Canonical", st, r) {
			return
		}
		k.judge(r, t, false, p, "Canonical")
		shape(isShape(fac, r, cnf), "Canonical", "CNF/DNF", r)
		k.canonical(r, x, t, cnf, p)
	case 11:
		var r f.Formula
		st := handler.Success()
		if plain {
			r = simplification.QMC(fac, x)
		} else {
			r, st = simplification.QMCWithHandler(fac, x, hdl)
		}
		if cancelled("QMC", st, r) {
			return
		}
		k.judge(r, t, false, "X02", "QMC")
		k.check(isShape(fac, r, false), "X02", "shape:QMC", "QMC returns %s which is no DNF", k.sp(r))
	case 12:
		cfg := simplification.DefaultConfig()
		m := o.a(2)
		cfg.RestrictBackbone, cfg.FactorOut, cfg.SimplifyNegations, cfg.UseRatingFunction = m&1 != 0, m&2 != 0, m&4 != 0, m&8 != 0
		var r f.Formula
		st := handler.Success()
		if plain {
			r = simplification.Advanced(fac, x, cfg)
		} else {
			r, st = simplification.AdvancedWithHandler(fac, x, hdl, cfg)
		}
		if cancelled("Advanced", st, r) {
			return
		}
		k.judge(r, t, hasCC, p, "Advanced")
	case 13:
		k.judge(simplification.PropagateBackbone(fac, x), t, false, p, "PropagateBackbone")
	case 14:
		k.judge(simplification.Distribute(fac, x), t, false, p, "Distribute")
	case 15:
		if o.a(2)%2 == 0 {
			k.judge(simplification.FactorOut(fac, x), t, false, p, "FactorOut")
		} else {
			k.judge(simplification.FactorOut(fac, x, func(fac f.Factory, y f.Formula) float64 { return float64(f.NumberOfNodes(fac, y)) }), t, false, p, "FactorOut")
		}
	case 16:
		k.judge(simplification.MinimizeNegations(fac, x), t, hasCC, p, "MinimizeNegations")
	case 17, 18:
		cnf := o.a(0)%numTransforms == 17
		in := x
		if o.a(2)%4 > 0 {
			// bring the input into the required form first
			bh := k.newHdl(nil)
			bh.onEvent = func(event.Event) { k.budget(bh.n) }
			if cnf {
				in, _ = normalform.FactorizedCNFWithHandler(fac, x, bh)
			} else {
				in, _ = normalform.FactorizedDNFWithHandler(fac, x, bh)
			}
		}
		var r f.Formula
		var err error
		var st handler.State
		if cnf {
			if plain {
				r, err = simplification.CNFSubsumption(fac, in)
				st = handler.Success()
			} else {
				r, err, st = simplification.CNFSubsumptionWithHandler(fac, in, hdl)
			}
		} else {
			if plain {
				r, err = simplification.DNFSubsumption(fac, in)
				st = handler.Success()
			} else {
				r, err, st = simplification.DNFSubsumptionWithHandler(fac, in, hdl)
			}
		}
		k.check((err == nil) == isShape(fac, in, cnf), p, "subsumption-error", "subsumption of %s returns error %v", k.sp(in), err)
		if err != nil || cancelled("Subsumption", st, r) {
			return
		}
		k.judge(r, t, hasCC, p, "Subsumption")
		shape(isShape(fac, r, cnf), "Subsumption", "CNF/DNF", r)
		k.subsumed(r, cnf, p)
	case 19:
		k.judge(simplification.PropagateUnits(fac, x), t, true, p, "PropagateUnits")
	case 20:
		k.opAnonymize(h, p)
	case 21:
		k.opSubstLits(o, h, p)
	case 22:
		r, err := transformation.ExpandAMOAndEXO(fac, x)
		k.check((err == nil) == expandable(fac, x), p, "expand-error", "ExpandAMOAndEXO of %s returns error %v", h.str, err)
		if err == nil {
			k.judge(r, t, false, p, "ExpandAMOAndEXO")
			k.check(noConstraint(fac, r), p, "shape:ExpandAMOAndEXO", "ExpandAMOAndEXO of %s leaves a constraint", h.str)
		}
	case 23:
		vs := o.B
		if o.a(2)%2 == 0 {
			k.judge(transformation.ExistentialQE(fac, x, k.vset(vs)...), t.exists(vs), false, p, "ExistentialQE")
		} else {
			k.judge(transformation.UniversalQE(fac, x, k.vset(vs)...), t.forall(vs), false, p, "UniversalQE")
		}
	case 24:
		k.opSubst(o, h, p)
	}
}

// canonical checks that every clause (minterm) contains every variable and
// that there is one per model of the (negated) formula.
func (k *formClient) canonical(r, x f.Formula, t TT, cnf bool, p string) {
	vs := formulaVars(k.fac, x)
	switch r.Sort() {
	case f.SortTrue, f.SortFalse:
		return
	}
	inner, outer := f.SortOr, f.SortAnd
	if !cnf {
		inner, outer = outer, inner
	}
	terms := []f.Formula{r}
	if r.Sort() == outer && len(vs) > 1 {
		terms = k.fac.Operands(r)
	}
	if len(vs) == 1 && r.Sort() != f.SortLiteral {
		return
	}
	for _, term := range terms {
		n := 1
		if term.Sort() == inner {
			n = len(k.fac.Operands(term))
		}
		k.check(n == len(vs), p, "shape:canonical", "canonical form %s has a term without all variables", k.sp(r))
	}
}

// subsumed checks that no clause (minterm) is contained in another one.
func (k *formClient) subsumed(r f.Formula, cnf bool, p string) {
	outer := f.SortAnd
	if !cnf {
		outer = f.SortOr
	}
	if r.Sort() != outer {
		return
	}
	ops := k.fac.Operands(r)
	if len(ops) > 40 {
		return
	}
	sets := make([]map[f.Literal]bool, len(ops))
	for i, o := range ops {
		sets[i] = map[f.Literal]bool{}
		for _, l := range f.Literals(k.fac, o).Content() {
			sets[i][l] = true
		}
	}
	for i := range sets {
		for j := range sets {
			if i == j {
				continue
			}
			sub := true
			for l := range sets[i] {
				sub = sub && sets[j][l]
			}
			k.check(!sub, p, "not-subsumed", "subsumption returns %s where %s subsumes %s", k.sp(r), ops[i].Sprint(k.fac), ops[j].Sprint(k.fac))
		}
	}
}

func noConstraint(fac f.Factory, x f.Formula) bool {
	if x.Sort() == f.SortCC || x.Sort() == f.SortPBC {
		return false
	}
	for _, o := range fac.Operands(x) {
		if !noConstraint(fac, o) {
			return false
		}
	}
	return true
}

func (k *formClient) opAnonymize(h *formHeld, p string) {
	if k.anon == nil {
		k.anon = transformation.NewAnonymizer(k.fac, fmt.Sprintf("an%d_", k.id))
	}
	r := k.anon.Anonymize(h.form)
	rd := newReader(k.fac, k.nv)
	rd.fixed = map[f.Variable]int{}
	for v := range formulaVars(k.fac, h.form) {
		w := k.anon.Anonymize(v.AsFormula())
		k.check(w.Sort() == f.SortLiteral && w.IsPos(), p, "anonymize", "variable is anonymised to %s", k.sp(w))
		i := rd.varIndex(v)
		_, dup := rd.fixed[f.Variable(w)]
		k.check(!dup && k.decodeLit(f.Literal(w)) == 0, p, "anonymize-map", "anonymised variable %s is not fresh", k.sp(w))
		rd.fixed[f.Variable(w)] = i
	}
	rd2 := newReader(k.fac, k.nv)
	rd2.fixed = rd.fixed
	for v := range formulaVars(k.fac, r) {
		_, ok := rd.fixed[v]
		k.check(ok, p, "anonymize-var", "anonymised formula %s contains a variable it should not", k.sp(r))
	}
	got, ok := rd2.tt(r)
	k.check(ok && got.eq(h.t), p, "not-equivalent:Anonymize", "anonymising %s gives %s with another meaning", h.str, k.sp(r))
}

// opSubstLits replaces literals by literals.
func (k *formClient) opSubstLits(o *Op, h *formHeld, p string) {
	m := map[f.Literal]f.Literal{}
	pos, neg := map[int]int{}, map[int]int{} // variable -> signed literal
	for i := 0; i+1 < len(o.B); i += 2 {
		src, dst := o.B[i], o.B[i+1]
		v := max(src, -src) - 1
		if src > 0 {
			pos[v] = dst
		} else {
			neg[v] = dst
		}
		m[k.lits([]int{src})[0]] = k.lits([]int{dst})[0]
	}
	r := transformation.SubstituteLiterals(k.fac, h.form, &m)
	// reference: substitution on the formula's tree
	var lit func(x int) TT
	lit = func(x int) TT {
		v := max(x, -x) - 1
		if x > 0 {
			if d, ok := pos[v]; ok {
				return litTT(k.nv, d)
			}
		} else {
			if d, ok := neg[v]; ok {
				return litTT(k.nv, d)
			}
			if d, ok := pos[v]; ok {
				return litTT(k.nv, -d)
			}
		}
		return litTT(k.nv, x)
	}
	want := k.evalWith(h.form, func(l f.Literal) TT { return lit(k.decodeLit(l)) })
	k.judge(r, want, false, p, "SubstituteLiterals")
}

// opSubst replaces variables by formulas.
func (k *formClient) opSubst(o *Op, h *formHeld, p string) {
	sub := transformation.NewSubstitution()
	m := map[int]*formHeld{}
	mm := map[f.Variable]f.Formula{}
	size := len(h.str)
	for i := 0; i+1 < len(o.B); i += 2 {
		g := k.get(o.B[i+1])
		v := o.B[i] % k.nv
		if _, dup := m[v]; dup {
			continue
		}
		size += len(g.str) * 3
		m[v] = g
		if i%4 == 0 {
			sub.AddVar(k.v(v), g.form)
		} else {
			mm[k.v(v)] = g.form
		}
	}
	sub.AddMapping(mm)
	if size > 600 {
		return
	}
	r, err := transformation.Substitute(k.fac, h.form, sub)
	bad := false
	var walk func(x f.Formula)
	walk = func(x f.Formula) {
		if x.Sort() == f.SortCC || x.Sort() == f.SortPBC {
			for v := range formulaVars(k.fac, x) {
				if g := m[varIdxOf(k.Client, v)]; g != nil && g.form.Sort() != f.SortLiteral && g.form.Sort() != f.SortTrue && g.form.Sort() != f.SortFalse {
					bad = true
				}
			}
			return
		}
		for _, y := range k.fac.Operands(x) {
			walk(y)
		}
	}
	walk(h.form)
	k.check((err != nil) == bad, p, "substitute-error", "substitution in %s returns error %v", h.str, err)
	if err != nil {
		return
	}
	want := k.evalWith(h.form, func(l f.Literal) TT {
		x := k.decodeLit(l)
		v := max(x, -x) - 1
		t := ttVar(k.nv, v)
		if g := m[v]; g != nil {
			t = g.t
		}
		if x < 0 {
			t = t.not()
		}
		return t
	})
	k.judge(r, want, false, p, "Substitute")
}

func varIdxOf(c *Client, v f.Variable) int {
	x := c.decodeLit(v.AsLiteral())
	return x - 1
}

// evalWith evaluates a formula with the given meaning of its literals.
func (k *formClient) evalWith(x f.Formula, lit func(f.Literal) TT) TT {
	fac := k.fac
	switch x.Sort() {
	case f.SortTrue:
		return ttConst(k.nv, true)
	case f.SortFalse:
		return ttConst(k.nv, false)
	case f.SortLiteral:
		return lit(f.Literal(x))
	case f.SortNot:
		o, _ := fac.NotOperand(x)
		return k.evalWith(o, lit).not()
	case f.SortImpl:
		a, b, _ := fac.BinaryLeftRight(x)
		return k.evalWith(a, lit).not().or(k.evalWith(b, lit))
	case f.SortEquiv:
		a, b, _ := fac.BinaryLeftRight(x)
		u, v := k.evalWith(a, lit), k.evalWith(b, lit)
		return u.and(v).or(u.not().and(v.not()))
	case f.SortCC, f.SortPBC:
		cmp, rhs, ls, cs, _ := fac.PBCOps(x)
		ops := make([]TT, len(ls))
		for i, l := range ls {
			ops[i] = lit(l)
		}
		return ttPBC(k.nv, ops, cs, cStr(cmp), rhs)
	}
	and := x.Sort() == f.SortAnd
	t := ttConst(k.nv, and)
	for _, o := range fac.Operands(x) {
		if and {
			t = t.and(k.evalWith(o, lit))
		} else {
			t = t.or(k.evalWith(o, lit))
		}
	}
	return t
}

func (k *formClient) opDnnf(o *Op) {
	h := k.get(o.a(0))
	if len(h.str) > k.limit(400) {
		return
	}
	hdl := k.newHdl(o.H)
	hdl.onEvent = func(event.Event) { k.budget(hdl.n) }
	var d *dnnf.DNNF
	st := handler.Success()
	if o.H == nil && k.nv <= 8 && h.cc == 0 {
		d = dnnf.Compile(k.fac, h.form)
	} else {
		d, st = dnnf.CompileWithHandler(k.fac, h.form, hdl)
	}
	if hdl.outcome("DNNF", st) {
		k.check(d == nil, "H01", "result-after-cancel:DNNF", "cancelled DNNF compilation returns a DNNF")
		return
	}
	p := "D01"
	x := d.Formula
	aux := false
	for v := range formulaVars(k.fac, x) {
		if varIdxOf(k.Client, v) < 0 {
			aux = true
		}
		k.check(d.OriginalVars.Contains(v), p, "foreign-var", "DNNF %s has a variable outside its original variables", k.sp(x))
	}
	k.check(isNNFShape(k.fac, x), p, "shape:DNNF", "DNNF %s is no NNF", k.sp(x))
	k.dnnfShape(x, p)
	if !aux {
		got, _ := newReader(k.fac, k.nv).tt(x)
		if h.cc <= 1 {
			k.check(got.eq(h.t), p, "not-equivalent:DNNF", "DNNF %s of %s is not equivalent to it", k.sp(x), h.str)
			if k.nv <= 8 {
				k.hold(x, h.t, nil)
			}
		} else {
			k.check(got.eq(h.t) || hasAux(k.Client, d.OriginalVars.Content()), p, "not-equivalent:DNNF", "DNNF %s of %s is not equivalent to it", k.sp(x), h.str)
		}
	} else {
		// the computation's CNF may introduce auxiliary variables
		for m := 0; m < 1<<k.nv; m++ {
			k.check(k.generalAuxSat([]f.Formula{x}, m) == h.t.get(m), p, "not-equisatisfiable:DNNF", "DNNF %s of %s has other projected models", k.sp(x), h.str)
		}
	}
	if h.cc == 0 || h.cc == 1 && !hasAux(k.Client, d.OriginalVars.Content()) {
		c := d.ModelCount()
		n := len(formulaVars(k.fac, h.form))
		want := int64(h.t.count() >> (k.nv - n))
		k.checkCount(c, want, "DNNF")
	}
}

func hasAux(c *Client, vs []f.Variable) bool {
	for _, v := range vs {
		if varIdxOf(c, v) < 0 {
			return true
		}
	}
	return false
}

// limit bounds the size of inputs of expensive operations: wide plans have
// clause sets over many variables.
func (k *formClient) limit(n int) int {
	if k.nv > 8 {
		return 3000
	}
	return n
}

// dnnfShape checks decomposability and determinism of a formula.
func (k *formClient) dnnfShape(x f.Formula, p string) {
	seen := map[f.Formula]bool{}
	shared := newReader(k.fac, k.nv)
	var walk func(y f.Formula)
	walk = func(y f.Formula) {
		if seen[y] {
			return
		}
		seen[y] = true
		switch y.Sort() {
		case f.SortAnd:
			vs := map[f.Variable]bool{}
			for _, o := range k.fac.Operands(y) {
				for v := range formulaVars(k.fac, o) {
					k.check(!vs[v], p, "not-decomposable", "conjunction %s of the DNNF shares variables", k.sp(y))
				}
				for v := range formulaVars(k.fac, o) {
					vs[v] = true
				}
				walk(o)
			}
		case f.SortOr:
			ops := k.fac.Operands(y)
			aux := map[f.Variable]int{}
			for v := range formulaVars(k.fac, y) {
				if varIdxOf(k.Client, v) < 0 {
					aux[v] = k.nv + len(aux)
				}
			}
			if len(aux)+k.nv > 14 {
				return
			}
			rd := shared
			if len(aux) > 0 {
				rd = newReader(k.fac, k.nv)
				rd.aux = aux
			}
			tts := make([]TT, len(ops))
			for i, o := range ops {
				tts[i], _ = rd.tt(o)
				for j := 0; j < i; j++ {
					k.check(!tts[i].and(tts[j]).sat(), p, "not-deterministic", "disjunction %s of the DNNF is not deterministic", k.sp(y))
				}
				walk(o)
			}
		}
	}
	walk(x)
}

func (k *formClient) checkCount(c *big.Int, want int64, what string) {
	p := "E02"
	k.check(c != nil && c.IsInt64() && c.Int64() == want, p, "count:"+what, "%s counts %v models, there are %d", what, c, want)
	k.logf("count %d", want)
	k.counts = append(k.counts, &bigHeld{c, int(want), what})
}

func (k *formClient) verifyCounts() {
	for _, b := range k.counts {
		k.check(b.v.IsInt64() && b.v.Int64() == int64(b.want), "E02", "count-changed", "count %d returned by %s is now %v", b.want, b.what, b.v)
	}
}

func (k *formClient) opCount(o *Op) {
	hdl := k.newHdl(o.H)
	var fs []f.Formula
	t := ttConst(k.nv, true)
	vs := map[f.Variable]bool{}
	ok, cc := true, 0
	for _, i := range o.A[1:] {
		h := k.get(i)
		if len(h.str) > k.limit(400) || h.big && k.s.plan.FCnf == 1 {
			return
		}
		fs = append(fs, h.form)
		t = t.and(h.t)
		for v := range formulaVars(k.fac, h.form) {
			vs[v] = true
		}
		ok = ok && expandable(k.fac, h.form)
		cc += h.cc
	}
	switch o.a(0) % 3 {
	case 0:
		extra := o.B
		for _, v := range extra {
			vs[k.v(v)] = true
		}
		var vars []f.Variable
		for i := 0; i < k.nv; i++ {
			if vs[k.v(i)] {
				vars = append(vars, k.v(i))
			}
		}
		var c *big.Int
		var err error
		st := handler.Success()
		if o.H == nil && cc == 0 {
			c, err = count.Count(k.fac, vars, fs...)
		} else {
			c, err, st = count.CountWithHandler(k.fac, vars, hdl, fs...)
		}
		if err != nil {
			k.check(!ok, "E02", "count-error", "count of %d formulas fails: %v", len(fs), err)
			k.check(st.Success && !hdl.vetoed, "H01", "error-state", "count fails with error and state %v", st)
			return
		}
		if hdl.outcome("Count", st) {
			k.check(c == nil, "H01", "result-after-cancel:Count", "cancelled count returns %v", c)
			return
		}
		k.check(ok, "E02", "count-no-error", "count of a formula with general constraints returns no error")
		k.checkCount(c, int64(t.count()>>(k.nv-len(vars))), "Count")
	default:
		// counting by iteration over chosen variables
		x := k.fac.And(fs...)
		vars := o.B
		cfg := iter.DefaultConfig()
		cfg.Handler = hdl
		cfg.Strategy = strategy(k.fac, o.a(1), []int{2, 3, 5, 10, 100}[o.a(1)/8%5], k.vset(vars))
		var c *big.Int
		var st handler.State
		if o.a(0)%3 == 1 && o.H == nil && cfg.Strategy == nil {
			c, st = count.OnFormula(k.fac, x, k.vset(vars)), handler.Success()
		} else if o.a(0)%3 == 1 {
			c, st = count.OnFormulaWithConfig(k.fac, x, k.vset(vars), cfg)
		} else {
			sv := sat.NewSolver(k.fac)
			sv.Add(fs...)
			c, st = count.OnSolverWithConfig(sv, k.vset(vars), cfg)
		}
		proj := int64(t.exists(complement(k.nv, vars)).count() >> (k.nv - len(vars)))
		if hdl.outcome("CountIter", st) {
			k.check(c == nil || c.IsInt64() && c.Int64() <= proj, "H01", "partial-count", "cancelled count returns %v of %d models", c, proj)
			return
		}
		k.checkCount(c, proj, "CountIter")
	}
}

// opEnum enumerates the models of a formula.
func (k *formClient) opEnum(o *Op) {
	h := k.get(o.a(0))
	vars := dedupe(o.A[min(3, len(o.A)):])
	if len(h.str) > k.limit(400) || h.big && k.s.plan.FCnf == 1 {
		return
	}
	vs := k.vset(vars)
	proj := h.t.exists(complement(k.nv, vars))
	if proj.count()>>(k.nv-len(vars)) > 600 {
		return
	}
	st := strategy(k.fac, o.a(1), []int{2, 3, 5, 10, 100}[o.a(1)/8%5], vs)
	if o.a(2)%4 == 0 && len(vs) > 0 {
		var b *bdd.BDD
		complete := true
		if o.H == nil && st == nil {
			b = enum.ToBddOnFormula(k.fac, h.form, vs)
		} else {
			hdl := k.newHdl(o.H)
			bb, state := enum.ToBddOnFormulaWithConfig(k.fac, h.form, vs, &iter.Config{Handler: hdl, Strategy: st})
			complete = !hdl.outcome("enumbdd", state)
			b = bb
		}
		if b == nil {
			k.check(!complete, "E01", "bdd-nil", "no BDD returned")
			return
		}
		t, ok := newReader(k.fac, k.nv).tt(b.ToFormula(k.fac))
		k.check(ok, "E01", "bdd-aux", "enumerated BDD has unexpected variables")
		if complete {
			k.check(t.eq(proj), "E01", "bdd-wrong", "enumerated BDD represents %d of %d assignments", t.count(), proj.count())
		} else {
			k.check(t.implies(proj), "E01", "bdd-wrong", "partially enumerated BDD contains wrong assignments")
		}
		k.logf("enumbdd %d", t.count())
		return
	}
	add := dedupe(o.B)
	var models []*model.Model
	complete := true
	if o.H == nil && st == nil {
		models = enum.OnFormula(k.fac, h.form, vs, k.vset(add)...)
	} else {
		hdl := k.newHdl(o.H)
		ms, state := enum.OnFormulaWithConfig(k.fac, h.form, vs, &iter.Config{Handler: hdl, Strategy: st}, k.vset(add)...)
		complete = !hdl.outcome("enum", state)
		models = ms
	}
	k.checkEnum(models, h.t, vars, add, complete, "E01", "enum")
}

// opPred asks the predicates which decide formulas with a solver of their own.
func (k *formClient) opPred(o *Op) {
	a, b := k.get(o.a(1)), k.get(o.a(2))
	if len(a.str)+len(b.str) > k.limit(600) || k.s.plan.FCnf == 1 && (a.big || b.big) {
		return
	}
	var got, want bool
	what := ""
	switch o.a(0) % 5 {
	case 0:
		what, got, want = "IsSatisfiable", sat.IsSatisfiable(k.fac, a.form), a.t.sat()
	case 1:
		what, got, want = "IsTautology", sat.IsTautology(k.fac, a.form), !a.t.not().sat()
	case 2:
		what, got, want = "IsContradiction", sat.IsContradiction(k.fac, a.form), !a.t.sat()
	case 3:
		what, got, want = "Implies", sat.Implies(k.fac, a.form, b.form), a.t.implies(b.t)
	default:
		what, got, want = "IsEquivalent", sat.IsEquivalent(k.fac, a.form, b.form), a.t.eq(b.t)
	}
	k.check(got == want, "S01", "predicate:"+what, "%s(%s, %s) is %v", what, a.str, b.str, got)
	k.s.count("probe:predicate")
	k.logf("%s %v", what, got)
}

func (k *formClient) opPrime(o *Op) {
	h := k.get(o.a(0))
	if len(h.str) > 300 || h.big && k.s.plan.FCnf == 1 {
		return
	}
	hdl := k.newHdl(o.H)
	cs := primeimplicant.CoverSort(o.a(1) % 2)
	var res *primeimplicant.PrimeResult
	var st handler.State
	if o.H == nil {
		st = handler.Success()
		if o.a(2)%2 == 0 {
			res = primeimplicant.CoverMin(k.fac, h.form, cs)
		} else {
			res = primeimplicant.CoverMax(k.fac, h.form, cs)
		}
	} else if o.a(2)%2 == 0 {
		res, st = primeimplicant.CoverMinWithHandler(k.fac, h.form, cs, hdl)
	} else {
		res, st = primeimplicant.CoverMaxWithHandler(k.fac, h.form, cs, hdl)
	}
	if hdl.outcome("PrimeCover", st) {
		k.check(res == nil, "H01", "result-after-cancel:PrimeCover", "cancelled prime computation returns a cover")
		return
	}
	p := "X02"
	k.check(res.CoverSort == cs, p, "cover-sort", "prime result has the wrong cover sort")
	imps := k.primes(res.Implicants, h.t, true, p)
	iats := k.primes(res.Implicates, h.t, false, p)
	all, conj := ttConst(k.nv, false), ttConst(k.nv, true)
	for _, c := range imps {
		all = all.or(c)
	}
	for _, c := range iats {
		conj = conj.and(c)
	}
	k.check(all.eq(h.t), p, "implicant-cover", "the prime implicants of %s do not cover it", h.str)
	k.check(conj.eq(h.t), p, "implicate-cover", "the prime implicates of %s do not cover it", h.str)
	// the promised side holds all of them
	if cs == primeimplicant.CoverImplicants {
		n := countPrimes(h.t)
		k.check(len(imps) == n, p, "incomplete-implicants", "%d prime implicants of %s returned, there are %d", len(imps), h.str, n)
	} else {
		n := countPrimes(h.t.not())
		k.check(len(iats) == n, p, "incomplete-implicates", "%d prime implicates of %s returned, there are %d", len(iats), h.str, n)
	}
	k.logf("prime %d/%v", len(imps), cs)
	k.sem("prime implicants", len(imps))
	k.sem("prime implicates", len(iats))
}

// countPrimes counts the prime implicants of a function.
func countPrimes(t TT) int {
	pow := 1
	for i := 0; i < t.n; i++ {
		pow *= 3
	}
	impl := make([]bool, pow)
	n := 0
	// cubes ordered so that cubes with fewer literals come first is not needed:
	// a cube is prime if no cube with one literal less is an implicant
	var dig [16]int
	cube := func(i int) TT {
		c := ttConst(t.n, true)
		for v := 0; v < t.n; v++ {
			dig[v] = i % 3
			i /= 3
			if dig[v] == 1 {
				c = c.and(ttVar(t.n, v))
			} else if dig[v] == 2 {
				c = c.and(ttVar(t.n, v).not())
			}
		}
		return c
	}
	for i := 0; i < pow; i++ {
		impl[i] = cube(i).implies(t)
	}
	for i := 0; i < pow; i++ {
		if !impl[i] {
			continue
		}
		prime := true
		x, w := i, 1
		for v := 0; v < t.n && prime; v++ {
			if d := x % 3; d != 0 && impl[i-d*w] {
				prime = false
			}
			x /= 3
			w *= 3
		}
		if prime {
			n++
		}
	}
	return n
}

// primes checks that literal sets are distinct prime implicants (implicates).
func (k *formClient) primes(sets [][]f.Literal, t TT, implicants bool, p string) []TT {
	kind := "implicant"
	if !implicants {
		kind = "implicate"
	}
	var r []TT
	seen := map[string]bool{}
	for _, ls := range sets {
		xs := make([]int, len(ls))
		for i, l := range ls {
			xs[i] = k.decodeLit(l)
			k.check(xs[i] != 0, p, "prime-literal", "prime %s contains %s", kind, k.sp(l))
		}
		xs = sortedInts(xs)
		key := fmt.Sprint(xs)
		k.check(!seen[key], p, "prime-duplicate", "prime %s %v is returned twice", kind, xs)
		seen[key] = true
		is := func(ys []int) (TT, bool) {
			if implicants {
				c := litsTT(k.nv, ys)
				return c, c.implies(t)
			}
			c := ttConst(k.nv, false)
			for _, y := range ys {
				c = c.or(litTT(k.nv, y))
			}
			return c, t.implies(c)
		}
		c, ok := is(xs)
		k.check(ok, p, "no-"+kind, "%v is no %s", xs, kind)
		for i := range xs {
			ys := append(append([]int{}, xs[:i]...), xs[i+1:]...)
			_, red := is(ys)
			k.check(!red, p, "not-prime-"+kind, "%s %v is not prime, %d can be dropped", kind, xs, xs[i])
		}
		r = append(r, c)
	}
	return r
}

func (k *formClient) opMinPrime(o *Op) {
	h := k.get(o.a(0))
	if h.cc > 1 || len(h.str) > 400 || h.big && k.s.plan.FCnf == 1 {
		return
	}
	p := "X02"
	ls, err := primeimplicant.Minimum(k.fac, h.form)
	k.check((err == nil) == h.t.sat(), p, "minimum-error", "minimum prime implicant of %s returns error %v", h.str, err)
	if err != nil {
		return
	}
	xs := make([]int, len(ls))
	for i, l := range ls {
		xs[i] = k.decodeLit(l)
		k.check(xs[i] != 0, p, "minimum-literal", "minimum prime implicant contains %s", k.sp(l))
	}
	k.check(litsTT(k.nv, xs).implies(h.t), p, "minimum-no-implicant", "minimum prime implicant %v of %s is no implicant", xs, h.str)
	k.check(len(uniq(xs)) == len(xs), p, "minimum-duplicate", "minimum prime implicant %v has duplicates", xs)
	if best := minImplicant(h.t); len(xs) != best {
		// the implicants that can be seen by a three-valued evaluation of the NNF
		code := "minimum-not-minimal"
		if len(xs) == k.minTernary(normalform.NNF(k.fac, h.form)) {
			code = "minimum-of-nnf"
		}
		k.soft(false, p, code, "minimum prime implicant %v of %s, one of length %d exists", xs, h.str, best)
	}
	k.logf("minprime %d", len(xs))
}

// minTernary is the minimum number of literals which make an NNF true when
// all other variables are left undefined.
func (k *formClient) minTernary(nnf f.Formula) int {
	cube := map[int]bool{}
	var eval func(x f.Formula) bool
	eval = func(x f.Formula) bool {
		switch x.Sort() {
		case f.SortTrue:
			return true
		case f.SortFalse:
			return false
		case f.SortLiteral:
			return cube[k.decodeLit(f.Literal(x))]
		}
		for _, o := range k.fac.Operands(x) {
			if eval(o) != (x.Sort() == f.SortAnd) {
				return x.Sort() != f.SortAnd
			}
		}
		return x.Sort() == f.SortAnd
	}
	var rec func(v, left int) bool
	rec = func(v, left int) bool {
		if left == 0 {
			return eval(nnf)
		}
		if k.nv-v < left {
			return false
		}
		for _, l := range []int{v + 1, -v - 1} {
			cube[l] = true
			if rec(v+1, left-1) {
				return true
			}
			delete(cube, l)
		}
		return rec(v+1, left)
	}
	for n := 0; n <= k.nv; n++ {
		cube = map[int]bool{}
		if rec(0, n) {
			return n
		}
	}
	return -1
}

// minImplicant is the length of a shortest implicant of a satisfiable function.
func minImplicant(t TT) int {
	best := t.n
	var rec func(v, n int, c TT)
	rec = func(v, n int, c TT) {
		if n >= best {
			return
		}
		if c.implies(t) {
			best = n
			return
		}
		if v == t.n {
			return
		}
		rec(v+1, n, c)
		rec(v+1, n+1, c.and(ttVar(t.n, v)))
		rec(v+1, n+1, c.and(ttVar(t.n, v).not()))
	}
	rec(0, 0, ttConst(t.n, true))
	return best
}

func (k *formClient) finish() {
	if !k.begun {
		k.begin()
	}
	for _, h := range k.held {
		k.verify(h)
	}
	k.verifyCounts()
}

// ------------------------------------------------------------ generator ----

// formMix are the weights of the operations of a formula history.
type formMix struct {
	new, alias, verify, comb, tr, dnnf, prime, minprime, count, enumf, pred int
	trs                                                                     []int // transformations to choose from, nil = all
	pbc, nvLo, nvHi, ops, depth                                             int
	wide                                                                    int // percentage of plans with large clause sets
}

// wideTrs are the transformations which are feasible on large clause sets.
var wideTrs = []int{0, 1, 6, 7, 8, 12, 13, 14, 15, 16, 17, 20, 21, 23, 24}

var formBase = formMix{new: 5, alias: 1, verify: 2, comb: 3, tr: 12, dnnf: 2, prime: 1, minprime: 1, count: 2, enumf: 1, pred: 1, pbc: 12, nvLo: 2, nvHi: 6, ops: 16, depth: 3}

var formEvents = []string{"Factorization Started", "Factorization Created Clause", "Distribution Performed", "BDD Computation Started", "BDD New Ref Added", "SAT Call Started", "SAT Call Finished", "Advanced Simplification Started", "Prime Computation Started", "Subsumption Starting UB Tree Generation", "Subsumption Added New Set", "Backbone Computation Started", "SMUS Computation Started", "Optimization Function Started", "Model Enumeration Started", "Model Enumeration Commit", "Implicant Reduction Started", "Implicate Reduction Started", "Found Better Bound"}
var dnnfEvents = []string{"DNNF Computation Started", "DNNF Shannon Expansion", "DNNF DTree MinFill Graph initialized", "DNNF DTree MinFill new iteration", "DNNF DTree processing next order variable"}

func (g *planGen) formClient(m formMix) *ClientPlan {
	r := g.r
	c := &ClientPlan{Kind: "form"}
	gc := GenCfg{nv: g.p.NV, depth: m.depth, pbc: m.pbc, cons: 4, width: 3, rep: 4}
	if r.P(40) {
		gc.pbc = 0
	}
	if r.P(50) {
		gc.pure = true
	}
	wide := g.p.NV > 8
	gen := func() *Node {
		if wide {
			return gc.localCnf(r)
		}
		switch r.Pick(6, 2, 2, 1) {
		case 0:
			d := gc
			d.depth = r.Range(1, m.depth)
			return d.formula(r)
		case 1:
			return gc.cnf(r, r.Range(2, 6), 3)
		case 2:
			// a DNF
			n := nNot(gc.cnf(r, r.Range(2, 5), 3))
			return n
		default:
			if gc.pbc > 0 {
				return gc.pbcNode(r)
			}
			return gc.clause(r, 4)
		}
	}
	for i := r.Range(1, 3); i > 0; i-- {
		c.F = append(c.F, gen())
	}
	w := []int{m.new, m.alias, m.verify, m.comb, m.tr, m.dnnf, m.prime, m.minprime, m.count, m.enumf, m.pred}
	trs := m.trs
	if trs == nil && r.P(40) {
		for i := 0; i < numTransforms; i++ {
			if r.P(30) {
				trs = append(trs, i)
			}
		}
	}
	idx := func() int {
		if r.P(40) {
			return r.Intn(len(c.F)) // stays the same formula
		}
		return r.Intn(64)
	}
	nops := r.Range(3, m.ops)
	for len(c.Ops) < nops {
		var o *Op
		switch r.Pick(w...) {
		case 0:
			o = &Op{K: "new", F: []*Node{gen()}}
		case 1:
			o = &Op{K: "alias", F: []*Node{gc.pbcNode(r)}}
		case 2:
			o = &Op{K: "verify", A: []int{r.Intn(3), idx()}}
		case 3:
			o = &Op{K: "comb", A: []int{r.Intn(5), idx(), idx()}}
		case 4:
			t := r.Intn(numTransforms)
			if len(trs) > 0 {
				t = trs[r.Intn(len(trs))]
			}
			o = &Op{K: "tr", A: []int{t, idx(), r.Intn(64), r.Intn(64), r.Intn(64)}, H: g.hspecN(48, formEvents...)}
			switch t {
			case 21:
				for _, v := range r.Perm(g.p.NV)[:r.Range(1, g.p.NV)] {
					o.B = append(o.B, (v+1)*(1-2*r.Intn(2)), (r.Intn(g.p.NV)+1)*(1-2*r.Intn(2)))
					if r.P(30) {
						o.B = append(o.B, -o.B[len(o.B)-2], (r.Intn(g.p.NV)+1)*(1-2*r.Intn(2)))
					}
				}
			case 23:
				o.B = g.varsSub(0)
			case 24:
				for i := r.Range(1, 3); i > 0; i-- {
					o.B = append(o.B, r.Intn(g.p.NV), idx())
				}
			}
		case 5:
			o = &Op{K: "dnnf", A: []int{idx()}, H: g.hspecN(32, dnnfEvents...)}
		case 6:
			o = &Op{K: "prime", A: []int{idx(), r.Intn(2), r.Intn(2)}, H: g.hspecN(64, formEvents...)}
		case 7:
			o = &Op{K: "minprime", A: []int{idx()}}
		case 9:
			o = &Op{K: "enumf", A: append([]int{idx(), r.Intn(40), r.Intn(8)}, g.varsSub(1)...), H: g.hspecN(64, iterEvents...)}
			if r.P(20) {
				o.A[1] = 1000 + r.Intn(1000)
			}
			if r.P(40) {
				o.B = g.smallVars()
			}
		case 10:
			o = &Op{K: "pred", A: []int{r.Intn(5), idx(), idx()}}
		default:
			o = &Op{K: "count", A: []int{r.Intn(3), idx()}, B: g.varsSub(1), H: g.hspecN(48, append(dnnfEvents, iterEvents...)...)}
			for r.P(30) && len(o.A) < 4 {
				o.A = append(o.A, idx())
			}
		}
		c.Ops = append(c.Ops, o)
		if o.H != nil && o.H.M != "never" && r.P(40) {
			// the same computation again, now to the end
			q := *o
			q.H = nil
			c.Ops = append(c.Ops, &q)
		}
		if o.K == "tr" && r.P(20) {
			// a variant of the same computation, sharing its state
			q := *o
			q.A = append([]int{}, o.A...)
			q.A[3], q.A[4] = r.Intn(64), r.Intn(64)
			q.H = nil
			c.Ops = append(c.Ops, &q)
		}
	}
	return c
}

func (g *planGen) formRun(m formMix) {
	r := g.r
	g.p.NV = r.Range(m.nvLo, m.nvHi)
	if r.P(m.wide) {
		g.p.NV = r.Range(9, 14)
		m.prime, m.minprime, m.ops = 0, 0, 8
		m.trs = wideTrs
	}
	g.p.Conserve = r.P(15)
	if r.P(25) {
		g.p.FCnf = r.Range(1, 4)
	}
	n := 1
	if r.P(25) {
		n = 2
	}
	for i := 0; i < n; i++ {
		g.p.Clients = append(g.p.Clients, g.formClient(m))
	}
}

func init() {
	props["F01"] = propSpec{120000, func(g *planGen) {
		m := formBase
		m.dnnf, m.prime, m.minprime, m.count = 1, 0, 0, 0
		m.wide = 6
		g.formRun(m)
	}}
	props["F02"] = propSpec{120000, func(g *planGen) {
		m := formBase
		m.new, m.alias, m.verify, m.comb = 12, 4, 5, 8
		g.formRun(m)
		if g.r.P(25) {
			// other users of the factory
			if g.r.P(50) {
				g.p.Clients = append(g.p.Clients, g.satClient(satBase))
			} else {
				g.p.Clients = append(g.p.Clients, g.bddClient(10))
			}
		}
	}}
	props["E02"] = propSpec{35000, func(g *planGen) {
		switch g.r.Pick(6, 3, 1) {
		case 0:
			m := formBase
			m.count, m.dnnf, m.tr, m.trs, m.prime, m.minprime = 14, 6, 3, nil, 0, 0
			m.nvHi = 8
			m.wide = 25
			g.formRun(m)
		case 1:
			m := satBase
			m.count, m.enum, m.call = 10, 2, 5
			m.nvHi = 8
			g.satRun(m, 1)
		default:
			g.p.NV = g.r.Range(2, 7)
			g.p.Clients = append(g.p.Clients, g.bddClient(14))
		}
	}}
	props["D01"] = propSpec{30000, func(g *planGen) {
		m := formBase
		m.dnnf, m.tr, m.prime, m.minprime, m.count, m.pbc = 16, 4, 0, 0, 2, 6
		m.nvHi = 8
		m.wide = 30
		g.formRun(m)
	}}
	props["X02"] = propSpec{100000, func(g *planGen) {
		m := formBase
		m.prime, m.minprime, m.tr, m.trs, m.dnnf, m.count = 8, 5, 6, []int{11, 11, 12, 0, 1, 5}, 0, 0
		m.nvHi = 5
		g.formRun(m)
	}}
}
