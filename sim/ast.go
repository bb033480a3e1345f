package main

import (
	"fmt"
	"math/bits"
	"strings"

	f "github.com/booleworks/logicng-go/formula"
)

// Node is the simulator's own formula representation.  The reference model is
// computed on it, independently of the code under test.
//
//	K: T F v ! & | > = p(seudo-boolean / cardinality constraint)
type Node struct {
	K string  `json:"k"`
	V int     `json:"v,omitempty"`
	N []*Node `json:"n,omitempty"`
	C []int   `json:"c,omitempty"` // coefficients
	R int     `json:"r,omitempty"` // right-hand side
	O string  `json:"o,omitempty"` // comparator <= < >= > =
}

func nTrue() *Node          { return &Node{K: "T"} }
func nFalse() *Node         { return &Node{K: "F"} }
func nVar(v int) *Node      { return &Node{K: "v", V: v} }
func nNot(n *Node) *Node    { return &Node{K: "!", N: []*Node{n}} }
func nAnd(n ...*Node) *Node { return &Node{K: "&", N: n} }
func nOr(n ...*Node) *Node  { return &Node{K: "|", N: n} }
func nImp(a, b *Node) *Node { return &Node{K: ">", N: []*Node{a, b}} }
func nEqv(a, b *Node) *Node { return &Node{K: "=", N: []*Node{a, b}} }
func nLit(v int, p bool) *Node {
	if p {
		return nVar(v)
	}
	return nNot(nVar(v))
}

func (n *Node) String() string {
	switch n.K {
	case "T":
		return "$true"
	case "F":
		return "$false"
	case "v":
		return varName(n.V)
	case "!":
		return "~" + par(n.N[0])
	case "&", "|":
		ss := make([]string, len(n.N))
		for i, k := range n.N {
			ss[i] = par(k)
		}
		if len(ss) == 0 {
			return map[string]string{"&": "$true", "|": "$false"}[n.K]
		}
		return strings.Join(ss, " "+n.K+" ")
	case ">":
		return par(n.N[0]) + " => " + par(n.N[1])
	case "=":
		return par(n.N[0]) + " <=> " + par(n.N[1])
	case "p":
		ss := make([]string, len(n.N))
		for i, k := range n.N {
			ss[i] = fmt.Sprintf("%d*%s", n.C[i], k)
		}
		return "(" + strings.Join(ss, " + ") + fmt.Sprintf(" %s %d)", n.O, n.R)
	}
	return "?"
}

func par(n *Node) string {
	if n.K == "v" || n.K == "T" || n.K == "F" || n.K == "!" || n.K == "p" {
		return n.String()
	}
	return "(" + n.String() + ")"
}

func (n *Node) clone() *Node {
	c := *n
	c.N = make([]*Node, len(n.N))
	for i, k := range n.N {
		c.N[i] = k.clone()
	}
	c.C = append([]int(nil), n.C...)
	return &c
}

func (n *Node) vars(into map[int]bool) {
	if n.K == "v" {
		into[n.V] = true
	}
	for _, k := range n.N {
		k.vars(into)
	}
}

func (n *Node) size() int {
	s := 1
	for _, k := range n.N {
		s += k.size()
	}
	return s
}

// TT is a truth table over n variables: bit a is the value under the
// assignment a (bit i of a = value of variable i).
type TT struct {
	n int
	w []uint64
}

func ttWords(n int) int {
	if n <= 6 {
		return 1
	}
	return 1 << (n - 6)
}

func ttMask(n int) uint64 {
	if n >= 6 {
		return ^uint64(0)
	}
	return (uint64(1) << (1 << n)) - 1
}

func ttConst(n int, v bool) TT {
	t := TT{n, make([]uint64, ttWords(n))}
	if v {
		for i := range t.w {
			t.w[i] = ttMask(n)
		}
	}
	return t
}

var ttPat = [6]uint64{0xaaaaaaaaaaaaaaaa, 0xcccccccccccccccc, 0xf0f0f0f0f0f0f0f0, 0xff00ff00ff00ff00, 0xffff0000ffff0000, 0xffffffff00000000}

func ttVar(n, v int) TT {
	t := TT{n, make([]uint64, ttWords(n))}
	if v < 6 {
		for i := range t.w {
			t.w[i] = ttPat[v] & ttMask(n)
		}
	} else {
		for i := range t.w {
			if i>>(v-6)&1 == 1 {
				t.w[i] = ^uint64(0)
			}
		}
	}
	return t
}

func (a TT) and(b TT) TT {
	r := TT{a.n, make([]uint64, len(a.w))}
	for i := range a.w {
		r.w[i] = a.w[i] & b.w[i]
	}
	return r
}
func (a TT) or(b TT) TT {
	r := TT{a.n, make([]uint64, len(a.w))}
	for i := range a.w {
		r.w[i] = a.w[i] | b.w[i]
	}
	return r
}
func (a TT) not() TT {
	r := TT{a.n, make([]uint64, len(a.w))}
	m := ttMask(a.n)
	for i := range a.w {
		r.w[i] = ^a.w[i] & m
	}
	return r
}
func (a TT) eq(b TT) bool {
	if a.n != b.n {
		return false
	}
	for i := range a.w {
		if a.w[i] != b.w[i] {
			return false
		}
	}
	return true
}
func (a TT) sat() bool {
	for _, w := range a.w {
		if w != 0 {
			return true
		}
	}
	return false
}
func (a TT) count() int {
	c := 0
	for _, w := range a.w {
		c += bits.OnesCount64(w)
	}
	return c
}
func (a TT) get(m int) bool { return a.w[m>>6]>>(m&63)&1 == 1 }
func (a TT) set(m int)      { a.w[m>>6] |= 1 << (m & 63) }
func (a TT) implies(b TT) bool {
	for i := range a.w {
		if a.w[i]&^b.w[i] != 0 {
			return false
		}
	}
	return true
}

// cofactor fixes variable v to p (result does not depend on v any more).
func (a TT) cofactor(v int, p bool) TT {
	r := TT{a.n, make([]uint64, len(a.w))}
	if v < 6 {
		sh := uint(1) << v
		for i, w := range a.w {
			if p {
				x := w & ttPat[v]
				r.w[i] = x | x>>sh
			} else {
				x := w &^ ttPat[v]
				r.w[i] = x | x<<sh
			}
		}
		m := ttMask(a.n)
		for i := range r.w {
			r.w[i] &= m
		}
		return r
	}
	b := 1 << (v - 6)
	for i := range a.w {
		if p {
			r.w[i] = a.w[i|b]
		} else {
			r.w[i] = a.w[i&^b]
		}
	}
	return r
}

func (a TT) exists(vs []int) TT {
	for _, v := range vs {
		a = a.cofactor(v, false).or(a.cofactor(v, true))
	}
	return a
}
func (a TT) forall(vs []int) TT {
	for _, v := range vs {
		a = a.cofactor(v, false).and(a.cofactor(v, true))
	}
	return a
}
func (a TT) dependsOn(v int) bool { return !a.cofactor(v, false).eq(a.cofactor(v, true)) }

func (a TT) support() []int {
	var s []int
	for v := 0; v < a.n; v++ {
		if a.dependsOn(v) {
			s = append(s, v)
		}
	}
	return s
}

// tt computes the truth table of a node over n variables.
func (n *Node) tt(nv int) TT {
	switch n.K {
	case "T":
		return ttConst(nv, true)
	case "F":
		return ttConst(nv, false)
	case "v":
		return ttVar(nv, n.V)
	case "!":
		return n.N[0].tt(nv).not()
	case "&":
		r := ttConst(nv, true)
		for _, k := range n.N {
			r = r.and(k.tt(nv))
		}
		return r
	case "|":
		r := ttConst(nv, false)
		for _, k := range n.N {
			r = r.or(k.tt(nv))
		}
		return r
	case ">":
		return n.N[0].tt(nv).not().or(n.N[1].tt(nv))
	case "=":
		a, b := n.N[0].tt(nv), n.N[1].tt(nv)
		return a.and(b).or(a.not().and(b.not()))
	case "p":
		ops := make([]TT, len(n.N))
		for i, k := range n.N {
			ops[i] = k.tt(nv)
		}
		return ttPBC(nv, ops, n.C, n.O, n.R)
	}
	panic("bad node " + n.K)
}

func ttPBC(nv int, ops []TT, c []int, o string, rhs int) TT {
	r := ttConst(nv, false)
	for m := 0; m < 1<<nv; m++ {
		sum := 0
		for i := range ops {
			if ops[i].get(m) {
				sum += c[i]
			}
		}
		if cmpOp(sum, o, rhs) {
			r.set(m)
		}
	}
	return r
}

func cmpOp(a int, o string, b int) bool {
	switch o {
	case "<=":
		return a <= b
	case "<":
		return a < b
	case ">=":
		return a >= b
	case ">":
		return a > b
	default:
		return a == b
	}
}

func cSort(o string) f.CSort {
	switch o {
	case "<=":
		return f.LE
	case "<":
		return f.LT
	case ">=":
		return f.GE
	case ">":
		return f.GT
	default:
		return f.EQ
	}
}

func cStr(c f.CSort) string {
	switch c {
	case f.LE:
		return "<="
	case f.LT:
		return "<"
	case f.GE:
		return ">="
	case f.GT:
		return ">"
	default:
		return "="
	}
}

func varName(v int) string { return fmt.Sprintf("x%d", v) }

// varIdx returns the index of a plan variable or -1 (auxiliary variable).
func varIdx(name string) int {
	if len(name) < 2 || name[0] != 'x' {
		return -1
	}
	v := 0
	for i := 1; i < len(name); i++ {
		if name[i] < '0' || name[i] > '9' {
			return -1
		}
		v = v*10 + int(name[i]-'0')
	}
	return v
}

// build constructs the node as a formula of the library.
func (n *Node) build(fac f.Factory) f.Formula {
	switch n.K {
	case "T":
		return fac.Verum()
	case "F":
		return fac.Falsum()
	case "v":
		return fac.Variable(varName(n.V))
	case "!":
		return fac.Not(n.N[0].build(fac))
	case "&":
		return fac.And(buildAll(fac, n.N)...)
	case "|":
		return fac.Or(buildAll(fac, n.N)...)
	case ">":
		l := n.N[0].build(fac)
		return fac.Implication(l, n.N[1].build(fac))
	case "=":
		l := n.N[0].build(fac)
		return fac.Equivalence(l, n.N[1].build(fac))
	case "p":
		lits := make([]f.Literal, len(n.N))
		for i, k := range n.N {
			lits[i] = f.Literal(k.build(fac))
		}
		return fac.PBC(cSort(n.O), n.R, lits, append([]int(nil), n.C...))
	}
	panic("bad node " + n.K)
}

func buildAll(fac f.Factory, ns []*Node) []f.Formula {
	r := make([]f.Formula, len(ns))
	for i, k := range ns {
		r[i] = k.build(fac)
	}
	return r
}

// Reader evaluates formulas of the library by walking them with accessor
// functions only.  Variables which are not plan variables get indices from
// aux, starting at n.
type Reader struct {
	fac   f.Factory
	n     int
	aux   map[f.Variable]int
	fixed map[f.Variable]int // other variables that stand for plan variables
	memo  map[f.Formula]TT
}

func newReader(fac f.Factory, n int) *Reader {
	return &Reader{fac: fac, n: n, memo: map[f.Formula]TT{}}
}

type auxErr struct{ name string }

// tt computes the truth table; ok is false when the formula has a variable
// outside the plan's variables (and outside aux).
func (r *Reader) tt(form f.Formula) (t TT, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(auxErr); is {
				ok = false
				return
			}
			panic(e)
		}
	}()
	return r.rec(form), true
}

func (r *Reader) varIndex(v f.Variable) int {
	if i, ok := r.aux[v]; ok {
		return i
	}
	if i, ok := r.fixed[v]; ok {
		return i
	}
	name, found := r.fac.VarName(v)
	i := varIdx(name)
	if !found || i < 0 || i >= r.n {
		panic(auxErr{name})
	}
	return i
}

func (r *Reader) rec(form f.Formula) TT {
	if t, ok := r.memo[form]; ok {
		return t
	}
	total := r.n + len(r.aux)
	var t TT
	switch form.Sort() {
	case f.SortTrue:
		t = ttConst(total, true)
	case f.SortFalse:
		t = ttConst(total, false)
	case f.SortLiteral:
		l := f.Literal(form)
		t = ttVar(total, r.varIndex(l.Variable()))
		if l.IsNeg() {
			t = t.not()
		}
	case f.SortNot:
		op, _ := r.fac.NotOperand(form)
		t = r.rec(op).not()
	case f.SortAnd:
		ops, _ := r.fac.NaryOperands(form)
		t = ttConst(total, true)
		for _, o := range ops {
			t = t.and(r.rec(o))
		}
	case f.SortOr:
		ops, _ := r.fac.NaryOperands(form)
		t = ttConst(total, false)
		for _, o := range ops {
			t = t.or(r.rec(o))
		}
	case f.SortImpl:
		a, b, _ := r.fac.BinaryLeftRight(form)
		t = r.rec(a).not().or(r.rec(b))
	case f.SortEquiv:
		a, b, _ := r.fac.BinaryLeftRight(form)
		x, y := r.rec(a), r.rec(b)
		t = x.and(y).or(x.not().and(y.not()))
	case f.SortCC, f.SortPBC:
		c, rhs, lits, coeffs, _ := r.fac.PBCOps(form)
		ops := make([]TT, len(lits))
		for i, l := range lits {
			ops[i] = r.rec(l.AsFormula())
		}
		cs := coeffs
		if len(cs) != len(lits) {
			cs = make([]int, len(lits))
			for i := range cs {
				cs[i] = 1
			}
		}
		t = ttPBC(total, ops, cs, cStr(c), rhs)
	default:
		panic(fmt.Sprintf("formula with unknown sort %v", form.Sort()))
	}
	r.memo[form] = t
	return t
}

// formulaVars lists the variables of a formula by walking it.
func formulaVars(fac f.Factory, form f.Formula) map[f.Variable]bool {
	res := map[f.Variable]bool{}
	seen := map[f.Formula]bool{}
	var rec func(f.Formula)
	rec = func(x f.Formula) {
		if seen[x] {
			return
		}
		seen[x] = true
		switch x.Sort() {
		case f.SortTrue, f.SortFalse:
		case f.SortLiteral:
			res[f.Literal(x).Variable()] = true
		case f.SortNot:
			op, _ := fac.NotOperand(x)
			rec(op)
		case f.SortCC, f.SortPBC:
			_, _, lits, _, _ := fac.PBCOps(x)
			for _, l := range lits {
				res[l.Variable()] = true
			}
		case f.SortImpl, f.SortEquiv:
			a, b, _ := fac.BinaryLeftRight(x)
			rec(a)
			rec(b)
		default:
			ops, _ := fac.NaryOperands(x)
			for _, o := range ops {
				rec(o)
			}
		}
	}
	rec(form)
	return res
}

// GenCfg steers formula generation.
type GenCfg struct {
	nv    int
	depth int
	pbc   int // percent of PBC/CC leaves
	cons  int // percent of constants
	width int
	rep   int  // percent of constraints with a repeated variable
	pure  bool // only constraints that are encoded without auxiliary variables
}

// formula generates a formula which may share parts with earlier ones.
func (g GenCfg) formula(r *Rng) *Node {
	n := g.rec(r, g.depth)
	if len(r.pool) < 12 {
		var keep func(x *Node)
		keep = func(x *Node) {
			if s := x.size(); s > 2 && s < 30 && !x.constrained() && r.P(40) && len(r.pool) < 12 {
				r.pool = append(r.pool, x)
			}
			for _, k := range x.N {
				keep(k)
			}
		}
		keep(n)
	}
	return n
}

// constrained is true if the formula contains a constraint.
func (n *Node) constrained() bool {
	if n.K == "p" {
		return true
	}
	for _, k := range n.N {
		if k.constrained() {
			return true
		}
	}
	return false
}

// shared returns a part of an earlier formula, or nil.
func (g GenCfg) shared(r *Rng) *Node {
	if len(r.pool) == 0 || !r.P(7) {
		return nil
	}
	n := r.pool[r.Intn(len(r.pool))]
	vs := map[int]bool{}
	n.vars(vs)
	for v := range vs {
		if v >= g.nv {
			return nil
		}
	}
	return n.clone()
}

func (g GenCfg) lit(r *Rng) *Node { return nLit(r.Intn(g.nv), r.P(50)) }

func (g GenCfg) rec(r *Rng, d int) *Node {
	if n := g.shared(r); n != nil {
		return n
	}
	if d <= 0 || r.P(12) {
		if r.P(g.cons) {
			if r.P(50) {
				return nTrue()
			}
			return nFalse()
		}
		if r.P(g.pbc) && g.nv >= 2 {
			return g.pbcNode(r)
		}
		return g.lit(r)
	}
	w := g.width
	if w < 2 {
		w = 3
	}
	switch r.Pick(4, 4, 2, 2, 2) {
	case 0:
		return nAnd(g.kids(r, d, r.Range(2, w))...)
	case 1:
		return nOr(g.kids(r, d, r.Range(2, w))...)
	case 2:
		return nImp(g.rec(r, d-1), g.rec(r, d-1))
	case 3:
		return nEqv(g.rec(r, d-1), g.rec(r, d-1))
	default:
		return nNot(g.rec(r, d-1))
	}
}

func (g GenCfg) kids(r *Rng, d, n int) []*Node {
	ks := make([]*Node, n)
	for i := range ks {
		ks[i] = g.rec(r, d-1)
	}
	return ks
}

var cmps = []string{"<=", "<", ">=", ">", "="}

// ccNode generates a cardinality constraint over distinct variables.
func (g GenCfg) ccNode(r *Rng) *Node {
	k := r.Range(1, min(g.nv, 6))
	p := r.Perm(g.nv)[:k]
	n := &Node{K: "p", O: cmps[r.Intn(5)], R: r.Intn(k + 2)}
	if r.P(30) {
		n.O, n.R = []string{"<=", "="}[r.Intn(2)], 1
	}
	if len(p) > 1 && r.P(g.rep) {
		p[0] = p[1]
	}
	for _, v := range p {
		n.N = append(n.N, nVar(v))
		n.C = append(n.C, 1)
	}
	return n
}

func (g GenCfg) pbcNode(r *Rng) *Node {
	if g.pure {
		n := g.ccNode(r)
		for len(n.N) < 2 {
			n = g.ccNode(r)
		}
		n.O, n.R = []string{"<=", "=", "<"}[r.Intn(3)], 1
		if n.O == "<" {
			n.R = 2
		}
		return n
	}
	if r.P(60) {
		return g.ccNode(r)
	}
	k := r.Range(1, min(g.nv, 5))
	p := r.Perm(g.nv)[:k]
	n := &Node{K: "p", O: cmps[r.Intn(5)]}
	sum := 0
	if len(p) > 1 && r.P(g.rep) {
		p[0] = p[1]
	}
	for _, v := range p {
		n.N = append(n.N, nLit(v, r.P(60)))
		c := r.Range(1, 4)
		if r.P(15) {
			c = -c
		}
		sum += c
		n.C = append(n.C, c)
	}
	if sum < 0 {
		sum = 0
	}
	n.R = r.Range(-1, sum+1)
	return n
}

func (g GenCfg) clause(r *Rng, maxLen int) *Node {
	k := r.Range(1, maxLen)
	if k > g.nv {
		k = g.nv
	}
	p := r.Perm(g.nv)[:k]
	n := nOr()
	for _, v := range p {
		n.N = append(n.N, nLit(v, r.P(50)))
	}
	if k == 1 {
		return n.N[0]
	}
	return n
}

func (g GenCfg) cnf(r *Rng, clauses, maxLen int) *Node {
	n := nAnd()
	for i := 0; i < clauses; i++ {
		n.N = append(n.N, g.clause(r, maxLen))
	}
	return n
}

// cnf3 generates clauses of exactly k literals.
func (g GenCfg) cnfk(r *Rng, clauses, k int) *Node {
	n := nAnd()
	for i := 0; i < clauses; i++ {
		c := nOr()
		for _, v := range r.Perm(g.nv)[:min(k, g.nv)] {
			c.N = append(c.N, nLit(v, r.P(50)))
		}
		n.N = append(n.N, c)
	}
	return n
}

// localCnf generates a larger clause set whose clauses mostly share
// neighbouring variables, so that it falls into parts once some are decided.
func (g GenCfg) localCnf(r *Rng) *Node {
	n := nAnd()
	clauses := r.Range(g.nv, g.nv*3)
	width := []int{3, 5, g.nv}[r.Pick(3, 3, 2)]
	perm := r.Perm(g.nv)
	seen := map[string]bool{}
	for i := 0; i < clauses; i++ {
		base := r.Intn(g.nv)
		c := nOr()
		used := map[int]bool{}
		for j := r.Pick(1, 12, 10, 4) + 1; j > 0; j-- {
			v := perm[(base+r.Intn(width))%g.nv]
			if !used[v] {
				used[v] = true
				c.N = append(c.N, nLit(v, r.P(50)))
			}
		}
		if k := c.String(); !seen[k] {
			seen[k] = true
			n.N = append(n.N, c)
		}
	}
	return n
}

// has reports whether the tree contains a node of the given kind.
func (n *Node) has(kind string) bool {
	if n.K == kind {
		return true
	}
	for _, c := range n.N {
		if c.has(kind) {
			return true
		}
	}
	return false
}
