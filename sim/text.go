package main

import (
	"errors"
	"strconv"
	"strings"
)

// names maps the variables of files to indices.
type names struct {
	list []string
	idx  map[string]int
}

func newNames(ns ...string) *names {
	t := &names{idx: map[string]int{}}
	for _, n := range ns {
		t.get(n)
	}
	return t
}

// maxNames bounds the truth tables of formulas read from files.
const maxNames = 12

func (t *names) get(n string) int {
	i, ok := t.idx[n]
	if !ok {
		i = len(t.list)
		if i >= maxNames {
			panic(undecided{})
		}
		t.idx[n] = i
		t.list = append(t.list, n)
	}
	return i
}

// ------------------------------------------------------- formula grammar ----

type tok struct{ k, s string }

// lexFormula splits a line into the tokens of the documented grammar.
func lexFormula(s string) ([]tok, bool) {
	var r []tok
	isD := func(c byte) bool { return c >= '0' && c <= '9' }
	isW := func(c byte) bool {
		return isD(c) || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '#'
	}
	for i := 0; i < len(s); {
		c := s[i]
		if c == ' ' || c == '\t' || c == '\r' || c == '\n' {
			i++
			continue
		}
		// longest match; numbers win over literals of the same length
		num := 0
		j := i
		if c == '-' {
			j++
		}
		for j < len(s) && isD(s[j]) {
			j++
			num = j - i
		}
		lit := 0
		j = i
		if c == '~' {
			j++
		}
		if j < len(s) && (isW(s[j]) || s[j] == '@') {
			j++
			for j < len(s) && isW(s[j]) {
				j++
			}
			lit = j - i
		}
		best, kind := 0, ""
		if num > best {
			best, kind = num, "NUM"
		}
		if lit > best {
			best, kind = lit, "LIT"
		}
		for _, o := range []string{"$true", "$false", "(", ")", "~", "&", "|", "=>", "<=>", "*", "+", "=", "<=", "<", ">=", ">"} {
			if strings.HasPrefix(s[i:], o) && len(o) > best {
				best, kind = len(o), o
			}
		}
		if best == 0 {
			return r, false
		}
		r = append(r, tok{kind, s[i : i+best]})
		i += best
	}
	return r, true
}

type formParser struct {
	t  []tok
	p  int
	ns *names
}

type malformed struct{}

func (p *formParser) peek() string {
	if p.p < len(p.t) {
		return p.t[p.p].k
	}
	return ""
}

func (p *formParser) next() tok {
	if p.p >= len(p.t) {
		panic(malformed{})
	}
	p.p++
	return p.t[p.p-1]
}

func (p *formParser) need(k string) tok {
	t := p.next()
	if t.k != k {
		panic(malformed{})
	}
	return t
}

// parseLine parses a line; ok is false if it is not in the language.
func parseLine(s string, ns *names) (n *Node, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(malformed); !is {
				panic(e)
			}
			n, ok = nil, false
		}
	}()
	if strings.TrimSpace(s) == "" {
		return nTrue(), true
	}
	t, ok := lexFormula(s)
	if !ok {
		return nil, false
	}
	p := &formParser{t: t, ns: ns}
	n = p.equiv()
	if p.p != len(p.t) {
		return nil, false
	}
	return n, true
}

// trailingGarbage reports whether the line is a well-formed formula followed
// by text which cannot continue it.
func trailingGarbage(s string) bool {
	t, _ := lexFormula(s)
	if len(t) == 0 {
		return true
	}
	for n := 1; n <= len(t); n++ {
		if n < len(t) {
			switch t[n].k {
			case "&", "|", "=>", "<=>":
				continue
			}
		}
		if wellFormed(t[:n]) {
			return true
		}
	}
	return false
}

func wellFormed(t []tok) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, m := e.(malformed); !m {
				panic(e)
			}
			ok = false
		}
	}()
	p := &formParser{t: t, ns: newNames()}
	p.equiv()
	return p.p == len(t)
}

func (p *formParser) equiv() *Node {
	a := p.impl()
	if p.peek() == "<=>" {
		p.next()
		return nEqv(a, p.equiv())
	}
	return a
}

func (p *formParser) impl() *Node {
	a := p.disj()
	if p.peek() == "=>" {
		p.next()
		return nImp(a, p.impl())
	}
	return a
}

func (p *formParser) disj() *Node {
	a := []*Node{p.conj()}
	for p.peek() == "|" {
		p.next()
		a = append(a, p.conj())
	}
	if len(a) == 1 {
		return a[0]
	}
	return nOr(a...)
}

func (p *formParser) conj() *Node {
	a := []*Node{p.lit()}
	for p.peek() == "&" {
		p.next()
		a = append(a, p.lit())
	}
	if len(a) == 1 {
		return a[0]
	}
	return nAnd(a...)
}

func (p *formParser) lit() *Node {
	if p.peek() == "~" {
		p.next()
		return nNot(p.lit())
	}
	return p.simp()
}

func (p *formParser) atom(s string) *Node {
	if strings.HasPrefix(s, "~") {
		return nNot(nVar(p.ns.get(s[1:])))
	}
	return nVar(p.ns.get(s))
}

func (p *formParser) simp() *Node {
	switch p.peek() {
	case "$true":
		p.next()
		return nTrue()
	case "$false":
		p.next()
		return nFalse()
	case "(":
		p.next()
		n := p.equiv()
		p.need(")")
		return n
	case "NUM", "LIT":
		if p.p+1 < len(p.t) {
			switch p.t[p.p+1].k {
			case "*", "+", "=", "<=", "<", ">=", ">":
				return p.comparison()
			}
		}
		return p.atom(p.next().s)
	}
	panic(malformed{})
}

func (p *formParser) number(s string) int {
	v, err := strconv.Atoi(s)
	if err != nil || v > 1<<40 || v < -(1<<40) {
		panic(undecided{})
	}
	return v
}

func (p *formParser) comparison() *Node {
	n := &Node{K: "p"}
	for {
		t := p.next()
		switch {
		case t.k == "LIT":
			n.N, n.C = append(n.N, p.atom(t.s)), append(n.C, 1)
		case t.k == "NUM" && p.peek() == "*":
			p.next()
			l := p.next()
			if l.k != "NUM" && l.k != "LIT" {
				panic(malformed{})
			}
			n.N, n.C = append(n.N, p.atom(l.s)), append(n.C, p.number(t.s))
		case t.k == "NUM":
			n.N, n.C = append(n.N, p.atom(t.s)), append(n.C, 1)
		default:
			panic(malformed{})
		}
		if p.peek() != "+" {
			break
		}
		p.next()
	}
	switch t := p.next(); t.k {
	case "=", "<=", "<", ">=", ">":
		n.O = t.k
	default:
		panic(malformed{})
	}
	n.R = p.number(p.need("NUM").s)
	return n
}

// text writes a node in the grammar with random redundant brackets and blanks.
func (n *Node) text(r *Rng, name func(int) string) string {
	sp := func() string { return []string{" ", "", "  ", " ", "\t"}[r.Intn(5)] }
	var rec func(n *Node, lvl int) string
	rec = func(n *Node, lvl int) string {
		var s string
		var my int // 0 equiv, 1 impl, 2 or, 3 and, 4 lit, 5 simp
		switch n.K {
		case "T":
			s, my = "$true", 5
		case "F":
			s, my = "$false", 5
		case "v":
			s, my = name(n.V), 5
		case "!":
			s, my = "~"+strings.TrimLeft(sp(), "\t")+rec(n.N[0], 4), 4
		case "&", "|":
			if len(n.N) == 0 {
				return rec(&Node{K: map[string]string{"&": "T", "|": "F"}[n.K]}, lvl)
			}
			my = map[string]int{"&": 3, "|": 2}[n.K]
			var ss []string
			for _, k := range n.N {
				ss = append(ss, rec(k, my+1))
			}
			s = strings.Join(ss, sp()+n.K+sp())
		case ">":
			s, my = rec(n.N[0], 2)+sp()+"=>"+sp()+rec(n.N[1], 1), 1
		case "=":
			s, my = rec(n.N[0], 1)+sp()+"<=>"+sp()+rec(n.N[1], 0), 0
		case "p":
			my = 5
			var ss []string
			for i, k := range n.N {
				l := name(k.V)
				if k.K == "!" {
					l = "~" + name(k.N[0].V)
				}
				if n.C[i] != 1 || r.P(20) {
					l = strconv.Itoa(n.C[i]) + sp() + "*" + sp() + l
				}
				ss = append(ss, l)
			}
			s = strings.Join(ss, sp()+"+"+sp()) + sp() + n.O + sp() + strconv.Itoa(n.R)
		}
		if my < lvl || r.P(8) {
			s = "(" + sp() + s + sp() + ")"
		}
		return s
	}
	return rec(n, 0)
}

// --------------------------------------------------------------- DIMACS ----

// dimacs is the meaning of a DIMACS file.
type dimacs struct {
	pure    bool
	strict  bool // a reader has to accept it
	clauses [][]int
	weights []int // 0 = hard
	maxVar  int
}

func fileLines(s string) []string {
	ls := strings.Split(s, "\n")
	if len(ls) > 0 && ls[len(ls)-1] == "" {
		ls = ls[:len(ls)-1]
	}
	for i := range ls {
		ls[i] = strings.TrimSuffix(ls[i], "\r")
	}
	return ls
}

func (d *dimacs) lit(s string) (int, bool) {
	v, err := strconv.Atoi(s)
	if errors.Is(err, strconv.ErrRange) || err == nil && (v > 1<<20 || v < -(1<<20)) {
		panic(undecided{}) // a reader may limit the numbers of variables
	}
	if err != nil {
		return 0, false
	}
	if s != strconv.Itoa(v) {
		d.strict = false
	}
	if a := max(v, -v); a > d.maxVar {
		d.maxVar = a
	}
	return v, true
}

// parseCNF returns nil if the text has no meaning as DIMACS CNF.
func parseCNF(s string) *dimacs {
	d := &dimacs{strict: true}
	var cur []int
	for _, l := range fileLines(s) {
		if strings.HasPrefix(l, "c") || strings.HasPrefix(l, "p") {
			if len(cur) > 0 {
				d.strict = false
			}
			continue
		}
		fs := strings.Fields(l)
		for i, x := range fs {
			v, ok := d.lit(x)
			if !ok {
				return nil
			}
			if v == 0 {
				if i != len(fs)-1 {
					d.strict = false
				}
				d.clauses = append(d.clauses, cur)
				cur = nil
			} else {
				cur = append(cur, v)
			}
		}
		if len(cur) > 0 {
			d.strict = false
		}
	}
	if len(cur) > 0 {
		return nil // the last clause is not terminated
	}
	return d
}

// parseWCNF returns nil if the text has no meaning as MaxSAT file.
func parseWCNF(s string) *dimacs {
	d := &dimacs{strict: true}
	ls := fileLines(s)
	i := 0
	top := -1
	for ; i < len(ls); i++ {
		l := ls[i]
		fs := strings.Fields(l)
		if len(fs) == 0 || strings.HasPrefix(l, "c") {
			continue
		}
		if fs[0] != "p" || len(fs) < 2 || fs[1] != "cnf" && fs[1] != "wcnf" {
			if strings.HasPrefix(l, "p cnf") || strings.HasPrefix(l, "p wcnf") {
				panic(undecided{}) // the fields of the problem line carry no meaning
			}
			return nil
		}
		if len(fs) < 4 || !strings.HasPrefix(l, "p "+fs[1]+" ") || strings.Join(fs, " ") != strings.TrimSpace(l) {
			d.strict = false
		}
		d.pure = fs[1] == "cnf"
		if !d.pure && len(fs) > 4 {
			v, err := strconv.Atoi(fs[4])
			if err != nil {
				return nil
			}
			top = v
			if v < 1 {
				panic(undecided{})
			}
		}
		if len(fs) > 5 || d.pure && len(fs) > 4 {
			panic(undecided{})
		}
		for k := 2; k < len(fs) && k < 4; k++ {
			if _, err := strconv.Atoi(fs[k]); err != nil {
				panic(undecided{})
			}
		}
		break
	}
	if i == len(ls) {
		return nil
	}
	for i++; i < len(ls); i++ {
		l := ls[i]
		fs := strings.Fields(l)
		if len(fs) == 0 || strings.HasPrefix(l, "c") {
			d.strict = false
			continue
		}
		if strings.Contains(l, "\t") {
			d.strict = false
		}
		w := 1
		if !d.pure {
			v, err := strconv.Atoi(fs[0])
			if err != nil || v < 1 {
				return nil
			}
			if top > 0 && v > top || v > 1<<30 {
				panic(undecided{})
			}
			if v == top {
				v = 0
			}
			w = v
			fs = fs[1:]
		}
		if len(fs) == 0 || fs[len(fs)-1] != "0" {
			if len(fs) > 0 {
				if v, err := strconv.Atoi(fs[len(fs)-1]); err == nil && v == 0 {
					panic(undecided{}) // "00"
				}
			}
			return nil
		}
		var cl []int
		for _, x := range fs[:len(fs)-1] {
			v, ok := d.lit(x)
			if !ok || v == 0 {
				return nil
			}
			cl = append(cl, v)
		}
		d.clauses = append(d.clauses, cl)
		d.weights = append(d.weights, w)
	}
	return d
}
