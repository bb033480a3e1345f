package main

import (
	"bytes"
	"fmt"
	gio "io"
	"os"
	"strconv"
	"strings"

	"github.com/booleworks/logicng-go/bdd"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/graph"
	"github.com/booleworks/logicng-go/graphical"
	lio "github.com/booleworks/logicng-go/io"
	"github.com/booleworks/logicng-go/maxsat"
)

func init() { kinds["io"] = newIOClient }

// ioClient reads and writes files on the simulated file system.
type ioClient struct {
	*Client
	n int
}

func newIOClient(c *Client) clientKind { return &ioClient{Client: c} }

var ioNames = []string{"x0", "x1", "A_b#2", "@s#1", "17", "x5", "y", "Z9"}

func ioName(i int) string { return ioNames[i%len(ioNames)] }

func (k *ioClient) finish() {}

// text expands the padding of a file content.
func ioText(s string) string {
	for {
		i := strings.Index(s, "@PAD")
		if i < 0 {
			return s
		}
		j := strings.Index(s[i+4:], "@")
		if j < 0 {
			return s
		}
		n, err := strconv.Atoi(s[i+4 : i+4+j])
		if err != nil || n < 0 || n > 1<<22 {
			return s
		}
		s = s[:i] + strings.Repeat("x", n) + s[i+5+j:]
	}
}

func (k *ioClient) op(o *Op) {
	k.s.ioc = k.Client
	defer func() { fdTable.drop(k.id); k.s.ioc = nil; k.s.reseed() }()
	k.s.reseed()
	switch o.K {
	case "rdform":
		k.readForm(o)
	case "rdcnf":
		k.readCNF(o)
	case "rdwcnf":
		k.readWCNF(o)
	case "wrform":
		k.writeForm(o)
	case "wrcnf":
		k.writeCNF(o)
	case "wrgraph":
		k.writeGraph(o)
	default:
		panic("simbug: op " + o.K)
	}
	n := fdTable.drop(k.id)
	k.check(n == 0, map[bool]string{true: "R01", false: "W01"}[o.K[0] == 'r'], "not-closed:"+o.K, "%d files are still open after the call", n)
}

func (k *ioClient) file(suffix string) string {
	k.n++
	return fmt.Sprintf("c%d-%d%s", k.id, k.n, suffix)
}

// build constructs a node over the names of the file client.
func (k *ioClient) build(n *Node) f.Formula {
	switch n.K {
	case "v":
		return k.fac.Variable(ioName(n.V))
	case "p":
		lits := make([]f.Literal, len(n.N))
		for i, x := range n.N {
			lits[i] = f.Literal(k.build(x))
		}
		return k.fac.PBC(cSort(n.O), n.R, lits, append([]int(nil), n.C...))
	case "T":
		return k.fac.Verum()
	case "F":
		return k.fac.Falsum()
	case "!":
		return k.fac.Not(k.build(n.N[0]))
	}
	ops := make([]f.Formula, len(n.N))
	for i, x := range n.N {
		ops[i] = k.build(x)
	}
	switch n.K {
	case "&":
		return k.fac.And(ops...)
	case "|":
		return k.fac.Or(ops...)
	case ">":
		return k.fac.Implication(ops[0], ops[1])
	}
	return k.fac.Equivalence(ops[0], ops[1])
}

// formTT computes the meaning of a formula over named variables.
func (k *ioClient) formTT(x f.Formula, ns *names) (TT, bool) {
	rd := newReader(k.fac, len(ns.list))
	rd.fixed = map[f.Variable]int{}
	for i, n := range ns.list {
		rd.fixed[k.fac.Var(n)] = i
	}
	for v := range formulaVars(k.fac, x) {
		if _, ok := rd.fixed[v]; !ok {
			return TT{}, false
		}
	}
	return rd.tt(x)
}

// expectErr judges the error of a call on a file.  It returns true if the
// call succeeded as it had to.
func (k *ioClient) expectErr(err error, fl *simFile, prop, api string) bool {
	k.logf("%s err=%v failed=%v", api, err != nil, fl.failed)
	if fl.failed {
		k.s.count("probe:io-fault-hit")
		k.check(err != nil, prop, "error-lost:"+api, "%s returns no error although a call on the file failed", api)
		return false
	}
	return true
}

func (k *ioClient) readForm(o *Op) {
	txt := ioText(o.S)
	path := k.s.putFile(k.file(".txt"), []byte(txt), o.IO)
	fl := k.s.files[path]
	var forms []f.Formula
	var one f.Formula
	var err error
	api := []string{"ReadFormula", "ReadFormulas", "ReadFormulaFile", "ReadFormulasFile"}[o.a(0)%4]
	switch o.a(0) % 4 {
	case 0:
		one, err = lio.ReadFormula(k.fac, path)
	case 1:
		forms, err = lio.ReadFormulas(k.fac, path)
	default:
		file, e := os.Open(path)
		if e != nil {
			return
		}
		if o.a(0)%4 == 2 {
			one, err = lio.ReadFormulaFile(k.fac, file)
		} else {
			forms, err = lio.ReadFormulasFile(k.fac, file)
		}
		_ = file.Close()
	}
	if !k.expectErr(err, fl, "R01", api) {
		return
	}
	ns := newNames()
	lines := fileLines(txt)
	nodes := make([]*Node, len(lines))
	bad, long := -1, false
	for i, l := range lines {
		n, ok := parseLine(l, ns)
		if !ok && bad < 0 {
			bad = i
		}
		nodes[i] = n
		long = long || len(l) > 1<<20
	}
	if bad >= 0 {
		k.s.count("probe:malformed")
		for _, l := range lines {
			if _, ok := parseLine(l, ns); !ok && trailingGarbage(l) {
				k.soft(err != nil, "R01", "trailing-garbage", "%s accepts the line %.80q with text after the formula", api, l)
			} else if !ok {
				k.check(err != nil, "R01", "malformed:"+api, "%s accepts the malformed line %.80q", api, l)
			}
		}
		return
	}
	k.s.count("probe:well-formed")
	if long {
		if err != nil {
			return
		}
	} else {
		k.check(err == nil, "R01", "rejected:"+api, "%s of %d well-formed lines fails: %v", api, len(lines), err)
	}
	all := ttConst(len(ns.list), true)
	for i, n := range nodes {
		t := n.tt(len(ns.list))
		all = all.and(t)
		if o.a(0)%2 == 1 && i < len(forms) {
			got, ok := k.formTT(forms[i], ns)
			k.check(ok && got.eq(t), "R01", "meaning:"+api, "line %q is read as %s", lines[i], k.sp(forms[i]))
		}
	}
	if o.a(0)%2 == 1 {
		k.check(len(forms) == len(nodes), "R01", "lines:"+api, "%d formulas read from %d lines", len(forms), len(nodes))
		return
	}
	got, ok := k.formTT(one, ns)
	k.check(ok && got.eq(all), "R01", "meaning:"+api, "file %.200q is read as %s", txt, k.sp(one))
}

func (k *ioClient) readCNF(o *Op) {
	txt := ioText(o.S)
	path := k.s.putFile(k.file(".cnf"), []byte(txt), o.IO)
	fl := k.s.files[path]
	prefix := "v"
	var res *[]f.Formula
	var err error
	api := "ReadDimacs"
	switch o.a(0) % 3 {
	case 0:
		res, err = lio.ReadDimacs(k.fac, path)
	case 1:
		prefix = "pre"
		res, err = lio.ReadDimacs(k.fac, path, prefix)
	default:
		file, e := os.Open(path)
		if e != nil {
			return
		}
		api = "ReadDimacsFile"
		res, err = lio.ReadDimacsFile(k.fac, file)
		_ = file.Close()
	}
	if !k.expectErr(err, fl, "R01", api) {
		return
	}
	d := parseCNF(txt)
	if d == nil {
		k.s.count("probe:malformed")
		k.check(err != nil, "R01", "malformed:"+api, "%s accepts the malformed content %.200q", api, txt)
		return
	}
	k.s.count("probe:well-formed")
	if err != nil {
		k.check(!d.strict || k.longLine(txt), "R01", "rejected:"+api, "%s of well-formed content %.200q fails: %v", api, txt, err)
		return
	}
	k.check(res != nil && len(*res) == len(d.clauses), "R01", "clauses:"+api, "%d clauses read from %d", len(*res), len(d.clauses))
	k.compareClauses(*res, d.clauses, prefix, "R01", api)
}

// longLine reports whether a line exceeds what a reader has to accept.
func (k *ioClient) longLine(txt string) bool {
	for _, l := range fileLines(txt) {
		if len(l) > 60000 {
			return true
		}
	}
	return false
}

func (k *ioClient) compareClauses(got []f.Formula, want [][]int, prefix, prop, api string) {
	for i, cl := range want {
		set := map[int]bool{}
		taut := false
		for _, l := range cl {
			set[l] = true
			taut = taut || set[-l]
		}
		x := got[i]
		if taut {
			k.check(x.Sort() == f.SortTrue || x.Sort() == f.SortOr, prop, "clause:"+api, "clause %v is read as %s", cl, k.sp(x))
			continue
		}
		var ops []f.Formula
		switch x.Sort() {
		case f.SortFalse:
		case f.SortLiteral:
			ops = []f.Formula{x}
		case f.SortOr:
			ops = k.fac.Operands(x)
		default:
			k.fail(prop, "clause:"+api, "clause %v is read as %s", cl, k.sp(x))
		}
		seen := map[int]bool{}
		for _, y := range ops {
			l := 0
			if name, ph, ok := k.fac.LiteralNamePhase(y); ok && strings.HasPrefix(name, prefix) {
				l, _ = strconv.Atoi(name[len(prefix):])
				if !ph {
					l = -l
				}
			}
			k.check(set[l], prop, "clause:"+api, "clause %v is read as %s", cl, k.sp(x))
			seen[l] = true
		}
		k.check(len(seen) == len(set), prop, "clause:"+api, "clause %v is read as %s", cl, k.sp(x))
	}
}

func (k *ioClient) readWCNF(o *Op) {
	txt := ioText(o.S)
	d := parseWCNF(txt)
	path := k.s.putFile(k.file(".wcnf"), []byte(txt), o.IO)
	fl := k.s.files[path]
	weighted := false
	if d != nil {
		for _, w := range d.weights {
			weighted = weighted || w > 1
		}
	}
	mk := func() *maxsat.Solver {
		if weighted {
			switch o.a(0) % 5 {
			case 0:
				return maxsat.OLL(k.fac)
			case 1:
				return maxsat.WBO(k.fac)
			case 2:
				return maxsat.IncWBO(k.fac)
			case 3:
				return maxsat.WMSU3(k.fac)
			default:
				return maxsat.LinearSU(k.fac)
			}
		}
		switch o.a(0) % 4 {
		case 0:
			return maxsat.OLL(k.fac)
		case 1:
			return maxsat.MSU3(k.fac)
		case 2:
			return maxsat.LinearUS(k.fac)
		default:
			return maxsat.LinearSU(k.fac)
		}
	}
	api := "maxsat.ReadDimacsToSolver"
	sol := mk()
	err := maxsat.ReadDimacsToSolver(k.fac, sol, path)
	if !k.expectErr(err, fl, "R01", api) {
		return
	}
	if d == nil {
		k.s.count("probe:malformed")
		k.check(err != nil, "R01", "malformed:"+api, "%s accepts the malformed content %.200q", api, txt)
		return
	}
	k.s.count("probe:well-formed")
	if err != nil {
		k.check(!d.strict || k.longLine(txt), "R01", "rejected:"+api, "%s of well-formed content %.200q fails: %v", api, txt, err)
		return
	}
	if d.maxVar > 8 || len(d.clauses) > 40 {
		panic(undecided{})
	}
	// the costs of some assignments and the optimum identify the content
	for i := 0; i <= 2; i++ {
		a := -1
		if i > 0 {
			if err := maxsat.ReadDimacsToSolver(k.fac, mk2(mk, &sol), path); err != nil {
				k.fail("R01", "rejected:"+api, "%s fails when the file is read again: %v", api, err)
			}
			a = o.a(i) & (1<<d.maxVar - 1)
			for v := 1; v <= d.maxVar; v++ {
				sol.AddHardFormula(k.fac.Literal(fmt.Sprintf("v%d", v), a>>(v-1)&1 == 1))
			}
		}
		want := d.optimum(a)
		res := sol.Solve()
		got := -1
		if res.Satisfiable {
			got = res.Optimum
		}
		k.logf("optimum %d", got)
		k.check(got == want, "R01", "content:"+api, "the problem read from %.300q has the optimum %d under assignment %d, expected %d", txt, got, a, want)
	}
}

func mk2(mk func() *maxsat.Solver, s **maxsat.Solver) *maxsat.Solver {
	*s = mk()
	return *s
}

// optimum of a MaxSAT file, under one assignment or over all (a < 0).
func (d *dimacs) optimum(a int) int {
	lo, hi := a, a
	if a < 0 {
		lo, hi = 0, 1<<d.maxVar-1
	}
	best := -1
	for m := lo; m <= hi; m++ {
		cost, ok := 0, true
		for i, cl := range d.clauses {
			sat := false
			for _, l := range cl {
				sat = sat || (m>>(max(l, -l)-1)&1 == 1) == (l > 0)
			}
			if !sat && d.weights[i] == 0 {
				ok = false
				break
			} else if !sat {
				cost += d.weights[i]
			}
		}
		if ok && (best < 0 || cost < best) {
			best = cost
		}
	}
	return best
}

// simWriter is a stream with faults.
type simWriter struct {
	k  *ioClient
	fl *simFile
	n  int
}

func (w *simWriter) Write(p []byte) (int, error) {
	s := w.k.s
	s.reseed()
	s.tick()
	s.ioc = w.k.Client
	s.ioYield()
	w.n++
	sp := &w.fl.spec
	if sp.FailN > 0 && (w.n == sp.FailN || sp.Sticky && w.n >= sp.FailN) {
		w.fl.failed = true
		n := 0
		if sp.Partial {
			n = len(p) / 2
			w.fl.data = append(w.fl.data, p[:n]...)
			s.count("fault:stream-short-write")
			w.k.logf("stream write short")
			return n, gio.ErrShortWrite
		}
		s.count("fault:stream-error")
		w.k.logf("stream write fails")
		return 0, fmt.Errorf("stream broken")
	}
	w.fl.data = append(w.fl.data, p...)
	return len(p), nil
}

// written runs one of the variants of a writer and returns the file.
func (k *ioClient) written(o *Op, suffix, addSuffix string, closes bool, byName func(string) error, byFile func(*os.File) error, byWriter func(gio.Writer) error) (*simFile, error, bool) {
	name := k.file(suffix)
	path := k.s.putFile(name+addSuffix, nil, o.IO)
	fl := k.s.files[path]
	if o.a(9)%2 == 1 {
		fl.data = []byte("old content which has to be replaced, of some length so that it would stick out\n")
	}
	switch o.a(0) % 3 {
	case 0:
		return fl, byName("/sim/" + name), true
	case 1:
		file, err := os.Create(path)
		if err != nil {
			return fl, nil, false
		}
		err = byFile(file)
		if !closes {
			was := fl.failed
			_ = file.Close()
			fl.failed = was
		}
		return fl, err, true
	}
	fl.data = nil
	w := &simWriter{k, fl, 0}
	fl.spec.OpenErr, fl.spec.CloseErr, fl.spec.Full = 0, 0, 0
	return fl, byWriter(w), true
}

func (k *ioClient) writeForm(o *Op) {
	n := o.F[0]
	x := k.build(n)
	split := o.a(1)%2 == 1
	api := []string{"WriteFormula", "WriteFormulaToFile", "WriteFormulaToWriter"}[o.a(0)%3]
	fl, err, ran := k.written(o, ".txt", "", false,
		func(p string) error { return lio.WriteFormula(k.fac, p, x, split) },
		func(p *os.File) error { return lio.WriteFormulaToFile(k.fac, p, x, split) },
		func(p gio.Writer) error { return lio.WriteFormulaToWriter(k.fac, p, x, split) })
	if !ran || !k.expectErr(err, fl, "W01", api) {
		return
	}
	k.check(err == nil, "W01", "rejected:"+api, "%s fails without any fault: %v", api, err)
	ns := newNames(ioNames...)
	t := n.tt(len(ioNames))
	got := ttConst(len(ioNames), true)
	lines := fileLines(string(fl.data))
	for _, l := range lines {
		m, ok := parseLine(l, ns)
		k.check(ok, "W01", "unreadable:"+api, "written line %q is not readable", l)
		got = got.and(m.tt(len(ioNames)))
	}
	k.check(got.eq(t), "W01", "content:"+api, "%s of %s wrote %.200q", api, k.sp(x), fl.data)
	if split && x.Sort() == f.SortAnd {
		k.check(len(lines) == len(k.fac.Operands(x)), "W01", "lines:"+api, "%d operands written to %d lines", len(k.fac.Operands(x)), len(lines))
	} else {
		k.check(len(lines) == 1, "W01", "lines:"+api, "one formula written to %d lines", len(lines))
	}
	// read it back
	path := k.s.putFile(k.file("-back.txt"), fl.data, &IOSpec{Chunks: []int{o.a(2)%7 + 1, o.a(3)%50 + 1}})
	back, err := lio.ReadFormula(k.fac, path)
	k.check(err == nil, "W01", "read-back:"+api, "reading back %q fails: %v", fl.data, err)
	bt, ok := k.formTT(back, ns)
	k.check(ok && bt.eq(t), "W01", "read-back:"+api, "formula %s is read back as %s", k.sp(x), k.sp(back))
	k.check(back == x, "W01", "read-back-identity:"+api, "formula %s is read back as the different formula %s", k.sp(x), k.sp(back))
}

func (k *ioClient) writeCNF(o *Op) {
	n := o.F[0]
	x := k.build(n)
	api := []string{"WriteDimacs", "WriteDimacsToFile", "WriteDimacsToWriter"}[o.a(0)%3]
	var mapping map[f.Variable]int
	suffix, add := ".cnf", ""
	if o.a(1)%2 == 1 {
		suffix, add = "", ".cnf"
	}
	if o.a(0)%3 != 0 {
		suffix, add = ".cnf", ""
	}
	cnf := isShape(k.fac, x, true)
	fl, err, ran := k.written(o, suffix, add, false,
		func(p string) (err error) { mapping, err = lio.WriteDimacs(k.fac, p, x); return },
		func(p *os.File) (err error) { mapping, err = lio.WriteDimacsToFile(k.fac, p, x); return },
		func(p gio.Writer) (err error) { mapping, err = lio.WriteDimacsToWriter(k.fac, p, x); return })
	if !ran || !k.expectErr(err, fl, "W01", api) {
		return
	}
	if !cnf {
		k.check(err != nil, "W01", "no-cnf:"+api, "%s accepts %s which is no CNF", api, k.sp(x))
		return
	}
	k.check(err == nil, "W01", "rejected:"+api, "%s of %s fails without any fault: %v", api, k.sp(x), err)
	vars := formulaVars(k.fac, x)
	k.check(len(mapping) == len(vars), "W01", "mapping:"+api, "mapping of %s has %d entries", k.sp(x), len(mapping))
	ids := map[int]f.Variable{}
	for v, i := range mapping {
		_, dup := ids[i]
		k.check(vars[v] && i >= 1 && i <= len(vars) && !dup, "W01", "mapping:"+api, "mapping of %s sends %s to %d", k.sp(x), k.sp(v), i)
		ids[i] = v
	}
	// the clauses of the formula, as sets of literals
	var cls []f.Formula
	switch x.Sort() {
	case f.SortAnd:
		cls = k.fac.Operands(x)
	case f.SortTrue:
	default:
		cls = []f.Formula{x}
	}
	lines := fileLines(string(fl.data))
	want := fmt.Sprintf("p cnf %d %d", len(vars), len(cls))
	k.check(len(lines) > 0 && lines[0] == want, "W01", "header:"+api, "header %q written for %s, expected %q", lines[0], k.sp(x), want)
	k.check(len(lines) == len(cls)+1, "W01", "clauses:"+api, "%d lines written for %d clauses", len(lines)-1, len(cls))
	d := parseCNF(string(fl.data))
	k.check(d != nil && len(d.clauses) == len(cls), "W01", "clauses:"+api, "%s wrote %.200q", api, fl.data)
	for i, c := range cls {
		set := map[int]bool{}
		ops := []f.Formula{c}
		if c.Sort() == f.SortOr {
			ops = k.fac.Operands(c)
		} else if c.Sort() == f.SortFalse {
			ops = nil
		}
		for _, y := range ops {
			l := mapping[f.Literal(y).Variable()]
			if !f.Literal(y).IsPos() {
				l = -l
			}
			set[l] = true
		}
		got := map[int]bool{}
		for _, l := range d.clauses[i] {
			got[l] = true
			k.check(set[l], "W01", "clause:"+api, "clause %s is written as %v", k.sp(c), d.clauses[i])
		}
		k.check(len(got) == len(set), "W01", "clause:"+api, "clause %s is written as %v", k.sp(c), d.clauses[i])
	}
	path := k.s.putFile(k.file("-back.cnf"), fl.data, &IOSpec{Chunks: []int{o.a(2)%7 + 1, o.a(3)%50 + 1}})
	back, err := lio.ReadDimacs(k.fac, path)
	k.check(err == nil && len(*back) == len(cls), "W01", "read-back:"+api, "reading back %q fails: %v", fl.data, err)
	k.compareClauses(*back, d.clauses, "v", "W01", "read-back:"+api)
}

func (k *ioClient) writeGraph(o *Op) {
	x := k.build(o.F[0])
	var rep *graphical.Representation
	switch o.a(1) % 4 {
	case 0:
		rep = f.GenerateGraphicalFormulaAST(k.fac, x, f.DefaultFormulaGraphicalGenerator())
	case 1:
		rep = f.GenerateGraphicalFormulaDAG(k.fac, x, f.DefaultFormulaGraphicalGenerator())
	case 2:
		rep = graph.GenerateGraphicalFormulaGraph(k.fac, graph.GenerateConstraintGraph(k.fac, x), &graphical.Generator[f.Formula]{DefaultNodeStyle: graphical.Circle(graphical.ColorRed, "", graphical.ColorGreen), DefaultEdgeStyle: graphical.Dotted(graphical.ColorBlue)})
	default:
		if !isPure(o.F[0]) {
			return
		}
		rep = bdd.GenerateGraphical(bdd.Compile(k.fac, x), bdd.DefaultGenerator())
	}
	var want string
	var api string
	var fl *simFile
	var err error
	var ran bool
	if o.a(2)%2 == 0 {
		api = []string{"WriteDotToFileName", "WriteDotToFile", "WriteDotToWriter"}[o.a(0)%3]
		want = graphical.WriteDotToString(rep)
		fl, err, ran = k.written(o, ".dot", "", true,
			func(p string) error { return graphical.WriteDotToFileName(p, rep) },
			func(p *os.File) error { return graphical.WriteDotToFile(p, rep) },
			func(p gio.Writer) error { return graphical.WriteDotToWriter(p, rep) })
	} else {
		api = []string{"WriteMermaidToFileName", "WriteMermaidToFile", "WriteMermaidToWriter"}[o.a(0)%3]
		want = graphical.WriteMermaidToString(rep)
		fl, err, ran = k.written(o, ".txt", "", true,
			func(p string) error { return graphical.WriteMermaidToFileName(p, rep) },
			func(p *os.File) error { return graphical.WriteMermaidToFile(p, rep) },
			func(p gio.Writer) error { return graphical.WriteMermaidToWriter(p, rep) })
	}
	if !ran || !k.expectErr(err, fl, "W01", api) {
		return
	}
	k.check(err == nil, "W01", "rejected:"+api, "%s fails without any fault: %v", api, err)
	k.check(bytes.Equal(fl.data, []byte(want)), "W01", "content:"+api, "%s wrote %d bytes which differ from the %d bytes of the representation", api, len(fl.data), len(want))
	k.check(strings.Count(want, "\n") >= len(rep.Nodes()), "W01", "nodes:"+api, "%d nodes are written in %d lines", len(rep.Nodes()), strings.Count(want, "\n"))
}

// isPure reports whether a node contains no constraint.
func isPure(n *Node) bool {
	if n.K == "p" {
		return false
	}
	for _, x := range n.N {
		if !isPure(x) {
			return false
		}
	}
	return true
}

// ------------------------------------------------------------ generator ----

func (g *planGen) ioRead(size int) *IOSpec {
	r := g.r
	if r.P(25) {
		return nil
	}
	sp := &IOSpec{}
	if r.P(60) {
		for i := r.Range(1, 3); i > 0; i-- {
			sp.Chunks = append(sp.Chunks, r.Log(max(2, size)))
		}
	}
	if r.P(35) {
		calls := 3
		if len(sp.Chunks) > 0 {
			calls = size/sp.Chunks[0] + 2
		}
		sp.FailN, sp.FailErr, sp.Sticky = r.Range(1, max(1, min(calls, 60))), []int{5, 12, 14, 6}[r.Intn(4)], r.P(50)
	}
	if r.P(15) {
		sp.IntrN = r.Range(2, 5)
	}
	if r.P(5) {
		sp.OpenErr = []int{2, 13, 24, 5}[r.Intn(4)]
	}
	if r.P(10) {
		sp.CloseErr = 5
	}
	return sp
}

func (g *planGen) ioWrite() *IOSpec {
	r := g.r
	if r.P(20) {
		return nil
	}
	sp := &IOSpec{}
	if r.P(40) {
		for i := r.Range(1, 3); i > 0; i-- {
			sp.Chunks = append(sp.Chunks, r.Log(64))
		}
	}
	switch r.Intn(4) {
	case 0:
		sp.FailN, sp.FailErr, sp.Partial, sp.Sticky = r.Log(30), []int{5, 28, 27, 122}[r.Intn(4)], r.P(40), r.P(30)
	case 1:
		sp.Full = r.Log(400)
	case 2:
		sp.CloseErr = []int{5, 28, 122}[r.Intn(3)]
	}
	if r.P(15) {
		sp.IntrN = r.Range(2, 5)
	}
	if r.P(5) {
		sp.OpenErr = []int{13, 24, 28, 30}[r.Intn(4)]
	}
	return sp
}

// mutate damages a text.
func (g *planGen) mutate(s string, alphabet []string) string {
	r := g.r
	for n := r.Range(1, 2); n > 0; n-- {
		if len(s) == 0 {
			return alphabet[r.Intn(len(alphabet))]
		}
		i := r.Intn(len(s))
		switch r.Intn(4) {
		case 0:
			s = s[:i] // torn file
		case 1:
			j := min(len(s), i+r.Range(1, 3))
			s = s[:i] + s[j:]
		case 2:
			s = s[:i] + alphabet[r.Intn(len(alphabet))] + s[i:]
		default:
			j := min(len(s), i+r.Range(1, 2))
			s = s[:i] + alphabet[r.Intn(len(alphabet))] + s[j:]
		}
	}
	return s
}

var formAlphabet = []string{"&", "|", "(", ")", "~", "=>", "<=>", "<", "=", "<=", ">", "+", "*", " ", "5", "-3", "x0", "$true", "$", "-", "?", "\n", ".", "é", " x1 ", "@", "2*3", "$false "}
var dimacsAlphabet = []string{" ", "0", " 0", "-", "x", "1", " 2 ", "\n", "-3", "\t", "+", "  ", "0 \n", "c", "p", "\r", "--1", "9"}

func (g *planGen) formText() string {
	r := g.r
	gc := GenCfg{nv: min(g.p.NV, len(ioNames)), depth: 3, pbc: 15, cons: 4, width: 3, rep: 4}
	if r.P(50) {
		gc.pbc = 0
	}
	var sb strings.Builder
	n := r.Log(6)
	if r.P(4) {
		n = r.Range(40, 200)
		gc.depth = 1
	}
	for i := 0; i < n; i++ {
		d := gc
		d.depth = r.Range(0, gc.depth)
		var x *Node
		if gc.pbc > 0 && r.P(20) {
			x = gc.pbcNode(r)
		} else {
			x = d.formula(r)
		}
		sb.WriteString(x.text(r, ioName))
		if i < n-1 || r.P(80) {
			if r.P(8) {
				sb.WriteString("\r")
			}
			sb.WriteString("\n")
			if r.P(5) {
				sb.WriteString("\n")
			}
		}
	}
	s := sb.String()
	if r.P(30) {
		s = g.mutate(s, formAlphabet)
	}
	return s
}

func (g *planGen) dimacsText(weighted bool) string {
	r := g.r
	nv := r.Range(1, 6)
	n := r.Range(0, 10)
	if r.P(5) && !weighted {
		n = r.Range(100, 600)
	}
	var sb strings.Builder
	if r.P(30) {
		sb.WriteString("c a comment\n")
	}
	if r.P(4) {
		fmt.Fprintf(&sb, "c @PAD%d@\n", r.Range(3000, 70000))
	}
	mode := r.Intn(3)
	top := []int{5, 10, 100, 1000}[r.Intn(4)]
	switch {
	case !weighted:
		fmt.Fprintf(&sb, "p cnf %d %d\n", nv, n)
	case mode == 0:
		fmt.Fprintf(&sb, "p cnf %d %d\n", nv, n)
	case mode == 1:
		fmt.Fprintf(&sb, "p wcnf %d %d\n", nv, n)
	default:
		fmt.Fprintf(&sb, "p wcnf %d %d %d\n", nv, n, top)
	}
	sep := func() string {
		if r.P(6) {
			return "  "
		}
		return " "
	}
	unit := r.P(40)
	for i := 0; i < n; i++ {
		if weighted && mode > 0 {
			w := r.Range(1, 4)
			if unit {
				w = 1
			}
			if mode == 2 && r.P(40) {
				w = top
			}
			fmt.Fprintf(&sb, "%d%s", w, sep())
		}
		for _, v := range r.Perm(nv)[:r.Range(0, min(3, nv))] {
			if r.P(50) {
				sb.WriteString("-")
			}
			fmt.Fprintf(&sb, "%d%s", v+1, sep())
		}
		sb.WriteString("0")
		if r.P(4) {
			sb.WriteString(" ")
		}
		if i < n-1 || r.P(80) {
			if r.P(6) {
				sb.WriteString("\r")
			}
			sb.WriteString("\n")
		}
		if r.P(2) {
			sb.WriteString([]string{"c in between\n", "\n"}[r.Intn(2)])
		}
	}
	if r.P(1) {
		fmt.Fprintf(&sb, "c @PAD%d@\n1 0\n", r.Range(60000, 140000))
	}
	s := sb.String()
	if r.P(35) {
		s = g.mutate(s, dimacsAlphabet)
	}
	return s
}

func (g *planGen) ioClient(reads, writes int) *ClientPlan {
	r := g.r
	c := &ClientPlan{Kind: "io"}
	gc := GenCfg{nv: min(g.p.NV, len(ioNames)), depth: 3, pbc: 10, cons: 4, width: 3, rep: 4}
	for n := r.Range(2, 6); n > 0; n-- {
		var o *Op
		if r.Pick(reads, writes) == 0 {
			switch r.Intn(3) {
			case 0:
				o = &Op{K: "rdform", A: []int{r.Intn(4)}, S: g.formText()}
			case 1:
				o = &Op{K: "rdcnf", A: []int{r.Intn(3)}, S: g.dimacsText(false)}
			default:
				o = &Op{K: "rdwcnf", A: []int{r.Intn(20), r.Intn(64), r.Intn(64)}, S: g.dimacsText(true)}
			}
			o.IO = g.ioRead(len(o.S))
		} else {
			d := gc
			d.depth = r.Range(0, 3)
			if r.P(50) {
				d.pbc = 0
			}
			switch r.Intn(3) {
			case 0:
				o = &Op{K: "wrform", F: []*Node{d.formula(r)}}
			case 1:
				o = &Op{K: "wrcnf", F: []*Node{gc.cnf(r, r.Range(0, 6), 4)}}
				if r.P(10) {
					o.F[0] = d.formula(r)
				} else if r.P(10) {
					o.F[0] = gc.clause(r, 3)
				} else if r.P(3) {
					o.F[0] = gc.cnf(r, r.Range(50, 200), 4)
				}
			default:
				o = &Op{K: "wrgraph", F: []*Node{d.formula(r)}}
			}
			o.A = []int{r.Intn(3), r.Intn(4), r.Intn(64), r.Intn(64), 0, 0, 0, 0, 0, r.Intn(2)}
			o.IO = g.ioWrite()
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func (g *planGen) ioRun(reads, writes int) {
	r := g.r
	g.p.NV = r.Range(2, 8)
	n := 1
	if r.P(20) {
		n = 2
	}
	for i := 0; i < n; i++ {
		g.p.Clients = append(g.p.Clients, g.ioClient(reads, writes))
	}
}

func init() {
	props["R01"] = propSpec{250000, func(g *planGen) { g.ioRun(10, 1) }}
	props["W01"] = propSpec{600000, func(g *planGen) { g.ioRun(1, 10) }}
}
