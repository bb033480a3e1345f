package main

import (
	"fmt"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/booleworks/logicng-go/configuration"
	"github.com/booleworks/logicng-go/event"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/normalform"
)

// ---------------------------------------------------------------- plans ----

// Plan is everything that decides one simulated execution.
type Plan struct {
	Prop     string        `json:"prop"`
	Run      int           `json:"run"`
	Seed     uint64        `json:"seed"`
	RandSeed uint64        `json:"rand_seed"` // runtime randomness (map order)
	NV       int           `json:"nv"`
	Shared   bool          `json:"shared"` // one factory for all clients
	Conserve bool          `json:"conserve,omitempty"`
	FCnf     int           `json:"fcnf,omitempty"` // CNF algorithm configured on the factory, 0 = default
	Clients  []*ClientPlan `json:"clients"`
	Sched    uint64        `json:"sched"`      // seed of the scheduler
	SwitchP  int           `json:"switch_pct"` // switch probability at a yield point
	Switches [][2]int      `json:"switches,omitempty"`
	Fixed    bool          `json:"fixed,omitempty"` // follow Switches instead of Sched
	Clock    ClockPlan     `json:"clock"`
	Expect   *Violation    `json:"expect,omitempty"`
	Note     string        `json:"note,omitempty"`
}

// ClockPlan scripts the simulated clocks.
type ClockPlan struct {
	Start int64      `json:"start"`           // wall seconds at start
	Step  int64      `json:"step"`            // mean nanoseconds per event
	Seed  uint64     `json:"seed"`            // jitter
	Jumps [][2]int64 `json:"jumps,omitempty"` // (event number, wall jump in ns)
}

// ClientPlan is the workload of one simulated client.
type ClientPlan struct {
	Kind string  `json:"kind"`
	Cfg  []int   `json:"cfg,omitempty"`
	F    []*Node `json:"f,omitempty"`
	Ops  []*Op   `json:"ops"`
}

// Op is one operation of a client.
type Op struct {
	K  string  `json:"k"`
	A  []int   `json:"a,omitempty"`
	B  []int   `json:"b,omitempty"`
	F  []*Node `json:"f,omitempty"`
	S  string  `json:"s,omitempty"`
	H  *HSpec  `json:"h,omitempty"`
	IO *IOSpec `json:"io,omitempty"`
}

func (o *Op) a(i int) int {
	if i < len(o.A) {
		return o.A[i]
	}
	return 0
}

// HSpec describes a handler, i.e. the cancellation fault of an operation.
type HSpec struct {
	M string `json:"m"`           // never, from, once, type, typeonce, dur, end, now, abs, limit, nodes, fact
	N int    `json:"n,omitempty"` // event number (1-based)
	T string `json:"t,omitempty"` // event type for "type"
	D int64  `json:"d,omitempty"` // ns for dur/end
}

// Violation is what a run reports.
type Violation struct {
	Prop   string `json:"prop"`
	Code   string `json:"code"`
	Client int    `json:"client"`
	Op     int    `json:"op"`
	Msg    string `json:"msg"`
}

// ------------------------------------------------------------------ sim ----

type Sim struct {
	plan     *Plan
	target   string
	hash     uint64
	log      []string
	verbose  bool
	clients  []*Client
	yieldN   int
	sched    *Rng
	replaySw map[int]int
	switches [][2]int
	stats    map[string]int
	viol     *Violation
	foreign  *Violation
	aborted  bool
	done     chan struct{}
	events   int
	mono     int64
	wall     int64
	clockRng *Rng
	fac      f.Factory
	files    map[string]*simFile
	ioc      *Client
	eventCap int
	randN    uint64
	sem      map[string]string
	cancels  map[[2]int]bool // operations which were cancelled
}

const (
	monoBase = int64(1) << 40
)

func newSim(p *Plan, verbose bool) *Sim {
	s := &Sim{plan: p, target: p.Prop, verbose: verbose, hash: 14695981039346656037,
		sched: NewRng(p.Sched, 77), stats: map[string]int{}, done: make(chan struct{}),
		mono: monoBase, wall: p.Clock.Start * 1e9, clockRng: NewRng(p.Clock.Seed, 5),
		files: map[string]*simFile{}, eventCap: 2000000, cancels: map[[2]int]bool{}}
	if p.Prop == "N02" {
		s.sem = map[string]string{}
	}
	if p.Fixed {
		s.replaySw = map[int]int{}
		for _, sw := range p.Switches {
			s.replaySw[sw[0]] = sw[1]
		}
	}
	return s
}

func (s *Sim) newFactory() f.Factory {
	fac := f.NewFactory(s.plan.Conserve)
	if s.plan.FCnf > 0 {
		cfg := normalform.DefaultCNFConfig()
		cfg.Algorithm = []normalform.CNFAlgorithm{normalform.CNFFactorization, normalform.CNFTseitin, normalform.CNFPlaistedGreenbaum, normalform.CNFAdvanced}[(s.plan.FCnf-1)%4]
		_ = fac.PutConfiguration(configuration.Config(cfg))
	}
	return fac
}

func (s *Sim) count(k string) { s.stats[k]++ }

func (s *Sim) logf(format string, args ...any) {
	line := fmt.Sprintf(format, args...)
	for i := 0; i < len(line); i++ {
		s.hash ^= uint64(line[i])
		s.hash *= 1099511628211
	}
	if s.verbose {
		s.log = append(s.log, line)
	}
}

type abortSig struct{}

// tick advances the simulated clocks by one event.
func (s *Sim) tick() {
	s.events++
	if st := s.plan.Clock.Step; st > 0 {
		d := int64(s.clockRng.Intn(int(2*st))) + 1
		s.mono += d
		s.wall += d
	}
	for _, j := range s.plan.Clock.Jumps {
		if int(j[0]) == s.events {
			s.wall += j[1]
			s.count("fault:clock-jump")
			s.logf("clock jump %d", j[1])
		}
	}
}

func (s *Sim) now() (int64, int32, int64) {
	sec := s.wall / 1e9
	ns := s.wall % 1e9
	if ns < 0 {
		sec--
		ns += 1e9
	}
	return sec, int32(ns), s.mono
}

// yield is a point at which the scheduler may switch to another client.
func (s *Sim) yield(c *Client) {
	if s.aborted {
		panic(abortSig{})
	}
	s.yieldN++
	if len(s.clients) < 2 {
		return
	}
	target := -1
	if s.replaySw != nil {
		if t, ok := s.replaySw[s.yieldN]; ok && t < len(s.clients) && !s.clients[t].finished {
			target = t
		}
	} else if s.sched.P(s.plan.SwitchP) {
		t := s.sched.Intn(len(s.clients))
		if !s.clients[t].finished {
			target = t
		}
	}
	if target < 0 || target == c.id {
		return
	}
	s.switches = append(s.switches, [2]int{s.yieldN, target})
	s.logf("switch %d->%d", c.id, target)
	s.count("sched:switch")
	if c.inCall {
		s.count("sched:switch-in-call")
	}
	s.clients[target].wake <- struct{}{}
	<-c.wake
	if s.aborted {
		panic(abortSig{})
	}
}

func (s *Sim) finishClient(c *Client) {
	c.finished = true
	for _, o := range s.clients {
		if !o.finished {
			o.wake <- struct{}{}
			return
		}
	}
	close(s.done)
}

type clientKind interface {
	op(o *Op)
	finish()
}

type Client struct {
	s        *Sim
	id       int
	plan     *ClientPlan
	fac      f.Factory
	kind     clientKind
	wake     chan struct{}
	finished bool
	inCall   bool
	created  *[2]string // panic and stack of the constructor
	opIdx    int
	nv       int
	rd       *Reader
}

// fail reports a violation of a property and ends the run.
func (c *Client) fail(prop, code, format string, args ...any) {
	v := &Violation{prop, code, c.id, c.opIdx, fmt.Sprintf(format, args...)}
	if prop == c.s.target || prop == "" {
		v.Prop = c.s.target
		c.s.viol = v
	} else {
		c.s.foreign = v
	}
	c.s.logf("FAIL %s %s", v.Prop, code)
	c.s.aborted = true
	panic(abortSig{})
}

func (c *Client) check(ok bool, prop, code, format string, args ...any) {
	if !ok {
		c.fail(prop, code, format, args...)
	}
}

// soft is a check whose violation does not end the run if it is a known
// finding, so that the rest of the run is still judged.
func (c *Client) soft(ok bool, prop, code, format string, args ...any) {
	if ok {
		return
	}
	if knownFindings == nil {
		knownFindings = loadKnown()
	}
	if knownFindings.has(&Violation{prop, code, c.id, c.opIdx, fmt.Sprintf(format, args...)}) {
		c.s.count("known:" + code)
		c.logf("known finding %s", code)
		return
	}
	c.fail(prop, code, format, args...)
}

var knownFindings *knownFile

// sem records a result which every execution of the plan has to agree on.
func (c *Client) sem(what string, v any) {
	if c.s.sem != nil {
		c.s.sem[fmt.Sprintf("%d.%d %s", c.id, c.opIdx, what)] = fmt.Sprint(v)
	}
}

func (c *Client) logf(format string, args ...any) {
	c.s.logf("%d.%d "+format, append([]any{c.id, c.opIdx}, args...)...)
}

func (c *Client) step(i int) {
	c.opIdx = i
	op := &Op{K: "finish"}
	if i >= 0 {
		op = c.plan.Ops[i]
	}
	defer func() {
		c.inCall = false
		if e := recover(); e != nil {
			if _, ok := e.(abortSig); ok {
				panic(e)
			}
			if _, ok := e.(undecided); ok {
				c.s.count("probe:undecided-by-reference")
				return
			}
			msg := fmt.Sprint(e)
			if _, isErr := e.(runtime.Error); !isErr && strings.HasPrefix(msg, "simbug") {
				panic(e)
			}
			c.panicked(op, msg, string(debug.Stack()))
		}
	}()
	if i < 0 {
		c.kind.finish()
		return
	}
	if op.K == "nop" {
		return
	}
	c.s.count("op:" + c.plan.Kind + "." + op.K)
	c.kind.op(op)
}

// repoDir is the directory the code under test was built from, as it appears
// in stack traces.
var repoDir = func() string {
	fn := runtime.FuncForPC(reflect.ValueOf(f.NewFactory).Pointer())
	file, _ := fn.FileLine(fn.Entry())
	return filepath.Dir(filepath.Dir(file)) + "/"
}()

// undecided is raised when a reference procedure exceeds its budget: the
// judgement is skipped.
type undecided struct{}

func (c *Client) panicked(op *Op, msg, stack string) {
	// keep only the frames of the code under test, for the report
	var fr []string
	for _, l := range strings.Split(stack, "\n") {
		if strings.Contains(l, repoDir) || strings.Contains(l, "/sim/") {
			l = strings.TrimSpace(l)
			if i := strings.Index(l, " +0x"); i > 0 {
				l = l[:i]
			}
			fr = append(fr, l)
		}
	}
	code := "panic"
	inRepo := false
	for _, l := range fr {
		inRepo = inRepo || strings.Contains(l, repoDir)
	}
	if !inRepo {
		code = "bad-result" // the simulator's own code stumbled over what the library returned
	}
	if len(fr) > 12 {
		fr = fr[:12]
	}
	func() {
		defer func() { recover() }()
		c.fail("", code+":"+op.K, "operation %s panics: %s [%s]", op.K, msg, strings.Join(fr, " < "))
	}()
	panic(abortSig{})
}

// create makes what the client works on; a panic of the library in it is
// reported when the client runs.
func (c *Client) create(mk func(*Client) clientKind) {
	defer func() {
		if e := recover(); e != nil {
			if msg := fmt.Sprint(e); strings.HasPrefix(msg, "simbug") {
				panic(e)
			}
			c.created = &[2]string{fmt.Sprint(e), string(debug.Stack())}
		}
	}()
	c.kind = mk(c)
}

func (c *Client) run() {
	<-c.wake
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abortSig); !ok {
				panic(e)
			}
		}
		c.s.finishClient(c)
	}()
	if c.created != nil {
		c.panicked(&Op{K: "new"}, c.created[0], c.created[1])
	}
	for i := range c.plan.Ops {
		c.s.yield(c)
		c.step(i)
	}
	c.s.yield(c)
	c.step(-1)
}

// Result is the outcome of one simulated run.
type Result struct {
	Viol     *Violation
	Foreign  *Violation
	Hash     uint64
	Events   int
	Yields   int
	SimNs    int64
	Stats    map[string]int
	Switches [][2]int
	Log      []string
	sem      map[string]string
	cancels  map[[2]int]bool
}

var kinds = map[string]func(c *Client) clientKind{}

// execute runs a plan; for the differential properties it also runs the plans
// with which the execution is compared.
func execute(p *Plan, verbose bool) *Result {
	r := executeOnce(p, verbose)
	switch p.Prop {
	case "H01":
		return judgeHandlers(p, r)
	case "H04":
		return judgeTrace(p, r)
	case "N02":
		return judgeRandom(p, r)
	}
	return r
}

// judgeTrace decides whether a wrong result was caused by cancelled or
// interleaved computations: the same plan without them has to be right.
func judgeTrace(p *Plan, r *Result) *Result {
	v := r.Viol
	if v == nil {
		v = r.Foreign
	}
	if v == nil {
		return r
	}
	r.Viol = nil
	r.Foreign = v
	if strings.HasPrefix(v.Prop, "H0") && v.Prop != "H04" {
		return r
	}
	if len(r.Switches) == 0 && len(r.cancels) == 0 {
		return r
	}
	q := clonePlan(p)
	q.Fixed, q.Switches = true, nil
	for i, c := range q.Clients {
		for j, o := range c.Ops {
			if r.cancels[[2]int{i, j}] {
				o.K, o.H = "nop", nil
			}
		}
	}
	r2 := executeOnce(q, false)
	if r2.Viol == nil && r2.Foreign == nil {
		code := v.Code
		if v.Prop != "H04" {
			code = v.Prop + ":" + code
		}
		r.Viol = &Violation{"H04", "trace:" + code, v.Client, v.Op, "without the cancelled and interleaved computations the results are right; with them: " + v.Msg}
		r.Foreign = nil
	} else {
		r.Stats["probe:wrong-without-faults"]++
	}
	return r
}

// judgeHandlers decides whether a wrong result was caused by handlers which
// never refused: the same plan without them has to be right.
func judgeHandlers(p *Plan, r *Result) *Result {
	v := r.Foreign
	if r.Viol != nil || v == nil || strings.HasPrefix(v.Prop, "H0") || len(r.cancels) > 0 || len(r.Switches) > 0 {
		return r
	}
	q := clonePlan(p)
	q.Fixed, q.Switches = true, nil
	for _, c := range q.Clients {
		for _, o := range c.Ops {
			o.H = nil
		}
	}
	r2 := executeOnce(q, false)
	if r2.Viol == nil && r2.Foreign == nil {
		r.Viol = &Violation{"H01", "with-handler:" + v.Prop + ":" + v.Code, v.Client, v.Op, "without handlers the results are right; with handlers which never refuse: " + v.Msg}
		r.Foreign = nil
	}
	return r
}

// judgeRandom compares executions of a plan under different states of the
// runtime's randomness.
func judgeRandom(p *Plan, r *Result) *Result {
	v := r.Viol
	if v == nil {
		v = r.Foreign
	}
	if v != nil && v.Prop == "N02" && p.Clients[v.Client].Kind == "np" {
		return r // judged in every single execution
	}
	r.Viol, r.Foreign = nil, v
	for i := uint64(1); i <= 2; i++ {
		q := clonePlan(p)
		q.RandSeed = NewRng(p.RandSeed, 4242, i).Next() | 1
		r2 := executeOnce(q, false)
		r.Hash = r.Hash*31 + r2.Hash
		r.Events += r2.Events
		for k, n := range r2.Stats {
			r.Stats[k] += n
		}
		v2 := r2.Viol
		if v2 == nil {
			v2 = r2.Foreign
		}
		if (v == nil) != (v2 == nil) {
			w := v
			if w == nil {
				w = v2
			}
			r.Viol = &Violation{"N02", "random:" + w.Code, w.Client, w.Op, "only under some states of the runtime's randomness: " + w.Msg}
			r.Foreign = nil
			return r
		}
		if v != nil {
			continue
		}
		keys := make([]string, 0, len(r.sem))
		for k := range r.sem {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if b, ok := r2.sem[k]; ok && b != r.sem[k] {
				r.Viol = &Violation{"N02", "differs", 0, 0, fmt.Sprintf("the result %q is %s or %s, depending on the runtime's randomness", k, r.sem[k], b)}
				r.Foreign = nil
				return r
			}
		}
	}
	return r
}

func executeOnce(p *Plan, verbose bool) *Result {
	s := newSim(p, verbose)
	runtime.SimRandSeed(p.RandSeed)
	time.SimNow = s.now
	installIO(s)
	defer func() {
		runtime.SimRandOff()
		time.SimNow = nil
		uninstallIO()
	}()
	s.fac = s.newFactory()
	for i, cp := range p.Clients {
		c := &Client{s: s, id: i, plan: cp, wake: make(chan struct{}), nv: p.NV}
		if p.Shared {
			c.fac = s.fac
		} else {
			c.fac = s.newFactory()
		}
		c.rd = newReader(c.fac, p.NV)
		mk := kinds[cp.Kind]
		if mk == nil {
			panic("simbug: unknown client kind " + cp.Kind)
		}
		s.clients = append(s.clients, c)
	}
	for i, cp := range p.Clients {
		s.clients[i].create(kinds[cp.Kind])
	}
	if len(s.clients) == 0 {
		return &Result{Hash: s.hash, Stats: s.stats}
	}
	for _, c := range s.clients {
		go c.run()
	}
	s.clients[0].wake <- struct{}{}
	<-s.done
	return &Result{s.viol, s.foreign, s.hash, s.events, s.yieldN, s.mono - monoBase, s.stats, s.switches, s.log, s.sem, s.cancels}
}

// -------------------------------------------------------------- handler ----

// Hdl is the handler through which the simulator sees every event of a
// computation, decides the interleaving and injects cancellations.
type Hdl struct {
	c       *Client
	spec    *HSpec
	n       int
	vetoed  bool
	vetoEv  event.Event
	vetoN   int
	after   int
	seen    map[string]int
	to      handler.Handler
	onEvent func(e event.Event)
	endWall int64
	dlMono  int64
	open    int // counters of the reference for handlers with a bound
	closed  int
}

func (c *Client) newHdl(spec *HSpec) *Hdl {
	h := &Hdl{c: c, spec: spec, seen: map[string]int{}}
	if spec == nil {
		h.spec = &HSpec{M: "never"}
	}
	switch h.spec.M {
	case "dur", "end", "now", "abs":
		h.newTimeout()
	case "limit", "nodes", "fact":
		h.to = newBound(h.spec)
	}
	return h
}

// begin starts a new computation with the same handler (shared budget).
func (h *Hdl) begin() {
	h.n, h.vetoed, h.vetoEv, h.after, h.vetoN = 0, false, nil, 0, 0
	h.seen = map[string]int{}
}

func (h *Hdl) ShouldResume(e event.Event) bool {
	c := h.c
	c.s.tick()
	t := e.EventType()
	c.s.logf("%d.%d ev %s", c.id, c.opIdx, t)
	h.n++
	h.seen[t]++
	if h.vetoed {
		h.after++
	}
	if c.s.events > c.s.eventCap {
		if h.vetoed && h.after > 1000 {
			c.fail("H02", "spin", "computation keeps running after the handler refused (%d events since)", h.after)
		}
		c.fail("H02", "event-cap", "computation did not return within %d handler events", c.s.eventCap)
	}
	if h.onEvent != nil {
		h.onEvent(e)
	}
	if h.after > 20000 {
		c.fail("H02", "spin", "computation keeps running after the handler refused (%d events since)", h.after)
	}
	resume := true
	switch h.spec.M {
	case "from":
		resume = h.n < h.spec.N
	case "once":
		resume = h.n != h.spec.N
	case "type":
		resume = !(t == h.spec.T && h.seen[t] >= h.spec.N)
	case "typeonce":
		resume = !(t == h.spec.T && h.seen[t] == h.spec.N)
	case "dur", "end", "now", "abs":
		resume = h.to.ShouldResume(e)
		h.checkTimeout(resume)
	case "limit", "nodes", "fact":
		want := h.expectBound(e)
		resume = h.to.ShouldResume(e)
		c.check(h.vetoed || resume == want, "H05", "bound-"+h.spec.M, "handler with bound (%s) returns %v for the event %q at count %d/%d, bound %d/%d", h.spec.M, resume, t, h.open, h.closed, h.spec.N, h.spec.D)
	}
	if !resume {
		if !h.vetoed {
			h.vetoed, h.vetoEv, h.vetoN = true, e, h.n
			c.s.count("fault:veto-" + h.spec.M)
			c.s.count("veto-at:" + t)
		}
		c.s.logf("%d.%d veto", c.id, c.opIdx)
	}
	in := c.inCall
	c.inCall = true
	c.s.yield(c)
	c.inCall = in
	return resume
}

// outcome checks the truthfulness of a handler state and returns true when
// the computation was cancelled.
func (h *Hdl) outcome(api string, st handler.State) bool {
	c := h.c
	c.logf("%s success=%v events=%d", api, st.Success, h.n)
	if h.vetoed {
		c.s.cancels[[2]int{c.id, c.opIdx}] = true
		c.s.count("cancelled-calls")
		if h.after > 0 {
			c.s.count("events-after-veto")
		}
		p1, p2 := "H01", "H02"
		if c.s.target == "H03" && (h.spec.M == "dur" || h.spec.M == "end" || h.spec.M == "now" || h.spec.M == "abs") {
			p1, p2 = "H03", "H03"
		}
		if c.s.target == "H05" {
			p1, p2 = "H05", "H05"
		}
		c.check(!st.Success, p1, "swallowed:"+api, "%s: handler refused at event %d (%s) but the call reports success", api, h.vetoN, h.vetoEv.EventType())
		c.check(st.CancelCause != nil && st.CancelCause.EventType() == h.vetoEv.EventType(), p1, "cause:"+api,
			"%s: handler refused at event %q but the state names %v", api, h.vetoEv.EventType(), st.CancelCause)
		c.check(h.after <= maxAfter, p2, "late:"+api, "%s: %d further events after the handler refused at %q", api, h.after, h.vetoEv.EventType())
	} else {
		if h.n > 0 {
			c.s.count("completed-calls")
		}
		c.check(st.Success, "H01", "spurious:"+api, "%s: handler never refused but the call reports cancellation (%v)", api, st.CancelCause)
	}
	return h.vetoed
}

// maxAfter is the number of events tolerated after a refusal.
const maxAfter = 16

func isNil(x any) bool {
	if x == nil {
		return true
	}
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Interface:
		return v.IsNil()
	}
	return false
}

// ------------------------------------------------------------- helpers -----

func (c *Client) v(i int) f.Variable { return c.fac.Var(varName(i)) }

func (c *Client) vset(is []int) []f.Variable {
	r := make([]f.Variable, len(is))
	for k, i := range is {
		r[k] = c.v(i)
	}
	return r
}

// lits decodes signed literals: i+1 positive, -(i+1) negative.
func (c *Client) lits(a []int) []f.Literal {
	r := make([]f.Literal, len(a))
	for k, x := range a {
		if x > 0 {
			r[k] = c.fac.Lit(varName(x-1), true)
		} else {
			r[k] = c.fac.Lit(varName(-x-1), false)
		}
	}
	return r
}

func litsTT(nv int, a []int) TT {
	t := ttConst(nv, true)
	for _, x := range a {
		t = t.and(litTT(nv, x))
	}
	return t
}

func litTT(nv, x int) TT {
	if x > 0 {
		return ttVar(nv, x-1)
	}
	return ttVar(nv, -x-1).not()
}

// decodeLit translates a literal of the library to the signed encoding, 0 for
// a variable outside the plan.
func (c *Client) decodeLit(l f.Literal) int {
	name, phase, ok := c.fac.LitNamePhase(l)
	if !ok {
		return 0
	}
	i := varIdx(name)
	if i < 0 || i >= c.nv {
		return 0
	}
	if phase {
		return i + 1
	}
	return -(i + 1)
}

func sortedInts(a []int) []int {
	b := append([]int(nil), a...)
	sort.Ints(b)
	return b
}

func uniq(a []int) []int {
	b := sortedInts(a)
	var r []int
	for i, x := range b {
		if i == 0 || b[i-1] != x {
			r = append(r, x)
		}
	}
	return r
}

func allVars(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

func complement(n int, vs []int) []int {
	in := map[int]bool{}
	for _, v := range vs {
		in[v] = true
	}
	var r []int
	for i := 0; i < n; i++ {
		if !in[i] {
			r = append(r, i)
		}
	}
	return r
}

func contains(a []int, x int) bool {
	for _, y := range a {
		if x == y {
			return true
		}
	}
	return false
}

// cubeTT of the assignment a restricted to vars.
func cubeTT(nv int, m map[int]bool) TT {
	t := ttConst(nv, true)
	for v := 0; v < nv; v++ {
		if b, ok := m[v]; ok {
			if b {
				t = t.and(ttVar(nv, v))
			} else {
				t = t.and(ttVar(nv, v).not())
			}
		}
	}
	return t
}
