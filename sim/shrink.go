package main

import (
	"encoding/json"
	"os"
)

func clonePlan(p *Plan) *Plan {
	b, _ := json.Marshal(p)
	q := &Plan{}
	_ = json.Unmarshal(b, q)
	return q
}

// cmdShrink minimises a failing plan while the same violation class persists.
func cmdShrink(in, out string, secs float64) {
	p := loadPlan(in)
	want := p.Expect
	w := startWatchdog(30)
	t0 := realNow()
	best := p
	save := func() {
		b, _ := json.MarshalIndent(best, "", " ")
		_ = os.WriteFile(out+".tmp", b, 0o644)
		_ = os.Rename(out+".tmp", out)
	}
	fails := func(q *Plan) *Result {
		w.begin()
		r := execute(q, false)
		w.end()
		if r.Viol != nil && r.Viol.Prop == want.Prop && r.Viol.Code == want.Code {
			return r
		}
		return nil
	}
	if want.Code == "stack-overflow" || want.Code == "fatal" {
		save()
		return
	}
	// fix the schedule first: from here on the plan is independent of the scheduler's seed
	r := fails(p)
	if r == nil {
		return
	}
	q := clonePlan(p)
	q.Fixed, q.Switches = true, r.Switches
	if fails(q) != nil {
		best = q
	}
	save()
	try := func(q *Plan) bool {
		if realNow()-t0 > secs {
			return false
		}
		if fails(q) != nil {
			best = q
			save()
			return true
		}
		return false
	}
	for changed := true; changed && realNow()-t0 < secs; {
		changed = false
		// clients
		for i := len(best.Clients) - 1; i >= 0 && len(best.Clients) > 1; i-- {
			q := clonePlan(best)
			q.Clients = append(q.Clients[:i], q.Clients[i+1:]...)
			var sw [][2]int
			for _, s := range q.Switches {
				if s[1] == i {
					continue
				}
				if s[1] > i {
					s[1]--
				}
				sw = append(sw, s)
			}
			q.Switches = sw
			changed = try(q) || changed
		}
		// operations, in blocks and singly
		for ci := range best.Clients {
			for blk := len(best.Clients[ci].Ops) / 2; blk >= 1; blk /= 2 {
				for i := len(best.Clients[ci].Ops) - blk; i >= 0; i-- {
					if i+blk > len(best.Clients[ci].Ops) {
						continue
					}
					q := clonePlan(best)
					ops := q.Clients[ci].Ops
					q.Clients[ci].Ops = append(append([]*Op{}, ops[:i]...), ops[i+blk:]...)
					changed = try(q) || changed
				}
			}
		}
		// switches
		if len(best.Switches) > 0 {
			q := clonePlan(best)
			q.Switches = nil
			if try(q) {
				changed = true
			}
			for blk := len(best.Switches) / 2; blk >= 1; blk /= 2 {
				for i := len(best.Switches) - blk; i >= 0; i-- {
					if i+blk > len(best.Switches) {
						continue
					}
					q := clonePlan(best)
					q.Switches = append(append([][2]int{}, q.Switches[:i]...), q.Switches[i+blk:]...)
					changed = try(q) || changed
				}
			}
		}
		// clock jumps, factory configuration
		if len(best.Clock.Jumps) > 0 {
			q := clonePlan(best)
			q.Clock.Jumps = nil
			changed = try(q) || changed
		}
		// faults and arguments
		for ci := range best.Clients {
			c := best.Clients[ci]
			for i := range c.Ops {
				o := best.Clients[ci].Ops[i]
				if o.H != nil && o.H.M != "never" {
					q := clonePlan(best)
					q.Clients[ci].Ops[i].H = &HSpec{M: "never"}
					if try(q) {
						changed = true
					} else if best.Clients[ci].Ops[i].H.N > 1 {
						for _, n := range []int{1, best.Clients[ci].Ops[i].H.N / 2, best.Clients[ci].Ops[i].H.N - 1} {
							if n >= best.Clients[ci].Ops[i].H.N {
								continue
							}
							q := clonePlan(best)
							q.Clients[ci].Ops[i].H.N = n
							if try(q) {
								changed = true
								break
							}
						}
					}
				}
				if o.IO != nil {
					q := clonePlan(best)
					q.Clients[ci].Ops[i].IO = nil
					changed = try(q) || changed
					if best.Clients[ci].Ops[i].IO != nil && len(best.Clients[ci].Ops[i].IO.Chunks) > 0 {
						q := clonePlan(best)
						q.Clients[ci].Ops[i].IO.Chunks = nil
						changed = try(q) || changed
					}
				}
				for fi := 0; fi < len(best.Clients[ci].Ops[i].F); fi++ {
					get := func(q *Plan) **Node { return &q.Clients[ci].Ops[i].F[fi] }
					changed = shrinkNode(&best, get, try) || changed
				}
			}
			for fi := 0; fi < len(best.Clients[ci].F); fi++ {
				get := func(q *Plan) **Node { return &q.Clients[ci].F[fi] }
				changed = shrinkNode(&best, get, try) || changed
			}
		}
	}
	save()
}

// shrinkNode tries to replace subtrees by smaller ones.
func shrinkNode(best **Plan, get func(*Plan) **Node, try func(*Plan) bool) bool {
	changed := false
	budget := 400
	var walk func(path []int)
	at := func(q *Plan, path []int) **Node {
		n := get(q)
		for _, i := range path {
			if i >= len((*n).N) {
				return nil
			}
			n = &(*n).N[i]
		}
		return n
	}
	walk = func(path []int) {
		if budget <= 0 {
			return
		}
		n := at(*best, path)
		if n == nil {
			return
		}
		if (*n).K == "p" {
			return
		}
		// hoist a child
		for i := 0; i < len((*n).N); i++ {
			budget--
			q := clonePlan(*best)
			m := at(q, path)
			*m = (*m).N[i]
			if try(q) {
				changed = true
				walk(path)
				return
			}
		}
		// drop operands
		if (*n).K == "&" || (*n).K == "|" {
			for i := len((*n).N) - 1; i >= 0; i-- {
				n = at(*best, path)
				if len((*n).N) <= 1 || i >= len((*n).N) {
					continue
				}
				budget--
				q := clonePlan(*best)
				m := *at(q, path)
				m.N = append(m.N[:i], m.N[i+1:]...)
				if try(q) {
					changed = true
				}
			}
		}
		n = at(*best, path)
		if n == nil {
			return
		}
		for i := 0; i < len((*n).N); i++ {
			walk(append(append([]int{}, path...), i))
			n = at(*best, path)
			if n == nil {
				return
			}
		}
	}
	walk(nil)
	return changed
}
