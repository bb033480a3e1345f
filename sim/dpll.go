package main

// dpll is the simulator's own small reference solver: clauses and at-most-k
// constraints over variables 1..nv.
type dpll struct {
	nv      int
	clauses [][]int
	amks    []amk
	val     []int8
	trail   []int
	steps   int
}

type amk struct {
	lits []int
	k    int
}

func newDpll() *dpll { return &dpll{} }

func (d *dpll) litVal(l int) int8 {
	if l > 0 {
		return d.val[l]
	}
	return -d.val[-l]
}

func (d *dpll) assign(l int) {
	if l > 0 {
		d.val[l] = 1
	} else {
		d.val[-l] = -1
	}
	d.trail = append(d.trail, l)
}

func (d *dpll) undo(n int) {
	for len(d.trail) > n {
		l := d.trail[len(d.trail)-1]
		d.trail = d.trail[:len(d.trail)-1]
		if l < 0 {
			l = -l
		}
		d.val[l] = 0
	}
}

func (d *dpll) propagate() bool {
	for changed := true; changed; {
		changed = false
		for _, c := range d.clauses {
			free, n, ok := 0, 0, false
			for _, l := range c {
				switch d.litVal(l) {
				case 1:
					ok = true
				case 0:
					if n == 0 || free != l {
						n++
					}
					free = l
				}
				if ok {
					break
				}
			}
			if ok {
				continue
			}
			if n == 0 {
				return false
			}
			if n == 1 {
				d.assign(free)
				changed = true
			}
		}
		for _, a := range d.amks {
			t := 0
			for _, l := range a.lits {
				if d.litVal(l) == 1 {
					t++
				}
			}
			if t > a.k {
				return false
			}
			if t == a.k {
				for _, l := range a.lits {
					if d.litVal(l) == 0 {
						d.assign(-l)
						changed = true
					}
				}
			}
		}
	}
	return true
}

func (d *dpll) solve() bool { return d.solveUnder(nil) }

func (d *dpll) solveUnder(assum []int) bool {
	d.val = make([]int8, d.nv+1)
	d.trail = d.trail[:0]
	for _, l := range assum {
		switch d.litVal(l) {
		case -1:
			return false
		case 0:
			d.assign(l)
		}
	}
	return d.rec()
}

func (d *dpll) rec() bool {
	n := len(d.trail)
	if !d.propagate() {
		d.undo(n)
		return false
	}
	// branch on a literal of a shortest open clause
	best, bl := 0, 1<<30
	for _, c := range d.clauses {
		k, ok, fl := 0, false, 0
		for _, l := range c {
			v := d.litVal(l)
			if v == 1 {
				ok = true
				break
			}
			if v == 0 {
				k++
				fl = l
			}
		}
		if !ok && k < bl {
			best, bl = fl, k
		}
	}
	if best == 0 {
		return true // all clauses satisfied; set the rest false
	}
	d.steps++
	if d.steps > 3000 {
		panic(undecided{})
	}
	for _, l := range []int{best, -best} {
		m := len(d.trail)
		d.assign(l)
		if d.rec() {
			return true
		}
		d.undo(m)
	}
	d.undo(n)
	return false
}
