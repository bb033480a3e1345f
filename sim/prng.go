package main

// Rng is the simulator's own PRNG (splitmix64).  It never touches the Go
// runtime's randomness, so that a plan is a pure function of its seed.
type Rng struct {
	s    uint64
	pool []*Node // formulas generated before, so that later ones share parts
}

func NewRng(parts ...uint64) *Rng {
	r := &Rng{s: 0x243f6a8885a308d3}
	for _, p := range parts {
		r.s ^= p + 0x9e3779b97f4a7c15 + (r.s << 6) + (r.s >> 2)
		r.Next()
	}
	return r
}

func (r *Rng) Next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a number in [0,n).
func (r *Rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

// Range returns a number in [lo,hi].
func (r *Rng) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }

// P is true with probability pct percent.
func (r *Rng) P(pct int) bool { return r.Intn(100) < pct }

// Pick picks an index with the given weights.
func (r *Rng) Pick(weights ...int) int {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	x := r.Intn(sum)
	for i, w := range weights {
		if x < w {
			return i
		}
		x -= w
	}
	return len(weights) - 1
}

// Log returns a number in [1,max], log-uniformly distributed.
func (r *Rng) Log(max int) int {
	bits := 0
	for 1<<bits < max {
		bits++
	}
	n := 1 << r.Intn(bits+1)
	n += r.Intn(n)
	if n > max {
		n = max
	}
	return n
}

func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}
