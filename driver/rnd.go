package main

// R is a small deterministic generator (splitmix64).
type R struct{ s uint64 }

// newR scatters the seed, so that the sequences of neighbouring seeds do not run into each other.
func newR(seed uint64) *R {
	r := &R{seed ^ 0x5bf0363546b1234d}
	a := r.u64()
	r.s ^= a << 17
	return &R{a ^ r.u64()*0xff51afd7ed558ccd}
}

func (r *R) u64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// n gives a number in 0..k-1.
func (r *R) n(k int) int {
	if k <= 0 {
		return 0
	}
	return int(r.u64() % uint64(k))
}

// in gives a number in lo..hi.
func (r *R) in(lo, hi int) int { return lo + r.n(hi-lo+1) }

// p is true with probability pc percent.
func (r *R) p(pc int) bool { return r.n(100) < pc }

func pick[T any](r *R, xs ...T) T { return xs[r.n(len(xs))] }

func pickW(r *R, w []int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.n(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return len(w) - 1
}
