// Package rng is the one source of choices in the simulator.
package rng

// R is a splitmix64 generator.
type R struct{ s uint64 }

func New(seed uint64) *R { return &R{seed} }

// Mix derives an independent seed.
func Mix(a, b uint64) uint64 {
	r := R{a ^ (b+1)*0xd6e8feb86659fd93}
	r.U64()
	return r.U64()
}

func (r *R) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a number in [0,n).
func (r *R) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a number in [lo,hi].
func (r *R) Range(lo, hi int) int { return lo + r.N(hi-lo+1) }

// P is true with probability num/den.
func (r *R) P(num, den int) bool { return r.N(den) < num }

func (r *R) Bool() bool { return r.U64()&1 == 1 }

// Pick chooses one of the values.
func Pick[T any](r *R, vals ...T) T { return vals[r.N(len(vals))] }

// Of chooses an element of a slice.
func Of[T any](r *R, vals []T) T { return vals[r.N(len(vals))] }

// Shuffle permutes a slice.
func Shuffle[T any](r *R, v []T) {
	for i := len(v) - 1; i > 0; i-- {
		j := r.N(i + 1)
		v[i], v[j] = v[j], v[i]
	}
}
