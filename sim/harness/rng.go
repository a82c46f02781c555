package main

import "verifsim/simrt"

// Rand is the only source of randomness of the harness.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand {
	r := &Rand{s: seed*0x9e3779b97f4a7c15 + 0x1234567}
	r.U()
	r.U()
	return r
}
func (r *Rand) U() uint64 { return simrt.SplitMix(&r.s) }
func (r *Rand) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U() % uint64(n))
}

// P is true with probability p percent.
func (r *Rand) P(p int) bool { return r.N(100) < p }

// In draws from [a,b].
func (r *Rand) In(a, b int) int { return a + r.N(b-a+1) }

func pick[T any](r *Rand, xs ...T) T { return xs[r.N(len(xs))] }

// Fork derives an independent generator.
func (r *Rand) Fork() *Rand { return NewRand(r.U()) }
