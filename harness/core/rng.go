// Package core runs the monitored workloads: deterministic case lists, panic
// and stuck-call monitors, violation reports with replay files, and the
// evidence of what was observed.
package core

import "hash/fnv"

// Rng is a splitmix64 generator: every case has its own, derived from the
// seed, the property, the stage and the case number.
type Rng struct {
	s    uint64
	Fuel int // for generators of recursive things
}

func NewRng(parts ...interface{}) *Rng {
	h := fnv.New64a()
	for _, p := range parts {
		switch p := p.(type) {
		case string:
			h.Write([]byte(p))
		case int:
			for i := 0; i < 8; i++ {
				h.Write([]byte{byte(uint64(p) >> (8 * i))})
			}
		case uint64:
			for i := 0; i < 8; i++ {
				h.Write([]byte{byte(p >> (8 * i))})
			}
		}
		h.Write([]byte{0xff})
	}
	r := &Rng{s: h.Sum64()}
	r.Uint64()
	return r
}

func (r *Rng) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a number in [0,n); 0 if n <= 0.
func (r *Rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// Range returns a number in [a,b].
func (r *Rng) Range(a, b int) int { return a + r.Intn(b-a+1) }

// P is true with probability num/den.
func (r *Rng) P(num, den int) bool { return r.Intn(den) < num }

func (r *Rng) Bool() bool { return r.Uint64()&1 == 1 }

func (r *Rng) Float() float64 { return float64(r.Uint64()>>11) / (1 << 53) }

func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func (r *Rng) Fork() *Rng { return &Rng{s: r.Uint64()} }

func Pick[T any](r *Rng, l []T) T { return l[r.Intn(len(l))] }
