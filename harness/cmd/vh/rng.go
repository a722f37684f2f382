package main

// Deterministic PRNG (splitmix64). Every random choice of the harness comes from here.
type Rng struct{ s uint64 }

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func NewRng(parts ...uint64) *Rng {
	h := uint64(0x243f6a8885a308d3)
	for _, p := range parts {
		h = mix(h ^ mix(p))
	}
	return &Rng{h}
}

func strSeed(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// N returns a value in [0,n).
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Between returns a value in [a,b].
func (r *Rng) Between(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability pct/100.
func (r *Rng) P(pct int) bool { return r.N(100) < pct }

func pick[T any](r *Rng, xs ...T) T { return xs[r.N(len(xs))] }

func pickW(r *Rng, weights []int) int {
	t := 0
	for _, w := range weights {
		t += w
	}
	x := r.N(t)
	for i, w := range weights {
		if x < w {
			return i
		}
		x -= w
	}
	return len(weights) - 1
}

func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	i := 0
	for i < n {
		x := r.U64()
		for k := 0; k < 8 && i < n; k++ {
			b[i] = byte(x)
			x >>= 8
			i++
		}
	}
	return b
}
