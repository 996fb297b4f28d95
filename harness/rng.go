package main

// Rng is a splitmix64 generator: the harness depends on no generator whose
// output may change between Go releases.
type Rng struct{ s uint64 }

func NewRng(parts ...uint64) *Rng {
	s := uint64(0x243F6A8885A308D3)
	for _, p := range parts {
		s = mix(s ^ mix(p+0x9E3779B97F4A7C15))
	}
	return &Rng{s}
}

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func fnv64a(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h ^= uint64(c)
		h *= 1099511628211
	}
	return h
}

func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	return mix(r.s)
}

func (r *Rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a number in [lo, hi].
func (r *Rng) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }

func (r *Rng) Chance(num, den int) bool { return r.Intn(den) < num }

func (r *Rng) Pick(xs ...int) int { return xs[r.Intn(len(xs))] }

func (r *Rng) Fill(b []byte) {
	for len(b) >= 8 {
		x := r.U64()
		b[0], b[1], b[2], b[3] = byte(x), byte(x>>8), byte(x>>16), byte(x>>24)
		b[4], b[5], b[6], b[7] = byte(x>>32), byte(x>>40), byte(x>>48), byte(x>>56)
		b = b[8:]
	}
	if len(b) > 0 {
		x := r.U64()
		for i := range b {
			b[i] = byte(x)
			x >>= 8
		}
	}
}

func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	r.Fill(b)
	return b
}
