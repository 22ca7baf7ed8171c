package main

// splitmix64: the only source of randomness.
type rng struct{ s uint64 }

func newRng(parts ...uint64) *rng {
	r := &rng{0x6a09e667f3bcc908}
	for _, p := range parts {
		r.s ^= p
		r.u64()
		r.s = r.s*0x9e3779b97f4a7c15 + p
		r.u64()
	}
	return r
}

func (r *rng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *rng) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.u64() % uint64(n))
}
func (r *rng) in(a, b int) int    { return a + r.n(b-a+1) } // inclusive
func (r *rng) p(percent int) bool { return r.n(100) < percent }
func (r *rng) fork(x uint64) *rng { return newRng(r.u64(), x) }
func pick[T any](r *rng, a []T) T { return a[r.n(len(a))] }

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	return h ^ (h >> 33)
}
