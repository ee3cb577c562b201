package simrt

// Rand is a small seeded generator (splitmix64). Every random decision of the
// simulator and of the workloads comes from one of these.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{s: seed ^ 0x6a09e667f3bcc909} }

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a number in [0,n).
func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a number in [lo,hi].
func (r *Rand) Range(lo, hi int) int { return lo + r.N(hi-lo+1) }

// P is true with probability num/den.
func (r *Rand) P(num, den int) bool { return r.N(den) < num }

func (r *Rand) Bool() bool { return r.U64()&1 == 1 }

// Fork derives an independent generator.
func (r *Rand) Fork() *Rand { return NewRand(r.U64()) }

func (r *Rand) Pick(ss []string) string { return ss[r.N(len(ss))] }

// Perm returns a permutation of [0,n).
func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Mix hashes b into h (FNV-1a, 64 bit).
func Mix(h uint64, s string) uint64 {
	if h == 0 {
		h = 14695981039346656037
	}
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// MixInt hashes an integer into h.
func MixInt(h uint64, v int64) uint64 {
	if h == 0 {
		h = 14695981039346656037
	}
	for i := 0; i < 8; i++ {
		h ^= uint64(byte(v >> (8 * i)))
		h *= 1099511628211
	}
	return h
}
