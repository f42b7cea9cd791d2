// Package gen generates the sources, records and histories the simulator runs.
package gen

// Rand is a small deterministic generator (splitmix64).
type Rand struct{ s uint64 }

func New(seed uint64) *Rand { return &Rand{seed} }

// Derive returns an independent generator for stream n.
func Derive(seed, n uint64) *Rand {
	r := &Rand{seed ^ n*0xd1342543de82ef95}
	r.U64()
	r.s ^= n
	r.U64()
	return r
}

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N is uniform in [0, n).
func (r *Rand) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// P is true with probability pct per cent.
func (r *Rand) P(pct int) bool { return r.N(100) < pct }

func Pick[T any](r *Rand, l ...T) T { return l[r.N(len(l))] }

func Shuffle[T any](r *Rand, l []T) {
	for i := len(l) - 1; i > 0; i-- {
		j := r.N(i + 1)
		l[i], l[j] = l[j], l[i]
	}
}
