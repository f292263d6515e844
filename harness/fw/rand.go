package fw

// Rand is a small PRNG (splitmix64) so that a case is a function of its seed
// alone, independent of the Go release.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{s: seed} }

func Mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func HashStr(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return Mix(h)
}

func HashInts(h uint64, xs ...int) uint64 {
	for _, x := range xs {
		h = Mix(h ^ uint64(x)*0x100000001b3)
	}
	return h
}

func (r *Rand) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Intn returns a value in [0,n); 0 when n<=0.
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// Range returns a value in [a,b].
func (r *Rand) Range(a, b int) int {
	if b <= a {
		return a
	}
	return a + r.Intn(b-a+1)
}

func (r *Rand) Bool() bool { return r.Uint64()&1 == 1 }

// P is true with probability k/n.
func (r *Rand) P(k, n int) bool { return r.Intn(n) < k }

func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func (r *Rand) Pick(xs ...int) int { return xs[r.Intn(len(xs))] }

// Fork gives an independent generator.
func (r *Rand) Fork() *Rand { return NewRand(r.Uint64()) }

// Read implements io.Reader.
func (r *Rand) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(r.Uint64())
	}
	return len(b), nil
}
