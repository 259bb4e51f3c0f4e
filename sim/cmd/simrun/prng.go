package main

// Rng is the only source of randomness in the harness; everything derives from the run's seed.
type Rng struct{ s uint64 }

func NewRng(seed uint64, salt string) *Rng {
	h := seed*0x9e3779b97f4a7c15 + 0x1234567
	for i := 0; i < len(salt); i++ {
		h = (h ^ uint64(salt[i])) * 0x100000001b3
	}
	r := &Rng{h}
	r.U64()
	return r
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) Range(a, b int) int         { return a + r.N(b-a+1) }
func (r *Rng) F() float64                 { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rng) P(p float64) bool           { return r.F() < p }
func (r *Rng) FR(a, b float64) float64    { return a + (b-a)*r.F() }
func (r *Rng) Pick(s []string) string     { return s[r.N(len(s))] }
func (r *Rng) PickI(s ...int) int         { return s[r.N(len(s))] }
func (r *Rng) PickF(s ...float64) float64 { return s[r.N(len(s))] }
