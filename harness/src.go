package main

// Choice source: every generator draws from a Src.  The draws are recorded, so
// that a failing case can be replayed and shrunk by editing the recorded
// sequence (delete, zero, lower) and generating again, as Hypothesis does.

type Src struct {
	state  uint64
	replay []uint64
	isRep  bool
	pos    int
	rec    []uint64
}

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func seedOf(parts ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, p := range parts {
		h = mix(h ^ mix(p))
	}
	return h
}

func strSeed(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func NewSrc(seed uint64) *Src         { return &Src{state: seed} }
func ReplaySrc(choices []uint64) *Src { return &Src{replay: choices, isRep: true} }

// N returns a value in [0,n); 0 is meant to be the simplest choice.
func (s *Src) N(n int) int { return int(s.U(uint64(n))) }

func (s *Src) U(n uint64) uint64 {
	if n == 0 {
		panic("U(0)")
	}
	var v uint64
	if s.isRep {
		if s.pos < len(s.replay) {
			v = s.replay[s.pos]
		}
		s.pos++
		v %= n
	} else {
		s.state += 0x9e3779b97f4a7c15
		v = mix(s.state) % n
	}
	s.rec = append(s.rec, v)
	return v
}

func (s *Src) U64() uint64 {
	// two draws, so that small values remain reachable when shrinking
	hi := s.U(1 << 32)
	lo := s.U(1 << 32)
	return hi<<32 | lo
}

func (s *Src) Bool() bool { return s.N(2) == 1 }

// P is true with probability num/den; false is the simple choice.
func (s *Src) P(num, den int) bool { return s.N(den) >= den-num }

// Range returns a value in [lo,hi].
func (s *Src) Range(lo, hi int) int { return lo + s.N(hi-lo+1) }

// Weighted picks an index with the given weights.
func (s *Src) Weighted(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := s.N(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}

func pick[T any](s *Src, xs []T) T { return xs[s.N(len(xs))] }

// shuffle permutes xs; all-zero choices keep the order.
func shuffle[T any](s *Src, xs []T) {
	for i := 0; i+1 < len(xs); i++ {
		j := i + s.N(len(xs)-i)
		xs[i], xs[j] = xs[j], xs[i]
	}
}

// Word draws a 64-bit value, biased to interesting ones.
func (s *Src) Word() int64 {
	switch s.Weighted(6, 4, 3, 3, 3) {
	case 0:
		return int64(s.N(12))
	case 1:
		return int64(s.N(400)) - 200
	case 2: // around powers of two
		k := uint(s.N(64))
		d := int64(s.N(3)) - 1
		v := int64(uint64(1)<<k) + d
		if s.Bool() {
			v = -v
		}
		return v
	case 3:
		return pick(s, []int64{-1, 1<<63 - 1, -1 << 63, 1<<62 + 5, -(1 << 62), 0x0102030405060708, 255, 256, 1<<31 - 1, 1 << 31, -(1 << 31), 1<<32 - 1, 1 << 32})
	default:
		return int64(s.U64())
	}
}
