package rt

// Stream is one source of decisions. In record mode a PRNG fills it; in replay
// mode a recorded prefix is used and everything after it is 0, the simplest
// alternative of every decision.
type Stream struct {
	Rec    []uint32
	pos    int
	replay bool
	state  uint64
}

func splitmix(x *uint64) uint64 {
	*x += 0x9E3779B97F4A7C15
	z := *x
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Mix derives a well-spread 64-bit value from its arguments.
func Mix(vs ...uint64) uint64 {
	var s uint64 = 0x5EED
	for _, v := range vs {
		s ^= v + 0x9E3779B97F4A7C15 + (s << 6) + (s >> 2)
		s = splitmix(&s)
	}
	return s
}

func NewStream(seed uint64) *Stream { return &Stream{state: seed} }
func ReplayStream(rec []uint32) *Stream {
	return &Stream{Rec: append([]uint32(nil), rec...), replay: true}
}

// Used returns the decisions actually drawn.
func (s *Stream) Used() []uint32 {
	if s.replay {
		if s.pos < len(s.Rec) {
			return s.Rec[:s.pos]
		}
		return s.Rec
	}
	return s.Rec
}

// N returns a decision in [0,n).
func (s *Stream) N(n int) int {
	if n <= 1 {
		return 0
	}
	if s.replay {
		v := 0
		if s.pos < len(s.Rec) {
			v = int(s.Rec[s.pos]) % n
		} else if over := s.pos - len(s.Rec); over > 1<<16 && over%16 == 15 {
			// Nothing may wait for ever for a choice that isn't the simplest.
			x := uint64(over)
			v = int(splitmix(&x) % uint64(n))
		}
		s.pos++
		return v
	}
	v := int(splitmix(&s.state) % uint64(n))
	s.Rec = append(s.Rec, uint32(v))
	return v
}

// P is true with probability p/1000; false is the simplest alternative.
func (s *Stream) P(p int) bool {
	if p <= 0 {
		return false
	}
	return s.N(1000) >= 1000-p
}

// Bool is a fair coin.
func (s *Stream) Bool() bool { return s.N(2) == 1 }

// W picks an index with the given weights.
func (s *Stream) W(weights ...int) int {
	t := 0
	for _, w := range weights {
		t += w
	}
	v := s.N(t)
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}

// R returns a value in [lo,hi].
func (s *Stream) R(lo, hi int) int { return lo + s.N(hi-lo+1) }
