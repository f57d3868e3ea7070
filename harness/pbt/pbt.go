// Package pbt is a small property-based testing engine: every random choice a
// generator makes is drawn from a Src and recorded on a tape; a failing tape is
// shrunk by deleting and minimising choices and is itself the replay.
package pbt

import "time"

// Src is a source of choices: random while generating, the tape while replaying.
type Src struct {
	tape   []uint64 // choices to replay
	pos    int
	replay bool
	rng    uint64
	Rec    []uint64 // choices actually made
	Over   bool     // more than maxDraws choices were requested
	noRec  bool
	// Sink, if not nil, receives the number of choices and the choices as
	// they are made.
	Sink []uint64
}

const maxDraws = 200_000

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Hash combines words into a seed.
func Hash(xs ...uint64) uint64 {
	h := uint64(0x1234567)
	for _, x := range xs {
		h = mix(h ^ x)
	}
	return h
}

// HashBytes hashes a string.
func HashBytes(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return mix(h)
}

func New(seed uint64) *Src { return &Src{rng: seed} }

// Sub returns a source seeded by one choice; its own choices aren't recorded.
// It is for what has so many choices that they couldn't be shrunk one by one.
func (s *Src) Sub() *Src { return &Src{rng: Hash(s.U64n(1 << 32)), noRec: true} }

func Replay(tape []uint64) *Src    { return &Src{tape: tape, replay: true} }
func (s *Src) next() uint64        { s.rng += 0x9e3779b97f4a7c15; return mix(s.rng) }
func (s *Src) Intn(n int) int      { return int(s.U64n(uint64(n))) }
func (s *Src) P(permille int) bool { return permille > 0 && s.U64n(1000) >= uint64(1000-permille) }
func (s *Src) Range(lo, hi int) int {
	return lo + s.Intn(hi-lo+1)
}

// U64n returns a value in [0,n). 0 is the simplest choice.
func (s *Src) U64n(n uint64) uint64 {
	if n == 0 {
		n = 1
	}
	var v uint64
	if s.replay {
		if s.pos < len(s.tape) {
			v = s.tape[s.pos]
			s.pos++
		}
		if v >= n {
			v %= n
		}
	} else {
		v = s.next() % n
	}
	if s.noRec {
		return v
	}
	if len(s.Rec) < maxDraws {
		s.Rec = append(s.Rec, v)
		if n := len(s.Rec); n < len(s.Sink) {
			s.Sink[n] = v
			s.Sink[0] = uint64(n)
		}
	} else {
		s.Over = true
		return 0
	}
	return v
}

// U64 returns any 64-bit value.
func (s *Src) U64() uint64 {
	return s.U64n(1<<32)<<32 | s.U64n(1<<32)
}

// W returns an index chosen with the given weights; index 0 is the simplest.
func (s *Src) W(ws ...int) int {
	t := 0
	for _, w := range ws {
		t += w
	}
	v := s.Intn(t)
	for i, w := range ws {
		if v < w {
			return i
		}
		v -= w
	}
	return len(ws) - 1
}

// Pick picks an element.
func Pick[T any](s *Src, xs []T) T { return xs[s.Intn(len(xs))] }

// Shrink minimises a failing tape. fails must be deterministic in the tape; it
// returns the normalised tape of the run.
func Shrink(tape []uint64, fails func([]uint64) (bool, []uint64), maxRuns int, budget time.Duration) ([]uint64, int) {
	deadline := time.Now().Add(budget)
	runs := 0
	best := append([]uint64(nil), tape...)
	try := func(c []uint64) bool {
		if runs >= maxRuns || time.Now().After(deadline) {
			return false
		}
		runs++
		ok, rec := fails(c)
		if !ok {
			return false
		}
		if len(rec) < len(c) {
			c = rec
		}
		if less(c, best) {
			best = append([]uint64(nil), c...)
			return true
		}
		return false
	}
	for pass := 0; pass < 20; pass++ {
		improved := false
		for size := len(best); size >= 1; size /= 2 {
			if size > 4096 {
				continue
			}
			for i := len(best) - size; i >= 0; {
				c := append(append([]uint64(nil), best[:i]...), best[i+size:]...)
				if try(c) {
					improved = true
					if i > len(best)-size {
						i = len(best) - size
					}
				} else {
					i -= max(size/2, 1)
				}
				if runs >= maxRuns {
					return best, runs
				}
			}
		}
		for size := 16; size >= 1; size /= 4 {
			for i := 0; i+size <= len(best); i += size {
				zero := true
				c := append([]uint64(nil), best...)
				for k := i; k < i+size; k++ {
					if c[k] != 0 {
						zero = false
						c[k] = 0
					}
				}
				if !zero && try(c) {
					improved = true
				}
			}
		}
		for i := 0; i < len(best); i++ {
			for best[i] > 0 {
				ok := false
				for _, v := range []uint64{best[i] / 2, best[i] - 1} {
					if i >= len(best) || v >= best[i] {
						continue
					}
					c := append([]uint64(nil), best...)
					c[i] = v
					if try(c) {
						ok, improved = true, true
						break
					}
				}
				if !ok || i >= len(best) {
					break
				}
			}
		}
		if !improved || runs >= maxRuns || time.Now().After(deadline) {
			break
		}
	}
	return best, runs
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func less(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// If returns a if c is true and b otherwise.
func If[T any](c bool, a, b T) T {
	if c {
		return a
	}
	return b
}
