package main

import "math"

// A Tape is the only source of decisions of a run. When generating it draws
// from a PRNG seeded with the run's seed and records every decision; when
// replaying (or minimising) it returns recorded decisions and, once these
// are exhausted, zero, which every generator maps to its simplest choice.
// Decisions of concurrent simulated tasks come from child tapes, so that a
// task never touches another task's tape.
type Tape struct {
	seed   uint64
	state  uint64
	rec    []uint64
	rep    []uint64
	replay bool
	pos    int
	kids   []*Tape
	kidRep [][]uint64
	sink   func(kid int, v uint64) // crash-safe recorder, if any
	kid    int
	small  bool // generators keep cases small
	huge   bool // values beyond a MiB are allowed
}

const maxDraws = 300000

type tapeTooLong struct{}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func newTape(seed uint64) *Tape { return &Tape{seed: seed, state: mix(seed)} }

func replayTape(seed uint64, tapes [][]uint64) *Tape {
	t := &Tape{seed: seed, replay: true}
	if len(tapes) > 0 {
		t.rep = tapes[0]
		t.kidRep = tapes[1:]
	}
	return t
}

// Recorded returns the decisions made on the tape and its children.
func (t *Tape) Recorded() [][]uint64 {
	out := [][]uint64{append([]uint64(nil), t.rec...)}
	for _, k := range t.kids {
		out = append(out, append([]uint64(nil), k.rec...))
	}
	return out
}

// Child makes the next child tape.
func (t *Tape) Child() *Tape {
	i := len(t.kids)
	k := newTape(t.seed ^ mix(uint64(i)+0x1234567))
	k.kid = i + 1
	k.sink = t.sink
	if t.replay {
		k.replay = true
		if i < len(t.kidRep) {
			k.rep = t.kidRep[i]
		}
	}
	t.kids = append(t.kids, k)
	return k
}

func (t *Tape) next() uint64 {
	t.state += 0x9e3779b97f4a7c15
	x := t.state
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// U64 draws a value below n (n > 0).
func (t *Tape) U64(n uint64) uint64 {
	if t.pos >= maxDraws {
		panic(tapeTooLong{})
	}
	var v uint64
	if t.replay {
		if t.pos < len(t.rep) {
			v = t.rep[t.pos] % n
		}
	} else {
		v = t.next() % n
	}
	t.pos++
	t.rec = append(t.rec, v)
	if t.sink != nil {
		t.sink(t.kid, v)
	}
	return v
}

// N draws from [0,n).
func (t *Tape) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(t.U64(uint64(n)))
}

// Range draws from [lo,hi].
func (t *Tape) Range(lo, hi int) int { return lo + t.N(hi-lo+1) }

// P is true with a probability of permille/1000; false is the simple choice.
func (t *Tape) P(permille int) bool { return t.N(1000) >= 1000-permille }

// Pick draws an index with the given weights; 0 is the simple choice.
func (t *Tape) Pick(weights ...int) int {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	v := t.N(sum)
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}

// Skew draws from [0,max] with small values more likely.
func (t *Tape) Skew(max int) int {
	bits := 0
	for int64(1)<<bits <= int64(max) {
		bits++
	}
	k := t.N(bits + 1)
	m := int64(1) << k
	if m > int64(max)+1 {
		m = int64(max) + 1
	}
	if m > math.MaxInt {
		m = math.MaxInt
	}
	return t.N(int(m))
}

// Hist draws the length of a history: lo to lo+n-1 calls, now and then ten
// times or a hundred times as many.
func (t *Tape) Hist(lo, n int) int {
	switch t.Pick(960, 36, 4) {
	case 1:
		return lo + t.N(10*n)
	case 2:
		return lo + t.N(100*n)
	}
	return lo + t.N(n)
}

// Sub returns a PRNG for bulk content or transfer sizes, seeded with a
// single decision.
func (t *Tape) Sub() *Rng { return &Rng{mix(t.U64(1 << 32))} }

type Rng struct{ s uint64 }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		v := r.U64()
		for j := i; j < n && j < i+8; j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
	return b
}

// D is a source of decisions: a tape, or a PRNG seeded from one.
type D interface {
	N(n int) int
	P(permille int) bool
	Pick(weights ...int) int
	Skew(max int) int
}

func (r *Rng) P(permille int) bool { return r.N(1000) >= 1000-permille }
func (r *Rng) Pick(weights ...int) int {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	v := r.N(sum)
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}
func (r *Rng) Skew(max int) int {
	bits := 0
	for int64(1)<<bits <= int64(max) {
		bits++
	}
	m := 1 << r.N(bits+1)
	if m > max+1 {
		m = max + 1
	}
	return r.N(m)
}
