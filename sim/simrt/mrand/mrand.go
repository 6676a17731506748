// Package rand stands in for math/rand inside the adapter's packages during
// simulation: same API, values drawn from the simulation's seed. A Source is,
// as in math/rand, not safe for concurrent use: it reads its state, may lose
// the processor, and writes the state back, so two unsynchronised callers can
// draw the same value.
package rand

import (
	orig "math/rand"

	"verif.local/simrt"
)

type Source = orig.Source
type Source64 = orig.Source64
type Rand = orig.Rand
type Zipf = orig.Zipf

type source struct {
	pos    uint64
	base   uint64
	seeded bool // created during a run: the seed given counts
}

const yieldSite = 1<<32 - 1

func (s *source) Uint64() uint64 {
	pos := s.pos
	simrt.Y(yieldSite)
	if !s.seeded && simrt.Epoch() != s.base {
		s.base = simrt.Epoch()
		pos = 0
	}
	z := (pos+1)*0x9e3779b97f4a7c15 + s.base*0xd1342543de82ef95
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	s.pos = pos + 1
	return z ^ (z >> 31)
}
func (s *source) Int63() int64    { return int64(s.Uint64() >> 1) }
func (s *source) Seed(seed int64) { s.seeded, s.base, s.pos = simrt.Epoch() != 0, uint64(seed), 0 }

// NewSource: a source created before the run (a package-level variable, seeded
// from the wall clock) follows the run's seed; one created during the run
// follows the seed it is given, which comes from the simulated clock.
func NewSource(seed int64) Source {
	return &source{base: uint64(seed), seeded: simrt.Epoch() != 0}
}
func New(src Source) *Rand { return orig.New(src) }
func NewZipf(r *Rand, s float64, v float64, imax uint64) *Zipf {
	return orig.NewZipf(r, s, v, imax)
}

func shared() *Rand { return orig.New(locked{}) }

// locked is the top-level source: safe for concurrent use, as in math/rand.
type locked struct{}

var lockedSrc = &source{}

func (locked) Int63() int64    { return int64(locked{}.Uint64() >> 1) }
func (locked) Seed(seed int64) {}
func (locked) Uint64() uint64 {
	if simrt.Epoch() != lockedSrc.base {
		lockedSrc.base = simrt.Epoch()
		lockedSrc.pos = 1 << 40
	}
	lockedSrc.pos++
	z := lockedSrc.pos*0x9e3779b97f4a7c15 + lockedSrc.base*0xd1342543de82ef95
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func Seed(seed int64)                    {}
func Int63() int64                       { return shared().Int63() }
func Uint32() uint32                     { return shared().Uint32() }
func Uint64() uint64                     { return shared().Uint64() }
func Int31() int32                       { return shared().Int31() }
func Int() int                           { return shared().Int() }
func Int63n(n int64) int64               { return shared().Int63n(n) }
func Int31n(n int32) int32               { return shared().Int31n(n) }
func Intn(n int) int                     { return shared().Intn(n) }
func Float64() float64                   { return shared().Float64() }
func Float32() float32                   { return shared().Float32() }
func Perm(n int) []int                   { return shared().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { shared().Shuffle(n, swap) }
func Read(p []byte) (n int, err error)   { return shared().Read(p) }
func NormFloat64() float64               { return shared().NormFloat64() }
func ExpFloat64() float64                { return shared().ExpFloat64() }
