package sim

import "math/rand"

// splitmix is a small fast source; math/rand's seeding is slow and runs are short.
type splitmix struct{ x uint64 }

func (s *splitmix) Seed(v int64) { s.x = uint64(v) }
func (s *splitmix) Uint64() uint64 {
	s.x += 0x9e3779b97f4a7c15
	z := s.x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (s *splitmix) Int63() int64 { return int64(s.Uint64() >> 1) }

// NewRand is a PRNG seeded with v.
func NewRand(v int64) *rand.Rand { return rand.New(&splitmix{uint64(v)}) }
