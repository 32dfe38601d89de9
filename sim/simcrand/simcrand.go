// Package simcrand replaces crypto/rand by the run's PRNG.
package simcrand

import (
	"io"
	"math/big"
	sim "verifsim"
)

type reader struct{}

func (reader) Read(p []byte) (int, error) {
	if sim.S == nil {
		for i := range p {
			p[i] = byte(i * 7)
		}
		return len(p), nil
	}
	return sim.S.App.Read(p)
}

var Reader io.Reader = reader{}

func Read(p []byte) (int, error) { return Reader.Read(p) }

func Int(_ io.Reader, max *big.Int) (*big.Int, error) {
	b := make([]byte, len(max.Bytes())+8)
	Reader.Read(b)
	n := new(big.Int).SetBytes(b)
	return n.Mod(n, max), nil
}
