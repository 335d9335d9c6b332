//go:build go1.21

// Package rand replaces crypto/rand inside a simulation: the package-level generator is driven by the seed of the run.
package rand

import (
	"io"
	"math/big"

	real "crypto/rand"

	"github.com/hired/gevulot/zzsim/simrt"
)

type reader struct{}

func (reader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(simrt.AppRand())
	}
	return len(p), nil
}

// Reader is driven by the seed of the run.
var Reader io.Reader = reader{}

func Read(p []byte) (int, error) { return Reader.Read(p) }

func Int(r io.Reader, max *big.Int) (*big.Int, error) { return real.Int(r, max) }
