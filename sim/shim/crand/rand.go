// Package rand is the simulated counterpart of crypto/rand: bytes come from the
// run's seed, and reads can be made to fail.
package rand

import (
	"errors"
	"io"
	"math/big"
	mr "math/rand"

	"simverif/rt"
)

// ErrEntropy is the injected failure.
var ErrEntropy = errors.New("simulated: entropy source failed")

// FailProb is the probability that a read fails, set per run by the scenario.
const FailKey = "crypto/rand.fail"

// Reader is the entropy source.
var Reader io.Reader = reader{}

type reader struct{}

func src() *mr.Rand {
	if rt.S == nil {
		return mr.New(mr.NewSource(7))
	}
	if r, ok := rt.S.Local["crypto/rand"].(*mr.Rand); ok {
		return r
	}
	r := mr.New(mr.NewSource(int64(rt.Entropy()) + 1))
	rt.S.Local["crypto/rand"] = r
	return r
}

func (reader) Read(p []byte) (int, error) {
	if rt.S != nil {
		if pr, ok := rt.S.Local[FailKey].(float64); ok {
			if rt.Fault("entropy", pr, 1) > 0 {
				rt.Logf("crypto/rand read fails")
				n := src().Intn(4) // after a few bytes
				if n == 3 || n >= len(p) {
					n = src().Intn(len(p) + 1)
				}
				src().Read(p[:n])
				return n, ErrEntropy
			}
		}
	}
	if len(p) > 1 && src().Intn(8) == 0 {
		p = p[:1+src().Intn(len(p)-1)] // a reader may return less than asked for
	}
	return src().Read(p)
}

func Read(p []byte) (int, error) { return io.ReadFull(Reader, p) }

func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	return new(big.Int).Rand(src(), max), nil
}
