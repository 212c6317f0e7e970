// Package rand is the simulated counterpart of math/rand: the global source is
// part of the run's plan; private sources are the real ones, seeded by the code.
package rand

import (
	real "math/rand"

	"simverif/rt"
)

func g() *real.Rand {
	if rt.S == nil {
		return real.New(real.NewSource(1))
	}
	if r, ok := rt.S.Local["math/rand"].(*real.Rand); ok {
		return r
	}
	r := real.New(real.NewSource(int64(rt.Entropy())))
	rt.S.Local["math/rand"] = r
	return r
}

func Seed(int64)                         {}
func Int() int                           { return g().Int() }
func Intn(n int) int                     { return g().Intn(n) }
func Int31() int32                       { return g().Int31() }
func Int31n(n int32) int32               { return g().Int31n(n) }
func Int63() int64                       { return g().Int63() }
func Int63n(n int64) int64               { return g().Int63n(n) }
func Uint32() uint32                     { return g().Uint32() }
func Uint64() uint64                     { return g().Uint64() }
func Float32() float32                   { return g().Float32() }
func Float64() float64                   { return g().Float64() }
func NormFloat64() float64               { return g().NormFloat64() }
func ExpFloat64() float64                { return g().ExpFloat64() }
func Perm(n int) []int                   { return g().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g().Shuffle(n, swap) }
func Read(p []byte) (int, error)         { return g().Read(p) }
