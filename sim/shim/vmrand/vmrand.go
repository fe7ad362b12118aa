// Package vmrand stands in for math/rand's global source: an unseeded
// generator, the same in every process, as for programs of the language
// version the module declares.
package vmrand

import (
	"math/rand"
	r2 "math/rand/v2"
	"vsim/simrt"
)

func src() *r2.Rand {
	if g := simrt.Cur(); g != nil {
		return g.Proc.MRand
	}
	return r2.New(r2.NewPCG(1, 1))
}

func Seed(seed int64) {
	if g := simrt.Cur(); g != nil {
		g.Proc.MRand = r2.New(r2.NewPCG(uint64(seed), 1))
	}
}
func Int63() int64                       { return src().Int64() }
func Uint32() uint32                     { return src().Uint32() }
func Uint64() uint64                     { return src().Uint64() }
func Int31() int32                       { return src().Int32() }
func Int() int                           { return src().Int() }
func Int63n(n int64) int64               { return src().Int64N(n) }
func Int31n(n int32) int32               { return src().Int32N(n) }
func Intn(n int) int                     { return src().IntN(n) }
func Float64() float64                   { return src().Float64() }
func Float32() float32                   { return src().Float32() }
func NormFloat64() float64               { return src().NormFloat64() }
func ExpFloat64() float64                { return src().ExpFloat64() }
func Perm(n int) []int                   { return src().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { src().Shuffle(n, swap) }
func Read(p []byte) (int, error) {
	s := src()
	for i := range p {
		p[i] = byte(s.Uint32())
	}
	return len(p), nil
}

var _ = rand.New
