// Package rand stands for math/rand: the top-level source is the simulated process's.
package rand

import (
	"encoding/binary"
	real "math/rand"
	"verifsim/rt"
)

type src struct{}

func (src) Uint64() uint64 {
	var b [8]byte
	rt.Entropy(b[:])
	return binary.BigEndian.Uint64(b[:])
}
func (s src) Int63() int64 { return int64(s.Uint64() >> 1) }
func (src) Seed(int64)     {}

// seeded holds the process's explicitly seeded top-level source, if any.
var seeded *real.Rand

var _ = rt.RegVar(&seeded)
var g = real.New(src{})

func top() *real.Rand {
	if seeded != nil {
		return seeded
	}
	return g
}

func Seed(s int64)                       { seeded = real.New(real.NewSource(s)) }
func Int63() int64                       { return top().Int63() }
func Uint32() uint32                     { return top().Uint32() }
func Uint64() uint64                     { return top().Uint64() }
func Int31() int32                       { return top().Int31() }
func Int() int                           { return top().Int() }
func Int63n(n int64) int64               { return top().Int63n(n) }
func Int31n(n int32) int32               { return top().Int31n(n) }
func Intn(n int) int                     { return top().Intn(n) }
func Float64() float64                   { return top().Float64() }
func Float32() float32                   { return top().Float32() }
func Perm(n int) []int                   { return top().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { top().Shuffle(n, swap) }
func Read(p []byte) (int, error)         { return top().Read(p) }
func NormFloat64() float64               { return top().NormFloat64() }
func ExpFloat64() float64                { return top().ExpFloat64() }
