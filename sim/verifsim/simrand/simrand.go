//go:build go1.23

// Package simrand stands in for the randomly seeded functions of math/rand.
package simrand

import (
	"math/rand"

	"go.opencensus.io/verifsim/simrt"
)

type src struct{}

func (src) Int63() int64   { return int64(simrt.RandUint64() >> 1) }
func (src) Uint64() uint64 { return simrt.RandUint64() }
func (src) Seed(int64)     {}

func r() *rand.Rand { simrt.Y(); return rand.New(src{}) }

func Seed(int64)                         {}
func Int() int                           { return r().Int() }
func Intn(n int) int                     { return r().Intn(n) }
func Int31() int32                       { return r().Int31() }
func Int31n(n int32) int32               { return r().Int31n(n) }
func Int63() int64                       { return r().Int63() }
func Int63n(n int64) int64               { return r().Int63n(n) }
func Uint32() uint32                     { return r().Uint32() }
func Uint64() uint64                     { return r().Uint64() }
func Float32() float32                   { return r().Float32() }
func Float64() float64                   { return r().Float64() }
func NormFloat64() float64               { return r().NormFloat64() }
func ExpFloat64() float64                { return r().ExpFloat64() }
func Perm(n int) []int                   { return r().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { r().Shuffle(n, swap) }
func Read(p []byte) (int, error)         { return r().Read(p) }

// New is rand.New. A generator made with it is not safe for concurrent use;
// used by two tasks at once it gives both the same value, as it really may.
func New(s rand.Source) *rand.Rand { return rand.New(&shared{s: s}) }

type shared struct {
	s    rand.Source
	n    int
	last uint64
}

func (x *shared) Int63() int64 { return int64(x.Uint64() >> 1) }

func (x *shared) Uint64() uint64 {
	n := x.n
	simrt.Y()
	if x.n != n {
		return x.last
	}
	if s64, ok := x.s.(rand.Source64); ok {
		x.last = s64.Uint64()
	} else {
		x.last = uint64(x.s.Int63())>>31 | uint64(x.s.Int63())<<32
	}
	x.n++
	return x.last
}

func (x *shared) Seed(seed int64) { x.s.Seed(seed) }
