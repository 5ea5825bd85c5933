//go:build go1.23

// Package simruntime stands in for the parts of package runtime that report
// on the process: a simulated heap whose every field is a known function of
// the number of times it was sampled.
package simruntime

import (
	"reflect"
	"runtime"

	"go.opencensus.io/verifsim/simrt"
)

// Samples counts ReadMemStats calls of the current run.
var Samples, Goroutines, CgoCalls uint64

// Irregular, if not 0, makes the numbers go up and down, be zero, equal or huge.
var Irregular uint64

// Reset starts a run.
func Reset() { Samples, Goroutines, CgoCalls, Irregular = 0, 0, 0, 0 }

// Field is the value of the i-th numeric field in sample n.
func Field(i int, n uint64) uint64 {
	if Irregular != 0 {
		return irregular(uint64(i)<<32 + n)
	}
	return n*1000 + uint64(i)
}

func irregular(x uint64) uint64 {
	x += Irregular * 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	x ^= x >> 31
	switch v := x >> 8; x % 8 {
	case 0:
		return 0
	case 1:
		return v % 3
	case 2, 3:
		return 1<<31 + v%(1<<31)
	default:
		return v % 1000000
	}
}

// NumGoroutines and NumCgoCalls are the numbers there are in sample n.
func NumGoroutines(n uint64) int64 {
	if Irregular != 0 {
		return int64(irregular(1<<60+n)%5 + 1)
	}
	return int64(n*100 + 7)
}

func NumCgoCalls(n uint64) int64 {
	if Irregular != 0 {
		return int64(irregular(2<<60 + n))
	}
	return int64(n*100 + 3)
}

// ReadMemStats fills every integer field with Field(index, sample).
func ReadMemStats(m *runtime.MemStats) {
	simrt.Y()
	Samples++
	fill(m, Samples)
	simrt.Y()
}

func fill(m *runtime.MemStats, n uint64) {
	v := reflect.ValueOf(m).Elem()
	for i := 0; i < v.NumField(); i++ {
		switch f := v.Field(i); f.Kind() {
		case reflect.Uint64, reflect.Uint32:
			x := Field(i, n)
			if name := v.Type().Field(i).Name; name == "LastGC" || name == "PauseTotalNs" {
				x = x*1_000_000 + 999_999 // it is reported in milliseconds
			}
			f.SetUint(x)
		case reflect.Float64:
			f.SetFloat(float64(Field(i, n)) + 0.5)
		}
	}
}

func NumGoroutine() int { simrt.Y(); Goroutines++; return int(NumGoroutines(Goroutines)) }
func NumCgoCall() int64 { simrt.Y(); CgoCalls++; return NumCgoCalls(CgoCalls) }
func Gosched()          { simrt.Y() }

// FieldIndex is the index of a field of runtime.MemStats.
func FieldIndex(name string) int {
	f, ok := reflect.TypeOf(runtime.MemStats{}).FieldByName(name)
	if !ok {
		panic("no field " + name)
	}
	return f.Index[0]
}
