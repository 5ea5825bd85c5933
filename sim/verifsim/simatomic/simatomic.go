//go:build go1.23

// Package simatomic stands in for package sync/atomic: the real operations,
// each preceded by a scheduling point.
package simatomic

import (
	"sync/atomic"
	"unsafe"

	"go.opencensus.io/verifsim/simrt"
)

// The operations are called through variables: this package is compiled without
// race instrumentation, and would inline them past the race detector otherwise.
var (
	addInt32              = atomic.AddInt32
	addInt64              = atomic.AddInt64
	addUint32             = atomic.AddUint32
	addUint64             = atomic.AddUint64
	addUintptr            = atomic.AddUintptr
	compareAndSwapInt32   = atomic.CompareAndSwapInt32
	compareAndSwapInt64   = atomic.CompareAndSwapInt64
	compareAndSwapPointer = atomic.CompareAndSwapPointer
	compareAndSwapUint32  = atomic.CompareAndSwapUint32
	compareAndSwapUint64  = atomic.CompareAndSwapUint64
	compareAndSwapUintptr = atomic.CompareAndSwapUintptr
	loadInt32             = atomic.LoadInt32
	loadInt64             = atomic.LoadInt64
	loadPointer           = atomic.LoadPointer
	loadUint32            = atomic.LoadUint32
	loadUint64            = atomic.LoadUint64
	loadUintptr           = atomic.LoadUintptr
	storeInt32            = atomic.StoreInt32
	storeInt64            = atomic.StoreInt64
	storePointer          = atomic.StorePointer
	storeUint32           = atomic.StoreUint32
	storeUint64           = atomic.StoreUint64
	storeUintptr          = atomic.StoreUintptr
	swapInt32             = atomic.SwapInt32
	swapInt64             = atomic.SwapInt64
	swapPointer           = atomic.SwapPointer
	swapUint32            = atomic.SwapUint32
	swapUint64            = atomic.SwapUint64
	swapUintptr           = atomic.SwapUintptr
)

// Value is atomic.Value.
type Value struct{ v atomic.Value }

func (v *Value) Load() any                    { simrt.Y(); return v.v.Load() }
func (v *Value) Store(x any)                  { simrt.Y(); v.v.Store(x) }
func (v *Value) Swap(x any) any               { simrt.Y(); return v.v.Swap(x) }
func (v *Value) CompareAndSwap(o, n any) bool { simrt.Y(); return v.v.CompareAndSwap(o, n) }

func AddInt32(p *int32, d int32) int32  { simrt.Y(); return addInt32(p, d) }
func LoadInt32(p *int32) int32          { simrt.Y(); return loadInt32(p) }
func StoreInt32(p *int32, v int32)      { simrt.Y(); storeInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { simrt.Y(); return swapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	simrt.Y()
	return compareAndSwapInt32(p, o, n)
}
func AddInt64(p *int64, d int64) int64  { simrt.Y(); return addInt64(p, d) }
func LoadInt64(p *int64) int64          { simrt.Y(); return loadInt64(p) }
func StoreInt64(p *int64, v int64)      { simrt.Y(); storeInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { simrt.Y(); return swapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	simrt.Y()
	return compareAndSwapInt64(p, o, n)
}
func AddUint32(p *uint32, d uint32) uint32  { simrt.Y(); return addUint32(p, d) }
func LoadUint32(p *uint32) uint32           { simrt.Y(); return loadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { simrt.Y(); storeUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { simrt.Y(); return swapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	simrt.Y()
	return compareAndSwapUint32(p, o, n)
}
func AddUint64(p *uint64, d uint64) uint64  { simrt.Y(); return addUint64(p, d) }
func LoadUint64(p *uint64) uint64           { simrt.Y(); return loadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { simrt.Y(); storeUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { simrt.Y(); return swapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	simrt.Y()
	return compareAndSwapUint64(p, o, n)
}
func AddUintptr(p *uintptr, d uintptr) uintptr  { simrt.Y(); return addUintptr(p, d) }
func LoadUintptr(p *uintptr) uintptr            { simrt.Y(); return loadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { simrt.Y(); storeUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { simrt.Y(); return swapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	simrt.Y()
	return compareAndSwapUintptr(p, o, n)
}
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { simrt.Y(); return loadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { simrt.Y(); storePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	simrt.Y()
	return swapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	simrt.Y()
	return compareAndSwapPointer(p, o, n)
}

// Int32 is atomic.Int32.
type Int32 struct{ v atomic.Int32 }

func (v *Int32) Load() int32                    { simrt.Y(); return v.v.Load() }
func (v *Int32) Store(x int32)                  { simrt.Y(); v.v.Store(x) }
func (v *Int32) Swap(x int32) int32             { simrt.Y(); return v.v.Swap(x) }
func (v *Int32) Add(d int32) int32              { simrt.Y(); return v.v.Add(d) }
func (v *Int32) And(m int32) int32              { simrt.Y(); return v.v.And(m) }
func (v *Int32) Or(m int32) int32               { simrt.Y(); return v.v.Or(m) }
func (v *Int32) CompareAndSwap(o, n int32) bool { simrt.Y(); return v.v.CompareAndSwap(o, n) }

// Int64 is atomic.Int64.
type Int64 struct{ v atomic.Int64 }

func (v *Int64) Load() int64                    { simrt.Y(); return v.v.Load() }
func (v *Int64) Store(x int64)                  { simrt.Y(); v.v.Store(x) }
func (v *Int64) Swap(x int64) int64             { simrt.Y(); return v.v.Swap(x) }
func (v *Int64) Add(d int64) int64              { simrt.Y(); return v.v.Add(d) }
func (v *Int64) And(m int64) int64              { simrt.Y(); return v.v.And(m) }
func (v *Int64) Or(m int64) int64               { simrt.Y(); return v.v.Or(m) }
func (v *Int64) CompareAndSwap(o, n int64) bool { simrt.Y(); return v.v.CompareAndSwap(o, n) }

// Uint32 is atomic.Uint32.
type Uint32 struct{ v atomic.Uint32 }

func (v *Uint32) Load() uint32                    { simrt.Y(); return v.v.Load() }
func (v *Uint32) Store(x uint32)                  { simrt.Y(); v.v.Store(x) }
func (v *Uint32) Swap(x uint32) uint32            { simrt.Y(); return v.v.Swap(x) }
func (v *Uint32) Add(d uint32) uint32             { simrt.Y(); return v.v.Add(d) }
func (v *Uint32) And(m uint32) uint32             { simrt.Y(); return v.v.And(m) }
func (v *Uint32) Or(m uint32) uint32              { simrt.Y(); return v.v.Or(m) }
func (v *Uint32) CompareAndSwap(o, n uint32) bool { simrt.Y(); return v.v.CompareAndSwap(o, n) }

// Uint64 is atomic.Uint64.
type Uint64 struct{ v atomic.Uint64 }

func (v *Uint64) Load() uint64                    { simrt.Y(); return v.v.Load() }
func (v *Uint64) Store(x uint64)                  { simrt.Y(); v.v.Store(x) }
func (v *Uint64) Swap(x uint64) uint64            { simrt.Y(); return v.v.Swap(x) }
func (v *Uint64) Add(d uint64) uint64             { simrt.Y(); return v.v.Add(d) }
func (v *Uint64) And(m uint64) uint64             { simrt.Y(); return v.v.And(m) }
func (v *Uint64) Or(m uint64) uint64              { simrt.Y(); return v.v.Or(m) }
func (v *Uint64) CompareAndSwap(o, n uint64) bool { simrt.Y(); return v.v.CompareAndSwap(o, n) }

// Uintptr is atomic.Uintptr.
type Uintptr struct{ v atomic.Uintptr }

func (v *Uintptr) Load() uintptr                    { simrt.Y(); return v.v.Load() }
func (v *Uintptr) Store(x uintptr)                  { simrt.Y(); v.v.Store(x) }
func (v *Uintptr) Swap(x uintptr) uintptr           { simrt.Y(); return v.v.Swap(x) }
func (v *Uintptr) Add(d uintptr) uintptr            { simrt.Y(); return v.v.Add(d) }
func (v *Uintptr) And(m uintptr) uintptr            { simrt.Y(); return v.v.And(m) }
func (v *Uintptr) Or(m uintptr) uintptr             { simrt.Y(); return v.v.Or(m) }
func (v *Uintptr) CompareAndSwap(o, n uintptr) bool { simrt.Y(); return v.v.CompareAndSwap(o, n) }

// Bool is atomic.Bool.
type Bool struct{ v atomic.Bool }

func (v *Bool) Load() bool                    { simrt.Y(); return v.v.Load() }
func (v *Bool) Store(x bool)                  { simrt.Y(); v.v.Store(x) }
func (v *Bool) Swap(x bool) bool              { simrt.Y(); return v.v.Swap(x) }
func (v *Bool) CompareAndSwap(o, n bool) bool { simrt.Y(); return v.v.CompareAndSwap(o, n) }

// Pointer is atomic.Pointer.
type Pointer[T any] struct{ v atomic.Pointer[T] }

func (v *Pointer[T]) Load() *T                    { simrt.Y(); return v.v.Load() }
func (v *Pointer[T]) Store(x *T)                  { simrt.Y(); v.v.Store(x) }
func (v *Pointer[T]) Swap(x *T) *T                { simrt.Y(); return v.v.Swap(x) }
func (v *Pointer[T]) CompareAndSwap(o, n *T) bool { simrt.Y(); return v.v.CompareAndSwap(o, n) }
