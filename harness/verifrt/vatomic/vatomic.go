// Package vatomic replaces sync/atomic in the build that replays a recorded schedule.
package vatomic

import (
	"sync/atomic"

	rt "github.com/coveooss/gotemplate/v3/verifrt"
)

// Value is atomic.Value.
type Value struct{ v atomic.Value }

// Load of atomic.Value.
func (x *Value) Load() interface{} { rt.SchedPoint(); return x.v.Load() }

// Store of atomic.Value.
func (x *Value) Store(v interface{}) { rt.SchedPoint(); x.v.Store(v) }

// Swap of atomic.Value.
func (x *Value) Swap(v interface{}) interface{} { rt.SchedPoint(); return x.v.Swap(v) }

// CompareAndSwap of atomic.Value.
func (x *Value) CompareAndSwap(o, n interface{}) bool {
	rt.SchedPoint()
	return x.v.CompareAndSwap(o, n)
}

// Pointer is atomic.Pointer.
type Pointer[T any] struct{ v atomic.Pointer[T] }

// Load of atomic.Pointer.
func (x *Pointer[T]) Load() *T { rt.SchedPoint(); return x.v.Load() }

// Store of atomic.Pointer.
func (x *Pointer[T]) Store(v *T) { rt.SchedPoint(); x.v.Store(v) }

// Swap of atomic.Pointer.
func (x *Pointer[T]) Swap(v *T) *T { rt.SchedPoint(); return x.v.Swap(v) }

// CompareAndSwap of atomic.Pointer.
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { rt.SchedPoint(); return x.v.CompareAndSwap(o, n) }

// Bool is atomic.Bool.
type Bool struct{ v atomic.Bool }

// Load of atomic.Bool.
func (x *Bool) Load() bool { rt.SchedPoint(); return x.v.Load() }

// Store of atomic.Bool.
func (x *Bool) Store(v bool) { rt.SchedPoint(); x.v.Store(v) }

// Swap of atomic.Bool.
func (x *Bool) Swap(v bool) bool { rt.SchedPoint(); return x.v.Swap(v) }

// CompareAndSwap of atomic.Bool.
func (x *Bool) CompareAndSwap(o, n bool) bool { rt.SchedPoint(); return x.v.CompareAndSwap(o, n) }

// Int32 is atomic.Int32.
type Int32 struct{ v atomic.Int32 }

// Load of atomic.Int32.
func (x *Int32) Load() int32 { rt.SchedPoint(); return x.v.Load() }

// Store of atomic.Int32.
func (x *Int32) Store(v int32) { rt.SchedPoint(); x.v.Store(v) }

// Add of atomic.Int32.
func (x *Int32) Add(v int32) int32 { rt.SchedPoint(); return x.v.Add(v) }

// Swap of atomic.Int32.
func (x *Int32) Swap(v int32) int32 { rt.SchedPoint(); return x.v.Swap(v) }

// CompareAndSwap of atomic.Int32.
func (x *Int32) CompareAndSwap(o, n int32) bool { rt.SchedPoint(); return x.v.CompareAndSwap(o, n) }

// LoadInt32 is atomic.LoadInt32.
func LoadInt32(p *int32) int32 { rt.SchedPoint(); return atomic.LoadInt32(p) }

// StoreInt32 is atomic.StoreInt32.
func StoreInt32(p *int32, v int32) { rt.SchedPoint(); atomic.StoreInt32(p, v) }

// AddInt32 is atomic.AddInt32.
func AddInt32(p *int32, v int32) int32 { rt.SchedPoint(); return atomic.AddInt32(p, v) }

// SwapInt32 is atomic.SwapInt32.
func SwapInt32(p *int32, v int32) int32 { rt.SchedPoint(); return atomic.SwapInt32(p, v) }

// CompareAndSwapInt32 is atomic.CompareAndSwapInt32.
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	rt.SchedPoint()
	return atomic.CompareAndSwapInt32(p, o, n)
}

// Int64 is atomic.Int64.
type Int64 struct{ v atomic.Int64 }

// Load of atomic.Int64.
func (x *Int64) Load() int64 { rt.SchedPoint(); return x.v.Load() }

// Store of atomic.Int64.
func (x *Int64) Store(v int64) { rt.SchedPoint(); x.v.Store(v) }

// Add of atomic.Int64.
func (x *Int64) Add(v int64) int64 { rt.SchedPoint(); return x.v.Add(v) }

// Swap of atomic.Int64.
func (x *Int64) Swap(v int64) int64 { rt.SchedPoint(); return x.v.Swap(v) }

// CompareAndSwap of atomic.Int64.
func (x *Int64) CompareAndSwap(o, n int64) bool { rt.SchedPoint(); return x.v.CompareAndSwap(o, n) }

// LoadInt64 is atomic.LoadInt64.
func LoadInt64(p *int64) int64 { rt.SchedPoint(); return atomic.LoadInt64(p) }

// StoreInt64 is atomic.StoreInt64.
func StoreInt64(p *int64, v int64) { rt.SchedPoint(); atomic.StoreInt64(p, v) }

// AddInt64 is atomic.AddInt64.
func AddInt64(p *int64, v int64) int64 { rt.SchedPoint(); return atomic.AddInt64(p, v) }

// SwapInt64 is atomic.SwapInt64.
func SwapInt64(p *int64, v int64) int64 { rt.SchedPoint(); return atomic.SwapInt64(p, v) }

// CompareAndSwapInt64 is atomic.CompareAndSwapInt64.
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	rt.SchedPoint()
	return atomic.CompareAndSwapInt64(p, o, n)
}

// Uint32 is atomic.Uint32.
type Uint32 struct{ v atomic.Uint32 }

// Load of atomic.Uint32.
func (x *Uint32) Load() uint32 { rt.SchedPoint(); return x.v.Load() }

// Store of atomic.Uint32.
func (x *Uint32) Store(v uint32) { rt.SchedPoint(); x.v.Store(v) }

// Add of atomic.Uint32.
func (x *Uint32) Add(v uint32) uint32 { rt.SchedPoint(); return x.v.Add(v) }

// Swap of atomic.Uint32.
func (x *Uint32) Swap(v uint32) uint32 { rt.SchedPoint(); return x.v.Swap(v) }

// CompareAndSwap of atomic.Uint32.
func (x *Uint32) CompareAndSwap(o, n uint32) bool { rt.SchedPoint(); return x.v.CompareAndSwap(o, n) }

// LoadUint32 is atomic.LoadUint32.
func LoadUint32(p *uint32) uint32 { rt.SchedPoint(); return atomic.LoadUint32(p) }

// StoreUint32 is atomic.StoreUint32.
func StoreUint32(p *uint32, v uint32) { rt.SchedPoint(); atomic.StoreUint32(p, v) }

// AddUint32 is atomic.AddUint32.
func AddUint32(p *uint32, v uint32) uint32 { rt.SchedPoint(); return atomic.AddUint32(p, v) }

// SwapUint32 is atomic.SwapUint32.
func SwapUint32(p *uint32, v uint32) uint32 { rt.SchedPoint(); return atomic.SwapUint32(p, v) }

// CompareAndSwapUint32 is atomic.CompareAndSwapUint32.
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	rt.SchedPoint()
	return atomic.CompareAndSwapUint32(p, o, n)
}

// Uint64 is atomic.Uint64.
type Uint64 struct{ v atomic.Uint64 }

// Load of atomic.Uint64.
func (x *Uint64) Load() uint64 { rt.SchedPoint(); return x.v.Load() }

// Store of atomic.Uint64.
func (x *Uint64) Store(v uint64) { rt.SchedPoint(); x.v.Store(v) }

// Add of atomic.Uint64.
func (x *Uint64) Add(v uint64) uint64 { rt.SchedPoint(); return x.v.Add(v) }

// Swap of atomic.Uint64.
func (x *Uint64) Swap(v uint64) uint64 { rt.SchedPoint(); return x.v.Swap(v) }

// CompareAndSwap of atomic.Uint64.
func (x *Uint64) CompareAndSwap(o, n uint64) bool { rt.SchedPoint(); return x.v.CompareAndSwap(o, n) }

// LoadUint64 is atomic.LoadUint64.
func LoadUint64(p *uint64) uint64 { rt.SchedPoint(); return atomic.LoadUint64(p) }

// StoreUint64 is atomic.StoreUint64.
func StoreUint64(p *uint64, v uint64) { rt.SchedPoint(); atomic.StoreUint64(p, v) }

// AddUint64 is atomic.AddUint64.
func AddUint64(p *uint64, v uint64) uint64 { rt.SchedPoint(); return atomic.AddUint64(p, v) }

// SwapUint64 is atomic.SwapUint64.
func SwapUint64(p *uint64, v uint64) uint64 { rt.SchedPoint(); return atomic.SwapUint64(p, v) }

// CompareAndSwapUint64 is atomic.CompareAndSwapUint64.
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	rt.SchedPoint()
	return atomic.CompareAndSwapUint64(p, o, n)
}
