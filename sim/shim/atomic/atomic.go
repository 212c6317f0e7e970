// Package atomic is the simulated counterpart of sync/atomic: the real operations behind scheduling points.
package atomic

import (
	real "sync/atomic"
	"unsafe"

	"simverif/rt"
)

func AddInt32(p *int32, d int32) int32 { rt.SyncAtomic(unsafe.Pointer(p)); return real.AddInt32(p, d) }
func LoadInt32(p *int32) int32         { rt.SyncAtomic(unsafe.Pointer(p)); return real.LoadInt32(p) }
func StoreInt32(p *int32, v int32)     { rt.SyncAtomic(unsafe.Pointer(p)); real.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 {
	rt.SyncAtomic(unsafe.Pointer(p))
	return real.SwapInt32(p, v)
}
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	rt.SyncAtomic(unsafe.Pointer(p))
	return real.CompareAndSwapInt32(p, o, n)
}

type Int32 struct{ v real.Int32 }

func (x *Int32) Load() int32        { rt.SyncAtomic(unsafe.Pointer(x)); return x.v.Load() }
func (x *Int32) Store(v int32)      { rt.SyncAtomic(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32 { rt.SyncAtomic(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Int32) Add(v int32) int32  { rt.SyncAtomic(unsafe.Pointer(x)); return x.v.Add(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	rt.SyncAtomic(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}

func AddInt64(p *int64, d int64) int64 { rt.SyncAtomic(unsafe.Pointer(p)); return real.AddInt64(p, d) }
func LoadInt64(p *int64) int64         { rt.SyncAtomic(unsafe.Pointer(p)); return real.LoadInt64(p) }
func StoreInt64(p *int64, v int64)     { rt.SyncAtomic(unsafe.Pointer(p)); real.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 {
	rt.SyncAtomic(unsafe.Pointer(p))
	return real.SwapInt64(p, v)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	rt.SyncAtomic(unsafe.Pointer(p))
	return real.CompareAndSwapInt64(p, o, n)
}

type Int64 struct{ v real.Int64 }

func (x *Int64) Load() int64        { rt.SyncAtomic(unsafe.Pointer(x)); return x.v.Load() }
func (x *Int64) Store(v int64)      { rt.SyncAtomic(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64 { rt.SyncAtomic(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Int64) Add(v int64) int64  { rt.SyncAtomic(unsafe.Pointer(x)); return x.v.Add(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	rt.SyncAtomic(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}

func AddUint32(p *uint32, d uint32) uint32 {
	rt.SyncAtomic(unsafe.Pointer(p))
	return real.AddUint32(p, d)
}
func LoadUint32(p *uint32) uint32     { rt.SyncAtomic(unsafe.Pointer(p)); return real.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32) { rt.SyncAtomic(unsafe.Pointer(p)); real.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 {
	rt.SyncAtomic(unsafe.Pointer(p))
	return real.SwapUint32(p, v)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	rt.SyncAtomic(unsafe.Pointer(p))
	return real.CompareAndSwapUint32(p, o, n)
}

type Uint32 struct{ v real.Uint32 }

func (x *Uint32) Load() uint32         { rt.SyncAtomic(unsafe.Pointer(x)); return x.v.Load() }
func (x *Uint32) Store(v uint32)       { rt.SyncAtomic(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32 { rt.SyncAtomic(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Uint32) Add(v uint32) uint32  { rt.SyncAtomic(unsafe.Pointer(x)); return x.v.Add(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	rt.SyncAtomic(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}

func AddUint64(p *uint64, d uint64) uint64 {
	rt.SyncAtomic(unsafe.Pointer(p))
	return real.AddUint64(p, d)
}
func LoadUint64(p *uint64) uint64     { rt.SyncAtomic(unsafe.Pointer(p)); return real.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64) { rt.SyncAtomic(unsafe.Pointer(p)); real.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 {
	rt.SyncAtomic(unsafe.Pointer(p))
	return real.SwapUint64(p, v)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	rt.SyncAtomic(unsafe.Pointer(p))
	return real.CompareAndSwapUint64(p, o, n)
}

type Uint64 struct{ v real.Uint64 }

func (x *Uint64) Load() uint64         { rt.SyncAtomic(unsafe.Pointer(x)); return x.v.Load() }
func (x *Uint64) Store(v uint64)       { rt.SyncAtomic(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64 { rt.SyncAtomic(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Uint64) Add(v uint64) uint64  { rt.SyncAtomic(unsafe.Pointer(x)); return x.v.Add(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	rt.SyncAtomic(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}

func AddUintptr(p *uintptr, d uintptr) uintptr {
	rt.SyncAtomic(unsafe.Pointer(p))
	return real.AddUintptr(p, d)
}
func LoadUintptr(p *uintptr) uintptr     { rt.SyncAtomic(unsafe.Pointer(p)); return real.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr) { rt.SyncAtomic(unsafe.Pointer(p)); real.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	rt.SyncAtomic(unsafe.Pointer(p))
	return real.SwapUintptr(p, v)
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	rt.SyncAtomic(unsafe.Pointer(p))
	return real.CompareAndSwapUintptr(p, o, n)
}

type Uintptr struct{ v real.Uintptr }

func (x *Uintptr) Load() uintptr          { rt.SyncAtomic(unsafe.Pointer(x)); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)        { rt.SyncAtomic(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr { rt.SyncAtomic(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Uintptr) Add(v uintptr) uintptr  { rt.SyncAtomic(unsafe.Pointer(x)); return x.v.Add(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	rt.SyncAtomic(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}

type Bool struct{ v real.Bool }

func (x *Bool) Load() bool       { rt.SyncAtomic(unsafe.Pointer(x)); return x.v.Load() }
func (x *Bool) Store(v bool)     { rt.SyncAtomic(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool { rt.SyncAtomic(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	rt.SyncAtomic(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}

type Value struct{ v real.Value }

func (x *Value) Load() any      { rt.SyncAtomic(unsafe.Pointer(x)); return x.v.Load() }
func (x *Value) Store(v any)    { rt.SyncAtomic(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Value) Swap(v any) any { rt.SyncAtomic(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool {
	rt.SyncAtomic(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}

type Pointer[T any] struct{ v real.Pointer[T] }

func (x *Pointer[T]) Load() *T     { rt.SyncAtomic(unsafe.Pointer(x)); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)   { rt.SyncAtomic(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { rt.SyncAtomic(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	rt.SyncAtomic(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}
