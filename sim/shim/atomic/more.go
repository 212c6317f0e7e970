package atomic

import (
	real "sync/atomic"
	"unsafe"

	"simverif/rt"
)

func AndInt32(p *int32, m int32) int32 {
	rt.SyncAtomic(unsafe.Pointer(p))
	return real.AndInt32(p, m)
}

func (x *Int32) And(m int32) int32 {
	rt.SyncAtomic(unsafe.Pointer(x))
	return x.v.And(m)
}

func OrInt32(p *int32, m int32) int32 {
	rt.SyncAtomic(unsafe.Pointer(p))
	return real.OrInt32(p, m)
}

func (x *Int32) Or(m int32) int32 {
	rt.SyncAtomic(unsafe.Pointer(x))
	return x.v.Or(m)
}

func AndInt64(p *int64, m int64) int64 {
	rt.SyncAtomic(unsafe.Pointer(p))
	return real.AndInt64(p, m)
}

func (x *Int64) And(m int64) int64 {
	rt.SyncAtomic(unsafe.Pointer(x))
	return x.v.And(m)
}

func OrInt64(p *int64, m int64) int64 {
	rt.SyncAtomic(unsafe.Pointer(p))
	return real.OrInt64(p, m)
}

func (x *Int64) Or(m int64) int64 {
	rt.SyncAtomic(unsafe.Pointer(x))
	return x.v.Or(m)
}

func AndUint32(p *uint32, m uint32) uint32 {
	rt.SyncAtomic(unsafe.Pointer(p))
	return real.AndUint32(p, m)
}

func (x *Uint32) And(m uint32) uint32 {
	rt.SyncAtomic(unsafe.Pointer(x))
	return x.v.And(m)
}

func OrUint32(p *uint32, m uint32) uint32 {
	rt.SyncAtomic(unsafe.Pointer(p))
	return real.OrUint32(p, m)
}

func (x *Uint32) Or(m uint32) uint32 {
	rt.SyncAtomic(unsafe.Pointer(x))
	return x.v.Or(m)
}

func AndUint64(p *uint64, m uint64) uint64 {
	rt.SyncAtomic(unsafe.Pointer(p))
	return real.AndUint64(p, m)
}

func (x *Uint64) And(m uint64) uint64 {
	rt.SyncAtomic(unsafe.Pointer(x))
	return x.v.And(m)
}

func OrUint64(p *uint64, m uint64) uint64 {
	rt.SyncAtomic(unsafe.Pointer(p))
	return real.OrUint64(p, m)
}

func (x *Uint64) Or(m uint64) uint64 {
	rt.SyncAtomic(unsafe.Pointer(x))
	return x.v.Or(m)
}

func AndUintptr(p *uintptr, m uintptr) uintptr {
	rt.SyncAtomic(unsafe.Pointer(p))
	return real.AndUintptr(p, m)
}

func (x *Uintptr) And(m uintptr) uintptr {
	rt.SyncAtomic(unsafe.Pointer(x))
	return x.v.And(m)
}

func OrUintptr(p *uintptr, m uintptr) uintptr {
	rt.SyncAtomic(unsafe.Pointer(p))
	return real.OrUintptr(p, m)
}

func (x *Uintptr) Or(m uintptr) uintptr {
	rt.SyncAtomic(unsafe.Pointer(x))
	return x.v.Or(m)
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	rt.SyncAtomic(unsafe.Pointer(p))
	return real.LoadPointer(p)
}

func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	rt.SyncAtomic(unsafe.Pointer(p))
	real.StorePointer(p, v)
}

func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	rt.SyncAtomic(unsafe.Pointer(p))
	return real.SwapPointer(p, v)
}

func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	rt.SyncAtomic(unsafe.Pointer(p))
	return real.CompareAndSwapPointer(p, o, n)
}
