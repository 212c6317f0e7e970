// Package sync is the simulated counterpart of sync.
package sync

import (
	real "sync"

	"simverif/rt"
)

type (
	Mutex     = rt.Mutex
	RWMutex   = rt.RWMutex
	WaitGroup = rt.WaitGroup
	Once      = rt.Once
	Cond      = rt.Cond
	Locker    = real.Locker
)

func NewCond(l Locker) *Cond { return rt.NewCond(l) }

// Map is a real sync.Map behind scheduling points.
type Map struct{ m real.Map }

func (m *Map) Load(k any) (any, bool)           { rt.Y(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { rt.Y(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { rt.Y(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { rt.Y(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { rt.Y(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { rt.Y(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { rt.Y(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { rt.Y(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Clear()                           { rt.Y(); m.m.Clear() }
func (m *Map) Range(f func(k, v any) bool) {
	rt.Y()
	plain := map[any]any{}
	m.m.Range(func(k, v any) bool { plain[k] = v; return true })
	it, k, v := rt.MapRange(plain)
	for it.Next(&k, &v) {
		rt.Y()
		if !f(k, v) {
			return
		}
	}
}

// Pool is a deterministic LIFO pool.
type Pool struct {
	New  func() any
	free []any
}

func (p *Pool) Get() any {
	rt.Y()
	if n := len(p.free); n > 0 {
		x := p.free[n-1]
		p.free = p.free[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	rt.Y()
	if x != nil {
		p.free = append(p.free, x)
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}
