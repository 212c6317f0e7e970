package rt

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// MapIt iterates over a map in an order that is part of the schedule.
type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// MapRange is the rewritten `range m`; the zero key and value let the rewriter
// declare the loop variables without naming their types.
func MapRange[M ~map[K]V, K comparable, V any](m M) (*MapIt[K, V], K, V) {
	var k K
	var v V
	MapR(m)
	it := &MapIt[K, V]{m: m}
	for key := range m {
		it.keys = append(it.keys, key)
	}
	sort.SliceStable(it.keys, func(i, j int) bool { return less(it.keys[i], it.keys[j]) })
	if S != nil && !S.dead && cur != nil {
		// a rotation and a direction reach what callers can observe
		if n := len(it.keys); n > 1 {
			p := pickN(2 * n)
			r := p % n
			keys := append(append([]K{}, it.keys[r:]...), it.keys[:r]...)
			if p >= n {
				for a, b := 0, n-1; a < b; a, b = a+1, b-1 {
					keys[a], keys[b] = keys[b], keys[a]
				}
			}
			it.keys = keys
		}
	}
	return it, k, v
}

// Next advances the iteration, skipping keys deleted meanwhile.
func (it *MapIt[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		MapR(it.m)
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok && key == key {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

func less(a, b interface{}) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if !va.IsValid() || !vb.IsValid() {
		return !va.IsValid() && vb.IsValid()
	}
	if va.Kind() != vb.Kind() {
		return va.Kind() < vb.Kind()
	}
	switch va.Kind() {
	case reflect.String:
		return va.String() < vb.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return va.Int() < vb.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return va.Uint() < vb.Uint()
	case reflect.Float32, reflect.Float64:
		return va.Float() < vb.Float()
	case reflect.Bool:
		return !va.Bool() && vb.Bool()
	case reflect.Chan, reflect.Ptr, reflect.UnsafePointer:
		return ordOf(va.UnsafePointer()) < ordOf(vb.UnsafePointer())
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

func ordOf(p unsafe.Pointer) int {
	if S == nil {
		return 0
	}
	return S.objOrd(p)
}

// MapW is a write to a map that other tasks may reach. Go ends the process when it
// notices another access while one is going on.
func MapW[M ~map[K]V, K comparable, V any](m M) M {
	s := S
	if s == nil || s.dead || cur == nil || m == nil {
		return m
	}
	p := *(*unsafe.Pointer)(unsafe.Pointer(&m))
	if w := s.mapWriter[p]; w != nil && w != cur && alive(w) {
		fatal("concurrent map writes")
	}
	s.mapWriter[p] = cur
	Y()
	if s.mapWriter[p] == cur {
		delete(s.mapWriter, p)
	}
	return m
}

// MapR is a read of such a map.
func MapR[M ~map[K]V, K comparable, V any](m M) M {
	if s := S; s != nil && len(s.mapWriter) > 0 && !s.dead {
		p := *(*unsafe.Pointer)(unsafe.Pointer(&m))
		if w := s.mapWriter[p]; w != nil && w != cur && alive(w) {
			fatal("concurrent map read and map write")
		}
	}
	return m
}
