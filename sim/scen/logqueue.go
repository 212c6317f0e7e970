package scen

import (
	"reflect"
	"strings"
	"unsafe"

	"github.com/BTBurke/monny/pkg/monny/proc"

	"simverif/harness"
)

// queuesOf finds the histories a log processor keeps, wherever it keeps them.
func queuesOf(lp *proc.LogProcessor) (found []*proc.Queue) {
	pkg := reflect.TypeOf(*lp).PkgPath()
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 8 {
			return
		}
		t := v.Type()
		if t == reflect.TypeOf((*proc.Queue)(nil)) {
			if !v.IsNil() {
				found = append(found, (*proc.Queue)(v.UnsafePointer()))
			}
			return
		}
		if p := t.PkgPath(); p != "" && !strings.HasPrefix(p, pkg) {
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() {
				walk(v.Elem(), depth+1)
			}
		case reflect.Struct:
			if !v.CanAddr() {
				return
			}
			if t == reflect.TypeOf(proc.Queue{}) {
				found = append(found, (*proc.Queue)(unsafe.Pointer(v.UnsafeAddr())))
				return
			}
			for i := 0; i < v.NumField(); i++ {
				f := v.Field(i)
				walk(reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem(), depth+1)
			}
		case reflect.Slice, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), depth+1)
			}
		case reflect.Map:
			for it := v.MapRange(); it.Next(); {
				walk(it.Value(), depth+1)
			}
		}
	}
	walk(reflect.ValueOf(lp), 0)
	return found
}

// logHistory: the history of each source is its last lines.
func logHistory(r *harness.Run, lp *proc.LogProcessor, srcs []*logSrc, n int) {
	var active []*logSrc
	for _, s := range srcs {
		if s.active {
			active = append(active, s)
		}
	}
	qs := queuesOf(lp)
	if len(qs) != len(active) {
		return // kept some other way
	}
	free := append([]*logSrc{}, active...)
	for i, q := range qs {
		got := q.Copy()
		ok := false
		for j, s := range free {
			want := s.lines
			if len(want) > n {
				want = want[len(want)-n:]
			}
			same := len(got) == len(want)
			for k := 0; same && k < len(got); k++ {
				same = got[k] == string(want[k])
			}
			if same {
				free, ok = append(free[:j], free[j+1:]...), true
				break
			}
		}
		if !ok {
			r.Fail("history of a source untrue", "history %d of %d has %d entries and is not the last %d lines of any source left (%d lines in %s)", i+1, len(qs), len(got), n, len(free[0].lines), free[0].name)
		}
	}
}
