package zzvsym

import (
	"reflect"
	"unsafe"
)

type span struct {
	p uintptr
	n uintptr
}

type walker struct {
	spans map[span]bool
	maps  map[uintptr]bool
	seen  map[visit]bool
}

type visit struct {
	p uintptr
	t reflect.Type
}

func (w *walker) region(p uintptr, t reflect.Type) {
	if p == 0 || t.Size() == 0 {
		return
	}
	k := visit{p, t}
	if w.seen[k] {
		return
	}
	w.seen[k] = true
	w.spans[span{p, t.Size()}] = true
	w.value(reflect.NewAt(t, unsafe.Pointer(p)).Elem())
}

func (w *walker) value(v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			w.value(v.Field(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			w.value(v.Index(i))
		}
	case reflect.Ptr:
		if !v.IsNil() {
			w.region(v.Pointer(), v.Type().Elem())
		}
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 {
			return
		}
		e := v.Type().Elem()
		k := e.Kind()
		if k >= reflect.Bool && k <= reflect.Complex128 {
			w.spans[span{v.Pointer(), uintptr(v.Cap()) * e.Size()}] = true
			return
		}
		for i := 0; i < v.Cap(); i++ {
			w.region(v.Pointer()+uintptr(i)*e.Size(), e)
		}
	case reflect.Interface:
		if !v.IsNil() {
			w.value(v.Elem())
		}
	case reflect.Map:
		if v.IsNil() || w.maps[v.Pointer()] {
			return
		}
		w.maps[v.Pointer()] = true
		for _, k := range v.MapKeys() {
			w.value(v.MapIndex(k))
		}
	}
}

func reachable(x interface{}) *walker {
	w := &walker{map[span]bool{}, map[uintptr]bool{}, map[visit]bool{}}
	w.value(reflect.ValueOf(x))
	return w
}

func (w *walker) bytes() map[uintptr]bool {
	m := map[uintptr]bool{}
	for s := range w.spans {
		for i := uintptr(0); i < s.n; i++ {
			m[s.p+i] = true
		}
	}
	return m
}

func shared(a, b interface{}) (addrs []uintptr, maps bool) {
	x, y := reachable(a), reachable(b)
	bx := x.bytes()
	for p := range y.bytes() {
		if bx[p] {
			addrs = append(addrs, p)
		}
	}
	for m := range x.maps {
		if y.maps[m] {
			maps = true
		}
	}
	return
}

// Disjoint reports that no memory is reachable from both a and b.
func Disjoint(a, b interface{}) bool {
	s, m := shared(a, b)
	return len(s) == 0 && !m
}

// Intact runs f and reports that the memory reachable from both a and b has kept its content.
func Intact(a, b interface{}, f func()) bool {
	s, _ := shared(a, b)
	old := make([]byte, len(s))
	for i, p := range s {
		old[i] = *(*byte)(unsafe.Pointer(p))
	}
	f()
	for i, p := range s {
		if *(*byte)(unsafe.Pointer(p)) != old[i] {
			return false
		}
	}
	return true
}
