package simrt

import (
	"reflect"
	"unsafe"
)

// Package variables of the code under test. Reset puts them back to their state at start-up, so that a
// reference result can be computed as in a fresh process, and so that one run cannot influence the next.

type global struct {
	name string
	ptr  reflect.Value // pointer to the variable
	snap reflect.Value // pointer to a private deep copy
}

var globals []*global

// RegGlobal registers a package variable.
func RegGlobal(name string, p interface{}) {
	globals = append(globals, &global{name: name, ptr: reflect.ValueOf(p)})
}

// Globals returns how many variables are registered.
func Globals() int { return len(globals) }

// Snapshot remembers the current values as the pristine ones.
func Snapshot() {
	c := newCopier()
	for _, g := range globals {
		c.pin(g.ptr)
	}
	for _, g := range globals {
		n := reflect.New(g.ptr.Type().Elem())
		c.copyInto(n.Elem(), g.ptr.Elem(), 0)
		g.snap = n
	}
}

// Reset restores the pristine values.
func Reset() {
	if len(globals) == 0 {
		return
	}
	c := newCopier()
	for _, g := range globals {
		c.pin(g.ptr)
	}
	for _, g := range globals {
		c.copyInto(g.ptr.Elem(), g.snap.Elem(), 0)
	}
}

type memoKey struct {
	p unsafe.Pointer
	t reflect.Type
	n int
}

type copier struct {
	memo  map[memoKey]reflect.Value
	nodes int
}

func newCopier() *copier { return &copier{memo: map[memoKey]reflect.Value{}} }

func (c *copier) pin(p reflect.Value) {
	c.memo[memoKey{p.UnsafePointer(), p.Type(), 0}] = p
}

func settable(v reflect.Value) reflect.Value {
	if v.CanSet() {
		return v
	}
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	n := reflect.New(v.Type()).Elem()
	// not addressable and read-only (e.g. from a map of structs): copy by bits
	n.Set(v)
	return n
}

func shallow(k reflect.Kind) bool {
	switch k {
	case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Struct, reflect.Array, reflect.Interface:
		return false
	}
	return true
}

const maxNodes = 200000

func (c *copier) copyInto(dst, src reflect.Value, depth int) {
	dst, src = settable(dst), settable(src)
	c.nodes++
	if c.nodes > maxNodes || depth > 200 {
		dst.Set(src)
		return
	}
	switch src.Kind() {
	case reflect.Ptr:
		if src.IsNil() {
			dst.Set(src)
			return
		}
		k := memoKey{src.UnsafePointer(), src.Type(), 0}
		if m, ok := c.memo[k]; ok {
			dst.Set(m)
			return
		}
		if opaque(src.Type().Elem()) {
			dst.Set(src)
			return
		}
		n := reflect.New(src.Type().Elem())
		if n.Type() != src.Type() {
			n = n.Convert(src.Type())
		}
		c.memo[k] = n
		c.copyInto(n.Elem(), src.Elem(), depth+1)
		dst.Set(n)
	case reflect.Slice:
		if src.IsNil() {
			dst.Set(src)
			return
		}
		k := memoKey{src.UnsafePointer(), src.Type(), src.Cap()}
		full := src.Slice3(0, src.Cap(), src.Cap())
		if src.Cap() > 0 {
			if m, ok := c.memo[k]; ok {
				dst.Set(m.Slice3(0, src.Len(), src.Cap()))
				return
			}
		}
		n := reflect.MakeSlice(src.Type(), src.Cap(), src.Cap())
		c.memo[k] = n
		if shallow(src.Type().Elem().Kind()) {
			reflect.Copy(n, full)
		} else {
			for i := 0; i < src.Cap(); i++ {
				c.copyInto(n.Index(i), full.Index(i), depth+1)
			}
		}
		dst.Set(n.Slice3(0, src.Len(), src.Cap()))
	case reflect.Array:
		if shallow(src.Type().Elem().Kind()) {
			dst.Set(src)
			return
		}
		for i := 0; i < src.Len(); i++ {
			c.copyInto(dst.Index(i), src.Index(i), depth+1)
		}
	case reflect.Struct:
		if opaque(src.Type()) {
			dst.Set(src)
			return
		}
		for i := 0; i < src.NumField(); i++ {
			c.copyInto(dst.Field(i), src.Field(i), depth+1)
		}
	case reflect.Map:
		if src.IsNil() {
			dst.Set(src)
			return
		}
		k := memoKey{src.UnsafePointer(), src.Type(), 0}
		if m, ok := c.memo[k]; ok {
			dst.Set(m)
			return
		}
		n := reflect.MakeMapWithSize(src.Type(), src.Len())
		c.memo[k] = n
		it := src.MapRange()
		for it.Next() {
			nk := reflect.New(src.Type().Key()).Elem()
			c.copyInto(nk, addressable(it.Key()), depth+1)
			nv := reflect.New(src.Type().Elem()).Elem()
			c.copyInto(nv, addressable(it.Value()), depth+1)
			n.SetMapIndex(nk, nv)
		}
		dst.Set(n)
	case reflect.Interface:
		if src.IsNil() {
			dst.Set(src)
			return
		}
		e := src.Elem()
		if shallow(e.Kind()) {
			dst.Set(src)
			return
		}
		n := reflect.New(e.Type()).Elem()
		c.copyInto(n, addressable(e), depth+1)
		dst.Set(n)
	default:
		dst.Set(src)
	}
}

func addressable(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return v
	}
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	return n
}

// opaque types are shared, not copied.
func opaque(t reflect.Type) bool {
	switch t.PkgPath() {
	case "reflect", "runtime", "internal/abi", "time", "os", "unicode", "golang.org/x/text/encoding", "golang.org/x/text/encoding/unicode":
		return true
	}
	return false
}

// GoCall starts f(args...) as a simulated task, evaluating f and args now as the go statement does.
func GoCall(f interface{}, args ...interface{}) { goCall(f, args, false) }

// GoCallSlice is GoCall for a call with a final args... parameter.
func GoCallSlice(f interface{}, args ...interface{}) { goCall(f, args, true) }

func goCall(f interface{}, args []interface{}, slice bool) {
	if fn, ok := f.(func()); ok && len(args) == 0 {
		Spawn(fn)
		return
	}
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if ft.IsVariadic() && i >= ft.NumIn()-1 && !slice {
			pt = ft.In(ft.NumIn() - 1).Elem()
		} else {
			pt = ft.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
			continue
		}
		v := reflect.ValueOf(a)
		if v.Type() != pt && v.Type().ConvertibleTo(pt) {
			v = v.Convert(pt)
		}
		in[i] = v
	}
	Spawn(func() {
		if slice {
			fv.CallSlice(in)
		} else {
			fv.Call(in)
		}
	})
}
