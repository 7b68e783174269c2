// Package vstate saves and restores the package variables of the program under check, so
// that every execution starts from the same state.
package vstate

import (
	"reflect"
	"sort"
	"unsafe"
)

type variable struct {
	pkg, name string
	v         reflect.Value // addressable
	saved     reflect.Value
}

var vars []*variable

// Register is called by generated code: ptr is the address of a package variable.
func Register(pkg, name string, ptr any) {
	vars = append(vars, &variable{pkg: pkg, name: name, v: reflect.ValueOf(ptr).Elem()})
}

// Save remembers the current value of every variable.
func Save() {
	sort.SliceStable(vars, func(i, j int) bool {
		if vars[i].pkg != vars[j].pkg {
			return vars[i].pkg < vars[j].pkg
		}
		return vars[i].name < vars[j].name
	})
	for _, x := range vars {
		x.saved = clone(x.v, map[unsafe.Pointer]reflect.Value{})
	}
}

// Restore brings every variable back to its saved value.
func Restore() {
	for _, x := range vars {
		if !same(x.v, x.saved, 0) {
			c := clone(x.saved, map[unsafe.Pointer]reflect.Value{})
			x.v.Set(c)
		}
	}
}

// Changed lists the variables that differ from their saved value.
func Changed() []string {
	var out []string
	for _, x := range vars {
		if !same(x.v, x.saved, 0) {
			out = append(out, x.pkg+"."+x.name)
		}
	}
	return out
}

func open(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

func opaque(t reflect.Type) bool {
	switch t.PkgPath() {
	case "os", "sync", "sync/atomic", "time", "internal/poll", "reflect", "verif/vnet":
		return true
	}
	return false
}

func addressable(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return open(v)
	}
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	return n
}

func clone(v reflect.Value, seen map[unsafe.Pointer]reflect.Value) reflect.Value {
	v = addressable(v)
	t := v.Type()
	out := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			return out
		}
		n := reflect.MakeSlice(t, v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(clone(v.Index(i), seen))
		}
		out.Set(n)
	case reflect.Map:
		if v.IsNil() {
			return out
		}
		n := reflect.MakeMapWithSize(t, v.Len())
		it := v.MapRange()
		for it.Next() {
			n.SetMapIndex(it.Key(), clone(it.Value(), seen))
		}
		out.Set(n)
	case reflect.Pointer:
		if v.IsNil() || opaque(t.Elem()) {
			out.Set(v)
			return out
		}
		if c, ok := seen[v.UnsafePointer()]; ok && c.Type() == t {
			return c
		}
		n := reflect.New(t.Elem())
		if n.Type() != t {
			out.Set(v)
			return out
		}
		seen[v.UnsafePointer()] = n
		n.Elem().Set(clone(v.Elem(), seen))
		out.Set(n)
	case reflect.Struct:
		out.Set(v)
		if opaque(t) {
			return out
		}
		for i := 0; i < t.NumField(); i++ {
			open(out.Field(i)).Set(clone(v.Field(i), seen))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(clone(v.Index(i), seen))
		}
	case reflect.Interface:
		if v.IsNil() || opaque(v.Elem().Type()) {
			out.Set(v)
			return out
		}
		out.Set(clone(v.Elem(), seen))
	default:
		out.Set(v)
	}
	return out
}

func same(a, b reflect.Value, depth int) bool {
	if depth > 40 {
		return false
	}
	t := a.Type()
	if t != b.Type() {
		return false
	}
	switch t.Kind() {
	case reflect.Slice:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() || a.Cap() != b.Cap() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i), depth+1) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		it := a.MapRange()
		for it.Next() {
			bv := b.MapIndex(it.Key())
			if !bv.IsValid() || !same(it.Value(), bv, depth+1) {
				return false
			}
		}
		return true
	case reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		if a.Pointer() == b.Pointer() {
			return true
		}
		if opaque(t.Elem()) {
			return false
		}
		return same(a.Elem(), b.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !same(a.Field(i), b.Field(i), depth+1) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i), depth+1) {
				return false
			}
		}
		return true
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem(), depth+1)
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return a.Pointer() == b.Pointer()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float()
	case reflect.Complex64, reflect.Complex128:
		return a.Complex() == b.Complex()
	case reflect.String:
		return a.String() == b.String()
	}
	return false
}
