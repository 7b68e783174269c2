package h

import "reflect"

// Rows lists the elements of a table (a slice or map of structs or of pointers to them).
func Rows(table any) (out []reflect.Value) {
	v := reflect.ValueOf(table)
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	switch v.Kind() {
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out = append(out, ind(v.Index(i)))
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			out = append(out, ind(it.Value()))
		}
	}
	return
}

func ind(v reflect.Value) reflect.Value {
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	return v
}
