package scen

import (
	"reflect"

	"google.golang.org/protobuf/proto"
)

// clone copies a message and gives each of its slices room to grow, as the
// slices of real callers and of a real decoder often have: code that appends
// to a slice it does not own then writes into memory others look at.
func clone(m proto.Message) proto.Message {
	c := proto.Clone(m)
	roomy(reflect.ValueOf(c))
	return c
}

func roomy(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			roomy(v.Elem())
		}
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).IsExported() {
				roomy(v.Field(i))
			}
		}
	case reflect.Slice:
		if v.Len() == 0 || v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), 2*v.Len()+8)
		reflect.Copy(n, v)
		v.Set(n)
		switch v.Type().Elem().Kind() {
		case reflect.Pointer, reflect.Interface, reflect.Struct:
			for i := 0; i < v.Len(); i++ {
				roomy(v.Index(i))
			}
		}
	}
}

// room copies a slice, leaving it room to grow.
func room[T any](l []T) []T {
	if l == nil {
		return nil
	}
	return append(make([]T, 0, 2*len(l)+8), l...)
}
