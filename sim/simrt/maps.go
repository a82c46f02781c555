package simrt

import (
	"fmt"
	"reflect"
	"sort"
)

// MapIter iterates over a map in an order that is the same in every run: the
// instrumenter rewrites `for k, v := range m` for maps to
// `for it, k, v := Iter(m); it.Next(&k, &v); `.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// Iter begins an iteration; the zero values declare the loop variables.
func Iter[M ~map[K]V, K comparable, V any](m M) (it *MapIter[K, V], k K, v V) {
	it = &MapIter[K, V]{m: m, keys: make([]K, 0, len(m))}
	for key := range m {
		it.keys = append(it.keys, key)
	}
	if len(it.keys) > 1 {
		names := make(map[K]string, len(it.keys))
		for _, key := range it.keys {
			names[key] = keyName(reflect.ValueOf(key))
		}
		sort.SliceStable(it.keys, func(a, b int) bool { return names[it.keys[a]] < names[it.keys[b]] })
		x := uint64(len(it.keys))
		if active != nil {
			x = active.cfg.Seed
		}
		for i := len(it.keys) - 1; i > 0; i-- {
			j := int(SplitMix(&x) % uint64(i+1))
			it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
		}
	}
	return
}

// Next goes on to the next key that is still there.
func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

// keyName describes a key without the addresses it contains.
func keyName(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Ptr, reflect.UnsafePointer, reflect.Chan, reflect.Func:
		return "*"
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		if v.CanInterface() {
			if t, ok := v.Interface().(reflect.Type); ok {
				return t.String()
			}
		} else if s, ok := typeName(v.Elem()); ok {
			return s
		}
		return v.Elem().Type().String() + keyName(v.Elem())
	case reflect.Struct:
		s := ""
		for i := 0; i < v.NumField(); i++ {
			s += keyName(v.Field(i)) + "|"
		}
		return s
	case reflect.Array:
		s := ""
		for i := 0; i < v.Len(); i++ {
			s += keyName(v.Index(i)) + "|"
		}
		return s
	case reflect.String:
		return v.String()
	}
	return fmt.Sprint(v)
}

// typeName is the name of a reflect.Type held by an unexported field.
func typeName(v reflect.Value) (string, bool) {
	if v.Kind() != reflect.Ptr || v.Type().String() != "*reflect.rtype" {
		return "", false
	}
	return reflect.NewAt(v.Type().Elem(), v.UnsafePointer()).Interface().(reflect.Type).String(), true
}
