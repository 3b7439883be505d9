// Package vshim is what instrumented code of the module under test calls (see harness/rewrite).
package vshim

import (
	"fmt"
	"iter"
	"reflect"
	"sort"
	"unsafe"
)

const Used = true

// The label of a goroutine (inherited by the goroutines it starts) says which chooser is in force.
//
//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

//go:linkname setLabel runtime/pprof.runtime_setProfLabel
func setLabel(unsafe.Pointer)

// Chooser decides the order in which each iteration over a map goes, for one goroutine.
type Chooser struct {
	Sizes []int                   // number of elements of each iteration made so far
	Order func(loop, n int) []int // nil: ascending
}

// With runs f with the chooser in force in this goroutine.
func With(c *Chooser, f func()) {
	old := getLabel()
	setLabel(unsafe.Pointer(c))
	defer setLabel(old)
	f()
}

func less(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	case reflect.String:
		return a.String() < b.String()
	}
	return fmt.Sprint(a.Interface()) < fmt.Sprint(b.Interface())
}

// Range iterates over m in the order that the chooser of the goroutine gives.
func Range[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool { return less(reflect.ValueOf(keys[i]), reflect.ValueOf(keys[j])) })
		if len(keys) > 1 {
			if c := (*Chooser)(getLabel()); c != nil {
				loop := len(c.Sizes)
				c.Sizes = append(c.Sizes, len(keys))
				if c.Order != nil {
					if o := c.Order(loop, len(keys)); o != nil {
						n := make([]K, len(keys))
						for i, j := range o {
							n[i] = keys[j]
						}
						keys = n
					}
				}
			}
		}
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue // removed meanwhile
			}
			if !yield(k, v) {
				return
			}
		}
	}
}
