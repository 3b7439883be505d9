package main

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"unsafe"
)

// deepClone copies any object graph, unexported fields included, preserving aliasing. Functions
// and channels are shared. Used to fork an execution of the real object at every choice.
func deepClone[T any](x *T) *T {
	c := cloner{memo: map[unsafe.Pointer]reflect.Value{}}
	return c.clone(reflect.ValueOf(x)).Interface().(*T)
}

type cloner struct {
	memo map[unsafe.Pointer]reflect.Value
}

var bigIntT = reflect.TypeOf(big.Int{})

func (c *cloner) clone(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	c.into(n, v)
	return n
}

// exposed makes an unexported field readable and settable.
func exposed(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

func isFlat(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8,
		reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Float32, reflect.Float64, reflect.String, reflect.Func, reflect.Chan:
		return true
	case reflect.Array:
		return isFlat(t.Elem())
	}
	return false
}

func (c *cloner) into(dst, src reflect.Value) {
	t := src.Type()
	if isFlat(t) {
		dst.Set(src)
		return
	}
	switch t.Kind() {
	case reflect.Ptr:
		if src.IsNil() {
			return
		}
		p := src.UnsafePointer()
		if m, ok := c.memo[p]; ok && m.Type() == t {
			dst.Set(m)
			return
		}
		if t.Elem() == bigIntT {
			n := reflect.ValueOf(new(big.Int).Set((*big.Int)(p)))
			c.memo[p] = n
			dst.Set(n)
			return
		}
		n := reflect.New(t.Elem())
		c.memo[p] = n
		c.into(n.Elem(), src.Elem())
		dst.Set(n)
	case reflect.Struct:
		if t.PkgPath() == "sync" || t.PkgPath() == "sync/atomic" {
			return // a fresh (unlocked) lock
		}
		if strings.HasPrefix(t.PkgPath(), "github.com/attestantio/") || t.PkgPath() == "time" {
			dst.Set(src)
			return
		}
		if !src.CanAddr() {
			tmp := reflect.New(t).Elem()
			tmp.Set(src)
			src = tmp
		}
		for i := 0; i < t.NumField(); i++ {
			c.into(exposed(dst.Field(i)), exposed(src.Field(i)))
		}
	case reflect.Slice:
		if src.IsNil() {
			return
		}
		n := reflect.MakeSlice(t, src.Len(), src.Len())
		if isFlat(t.Elem()) {
			reflect.Copy(n, src)
		} else {
			for i := 0; i < src.Len(); i++ {
				c.into(n.Index(i), src.Index(i))
			}
		}
		dst.Set(n)
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			c.into(exposed(dst.Index(i)), exposed(src.Index(i)))
		}
	case reflect.Map:
		if src.IsNil() {
			return
		}
		n := reflect.MakeMapWithSize(t, src.Len())
		it := src.MapRange()
		for it.Next() {
			v := reflect.New(t.Elem()).Elem()
			ev := reflect.New(t.Elem()).Elem()
			ev.Set(it.Value())
			c.into(v, ev)
			n.SetMapIndex(it.Key(), v)
		}
		dst.Set(n)
	case reflect.Interface:
		if src.IsNil() {
			return
		}
		e := src.Elem()
		if e.Kind() == reflect.Ptr {
			dst.Set(c.clone(e))
		} else {
			dst.Set(src)
		}
	default:
		dst.Set(src)
	}
}

// stateKey is a 128-bit hash of everything in an object graph, except that fields for which skip
// returns true are left out. Maps are visited in key order.
func stateKey(x any, skip func(structName, field string, t reflect.Type) bool) [16]byte {
	w := &keyer{skip: skip}
	w.walk(reflect.ValueOf(x))
	h := fnv.New128a()
	h.Write(w.b)
	var k [16]byte
	copy(k[:], h.Sum(nil))
	return k
}

type keyer struct {
	seen map[unsafe.Pointer]uint64 // numbers shared between several fields are part of the state
	b    []byte
	skip func(string, string, reflect.Type) bool
	deep int
}

func (w *keyer) u64(n uint64) { w.b = binary.LittleEndian.AppendUint64(w.b, n) }

func (w *keyer) walk(v reflect.Value) {
	w.deep++
	defer func() { w.deep-- }()
	if w.deep > 60 {
		return
	}
	t := v.Type()
	switch t.Kind() {
	case reflect.Bool:
		if v.Bool() {
			w.b = append(w.b, 1)
		} else {
			w.b = append(w.b, 0)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		w.u64(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		w.u64(v.Uint())
	case reflect.String:
		w.u64(uint64(v.Len()))
		w.b = append(w.b, v.String()...)
	case reflect.Ptr:
		if v.IsNil() {
			w.b = append(w.b, 0)
			return
		}
		w.b = append(w.b, 1)
		if t.Elem() == bigIntT {
			n := (*big.Int)(v.UnsafePointer())
			if k, ok := w.seen[v.UnsafePointer()]; ok {
				w.u64(k<<8 | 0xfe)
			} else {
				if w.seen == nil {
					w.seen = map[unsafe.Pointer]uint64{}
				}
				w.seen[v.UnsafePointer()] = uint64(len(w.seen) + 1)
			}
			by := n.Bytes()
			w.u64(uint64(len(by)<<2 | (n.Sign() + 1)))
			w.b = append(w.b, by...)
			return
		}
		w.walk(v.Elem())
	case reflect.Struct:
		if t.PkgPath() == "sync" || t.PkgPath() == "sync/atomic" {
			return
		}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if w.skip != nil && w.skip(t.Name(), f.Name, f.Type) {
				continue
			}
			w.walk(v.Field(i))
		}
	case reflect.Slice, reflect.Array:
		w.u64(uint64(v.Len()))
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i))
		}
	case reflect.Map:
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return keyLess(ks[i], ks[j]) })
		w.u64(uint64(len(ks)))
		for _, k := range ks {
			w.walk(k)
			w.walk(v.MapIndex(k))
		}
	case reflect.Interface:
		if v.IsNil() {
			w.b = append(w.b, 0)
			return
		}
		w.b = append(w.b, v.Elem().Type().String()...)
		w.walk(v.Elem())
	}
}

func keyLess(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.String:
		return a.String() < b.String()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.Uint() < b.Uint()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}
