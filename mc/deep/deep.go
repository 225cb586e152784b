//go:build go1.21

// Package deep walks arbitrary Go values, unexported fields included. It gives the explorers a
// canonical hash of the complete state of an implementation object (so that no field, present or
// future, is forgotten) and finds byte patterns anywhere in the graph reachable from an object.
package deep

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"hash"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

type hasher struct {
	h    hash.Hash
	seen map[visit]int
}

type visit struct {
	p unsafe.Pointer
	t reflect.Type
}

var elementType = reflect.TypeOf(ristretto.Element{})

// Hash returns a canonical digest of the values: group elements by their canonical encoding, maps
// by sorted keys, pointers by first-visit order (so aliasing is part of the state), channels by
// whether they are closed, functions by nil-ness.
func Hash(vs ...interface{}) string {
	w := &hasher{h: sha256.New(), seen: map[visit]int{}}
	for _, v := range vs {
		w.walk(addressable(reflect.ValueOf(v)), 0)
	}
	return string(w.h.Sum(nil))
}

// addressable returns v itself if its fields can be opened up, or an addressable copy.
func addressable(v reflect.Value) reflect.Value {
	if !v.IsValid() {
		return v
	}
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	return n
}

func (w *hasher) num(tag byte, n uint64) {
	var b [9]byte
	b[0] = tag
	binary.LittleEndian.PutUint64(b[1:], n)
	w.h.Write(b[:])
}

func skipType(t reflect.Type) bool {
	p := t.PkgPath()
	return p == "sync" || p == "sync/atomic" || p == "time" || p == "context" || p == "runtime" ||
		strings.Contains(p, "/verifmc/v") // virtual sync and time carry no protocol state
}

func (w *hasher) walk(v reflect.Value, depth int) {
	if !v.IsValid() {
		w.num('0', 0)
		return
	}
	if depth > 60 {
		panic("deep: too deep")
	}
	t := v.Type()
	if skipType(t) {
		switch v.Kind() {
		case reflect.Int64, reflect.Uint64, reflect.Int32, reflect.Uint32, reflect.Bool: // durations etc.
		default:
			w.num('s', 0)
			return
		}
	}
	if t == elementType {
		e := (*ristretto.Element)(unsafe.Pointer(v.UnsafeAddr()))
		w.h.Write(elementBytes(e, v))
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			w.num('b', 1)
		} else {
			w.num('b', 0)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		w.num('i', uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		w.num('u', v.Uint())
	case reflect.String:
		w.num('S', uint64(v.Len()))
		w.h.Write([]byte(v.String()))
	case reflect.Float32, reflect.Float64:
		w.num('f', uint64(v.Float()*1e6))
	case reflect.Array:
		w.num('a', uint64(v.Len()))
		if t.Elem().Kind() == reflect.Uint8 && v.Len() > 0 {
			w.h.Write(unsafe.Slice((*byte)(unsafe.Pointer(v.UnsafeAddr())), v.Len()))
			return
		}
		for i := 0; i < v.Len(); i++ {
			w.walk(addressable(v.Index(i)), depth+1)
		}
	case reflect.Slice:
		if v.IsNil() {
			w.num('l', 0)
			return
		}
		w.num('l', uint64(v.Len()))
		if t.Elem().Kind() == reflect.Uint8 {
			w.h.Write(v.Bytes())
			return
		}
		for i := 0; i < v.Len(); i++ {
			w.walk(addressable(v.Index(i)), depth+1)
		}
	case reflect.Struct:
		w.num('t', uint64(v.NumField()))
		for i := 0; i < v.NumField(); i++ {
			w.walk(addressable(v.Field(i)), depth+1)
		}
	case reflect.Map:
		if v.IsNil() {
			w.num('m', 0)
			return
		}
		type kv struct {
			k string
			v reflect.Value
		}
		var items []kv
		it := v.MapRange()
		for it.Next() {
			k := it.Key()
			items = append(items, kv{fmt.Sprintf("%v", plain(k)), it.Value()})
		}
		sort.Slice(items, func(i, j int) bool { return items[i].k < items[j].k })
		w.num('m', uint64(len(items)))
		for _, x := range items {
			w.h.Write([]byte(x.k))
			w.walk(addressable(plainValue(x.v)), depth+1)
		}
	case reflect.Ptr:
		if v.IsNil() {
			w.num('p', 0)
			return
		}
		key := visit{unsafe.Pointer(v.Pointer()), t}
		if n, ok := w.seen[key]; ok {
			w.num('r', uint64(n))
			return
		}
		w.seen[key] = len(w.seen)
		w.num('p', 1)
		w.walk(reflect.NewAt(t.Elem(), unsafe.Pointer(v.Pointer())).Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			w.num('I', 0)
			return
		}
		w.h.Write([]byte(v.Elem().Type().String()))
		w.walk(addressable(plainValue(v.Elem())), depth+1)
	case reflect.Chan:
		w.num('c', uint64(closedState(v)))
	case reflect.Func:
		if v.IsNil() {
			w.num('F', 0)
		} else {
			w.num('F', 1)
		}
	default:
		w.num('x', 0)
	}
}

// plain renders a map key.
func plain(k reflect.Value) interface{} {
	switch k.Kind() {
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprintf("%020d", k.Uint())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%020d", k.Int())
	case reflect.String:
		return k.String()
	}
	return fmt.Sprintf("%v", k)
}

// plainValue strips the read-only flag reflect puts on values reached through unexported fields.
func plainValue(v reflect.Value) reflect.Value {
	if v.CanInterface() {
		return v
	}
	type rv struct {
		typ  unsafe.Pointer
		ptr  unsafe.Pointer
		flag uintptr
	}
	c := v
	(*rv)(unsafe.Pointer(&c)).flag &^= uintptr(1<<5 | 1<<6) // flagStickyRO | flagEmbedRO
	return c
}

func closedState(v reflect.Value) int {
	if v.IsNil() {
		return 0
	}
	if v.Len() > 0 {
		return 3 + v.Len()
	}
	if v.Type().ChanDir()&reflect.RecvDir == 0 {
		return 1
	}
	v = plainValue(v)
	chosen, _, ok := reflect.Select([]reflect.SelectCase{{Dir: reflect.SelectRecv, Chan: v}, {Dir: reflect.SelectDefault}})
	if chosen == 0 && !ok {
		return 2
	}
	return 1
}

func elementBytes(e *ristretto.Element, v reflect.Value) (out []byte) {
	raw := unsafe.Slice((*byte)(unsafe.Pointer(v.UnsafeAddr())), int(v.Type().Size()))
	allZero := true
	for _, b := range raw {
		if b != 0 {
			allZero = false
			break
		}
	}
	if allZero {
		return []byte("E0")
	}
	defer func() {
		if recover() != nil {
			out = append([]byte("E!"), raw...)
		}
	}()
	return append([]byte("E"), e.Bytes()...)
}

// Find walks everything reachable from root and reports paths at which any of the patterns
// occurs as a contiguous byte string in an array, slice or string.
func Find(root interface{}, patterns map[string][]byte) []string {
	f := &finder{pats: patterns, seen: map[visit]bool{}, hits: map[string]bool{}}
	f.walk(addressable(reflect.ValueOf(root)), "", 0)
	var out []string
	for h := range f.hits {
		out = append(out, h)
	}
	sort.Strings(out)
	return out
}

// Nodes counts the values visited by the last Find on this goroutine-free helper.
type finder struct {
	pats  map[string][]byte
	seen  map[visit]bool
	hits  map[string]bool
	nodes int
}

func (f *finder) bytes(b []byte, path string) {
	for name, p := range f.pats {
		if len(p) > 0 && bytes.Contains(b, p) {
			f.hits[name+" at "+path] = true
		}
	}
}

func (f *finder) walk(v reflect.Value, path string, depth int) {
	if !v.IsValid() || depth > 60 {
		return
	}
	f.nodes++
	t := v.Type()
	// Any flat memory is searched as raw bytes, whatever its declared shape.
	if flat(t) && t.Size() >= 16 && v.CanAddr() {
		f.bytes(unsafe.Slice((*byte)(unsafe.Pointer(v.UnsafeAddr())), int(t.Size())), path)
		return
	}
	switch v.Kind() {
	case reflect.String:
		f.bytes([]byte(v.String()), path)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			f.walk(addressable(v.Index(i)), fmt.Sprintf("%s[%d]", path, i), depth+1)
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		// the hidden part of the backing array, up to the capacity, is reachable too
		full := v.Slice(0, v.Cap())
		if v.Cap() > 0 && flat(t.Elem()) {
			f.bytes(unsafe.Slice((*byte)(unsafe.Pointer(v.Pointer())), v.Cap()*int(t.Elem().Size())), path)
			return
		}
		for i := 0; i < full.Len(); i++ {
			f.walk(addressable(full.Index(i)), fmt.Sprintf("%s[%d]", path, i), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f.walk(addressable(v.Field(i)), path+"."+t.Field(i).Name, depth+1)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		it := v.MapRange()
		for it.Next() {
			k := fmt.Sprintf("%s[%v]", path, plain(it.Key()))
			f.walk(addressable(plainValue(it.Key())), k+".key", depth+1)
			f.walk(addressable(plainValue(it.Value())), k, depth+1)
		}
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		key := visit{unsafe.Pointer(v.Pointer()), t}
		if f.seen[key] {
			return
		}
		f.seen[key] = true
		f.walk(reflect.NewAt(t.Elem(), unsafe.Pointer(v.Pointer())).Elem(), path, depth+1)
	case reflect.Interface:
		if !v.IsNil() {
			f.walk(addressable(plainValue(v.Elem())), path, depth+1)
		}
	}
}

// flat reports whether the type holds no pointers.
func flat(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr,
		reflect.Float32, reflect.Float64:
		return true
	case reflect.Array:
		return t.Len() == 0 || flat(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !flat(t.Field(i).Type) {
				return false
			}
		}
		return true
	}
	return false
}
