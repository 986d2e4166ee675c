package main

import (
	"hash/fnv"
	"math"
	"reflect"
	"sort"
	"unsafe"
)

type fpKey [16]byte

// fingerprint hashes the memory reachable from the roots up to the addresses:
// pointers are numbered in the order in which they are met, maps are taken in
// key order. Two states with equal fingerprints are isomorphic in memory, so
// they behave alike under any further operations. It does not know the types
// of the library, so it stays valid when they change.
type fingerprinter struct {
	buf  []byte
	ptrs map[ptrKey]uint32
}

// the type distinguishes a struct from its first field
type ptrKey struct {
	p unsafe.Pointer
	t reflect.Type
}

func fingerprint(extra string, roots ...any) fpKey {
	f := &fingerprinter{ptrs: map[ptrKey]uint32{}, buf: make([]byte, 0, 4096)}
	f.buf = append(f.buf, extra...)
	for _, r := range roots {
		f.val(reflect.ValueOf(r), 0)
	}
	h := fnv.New128a()
	h.Write(f.buf)
	var k fpKey
	copy(k[:], h.Sum(nil))
	return k
}

func (f *fingerprinter) u64(x uint64) {
	f.buf = append(f.buf, byte(x), byte(x>>8), byte(x>>16), byte(x>>24))
	if x > 0xffffffff {
		f.buf = append(f.buf, 0xfe, byte(x>>32), byte(x>>40), byte(x>>48), byte(x>>56))
	}
}

func (f *fingerprinter) tag(b byte) { f.buf = append(f.buf, b) }

// ptr returns true if the target has to be visited.
func (f *fingerprinter) ptr(ptr unsafe.Pointer, t reflect.Type) bool {
	p := ptrKey{ptr, t}
	if ptr == nil {
		f.tag(0)
		return false
	}
	if n, ok := f.ptrs[p]; ok {
		f.tag(1)
		f.u64(uint64(n))
		return false
	}
	f.ptrs[p] = uint32(len(f.ptrs) + 1)
	f.tag(2)
	return true
}

func (f *fingerprinter) val(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Invalid:
		f.tag('z')
	case reflect.Bool:
		if v.Bool() {
			f.tag('T')
		} else {
			f.tag('F')
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		f.tag('i')
		f.u64(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		f.tag('u')
		f.u64(v.Uint())
	case reflect.Float32, reflect.Float64:
		f.tag('f')
		f.u64(math.Float64bits(v.Float()))
	case reflect.String:
		s := v.String()
		f.tag('s')
		f.u64(uint64(len(s)))
		f.buf = append(f.buf, s...)
	case reflect.Pointer:
		f.tag('p')
		if f.ptr(v.UnsafePointer(), v.Type()) {
			f.val(v.Elem(), depth+1)
		}
	case reflect.Interface:
		f.tag('I')
		if v.IsNil() {
			f.tag(0)
			return
		}
		e := v.Elem()
		t := e.Type().String()
		f.buf = append(f.buf, t...)
		f.val(e, depth+1)
	case reflect.Struct:
		f.tag('{')
		for i := 0; i < v.NumField(); i++ {
			f.val(v.Field(i), depth+1)
		}
	case reflect.Array:
		f.tag('[')
		for i := 0; i < v.Len(); i++ {
			f.val(v.Index(i), depth+1)
		}
	case reflect.Slice:
		f.tag('S')
		if v.IsNil() {
			f.tag(0)
			return
		}
		f.u64(uint64(v.Len()))
		f.u64(uint64(v.Cap()))
		for i := 0; i < v.Len(); i++ {
			f.val(v.Index(i), depth+1)
		}
	case reflect.Map:
		f.tag('M')
		if v.IsNil() {
			f.tag(0)
			return
		}
		if !f.ptr(v.UnsafePointer(), v.Type()) {
			return
		}
		f.u64(uint64(v.Len()))
		type ent struct {
			k string
			v reflect.Value
		}
		ents := make([]ent, 0, v.Len())
		for it := v.MapRange(); it.Next(); {
			kf := &fingerprinter{ptrs: f.ptrs}
			k := it.Key()
			if k.Kind() == reflect.Interface && !k.IsNil() {
				k = k.Elem()
			}
			if k.Kind() == reflect.Pointer {
				// number known pointers; unknown ones get a number now
				kf.ptr(k.UnsafePointer(), k.Type())
			} else {
				kf.val(k, 0)
			}
			ents = append(ents, ent{string(kf.buf), it.Value()})
		}
		sort.Slice(ents, func(i, j int) bool { return ents[i].k < ents[j].k })
		for _, e := range ents {
			f.buf = append(f.buf, e.k...)
			f.val(e.v, depth+1)
		}
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		f.tag('X')
		f.ptr(v.UnsafePointer(), v.Type())
	default:
		f.tag('?')
	}
}
