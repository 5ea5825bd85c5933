//go:build go1.23

package simrt

import (
	"fmt"
	"math"
	"reflect"
	"unsafe"
)

// MapIt visits a map's entries in an order the run decides.
type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// MapIter starts ranging over m.
func MapIter[M ~map[K]V, K comparable, V any](m M) (k K, v V, it *MapIt[K, V]) {
	it = &MapIt[K, V]{m: m}
	if len(m) == 0 {
		return
	}
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) > 1 {
		ks := make([]any, len(keys))
		for i := range keys {
			ks[i] = keys[i]
		}
		ord := orderKeys(ks)
		it.keys = make([]K, len(keys))
		for i, o := range ord {
			it.keys[i] = keys[o]
		}
	} else {
		it.keys = keys
	}
	return
}

// Next advances; entries deleted meanwhile are not visited.
func (it *MapIt[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

// Touch gives a pointer that becomes a map key an identity that does not
// depend on its address.
func Touch[K any](k K) K {
	if S != nil {
		touchAny(any(k))
	}
	return k
}

// TouchFor is Touch with a conversion to the map's key type.
func TouchFor[M ~map[K]V, K comparable, V any](_ M, k K) K { return Touch(k) }

// idTable maps addresses to small numbers; open addressing.
type idTable struct {
	ptr  []unsafe.Pointer
	id   []int
	n    int
	next int
}

func (t *idTable) slot(p unsafe.Pointer) int {
	i := int((uintptr(p)>>3)*0x9e3779b1) & (len(t.ptr) - 1)
	for t.ptr[i] != nil && t.ptr[i] != p {
		i = (i + 1) & (len(t.ptr) - 1)
	}
	return i
}

func (t *idTable) get(p unsafe.Pointer) int {
	if p == nil {
		return 0
	}
	if 2*(t.n+1) > len(t.ptr) {
		op, oi := t.ptr, t.id
		t.ptr = make([]unsafe.Pointer, max(64, 2*len(op))) // a power of two
		t.id = make([]int, len(t.ptr))
		for i, q := range op {
			if q != nil {
				j := t.slot(q)
				t.ptr[j], t.id[j] = q, oi[i]
			}
		}
	}
	i := t.slot(p)
	if t.ptr[i] == nil {
		t.n++
		t.next++
		t.ptr[i], t.id[i] = p, t.next
	}
	return t.id[i]
}

type eface struct {
	typ  unsafe.Pointer
	data unsafe.Pointer
}

func touchAny(k any) {
	if k == nil || S == nil {
		return
	}
	switch reflect.TypeOf(k).Kind() {
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer, reflect.Map, reflect.Func:
		S.touch.get((*eface)(unsafe.Pointer(&k)).data)
	}
}

// skey is a key's sort key.
type skey struct {
	kind int
	i    int64
	u    uint64
	f    float64
	s    string
	sub  []skey
}

func (a *skey) cmp(b *skey) int {
	switch {
	case a.kind != b.kind:
		return sgn(a.kind < b.kind)
	case a.s != b.s:
		return sgn(a.s < b.s)
	case a.i != b.i:
		return sgn(a.i < b.i)
	case a.u != b.u:
		return sgn(a.u < b.u)
	case a.f != b.f:
		return sgn(a.f < b.f)
	}
	for i := range a.sub {
		if i >= len(b.sub) {
			return 1
		}
		if c := a.sub[i].cmp(&b.sub[i]); c != 0 {
			return c
		}
	}
	return 0
}

func sgn(less bool) int {
	if less {
		return -1
	}
	return 1
}

func keyOf(v reflect.Value) skey {
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return skey{i: 1}
		}
		return skey{}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return skey{i: v.Int()}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return skey{u: v.Uint()}
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		if math.IsNaN(f) {
			return skey{kind: -1}
		}
		return skey{f: f}
	case reflect.String:
		return skey{s: v.String()}
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
		if S == nil {
			return skey{u: uint64(v.Pointer())}
		}
		return skey{i: int64(S.touch.get(v.UnsafePointer()))}
	case reflect.Interface:
		if v.IsNil() {
			return skey{kind: -2}
		}
		e := v.Elem()
		k := keyOf(e)
		return skey{s: e.Type().String(), sub: []skey{k}}
	case reflect.Struct:
		var sub []skey
		for i := 0; i < v.NumField(); i++ {
			sub = append(sub, keyOf(v.Field(i)))
		}
		return skey{sub: sub}
	case reflect.Array:
		var sub []skey
		for i := 0; i < v.Len(); i++ {
			sub = append(sub, keyOf(v.Index(i)))
		}
		return skey{sub: sub}
	}
	return skey{s: fmt.Sprint(v.Kind())}
}

// orderKeys returns the order in which to visit keys.
func orderKeys(ks []any) []int {
	sk := make([]skey, len(ks))
	ord := make([]int, len(ks))
	for i, k := range ks {
		ord[i] = i
		if k == nil {
			sk[i] = skey{kind: -2}
			continue
		}
		sk[i] = keyOf(reflect.ValueOf(k))
		sk[i].s = reflect.TypeOf(k).String() + "\x00" + sk[i].s
	}
	// insertion sort: small, and stable
	for i := 1; i < len(ord); i++ {
		for j := i; j > 0 && sk[ord[j]].cmp(&sk[ord[j-1]]) < 0; j-- {
			ord[j], ord[j-1] = ord[j-1], ord[j]
		}
	}
	s := S
	if s == nil || s.killing {
		return ord
	}
	v := s.choose(func() int64 {
		if s.rng.Bool(s.prof.MapPermP) {
			return int64(s.rng.Uint64()>>2) | 1
		}
		return 0
	})
	if v != 0 {
		s.MapPerms++
		r := NewRng(uint64(v))
		for i := len(ord) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			ord[i], ord[j] = ord[j], ord[i]
		}
	}
	return ord
}

// OrderAny is orderKeys for the shims.
func OrderAny(ks []any) []int { return orderKeys(ks) }
