// Package vf is the specification vocabulary of the contracts in /verif/contracts.
// The deductive verifier (gv) gives these functions their logical meaning; this file gives the
// same functions an executable meaning so that a contract can be run on concrete inputs when an
// obligation fails (replay).  It is injected by overlay and is not part of the repository.
package vf

import (
	"bytes"
	"math/big"
	"reflect"
	"unsafe"
)

// Skip is raised when a precondition does not hold for a generated input.
type Skip struct{}

// Violation is raised when a postcondition does not hold.
type Violation struct{ Name string }

func Requires(f func() bool) {
	if !f() {
		panic(Skip{})
	}
}

func Ensures(name string, f func() bool) {
	if !f() {
		panic(Violation{name})
	}
}

// Assert is an intermediate lemma: proved, then available to what follows.
func Assert(name string, f func() bool) {
	if !f() {
		panic(Violation{name})
	}
}

// Cases tells the verifier to prove what follows separately for each value lo..hi of x.
func Cases(x, lo, hi int) {}

// Split tells the verifier to prove what follows separately for b and !b.
func Split(b bool) {}

// Modifies lists the locations the contract allows the target to change.
func Modifies(locs ...interface{}) {}

// Symbolic is true in the proof and false when the contract is run; it guards what only the proof's
// ghost state can tell.
func Symbolic() bool { return false }

func Forall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

func Exists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// ForallKey: f holds for every key of the map's key type that is relevant (concretely: present in
// any of the given maps).  f is a func(k K) bool.
func ForallKey(f interface{}, maps ...interface{}) bool {
	fv := reflect.ValueOf(f)
	for _, m := range maps {
		mv := reflect.ValueOf(m)
		if mv.Kind() == reflect.Ptr {
			mv = mv.Elem()
		}
		for _, k := range mv.MapKeys() {
			if !fv.Call([]reflect.Value{k})[0].Bool() {
				return false
			}
		}
	}
	return true
}

// ExistsKey: some key of the map satisfies f.
func ExistsKey(f interface{}, maps ...interface{}) bool {
	fv := reflect.ValueOf(f)
	for _, m := range maps {
		for _, k := range reflect.ValueOf(m).MapKeys() {
			if fv.Call([]reflect.Value{k})[0].Bool() {
				return true
			}
		}
	}
	return false
}

// Visited (loop invariants only): the map-range loop has already visited key k.
func Visited(k interface{}) bool { return false }

// Eq compares two values structurally; nil and empty slices are equal.
func Eq(a, b interface{}) bool { return deepEq(reflect.ValueOf(a), reflect.ValueOf(b), 0) }

func access(v reflect.Value) reflect.Value {
	if v.CanInterface() || !v.CanAddr() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

func addressable(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return v
	}
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	return n
}

func deepEq(a, b reflect.Value, d int) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	if d > 40 {
		return true
	}
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !deepEq(a.Index(i), b.Index(i), d+1) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !deepEq(a.Index(i), b.Index(i), d+1) {
				return false
			}
		}
		return true
	case reflect.Struct:
		if a.Type() == reflect.TypeOf(Int{}) {
			return val(*(*Int)(unsafe.Pointer(addressable(a).UnsafeAddr()))).Cmp(val(*(*Int)(unsafe.Pointer(addressable(b).UnsafeAddr())))) == 0
		}
		for i := 0; i < a.NumField(); i++ {
			if !deepEq(a.Field(i), b.Field(i), d+1) {
				return false
			}
		}
		return true
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		if a.Pointer() == b.Pointer() {
			return true
		}
		return deepEq(a.Elem(), b.Elem(), d+1)
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return deepEq(a.Elem(), b.Elem(), d+1)
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if !deepEq(a.MapIndex(k), b.MapIndex(k), d+1) {
				return false
			}
		}
		return true
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return true
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	}
	return false
}

// Snapshot returns a deep copy (for old values of heap state).
func Snapshot(x interface{}) interface{} {
	if x == nil {
		return nil
	}
	return deepCopy(reflect.ValueOf(x), map[uintptr]reflect.Value{}, 0).Interface()
}

// MapCopy returns a map with the same entries (the values are not copied).
func MapCopy(m interface{}) interface{} {
	v := reflect.ValueOf(m)
	if v.IsNil() {
		return m
	}
	n := reflect.MakeMap(v.Type())
	for _, k := range v.MapKeys() {
		n.SetMapIndex(k, v.MapIndex(k))
	}
	return n.Interface()
}

func deepCopy(v reflect.Value, seen map[uintptr]reflect.Value, d int) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return n
		}
		if o, ok := seen[v.Pointer()]; ok && o.Type() == v.Type() {
			return o
		}
		p := reflect.New(v.Type().Elem())
		seen[v.Pointer()] = p
		setAny(p.Elem(), deepCopy(v.Elem(), seen, d+1))
		return p.Convert(v.Type())
	case reflect.Struct:
		av := addressable2(v)
		for i := 0; i < v.NumField(); i++ {
			setAny(n.Field(i), deepCopy(access(av.Field(i)), seen, d+1))
		}
		return n
	case reflect.Array:
		av := addressable2(v)
		for i := 0; i < v.Len(); i++ {
			setAny(n.Index(i), deepCopy(access(av.Index(i)), seen, d+1))
		}
		return n
	case reflect.Slice:
		if v.IsNil() {
			return n
		}
		s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			setAny(s.Index(i), deepCopy(access(v.Index(i)), seen, d+1))
		}
		return s
	case reflect.Map:
		if v.IsNil() {
			return n
		}
		m := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			m.SetMapIndex(k, deepCopy(v.MapIndex(k), seen, d+1))
		}
		return m
	case reflect.Interface:
		if v.IsNil() {
			return n
		}
		n.Set(deepCopy(v.Elem(), seen, d+1))
		return n
	}
	n.Set(v)
	return n
}

func addressable2(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return v
	}
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	return n
}

func setAny(dst, src reflect.Value) {
	if !dst.CanSet() {
		dst = reflect.NewAt(dst.Type(), unsafe.Pointer(dst.UnsafeAddr())).Elem()
	}
	dst.Set(src)
}

// ---- mathematical integers ----

// Int is an unbounded integer.
type Int struct{ b *big.Int }

func val(a Int) *big.Int {
	if a.b == nil {
		return new(big.Int)
	}
	return a.b
}

func N(i int) Int     { return Int{big.NewInt(int64(i))} }
func I64(i int64) Int { return Int{big.NewInt(i)} }
func U(u uint64) Int  { return Int{new(big.Int).SetUint64(u)} }
func Big(s string) Int {
	n, ok := new(big.Int).SetString(s, 0)
	if !ok {
		panic("vf.Big: " + s)
	}
	return Int{n}
}
func Pow2(n int) Int        { return Int{new(big.Int).Lsh(big.NewInt(1), uint(n))} }
func (a Int) Add(b Int) Int { return Int{new(big.Int).Add(val(a), val(b))} }
func (a Int) Sub(b Int) Int { return Int{new(big.Int).Sub(val(a), val(b))} }
func (a Int) Mul(b Int) Int { return Int{new(big.Int).Mul(val(a), val(b))} }

// Div is floor division, Mod the matching remainder (divisor > 0).
func (a Int) Div(b Int) Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(val(a), val(b), m)
	return Int{q}
}
func (a Int) Mod(b Int) Int  { return Int{new(big.Int).Mod(val(a), val(b))} }

// Low64 is a modulo 2^64.
func (a Int) Low64() uint64 {
	return new(big.Int).And(val(a), new(big.Int).SetUint64(1<<64-1)).Uint64()
}
func (a Int) Eq(b Int) bool  { return val(a).Cmp(val(b)) == 0 }
func (a Int) Le(b Int) bool  { return val(a).Cmp(val(b)) <= 0 }
func (a Int) Lt(b Int) bool  { return val(a).Cmp(val(b)) < 0 }
func (a Int) String() string { return val(a).String() }

// Ite selects between two integers.
func Ite(c bool, a, b Int) Int {
	if c {
		return a
	}
	return b
}

// Rope is the content of a byte stream.
type Rope struct{ b []byte }

func Cat(r ...Rope) Rope {
	var o Rope
	for _, e := range r {
		o.b = append(o.b, e.b...)
	}
	return o
}
func Bytes(b []byte) Rope { return Rope{append([]byte{}, b...)} }
func Byte(b byte) Rope    { return Rope{[]byte{b}} }

// Uv is the shortest base 128 encoding of x, least significant group first.
func Uv(x uint64) Rope {
	var o Rope
	for x >= 128 {
		o.b = append(o.b, byte(x)|128)
		x >>= 7
	}
	o.b = append(o.b, byte(x))
	return o
}

func fixed(x uint64, n int, be bool) Rope {
	o := Rope{make([]byte, n)}
	for i := range o.b {
		k := i
		if be {
			k = n - 1 - i
		}
		o.b[k] = byte(x >> uint(8*i))
	}
	return o
}
func LE16(x uint16) Rope { return fixed(uint64(x), 2, false) }
func LE32(x uint32) Rope { return fixed(uint64(x), 4, false) }
func LE64(x uint64) Rope { return fixed(x, 8, false) }
func BE16(x uint16) Rope { return fixed(uint64(x), 2, true) }
func BE32(x uint32) Rope { return fixed(uint64(x), 4, true) }
func BE64(x uint64) Rope { return fixed(x, 8, true) }

// Each is f(lo), f(lo+1), ..., f(hi-1) one after the other.
func Each(lo, hi int, f func(i int) Rope) Rope {
	var o Rope
	for i := lo; i < hi; i++ {
		o.b = append(o.b, f(i).b...)
	}
	return o
}

// Written is what a buffer holds, Taken what has been read from a reader (in a contract: since its entry) and
// Untaken what is still to be read.
func Written(b *bytes.Buffer) Rope { return Bytes(b.Bytes()) }
func Taken(r *bytes.Reader) Rope {
	o := Rope{make([]byte, int(r.Size())-r.Len())}
	r.ReadAt(o.b, 0)
	return o
}
func Untaken(r *bytes.Reader) Rope {
	o := Rope{make([]byte, r.Len())}
	r.ReadAt(o.b, r.Size()-int64(r.Len()))
	return o
}
func (r Rope) Bytes() []byte    { return append([]byte{}, r.b...) }
func (r Rope) Len() int       { return len(r.b) }
func (r Rope) Eq(o Rope) bool { return bytes.Equal(r.b, o.b) }

// AllocLimit bounds the bytes of every single allocation of a slice in the target.
func AllocLimit(n Int) {}
