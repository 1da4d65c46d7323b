package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- values ----

type Val interface{} // *Term or one of the pointer types below

type StructV struct {
	T types.Type
	F []Val
}
type ArrayV struct {
	Elem types.Type
	N    int64 // -1: slice backing store
	S    Seq
}
type PtrV struct {
	Nil  *Term
	Obj  *Obj
	Path []PathEl
}
type PathEl struct {
	Field int // >=0 field
	Idx   *Term
}
type SliceV struct {
	Elem          types.Type
	Obj           *Obj
	Path          []PathEl
	Off, Len, Cap *Term
	Nil           *Term
}
type StrV struct {
	S   Seq
	Len *Term
	lit *string
}
type Alt struct {
	Tag int64
	T   types.Type
	V   Val
}
type IfaceV struct {
	IT   types.Type
	Tag  *Term
	Alts []Alt
	Open bool // symbolic with open set of dynamic types
}
type MapV struct {
	T   *types.Map
	Nil *Term
	Obj *Obj
}
type FuncV struct {
	Fn   *ssa.Function
	Bind []Val
	Nil  *Term
	Name string // opaque function value
	Sig  *types.Signature
}
type TupleV struct{ V []Val }
type ChanV struct{ name string }
type BuiltinV struct{ B *ssa.Builtin }

// map contents
type MapC struct {
	T    *types.Map
	Name string // symbolic base name ("" = empty)
	Idx  []*Term
	Prev *MapC // update layer
	Key  []*Term
	KeyV Val
	ValV Val
	Del  bool
	Len  *Term
}

// ---- objects ----

type Obj struct {
	id   int
	T    types.Type // content type; for slice backing: *types.Slice
	name string
	idx  []*Term
	sym  bool // content initially symbolic
	ro   bool
	merged bool // one of two objects, known by its content only
	own  bool // backing array that the verified code allocated itself
	// symbolic objects parameterised by indices are read-only
	glob *ssa.Global
	snap *Obj
	// a lazy snapshot: what it refers to is read as it was in this state
	snapSrc  *State
	snapSeen map[*Obj]*Obj
}

var objCtr int

func newObj(T types.Type, name string) *Obj {
	objCtr++
	return &Obj{id: objCtr, T: T, name: name}
}

var symObjs = map[string]*Obj{}

func symObj(T types.Type, name string, idx []*Term) *Obj {
	k := name
	for _, t := range idx {
		k += fmt.Sprintf("|%d", t.id)
	}
	if o, ok := symObjs[k]; ok {
		return o
	}
	o := newObj(T, name)
	o.sym = true
	o.idx = idx
	o.ro = len(idx) > 0
	symObjs[k] = o
	return o
}

// ---- sequences ----

type Seq interface {
	At(x *Ex, i *Term) Val
	key(x *Ex, holes *[]*Term) string
}

type SeqConc struct{ E []Val }
type SeqSym struct {
	Elem types.Type
	Name string
	Idx  []*Term
}
type SeqAtom struct{ T *Term } // byte array of sort B<n>
type SeqStore struct {
	S Seq
	I *Term
	V Val
}
type SeqCat struct {
	A Seq
	L *Term
	B Seq
}
type SeqShift struct {
	S Seq
	D *Term
}
type SeqIte struct {
	C    *Term
	A, B Seq
}
type SeqZero struct{ Elem types.Type }
type SeqStr struct{ S string }
type SeqFn struct { // comprehension
	K string
	H []*Term
	F func(i *Term) Val
}

// SeqOver: B overwrites A on [Lo,Hi) : elements B(i-Lo)
type SeqOver struct {
	A      Seq
	Lo, Hi *Term
	B      Seq
}

func (s *SeqConc) At(x *Ex, i *Term) Val {
	if n, ok := i.isInt64(); ok {
		if n < 0 || n >= int64(len(s.E)) {
			if len(s.E) > 0 {
				return s.E[0]
			}
			return nil
		}
		return s.E[n]
	}
	n := len(s.E)
	if n == 0 {
		return nil
	}
	lo, hi := 0, n-1
	if i.lo != nil && i.lo.IsInt64() && i.lo.Int64() > 0 && i.lo.Int64() < int64(n) {
		lo = int(i.lo.Int64())
	}
	if i.hi != nil && i.hi.IsInt64() && i.hi.Int64() < int64(n) && i.hi.Int64() >= int64(lo) {
		hi = int(i.hi.Int64())
	}
	// large constant tables: use an uninterpreted function with a defining axiom? ite chain is fine up to 256
	r := s.E[hi]
	for k := hi - 1; k >= lo; k-- {
		r = mustMerge(x, Eq(i, C(int64(k))), s.E[k], r)
	}
	return r
}
func (s *SeqConc) key(x *Ex, h *[]*Term) string {
	if t := bytesAtom(x, s); t != nil {
		*h = append(*h, t)
		return t.sort.Name
	}
	var b strings.Builder
	b.WriteString("[")
	for _, e := range s.E {
		b.WriteString(skel(x, e, h))
		b.WriteString(",")
	}
	b.WriteString("]")
	return b.String()
}

func bytesAtom(x *Ex, s *SeqConc) *Term {
	n := len(s.E)
	if n < 8 || n > 128 {
		return nil
	}
	var as []*Term
	for _, e := range s.E {
		t, ok := e.(*Term)
		if !ok || t.sort != SInt || t.lo == nil || t.lo.Sign() < 0 || t.hi == nil || t.hi.Cmp(bi(255)) > 0 {
			return nil
		}
		as = append(as, t)
	}
	so := bytesSort(int64(n))
	return App("b.mk"+so.Name, so, nil, nil, as...)
}

func (s *SeqSym) At(x *Ex, i *Term) Val {
	return x.symVal(s.Elem, s.Name, append(append([]*Term{}, s.Idx...), i))
}
func (s *SeqSym) key(x *Ex, h *[]*Term) string {
	*h = append(*h, s.Idx...)
	return "S:" + s.Name
}
func (s *SeqAtom) At(x *Ex, i *Term) Val        { return bAt(s.T, i) }
func (s *SeqAtom) key(x *Ex, h *[]*Term) string { *h = append(*h, s.T); return s.T.sort.Name }
func (s *SeqStore) At(x *Ex, i *Term) Val {
	c := Eq(i, s.I)
	if x.cur != nil && c != True && c != False {
		c = x.cur.simp(c)
	}
	if c == True {
		return s.V
	}
	if c == False {
		return s.S.At(x, i)
	}
	return mustMerge(x, c, s.V, s.S.At(x, i))
}
func (s *SeqStore) key(x *Ex, h *[]*Term) string {
	k := "st(" + s.S.key(x, h)
	*h = append(*h, s.I)
	return k + ";" + skel(x, s.V, h) + ")"
}
func (s *SeqCat) At(x *Ex, i *Term) Val {
	c := Lt(i, s.L)
	if c == True {
		return s.A.At(x, i)
	}
	if c == False {
		return s.B.At(x, Sub(i, s.L))
	}
	a, b := s.A.At(x, i), s.B.At(x, Sub(i, s.L))
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	return mustMerge(x, c, a, b)
}
func (s *SeqCat) key(x *Ex, h *[]*Term) string {
	k := "cat(" + s.A.key(x, h)
	*h = append(*h, s.L)
	return k + ";" + s.B.key(x, h) + ")"
}
func (s *SeqShift) At(x *Ex, i *Term) Val { return s.S.At(x, Add(i, s.D)) }
func (s *SeqShift) key(x *Ex, h *[]*Term) string {
	k := "sh(" + s.S.key(x, h) + ")"
	*h = append(*h, s.D)
	return k
}
func (s *SeqIte) At(x *Ex, i *Term) Val { return mustMerge(x, s.C, s.A.At(x, i), s.B.At(x, i)) }
func (s *SeqIte) key(x *Ex, h *[]*Term) string {
	*h = append(*h, s.C)
	return "ite(" + s.A.key(x, h) + ";" + s.B.key(x, h) + ")"
}
func (s *SeqZero) At(x *Ex, i *Term) Val        { return x.zero(s.Elem) }
func (s *SeqZero) key(x *Ex, h *[]*Term) string { return "zero:" + s.Elem.String() }
func (s *SeqStr) At(x *Ex, i *Term) Val {
	if n, ok := i.isInt64(); ok {
		if n >= 0 && n < int64(len(s.S)) {
			return C(int64(s.S[n]))
		}
		return C(0)
	}
	if len(s.S) == 0 {
		return C(0)
	}
	r := C(int64(s.S[len(s.S)-1]))
	for k := len(s.S) - 2; k >= 0; k-- {
		r = Ite(Eq(i, C(int64(k))), C(int64(s.S[k])), r)
	}
	return r
}
func (s *SeqStr) key(x *Ex, h *[]*Term) string { return fmt.Sprintf("%q", s.S) }
func (s *SeqFn) At(x *Ex, i *Term) Val         { return s.F(i) }
func (s *SeqFn) key(x *Ex, h *[]*Term) string  { *h = append(*h, s.H...); return "fn:" + s.K }
func (s *SeqOver) At(x *Ex, i *Term) Val {
	c := And(Le(s.Lo, i), Lt(i, s.Hi))
	if c == True {
		return s.B.At(x, Sub(i, s.Lo))
	}
	if c == False {
		return s.A.At(x, i)
	}
	a, b := s.A.At(x, i), s.B.At(x, Sub(i, s.Lo))
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	return mustMerge(x, c, b, a)
}
func (s *SeqOver) key(x *Ex, h *[]*Term) string {
	k := "ov(" + s.A.key(x, h)
	*h = append(*h, s.Lo, s.Hi)
	return k + ";" + s.B.key(x, h) + ")"
}

func shiftSeq(s Seq, d *Term) Seq {
	if n, ok := d.isInt64(); ok {
		if n == 0 {
			return s
		}
		switch q := s.(type) {
		case *SeqConc:
			if n > 0 && n <= int64(len(q.E)) {
				return &SeqConc{q.E[n:]}
			}
		case *SeqStr:
			if n > 0 && n <= int64(len(q.S)) {
				return &SeqStr{q.S[n:]}
			}
		case *SeqZero:
			return q
		}
	}
	if q, ok := s.(*SeqShift); ok {
		return shiftSeq(q.S, Add(q.D, d))
	}
	return &SeqShift{s, d}
}

func storeSeq(x *Ex, s Seq, i *Term, v Val) Seq {
	if n, ok := i.isInt64(); ok {
		if q, ok := s.(*SeqConc); ok && n >= 0 && n < int64(len(q.E)) {
			e := append([]Val{}, q.E...)
			e[n] = v
			return &SeqConc{e}
		}
		if q, ok := s.(*SeqAtom); ok {
			var w int64
			fmt.Sscanf(q.T.sort.Name, "B%d", &w)
			e := make([]Val, w)
			for k := range e {
				e[k] = bAt(q.T, C(int64(k)))
			}
			if n >= 0 && n < w {
				e[n] = v
			}
			return &SeqConc{e}
		}
	}
	if q, ok := s.(*SeqStore); ok && q.I == i {
		return &SeqStore{q.S, i, v}
	}
	return &SeqStore{s, i, v}
}

// expandSeq gives the first n elements concretely
func expandSeq(x *Ex, s Seq, n int64) []Val {
	if q, ok := s.(*SeqConc); ok && int64(len(q.E)) == n {
		return q.E
	}
	e := make([]Val, n)
	for i := range e {
		e[i] = s.At(x, C(int64(i)))
	}
	return e
}

// ---- skeletons: canonical identity of a composite value as (key, term holes) ----

func skel(x *Ex, v Val, h *[]*Term) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case *Term:
		*h = append(*h, v)
		return v.sort.Name
	case *StructV:
		var b strings.Builder
		b.WriteString("{")
		for i, f := range v.F {
			if st, ok := v.T.Underlying().(*types.Struct); ok && (namedIs(st.Field(i).Type(), "sync", "Mutex") || namedIs(st.Field(i).Type(), "sync", "RWMutex")) {
				continue // whether a lock is held makes no difference to a value
			}
			b.WriteString(skel(x, f, h))
			b.WriteString(",")
		}
		b.WriteString("}")
		return b.String()
	case *ArrayV:
		if v.N >= 0 && v.N <= 128 {
			if q, ok := v.S.(*SeqAtom); ok {
				return q.key(x, h)
			}
			c := &SeqConc{expandSeq(x, v.S, v.N)}
			return c.key(x, h)
		}
		return fmt.Sprintf("a%d:%s", v.N, v.S.key(x, h))
	case *SliceV:
		if n, ok := v.Len.isInt64(); ok && n <= 128 {
			if n == 0 {
				return "sl0"
			}
			s := x.sliceSeq(v)
			if q, ok := s.(*SeqAtom); ok && q.T.sort == bytesSort(n) {
				return "sl" + q.key(x, h)
			}
			return "sl" + (&SeqConc{expandSeq(x, s, n)}).key(x, h)
		}
		if isByte(v.Elem) && v.Obj != nil && x.cur != nil {
			if r := ropeNorm(x, x.segsOf(x.sliceSeq(v), v.Len)); len(r.S) != 1 || r.S[0].K != sBytes {
				return "sl(R" + r.key(x, h) + ")"
			} else {
				k := "sl(" + r.S[0].S.key(x, h) + ")"
				*h = append(*h, r.S[0].N)
				return k
			}
		}
		k := "sl(" + x.trimSeq(x.sliceSeq(v), v.Len).key(x, h) + ")"
		*h = append(*h, v.Len)
		return k
	case *StrV:
		if v.lit != nil {
			return fmt.Sprintf("%q", *v.lit)
		}
		k := "str(" + v.S.key(x, h) + ")"
		*h = append(*h, v.Len)
		return k
	case *IfaceV:
		*h = append(*h, v.Tag)
		k := "if("
		for _, a := range v.Alts {
			k += fmt.Sprintf("%d:%s,", a.Tag, skel(x, a.V, h))
		}
		return k + ")"
	case *PtrV:
		if v.Obj == nil {
			return "nilptr"
		}
		*h = append(*h, v.Nil)
		if c := x.load(x.cur, v, nil); c != nil {
			return "p(" + skel(x, c, h) + ")"
		}
		return "p?"
	case *MapV:
		c, _ := x.objVal(x.cur, v.Obj).(*MapC)
		return "m(" + c.key(x, h) + ")"
	case *FuncV:
		k := "f:" + v.Name
		if v.Fn != nil {
			k = "f:" + v.Fn.String()
		}
		for _, b := range v.Bind {
			k += "," + skel(x, b, h)
		}
		return k
	case *TupleV:
		k := "("
		for _, b := range v.V {
			k += skel(x, b, h) + ","
		}
		return k + ")"
	case *RopeV:
		return x.resolve(v.R).key(x, h)
	}
	x.fail("skel: %T", v)
	return ""
}

func (m *MapC) key(x *Ex, h *[]*Term) string {
	if m.Prev == nil {
		*h = append(*h, m.Idx...)
		return "M:" + m.Name
	}
	k := "u(" + m.Prev.key(x, h)
	*h = append(*h, m.Key...)
	if m.Del {
		return k + ";del)"
	}
	return k + ";" + skel(x, m.ValV, h) + ")"
}

// ---- symbolic values by type ----

var maxLen = pow2(40)

func (x *Ex) symVal(T types.Type, name string, idx []*Term) Val {
	if s := x.specialSym(T, name, idx); s != nil {
		return s
	}
	switch u := T.Underlying().(type) {
	case *types.Basic:
		if it, ok := intType(T); ok {
			lo, hi := it.rng()
			return App(name, SInt, lo, hi, idx...)
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return App(name, SBool, nil, nil, idx...)
		case u.Info()&types.IsString != 0:
			return &StrV{S: &SeqSym{types.Typ[types.Byte], name + ".s", idx}, Len: App(name+".len", SInt, bi(0), maxLen, idx...)}
		case u.Info()&types.IsFloat != 0:
			return App(name, mkSort("Float"), nil, nil, idx...)
		case u.Kind() == types.UnsafePointer:
			return App(name, SInt, nil, nil, idx...)
		}
	case *types.Struct:
		sv := &StructV{T: T, F: make([]Val, u.NumFields())}
		for i := range sv.F {
			sv.F[i] = x.symVal(u.Field(i).Type(), name+"."+u.Field(i).Name(), idx)
		}
		return sv
	case *types.Array:
		n := u.Len()
		if isByte(u.Elem()) && n >= 8 {
			return &ArrayV{u.Elem(), n, &SeqAtom{App(name, bytesSort(n), nil, nil, idx...)}}
		}
		if n <= 64 {
			es := make([]Val, n)
			for i := range es {
				es[i] = x.symVal(u.Elem(), fmt.Sprintf("%s[%d]", name, i), idx)
			}
			return &ArrayV{u.Elem(), n, &SeqConc{es}}
		}
		return &ArrayV{u.Elem(), n, &SeqSym{u.Elem(), name + "[]", idx}}
	case *types.Slice:
		ln := App(name+".len", SInt, bi(0), maxLen, idx...)
		ex := App(name+".xcap", SInt, bi(0), maxLen, idx...)
		nl := And(Eq(ln, C(0)), App(name+".nil", SBool, nil, nil, idx...))
		return &SliceV{Elem: u.Elem(), Obj: symObj(T, name+"[]", idx), Off: C(0), Len: ln, Cap: Add(ln, ex), Nil: nl}
	case *types.Pointer:
		return &PtrV{Nil: App(name+".nil", SBool, nil, nil, idx...), Obj: symObj(u.Elem(), name+".*", idx)}
	case *types.Interface:
		return x.symIface(T, name, idx)
	case *types.Map:
		return &MapV{T: u, Nil: App(name+".nil", SBool, nil, nil, idx...), Obj: symObj(T, name+".m", idx)}
	case *types.Signature:
		return &FuncV{Name: name, Sig: u, Nil: App(name+".nil", SBool, nil, nil, idx...), Bind: termVals(idx)}
	case *types.Chan:
		return &ChanV{name}
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.V = append(tv.V, x.symVal(u.At(i).Type(), fmt.Sprintf("%s.%d", name, i), idx))
		}
		return tv
	}
	x.fail("symVal: %s", T)
	return nil
}

func termVals(ts []*Term) (r []Val) {
	for _, t := range ts {
		r = append(r, t)
	}
	return
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isError(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (x *Ex) symIface(T types.Type, name string, idx []*Term) Val {
	if isError(T) {
		return &IfaceV{IT: T, Tag: App(name+".err", SInt, bi(0), nil, idx...), Open: true}
	}
	impl := x.implementors(T)
	if impl == nil {
		return &IfaceV{IT: T, Tag: App(name+".tag", SInt, bi(0), nil, idx...), Open: true}
	}
	hi := bi(int64(len(impl)))
	if T.Underlying().(*types.Interface).NumMethods() == 0 {
		hi = nil // values of any other type, which nothing tells apart
	}
	v := &IfaceV{IT: T, Tag: App(name+".tag", SInt, bi(0), hi, idx...)}
	for i, t := range impl {
		v.Alts = append(v.Alts, Alt{int64(i + 1), t, x.symVal(t, name+".("+typeName(t)+")", idx)})
	}
	return v
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// initial content of a symbolic object
func (x *Ex) symContent(o *Obj) Val {
	if strings.HasSuffix(o.name, ".*") { // target of a pointer
		return x.symVal(o.T, o.name, o.idx)
	}
	switch u := o.T.Underlying().(type) {
	case *types.Slice:
		return &ArrayV{u.Elem(), -1, &SeqSym{u.Elem(), o.name, o.idx}}
	case *types.Map:
		return &MapC{T: u, Name: o.name, Idx: o.idx, Len: App(o.name+".len", SInt, bi(0), maxLen, o.idx...)}
	}
	return x.symVal(o.T, o.name, o.idx)
}

func (x *Ex) zero(T types.Type) Val {
	if s := x.specialZero(T); s != nil {
		return s
	}
	switch u := T.Underlying().(type) {
	case *types.Basic:
		if _, ok := intType(T); ok {
			return C(0)
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsString != 0:
			return strLit("")
		case u.Info()&types.IsFloat != 0:
			return Var("float.0", mkSort("Float"), nil, nil)
		case u.Kind() == types.UntypedNil:
			return &PtrV{Nil: True}
		case u.Kind() == types.UnsafePointer:
			return C(0)
		}
	case *types.Struct:
		sv := &StructV{T: T, F: make([]Val, u.NumFields())}
		for i := range sv.F {
			sv.F[i] = x.zero(u.Field(i).Type())
		}
		return sv
	case *types.Array:
		n := u.Len()
		if n <= 128 {
			es := make([]Val, n)
			for i := range es {
				es[i] = x.zero(u.Elem())
			}
			return &ArrayV{u.Elem(), n, &SeqConc{es}}
		}
		return &ArrayV{u.Elem(), n, &SeqZero{u.Elem()}}
	case *types.Slice:
		return &SliceV{Elem: u.Elem(), Off: C(0), Len: C(0), Cap: C(0), Nil: True}
	case *types.Pointer:
		return &PtrV{Nil: True}
	case *types.Interface:
		return &IfaceV{IT: T, Tag: C(0)}
	case *types.Map:
		return &MapV{T: u, Nil: True}
	case *types.Signature:
		return &FuncV{Nil: True, Sig: u}
	case *types.Chan:
		return &ChanV{"nil"}
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.V = append(tv.V, x.zero(u.At(i).Type()))
		}
		return tv
	}
	x.fail("zero: %s", T)
	return nil
}

func strLit(s string) *StrV {
	return &StrV{S: &SeqStr{s}, Len: C(int64(len(s))), lit: &s}
}

// ---- merging ----

func mustMerge(x *Ex, c *Term, a, b Val) Val {
	x.reading++
	v, ok := x.merge(c, a, b)
	x.reading--
	if !ok {
		x.fail("cannot merge %s / %s", vstr(a), vstr(b))
	}
	return v
}

func samePath(a, b []PathEl) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (x *Ex) merge(c *Term, a, b Val) (Val, bool) {
	if a == b || c == True {
		return a, true
	}
	if c == False {
		return b, true
	}
	if a == nil || b == nil {
		return nil, false
	}
	switch a := a.(type) {
	case *Term:
		t, ok := b.(*Term)
		if !ok || t.sort != a.sort {
			return nil, false
		}
		return Ite(c, a, t), true
	case *StructV:
		q, ok := b.(*StructV)
		if !ok || len(q.F) != len(a.F) {
			return nil, false
		}
		r := &StructV{T: a.T, F: make([]Val, len(a.F))}
		same := true
		for i := range a.F {
			r.F[i], ok = x.merge(c, a.F[i], q.F[i])
			if !ok {
				return nil, false
			}
			if r.F[i] != a.F[i] {
				same = false
			}
		}
		if same {
			return a, true
		}
		return r, true
	case *ArrayV:
		q, ok := b.(*ArrayV)
		if !ok || q.N != a.N {
			return nil, false
		}
		s, ok := x.mergeSeq(c, a.S, q.S, a.N)
		if !ok {
			return nil, false
		}
		if s == a.S {
			return a, true
		}
		return &ArrayV{a.Elem, a.N, s}, true
	case *PtrV:
		q, ok := b.(*PtrV)
		if !ok {
			return nil, false
		}
		if a.Obj == nil || a.Nil == True {
			return &PtrV{Nil: Ite(c, True, q.Nil), Obj: q.Obj, Path: q.Path}, true
		}
		if q.Obj == nil || q.Nil == True {
			return &PtrV{Nil: Ite(c, a.Nil, True), Obj: a.Obj, Path: a.Path}, true
		}
		if q.Obj != a.Obj && q.Obj.ro && a.Obj.ro && q.Obj.name == a.Obj.name && len(q.Obj.idx) == len(a.Obj.idx) && samePath(a.Path, q.Path) {
			// the same container read at another place
			idx := make([]*Term, len(a.Obj.idx))
			for i := range idx {
				if a.Obj.idx[i].sort != q.Obj.idx[i].sort {
					return nil, false
				}
				idx[i] = Ite(c, a.Obj.idx[i], q.Obj.idx[i])
			}
			return &PtrV{Nil: Ite(c, a.Nil, q.Nil), Obj: symObj(a.Obj.T, a.Obj.name, idx), Path: a.Path}, true
		}
		if q.Obj != a.Obj || !samePath(a.Path, q.Path) {
			if !x.spec || x.reading == 0 || x.cur == nil || !x.readable(a.Obj) || !x.readable(q.Obj) {
				return nil, false
			}
			// contracts only read: the content is all that matters, as long as nobody asks for the identity
			m, ok := x.merge(c, x.load(x.cur, a, nil), x.load(x.cur, q, nil))
			if !ok {
				return nil, false
			}
			o := newObj(a.Obj.T, "merged")
			o.sym, o.ro, o.merged = true, true, true
			x.symCache[o] = m
			return &PtrV{Nil: Ite(c, a.Nil, q.Nil), Obj: o}, true
		}
		return &PtrV{Nil: Ite(c, a.Nil, q.Nil), Obj: a.Obj, Path: a.Path}, true
	case *SliceV:
		q, ok := b.(*SliceV)
		if !ok {
			return nil, false
		}
		r := &SliceV{Elem: a.Elem, Obj: a.Obj, Path: a.Path, Off: Ite(c, a.Off, q.Off), Len: Ite(c, a.Len, q.Len), Cap: Ite(c, a.Cap, q.Cap), Nil: Ite(c, a.Nil, q.Nil)}
		if a.Obj == nil {
			r.Obj, r.Path, r.Off = q.Obj, q.Path, q.Off
		} else if q.Obj == nil {
			r.Off = a.Off
		} else if a.Obj != q.Obj || !samePath(a.Path, q.Path) {
			if !x.spec || x.reading == 0 || x.cur == nil || !x.readable(a.Obj) || !x.readable(q.Obj) {
				return nil, false
			}
			// contracts only read: the content is all that matters
			o := newObj(types.NewSlice(a.Elem), "merged")
			o.sym, o.ro = true, true
			x.symCache[o] = &ArrayV{a.Elem, -1, &SeqIte{c, x.sliceSeq(a), x.sliceSeq(q)}}
			r.Obj, r.Path, r.Off = o, nil, C(0)
		}
		return r, true
	case *StrV:
		q, ok := b.(*StrV)
		if !ok {
			return nil, false
		}
		if a.lit != nil && q.lit != nil && *a.lit == *q.lit {
			return a, true
		}
		return &StrV{S: &SeqIte{c, a.S, q.S}, Len: Ite(c, a.Len, q.Len)}, true
	case *IfaceV:
		q, ok := b.(*IfaceV)
		if !ok {
			return nil, false
		}
		r := &IfaceV{IT: a.IT, Tag: Ite(c, a.Tag, q.Tag), Open: a.Open || q.Open}
		r.Alts = append(r.Alts, a.Alts...)
		for _, y := range q.Alts {
			found := false
			for i, z := range r.Alts {
				if z.Tag == y.Tag {
					m, ok := x.merge(c, z.V, y.V)
					if !ok {
						return nil, false
					}
					r.Alts[i].V = m
					found = true
				}
			}
			if !found {
				r.Alts = append(r.Alts, y)
			}
		}
		return r, true
	case *MapV:
		q, ok := b.(*MapV)
		if !ok {
			return nil, false
		}
		if a.Obj == nil {
			return &MapV{T: a.T, Nil: Ite(c, a.Nil, q.Nil), Obj: q.Obj}, true
		}
		if q.Obj == nil || q.Obj == a.Obj {
			return &MapV{T: a.T, Nil: Ite(c, a.Nil, q.Nil), Obj: a.Obj}, true
		}
		return nil, false
	case *TupleV:
		q, ok := b.(*TupleV)
		if !ok || len(q.V) != len(a.V) {
			return nil, false
		}
		r := &TupleV{}
		for i := range a.V {
			m, ok := x.merge(c, a.V[i], q.V[i])
			if !ok {
				return nil, false
			}
			r.V = append(r.V, m)
		}
		return r, true
	case *FuncV:
		q, ok := b.(*FuncV)
		if ok && q.Fn == a.Fn && len(a.Bind) == 0 && len(q.Bind) == 0 && a.Name == q.Name {
			return a, true
		}
		return nil, false
	case *RopeV:
		q, ok := b.(*RopeV)
		if !ok {
			return nil, false
		}
		if a.W != q.W && !(a.W != nil && q.W != nil && ropeSame(x, a.W, q.W)) {
			a, q = &RopeV{R: a.R, C: a.C}, &RopeV{R: q.R, C: q.C}
		}
		same := func(a, b *Rope) bool { return a == b || a != nil && b != nil && ropeSame(x, a, b) }
		if same(a.R, q.R) && same(a.C, q.C) && same(a.W, q.W) {
			return a, true
		}
		if x.spec && a.C == nil && q.C == nil {
			return &RopeV{R: &Rope{[]*Seg{{K: sIte, C: c, A: a.R, B: q.R}}}}, true
		}
		return nil, false
	}
	return nil, false
}

func (x *Ex) mergeSeq(c *Term, a, b Seq, n int64) (Seq, bool) {
	if a == b {
		return a, true
	}
	if p, ok := a.(*SeqAtom); ok {
		if q, ok := b.(*SeqAtom); ok && p.T.sort == q.T.sort {
			return &SeqAtom{Ite(c, p.T, q.T)}, true
		}
	}
	p, ok1 := a.(*SeqConc)
	q, ok2 := b.(*SeqConc)
	if ok1 && ok2 && len(p.E) == len(q.E) {
		r := &SeqConc{make([]Val, len(p.E))}
		for i := range p.E {
			m, ok := x.merge(c, p.E[i], q.E[i])
			if !ok {
				return nil, false
			}
			r.E[i] = m
		}
		return r, true
	}
	return &SeqIte{c, a, b}, true
}

func vstr(v Val) string {
	switch v := v.(type) {
	case nil:
		return "<nil>"
	case *Term:
		return v.String()
	case *StructV:
		s := typeName(v.T) + "{"
		for _, f := range v.F {
			s += vstr(f) + ", "
		}
		return s + "}"
	case *PtrV:
		if v.Obj == nil {
			return "nil"
		}
		return fmt.Sprintf("&o%d(%s)%v nil=%s", v.Obj.id, v.Obj.name, v.Path, v.Nil)
	case *SliceV:
		return fmt.Sprintf("slice(len %s)", v.Len)
	case *IfaceV:
		return fmt.Sprintf("iface(%s)", v.Tag)
	case *StrV:
		if v.lit != nil {
			return fmt.Sprintf("%q", *v.lit)
		}
	case *TupleV:
		s := "("
		for _, f := range v.V {
			s += vstr(f) + ", "
		}
		return s + ")"
	}
	return fmt.Sprintf("%T", v)
}

// ---- equality ----

// eqVal builds the Go == (or deep, for sequences) equality term
func (x *Ex) eqVal(a, b Val) *Term {
	switch a := a.(type) {
	case *Term:
		return Eq(a, b.(*Term))
	case *StructV:
		q := b.(*StructV)
		var cs []*Term
		st := a.T.Underlying().(*types.Struct)
		for i := range a.F {
			if st.Field(i).Name() == "_" {
				continue
			}
			cs = append(cs, x.eqVal(a.F[i], q.F[i]))
		}
		return And(cs...)
	case *ArrayV:
		q := b.(*ArrayV)
		p1, ok1 := a.S.(*SeqAtom)
		p2, ok2 := q.S.(*SeqAtom)
		if ok1 && ok2 {
			return Eq(p1.T, p2.T)
		}
		if a.N <= 128 {
			ta, tb := x.atomOf(a), x.atomOf(q)
			if ta != nil && tb != nil {
				return Eq(ta, tb)
			}
			var cs []*Term
			for i := int64(0); i < a.N; i++ {
				cs = append(cs, x.eqVal(a.S.At(x, C(i)), q.S.At(x, C(i))))
			}
			return And(cs...)
		}
		return x.seqEq(a.S, q.S, C(a.N))
	case *StrV:
		q := b.(*StrV)
		if a.lit != nil && q.lit != nil {
			return Bool(*a.lit == *q.lit)
		}
		if a.S == q.S {
			return Eq(a.Len, q.Len)
		}
		return And(Eq(a.Len, q.Len), x.seqEq(a.S, q.S, a.Len))
	case *PtrV:
		q, ok := b.(*PtrV)
		if !ok {
			break
		}
		if a.Obj == nil || q.Obj == nil {
			return And(a.Nil, q.Nil)
		}
		if a.Obj.merged || q.Obj.merged {
			if a.Nil == True || q.Nil == True {
				return And(a.Nil, q.Nil)
			}
			x.fail("identity of a merged pointer")
		}
		if a.Obj == q.Obj {
			if samePath(a.Path, q.Path) {
				return Eq(a.Nil, q.Nil)
			}
			return And(a.Nil, q.Nil)
		}
		if a.Obj.ro && q.Obj.ro && a.Obj.name == q.Obj.name {
			// pointers read from symbolic containers: identity unknown
			ra := App(a.Obj.name+".ref", SInt, nil, nil, a.Obj.idx...)
			rb := App(q.Obj.name+".ref", SInt, nil, nil, q.Obj.idx...)
			return Or(And(a.Nil, q.Nil), And(Not(a.Nil), Not(q.Nil), Eq(ra, rb)))
		}
		return And(a.Nil, q.Nil)
	case *IfaceV:
		q, ok := b.(*IfaceV)
		if !ok {
			break
		}
		if isError(a.IT) || isError(q.IT) {
			return Eq(a.Tag, q.Tag)
		}
		if c := a.Tag.cval(); c != nil && c.Sign() == 0 {
			return Eq(q.Tag, C(0))
		}
		if c := q.Tag.cval(); c != nil && c.Sign() == 0 {
			return Eq(a.Tag, C(0))
		}
		cs := []*Term{Eq(a.Tag, q.Tag)}
		for _, y := range a.Alts {
			for _, z := range q.Alts {
				if y.Tag == z.Tag {
					cs = append(cs, Implies(Eq(a.Tag, C(y.Tag)), x.eqVal(y.V, z.V)))
				}
			}
		}
		return And(cs...)
	case *SliceV:
		q := b.(*SliceV)
		if q.Nil == True {
			return a.Nil
		}
		if a.Nil == True {
			return q.Nil
		}
	case *MapV:
		q := b.(*MapV)
		if q.Nil == True {
			return a.Nil
		}
		if a.Nil == True {
			return q.Nil
		}
	case *FuncV:
		q := b.(*FuncV)
		an, qn := a.Nil, q.Nil
		if an == nil {
			an = False
		}
		if qn == nil {
			qn = False
		}
		return And(an, qn)
	}
	x.fail("eqVal %s vs %s", vstr(a), vstr(b))
	return nil
}

func (x *Ex) atomOf(a *ArrayV) *Term {
	if q, ok := a.S.(*SeqAtom); ok {
		return q.T
	}
	if !isByte(a.Elem) || a.N < 8 || a.N > 128 {
		return nil
	}
	return bytesAtom(x, &SeqConc{expandSeq(x, a.S, a.N)})
}

// deepEq compares values structurally (slices by contents)
func (x *Ex) deepEq(a, b Val) *Term {
	switch a := a.(type) {
	case *SliceV:
		q := b.(*SliceV)
		n, ok := a.Len.isInt64()
		le := Eq(a.Len, q.Len)
		if le == False {
			return False
		}
		sa, sb := x.sliceSeq(a), x.sliceSeq(q)
		if !ok {
			n, ok = q.Len.isInt64()
		}
		if ok && n <= 256 {
			cs := []*Term{le}
			for i := int64(0); i < n; i++ {
				cs = append(cs, x.deepEq(sa.At(x, C(i)), sb.At(x, C(i))))
			}
			return And(cs...)
		}
		return And(le, x.seqEq(sa, sb, a.Len))
	case *StructV:
		q := b.(*StructV)
		var cs []*Term
		for i := range a.F {
			cs = append(cs, x.deepEq(a.F[i], q.F[i]))
		}
		return And(cs...)
	case *ArrayV:
		q := b.(*ArrayV)
		ta, tb := x.atomOf(a), x.atomOf(q)
		if ta != nil && tb != nil {
			return Eq(ta, tb)
		}
		if a.N <= 128 {
			var cs []*Term
			for i := int64(0); i < a.N; i++ {
				cs = append(cs, x.deepEq(a.S.At(x, C(i)), q.S.At(x, C(i))))
			}
			return And(cs...)
		}
		return x.seqEq(a.S, q.S, C(a.N))
	case *PtrV:
		q := b.(*PtrV)
		if a.Obj == nil || q.Obj == nil {
			return And(a.Nil, q.Nil)
		}
		if a.Obj == q.Obj && samePath(a.Path, q.Path) {
			return Eq(a.Nil, q.Nil)
		}
		return And(Eq(a.Nil, q.Nil), Or(a.Nil, x.deepEq(x.load(x.cur, a, nil), x.load(x.cur, q, nil))))
	case *IfaceV:
		q := b.(*IfaceV)
		cs := []*Term{Eq(a.Tag, q.Tag)}
		if isError(a.IT) {
			return cs[0]
		}
		for _, y := range a.Alts {
			for _, z := range q.Alts {
				if y.Tag == z.Tag {
					cs = append(cs, Implies(Eq(a.Tag, C(y.Tag)), x.deepEq(y.V, z.V)))
				}
			}
		}
		return And(cs...)
	case *MapV:
		q := b.(*MapV)
		if a.Obj == q.Obj {
			return True
		}
		return x.mapEq(a, q)
	case *RopeV:
		return x.ropeEq(a.R, b.(*RopeV).R)
	}
	return x.eqVal(a, b)
}

func (x *Ex) seqEq(a, b Seq, n *Term) *Term {
	var h1, h2 []*Term
	k1, k2 := a.key(x, &h1), b.key(x, &h2)
	if k1 == k2 && len(h1) == len(h2) {
		same := true
		for i := range h1 {
			if h1[i] != h2[i] {
				same = false
			}
		}
		if same {
			return True
		}
	}
	if c, ok := n.isInt64(); ok && c <= 64 {
		var cs []*Term
		for i := int64(0); i < c; i++ {
			cs = append(cs, x.deepEq(a.At(x, C(i)), b.At(x, C(i))))
		}
		return And(cs...)
	}
	i := BoundVar("i", bi(0), maxLen)
	return Forall([]*Term{i}, Or(Not(Lt(i, n)), x.deepEq(a.At(x, i), b.At(x, i))))
}

func ivStr(lo, hi *big.Int) string { return fmt.Sprintf("[%v,%v]", lo, hi) }

// trimSeq drops the parts of a sequence beyond its first n elements.
func (x *Ex) trimSeq(s Seq, n *Term) Seq {
	le := func(a, b *Term) bool {
		t := Le(a, b)
		return t == True || t != False && x.cur != nil && x.cur.simp(t) == True
	}
	for {
		switch q := s.(type) {
		case *SeqCat:
			if le(n, q.L) {
				s = q.A
				continue
			}
		case *SeqStore:
			if le(n, q.I) {
				s = q.S
				continue
			}
		case *SeqOver:
			if le(n, q.Lo) {
				s = q.A
				continue
			}
		}
		return s
	}
}

// readable tells whether the object has content in the current state.
func (x *Ex) readable(o *Obj) bool {
	if _, ok := x.cur.mem[o]; ok {
		return true
	}
	if _, ok := x.base[o]; ok {
		return true
	}
	return o.glob != nil || o.sym
}
