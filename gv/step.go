package main

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// step executes one non-control instruction. nil = no fork, result stored.
func (x *Ex) step(fr *Frame, st *State, in ssa.Instruction) []Outcome {
	set := func(v Val) []Outcome {
		fr.env[in.(ssa.Value)] = v
		return nil
	}
	val := func(v ssa.Value) Val { return x.value(fr, st, v) }
	switch in := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		o := newObj(in.Type().(*types.Pointer).Elem(), in.Comment)
		st.mem[o] = x.zero(o.T)
		return set(&PtrV{Nil: False, Obj: o})
	case *ssa.BinOp:
		return set(x.binop(st, in, val(in.X), val(in.Y)))
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			p := val(in.X).(*PtrV)
			if !x.nonNil(st, p, in) {
				return []Outcome{}
			}
			v := x.load(st, p, in)
			if v == nil {
				st.dead = true
				return []Outcome{}
			}
			return set(v)
		case token.NOT:
			return set(Not(val(in.X).(*Term)))
		case token.SUB:
			a := val(in.X).(*Term)
			it, ok := intType(in.Type())
			if !ok {
				return set(App("float.neg", a.sort, nil, nil, a))
			}
			return set(wrap(Neg(a), it, st))
		case token.XOR:
			it, _ := intType(in.Type())
			a := val(in.X).(*Term)
			if it.signed {
				return set(Sub(C(-1), a))
			}
			_, hi := it.rng()
			return set(Sub(Const(hi), a))
		}
		x.fail("unop %s", in.Op)
	case *ssa.ChangeType:
		return set(x.changeType(val(in.X), in.Type()))
	case *ssa.ChangeInterface:
		return set(x.convIface(val(in.X).(*IfaceV), in.Type()))
	case *ssa.MakeInterface:
		return set(x.makeIface(val(in.X), in.X.Type(), in.Type()))
	case *ssa.Convert:
		return set(x.convert(st, val(in.X), in.X.Type(), in.Type(), in))
	case *ssa.Extract:
		t := val(in.Tuple).(*TupleV)
		return set(t.V[in.Index])
	case *ssa.Field:
		return set(val(in.X).(*StructV).F[in.Field])
	case *ssa.FieldAddr:
		p := val(in.X).(*PtrV)
		if !x.nonNil(st, p, in) {
			return []Outcome{}
		}
		return set(&PtrV{Nil: False, Obj: p.Obj, Path: appendPath(p.Path, PathEl{Field: in.Field})})
	case *ssa.Index:
		i := val(in.Index).(*Term)
		switch a := val(in.X).(type) {
		case *ArrayV:
			if !x.inBounds(st, in, i, C(a.N)) {
				return []Outcome{}
			}
			return set(a.S.At(x, i))
		case *StrV:
			if !x.inBounds(st, in, i, a.Len) {
				return []Outcome{}
			}
			return set(a.S.At(x, i))
		}
		x.fail("index")
	case *ssa.IndexAddr:
		i := val(in.Index).(*Term)
		switch a := val(in.X).(type) {
		case *PtrV:
			if !x.nonNil(st, a, in) {
				return []Outcome{}
			}
			n := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			if !x.inBounds(st, in, i, C(n)) {
				return []Outcome{}
			}
			return set(&PtrV{Nil: False, Obj: a.Obj, Path: appendPath(a.Path, PathEl{Field: -1, Idx: i})})
		case *SliceV:
			if !x.inBounds(st, in, i, a.Len) {
				return []Outcome{}
			}
			if a.Obj == nil {
				if x.spec {
					o := newObj(types.NewSlice(a.Elem), "empty")
					st.mem[o] = &ArrayV{a.Elem, -1, &SeqZero{a.Elem}}
					return set(&PtrV{Nil: False, Obj: o, Path: []PathEl{{Field: -1, Idx: i}}})
				}
				st.dead = true
				return []Outcome{}
			}
			return set(&PtrV{Nil: False, Obj: a.Obj, Path: appendPath(a.Path, PathEl{Field: -1, Idx: Add(a.Off, i)})})
		}
		x.fail("indexaddr %T", val(in.X))
	case *ssa.Slice:
		return x.sliceOp(fr, st, in)
	case *ssa.MakeSlice:
		n, c := val(in.Len).(*Term), val(in.Cap).(*Term)
		el := in.Type().Underlying().(*types.Slice).Elem()
		if !x.spec {
			x.oblige(st, "makeslice", "make-size", in.Pos(), And(Ge(n, C(0)), Le(n, Const(x.makeLimit(el)))))
			if in.Len != in.Cap {
				x.oblige(st, "makeslice", "make-cap", in.Pos(), And(Ge(c, n), Le(c, Mul(C(2), Const(x.makeLimit(el))))))
			}
			if x.allocLimit != nil {
				x.oblige(st, "makeslice", "allocation", in.Pos(), Le(Mul(c, C(sizeOf(el))), x.allocLimit))
			}
			if st.dead {
				return []Outcome{}
			}
		}
		var s Seq = &SeqZero{el}
		if k, ok := c.isInt64(); ok && k <= 512 {
			e := make([]Val, k)
			for i := range e {
				e[i] = x.zero(el)
			}
			s = &SeqConc{e}
		}
		sv := x.mkSlice(st, el, s, n, "make")
		sv.Cap = c
		return set(sv)
	case *ssa.MakeMap:
		o := newObj(in.Type(), "map")
		mt := in.Type().Underlying().(*types.Map)
		st.mem[o] = &MapC{T: mt, Len: C(0)}
		return set(&MapV{T: mt, Nil: False, Obj: o})
	case *ssa.MapUpdate:
		m := val(in.Map).(*MapV)
		if m.Obj == nil || m.Nil != False {
			x.oblige(st, "nil-map-write", "nil-map", in.Pos(), Not(m.Nil))
			if st.dead || m.Obj == nil {
				st.dead = true
				return []Outcome{}
			}
		}
		x.mapSet(st, m, val(in.Key), val(in.Value))
		return nil
	case *ssa.Lookup:
		switch m := val(in.X).(type) {
		case *StrV:
			i := val(in.Index).(*Term)
			if !x.inBounds(st, in, i, m.Len) {
				return []Outcome{}
			}
			return set(m.S.At(x, i))
		case *MapV:
			outs := []Outcome{} // not nil, also when no state is left
			work := []*State{st}
			for len(work) > 0 {
				s := work[0]
				work = work[1:]
				has, v, c := x.mapGet(s, m, val(in.Index))
				if c != nil { // the value depends on c in a way that cannot be merged
					yes, no := x.fork(s, c)
					if yes != nil {
						work = append(work, yes)
					}
					if no != nil {
						work = append(work, no)
					}
					continue
				}
				var r Val = v
				if in.CommaOk {
					r = &TupleV{[]Val{v, has}}
				}
				outs = append(outs, Outcome{s, r})
			}
			if len(outs) == 1 && outs[0].st == st {
				return set(outs[0].res)
			}
			return outs
		}
		x.fail("lookup")
	case *ssa.Store:
		p := val(in.Addr).(*PtrV)
		if !x.nonNil(st, p, in) {
			return []Outcome{}
		}
		if namedIs(in.Val.Type(), "bytes", "Reader") {
			x.fail("assignment to a bytes.Reader")
		}
		x.store(st, p, val(in.Val))
		return nil
	case *ssa.TypeAssert:
		return x.typeAssert(fr, st, in)
	case *ssa.MakeClosure:
		f := &FuncV{Fn: in.Fn.(*ssa.Function), Nil: False}
		for _, b := range in.Bindings {
			f.Bind = append(f.Bind, val(b))
		}
		return set(f)
	case *ssa.Call:
		return x.call(fr, st, &in.Call, in)
	case *ssa.Defer:
		d := &deferred{call: &in.Call, pos: in.Pos()}
		d.args = x.argVals(fr, st, &in.Call)
		if in.Call.IsInvoke() {
			d.fn = val(in.Call.Value)
		} else {
			d.fn = val(in.Call.Value)
		}
		fr.defers = append(fr.defers, d)
		return nil
	case *ssa.RunDefers:
		return x.runDefers(fr, st, in)
	case *ssa.Go:
		x.trusted["goroutine body not analysed at "+x.posStr(in.Pos())] = true
		return nil
	case *ssa.Range:
		rv := x.mkRange(fr, st, in)
		if r, ok := rv.(*RangeV); ok {
			if outs := x.rangeOrders(st, r); outs != nil {
				return outs
			}
		}
		return set(rv)
	case *ssa.Next:
		return x.next(fr, st, in)
	case *ssa.SliceToArrayPointer:
		s := val(in.X).(*SliceV)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		x.oblige(st, "slice-to-array", "len", in.Pos(), Ge(s.Len, C(n)))
		x.fail("slice to array pointer")
	case *ssa.MakeChan, *ssa.Send, *ssa.Select:
		x.fail("channel operation")
	}
	x.fail("unsupported instruction %T %s", in, in)
	return nil
}

func appendPath(p []PathEl, e PathEl) []PathEl {
	return append(p[:len(p):len(p)], e)
}

func (x *Ex) nonNil(st *State, p *PtrV, in ssa.Instruction) bool {
	if p.Nil == False {
		return true
	}
	if x.spec {
		return p.Obj != nil
	}
	x.oblige(st, "nil-deref", "nil", in.Pos(), Not(p.Nil))
	if p.Obj == nil {
		st.dead = true
	}
	return !st.dead
}

func (x *Ex) inBounds(st *State, in ssa.Instruction, i, n *Term) bool {
	if x.spec {
		return true
	}
	x.oblige(st, "index", "bounds", in.Pos(), And(Ge(i, C(0)), Lt(i, n)))
	return !st.dead
}

func (x *Ex) binop(st *State, in *ssa.BinOp, a, b Val) Val {
	switch in.Op {
	case token.EQL:
		return x.eqVal(a, b)
	case token.NEQ:
		return Not(x.eqVal(a, b))
	}
	ta, ok := a.(*Term)
	if !ok {
		if s, ok := a.(*StrV); ok {
			return x.strOp(st, in.Op, s, b.(*StrV))
		}
		x.fail("binop %s on %T", in.Op, a)
	}
	tb := b.(*Term)
	it, isInt := intType(in.X.Type())
	if isInt {
		ta, tb = st.simpTerm(ta, 0), st.simpTerm(tb, 0)
		switch in.Op {
		case token.LSS:
			return Lt(ta, tb)
		case token.LEQ:
			return Le(ta, tb)
		case token.GTR:
			return Lt(tb, ta)
		case token.GEQ:
			return Le(tb, ta)
		case token.QUO, token.REM:
			if !x.spec {
				x.oblige(st, "div-by-zero", "div0", in.Pos(), Not(Eq(tb, C(0))))
				if st.dead {
					return C(0)
				}
			}
		case token.SHL, token.SHR:
			if !x.spec {
				if st2, ok := intType(in.Y.Type()); ok && st2.signed {
					x.oblige(st, "negative-shift", "shift", in.Pos(), Ge(tb, C(0)))
				}
			}
		}
		return intBin(in.Op, ta, tb, it, st)
	}
	if ta.sort == SBool {
		switch in.Op {
		case token.AND, token.LAND:
			return And(ta, tb)
		case token.OR, token.LOR:
			return Or(ta, tb)
		}
	}
	// floats: uninterpreted
	switch in.Op {
	case token.GTR:
		return App("float<", SBool, nil, nil, tb, ta)
	case token.GEQ:
		return App("float<=", SBool, nil, nil, tb, ta)
	case token.LSS, token.LEQ:
		return App("float"+in.Op.String(), SBool, nil, nil, ta, tb)
	}
	if fa, ok := floatConst(ta); ok {
		if fb, ok := floatConst(tb); ok {
			var r float64
			switch in.Op {
			case token.ADD:
				r = fa + fb
			case token.SUB:
				r = fa - fb
			case token.MUL:
				r = fa * fb
			case token.QUO:
				r = fa / fb
			}
			if v := new(big.Rat).SetFloat64(r); v != nil {
				return Var("float."+v.RatString(), ta.sort, nil, nil)
			}
		}
	}
	if (in.Op == token.ADD || in.Op == token.MUL) && ta.id > tb.id {
		ta, tb = tb, ta // IEEE addition and multiplication commute
	}
	return App("float"+in.Op.String(), ta.sort, nil, nil, ta, tb)
}

func (x *Ex) strOp(st *State, op token.Token, a, b *StrV) Val {
	switch op {
	case token.ADD:
		if a.lit != nil && b.lit != nil {
			return strLit(*a.lit + *b.lit)
		}
		if n, ok := a.Len.isInt64(); ok && n == 0 {
			return b
		}
		if n, ok := b.Len.isInt64(); ok && n == 0 {
			return a
		}
		return &StrV{S: &SeqCat{a.S, a.Len, b.S}, Len: Add(a.Len, b.Len)}
	}
	var h []*Term
	k := skel(x, a, &h) + op.String() + skel(x, b, &h)
	return App("strcmp."+k, SBool, nil, nil, h...)
}

func (x *Ex) changeType(v Val, T types.Type) Val {
	switch q := v.(type) {
	case *StructV:
		return &StructV{T, q.F}
	case *MapV:
		return &MapV{T: T.Underlying().(*types.Map), Nil: q.Nil, Obj: q.Obj}
	}
	return v
}

func (x *Ex) convert(st *State, v Val, from, to types.Type, in ssa.Instruction) Val {
	if it, ok := intType(to); ok {
		t, isT := v.(*Term)
		if !isT {
			x.fail("convert to int from %T", v)
		}
		if t.sort != SInt {
			lo, hi := it.rng()
			return App("float.toint."+to.Underlying().String(), SInt, lo, hi, t)
		}
		return wrap(st.simpTerm(t, 0), it, st)
	}
	switch tu := to.Underlying().(type) {
	case *types.Basic:
		if tu.Info()&types.IsFloat != 0 {
			t := v.(*Term)
			if t.sort == SInt {
				if t.isConst() && t.ival.CmpAbs(pow2(53)) <= 0 {
					return Var("float."+t.ival.String(), mkSort("Float"), nil, nil)
				}
				return App("float.ofint", mkSort("Float"), nil, nil, t)
			}
			return App("float.conv."+tu.Name(), mkSort("Float"), nil, nil, t)
		}
		if tu.Info()&types.IsString != 0 {
			switch q := v.(type) {
			case *StrV:
				return q
			case *SliceV:
				s := x.sliceSeq(q)
				if n, ok := q.Len.isInt64(); ok && n <= 256 {
					return &StrV{S: &SeqConc{expandSeq(x, s, n)}, Len: q.Len}
				}
				return &StrV{S: s, Len: q.Len}
			case *Term:
				// rune to string: ASCII only, else opaque
				return &StrV{S: &SeqConc{[]Val{q}}, Len: C(1)}
			}
		}
		if tu.Kind() == types.UnsafePointer {
			x.fail("unsafe pointer")
		}
	case *types.Slice:
		if s, ok := v.(*StrV); ok && isByte(tu.Elem()) {
			if n, ok := s.Len.isInt64(); ok && n <= 256 {
				return x.mkSlice(st, tu.Elem(), &SeqConc{expandSeq(x, s.S, n)}, s.Len, "bytes")
			}
			return x.mkSlice(st, tu.Elem(), s.S, s.Len, "bytes")
		}
		if q, ok := v.(*SliceV); ok {
			return q
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x.changeType(v, to)
	}
	x.fail("convert %s -> %s", from, to)
	return nil
}

// ---- interfaces ----

func (x *Ex) implementors(T types.Type) []types.Type {
	it, ok := T.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	if it.NumMethods() == 0 {
		if n, ok := T.(*types.Named); ok && n.Obj().Pkg() != nil && x.L.isRepoPath(n.Obj().Pkg().Path()) {
			return x.L.usedAs(T)
		}
		return nil
	}
	k := T.String()
	if r, ok := x.implCache[k]; ok {
		return r
	}
	var r []types.Type
	for _, t := range x.L.namedTypes {
		if types.Implements(t, it) {
			r = append(r, t)
		} else if types.Implements(types.NewPointer(t), it) {
			r = append(r, types.NewPointer(t))
		}
	}
	// only interfaces declared in the repository are treated as closed
	if n, ok := T.(*types.Named); !ok || n.Obj().Pkg() == nil || !x.L.isRepoPath(n.Obj().Pkg().Path()) {
		r = nil
	}
	if x.L.opaqueSet["open "+typeName(T)] { // known by its methods only
		r = nil
	}
	x.implCache[k] = r
	return r
}

var dynTags = map[string]int64{}

func (x *Ex) tagOf(IT, T types.Type) int64 {
	for i, t := range x.implementors(IT) {
		if types.Identical(t, T) {
			return int64(i + 1)
		}
	}
	k := T.String()
	if n, ok := dynTags[k]; ok {
		return n
	}
	n := int64(1000 + len(dynTags))
	dynTags[k] = n
	return n
}

func (x *Ex) newErr() *IfaceV {
	x.errTags++
	return &IfaceV{IT: types.Universe.Lookup("error").Type(), Tag: C(x.errTags)}
}

// newErrAny: a fresh non-nil error of unknown identity
func (x *Ex) makeIface(v Val, T, IT types.Type) Val {
	if isError(IT) {
		e := x.newErr()
		e.Alts = []Alt{{e.Tag.ival.Int64(), T, v}}
		return e
	}
	n := x.tagOf(IT, T)
	return &IfaceV{IT: IT, Tag: C(n), Alts: []Alt{{n, T, v}}}
}

func (x *Ex) convIface(v *IfaceV, IT types.Type) Val {
	if isError(v.IT) || isError(IT) {
		return &IfaceV{IT: IT, Tag: v.Tag, Alts: v.Alts, Open: v.Open}
	}
	if c := v.Tag.cval(); c != nil && c.Sign() == 0 {
		return &IfaceV{IT: IT, Tag: C(0)}
	}
	r := &IfaceV{IT: IT, Open: v.Open}
	if v.Open {
		r.Tag = v.Tag
		r.Alts = v.Alts
		return r
	}
	tag := C(0)
	if it, ok := v.IT.Underlying().(*types.Interface); ok && it.NumMethods() == 0 && len(v.Alts) > 0 {
		tag = Ite(Eq(v.Tag, C(0)), C(0), Fresh("tag", SInt, bi(100000), nil))
	}
	for _, a := range v.Alts {
		n := x.tagOf(IT, a.T)
		tag = Ite(Eq(v.Tag, C(a.Tag)), C(n), tag)
		r.Alts = append(r.Alts, Alt{n, a.T, a.V})
	}
	r.Tag = tag
	return r
}

func (x *Ex) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert) []Outcome {
	v := x.value(fr, st, in.X).(*IfaceV)
	T := in.AssertedType
	if _, isI := T.Underlying().(*types.Interface); isI {
		// interface-to-interface: check each alternative
		ok := False
		for _, a := range v.Alts {
			if types.Implements(a.T, T.Underlying().(*types.Interface)) {
				ok = Or(ok, Eq(v.Tag, C(a.Tag)))
			}
		}
		if v.Open {
			x.fail("open interface assertion to %s", T)
		}
		r := x.convIface(v, T)
		if in.CommaOk {
			fr.env[in] = &TupleV{[]Val{r, ok}}
			return nil
		}
		x.oblige(st, "type-assert", "assert", in.Pos(), ok)
		fr.env[in] = r
		return nil
	}
	ok := False
	var res Val
	for _, a := range v.Alts {
		if types.Identical(a.T, T) {
			c := Eq(v.Tag, C(a.Tag))
			if res == nil {
				res = a.V
			} else {
				m, good := x.merge(c, a.V, res)
				if !good {
					x.fail("type assertion over unmergeable payloads")
				}
				res = m
			}
			ok = Or(ok, c)
		}
	}
	if res == nil {
		if v.Open {
			var h []*Term
			h = append(h, v.Tag)
			nm := "dyn." + typeName(T)
			ok = App(nm+".is", SBool, nil, nil, h...)
			res = x.symVal(T, nm+".val", h)
			x.trusted["type assertion on an open interface is uninterpreted ("+typeName(T)+")"] = true
		} else {
			res = x.zero(T)
		}
	}
	if in.CommaOk {
		z := x.zero(T)
		m, good := x.merge(ok, res, z)
		if !good || !isScalarish(res) {
			// fork instead
			if ok == False {
				fr.env[in] = &TupleV{[]Val{z, False}}
				return nil
			}
			if ok == True {
				fr.env[in] = &TupleV{[]Val{res, True}}
				return nil
			}
			if x.spec {
				fr.env[in] = &TupleV{[]Val{res, ok}} // value only meaningful when ok
				return nil
			}
			s2 := st.clone()
			var outs []Outcome
			if x.feasible(st, ok) {
				s1 := st.clone()
				s1.assume(ok, true)
				outs = append(outs, Outcome{s1, &TupleV{[]Val{res, True}}})
			}
			if x.feasible(st, Not(ok)) {
				s2.assume(Not(ok), true)
				outs = append(outs, Outcome{s2, &TupleV{[]Val{z, False}}})
			}
			return outs
		}
		fr.env[in] = &TupleV{[]Val{m, ok}}
		return nil
	}
	if !x.spec {
		x.oblige(st, "type-assert", "assert", in.Pos(), ok)
		if st.dead {
			return []Outcome{}
		}
	}
	fr.env[in] = res
	return nil
}

func isScalarish(v Val) bool {
	switch v.(type) {
	case *Term:
		return true
	}
	return false
}

// ---- slices ----

func (x *Ex) sliceOp(fr *Frame, st *State, in *ssa.Slice) []Outcome {
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return x.value(fr, st, v).(*Term)
	}
	lo, hi, mx := get(in.Low), get(in.High), get(in.Max)
	if lo == nil {
		lo = C(0)
	}
	set := func(v Val) []Outcome { fr.env[in] = v; return nil }
	chk := func(hi, mx *Term, capT *Term) bool {
		if x.spec {
			return true
		}
		x.oblige(st, "slice-bounds", "slice", in.Pos(), And(Ge(lo, C(0)), Le(lo, hi), Le(hi, capT)))
		if mx != nil {
			x.oblige(st, "slice-bounds", "slice3", in.Pos(), And(Le(hi, mx), Le(mx, capT)))
		}
		return !st.dead
	}
	switch a := x.value(fr, st, in.X).(type) {
	case *StrV:
		if hi == nil {
			hi = a.Len
		}
		if !chk(hi, nil, a.Len) {
			return []Outcome{}
		}
		if a.lit != nil {
			l, ok1 := lo.isInt64()
			h, ok2 := hi.isInt64()
			if ok1 && ok2 && l >= 0 && h <= int64(len(*a.lit)) && l <= h {
				return set(strLit((*a.lit)[l:h]))
			}
		}
		return set(&StrV{S: shiftSeq(a.S, lo), Len: Sub(hi, lo)})
	case *PtrV: // pointer to array
		if !x.nonNil(st, a, in) {
			return []Outcome{}
		}
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := C(at.Len())
		if hi == nil {
			hi = n
		}
		if !chk(hi, mx, n) {
			return []Outcome{}
		}
		c := Sub(n, lo)
		if mx != nil {
			c = Sub(mx, lo)
		}
		return set(&SliceV{Elem: at.Elem(), Obj: a.Obj, Path: a.Path, Off: lo, Len: Sub(hi, lo), Cap: c, Nil: False})
	case *SliceV:
		if hi == nil {
			hi = a.Len
		}
		if !chk(hi, mx, a.Cap) {
			return []Outcome{}
		}
		c := Sub(a.Cap, lo)
		if mx != nil {
			c = Sub(mx, lo)
		}
		return set(&SliceV{Elem: a.Elem, Obj: a.Obj, Path: a.Path, Off: Add(a.Off, lo), Len: Sub(hi, lo), Cap: c, Nil: a.Nil})
	}
	x.fail("slice of %T", x.value(fr, st, in.X))
	return nil
}

func (x *Ex) appendOp(st *State, a, b Val, T types.Type) Val {
	s := a.(*SliceV)
	var bs Seq
	var bl *Term
	switch q := b.(type) {
	case *SliceV:
		bs, bl = x.sliceSeq(q), q.Len
	case *StrV:
		bs, bl = q.S, q.Len
	}
	if n, ok := bl.isInt64(); ok && n == 0 {
		return s
	}
	el := T.Underlying().(*types.Slice).Elem()
	n1, ok1 := s.Len.isInt64()
	n2, ok2 := bl.isInt64()
	if ok2 && n2 <= 256 {
		bs = &SeqConc{expandSeq(x, bs, n2)}
	}
	nl := Add(s.Len, bl)
	if s.Obj != nil {
		if c, ok := s.Cap.isInt64(); ok && ok1 && ok2 && n1+n2 <= c && !s.Obj.ro {
			// in place
			av := x.loadPath(x.objVal(st, s.Obj), s.Path).(*ArrayV)
			q := av.S
			for i := int64(0); i < n2; i++ {
				q = storeSeq(x, q, Add(s.Off, C(n1+i)), bs.At(x, C(i)))
			}
			x.noteWrite(s.Obj, s.Path)
			st.mem[s.Obj] = x.storePath(x.objVal(st, s.Obj), s.Path, &ArrayV{av.Elem, av.N, q})
			return &SliceV{Elem: s.Elem, Obj: s.Obj, Path: s.Path, Off: s.Off, Len: nl, Cap: s.Cap, Nil: False}
		}
	}
	as := x.sliceSeq(s)
	var r Seq
	if ok1 && ok2 && n1+n2 <= 4096 {
		var e []Val
		e = append(e, expandSeq(x, as, n1)...)
		e = append(e, expandSeq(x, bs, n2)...)
		r = &SeqConc{e}
	} else if ok1 && n1 == 0 {
		r = bs
	} else {
		r = &SeqCat{as, s.Len, bs}
	}
	return x.mkSlice(st, el, r, nl, "append")
}

func (x *Ex) copyOp(st *State, a, b Val) Val {
	d := a.(*SliceV)
	var bs Seq
	var bl *Term
	switch q := b.(type) {
	case *SliceV:
		bs, bl = x.sliceSeq(q), q.Len
	case *StrV:
		bs, bl = q.S, q.Len
	}
	n := Ite(Le(d.Len, bl), d.Len, bl)
	n = st.simpTerm(n, 0)
	if d.Obj == nil {
		return C(0)
	}
	av := x.loadPath(x.objVal(st, d.Obj), d.Path).(*ArrayV)
	var ns Seq
	if k, ok := n.isInt64(); ok && k <= 512 {
		off, okOff := d.Off.isInt64()
		if okOff && off == 0 && av.N == k {
			// whole array
			if q, ok := bs.(*SeqAtom); ok && q.T.sort == bytesSort(k) {
				ns = q
			} else {
				ns = &SeqConc{expandSeq(x, bs, k)}
			}
		} else {
			ns = av.S
			vals := expandSeq(x, bs, k)
			for i := int64(0); i < k; i++ {
				ns = storeSeq(x, ns, Add(d.Off, C(i)), vals[i])
			}
		}
	} else {
		ns = &SeqOver{av.S, d.Off, Add(d.Off, n), bs}
	}
	x.noteWrite(d.Obj, d.Path)
	st.mem[d.Obj] = x.storePath(x.objVal(st, d.Obj), d.Path, &ArrayV{av.Elem, av.N, ns})
	return n
}

// ---- maps ----

func (x *Ex) keyTerms(v Val) []*Term {
	switch q := v.(type) {
	case *Term:
		return []*Term{q}
	case *ArrayV:
		if t := x.atomOf(q); t != nil {
			return []*Term{t}
		}
		var r []*Term
		for _, e := range expandSeq(x, q.S, q.N) {
			r = append(r, x.keyTerms(e)...)
		}
		return r
	case *StructV:
		var r []*Term
		for _, f := range q.F {
			r = append(r, x.keyTerms(f)...)
		}
		return r
	case *StrV:
		return []*Term{x.strTerm(q)}
	case *PtrV:
		if q.Obj == nil {
			return []*Term{C(0)}
		}
		if len(q.Obj.idx) > 0 {
			return []*Term{App(q.Obj.name+".ref", SInt, nil, nil, q.Obj.idx...)}
		}
		return []*Term{C(int64(q.Obj.id))}
	}
	x.fail("map key %T", v)
	return nil
}

// strTerm: an opaque identity for a string value (literals are distinct constants)
func (x *Ex) strTerm(s *StrV) *Term {
	so := mkSort("Str")
	if s.lit != nil {
		return x.strConst(*s.lit)
	}
	var h []*Term
	k := skel(x, s, &h)
	return App("str$"+k, so, nil, nil, h...)
}

func (x *Ex) strConst(s string) *Term {
	t := Var("strlit$"+s, mkSort("Str"), nil, nil)
	strLits[t] = s
	return t
}

var strLits = map[*Term]string{}

func (x *Ex) keysEq(a, b []*Term) *Term {
	var cs []*Term
	for i := range a {
		if la, ok := strLits[a[i]]; ok {
			if lb, ok := strLits[b[i]]; ok {
				cs = append(cs, Bool(la == lb))
				continue
			}
		}
		cs = append(cs, Eq(a[i], b[i]))
	}
	return And(cs...)
}

func (x *Ex) mapC(st *State, m *MapV) *MapC {
	if m.Obj == nil {
		return &MapC{T: m.T, Len: C(0)}
	}
	return x.objVal(st, m.Obj).(*MapC)
}

func (x *Ex) mapHas(m *MapC, k []*Term) *Term {
	if m.Prev != nil {
		c := x.keysEq(m.Key, k)
		return Ite(c, Bool(!m.Del), x.mapHas(m.Prev, k))
	}
	if m.Name == "" {
		return False
	}
	return App(m.Name+".has", SBool, nil, nil, append(append([]*Term{}, m.Idx...), k...)...)
}

func (x *Ex) mapVal(m *MapC, k []*Term) Val {
	v, c := x.mapValS(nil, m, k)
	if c != nil {
		x.fail("map values cannot be merged")
	}
	return v
}

// mapValS gives the value stored for a key, or the condition to split on first.
func (x *Ex) mapValS(s *State, m *MapC, k []*Term) (Val, *Term) {
	if m.Prev != nil {
		c := x.keysEq(m.Key, k)
		if s != nil {
			c = s.simp(c)
		}
		if m.Del {
			return x.mapValS(s, m.Prev, k)
		}
		if c == True {
			return m.ValV, nil
		}
		if c == False {
			return x.mapValS(s, m.Prev, k)
		}
		p, sc := x.mapValS(s, m.Prev, k)
		if sc != nil {
			return nil, sc
		}
		if p == nil {
			return m.ValV, nil
		}
		r, ok := x.merge(c, m.ValV, p)
		if !ok {
			return nil, c
		}
		return r, nil
	}
	if m.Name == "" {
		return nil, nil
	}
	return x.symVal(m.T.Elem(), m.Name+".val", append(append([]*Term{}, m.Idx...), k...)), nil
}

func (x *Ex) mapGet(st *State, m *MapV, key Val) (*Term, Val, *Term) {
	c := x.mapC(st, m)
	k := x.keyTerms(key)
	has := And(Not(m.Nil), x.mapHas(c, k))
	has = st.simp(has)
	z := x.zero(m.T.Elem())
	if has == False {
		return has, z, nil
	}
	v, sc := x.mapValS(st, c, k)
	if sc != nil {
		return nil, nil, sc
	}
	if v == nil {
		return False, z, nil
	}
	if has == True {
		return has, v, nil
	}
	r, ok := x.merge(has, v, z)
	if !ok {
		return nil, nil, has
	}
	return has, r, nil
}

func (x *Ex) mapSet(st *State, m *MapV, key, v Val) {
	c := x.mapC(st, m)
	k := x.keyTerms(key)
	has := st.simp(x.mapHas(c, k))
	x.noteWrite(m.Obj, nil)
	st.mem[m.Obj] = &MapC{T: c.T, Prev: c, Key: k, KeyV: key, ValV: v, Len: Add(c.Len, Ite(has, C(0), C(1)))}
}

func (x *Ex) mapDel(st *State, m *MapV, key Val) {
	if m.Obj == nil {
		return
	}
	c := x.mapC(st, m)
	k := x.keyTerms(key)
	has := st.simp(x.mapHas(c, k))
	x.noteWrite(m.Obj, nil)
	st.mem[m.Obj] = &MapC{T: c.T, Prev: c, Key: k, KeyV: key, Del: true, Len: Sub(c.Len, Ite(has, C(1), C(0)))}
}

func (x *Ex) mapEq(a, b *MapV) *Term {
	ca, cb := x.mapC(x.cur, a), x.mapC(x.cur, b)
	if ca == cb {
		return True
	}
	var ks []*Term
	kv := x.boundKey(a.T.Key(), &ks)
	k := x.keyTerms(kv)
	ha, hb := x.mapHas(ca, k), x.mapHas(cb, k)
	body := Eq(ha, hb)
	va, vb := x.mapVal(ca, k), x.mapVal(cb, k)
	if va != nil && vb != nil {
		body = And(body, Implies(ha, x.deepEq(va, vb)))
	} else if va == nil && vb != nil {
		body = Not(hb)
	} else if vb == nil && va != nil {
		body = Not(ha)
	}
	return And(Eq(ca.Len, cb.Len), Forall(ks, body))
}

// boundKey makes a bound variable of the given key type
func (x *Ex) boundKey(T types.Type, vs *[]*Term) Val {
	if it, ok := intType(T); ok {
		lo, hi := it.rng()
		v := BoundVar("k", lo, hi)
		*vs = append(*vs, v)
		return v
	}
	switch u := T.Underlying().(type) {
	case *types.Array:
		if isByte(u.Elem()) && u.Len() >= 8 {
			v := Var(uniq("bv.k"), bytesSort(u.Len()), nil, nil)
			v.hasBV = true
			*vs = append(*vs, v)
			return &ArrayV{u.Elem(), u.Len(), &SeqAtom{v}}
		}
	case *types.Struct:
		sv := &StructV{T: T}
		for i := 0; i < u.NumFields(); i++ {
			sv.F = append(sv.F, x.boundKey(u.Field(i).Type(), vs))
		}
		return sv
	}
	x.fail("quantified key type %s", T)
	return nil
}

// floatConst gives the value of a floating point constant.
func floatConst(t *Term) (float64, bool) {
	if t.op != OVar || t.sort == SInt || !strings.HasPrefix(t.name, "float.") {
		return 0, false
	}
	r, ok := new(big.Rat).SetString(t.name[6:])
	if !ok {
		return 0, false
	}
	f, exact := r.Float64()
	return f, exact
}

// sizeOf is the size in bytes of a value on a 64 bit machine.
func sizeOf(T types.Type) int64 { return types.SizesFor("gc", "amd64").Sizeof(T) }
