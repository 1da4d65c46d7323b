package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var models map[string]model
var ifaceModels map[string]model

func retNone(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome { return one(st, nil) }

// retSelf: chained loggers
// retEntry: some log entry, with a logger.
func retEntry(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome {
	outs := retOpaque(x, st, a, in)
	for _, o := range outs {
		p, ok := o.res.(*PtrV)
		if !ok {
			continue
		}
		o.st.assume(Not(p.Nil), true)
		if e, ok := x.load(o.st, p, nil).(*StructV); ok {
			if l, ok := e.F[0].(*PtrV); ok {
				o.st.assume(Not(l.Nil), true)
			}
		}
	}
	return outs
}

func retOpaque(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome {
	v, _ := in.(ssa.Value)
	if v == nil {
		return one(st, nil)
	}
	r := x.symVal(v.Type(), uniq("lib."+v.Name()), nil)
	if p, ok := r.(*PtrV); ok {
		p = &PtrV{Nil: False, Obj: p.Obj, Path: p.Path}
		r = p
	}
	return one(st, r)
}

func (x *Ex) globErr(path, name string) Val {
	k := path + "." + name
	if n, ok := libErrs[k]; ok {
		return &IfaceV{IT: errT, Tag: C(n)}
	}
	// use the global if the program mentions it, so that comparisons agree
	if p := x.prog.ImportedPackage(path); p != nil {
		if g, ok := p.Members[name].(*ssa.Global); ok {
			v := x.objVal(x.cur, x.globalObj(g)).(*IfaceV)
			return v
		}
	}
	e := x.newErr()
	libErrs[k] = e.Tag.ival.Int64()
	return e
}

var libErrs = map[string]int64{}
var errT = types.Universe.Lookup("error").Type()

func (x *Ex) nilErr() Val { return &IfaceV{IT: errT, Tag: C(0)} }

// deref receiver / pointer argument
func (x *Ex) recv(st *State, v Val, in ssa.CallInstruction) *PtrV {
	p, ok := v.(*PtrV)
	if !ok {
		x.fail("receiver %T", v)
	}
	return p
}

func (x *Ex) rope(st *State, p *PtrV) *Rope {
	v := x.load(st, p, nil)
	r, ok := v.(*RopeV)
	if !ok {
		x.fail("stream content %T", v)
	}
	x.cur = st
	return x.resolve(r.R)
}

func (x *Ex) bytesRope(st *State, s *SliceV) *Rope {
	x.cur = st
	return x.resolve(x.segsOf(x.sliceSeq(s), st.simp2(s.Len)))
}

func (x *Ex) ropeBytes(st *State, r *Rope, name string) *SliceV {
	x.cur = st
	n := ropeNorm(x, r)
	if len(n.S) == 0 {
		return &SliceV{Elem: byteT, Off: C(0), Len: C(0), Cap: C(0), Nil: False}
	}
	if len(n.S) == 1 && n.S[0].K == sBytes {
		return x.mkSlice(st, byteT, n.S[0].S, n.S[0].N, name)
	}
	return x.mkSlice(st, byteT, &SeqRope{n}, x.ropeLen(n), name)
}

// encodeFixed: fixed-size binary encoding of a value (encoding/binary.Write), little or big endian
func (x *Ex) encodeFixed(st *State, T types.Type, v Val, be bool) ([]Val, bool) {
	if it, ok := intType(T); ok {
		t := v.(*Term)
		n := it.w / 8
		if it.signed {
			t = Mod(t, Const(pow2(it.w)))
		}
		out := make([]Val, n)
		for i := 0; i < n; i++ {
			b := Mod(Div(t, Const(pow2(8*i))), C(256))
			if n == 1 {
				b = t
			}
			if be {
				out[n-1-i] = b
			} else {
				out[i] = b
			}
		}
		return out, true
	}
	switch u := T.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.Bool {
			return []Val{Ite(v.(*Term), C(1), C(0))}, true
		}
	case *types.Array:
		var out []Val
		for _, e := range expandSeq(x, v.(*ArrayV).S, u.Len()) {
			b, ok := x.encodeFixed(st, u.Elem(), e, be)
			if !ok {
				return nil, false
			}
			out = append(out, b...)
		}
		return out, true
	case *types.Struct:
		var out []Val
		for i := 0; i < u.NumFields(); i++ {
			b, ok := x.encodeFixed(st, u.Field(i).Type(), v.(*StructV).F[i], be)
			if !ok {
				return nil, false
			}
			out = append(out, b...)
		}
		return out, true
	}
	return nil, false
}

func fixedSize(T types.Type) int64 {
	if it, ok := intType(T); ok {
		if b, ok := T.Underlying().(*types.Basic); ok && (b.Kind() == types.Int || b.Kind() == types.Uint || b.Kind() == types.Uintptr) {
			return -1
		}
		return int64(it.w / 8)
	}
	switch u := T.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.Bool {
			return 1
		}
	case *types.Array:
		n := fixedSize(u.Elem())
		if n < 0 {
			return -1
		}
		return n * u.Len()
	case *types.Struct:
		var s int64
		for i := 0; i < u.NumFields(); i++ {
			n := fixedSize(u.Field(i).Type())
			if n < 0 {
				return -1
			}
			s += n
		}
		return s
	}
	return -1
}

func (x *Ex) decodeFixed(T types.Type, bs Seq, off int64, be bool) Val {
	at := func(i int64) *Term {
		v, ok := bs.At(x, C(off+i)).(*Term)
		if !ok {
			x.fail("decode of non-bytes")
		}
		return v
	}
	if it, ok := intType(T); ok {
		n := it.w / 8
		t := C(0)
		for i := 0; i < n; i++ {
			k := i
			if be {
				k = n - 1 - i
			}
			t = Add(t, Mul(at(int64(i)), Const(pow2(8*k))))
		}
		if it.signed {
			return Ite(Lt(t, Const(pow2(it.w-1))), t, Sub(t, Const(pow2(it.w))))
		}
		return t
	}
	switch u := T.Underlying().(type) {
	case *types.Basic:
		return Not(Eq(at(0), C(0)))
	case *types.Array:
		if isByte(u.Elem()) {
			if a, ok := bs.(*SeqAtom); ok && off == 0 && a.T.sort == bytesSort(u.Len()) {
				return &ArrayV{u.Elem(), u.Len(), a}
			}
			es := make([]Val, u.Len())
			for i := range es {
				es[i] = at(int64(i))
			}
			av := &ArrayV{u.Elem(), u.Len(), &SeqConc{es}}
			if t := x.atomOf(av); t != nil {
				return &ArrayV{u.Elem(), u.Len(), &SeqAtom{t}}
			}
			return av
		}
		es := make([]Val, u.Len())
		sz := fixedSize(u.Elem())
		for i := range es {
			es[i] = x.decodeFixed(u.Elem(), bs, off+int64(i)*sz, be)
		}
		return &ArrayV{u.Elem(), u.Len(), &SeqConc{es}}
	case *types.Struct:
		sv := &StructV{T: T, F: make([]Val, u.NumFields())}
		for i := range sv.F {
			sv.F[i] = x.decodeFixed(u.Field(i).Type(), bs, off, be)
			off += fixedSize(u.Field(i).Type())
		}
		return sv
	}
	x.fail("decodeFixed %s", T)
	return nil
}

// streamOf finds the stream behind an io.Reader / io.Writer / io.ByteReader value
// streamOf is the stream behind a reader or writer. A connection that a contract declares is the stream of its field in:
// what is read in full does not depend on the pieces it comes in.
func (x *Ex) streamOf(v Val) *PtrV {
	if i, ok := v.(*IfaceV); ok {
		if len(i.Alts) == 1 {
			if p, ok := i.Alts[0].V.(*PtrV); ok {
				return x.behind(p, i.Alts[0].T)
			}
		}
		return nil
	}
	p, _ := v.(*PtrV)
	return p
}

func (x *Ex) behind(p *PtrV, t types.Type) *PtrV {
	pt, ok := t.(*types.Pointer)
	if !ok {
		return p
	}
	n, ok := pt.Elem().(*types.Named)
	if !ok || !strings.Contains(x.prog.Fset.Position(n.Obj().Pos()).Filename, "/zz_vf_") {
		return p
	}
	s, ok := n.Underlying().(*types.Struct)
	for i := 0; ok && i < s.NumFields(); i++ {
		if s.Field(i).Name() == "in" && s.Field(i).Type().String() == "*bytes.Reader" {
			q, _ := x.load(x.cur, &PtrV{Nil: False, Obj: p.Obj, Path: appendPath(p.Path, PathEl{Field: i})}, nil).(*PtrV)
			return q
		}
	}
	return p
}

func isBE(v Val) bool {
	if i, ok := v.(*IfaceV); ok && len(i.Alts) == 1 {
		return typeName(i.Alts[0].T) == "binary.bigEndian"
	}
	return false
}

func (x *Ex) appendStream(st *State, p *PtrV, r *Rope) {
	x.cur = st
	x.store(st, p, &RopeV{R: ropeCat(x.rope(st, p), r)})
}

func (x *Ex) writeLen(st *State, n *Term) Val { return &TupleV{[]Val{n, x.nilErr()}} }

func (x *Ex) storeBytes(st *State, s *SliceV, off *Term, b Seq, n *Term) {
	if s.Obj == nil {
		return
	}
	x.noteWrite(s.Obj, s.Path)
	base := x.objVal(st, s.Obj)
	av := x.loadPath(base, s.Path).(*ArrayV)
	lo := Add(s.Off, off)
	var nv Seq = &SeqOver{av.S, lo, Add(lo, n), b}
	if c, ok := n.isInt64(); ok && c <= 256 {
		if l, ok := lo.isInt64(); ok && av.N >= 0 && av.N <= 256 || ok && c <= 64 && l >= 0 {
			nv = av.S
			for i := int64(0); i < c; i++ {
				nv = storeSeq(x, nv, Add(lo, C(i)), b.At(x, C(i)))
			}
		}
	}
	st.mem[s.Obj] = x.storePath(base, s.Path, &ArrayV{av.Elem, av.N, nv})
}

func mUint(n int, be bool) model {
	return func(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome {
		s := a[1].(*SliceV)
		if !x.spec {
			x.oblige(st, "bounds", "uint-bounds", posOf(in), Ge(s.Len, C(int64(n))))
			if st.dead {
				return []Outcome{}
			}
		}
		x.cur = st
		q := x.sliceSeq(s)
		t := C(0)
		for i := 0; i < n; i++ {
			k := i
			if be {
				k = n - 1 - i
			}
			t = Add(t, Mul(q.At(x, C(int64(i))).(*Term), Const(pow2(8*k))))
		}
		return one(st, t)
	}
}

func mPut(n int, be bool) model {
	return func(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome {
		s := a[1].(*SliceV)
		if !x.spec {
			x.oblige(st, "bounds", "put-bounds", posOf(in), Ge(s.Len, C(int64(n))))
			if st.dead {
				return []Outcome{}
			}
		}
		x.cur = st
		v := a[2].(*Term)
		es := make([]Val, n)
		for i := 0; i < n; i++ {
			b := Mod(Div(v, Const(pow2(8*i))), C(256))
			if be {
				es[n-1-i] = b
			} else {
				es[i] = b
			}
		}
		x.storeBytes(st, s, C(0), &SeqConc{es}, C(int64(n)))
		return one(st, nil)
	}
}

func mLock(d string) model {
	return func(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome {
		p := a[0].(*PtrV)
		v, _ := x.load(st, p, nil).(*Term)
		if v == nil {
			x.fail("lock state")
		}
		var ok, nv *Term
		switch d {
		case "Lock": // self-deadlock unless free
			ok, nv = Eq(v, C(0)), C(-1)
		case "RLock":
			ok, nv = Eq(v, C(0)), Add(v, C(1)) // a recursive read lock may deadlock
		case "Unlock":
			ok, nv = Eq(v, C(-1)), C(0)
		case "RUnlock":
			ok, nv = Ge(v, C(1)), Sub(v, C(1))
		}
		x.oblige(st, "lock", d, posOf(in), ok)
		if st.dead {
			return []Outcome{}
		}
		x.store(st, p, nv)
		return one(st, nil)
	}
}

func (x *Ex) mergeReads(st *State, outs []Outcome) []Outcome { return outs }

func init() {
	retErr := func(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome { return one(st, x.newErr()) }
	models = map[string]model{
		"errors.New":  retErr,
		"fmt.Errorf":  retErr,
		"fmt.Sprintf": retOpaque,
		"fmt.Println": retOpaque,
		"fmt.Printf":  retOpaque,
		"encoding/hex.EncodeToString": func(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome {
			return x.opaqueCall(st, "hex.EncodeToString", types.Typ[types.String], a)
		},
		"(*sync.Mutex).Lock":      mLock("Lock"),
		"(*sync.Mutex).Unlock":    mLock("Unlock"),
		"(*sync.RWMutex).Lock":    mLock("Lock"),
		"(*sync.RWMutex).Unlock":  mLock("Unlock"),
		"(*sync.RWMutex).RLock":   mLock("RLock"),
		"(*sync.RWMutex).RUnlock": mLock("RUnlock"),

		"(encoding/binary.littleEndian).Uint16":    mUint(2, false),
		"(encoding/binary.littleEndian).Uint32":    mUint(4, false),
		"(encoding/binary.littleEndian).Uint64":    mUint(8, false),
		"(encoding/binary.bigEndian).Uint16":       mUint(2, true),
		"(encoding/binary.bigEndian).Uint32":       mUint(4, true),
		"(encoding/binary.bigEndian).Uint64":       mUint(8, true),
		"(encoding/binary.littleEndian).PutUint16": mPut(2, false),
		"(encoding/binary.littleEndian).PutUint32": mPut(4, false),
		"(encoding/binary.littleEndian).PutUint64": mPut(8, false),
		"(encoding/binary.bigEndian).PutUint16":    mPut(2, true),
		"(encoding/binary.bigEndian).PutUint32":    mPut(4, true),
		"(encoding/binary.bigEndian).PutUint64":    mPut(8, true),

		"encoding/binary.PutUvarint": func(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome {
			s, v := a[0].(*SliceV), a[1].(*Term)
			n := uvLen(st, v)
			x.oblige(st, "bounds", "putuvarint-bounds", posOf(in), Ge(s.Len, n))
			if st.dead {
				return []Outcome{}
			}
			x.cur = st
			x.storeBytes(st, s, C(0), &SeqUv{v}, n)
			return one(st, n)
		},
		"encoding/binary.ReadUvarint": func(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome {
			p := x.streamOf(a[0])
			if p == nil {
				x.fail("ReadUvarint from an unknown reader")
			}
			var outs []Outcome
			for _, o := range x.readUv(st, x.rope(st, p)) {
				x.cur = o.st
				x.setRead(p, o)
				if o.ok {
					outs = append(outs, Outcome{o.st, &TupleV{[]Val{o.v, x.nilErr()}}})
				} else {
					e := x.globErr("io", "EOF")
					if o.left {
						e = x.newErr()
					} else if len(o.rest.S) > 0 {
						// unknown bytes: either no data or a malformed varint
						e = &IfaceV{IT: errT, Tag: Ite(Fresh("eof", SBool, nil, nil), e.(*IfaceV).Tag, x.newErr().Tag)}
					}
					outs = append(outs, Outcome{o.st, &TupleV{[]Val{Fresh("uvbad", SInt, bi(0), maxU64), e}}})
				}
			}
			return outs
		},
		"encoding/binary.Uvarint": func(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome {
			s := a[0].(*SliceV)
			var outs []Outcome
			r := x.bytesRope(st, s)
			if len(r.S) == 0 || r.S[0].K == sBytes && !r.S[0].N.isConst() {
				v := Fresh("uv", SInt, bi(0), maxU64)
				n := Fresh("uvn", SInt, bi(-10), bi(10))
				st.assume(And(Le(n, s.Len), Implies(Eq(s.Len, C(0)), Eq(n, C(0))), Implies(Le(n, C(0)), Eq(v, C(0)))), false)
				return one(st, &TupleV{[]Val{v, n}})
			}
			for _, o := range x.readUv(st, r) {
				x.cur = o.st
				if o.ok {
					outs = append(outs, Outcome{o.st, &TupleV{[]Val{o.v, Sub(s.Len, x.ropeLen(o.rest))}}})
				} else {
					n := Fresh("uvn", SInt, bi(-10), bi(0))
					outs = append(outs, Outcome{o.st, &TupleV{[]Val{C(0), n}}})
				}
			}
			return outs
		},
		"encoding/binary.Write": func(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome {
			p := x.streamOf(a[0])
			d, ok := a[2].(*IfaceV)
			if p == nil || !ok || len(d.Alts) != 1 {
				x.fail("binary.Write: unsupported arguments")
			}
			T, v := d.Alts[0].T, d.Alts[0].V
			if pt, ok := T.Underlying().(*types.Pointer); ok {
				T = pt.Elem()
				v = x.load(st, v.(*PtrV), nil)
			}
			if sl, ok := T.Underlying().(*types.Slice); ok && isByte(sl.Elem()) {
				x.appendStream(st, p, x.bytesRope(st, v.(*SliceV)))
				return one(st, x.nilErr())
			}
			bs, ok := x.encodeFixed(st, T, v, isBE(a[1]))
			if !ok || fixedSize(T) < 0 {
				return one(st, x.newErr())
			}
			x.appendStream(st, p, &Rope{[]*Seg{{K: sBytes, S: &SeqConc{bs}, N: C(int64(len(bs)))}}})
			return one(st, x.nilErr())
		},
		"encoding/binary.Read": func(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome {
			p := x.streamOf(a[0])
			d, ok := a[2].(*IfaceV)
			if p == nil || !ok || len(d.Alts) != 1 {
				x.fail("binary.Read: unsupported arguments")
			}
			T, v := d.Alts[0].T, d.Alts[0].V
			var dst *PtrV
			n := int64(-1)
			if pt, ok := T.Underlying().(*types.Pointer); ok {
				dst = v.(*PtrV)
				T = pt.Elem()
				n = fixedSize(T)
				if sl, ok := T.Underlying().(*types.Slice); ok && isByte(sl.Elem()) {
					s, ok := x.load(st, dst, in).(*SliceV)
					if !ok {
						x.fail("binary.Read into a merged slice")
					}
					return x.readInto(st, p, s, true, func(st *State, n *Term, err Val) Val { return err })
				}
			} else if sl, ok := v.(*SliceV); ok && isByte(sl.Elem) {
				return x.readInto(st, p, sl, true, func(st *State, n *Term, err Val) Val { return err })
			}
			if n < 0 {
				return one(st, x.newErr())
			}
			var outs []Outcome
			for _, o := range x.readN(st, x.rope(st, p), C(n)) {
				x.cur = o.st
				x.setRead(p, o)
				if o.ok {
					x.store(o.st, dst, x.decodeFixed(T, o.s, 0, isBE(a[1])))
					outs = append(outs, Outcome{o.st, x.nilErr()})
				} else {
					e := x.globErr("io", "EOF")
					if o.left {
						e = x.globErr("io", "ErrUnexpectedEOF")
					}
					outs = append(outs, Outcome{o.st, e})
				}
			}
			return outs
		},
		"io.ReadFull": func(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome {
			p := x.streamOf(a[0])
			if p == nil || !x.isStream(st, p) {
				// an arbitrary reader fills the buffer or fails
				s := a[1].(*SliceV)
				b := st.clone()
				nm := uniq("readfull")
				x.storeBytes(st, s, C(0), x.freshBytes(s.Len, nm), s.Len)
				n := Fresh("rdn", SInt, bi(0), maxLen)
				b.assume(Lt(n, s.Len), false)
				x.storeBytes(b, s, C(0), x.freshBytes(s.Len, nm), s.Len)
				return []Outcome{{st, &TupleV{[]Val{s.Len, x.nilErr()}}}, {b, &TupleV{[]Val{n, x.newErr()}}}}
			}
			return x.readInto(st, p, a[1].(*SliceV), true, func(st *State, n *Term, err Val) Val { return &TupleV{[]Val{n, err}} })
		},
		"bytes.NewReader": func(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome {
			o := newObj(in.(ssa.Value).Type().(*types.Pointer).Elem(), "reader")
			r := x.bytesRope(st, a[0].(*SliceV))
			st.mem[o] = &RopeV{R: r, W: r}
			x.wholes = true
			return one(st, &PtrV{Nil: False, Obj: o})
		},
		"bytes.NewBuffer": func(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome {
			o := newObj(in.(ssa.Value).Type().(*types.Pointer).Elem(), "buffer")
			st.mem[o] = &RopeV{R: x.bytesRope(st, a[0].(*SliceV))}
			return one(st, &PtrV{Nil: False, Obj: o})
		},
		"(*bytes.Reader).Len": func(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome {
			x.cur = st
			r := x.rope(st, a[0].(*PtrV))
			if !x.spec {
				r = x.resolve(r)
				x.repFacts(st, r)
			}
			return one(st, x.ropeLen(r))
		},
		"(*bytes.Buffer).Len": func(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome {
			x.cur = st
			return one(st, x.ropeLen(x.rope(st, a[0].(*PtrV))))
		},
		"(*bytes.Buffer).Reset": func(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome {
			x.store(st, a[0].(*PtrV), &RopeV{R: &Rope{}})
			return one(st, nil)
		},
		"(*bytes.Buffer).Bytes": func(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome {
			x.cur = st
			return one(st, x.ropeBytes(st, x.rope(st, a[0].(*PtrV)), "bytes"))
		},
		"(*bytes.Buffer).Write": func(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome {
			s := a[1].(*SliceV)
			x.appendStream(st, a[0].(*PtrV), x.bytesRope(st, s))
			return one(st, x.writeLen(st, s.Len))
		},
		"(*bytes.Buffer).WriteByte": func(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome {
			x.appendStream(st, a[0].(*PtrV), &Rope{[]*Seg{{K: sBytes, S: &SeqConc{[]Val{a[1]}}, N: C(1)}}})
			return one(st, x.nilErr())
		},
		"(*bytes.Reader).Read": func(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome {
			return x.readInto(st, a[0].(*PtrV), a[1].(*SliceV), false, func(st *State, n *Term, err Val) Val { return &TupleV{[]Val{n, err}} })
		},
		"(*bytes.Reader).ReadByte": func(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome {
			p := a[0].(*PtrV)
			var outs []Outcome
			for _, o := range x.readN(st, x.rope(st, p), C(1)) {
				x.cur = o.st
				x.setRead(p, o)
				if o.ok {
					outs = append(outs, Outcome{o.st, &TupleV{[]Val{o.s.At(x, C(0)), x.nilErr()}}})
				} else {
					outs = append(outs, Outcome{o.st, &TupleV{[]Val{C(0), x.globErr("io", "EOF")}}})
				}
			}
			return outs
		},
		"bytes.Equal": func(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome {
			x.cur = st
			return one(st, x.deepEq(a[0], a[1]))
		},
		"bytes.Compare": func(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome {
			x.cur = st
			eq := x.deepEq(a[0], a[1])
			r := x.opaqueCall(st, "bytes.Compare", types.Typ[types.Int], a)[0].res.(*Term)
			st.assume(And(Ge(r, C(-1)), Le(r, C(1)), Eq(Eq(r, C(0)), eq)), false)
			return one(st, r)
		},
		"math/rand.Uint64": func(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome {
			return one(st, Fresh("rand", SInt, bi(0), maxU64))
		},
		"math/rand.Int63": func(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome {
			return one(st, Fresh("rand", SInt, bi(0), new(big.Int).Sub(pow2(63), bi(1))))
		},
		"time.Now": retOpaque,
		"(time.Time).Unix": func(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome {
			return one(st, App("time.unix", SInt, bi(0), pow2(40), a[0].(*Term)))
		},
		"(time.Time).Add": func(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome {
			return one(st, App("time.add", mkSort("Time"), nil, nil, a[0].(*Term), a[1].(*Term)))
		},
		"sort.Slice":                   mSortSlice,
		"sort.SliceIsSorted":           mSliceIsSorted,
		"strconv.FormatUint":           retOpaque,
		"github.com/google/uuid.Parse": retOpaque,
		"(*sync.WaitGroup).Add":        retNone,
		"(*sync.WaitGroup).Done":       retNone,
		"(*sync.WaitGroup).Wait":       retNone,
		"time.Sleep":                   retNone,
	}
	for _, t := range []string{"(*github.com/sirupsen/logrus.Entry)", "(*github.com/sirupsen/logrus.Logger)"} {
		for _, m := range []string{"Error", "Errorf", "Info", "Infof", "Debug", "Debugf", "Warn", "Warnf", "Trace", "Tracef"} {
			models[t+"."+m] = retOpaque
		}
		for _, m := range []string{"WithFields", "WithField", "WithError"} {
			models[t+"."+m] = retEntry
		}
	}
	for _, t := range []string{"(*go.uber.org/zap.SugaredLogger)", "(*go.uber.org/zap.Logger)"} {
		for _, m := range []string{"Error", "Errorf", "Info", "Infof", "Debug", "Debugf", "Warn", "Warnf", "With", "Sugar"} {
			models[t+"."+m] = retOpaque
		}
	}
	for _, f := range []string{"Abs", "Round", "Floor", "Ceil", "Trunc", "Sqrt", "Log", "Exp", "Max", "Min", "Pow", "Mod", "RoundToEven"} {
		name := "math." + f
		models[name] = func(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome {
			var ts []*Term
			for _, v := range a {
				ts = append(ts, v.(*Term))
			}
			return one(st, App(name, mkSort("Float"), nil, nil, ts...))
		}
	}
	models["go.uber.org/zap.Bool"] = retOpaque
	models["go.uber.org/zap.String"] = retOpaque
	models["(github.com/google/uuid.UUID).String"] = retOpaque
	ifaceModels = map[string]model{
		"Error": func(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome {
			return x.opaqueCall(st, "error.Error", types.Typ[types.String], a)
		},
	}
}

func (x *Ex) isStream(st *State, p *PtrV) bool {
	if p.Obj == nil {
		return false
	}
	_, ok := x.load(st, p, nil).(*RopeV)
	return ok
}

func (x *Ex) freshBytes(n *Term, name string) Seq {
	if c, ok := n.isInt64(); ok && c <= 128 && c > 0 {
		return x.symBytes(c, name)
	}
	return &SeqSym{byteT, name, nil}
}

// readInto reads into a byte slice; full = io.ReadFull semantics, otherwise bytes.Reader.Read semantics.
func (x *Ex) readInto(st *State, p *PtrV, s *SliceV, full bool, ret func(st *State, n *Term, err Val) Val) []Outcome {
	x.cur = st
	n := st.simp2(s.Len)
	var outs []Outcome
	for _, o := range x.readN(st, x.rope(st, p), n) {
		x.cur = o.st
		x.setRead(p, o)
		if o.ok {
			x.storeBytes(o.st, s, C(0), o.s, n)
			outs = append(outs, Outcome{o.st, ret(o.st, n, x.nilErr())})
			continue
		}
		got := o.got
		if got == nil {
			got = C(0)
		}
		// partial data lands in the buffer: its content becomes unknown
		x.storeBytes(o.st, s, C(0), x.freshBytes(n, uniq("partial")), n)
		if o.left {
			e := x.nilErr()
			if full {
				e = x.globErr("io", "ErrUnexpectedEOF")
			}
			outs = append(outs, Outcome{o.st, ret(o.st, got, e)})
		} else {
			outs = append(outs, Outcome{o.st, ret(o.st, C(0), x.globErr("io", "EOF"))})
		}
	}
	return outs
}

// sort.Slice: concrete contents with decidable comparisons are sorted exactly; otherwise the result is
// a deterministic function of the contents, sorted with respect to less (assumption).
func mSortSlice(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome {
	s, ok := x.unwrap(a[0]).(*SliceV)
	if !ok {
		x.fail("sort.Slice of %T", a[0])
	}
	less := a[1]
	x.cur = st
	if n, ok := s.Len.isInt64(); ok && n <= 64 {
		// insertion sort with decided comparisons, working on the memory itself
		try := st.clone()
		good := true
		get := func(i int64) Val { return x.sliceSeq(s).At(x, C(i)) }
		put := func(i int64, v Val) {
			x.cur = try
			x.store(try, &PtrV{Nil: False, Obj: s.Obj, Path: appendPath(s.Path, PathEl{Field: -1, Idx: Add(s.Off, C(i))})}, v)
		}
		x.cur = try
		for i := int64(1); i < n && good; i++ {
			for j := i; j > 0; j-- {
				x.cur = try
				old := x.spec
				x.spec = true
				c := try.simp(x.boolOf(try, less, C(j), C(j-1)))
				x.spec = old
				x.cur = try
				if c == False {
					break
				}
				if c != True {
					good = false
					break
				}
				u, v := get(j), get(j-1)
				put(j, v)
				put(j-1, u)
			}
		}
		if good {
			st.mem = try.mem
			x.cur = st
			return one(st, nil)
		}
	}
	x.cur = st
	var h []*Term
	k := skel(x, s, &h)
	if !naturalOrder(x, st, s, less) {
		k += "/" + skel(x, less, &h)
	}
	x.cur = st
	sorted := &SeqSym{s.Elem, shortKey("sorted#" + k), h}
	old := x.sliceSeq(s)
	x.noteWrite(s.Obj, s.Path)
	base := x.objVal(st, s.Obj)
	av := x.loadPath(base, s.Path).(*ArrayV)
	var nv Seq = &SeqOver{av.S, s.Off, Add(s.Off, s.Len), sorted}
	if s.Off.isConst() && s.Off.ival.Sign() == 0 && av.N < 0 {
		nv = sorted
	}
	st.mem[s.Obj] = x.storePath(base, s.Path, &ArrayV{av.Elem, av.N, nv})
	if b, isB := s.Elem.Underlying().(*types.Basic); isB && b.Info()&types.IsInteger != 0 {
		// rearrangement: p maps new positions to old ones, q old to new
		pn := shortKey("sortperm#" + k)
		i := BoundVar("i", bi(0), maxLen)
		pi := App(pn+".p", SInt, bi(0), maxLen, append(append([]*Term{}, h...), i)...)
		qi := App(pn+".q", SInt, bi(0), maxLen, append(append([]*Term{}, h...), i)...)
		in := And(Ge(i, C(0)), Lt(i, s.Len))
		oldAt := func(t *Term) *Term { return old.At(x, t).(*Term) }
		newAt := func(t *Term) *Term { return sorted.At(x, t).(*Term) }
		fwd := Or(Not(in), And(Lt(pi, s.Len), Eq(newAt(i), oldAt(pi))))
		back := Or(Not(in), And(Lt(qi, s.Len), Eq(newAt(qi), oldAt(i))))
		st.assume(Forall([]*Term{i}, fwd, patsFor(i, pi, newAt(i))...), false)
		st.assume(Forall([]*Term{i}, back, patsFor(i, qi, oldAt(i))...), false)
		// the last old element is the one an append has just added
		st.assume(Or(Eq(s.Len, C(0)), Subst(back, map[*Term]*Term{i: Sub(s.Len, C(1))})), false)
	}
	x.trusted["sort.Slice: result is a deterministic, sorted rearrangement"] = true
	// sortedness
	i := BoundVar("i", bi(0), maxLen)
	j := BoundVar("j", bi(0), maxLen)
	sp := x.spec
	x.spec = true
	x.inQuant++
	l := x.boolOf(st.clone(), less, j, i)
	x.inQuant--
	x.spec = sp
	x.cur = st
	st.assume(Forall([]*Term{i, j}, Or(Not(Lt(i, j)), Not(Lt(j, s.Len)), Not(l))), false)
	return one(st, nil)
}

func mSliceIsSorted(x *Ex, st *State, a []Val, in ssa.CallInstruction) []Outcome {
	s := x.unwrap(a[0]).(*SliceV)
	sp := x.spec
	x.spec = true
	defer func() { x.spec = sp }()
	if n, ok := s.Len.isInt64(); ok && n <= 64 {
		var cs []*Term
		for i := n - 1; i > 0; i-- {
			cs = append(cs, Not(x.boolOf(st, a[1], C(i), C(i-1))))
		}
		return one(st, And(cs...))
	}
	i := BoundVar("i", bi(1), maxLen)
	x.inQuant++
	l := x.boolOf(st.clone(), a[1], i, Sub(i, C(1)))
	x.inQuant--
	x.cur = st
	return one(st, Forall([]*Term{i}, Or(Not(Lt(i, s.Len)), Not(l))))
}

// naturalOrder: less(i, j) is s[i] < s[j] for integers.
func naturalOrder(x *Ex, st *State, s *SliceV, less Val) bool {
	b, ok := s.Elem.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	i, j := BoundVar("i", bi(0), maxLen), BoundVar("j", bi(0), maxLen)
	sp := x.spec
	x.spec = true
	x.inQuant++
	l := x.boolOf(st.clone(), less, i, j)
	x.inQuant--
	x.spec = sp
	x.cur = st
	q := x.sliceSeq(s)
	return l == Lt(q.At(x, i).(*Term), q.At(x, j).(*Term))
}

// patsFor gives single-term patterns: the applications in ts that have v as a direct argument.
func patsFor(v *Term, ts ...*Term) (r [][]*Term) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OApp {
			for _, a := range t.args {
				if a == v {
					r = append(r, []*Term{t})
					return
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return
}
