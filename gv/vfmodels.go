package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type vfModel func(x *Ex, st *State, args []Val, fr *Frame, in ssa.CallInstruction) []Outcome
type model func(x *Ex, st *State, args []Val, in ssa.CallInstruction) []Outcome

func one(st *State, v Val) []Outcome { return []Outcome{{st, v}} }

func (x *Ex) unwrap(v Val) Val {
	i, ok := v.(*IfaceV)
	if !ok {
		return v
	}
	if len(i.Alts) == 1 {
		return i.Alts[0].V
	}
	if len(i.Alts) == 0 && i.Tag.isConst() && i.Tag.ival.Sign() == 0 {
		return &PtrV{Nil: True}
	}
	return v
}

func strArg(v Val) string {
	if s, ok := v.(*StrV); ok && s.lit != nil {
		return *s.lit
	}
	return "?"
}

func (x *Ex) boolOf(st *State, f Val, args ...Val) *Term {
	v := x.evalPure(st, f, args)
	if v == nil {
		return True
	}
	return v.(*Term)
}

var vfModels map[string]vfModel

func init() {
	vfModels = map[string]vfModel{
		"Requires": func(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
			h := fr.harness
			if h == nil {
				x.fail("vf.Requires outside a spec function body")
			}
			if h.mode == modeVerify || x.callerSpec(h) {
				st.assume(x.assuming(st, func() *Term { return x.boolOf(st, a[0]) }), false)
			} else {
				t := x.boolOf(st, a[0])
				pos := fr.fn.Pos()
				if h.caller != nil {
					pos = h.caller.Pos()
				}
				x.obligeAlways(st, "precondition", h.spec.Fn.Name(), pos, t)
			}
			if st.dead {
				return []Outcome{}
			}
			return one(st, nil)
		},
		"Ensures": func(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
			h := fr.harness
			if h == nil {
				x.fail("vf.Ensures outside a spec function body")
			}
			if h.mode == modeVerify {
				t := x.boolOf(st, a[1])
				cs := []*Term{t}
				if t.op == OAnd {
					cs = t.args
				}
				for _, c := range cs {
					x.obligeAlways(st, "ensures", strArg(a[0]), in.Pos(), c)
				}
			} else {
				st.assume(x.assuming(st, func() *Term { return x.boolOf(st, a[1]) }), false)
			}
			if st.dead {
				return []Outcome{}
			}
			return one(st, nil)
		},
		"Assert": func(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
			t := x.boolOf(st, a[1])
			if fr.harness != nil && fr.harness.mode == modeUse {
				return one(st, nil)
			}
			x.obligeAlways(st, "assert", strArg(a[0]), in.Pos(), t)
			if st.dead {
				return []Outcome{}
			}
			return one(st, nil)
		},
		"Cases": func(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
			if fr.harness == nil || fr.harness.mode == modeUse {
				return one(st, nil)
			}
			t := a[0].(*Term)
			lo, _ := a[1].(*Term).isInt64()
			hi, _ := a[2].(*Term).isInt64()
			x.obligeAlways(st, "assert", "cases-exhaustive", in.Pos(), And(Ge(t, C(lo)), Le(t, C(hi))))
			var outs []Outcome
			for i := lo; i <= hi; i++ {
				s := st.clone()
				s.assume(Eq(t, C(i)), true)
				if s.dead || !x.feasible(s, True) {
					continue
				}
				outs = append(outs, Outcome{s, nil})
			}
			x.opts["nomergeharness"] = "1"
			return outs
		},
		"Split": func(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
			if fr.harness == nil || fr.harness.mode == modeUse {
				return one(st, nil)
			}
			t := st.simp(a[0].(*Term))
			if t == True || t == False {
				return one(st, nil)
			}
			var outs []Outcome
			for _, c := range []*Term{t, Not(t)} {
				s := st.clone()
				s.assume(c, true)
				if s.dead || !x.feasible(s, True) {
					continue
				}
				outs = append(outs, Outcome{s, nil})
			}
			return outs
		},
		"Modifies": func(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
			s := a[0].(*SliceV)
			n, _ := s.Len.isInt64()
			x.cur = st
			for _, e := range expandSeq(x, x.sliceSeq(s), n) {
				fr.harness.modifies = append(fr.harness.modifies, x.unwrap(e))
			}
			return one(st, nil)
		},
		"Forall": func(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
			return one(st, x.quantInt(st, a, true))
		},
		"Exists": func(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
			return one(st, x.quantInt(st, a, false))
		},
		"ForallKey": func(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
			return one(st, x.quantKey(st, a, true))
		},
		"ExistsKey": func(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
			return one(st, x.quantKey(st, a, false))
		},
		"Symbolic": func(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
			return one(st, True)
		},
		"Visited": func(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
			k := x.keyTerms(x.unwrap(a[0]))
			return one(st, x.visited(k))
		},
		"Eq": func(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
			x.cur = st
			return one(st, x.deepEq(x.unwrap(a[0]), x.unwrap(a[1])))
		},
		"Snapshot": func(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
			i := a[0].(*IfaceV)
			v := x.snapshot(st, i.Alts[0].V, map[*Obj]*Obj{})
			return one(st, &IfaceV{IT: i.IT, Tag: i.Tag, Alts: []Alt{{i.Alts[0].Tag, i.Alts[0].T, v}}})
		},
		"MapCopy": func(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
			i := a[0].(*IfaceV)
			v := x.snapshot(st, i.Alts[0].V, map[*Obj]*Obj{})
			return one(st, &IfaceV{IT: i.IT, Tag: i.Tag, Alts: []Alt{{i.Alts[0].Tag, i.Alts[0].T, v}}})
		},
		"N": vfId, "I64": vfId, "U": vfId,
		"Big": func(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
			n, ok := new(big.Int).SetString(strArg(a[0]), 0)
			if !ok {
				x.fail("vf.Big needs a literal")
			}
			return one(st, Const(n))
		},
		"Pow2": func(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
			return one(st, pow2Term(a[0].(*Term)))
		},
		"(Int).Add": vfBin(func(a, b *Term) Val { return Add(a, b) }),
		"(Int).Sub": vfBin(func(a, b *Term) Val { return Sub(a, b) }),
		"(Int).Mul": vfBin(func(a, b *Term) Val { return Mul(a, b) }),
		"(Int).Div": vfBin(func(a, b *Term) Val { return Div(a, b) }),
		"(Int).Low64": func(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
			return one(st, Mod(a[0].(*Term), Const(pow2(64))))
		},
		"(Int).Mod": vfBin(func(a, b *Term) Val { return Mod(a, b) }),
		"(Int).Eq":  vfBin(func(a, b *Term) Val { return Eq(a, b) }),
		"(Int).Le":  vfBin(func(a, b *Term) Val { return Le(a, b) }),
		"(Int).Lt":  vfBin(func(a, b *Term) Val { return Lt(a, b) }),
		"AllocLimit": func(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
			if fr.harness != nil && fr.harness.mode == modeVerify {
				x.allocLimit = a[0].(*Term)
			}
			return one(st, nil)
		},
		"Cat": func(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
			s := a[0].(*SliceV)
			n, _ := s.Len.isInt64()
			x.cur = st
			r := &Rope{}
			for _, e := range expandSeq(x, x.sliceSeq(s), n) {
				r = ropeCat(r, e.(*RopeV).R)
			}
			return one(st, &RopeV{R: r})
		},
		"Bytes": func(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
			return one(st, &RopeV{R: x.bytesRope(st, a[0].(*SliceV))})
		},
		"Byte": func(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
			return one(st, &RopeV{R: segBytes(&SeqConc{[]Val{a[0]}}, C(1))})
		},
		"Uv": func(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
			return one(st, &RopeV{R: &Rope{[]*Seg{{K: sUv, T: a[0].(*Term)}}}})
		},
		"LE16": vfFixed(types.Uint16, false), "LE32": vfFixed(types.Uint32, false), "LE64": vfFixed(types.Uint64, false),
		"BE16": vfFixed(types.Uint16, true), "BE32": vfFixed(types.Uint32, true), "BE64": vfFixed(types.Uint64, true),
		"Each": func(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
			lo, hi, f := a[0].(*Term), a[1].(*Term), a[2]
			mem := make(map[*Obj]Val, len(st.mem))
			for k, v := range st.mem {
				mem[k] = v
			}
			g := &Seg{K: sRep, Lo: lo, Hi: hi}
			g.F = func(i *Term) *Rope {
				old := x.cur
				ev := old.clone()
				ev.mem = mem
				ev.assume(And(Le(lo, i), Lt(i, hi)), false)
				if ev.dead {
					return &Rope{}
				}
				if i.hasBV {
					x.inQuant++
					defer func() { x.inQuant-- }()
				}
				x.cur = ev
				v := x.evalPure(ev, f, []Val{i})
				x.cur = old
				if v == nil {
					return &Rope{}
				}
				return v.(*RopeV).R
			}
			return one(st, &RopeV{R: &Rope{[]*Seg{g}}})
		},
		"Written": func(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
			return one(st, &RopeV{R: x.rope(st, a[0].(*PtrV))})
		},
		"Untaken": func(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
			return one(st, &RopeV{R: x.rope(st, a[0].(*PtrV))})
		},
		"Taken": func(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
			v := x.load(st, a[0].(*PtrV), nil).(*RopeV)
			r := v.C
			if r == nil {
				r = &Rope{}
			}
			x.cur = st
			return one(st, &RopeV{R: x.resolve(r)})
		},
		"(Rope).Eq": func(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
			p, q := a[0].(*RopeV).R, a[1].(*RopeV).R
			x.cur = st
			if x.inAssume && x.inQuant == 0 {
				return one(st, x.ropeEqAssume(p, q))
			}
			if x.inAssume {
				return one(st, x.ropeEq(p, q))
			}
			return one(st, x.ropeEqProve(p, q))
		},
		"(Rope).Bytes": func(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
			return one(st, x.ropeBytes(st, a[0].(*RopeV).R, "bytes"))
		},
		"(Rope).Len": func(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
			x.cur = st
			return one(st, x.ropeLen(ropeNorm(x, a[0].(*RopeV).R)))
		},
		"Ite": func(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
			return one(st, Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term)))
		},
	}
	for k, f := range vfModels {
		// method names appear as "(<vf>.Int).Add"; after stripping the package: "(Int).Add"
		vfModels[k] = f
	}
}

func vfFixed(k types.BasicKind, be bool) vfModel {
	return func(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
		x.cur = st
		bs, _ := x.encodeFixed(st, types.Typ[k], a[0], be)
		return one(st, &RopeV{R: segBytes(&SeqConc{bs}, C(int64(len(bs))))})
	}
}

// assuming evaluates what is about to be assumed in st; contents it equates become definitions.
func (x *Ex) assuming(st *State, f func() *Term) *Term {
	oldIn, oldBase := x.inAssume, x.assumeBase
	x.inAssume, x.assumeBase = true, len(st.pc)
	defer func() { x.inAssume, x.assumeBase = oldIn, oldBase }()
	return f()
}

func vfId(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
	return one(st, a[0])
}

func vfBin(f func(a, b *Term) Val) vfModel {
	return func(x *Ex, st *State, a []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
		return one(st, f(a[0].(*Term), a[1].(*Term)))
	}
}

func (x *Ex) callerSpec(h *Harness) bool { return false }

func (x *Ex) quantInt(st *State, a []Val, all bool) *Term {
	lo, hi := a[0].(*Term), a[1].(*Term)
	l, ok1 := lo.isInt64()
	hh, ok2 := hi.isInt64()
	if ok1 && ok2 && hh-l <= 140 {
		var cs []*Term
		for i := l; i < hh; i++ {
			cs = append(cs, x.boolOf(st, a[2], C(i)))
		}
		if all {
			return And(cs...)
		}
		return Or(cs...)
	}
	i := BoundVar("i", nil, nil)
	// evaluate the body knowing lo <= i < hi (interval refinement only)
	s := st.clone()
	bl, bh := lo.lo, addB(hi.hi, bi(-1))
	if bl != nil && bh != nil {
		i = BoundVar("i", bl, bh)
	}
	g := And(Le(lo, i), Lt(i, hi))
	s.assume(g, false)
	x.inQuant++
	b := x.boolOf(s, a[2], i)
	x.inQuant--
	x.cur = st
	if all {
		return Forall([]*Term{i}, Implies(g, b))
	}
	return Exists([]*Term{i}, And(g, b))
}

func (x *Ex) quantKey(st *State, a []Val, all bool) *Term {
	f := x.unwrap(a[0]).(*FuncV)
	var ks []*Term
	k := x.boundKey(f.Fn.Signature.Params().At(0).Type(), &ks)
	x.inQuant++
	b := x.boolOf(st, f, k)
	x.inQuant--
	x.cur = st
	if all {
		return Forall(ks, b)
	}
	// existential: restrict to the keys of the given maps
	s := a[1].(*SliceV)
	n, _ := s.Len.isInt64()
	kt := x.keyTerms(k)
	for _, e := range expandSeq(x, x.sliceSeq(s), n) {
		m := x.unwrap(e).(*MapV)
		b = And(b, Not(m.Nil), x.mapHas(x.mapC(st, m), kt))
	}
	return Exists(ks, b)
}

func (x *Ex) visited(k []*Term) *Term {
	for _, r := range x.curCut.ranges {
		base := App(r.name+".vis", SBool, nil, nil, k...)
		if x.invAssume != nil {
			return base
		}
		// at the back edge: the key drawn in this iteration is visited too
		cur, _ := x.curCutFr.env[rangeKeyOf(x.curCut, r)].(*RangeV)
		if cur != nil && len(cur.vis) == 1 {
			return Or(base, x.keysEq(x.keyTerms(cur.vis[0]), k))
		}
		return base
	}
	return False // initially nothing is visited
}

func rangeKeyOf(c *Cut, r *RangeV) ssa.Value {
	for k, v := range c.ranges {
		if v == r {
			return k
		}
	}
	return nil
}

// snapshot: deep copy reachable heap so that later writes do not affect it
func (x *Ex) snapshot(st *State, v Val, seen map[*Obj]*Obj) Val {
	return x.snapFrom(st, st, v, seen)
}

// snapFrom copies the heap reachable from v as it is in src into dst.
func (x *Ex) snapFrom(src, st *State, v Val, seen map[*Obj]*Obj) Val {
	var snapState, snapOf *State
	return x.snapRec(src, st, v, seen, &snapState, &snapOf)
}

// hasRefs tells whether values of type T reach other objects.
func hasRefs(T types.Type, d int) bool {
	if d > 20 {
		return true
	}
	switch u := T.Underlying().(type) {
	case *types.Basic, *types.Signature, *types.Chan:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasRefs(u.Elem(), d+1)
	case *types.Slice, *types.Map: // as an object: its elements, and what they reach is read-only
		return d > 0
	}
	return true
}

func (x *Ex) snapRec(src, st *State, v Val, seen map[*Obj]*Obj, snapState, snapOf **State) Val {
	cp := func(o *Obj) *Obj {
		if o == nil {
			return nil
		}
		if n, ok := seen[o]; ok {
			return n
		}
		if o.ro {
			return o
		}
		n := newObj(o.T, "old."+o.name)
		seen[o] = n
		if _, isW := src.mem[o]; !isW && o.sym {
			// never touched so far: share the symbolic initial value lazily
			n.sym = true
			n.name = o.name
			n.idx = o.idx
			n.ro = true
			n.snap = o
			if hasRefs(o.T, 0) {
				if *snapState == nil || *snapOf != src {
					*snapState, *snapOf = &State{mem: map[*Obj]Val{}}, src
					for k, v := range src.mem {
						(*snapState).mem[k] = v
					}
				}
				n.snapSrc = *snapState
				n.snapSeen = seen
			}
			return n
		}
		st.mem[n] = x.snapRec(src, st, x.objVal(src, o), seen, snapState, snapOf)
		return n
	}
	switch q := v.(type) {
	case *StructV:
		r := &StructV{T: q.T, F: make([]Val, len(q.F))}
		for i := range q.F {
			r.F[i] = x.snapRec(src, st, q.F[i], seen, snapState, snapOf)
		}
		return r
	case *PtrV:
		return &PtrV{Nil: q.Nil, Obj: cp(q.Obj), Path: q.Path}
	case *SliceV:
		r := *q
		r.Obj = cp(q.Obj)
		return &r
	case *MapV:
		return &MapV{T: q.T, Nil: q.Nil, Obj: cp(q.Obj)}
	case *IfaceV:
		r := *q
		r.Alts = nil
		for _, a := range q.Alts {
			r.Alts = append(r.Alts, Alt{a.Tag, a.T, x.snapRec(src, st, a.V, seen, snapState, snapOf)})
		}
		return &r
	case *TupleV:
		r := &TupleV{}
		for _, e := range q.V {
			r.V = append(r.V, x.snapRec(src, st, e, seen, snapState, snapOf))
		}
		return r
	case *ArrayV:
		if c, ok := q.S.(*SeqConc); ok && q.N != 0 {
			if len(c.E) > 0 {
				if _, isT := c.E[0].(*Term); isT {
					return q
				}
			}
			r := &SeqConc{}
			for _, e := range c.E {
				r.E = append(r.E, x.snapRec(src, st, e, seen, snapState, snapOf))
			}
			return &ArrayV{q.Elem, q.N, r}
		}
	}
	return v
}

// ---- special types ----

func namedIs(T types.Type, pkg, name string) bool {
	n, ok := T.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

func (x *Ex) specialSym(T types.Type, name string, idx []*Term) Val {
	n, ok := T.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case vfPath + ".Rope":
		return &RopeV{R: ropeVar(name, idx...)}
	case vfPath + ".Int":
		return App(name, SInt, nil, nil, idx...)
	case "sync.WaitGroup":
		return C(0)
	case "sync.Mutex", "sync.RWMutex":
		return C(0) // unlocked on entry
	case "bytes.Buffer", "bytes.Reader":
		return &RopeV{R: ropeVar(name, idx...)}
	case "time.Time":
		return App(name, mkSort("Time"), nil, nil, idx...)
	}
	return nil
}

func (x *Ex) specialZero(T types.Type) Val {
	n, ok := T.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case vfPath + ".Int", "sync.Mutex", "sync.RWMutex":
		return C(0)
	case "bytes.Buffer", "bytes.Reader", vfPath + ".Rope":
		return &RopeV{R: &Rope{}}
	case "sync.WaitGroup":
		return C(0)
	case "time.Time":
		return Var("time.zero", mkSort("Time"), nil, nil)
	}
	return nil
}

func (x *Ex) makeLimit(el types.Type) *big.Int {
	if v := x.opts["makelimit"]; v != "" {
		n, _ := new(big.Int).SetString(v, 0)
		return n
	}
	return maxLen
}

var _ = fmt.Sprint
