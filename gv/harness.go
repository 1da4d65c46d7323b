package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	modeVerify = iota
	modeUse
)

type Harness struct {
	mode        int
	spec        *Spec
	inTarget    bool
	transparent map[string]bool
	modifies    []Val
	modSet      bool
	entryMem    *State
	frame       *Frame
	caller      ssa.CallInstruction
	pure        bool
}

type inputTerm struct {
	name string
	v    Val
	T    types.Type
}

func (h *Harness) isTarget(fn *ssa.Function) bool {
	n := norm(fn.String())
	for _, t := range h.spec.Targets {
		if t == n {
			return true
		}
	}
	return false
}

func (x *Ex) verify(s *Spec) {
	x.specName = s.Name
	x.opts = s.Opts
	if v := s.Opts["inline"]; v != "" {
		for _, n := range strings.Split(v, ";") {
			x.inlineOnly[denorm(n)] = true
		}
	}
	if v := s.Opts["transparent"]; v != "" {
		for _, n := range strings.Split(v, ";") {
			x.transparent[denorm(n)] = true
		}
	}
	if v := s.Opts["fuel"]; v != "" {
		fmt.Sscan(v, &x.recFuel)
	}
	if v := s.Opts["constfuel"]; v != "" {
		fmt.Sscan(v, &x.constFuel)
	}
	if v := s.Opts["opaque"]; v != "" {
		for _, n := range strings.Split(v, ";") {
			x.setOpaque(n)
		}
	}
	st := newState()
	x.cur = st
	h := &Harness{mode: modeVerify, spec: s}
	var args []Val
	for _, p := range s.Fn.Params {
		v := x.symVal(p.Type(), "arg."+p.Name(), nil)
		args = append(args, v)
		x.inputs = append(x.inputs, inputTerm{p.Name(), v, p.Type()})
	}
	x.runHarness(st, h, args, nil)
}

func (x *Ex) runHarness(st *State, h *Harness, args []Val, caller *Frame) []Outcome {
	oldH, oldSpec, oldName := x.harness, x.spec, x.specName
	x.harness, x.spec = h, true
	defer func() { x.harness, x.spec, x.specName = oldH, oldSpec, oldName }()
	fn := h.spec.Fn
	d := 0
	if caller != nil {
		d = caller.depth + 1
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, count: map[*ssa.BasicBlock]int{}, cut: map[*ssa.BasicBlock]*Cut{}, visits: map[*ssa.BasicBlock]int{}, depth: d, args: args}
	fr.harness = h
	h.frame = fr
	if x.topFrame == nil {
		x.topFrame = fr
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	return x.runFrame(st, fr)
}

// callTarget: the harness calls the function under contract.
func (x *Ex) callTarget(st *State, h *Harness, fn *ssa.Function, args []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
	if h.mode == modeUse {
		return x.havocCall(st, h, fn, args)
	}
	h.inTarget = true
	oldH := x.harness
	x.harness = nil
	x.spec = false
	pre := st.clone()
	mark := objCtr
	// the target's own contract must not be used for its own body (except genuine recursion)
	outs := x.callFn(st, fn, args, nil, fr)
	x.spec = true
	x.harness = oldH
	h.inTarget = false
	// frame condition
	if !h.noFrame() {
		for _, o := range outs {
			x.cur = o.st
			x.checkFrame(h, pre, o.st, mark, fn)
		}
	}
	x.covers += len(outs)
	for _, o := range outs {
		if !x.anyLive && x.solver.check(x, o.st, h.succeeded(o.res), quickMs) != "unsat" {
			x.anyLive = true
		}
	}
	return outs
}

// succeeded: the error among the results, if there is one, is nil.
func (h *Harness) succeeded(v Val) *Term {
	if h.spec.Opts["fails"] == "1" {
		return True
	}
	if t, ok := v.(*TupleV); ok && len(t.V) > 0 {
		v = t.V[len(t.V)-1]
	}
	if e, ok := v.(*IfaceV); ok && e.IT != nil && types.Identical(e.IT, types.Universe.Lookup("error").Type()) {
		return Eq(e.Tag, C(0))
	}
	return True
}

func (h *Harness) noFrame() bool { return h.spec.Opts["frame"] == "no" }

func (x *Ex) checkFrame(h *Harness, pre, post *State, mark int, fn *ssa.Function) {
	allowed := func(o *Obj) []([]PathEl) {
		var r [][]PathEl
		for _, m := range h.modifies {
			switch m := m.(type) {
			case *PtrV:
				if m.Obj == o {
					r = append(r, m.Path)
				}
			case *SliceV:
				if m.Obj == o {
					r = append(r, m.Path)
				}
			case *MapV:
				if m.Obj == o {
					r = append(r, nil)
				}
			}
		}
		return r
	}
	for o, nv := range post.mem {
		var ov Val
		if v, ok := pre.mem[o]; ok {
			ov = v
		} else if o.sym || o.glob != nil {
			ov = x.objVal(pre, o)
		} else if v, ok := x.base[o]; ok {
			ov = v
		} else {
			continue // freshly allocated
		}
		if ov == nv || o.own {
			continue
		}
		al := allowed(o)
		whole := false
		for _, p := range al {
			if len(p) == 0 {
				whole = true
			}
		}
		if whole {
			continue
		}
		// neutralise the allowed sub-paths, then compare
		cmp := nv
		for _, p := range al {
			cmp = x.storePath(cmp, p, x.loadPath(ov, p))
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(vfError); !ok {
						panic(r)
					}
					x.obligeAlways(post, "frame", "modifies "+o.name, fn.Pos(), False)
				}
			}()
			x.cur = post
			g := x.frameEq(ov, cmp, pre, post)
			x.obligeAlways(post, "frame", o.name, fn.Pos(), g)
		}()
	}
}

// frameEq: old value equals new value; slices/pointers/maps compared by identity first
func (x *Ex) frameEq(a, b Val, pre, post *State) *Term {
	if a == b {
		return True
	}
	switch p := a.(type) {
	case *StructV:
		q := b.(*StructV)
		var cs []*Term
		for i := range p.F {
			cs = append(cs, x.frameEq(p.F[i], q.F[i], pre, post))
		}
		return And(cs...)
	case *SliceV:
		q := b.(*SliceV)
		if p.Obj == q.Obj {
			return And(Eq(p.Off, q.Off), Eq(p.Len, q.Len))
		}
		x.cur = pre
		sa := x.sliceSeq(p)
		x.cur = post
		sb := x.sliceSeq(q)
		return And(Eq(p.Len, q.Len), x.seqEq(sa, sb, p.Len))
	case *ArrayV:
		q := b.(*ArrayV)
		if p.N < 0 {
			return x.seqEq(p.S, q.S, Const(maxLen))
		}
	case *MapC:
		q := b.(*MapC)
		var ks []*Term
		kv := x.boundKey(p.T.Key(), &ks)
		k := x.keyTerms(kv)
		ha, hb := x.mapHas(p, k), x.mapHas(q, k)
		va, vb := x.mapVal(p, k), x.mapVal(q, k)
		body := Eq(ha, hb)
		if va != nil && vb != nil {
			body = And(body, Implies(ha, x.deepEq(va, vb)))
		} else if va != nil || vb != nil {
			body = And(Not(ha), Not(hb))
		}
		return And(Eq(p.Len, q.Len), Forall(ks, body))
	}
	return x.eqVal(a, b)
}

// ---- using a contract at a call site ----

func (x *Ex) applyContract(st *State, s *Spec, target *ssa.Function, args []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
	x.contractsUsed[s.Name] = true
	if t := target; t != nil {
		for i, p := range t.Params {
			if i >= len(s.Fn.Params) || !types.Identical(p.Type(), s.Fn.Params[i].Type()) {
				x.fail("the parameters of %s are not those of its contract", s.Targets[0])
			}
		}
	}
	h := &Harness{mode: modeUse, spec: s, caller: in}
	if v := s.Opts["opaque"]; v != "" {
		old := x.specOpaque
		x.specOpaque = map[string]bool{}
		for k := range old {
			x.specOpaque[k] = true
		}
		for _, n := range strings.Split(v, ";") {
			x.setOpaque(n)
		}
		defer func() { x.specOpaque = old }()
	}
	if x.noProve || x.discover != nil {
		return x.runHarness(st, h, args, fr)
	}
	pre := st.clone()
	outs := x.runHarness(st, h, args, fr)
	// vacuity guard: a contract must not contradict what is known at the call
	for _, o := range outs {
		if !o.st.dead && x.solver.check(x, o.st, True, quickMs) != "unsat" {
			return outs
		}
	}
	if !pre.dead && x.solver.check(x, pre, True, quickMs) != "unsat" {
		x.obligeAlways(pre, "vacuous-contract", shortFn(s.Fn), in.Pos(), False)
	}
	return outs
}

// setOpaque: an opaque function marked with ! never gives nil.
func (x *Ex) setOpaque(n string) {
	m := strings.TrimPrefix(n, "!")
	x.specOpaque[denorm(m)] = true
	if m != n {
		if x.nonNilOpaque == nil {
			x.nonNilOpaque = map[string]bool{}
		}
		x.nonNilOpaque[denorm(m)] = true
	}
}

func (x *Ex) havocCall(st *State, h *Harness, fn *ssa.Function, args []Val) []Outcome {
	for _, m := range h.modifies {
		switch m := m.(type) {
		case *PtrV:
			if m.Obj == nil {
				continue
			}
			T := m.Obj.T
			for _, e := range m.Path {
				if e.Idx != nil {
					switch u := T.Underlying().(type) {
					case *types.Array:
						T = u.Elem()
					case *types.Slice:
						T = u.Elem()
					}
					continue
				}
				T = T.Underlying().(*types.Struct).Field(e.Field).Type()
			}
			nv := x.symVal(T, uniq("post."+fn.Name()+"."+m.Obj.name), nil)
			if rv, ok := nv.(*RopeV); ok { // what has been read is unknown too
				n := &RopeV{R: rv.R, C: ropeVar(uniq("post." + fn.Name() + ".taken"))}
				if o, ok := x.load(st, m, nil).(*RopeV); ok {
					n.W = o.W
				}
				nv = n
			}
			x.store(st, &PtrV{Nil: False, Obj: m.Obj, Path: m.Path}, nv)
		case *SliceV:
			if m.Obj == nil {
				continue
			}
			x.noteWrite(m.Obj, m.Path)
			av := x.loadPath(x.objVal(st, m.Obj), m.Path).(*ArrayV)
			fresh := &SeqSym{m.Elem, uniq("post." + fn.Name()), nil}
			st.mem[m.Obj] = x.storePath(x.objVal(st, m.Obj), m.Path, &ArrayV{av.Elem, av.N, &SeqOver{av.S, m.Off, Add(m.Off, m.Len), fresh}})
		case *MapV:
			x.noteWrite(m.Obj, nil)
			nm := uniq("post." + fn.Name())
			st.mem[m.Obj] = &MapC{T: m.T, Name: nm, Len: Fresh(nm+".len", SInt, bi(0), maxLen)}
		}
	}
	T := resType(fn.Signature)
	if t, ok := T.(*types.Tuple); ok && t.Len() == 0 {
		return []Outcome{{st, nil}}
	}
	if h.spec.Opts["pure"] == "1" {
		return x.opaqueCall(st, "contract "+norm(fn.String()), T, args)
	}
	return []Outcome{{st, x.symVal(T, uniq("ret."+fn.Name()), nil)}}
}
