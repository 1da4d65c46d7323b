package main

import (
	"fmt"
	"os"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Ex) argVals(fr *Frame, st *State, c *ssa.CallCommon) []Val {
	var r []Val
	for _, a := range c.Args {
		r = append(r, x.value(fr, st, a))
	}
	return r
}

func (x *Ex) call(fr *Frame, st *State, c *ssa.CallCommon, in ssa.CallInstruction) []Outcome {
	args := x.argVals(fr, st, c)
	outs := x.callCommon(fr, st, c, x.value(fr, st, c.Value), args, in)
	if len(outs) == 1 && outs[0].st == st {
		if v, ok := in.(ssa.Value); ok {
			fr.env[v] = outs[0].res
		}
		return nil
	}
	if outs == nil {
		return []Outcome{}
	}
	return outs
}

func (x *Ex) callCommon(fr *Frame, st *State, c *ssa.CallCommon, fv Val, args []Val, in ssa.CallInstruction) []Outcome {
	if c.IsInvoke() {
		return x.invoke(fr, st, fv.(*IfaceV), c.Method, args, in)
	}
	if b, ok := fv.(*BuiltinV); ok {
		v := x.builtin(st, b.B, c, args, in)
		if st.dead {
			return nil
		}
		return []Outcome{{st, v}}
	}
	return x.callVal(st, fv, args, fr, in)
}

func (x *Ex) callVal(st *State, fv Val, args []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
	f, ok := fv.(*FuncV)
	if !ok {
		x.fail("call of %T", fv)
	}
	if f.Fn == nil {
		if f.Nil == True {
			x.obligeAlways(st, "nil-func", "nilfunc", posOf(in), False)
			return nil
		}
		// opaque function value: deterministic in its arguments
		var h []*Term
		k := "opfn." + f.Name + "#"
		for _, a := range append(append([]Val{}, f.Bind...), args...) {
			k += skel(x, a, &h) + ","
		}
		return []Outcome{{st, x.symVal(resType(f.Sig), k, h)}}
	}
	return x.invokeFn(st, f.Fn, args, f.Bind, fr, in)
}

func resType(s *types.Signature) types.Type {
	if s.Results().Len() == 1 {
		return s.Results().At(0).Type()
	}
	return s.Results()
}

func posOf(in ssa.CallInstruction) token.Pos {
	if in == nil {
		return token.NoPos
	}
	return in.Pos()
}

func (x *Ex) invoke(fr *Frame, st *State, iv *IfaceV, m *types.Func, args []Val, in ssa.CallInstruction) []Outcome {
	key := "invoke " + typeName(iv.IT) + "." + m.Name()
	if md, ok := ifaceModels[m.Name()]; ok && iv.Open {
		return md(x, st, append([]Val{iv}, args...), in)
	}
	if m := x.L.models[key]; m != nil { // models written in Go in the contract files
		x.trusted["Go model for "+key] = true
		old := x.spec
		x.spec = true
		defer func() { x.spec = old }()
		return x.callFn(st, m, append([]Val{iv}, args...), nil, fr)
	}
	if x.isOpaque(key) {
		return x.opaqueCall(st, key, resType(m.Type().(*types.Signature)), append([]Val{iv}, args...))
	}
	if !x.spec {
		x.oblige(st, "nil-deref", "nil-iface", posOf(in), Not(Eq(iv.Tag, C(0))))
		if st.dead {
			return nil
		}
	}
	if iv.Open && len(iv.Alts) == 0 {
		// open interface: opaque deterministic method
		return x.opaqueCall(st, key, resType(m.Type().(*types.Signature)), append([]Val{iv}, args...))
	}
	var outs []Outcome
	type cand struct {
		st *State
		a  Alt
	}
	var cs []cand
	for _, a := range iv.Alts {
		c := st.simp(Eq(iv.Tag, C(a.Tag)))
		if c == False {
			continue
		}
		if c != True && !x.spec && !x.feasible(st, c) {
			continue
		}
		s2 := st.clone()
		s2.assume(c, true)
		if s2.dead {
			continue
		}
		cs = append(cs, cand{s2, a})
	}
	base := len(st.pc)
	baseSt := st.clone()
	for _, c := range cs {
		fn := x.prog.LookupMethod(c.a.T, m.Pkg(), m.Name())
		if fn == nil {
			x.fail("no method %s on %s", m.Name(), c.a.T)
		}
		x.cur = c.st
		outs = append(outs, x.invokeFn(c.st, fn, append([]Val{c.a.V}, args...), nil, fr, in)...)
	}
	if len(outs) > 1 {
		outs = x.mergeOutcomes(base, baseSt, nil, outs)
	}
	if outs == nil {
		outs = []Outcome{}
	}
	return outs
}

// opaqueCall: deterministic uninterpreted result over the arguments' contents
func (x *Ex) opaqueCall(st *State, name string, T types.Type, args []Val) []Outcome {
	x.cur = st
	var h []*Term
	k := "fn." + name + "#"
	for _, a := range args {
		k += skel(x, a, &h) + ","
	}
	x.trusted["uninterpreted deterministic function "+name] = true
	r := x.symVal(T, shortKey(k), h)
	if p, ok := r.(*PtrV); ok && x.nonNilOpaque[name] {
		r = &PtrV{Nil: False, Obj: p.Obj, Path: p.Path}
	}
	return []Outcome{{st, r}}
}

var longKeys = map[string]string{}

// shortKey keeps SMT symbol names manageable
func shortKey(k string) string {
	if len(k) < 120 {
		return k
	}
	if s, ok := longKeys[k]; ok {
		return s
	}
	i := strings.IndexByte(k, '#')
	s := k
	if i > 0 && i < 100 {
		s = k[:i]
	} else {
		s = k[:60]
	}
	s = fmt.Sprintf("%s#L%d", s, len(longKeys))
	longKeys[k] = s
	if os.Getenv("GV_KEYS") != "" {
		fmt.Fprintln(os.Stderr, "KEY", s, k)
	}
	return s
}

func (x *Ex) invokeFn(st *State, fn *ssa.Function, args []Val, bind []Val, fr *Frame, in ssa.CallInstruction) []Outcome {
	x.cur = st
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	// verification target of the current harness
	if h := x.harness; h != nil && !h.inTarget && h.isTarget(fn) && fr != nil && fr.harness == h {
		return x.callTarget(st, h, fn, args, fr, in)
	}
	if strings.Contains(name, vfPath) {
		if m, ok := vfModels[strings.TrimPrefix(strings.ReplaceAll(name, vfPath+".", ""), "")]; ok {
			return m(x, st, args, fr, in)
		}
		if fn.Name() != "init" {
			x.fail("vf intrinsic %s has no model", name)
		}
	}
	if m, ok := models[name]; ok {
		x.modelUsed(name)
		return m(x, st, args, in)
	}
	if m := x.L.models[name]; m != nil { // models written in Go in the contract files
		x.trusted["Go model for "+name] = true
		old := x.spec
		x.spec = true
		defer func() { x.spec = old }()
		return x.callFn(st, m, args, bind, fr)
	}
	if x.isOpaque(name) && !(x.harness != nil && x.harness.transparent[name]) && !x.transparent[name] {
		return x.opaqueCall(st, name, resType(fn.Signature), args)
	}
	if rf := x.L.recFns[fn]; rf {
		return x.recCall(st, fn, args, fr)
	}
	if sp := x.L.contractFor(fn); sp != nil && x.inQuant > 0 && sp.Opts["inspec"] == "1" && sp.Opts["pure"] == "1" && !x.inlineOnly[name] {
		// under a quantifier: the same value as the contract gives, without its postconditions
		return x.opaqueCall(st, "contract "+norm(fn.String()), resType(fn.Signature), args)
	}
	if sp := x.L.contractFor(fn); sp != nil && (!x.spec || sp.Opts["inspec"] == "1" && x.inQuant == 0) && !x.inlineOnly[name] {
		return x.applyContract(st, sp, fn, args, fr, in)
	}
	if len(fn.Blocks) == 0 {
		x.fail("call to %s: no source and no model", name)
	}
	return x.callFn(st, fn, args, bind, fr)
}

func (x *Ex) modelUsed(name string) { x.trusted["library model "+name] = true }

func (x *Ex) runDefers(fr *Frame, st *State, in *ssa.RunDefers) []Outcome {
	ds := fr.defers
	fr.defers = nil
	cur := []Outcome{{st, nil}}
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		var nxt []Outcome
		for _, o := range cur {
			x.cur = o.st
			r := x.callCommon(fr, o.st, d.call, d.fn, d.args, nil)
			for _, q := range r {
				nxt = append(nxt, Outcome{q.st, nil})
			}
		}
		cur = nxt
	}
	if len(cur) == 1 && cur[0].st == st {
		return nil
	}
	return cur
}

func (x *Ex) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, in ssa.CallInstruction) Val {
	switch b.Name() {
	case "len":
		switch a := args[0].(type) {
		case *SliceV:
			return a.Len
		case *StrV:
			return a.Len
		case *MapV:
			if a.Obj == nil {
				return C(0)
			}
			return Ite(a.Nil, C(0), x.mapC(st, a).Len)
		case *ArrayV:
			return C(a.N)
		case *PtrV:
			return C(c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		}
	case "cap":
		switch a := args[0].(type) {
		case *SliceV:
			return a.Cap
		case *ArrayV:
			return C(a.N)
		}
	case "append":
		return x.appendOp(st, args[0], args[1], c.Args[0].Type())
	case "copy":
		return x.copyOp(st, args[0], args[1])
	case "delete":
		x.mapDel(st, args[0].(*MapV), args[1])
		return nil
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		p := args[0].(*PtrV)
		if !x.spec && p.Nil != False {
			x.oblige(st, "nil-deref", "nil", posOf(in), Not(p.Nil))
		}
		return p
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if b.Name() == "min" {
				r = Ite(Le(r, t), r, t)
			} else {
				r = Ite(Ge(r, t), r, t)
			}
		}
		return r
	case "panic":
		x.obligeAlways(st, "panic", "panic", posOf(in), False)
		st.dead = true
		return nil
	case "recover":
		return &IfaceV{IT: types.NewInterfaceType(nil, nil), Tag: C(0)}
	case "close":
		return nil
	}
	x.fail("builtin %s", b.Name())
	return nil
}

// ---- range / next ----

type RangeV struct {
	m    *MapV
	s    *StrV
	vis  []Val  // concretely visited keys
	name string // ghost visited-set name
	c    *MapC
	perm []Val // iteration order explored on this path
}

// rangeOrders: Go leaves the iteration order of a map unspecified; every order of a small concrete
// map is explored.
func (x *Ex) rangeOrders(st *State, r *RangeV) []Outcome {
	if r.m == nil || x.spec {
		return nil
	}
	keys, ok := x.mapConcrete(r.c)
	if !ok || len(keys) < 2 || len(keys) > 5 {
		return nil
	}
	var outs []Outcome
	choice := Fresh("order", SInt, bi(0), nil) // tells the paths apart when they are merged
	var rec func(done, rest []Val)
	rec = func(done, rest []Val) {
		if len(rest) == 0 {
			r2 := *r
			r2.perm = append([]Val{}, done...)
			s2 := st.clone()
			s2.assume(Eq(choice, C(int64(len(outs)))), true)
			outs = append(outs, Outcome{s2, &r2})
			return
		}
		for i := range rest {
			q := append(append([]Val{}, rest[:i]...), rest[i+1:]...)
			rec(append(done[:len(done):len(done)], rest[i]), q)
		}
	}
	rec(nil, keys)
	return outs
}

func (x *Ex) mkRange(fr *Frame, st *State, in *ssa.Range) Val {
	switch a := x.value(fr, st, in.X).(type) {
	case *MapV:
		return &RangeV{m: a, c: x.mapC(st, a)}
	case *StrV:
		return &RangeV{s: a}
	}
	x.fail("range over %T", x.value(fr, st, in.X))
	return nil
}

// mapConcrete lists the concrete entries of a map built only from updates with constant keys
func (x *Ex) mapConcrete(c *MapC) ([]Val, bool) {
	if c.Prev == nil {
		return nil, c.Name == ""
	}
	ks, ok := x.mapConcrete(c.Prev)
	if !ok {
		return nil, false
	}
	var r []Val
	for _, k := range ks {
		e := x.keysEq(x.keyTerms(k), c.Key)
		if e == False {
			r = append(r, k)
		} else if e != True {
			return nil, false
		}
	}
	if !c.Del {
		r = append(r, c.KeyV)
	}
	return r, true
}

func (x *Ex) next(fr *Frame, st *State, in *ssa.Next) []Outcome {
	r := fr.env[in.Iter].(*RangeV)
	if in.IsString {
		if r.s.lit == nil {
			x.fail("range over symbolic string")
		}
		// concrete ASCII iteration
		i := len(r.vis)
		if i >= len(*r.s.lit) {
			fr.env[in] = &TupleV{[]Val{False, C(0), C(0)}}
			return nil
		}
		fr.env[in.Iter] = &RangeV{s: r.s, vis: append(r.vis[:i:i], C(int64(i)))}
		fr.env[in] = &TupleV{[]Val{True, C(int64(i)), C(int64((*r.s.lit)[i]))}}
		return nil
	}
	kT, vT := r.m.T.Key(), r.m.T.Elem()
	if keys, ok := x.mapConcrete(r.c); ok && r.name == "" && !x.rangeCut(fr, in) {
		// concrete map: Go's iteration order is unspecified; explore one order but require that
		// order-dependence is excluded by the postconditions of a symbolic-map contract.
		i := len(r.vis)
		if r.perm != nil {
			keys = r.perm
		} else if len(keys) > 1 && !x.spec {
			x.trusted["concrete map of more than 5 entries iterated in one order"] = true
		}
		if i >= len(keys) {
			fr.env[in] = &TupleV{[]Val{False, x.zero(kT), x.zero(vT)}}
			return nil
		}
		k := keys[i]
		fr.env[in.Iter] = &RangeV{m: r.m, c: r.c, perm: r.perm, vis: append(r.vis[:i:i], k)}
		fr.env[in] = &TupleV{[]Val{True, k, x.mapVal(r.c, x.keyTerms(k))}}
		return nil
	}
	// symbolic: arbitrary unvisited key, or end when all keys are visited
	if r.name == "" {
		x.fail("range over a symbolic map without an invariant")
	}
	k := x.symVal(kT, uniq(r.name+".k"), nil)
	kt := x.keyTerms(k)
	visited := func(q []*Term) *Term { return App(r.name+".vis", SBool, nil, nil, q...) }
	ok := Fresh(r.name+".ok", SBool, nil, nil)
	st.assume(Implies(ok, And(x.mapHas(r.c, kt), Not(visited(kt)))), false)
	var ks []*Term
	bk := x.boundKey(kT, &ks)
	bkt := x.keyTerms(bk)
	st.assume(Implies(Not(ok), Forall(ks, Implies(x.mapHas(r.c, bkt), visited(bkt)))), false)
	v := x.mapVal(r.c, kt)
	if v == nil {
		v = x.zero(vT)
	}
	fr.env[in] = &TupleV{[]Val{ok, k, v}}
	r2 := *r
	r2.vis = []Val{k}
	fr.env[in.Iter] = &r2
	return nil
}

func (x *Ex) rangeCut(fr *Frame, in *ssa.Next) bool { return fr.cut[in.Block()] != nil }

// ---- obligations ----

func (x *Ex) oblige(st *State, kind, label string, pos token.Pos, goal *Term) {
	if x.spec {
		return
	}
	x.obligeAlways(st, kind, label, pos, goal)
}

func (x *Ex) obligeAlways(st *State, kind, label string, pos token.Pos, goal *Term) {
	if x.discover != nil {
		st.assume(goal, false)
		return
	}
	fn := ""
	if len(x.fnStack) > 0 {
		fn = shortFn(x.fnStack[len(x.fnStack)-1])
	}
	name := x.specName + "/" + kind
	if kind != "ensures" && kind != "frame" {
		name += ":" + fn
	}
	if label != "" && label != kind {
		name += ":" + label
	}
	x.addObl(st, name, kind, pos, goal)
	st.assume(goal, false)
}

func (x *Ex) addObl(st *State, name, kind string, pos token.Pos, goal *Term) *Obl {
	o := &Obl{Name: name, Kind: kind, Pos: x.posStr(pos), Spec: x.specName}
	x.obls = append(x.obls, o)
	g := st.simp(goal)
	if g == True {
		o.state, o.by, o.trivial = "discharged", "simplifier", true
		return o
	}
	o.goal = g
	for _, it := range st.pc {
		o.pc = append(o.pc, it.t)
	}
	o.in = x.inputs
	if g != False || len(o.pc) > 0 {
		switch x.solver.check(x, st, Not(g), quickMs) {
		case "unsat":
			o.state, o.by = "discharged", "z3-incremental"
			o.pc, o.goal = nil, nil
			return o
		}
	}
	o.pc = append(o.pc, x.relevantFacts(append(append([]*Term{}, o.pc...), g))...)
	o.state = "pending"
	return o
}

func shortFn(f *ssa.Function) string {
	s := f.Name()
	if f.Signature.Recv() != nil {
		t := f.Signature.Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			s = n.Obj().Name() + "_" + s
		}
	} else if p := f.Parent(); p != nil {
		s = shortFn(p) + strings.ReplaceAll(strings.TrimPrefix(f.Name(), p.Name()), "$", "_")
	}
	return strings.ReplaceAll(s, "$", "_")
}

// relevantFacts: ground definitional facts reachable from the symbols of the terms
func (x *Ex) relevantFacts(ts []*Term) []*Term {
	if len(x.facts) == 0 {
		return nil
	}
	names := map[string]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OApp || t.op == OVar {
			names[t.name] = true
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	used := make([]bool, len(x.facts))
	var r []*Term
	for ch := true; ch; {
		ch = false
		for i, f := range x.facts {
			if used[i] || !names[x.factHead[i]] {
				continue
			}
			used[i] = true
			ch = true
			r = append(r, f)
			walk(f)
		}
	}
	return r
}

func (x *Ex) addFact(head string, f *Term) {
	if x.factSet[f] || f == True {
		return
	}
	x.factSet[f] = true
	x.facts = append(x.facts, f)
	x.factHead = append(x.factHead, head)
}

// ---- recursive specification functions ----

type RecFn struct{}

func (x *Ex) recCall(st *State, fn *ssa.Function, args []Val, fr *Frame) []Outcome {
	x.cur = st
	var h []*Term
	k := "rec." + fn.Name() + "#"
	allConst := true
	for _, a := range args {
		n := len(h)
		k += skel(x, a, &h) + ","
		for _, t := range h[n:] {
			_ = t
		}
		if t, ok := a.(*Term); ok && t.isConst() {
			continue
		} else if ok && t.sort == SInt {
			allConst = false
		} else if sl, ok := a.(*SliceV); ok && !sl.Len.isConst() {
			allConst = false
		}
	}
	name := shortKey(k)
	app := x.symVal(resType(fn.Signature), name, h)
	ground := true
	for _, t := range h {
		if t.hasBV {
			ground = false
		}
	}
	id := name
	for _, t := range h {
		id += fmt.Sprintf("|%d", t.id)
	}
	if !ground && x.opts["unfold"] != "" && strings.Contains(";"+x.opts["unfold"]+";", ";"+fn.Name()+";") && !x.recDefs[id] && x.recFuel > 0 {
		// definition for every value of the bound variables
		x.recDefs[id] = true
		if v := x.recBody(st, fn, args, fr); v != nil {
			seen := map[*Term]bool{}
			var bvs []*Term
			for _, t := range h {
				freeBV(t, nil, seen, &bvs)
			}
			head, pt := recHead(name, app)
			if pt != nil {
				x.addFact(head, Forall(bvs, x.deepEq(app, v), []*Term{pt}))
			}
		}
	}
	if ground && !x.recDefs[id] && (x.recFuel > 0 || allConst && x.recFuel > -x.constFuel) {
		x.recDefs[id] = true
		v := x.recBody(st, fn, args, fr)
		head, _ := recHead(name, app)
		x.addFact(head, x.deepEq(app, v))
	}
	return []Outcome{{st, app}}
}

// recBody evaluates the body of a recursive specification function once.
func (x *Ex) recBody(st *State, fn *ssa.Function, args []Val, fr *Frame) Val {
	of := x.recFuel
	x.recFuel--
	oldSpec := x.spec
	x.spec = true
	s := st.clone()
	// the definition holds on every path: nothing known on this one may shape it
	s.pc, s.pcSet, s.bounds = nil, map[*Term]bool{}, map[*Term]bnd{}
	base := s.clone()
	outs := x.callFn(s, fn, args, nil, fr)
	x.spec = oldSpec
	x.recFuel = of
	x.cur = st
	if len(outs) == 1 {
		return outs[0].res
	}
	var sts []*State
	var vs []Val
	for _, o := range outs {
		sts = append(sts, o.st)
		vs = append(vs, o.res)
	}
	_, sels, ok := x.mergeStates(len(base.pc), base, sts)
	if ok {
		if v, ok := x.foldVals(sels, vs); ok {
			return v
		}
	}
	x.fail("recursive spec %s not mergeable", fn.Name())
	return nil
}

// recHead gives the head symbol of an application of a recursive function.
func recHead(name string, app Val) (string, *Term) {
	switch a := app.(type) {
	case *Term:
		return a.name, a
	case *ArrayV:
		if q, ok := a.S.(*SeqAtom); ok {
			return q.T.name, q.T
		}
	}
	return name, nil
}

// freeBV collects the free bound variables of a term.
func freeBV(t *Term, bound map[*Term]bool, seen map[*Term]bool, out *[]*Term) {
	if !t.hasBV {
		return
	}
	if t.op == OVar {
		if !bound[t] && !seen[t] {
			seen[t] = true
			*out = append(*out, t)
		}
		return
	}
	if len(t.bound) > 0 {
		b := map[*Term]bool{}
		for k := range bound {
			b[k] = true
		}
		for _, v := range t.bound {
			b[v] = true
		}
		bound = b
	}
	for _, a := range t.args {
		freeBV(a, bound, seen, out)
	}
}

func (x *Ex) isOpaque(name string) bool { return x.L.opaqueSet[name] || x.specOpaque[name] }
