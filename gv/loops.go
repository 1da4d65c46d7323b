package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Cut struct {
	li     *loopInfo
	inv    *ssa.Function
	iter   *Term
	ind    map[*ssa.Phi][2]*Term // induction: init, step
	entry  map[ssa.Value]Val     // phi values at entry
	pre    *State                // state at loop entry (before havoc)
	preEnv map[ssa.Value]Val
	ranges map[ssa.Value]*RangeV
	names  map[string]bool // names of the invariant: found in the source, or not
}

type wkey struct {
	o *Obj
	p string
}

type Discover struct {
	li     *loopInfo
	fn     *ssa.Function
	depth  int
	mark   int
	writes map[wkey][]PathEl
	back   [][]Val
	conds  []*Term
	phis   []*ssa.Phi
	outer  *Discover
	hdr    *State
	pcLen  int
}

func (x *Ex) noteWrite(o *Obj, path []PathEl) {
	for d := x.discover; d != nil; d = d.outer {
		if o.id > d.mark && !o.sym && o.glob == nil {
			continue
		}
		var p []PathEl
		for _, e := range path {
			if e.Idx != nil {
				break
			}
			p = append(p, e)
		}
		k := wkey{o, fmt.Sprint(p)}
		d.writes[k] = p
	}
}

func (x *Ex) findInv(fn *ssa.Function, li *loopInfo) *ssa.Function {
	if l := x.opts["loops"]; l != "" {
		if v := x.L.invs[fmt.Sprintf("%s__%s_%d", l, shortFn(fn), li.ord)]; v != nil {
			return v
		}
	}
	if v := x.L.invs[fmt.Sprintf("%s_%d", shortFn(fn), li.ord)]; v != nil {
		return v
	}
	return nil
}

// enterBlock handles phi assignment and loop headers. false = path ends here.
func (x *Ex) enterBlock(fr *Frame, st *State, b, prev *ssa.BasicBlock, phis []*ssa.Phi, vals []Val) bool {
	for d := x.discover; d != nil; d = d.outer {
		if d.fn == fr.fn && d.depth == fr.depth && !d.li.blocks[b] {
			return false
		}
		if d.fn == fr.fn && d.depth == fr.depth && d.li.head == b && prev != nil && d.li.blocks[prev] && fr.cut[b] != nil {
			d.back = append(d.back, vals)
			return false
		}
		break
	}
	assign := func() {
		for i, p := range phis {
			fr.env[p] = vals[i]
		}
	}
	li := cfgOf(fr.fn).headers[b]
	if li == nil {
		assign()
		return true
	}
	isBack := prev != nil && li.blocks[prev]
	if cut := fr.cut[b]; cut != nil && isBack {
		x.closeLoop(fr, st, cut, phis, vals)
		return false
	}
	delete(fr.cut, b)
	if !isBack {
		fr.count[b] = 0
		inv := x.findInv(fr.fn, li)
		isMapLoop := x.symbolicMapLoop(fr, st, li)
		if x.spec && inv == nil || inv == nil && !x.wantAutoCut(fr, st, li, phis, vals) && !isMapLoop {
			assign()
			return true
		}
		return x.cutLoop(fr, st, li, inv, phis, vals)
	}
	fr.count[b]++
	if fr.count[b] > unrollLimit {
		if x.spec {
			x.fail("specification loop does not terminate concretely")
		}
		x.obligeAlways(st, "unwind", fmt.Sprintf("loop%d", li.ord), b.Instrs[0].Pos(), False)
		return false
	}
	assign()
	return true
}

func (x *Ex) symbolicMapLoop(fr *Frame, st *State, li *loopInfo) bool {
	for _, in := range li.head.Instrs {
		if n, ok := in.(*ssa.Next); ok && !n.IsString {
			if r, ok := fr.env[n.Iter].(*RangeV); ok && r.m != nil {
				if _, conc := x.mapConcrete(r.c); !conc {
					return true
				}
			}
		}
	}
	return false
}

// wantAutoCut: a loop without a written invariant whose trip count is not concrete is cut with the
// automatic invariants only (induction variables and their exit tests).
func (x *Ex) wantAutoCut(fr *Frame, st *State, li *loopInfo, phis []*ssa.Phi, vals []Val) bool {
	if x.spec {
		return false
	}
	// find header (or single exit) comparison phi(+c) < N with symbolic N and no small bound
	ifi, ok := li.head.Instrs[len(li.head.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	get := func(v ssa.Value) *Term {
		if c, ok := v.(*ssa.Const); ok {
			t, _ := x.constVal(c).(*Term)
			return t
		}
		for i, p := range phis {
			if ssa.Value(p) == v {
				t, _ := vals[i].(*Term)
				return t
			}
		}
		if t, ok := fr.env[v].(*Term); ok {
			return t
		}
		if c, ok := v.(*ssa.Call); ok { // len(x) computed in the header
			if bl, ok := c.Call.Value.(*ssa.Builtin); ok && bl.Name() == "len" {
				var a Val
				if u, ok := c.Call.Args[0].(*ssa.UnOp); ok && u.Op == token.MUL {
					if p, ok := fr.env[u.X].(*PtrV); ok {
						a = x.load(st, p, u)
					} else if fa, ok := u.X.(*ssa.FieldAddr); ok {
						if p, ok := fr.env[fa.X].(*PtrV); ok {
							a = x.load(st, &PtrV{Nil: False, Obj: p.Obj, Path: appendPath(p.Path, PathEl{Field: fa.Field})}, u)
						}
					}
				} else {
					a = fr.env[c.Call.Args[0]]
				}
				switch s := a.(type) {
				case *SliceV:
					return s.Len
				case *StrV:
					return s.Len
				}
			}
		}
		return nil
	}
	sym := false
	for _, v := range []ssa.Value{cmp.X, cmp.Y} {
		t := get(v)
		if t != nil && !t.isConst() {
			lo, hi := st.iv(t)
			if lo == nil || hi == nil || hi.Cmp(bi(unrollAuto)) > 0 {
				sym = true
			}
		}
	}
	return sym
}

func (x *Ex) freshLike(T types.Type, v Val, name string) Val {
	return x.symVal(T, uniq(name), nil)
}

func (x *Ex) cutLoop(fr *Frame, st *State, li *loopInfo, inv *ssa.Function, phis []*ssa.Phi, vals []Val) bool {
	cut := &Cut{li: li, inv: inv, ind: map[*ssa.Phi][2]*Term{}, entry: map[ssa.Value]Val{}, ranges: map[ssa.Value]*RangeV{}}
	cut.pre = st.clone()
	for i, p := range phis {
		cut.entry[p] = vals[i]
	}
	cut.preEnv = map[ssa.Value]Val{}
	for k, v := range fr.env {
		cut.preEnv[k] = v
	}
	label := fmt.Sprintf("loop%d-init", li.ord)
	// 1. invariant holds initially
	if inv != nil {
		x.checkInv(fr, st, cut, phis, vals, C(0), label)
	}
	iter := Fresh("iter", SInt, bi(0), new(big.Int).Lsh(bi(1), 61)) // no execution runs 2^61 iterations
	cut.iter = iter
	// induction variables
	for i, p := range phis {
		it, ok := intType(p.Type())
		if !ok {
			continue
		}
		_ = it
		init, ok := vals[i].(*Term)
		if !ok {
			continue
		}
		step := inductionStep(p, li)
		if step != nil {
			cut.ind[p] = [2]*Term{init, step}
		}
	}
	// 2. discovery of the write set and back-edge shapes
	var writes = map[wkey][]PathEl{}
	var conds []*Term
	var back [][]Val
	for round := 0; ; round++ {
		if round > 8 {
			x.fail("loop write set does not stabilise")
		}
		s2, f2 := st.clone(), fr.clone()
		x.havocLoop(f2, s2, cut, phis, vals, writes, back, true)
		if inv != nil {
			x.assumeInv(f2, s2, cut, phis, iter)
		}
		d := &Discover{li: li, fn: fr.fn, depth: fr.depth, mark: objCtr, writes: map[wkey][]PathEl{}, phis: phis, outer: x.discover, pcLen: len(s2.pc)}
		// objects created by the havoc itself are not pre-existing; mark before havoc is conservative
		old, oldNP := x.discover, x.noProve
		x.discover = d
		x.noProve = true
		f2.cut[li.head] = cut
		nst, nfn := len(x.stack), len(x.fnStack)
		func() {
			defer func() { x.discover, x.noProve = old, oldNP; x.stack = x.stack[:nst]; x.fnStack = x.fnStack[:nfn] }()
			if len(phis) > 0 {
				x.exec(f2, s2, li.head, nil, len(phis), nil)
			} else {
				x.exec0(f2, s2, li.head, nil, nil)
			}
		}()
		back = d.back
		conds = d.conds
		grew := false
		for k, p := range d.writes {
			if _, ok := writes[k]; !ok {
				writes[k] = p
				grew = true
			}
		}
		if !grew {
			break
		}
	}
	_ = conds
	for k, p := range writes {
		for d := x.discover; d != nil; d = d.outer {
			if k.o.id <= d.mark || k.o.sym || k.o.glob != nil {
				d.writes[k] = p
			}
		}
	}
	// 3. havoc and assume
	x.havocLoop(fr, st, cut, phis, vals, writes, back, false)
	fr.cut[li.head] = cut
	// automatic fact: the entry test held in the previous iteration (a function of iter only)
	if t := x.headerTest(fr, st, cut, phis); t != nil {
		prevT := Subst(t, map[*Term]*Term{iter: Sub(iter, C(1))})
		st.assume(Or(Eq(iter, C(0)), prevT), false)
	}
	if inv != nil && x.discover == nil && x.casesFor(fr.fn, li.ord) != nil {
		x.newCut = cut
		return true
	}
	if inv != nil {
		x.assumeInv(fr, st, cut, phis, iter)
	}
	if !x.noProve && x.discover == nil {
		// vacuity guard: the loop head must be reachable under the invariant
		if x.solver.check(x, st, True, quickMs) == "unsat" {
			if x.solver.check(x, cut.pre, True, quickMs) != "unsat" {
				// only legitimate if the loop entry itself is unreachable
				x.obligeAlways(cut.pre.clone(), "vacuous-invariant", fmt.Sprintf("loop%d", li.ord), li.head.Instrs[0].Pos(), False)
			}
			return false
		}
	}
	return true
}

func (x *Ex) casesFor(fn *ssa.Function, ord int) *ssa.Function {
	if l := x.opts["loops"]; l != "" && x.L.invs[fmt.Sprintf("%s__%s_%d", l, shortFn(fn), ord)] != nil {
		return x.L.invs[fmt.Sprintf("cases %s__%s_%d", l, shortFn(fn), ord)]
	}
	return x.L.invs[fmt.Sprintf("cases %s_%d", shortFn(fn), ord)]
}

// caseSplit evaluates Cases_<function>_<loop>: conditions, one of which holds at the loop head; the
// iteration is executed once for each.
func (x *Ex) caseSplit(fr *Frame, st *State, cut *Cut, phis []*ssa.Phi) (rs []*State, rf []*Frame) {
	fn := x.casesFor(fr.fn, cut.li.ord)
	x.cur = st
	var vals, args []Val
	for _, p := range phis {
		vals = append(vals, fr.env[p])
	}
	for _, p := range fn.Params {
		args = append(args, x.resolveName(fr, st, cut, phis, vals, p.Name(), p.Type(), cut.iter))
	}
	s, ok := x.evalPure(st, &FuncV{Fn: fn, Nil: False}, args).(*ArrayV)
	if !ok {
		x.fail("case function does not give an array")
	}
	var ts []*Term
	for i := int64(0); i < s.N; i++ {
		ts = append(ts, s.S.At(x, C(i)).(*Term))
	}
	full := st.clone()
	x.assumeInv(fr, full, cut, phis, cut.iter)
	x.obligeAlways(full, "invariant", fmt.Sprintf("%s:loop%d-cases", shortFn(fr.fn), cut.li.ord), fn.Pos(), Or(ts...))
	for _, t := range ts {
		c, f := st.clone(), fr.clone()
		c.assume(t, true)
		if c.dead {
			continue
		}
		for _, p := range phis {
			if v, ok := f.env[p].(*Term); ok && v.sort == SInt {
				if lo, hi := c.iv(v); lo != nil && hi != nil && lo.Cmp(hi) == 0 {
					f.env[p] = Const(lo)
				}
			}
		}
		x.assumeInv(f, c, cut, phis, cut.iter)
		if !c.dead && x.feasible(c, True) {
			rs, rf = append(rs, c), append(rf, f)
		}
	}
	if len(rs) == 0 && !x.noProve && x.solver.check(x, cut.pre, True, quickMs) != "unsat" {
		x.obligeAlways(cut.pre.clone(), "vacuous-invariant", fmt.Sprintf("loop%d", cut.li.ord), cut.li.head.Instrs[0].Pos(), False)
	}
	return
}

// headerTest evaluates the loop's header branch condition symbolically when it only depends on iter
// and loop-constant symbols.
func (x *Ex) headerTest(fr *Frame, st *State, cut *Cut, phis []*ssa.Phi) (res *Term) {
	ifi, ok := cut.li.head.Instrs[len(cut.li.head.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(vfError); ok {
				res = nil
				return
			}
			panic(r)
		}
	}()
	f2, s2 := fr.clone(), st.clone()
	old := x.spec
	x.spec = true
	defer func() { x.spec = old }()
	for _, in := range cut.li.head.Instrs[len(phis):] {
		if in == ssa.Instruction(ifi) {
			break
		}
		switch in.(type) {
		case *ssa.Call:
			if c := in.(*ssa.Call); c.Call.IsInvoke() {
				return nil
			} else if _, ok := c.Call.Value.(*ssa.Builtin); !ok {
				return nil
			}
		case *ssa.Next:
			return nil
		}
		if outs := x.step(f2, s2, in); outs != nil {
			return nil
		}
	}
	t, ok := x.value(f2, s2, ifi.Cond).(*Term)
	if !ok {
		return nil
	}
	inBody := cut.li.blocks[cut.li.head.Succs[0]]
	out0 := cut.li.blocks[cut.li.head.Succs[1]]
	if inBody == out0 {
		return nil
	}
	if !inBody {
		t = Not(t)
	}
	// free symbols must predate the loop's havoc (except iter)
	if mentionsFresh(t, cut.iter) {
		return nil
	}
	return t
}

func mentionsFresh(t *Term, iter *Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t] || t == iter {
			return false
		}
		seen[t] = true
		if (t.op == OVar || t.op == OApp) && (strings.HasPrefix(t.name, "lh.") || t.id > iter.id && strings.Contains(t.name, "!")) {
			return true
		}
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// inductionStep recognises phi = [init, phi + c] for a constant c on every back edge.
func inductionStep(p *ssa.Phi, li *loopInfo) *Term {
	var step *Term
	for i, pred := range li.head.Preds {
		if !li.blocks[pred] {
			continue
		}
		b, ok := p.Edges[i].(*ssa.BinOp)
		if !ok || (b.Op != token.ADD && b.Op != token.SUB) {
			return nil
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok || b.X != ssa.Value(p) {
			return nil
		}
		n := c.Int64()
		if b.Op == token.SUB {
			n = -n
		}
		if step != nil && step != C(n) {
			return nil
		}
		step = C(n)
	}
	return step
}

func (x *Ex) havocLoop(fr *Frame, st *State, cut *Cut, phis []*ssa.Phi, vals []Val, writes map[wkey][]PathEl, back [][]Val, disc bool) {
	x.cur = st
	for i, p := range phis {
		if q, ok := cut.ind[p]; ok {
			fr.env[p] = Add(q[0], Mul(q[1], cut.iter))
			continue
		}
		nm := "lh." + shortFn(fr.fn) + "." + p.Comment
		switch v := vals[i].(type) {
		case *SliceV:
			same := len(back) > 0 && v.Obj != nil
			for _, bv := range back {
				s, ok := bv[i].(*SliceV)
				if !ok || s.Obj != v.Obj {
					same = false
				}
			}
			if same {
				off := Fresh(nm+".off", SInt, bi(0), maxLen)
				ln := Fresh(nm+".len", SInt, bi(0), maxLen)
				cp := Fresh(nm+".xcap", SInt, bi(0), maxLen)
				fr.env[p] = &SliceV{Elem: v.Elem, Obj: v.Obj, Path: v.Path, Off: off, Len: ln, Cap: Add(ln, cp), Nil: False}
				continue
			}
			s := x.symVal(p.Type(), uniq(nm), nil).(*SliceV)
			if s.Obj != nil && ownSlice(p, map[ssa.Value]bool{}) {
				s.Obj.own = true
			}
			fr.env[p] = s
		case *PtrV:
			same := v.Obj != nil || len(back) > 0
			obj, path := v.Obj, v.Path
			for _, bv := range back {
				q, ok := bv[i].(*PtrV)
				if !ok {
					same = false
					break
				}
				if q.Obj == nil {
					continue
				}
				if obj == nil {
					obj, path = q.Obj, q.Path
				} else if obj != q.Obj || !samePath(path, q.Path) {
					same = false
				}
			}
			if same && obj != nil && (obj == v.Obj) {
				fr.env[p] = &PtrV{Nil: Fresh(nm+".nil", SBool, nil, nil), Obj: obj, Path: path}
			} else {
				fr.env[p] = x.symVal(p.Type(), uniq(nm), nil)
			}
		case *RangeV:
			fr.env[p] = v
		default:
			fr.env[p] = x.symVal(p.Type(), uniq(nm), nil)
		}
	}
	// map range iterators: havoc the visited set
	for _, in := range cut.li.head.Instrs {
		if n, ok := in.(*ssa.Next); ok && !n.IsString {
			r := fr.env[n.Iter].(*RangeV)
			nr := &RangeV{m: r.m, c: r.c, name: uniq("lh.rng")}
			fr.env[n.Iter] = nr
			cut.ranges[n.Iter] = nr
		}
	}
	for k, p := range writes {
		cur := x.objVal(st, k.o)
		T := k.o.T
		for _, e := range p {
			T = T.Underlying().(*types.Struct).Field(e.Field).Type()
		}
		old := x.loadPath(cur, p)
		nm := uniq("lh." + k.o.name)
		var nv Val
		switch o := old.(type) {
		case *ArrayV:
			if o.N < 0 {
				nv = &ArrayV{o.Elem, -1, &SeqSym{o.Elem, nm, nil}}
			} else {
				nv = x.symVal(T, nm, nil)
			}
		case *MapC:
			nv = &MapC{T: o.T, Name: nm, Len: Fresh(nm+".len", SInt, bi(0), maxLen)}
		case *PtrV:
			if o.Obj != nil && o.Nil == False {
				// pointer variables rewritten in a loop: target unknown
			}
			nv = x.symVal(T, nm, nil)
		case *RopeV:
			nv = &RopeV{R: ropeVar(nm), C: ropeVar(nm + ".taken"), W: o.W}
			if namedIs(T, "bytes", "Reader") { // reading never makes more
				x.cur = st
				st.assume(Le(x.ropeLen(nv.(*RopeV).R), x.ropeLen(o.R)), false)
			}
		default:
			nv = x.symVal(T, nm, nil)
		}
		st.mem[k.o] = x.storePath(cur, p, nv)
	}
}

// ownSlice: the slice can only be one that was allocated here, whatever was appended to it.
func ownSlice(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	lone := func() bool { return len(uses(v)) == 1 }
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !ownSlice(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		b, ok := v.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "append" && ownSlice(v.Call.Args[0], seen)
	case *ssa.MakeSlice:
		return lone()
	case *ssa.Const:
		return v.IsNil()
	case *ssa.Slice:
		a, ok := v.X.(*ssa.Alloc)
		return ok && lone() && onlyFilled(a, v)
	}
	return false
}

func uses(v ssa.Value) (r []ssa.Instruction) {
	for _, i := range *v.Referrers() {
		if _, ok := i.(*ssa.DebugRef); !ok {
			r = append(r, i)
		}
	}
	return
}

// onlyFilled: nothing but the slice and the stores of a literal's elements use the array.
func onlyFilled(a *ssa.Alloc, s *ssa.Slice) bool {
	for _, r := range uses(a) {
		if r == ssa.Instruction(s) {
			continue
		}
		i, ok := r.(*ssa.IndexAddr)
		if !ok {
			return false
		}
		for _, q := range uses(i) {
			if st, ok := q.(*ssa.Store); !ok || st.Addr != ssa.Value(i) {
				return false
			}
		}
	}
	return true
}

func (x *Ex) closeLoop(fr *Frame, st *State, cut *Cut, phis []*ssa.Phi, vals []Val) {
	if x.discover != nil {
		return
	}
	nxt := Add(cut.iter, C(1))
	for i, p := range phis {
		if q, ok := cut.ind[p]; ok {
			x.obligeAlways(st, "induction", fmt.Sprintf("loop%d-%s", cut.li.ord, p.Comment), p.Pos(), Eq(vals[i].(*Term), Add(q[0], Mul(q[1], nxt))))
		}
	}
	if cut.inv != nil {
		x.checkInv(fr, st, cut, phis, vals, nxt, fmt.Sprintf("loop%d-step", cut.li.ord))
	}
}

// ---- invariants ----

func (x *Ex) checkInv(fr *Frame, st *State, cut *Cut, phis []*ssa.Phi, vals []Val, iter *Term, label string) {
	x.cur = st
	x.invAssume = nil
	t := x.evalInv(fr, st, cut, phis, vals, iter)
	cs := []*Term{t}
	if t.op == OAnd {
		cs = t.args
	}
	for i, c := range cs {
		x.obligeAlways(st, "invariant", fmt.Sprintf("%s.%d", label, i), cut.inv.Pos(), c)
	}
}

func (x *Ex) assumeInv(fr *Frame, st *State, cut *Cut, phis []*ssa.Phi, iter *Term) {
	x.cur = st
	var vals []Val
	for _, p := range phis {
		vals = append(vals, fr.env[p])
	}
	x.invAssume = st
	t := x.assuming(st, func() *Term { return x.evalInv(fr, st, cut, phis, vals, iter) })
	x.invAssume = nil
	st.assume(t, false)
}

func (x *Ex) evalInv(fr *Frame, st *State, cut *Cut, phis []*ssa.Phi, vals []Val, iter *Term) *Term {
	var args []Val
	if cut.names == nil {
		cut.names = map[string]bool{}
	}
	for _, p := range cut.inv.Params {
		args = append(args, x.invArg(fr, st, cut, phis, vals, p, iter))
	}
	x.curCut = cut
	x.curCutFr = fr
	v := x.evalPure(st, &FuncV{Fn: cut.inv, Nil: False}, args)
	t, ok := v.(*Term)
	if !ok && v == nil && x.solver.check(x, st, True, 2000) == "unsat" {
		return True // the invariant has no value because this path is impossible
	}
	if !ok {
		x.fail("invariant is not a boolean")
	}
	return unlost(t, map[*Term]bool{})
}

const lostName = "lost."

// invArg: a variable of the invariant. What the invariant says of a variable that the source no longer has is left
// out, everywhere it is used: a weaker invariant.
func (x *Ex) invArg(fr *Frame, st *State, cut *Cut, phis []*ssa.Phi, vals []Val, p *ssa.Parameter, iter *Term) (v Val) {
	found, known := cut.names[p.Name()]
	if known && !found {
		return x.symVal(p.Type(), uniq(lostName+p.Name()), nil)
	}
	defer func() {
		if known {
			return
		}
		if r := recover(); r != nil {
			if e, ok := r.(vfError); !ok || !strings.HasPrefix(e.msg, "invariant variable") {
				panic(r)
			}
			cut.names[p.Name()] = false
			v = x.symVal(p.Type(), uniq(lostName+p.Name()), nil)
			return
		}
		cut.names[p.Name()] = true
	}()
	return x.resolveName(fr, st, cut, phis, vals, p.Name(), p.Type(), iter)
}

func isLost(t *Term, seen map[*Term]bool) bool {
	if r, ok := seen[t]; ok {
		return r
	}
	seen[t] = false
	r := strings.HasPrefix(t.name, lostName)
	for _, a := range t.args {
		r = r || isLost(a, seen)
	}
	seen[t] = r
	return r
}

func unlost(t *Term, seen map[*Term]bool) *Term {
	if !isLost(t, seen) {
		return t
	}
	if t.op == OAnd {
		var cs []*Term
		for _, a := range t.args {
			cs = append(cs, unlost(a, seen))
		}
		return And(cs...)
	}
	if t.op == OOr {
		var cs []*Term
		for _, a := range t.args {
			cs = append(cs, unlost(a, seen))
		}
		return Or(cs...)
	}
	if t.op == OIte && !isLost(t.args[0], seen) {
		return Ite(t.args[0], unlost(t.args[1], seen), unlost(t.args[2], seen))
	}
	return True
}

// roleName guesses what a counter or bound means that the source no longer has under this name: a wrong guess
// only makes an invariant fail.
func (x *Ex) roleName(fr *Frame, st *State, cut *Cut, phis []*ssa.Phi, vals []Val, name string, iter *Term) Val {
	if name == "rangeindex" {
		return Sub(iter, C(1))
	}
	low := strings.ToLower(name)
	for _, s := range []string{"len", "count", "size", "left"} {
		if strings.HasSuffix(low, s) {
			return x.loopBound(fr, cut, phis)
		}
	}
	// is the counter of this loop there under another name of the invariant?
	own := false
	if cut.inv != nil {
		for _, p := range cut.inv.Params {
			n := p.Name()
			if n == "iter" || n == "rangeindex" && n != name {
				own = own || n == "iter"
			}
			for _, q := range phis {
				if q.Comment == n && n != name && cut.ind[q] != [2]*Term{} {
					own = true
				}
			}
			if _, ok := intType(p.Type()); ok && n != name && len(n) == 1 && len(name) > 1 {
				own = true // i, j, k count the inner loop
			}
		}
	}
	if !own {
		return iter
	}
	if c := fr.outerCut(cut); c != nil && c.iter != nil {
		return c.iter
	}
	return nil
}

// outerCut: the innermost loop around the given one.
func (fr *Frame) outerCut(cut *Cut) (best *Cut) {
	for _, c := range fr.cut {
		if c != cut && c.li.blocks[cut.li.head] && (best == nil || best.li.blocks[c.li.head]) {
			best = c
		}
	}
	return
}

// loopBound: what the counter of the loop is compared with.
func (x *Ex) loopBound(fr *Frame, cut *Cut, phis []*ssa.Phi) Val {
	for _, in := range cut.li.head.Instrs {
		b, ok := in.(*ssa.BinOp)
		if !ok {
			continue
		}
		for _, p := range phis {
			o := ssa.Value(nil)
			if b.X == p {
				o = b.Y
			} else if b.Y == p {
				o = b.X
			}
			if o == nil {
				continue
			}
			if c, ok := o.(*ssa.Const); ok {
				return x.constVal(c)
			}
			if v, ok := fr.env[o]; ok {
				return v
			}
		}
	}
	return nil
}

// resolveName finds the value of a source variable at the loop header.
func (x *Ex) resolveName(fr *Frame, st *State, cut *Cut, phis []*ssa.Phi, vals []Val, name string, T types.Type, iter *Term) Val {
	if name == "iter" {
		return iter
	}
	if name == "outer" { // iterations completed by the enclosing loop
		if c := fr.outerCut(cut); c != nil && c.iter != nil {
			return c.iter
		}
	}
	if strings.HasPrefix(name, "spec_") { // parameters of the specification that is being verified
		n := strings.TrimPrefix(name, "spec_")
		for i, p := range x.topFrame.fn.Params {
			if p.Name() == n {
				return x.topFrame.args[i]
			}
		}
	}
	if strings.HasPrefix(name, "entry_") {
		n := strings.TrimPrefix(name, "entry_")
		for i, p := range fr.fn.Params {
			if p.Name() == n {
				return x.snapFrom(fr.entry, st, fr.args[i], map[*Obj]*Obj{})
			}
		}
	}
	if strings.HasPrefix(name, "old_") { // value at loop entry
		n := strings.TrimPrefix(name, "old_")
		for _, p := range phis {
			if p.Comment == n {
				return x.snapFrom(cut.pre, st, cut.entry[p], map[*Obj]*Obj{})
			}
		}
		f2 := *fr
		f2.env = cut.preEnv
		var ev []Val
		for _, p := range phis {
			ev = append(ev, cut.entry[p])
		}
		oldc := x.cur
		x.cur = cut.pre
		v := x.resolveName(&f2, cut.pre, cut, phis, ev, n, T, iter)
		x.cur = oldc
		return x.snapFrom(cut.pre, st, v, map[*Obj]*Obj{})
	}
	for i, p := range phis {
		if p.Comment == name {
			return vals[i]
		}
	}
	if name == "rangeindex" { // not a range loop: the same count
		return Sub(iter, C(1))
	}
	_, isInt := intType(T)
	fits := func(t types.Type) bool {
		if types.Identical(t, T) {
			return true
		}
		_, ok := intType(t)
		return ok && isInt
	}
	asT := func(v Val, t types.Type) (Val, bool) {
		if fits(t) {
			return v, true
		}
		if pt, ok := t.Underlying().(*types.Pointer); ok && fits(pt.Elem()) {
			return x.load(st, v.(*PtrV), nil), true
		}
		return nil, false
	}
	for _, p := range fr.fn.FreeVars {
		if p.Name() == name {
			if r, ok := asT(fr.env[p], p.Type()); ok {
				return r
			}
		}
	}
	// dominating blocks, innermost first
	for b := cut.li.head; b != nil; b = b.Idom() {
		var found Val
		held := false // the variable lives in memory: what it holds now, not a value it was once given
		for _, in := range b.Instrs {
			if b == cut.li.head {
				break
			}
			switch in := in.(type) {
			case *ssa.Alloc:
				if in.Comment == name {
					if v, ok := fr.env[in]; ok {
						if r, ok := asT(v, in.Type()); ok {
							found, held = r, true
						}
					}
				}
			case *ssa.Phi:
				if in.Comment == name {
					if v, ok := fr.env[in]; ok {
						found = v
					}
				}
			case *ssa.DebugRef:
				if o := in.Object(); o != nil && o.Name() == name {
					if w, isVar := o.(*types.Var); isVar && !w.IsField() {
						if v, ok := fr.env[in.X]; ok {
							t := in.X.Type()
							if in.IsAddr {
								if r, ok := asT(v, t); ok {
									found = r
								}
							} else if fits(t) && !held {
								found = v
							}
						} else if c, ok := in.X.(*ssa.Const); ok && fits(c.Type()) && !held {
							found = x.constVal(c)
						}
					}
				}
			}
		}
		if found != nil {
			return found
		}
	}
	for i, p := range fr.fn.Params {
		if p.Name() == name && fits(p.Type()) {
			_ = i
			// parameters may be shadowed by an alloc copy (address taken)
			for _, b := range fr.fn.Blocks {
				for _, in := range b.Instrs {
					if a, ok := in.(*ssa.Alloc); ok && a.Comment == name {
						if v, ok := fr.env[a]; ok {
							if r, ok := asT(v, a.Type()); ok {
								return r
							}
						}
					}
				}
			}
			return fr.env[p]
		}
	}
	// by role: unique phi of the right type
	var cand Val
	n := 0
	for i, p := range phis {
		if fits(p.Type()) {
			own := false // that one has its own name
			if !isInt && cut.inv != nil {
				for _, q := range cut.inv.Params {
					own = own || q.Name() == p.Comment
				}
			}
			if !own {
				cand = vals[i]
				n++
			}
		}
	}
	if n == 1 && !isInt {
		return cand
	}
	if !isInt && cut.inv != nil {
		if o := renamed(fr, cut, phis, name, T); o != "" {
			return x.resolveName(fr, st, cut, phis, vals, o, T, iter)
		}
	}
	if isInt {
		if v := x.roleName(fr, st, cut, phis, vals, name, iter); v != nil {
			return v
		}
		if n == 1 {
			return cand
		}
	}
	x.fail("invariant variable %q not found at loop %d of %s", name, cut.li.ord, fr.fn)
	return nil
}

// renamed guesses which variable of the source the invariant means by a name that the source no longer has: the
// only one of its type that the invariant does not know, or the one in the same place among as many. A wrong guess
// only makes an invariant fail.
func renamed(fr *Frame, cut *Cut, phis []*ssa.Phi, name string, T types.Type) string {
	pos := map[string]token.Pos{}
	all := map[string]bool{}
	add := func(n string, t types.Type, p token.Pos) {
		all[n] = true
		if types.Identical(t, T) {
			if q, ok := pos[n]; !ok || p < q {
				pos[n] = p
			}
		}
	}
	for _, p := range fr.fn.Params {
		all[p.Name()] = true
	}
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.DebugRef); ok {
				if v, ok := d.Object().(*types.Var); ok && !v.IsField() {
					all[v.Name()] = true
				}
			}
		}
	}
	for _, p := range phis {
		add(p.Comment, p.Type(), p.Pos())
	}
	for b := cut.li.head.Idom(); b != nil; b = b.Idom() {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.DebugRef); ok {
				if v, ok := d.Object().(*types.Var); ok && !v.IsField() {
					add(v.Name(), v.Type(), v.Pos())
				}
			}
		}
	}
	var lost, cands []string
	taken := map[string]bool{}
	for _, p := range cut.inv.Params {
		n := p.Name()
		for _, s := range []string{"old_", "entry_", "spec_"} {
			if strings.HasPrefix(n, s) {
				n = strings.TrimPrefix(n, s)
				if s == "spec_" {
					n = ""
				}
			}
		}
		if n == "" || taken[n] {
			continue
		}
		taken[n] = true
		if !all[n] && types.Identical(p.Type(), T) {
			lost = append(lost, n)
		}
	}
	for n := range pos {
		if !taken[n] && n != "" && n != "_" && fr.isVar(n) {
			cands = append(cands, n)
		}
	}
	sort.Slice(cands, func(i, j int) bool { return pos[cands[i]] < pos[cands[j]] })
	if len(cands) != len(lost) {
		return ""
	}
	for i, n := range lost {
		if n == name {
			return cands[i]
		}
	}
	return ""
}

// isVar: a local variable of the function, not one of its parameters.
func (fr *Frame) isVar(n string) bool {
	for _, p := range fr.fn.Params {
		if p.Name() == n {
			return false
		}
	}
	return true
}
