package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"

	"golang.org/x/tools/go/ssa"
)

type pcItem struct {
	t      *Term
	branch bool
}

type bnd struct{ lo, hi *big.Int }

type State struct {
	mem    map[*Obj]Val
	pc     []pcItem
	pcSet  map[*Term]bool
	bounds map[*Term]bnd
	dead   bool
	ghost  map[string]Val
}

func newState() *State {
	return &State{mem: map[*Obj]Val{}, pcSet: map[*Term]bool{}, bounds: map[*Term]bnd{}, ghost: map[string]Val{}}
}

func (s *State) clone() *State {
	n := &State{mem: make(map[*Obj]Val, len(s.mem)+4), pcSet: make(map[*Term]bool, len(s.pcSet)+4), bounds: make(map[*Term]bnd, len(s.bounds)+2), dead: s.dead, ghost: map[string]Val{}}
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k := range s.pcSet {
		n.pcSet[k] = true
	}
	for k, v := range s.bounds {
		n.bounds[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	return n
}

func (s *State) iv(t *Term) (*big.Int, *big.Int) { return s.ivd(t, 0) }
func (s *State) ivd(t *Term, d int) (*big.Int, *big.Int) {
	if b, ok := s.bounds[t]; ok {
		return b.lo, b.hi
	}
	if len(s.bounds) == 0 || d > 6 {
		return t.lo, t.hi
	}
	switch t.op {
	case OLin, OMul, OIte, ODiv, OMod:
		if len(t.args) > 24 {
			return t.lo, t.hi
		}
		lo, hi := intervalWith(t, func(a *Term) (*big.Int, *big.Int) { return s.ivd(a, d+1) })
		if lo == nil || t.lo != nil && t.lo.Cmp(lo) > 0 {
			lo = t.lo
		}
		if hi == nil || t.hi != nil && t.hi.Cmp(hi) < 0 {
			hi = t.hi
		}
		return lo, hi
	}
	return t.lo, t.hi
}

func (s *State) tighten(a *Term, lo, hi *big.Int) {
	l, h := s.iv(a)
	if lo != nil && (l == nil || lo.Cmp(l) > 0) {
		l = lo
	}
	if hi != nil && (h == nil || hi.Cmp(h) < 0) {
		h = hi
	}
	s.bounds[a] = bnd{l, h}
	// x = c*q + r style: propagate from div to base is skipped
}

// assume adds t to the path condition.
func (s *State) assume(t *Term, branch bool) {
	if t == True || s.pcSet[t] {
		return
	}
	if t == False || s.pcSet[Not(t)] {
		s.dead = true
	}
	if t.op == OAnd {
		for _, a := range t.args {
			s.assume(a, branch)
		}
		return
	}
	s.pcSet[t] = true
	s.pc = append(s.pc, pcItem{t, branch})
	s.learn(t)
}

func ceilDiv(a, b *big.Int) *big.Int { // b>0
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m)
	if m.Sign() != 0 {
		q.Add(q, bi(1))
	}
	return q
}

func (s *State) learn(t *Term) {
	switch t.op {
	case ONot:
		e := t.args[0]
		if e.op != OEq0 {
			return
		}
		e = e.args[0]
		if e.op == OLin && len(e.args) == 1 && e.coefs[0].CmpAbs(bi(1)) == 0 {
			// a != c at an interval end
			a, c := e.args[0], new(big.Int).Neg(e.ival)
			if e.coefs[0].Sign() < 0 {
				c = e.ival
			}
			lo, hi := s.iv(a)
			if lo != nil && lo.Cmp(c) == 0 {
				s.tighten(a, new(big.Int).Add(c, bi(1)), nil)
			}
			if hi != nil && hi.Cmp(c) == 0 {
				s.tighten(a, nil, new(big.Int).Sub(c, bi(1)))
			}
		} else if e.op != OLin {
			lo, hi := s.iv(e)
			if lo != nil && lo.Sign() == 0 {
				s.tighten(e, bi(1), nil)
			}
			if hi != nil && hi.Sign() == 0 {
				s.tighten(e, nil, bi(-1))
			}
		}
	case OGe0, OEq0:
		x := t.args[0]
		if x.op != OLin {
			if t.op == OGe0 {
				s.tighten(x, bi(0), nil)
			} else {
				s.tighten(x, bi(0), bi(0))
			}
			return
		}
		if len(x.args) > 6 {
			return
		}
		// each atom: k*a >= -(rest)max
		for i, a := range x.args {
			k := x.coefs[i]
			rl, rh := x.ival, x.ival
			for j, b := range x.args {
				if j != i {
					l, h := s.iv(b)
					l, h = mulIv(x.coefs[j], l, h)
					rl, rh = addB(rl, l), addB(rh, h)
				}
			}
			// k*a + rest >= 0  => k*a >= -rh
			bound := func(mn *big.Int, lower bool) {
				// k*a >= mn (lower) or k*a <= mn
				if k.Sign() > 0 == lower {
					if lower {
						s.tighten(a, ceilDiv(mn, k), nil)
					} else {
						// k<0, k*a <= mn  => a >= mn/k
						s.tighten(a, ceilDiv(new(big.Int).Neg(mn), new(big.Int).Neg(k)), nil)
					}
				} else {
					if lower {
						// k<0: k*a >= mn => a <= mn/k = floor(-mn/-k)
						s.tighten(a, nil, floorDiv(new(big.Int).Neg(mn), new(big.Int).Neg(k)))
					} else {
						s.tighten(a, nil, floorDiv(mn, k))
					}
				}
			}
			if rh != nil {
				bound(new(big.Int).Neg(rh), true)
			}
			if t.op == OEq0 && rl != nil {
				bound(new(big.Int).Neg(rl), false)
			}
		}
	}
}

// simp simplifies a boolean under the syntactic path condition.
func (s *State) simp(t *Term) *Term {
	if s.pcSet[t] {
		return True
	}
	if s.pcSet[Not(t)] {
		return False
	}
	switch t.op {
	case OGe0:
		l, h := s.iv(t.args[0])
		if l != nil && l.Sign() >= 0 {
			return True
		}
		if h != nil && h.Sign() < 0 {
			return False
		}
	case OEq0:
		l, h := s.iv(t.args[0])
		if l != nil && l.Sign() > 0 || h != nil && h.Sign() < 0 {
			return False
		}
		if l != nil && h != nil && l.Sign() == 0 && h.Sign() == 0 {
			return True
		}
	case ONot:
		return Not(s.simp(t.args[0]))
	case OAnd, OOr:
		if len(t.args) <= 64 {
			na := make([]*Term, len(t.args))
			for i, a := range t.args {
				na[i] = s.simp(a)
			}
			return nary(t.op, na)
		}
	case OIte:
		if t.sort == SBool {
			c := s.simp(t.args[0])
			if c == True {
				return s.simp(t.args[1])
			}
			if c == False {
				return s.simp(t.args[2])
			}
		}
	}
	return t
}

// simpInt resolves ites decided by the path condition (shallow).
func (s *State) simpTerm(t *Term, d int) *Term {
	if d > 4 {
		return t
	}
	if t.op == OIte {
		c := s.simp(t.args[0])
		if c == True {
			return s.simpTerm(t.args[1], d+1)
		}
		if c == False {
			return s.simpTerm(t.args[2], d+1)
		}
	}
	return t
}

// ---- memory ----

func (x *Ex) objVal(st *State, o *Obj) Val {
	if v, ok := st.mem[o]; ok {
		return v
	}
	if v, ok := x.base[o]; ok {
		return v
	}
	if o.glob != nil {
		return x.globalInit(o)
	}
	if o.sym {
		if v, ok := x.symCache[o]; ok {
			return v
		}
		v := x.symContent(o)
		if o.snapSrc != nil {
			dst := &State{mem: map[*Obj]Val{}}
			v = x.snapFrom(o.snapSrc, dst, v, o.snapSeen)
			for k, e := range dst.mem {
				x.symCache[k] = e
				k.sym = true
			}
		}
		x.symCache[o] = v
		return v
	}
	x.fail("read of uninitialised object %s", o.name)
	return nil
}

func (x *Ex) loadPath(v Val, path []PathEl) Val {
	for _, p := range path {
		switch q := v.(type) {
		case *StructV:
			if p.Idx != nil {
				x.fail("index into struct")
			}
			if p.Field >= len(q.F) {
				x.fail("field %d of %s", p.Field, q.T)
			}
			v = q.F[p.Field]
		case *ArrayV:
			v = q.S.At(x, p.Idx)
			if v == nil {
				v = x.zero(q.Elem)
			}
		case *IfaceV, nil:
			x.fail("loadPath through %T", v)
		default:
			x.fail("loadPath through %T", v)
		}
	}
	return v
}

func (x *Ex) storePath(v Val, path []PathEl, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	switch q := v.(type) {
	case *StructV:
		f := append([]Val{}, q.F...)
		f[p.Field] = x.storePath(f[p.Field], path[1:], nv)
		return &StructV{q.T, f}
	case *ArrayV:
		if len(path) > 1 {
			e := q.S.At(x, p.Idx)
			if e == nil {
				e = x.zero(q.Elem)
			}
			nv = x.storePath(e, path[1:], nv)
		}
		return &ArrayV{q.Elem, q.N, storeSeq(x, q.S, p.Idx, nv)}
	}
	x.fail("storePath through %T", v)
	return nil
}

func (x *Ex) load(st *State, p *PtrV, at ssa.Instruction) Val {
	if p.Obj == nil {
		return nil
	}
	return x.loadPath(x.objVal(st, p.Obj), p.Path)
}

func (x *Ex) store(st *State, p *PtrV, v Val) {
	if p.Obj == nil {
		return
	}
	if p.Obj.ro && !x.allowRo {
		x.fail("write through a pointer read from a symbolic container (%s)", p.Obj.name)
	}
	x.noteWrite(p.Obj, p.Path)
	st.mem[p.Obj] = x.storePath(x.objVal(st, p.Obj), p.Path, v)
}

// sliceSeq: the sequence of elements of a slice (index 0 = first element)
func (x *Ex) sliceSeq(s *SliceV) Seq {
	if s.Obj == nil {
		return &SeqConc{}
	}
	a, ok := x.loadPath(x.objVal(x.cur, s.Obj), s.Path).(*ArrayV)
	if !ok {
		x.fail("slice backing is not an array")
	}
	return shiftSeq(a.S, s.Off)
}

func (x *Ex) mkSlice(st *State, elem types.Type, s Seq, n *Term, name string) *SliceV {
	o := newObj(types.NewSlice(elem), name)
	st.mem[o] = &ArrayV{elem, -1, s}
	return &SliceV{Elem: elem, Obj: o, Off: C(0), Len: n, Cap: n, Nil: False}
}

// ---- merging of states ----

func conjuncts(t *Term) []*Term {
	if t.op == OAnd {
		return t.args
	}
	return []*Term{t}
}

func (x *Ex) exclusive(base *State, a, b *Term) bool {
	if a == False || b == False {
		return true
	}
	in := map[*Term]bool{}
	for _, c := range conjuncts(a) {
		in[c] = true
	}
	for _, c := range conjuncts(b) {
		if in[Not(c)] {
			return true
		}
	}
	if And(a, b) == False {
		return true
	}
	if x.inQuant > 0 {
		return true // only total specification predicates are evaluated under a quantifier
	}
	return x.solver.check(x, base, And(a, b), quickMs) == "unsat"
}

func (x *Ex) mergeStates(baseLen int, base *State, sts []*State) (*State, []*Term, bool) {
	n := len(sts)
	sels := make([]*Term, n)
	full := make([]*Term, n)
	for i, s := range sts {
		var b, f []*Term
		for _, it := range s.pc[baseLen:] {
			if it.branch {
				b = append(b, it.t)
			}
			f = append(f, it.t)
		}
		sels[i] = And(b...)
		full[i] = And(f...)
	}
	// the selectors must exclude each other, or the merged value would pick one path arbitrarily
	for i := range sts {
		for j := i + 1; j < n; j++ {
			if !x.exclusive(base, sels[i], sels[j]) {
				if os.Getenv("GV_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "not merged: overlapping selectors", trunc(sels[i].String(), 200), "|", trunc(sels[j].String(), 200))
				}
				return nil, nil, false
			}
		}
	}
	r := &State{mem: map[*Obj]Val{}, pcSet: map[*Term]bool{}, bounds: map[*Term]bnd{}, ghost: map[string]Val{}}
	for k := range sts[0].ghost {
		r.ghost[k] = sts[0].ghost[k]
		for _, s := range sts[1:] {
			if s.ghost[k] != r.ghost[k] {
				return nil, nil, false
			}
		}
	}
	objs := map[*Obj]bool{}
	for _, s := range sts {
		if len(s.ghost) != len(sts[0].ghost) {
			return nil, nil, false
		}
		for o := range s.mem {
			objs[o] = true
		}
	}
	for o := range objs {
		// fresh object created on one branch only: keep
		var have []Val
		all := true
		for _, s := range sts {
			v, ok := s.mem[o]
			if !ok {
				if o.sym || o.glob != nil {
					v = x.objVal(s, o)
				} else if bv, ok := x.base[o]; ok {
					v = bv
				} else {
					all = false
					v = nil
				}
			}
			have = append(have, v)
		}
		if !all {
			var pick Val
			for _, v := range have {
				if v != nil {
					if pick != nil && pick != v {
						// exists on several but not all: merge those
						return nil, nil, false
					}
					pick = v
				}
			}
			r.mem[o] = pick
			continue
		}
		v := have[n-1]
		for i := n - 2; i >= 0; i-- {
			m, ok := x.merge(sels[i], have[i], v)
			if !ok {
				return nil, nil, false
			}
			v = m
		}
		r.mem[o] = v
	}
	for i := 0; i < baseLen; i++ {
		it := sts[0].pc[i]
		r.pc = append(r.pc, it)
		r.pcSet[it.t] = true
	}
	for k, v := range base.bounds {
		r.bounds[k] = v
	}
	r.assume(Or(full...), true)
	return r, sels, true
}

func (x *Ex) foldVals(sels []*Term, vs []Val) (Val, bool) {
	v := vs[len(vs)-1]
	for i := len(vs) - 2; i >= 0; i-- {
		m, ok := x.merge(sels[i], vs[i], v)
		if !ok {
			return nil, false
		}
		v = m
	}
	return v, true
}

type vfError struct{ msg string }

func (e vfError) Error() string { return e.msg }

func (x *Ex) fail(f string, a ...interface{}) {
	panic(vfError{fmt.Sprintf(f, a...) + " @ " + x.where()})
}
