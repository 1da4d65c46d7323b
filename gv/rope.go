package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"strings"
)

// A Rope is the abstract content of a byte stream: a concatenation of segments.  Streams built with
// bytes.Buffer / read with bytes.Reader keep their structure, so that writer and reader can be
// related for records of any length.

const (
	sBytes = iota // N bytes S[0..N)
	sUv           // the minimal base-128 varint of T
	sRep          // F(Lo) ++ F(Lo+1) ++ ... ++ F(Hi-1)
	sVar          // unknown content
	sIte          // A if C holds, B otherwise
)

type Seg struct {
	K      int
	S      Seq
	N      *Term
	T      *Term
	Lo, Hi *Term
	F      func(i *Term) *Rope
	Key    string
	H      []*Term
	C      *Term
	A, B   *Rope
	bare   bool // unknown even where its conditional definitions do not apply
}

type Rope struct{ S []*Seg }

// RopeV is the content of a stream: what can still be read, and for readers what has been read (nil: nothing).
// W is the content that a reader was made with, if known: what has been read and what can still be read, always.
type RopeV struct{ R, C, W *Rope }

// A ropeDef records that unknown content is known to be R where cond holds (from a contract or an invariant).
type ropeDef struct {
	cond *Term
	r    *Rope
}

// resolve replaces unknown contents by what the current path knows about them.
func (x *Ex) resolve(r *Rope) *Rope {
	for i, g := range r.S {
		n := ""
		switch {
		case g.K == sVar && len(g.H) == 0:
			n = g.Key
		case g.K == sBytes && !g.N.isConst():
			if q, ok := g.S.(*SeqSym); ok && len(q.Idx) == 0 {
				n = "seq:" + q.Name
			}
		case g.K == sIte:
			if c := x.cur.simp(g.C); c == True || c == False {
				sub := g.A
				if c == False {
					sub = g.B
				}
				return ropeCat(&Rope{r.S[:i:i]}, x.resolve(ropeCat(sub, &Rope{r.S[i+1:]})))
			}
		}
		if g.K == sBytes && !g.N.isConst() {
			if c := x.readBefore(g); c != nil {
				return ropeCat(&Rope{r.S[:i:i]}, x.resolve(ropeCat(c, &Rope{r.S[i+1:]})))
			}
		}
		if n == "" {
			continue
		}
		for _, d := range x.ropeDefs[n] {
			if d.cond == True || x.cur != nil && x.cur.simp(d.cond) == True {
				return ropeCat(&Rope{r.S[:i:i]}, x.resolve(ropeCat(d.r, &Rope{r.S[i+1:]})))
			}
		}
	}
	return r
}

// readBefore: what a reader that is at its end has read, if it was made with these bytes.
func (x *Ex) readBefore(g *Seg) *Rope {
	if x.cur == nil || !x.wholes || x.finding {
		return nil
	}
	x.finding = true
	defer func() { x.finding = false }()
	var h []*Term
	k := ""
	for o, v := range x.cur.mem {
		rv, ok := v.(*RopeV)
		if !ok || rv.W == nil || rv.C == nil || o.snap != nil || len(rv.W.S) != 1 || rv.W.S[0].K != sBytes {
			continue
		}
		if k == "" {
			k = g.key(x, &h)
		}
		var h2 []*Term
		if rv.W.S[0].key(x, &h2) != k || len(h) != len(h2) {
			continue
		}
		if x.cur.simp(Eq(x.ropeLen(rv.R), C(0))) != True {
			continue
		}
		var cs []*Term
		for i := range h {
			cs = append(cs, Eq(h[i], h2[i]))
		}
		if c := x.cur.simp(And(cs...)); c == True || c != False && !x.feasible(x.cur, Not(c)) {
			return rv.C
		}
	}
	return nil
}

// ropeEqAssume is the value of a == b in what is being assumed: unknown content is defined by it.
func (x *Ex) ropeEqAssume(a, b *Rope) *Term {
	a, b = x.resolve(a), x.resolve(b)
	for i := 0; i < 2; i++ {
		if len(a.S) == 1 && len(x.cur.pc) >= x.assumeBase {
			g := a.S[0]
			n := ""
			if g.K == sVar && len(g.H) == 0 {
				n = g.Key
			} else if q, ok := g.S.(*SeqSym); ok && g.K == sBytes && len(q.Idx) == 0 && !g.N.isConst() {
				n = "seq:" + q.Name
			}
			if n != "" && !x.mentions(b, n) {
				var cs []*Term
				for _, it := range x.cur.pc[x.assumeBase:] {
					cs = append(cs, it.t)
				}
				x.ropeDefs[n] = append(x.ropeDefs[n], ropeDef{And(cs...), b})
				return Eq(x.segLen(g), x.ropeLen(b))
			}
		}
		a, b = b, a
	}
	// an assumption must not be stronger than equality
	old := x.ropeInexact
	x.ropeInexact = false
	t := x.ropeEq(a, b)
	if x.ropeInexact {
		if os.Getenv("GV_ROPE") != "" {
			fmt.Fprintln(os.Stderr, "inexact equality assumed:", x.ropeShow(a), "  AND  ", x.ropeShow(b))
		}
		var h []*Term
		k1 := a.key(x, &h)
		k2 := b.key(x, &h)
		t = App("rope.eq#"+shortKey("rope#"+k1+"="+k2), SBool, nil, nil, h...)
		if os.Getenv("GV_ROPE") != "" {
			fmt.Fprintln(os.Stderr, "assumed:", t.name)
		}
	}
	x.ropeInexact = old
	return t
}

// ropeEqProve is the value of a == b in what is to be proved: when their parts can't be matched, the equality
// of the whole may still be what has been assumed.
func (x *Ex) ropeEqProve(a, b *Rope) *Term {
	t := x.ropeEq(a, b)
	if t == True {
		return t
	}
	a, b = x.resolve(a), x.resolve(b)
	var h []*Term
	k1 := a.key(x, &h)
	k2 := b.key(x, &h)
	whole := App("rope.eq#"+shortKey("rope#"+k1+"="+k2), SBool, nil, nil, h...)
	if os.Getenv("GV_ROPE") != "" {
		fmt.Fprintln(os.Stderr, "whole:", whole.name, "T:", x.ropeShow(a), "  AND  ", x.ropeShow(b))
	}
	h = nil
	k2 = b.key(x, &h)
	k1 = a.key(x, &h)
	return Or(t, whole, App("rope.eq#"+shortKey("rope#"+k2+"="+k1), SBool, nil, nil, h...))
}

func (x *Ex) mentions(r *Rope, n string) bool {
	var h []*Term
	return strings.Contains(r.key(x, &h), strings.TrimPrefix(n, "seq:"))
}

// SeqUv: bytes of the minimal varint encoding of T; SeqRope: the bytes of a rope.
type SeqUv struct{ T *Term }
type SeqRope struct{ R *Rope }

func (s *SeqUv) At(x *Ex, i *Term) Val {
	n, ok := i.isInt64()
	if !ok {
		return App("uv.at", SInt, bi(0), bi(255), s.T, i)
	}
	if n > 9 {
		return C(0)
	}
	q := Div(s.T, Const(pow2(int(7*n))))
	if x.cur != nil {
		switch x.cur.simp(Lt(q, C(128))) {
		case True:
			return q
		case False:
			return Add(C(128), Mod(q, C(128)))
		}
	}
	return Ite(Lt(q, C(128)), q, Add(C(128), Mod(q, C(128))))
}
func (s *SeqUv) key(x *Ex, h *[]*Term) string { *h = append(*h, s.T); return "uv" }

func (s *SeqRope) At(x *Ex, i *Term) Val {
	if n, ok := i.isInt64(); ok {
		for _, g := range s.R.S {
			if g.K == sBytes {
				if m, ok := g.N.isInt64(); ok {
					if n < m {
						return g.S.At(x, C(n))
					}
					n -= m
					continue
				}
			}
			if g.K == sUv {
				if c, ok := uvLen(x.cur, g.T).isInt64(); ok {
					if n < c {
						return (&SeqUv{g.T}).At(x, C(n))
					}
					n -= c
					continue
				}
				if n == 0 {
					return (&SeqUv{g.T}).At(x, C(0))
				}
			}
			break
		}
	}
	var h []*Term
	k := s.R.key(x, &h)
	return App("rope.at#"+shortKey("rope#"+k), SInt, bi(0), bi(255), append(h, i)...)
}
func (s *SeqRope) key(x *Ex, h *[]*Term) string { return "R" + s.R.key(x, h) }

// uvLen: number of bytes of the minimal varint encoding of t
func uvLen(st *State, t *Term) *Term {
	lo, hi := t.lo, t.hi
	if st != nil {
		lo, hi = st.iv(t)
	}
	if lo != nil && hi != nil {
		l := func(b *big.Int) int64 {
			n := int64((b.BitLen() + 6) / 7)
			if n == 0 {
				n = 1
			}
			return n
		}
		a, b := l(lo), l(hi)
		if a == b {
			return C(a)
		}
	}
	return App("uvlen", SInt, bi(1), bi(10), t)
}

func (x *Ex) ropeLen(r *Rope) *Term {
	t := C(0)
	for _, g := range r.S {
		t = Add(t, x.segLen(g))
	}
	return t
}

func (x *Ex) segLen(g *Seg) *Term {
	switch g.K {
	case sBytes:
		return g.N
	case sUv:
		return uvLen(x.cur, g.T)
	case sIte:
		return Ite(g.C, x.ropeLen(g.A), x.ropeLen(g.B))
	case sRep:
		k := Var("bv.replen", SInt, bi(0), maxLen)
		if l := x.ropeLen(g.F(k)); l.isConst() {
			return Mul(l, Ite(Lt(g.Lo, g.Hi), Sub(g.Hi, g.Lo), C(0)))
		}
	}
	var h []*Term
	k := g.key(x, &h)
	return App("rope.len#"+shortKey("rope#"+k), SInt, bi(0), maxLen, h...)
}

// repFacts: a repetition is at least as long as the number of its elements if none of them is empty.
func (x *Ex) repFacts(st *State, r *Rope) {
	for _, g := range r.S {
		if g.K != sRep {
			continue
		}
		x.cur = st
		l := x.segLen(g)
		k := Fresh("repidx", SInt, bi(0), maxLen)
		c := st.clone()
		c.assume(And(Le(g.Lo, k), Lt(k, g.Hi)), false)
		x.cur = c
		e := x.ropeLen(x.resolve(g.F(k)))
		if x.solver.check(x, c, Lt(e, C(1)), quickMs) == "unsat" {
			st.assume(Or(Ge(g.Lo, g.Hi), Ge(l, Sub(g.Hi, g.Lo))), false)
		}
		st.assume(Or(Lt(g.Lo, g.Hi), Eq(l, C(0))), false)
		x.cur = st
	}
}

func ropeVar(name string, idx ...*Term) *Rope {
	return &Rope{[]*Seg{{K: sVar, Key: name, H: idx}}}
}

func (g *Seg) key(x *Ex, h *[]*Term) string {
	switch g.K {
	case sBytes:
		if n, ok := g.N.isInt64(); ok && n <= 4096 {
			return (&SeqConc{expandSeq(x, g.S, n)}).key(x, h)
		}
		k := "(" + g.S.key(x, h) + ")"
		*h = append(*h, g.N)
		return k
	case sUv:
		*h = append(*h, g.T)
		return "uv"
	case sRep:
		*h = append(*h, g.Lo, g.Hi)
		bv := Var(fmt.Sprintf("bv.rep%d", x.repDepth), SInt, bi(0), maxLen)
		bv.hasBV = true
		x.repDepth++
		var hh []*Term
		k := g.F(bv).key(x, &hh)
		x.repDepth--
		// holes of the body may mention the bound variable: fold them into the key
		for _, t := range hh {
			if t.hasBV {
				k += fmt.Sprintf("|%s", t.String())
			} else {
				*h = append(*h, t)
				k += "|_"
			}
		}
		return "rep(" + k + ")"
	case sVar:
		*h = append(*h, g.H...)
		return "var:" + g.Key
	case sIte:
		*h = append(*h, g.C)
		return "ite(" + g.A.key(x, h) + g.B.key(x, h) + ")"
	}
	panic("seg")
}

var maxU64 = new(big.Int).Sub(pow2(64), bi(1))

var byteT = types.Typ[types.Byte]

// symBytes: a fresh sequence of n bytes
func (x *Ex) symBytes(n int64, name string) Seq {
	return x.symVal(types.NewArray(byteT, n), name, nil).(*ArrayV).S
}

func (r *Rope) key(x *Ex, h *[]*Term) string {
	k := "<"
	for _, g := range ropeNorm(x, r).S {
		k += g.key(x, h) + ";"
	}
	return k + ">"
}

// ropeNorm merges adjacent constant-length byte segments and drops empty ones.
func ropeNorm(x *Ex, r *Rope) *Rope {
	var out []*Seg
	var run []Val
	flush := func() {
		if len(run) > 0 {
			out = append(out, &Seg{K: sBytes, S: &SeqConc{run}, N: C(int64(len(run)))})
			run = nil
		}
	}
	for _, g := range x.resolve(r).S {
		if g.K == sBytes {
			if n, ok := x.cur.simp2(g.N).isInt64(); ok && n <= 4096 {
				run = append(run, expandSeq(x, g.S, n)...)
				continue
			}
		}
		if g.K == sUv {
			if n, ok := uvLen(x.cur, g.T).isInt64(); ok {
				run = append(run, expandSeq(x, &SeqUv{g.T}, n)...)
				continue
			}
		}
		if g.K == sRep {
			lo, ok1 := x.cur.simp2(g.Lo).isInt64()
			hi, ok2 := x.cur.simp2(g.Hi).isInt64()
			if ok1 && ok2 && hi-lo <= 64 {
				sub := &Rope{}
				for i := lo; i < hi; i++ {
					sub.S = append(sub.S, g.F(C(i)).S...)
				}
				for _, q := range ropeNorm(x, sub).S {
					if q.K == sBytes {
						if n, ok := q.N.isInt64(); ok && n <= 4096 {
							run = append(run, expandSeq(x, q.S, n)...)
							continue
						}
					}
					flush()
					out = append(out, q)
				}
				continue
			}
		}
		flush()
		out = append(out, g)
	}
	flush()
	return &Rope{out}
}

// simp2 simplifies an integer term to a constant when its interval is a point
func (s *State) simp2(t *Term) *Term {
	if s == nil || t.isConst() {
		return t
	}
	lo, hi := s.iv(t)
	if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
		return Const(lo)
	}
	return t
}

func ropeSame(x *Ex, a, b *Rope) bool {
	if a == b {
		return true
	}
	if len(a.S) != len(b.S) {
		return false
	}
	var h1, h2 []*Term
	if a.key(x, &h1) != b.key(x, &h2) || len(h1) != len(h2) {
		return false
	}
	for i := range h1 {
		if h1[i] != h2[i] {
			return false
		}
	}
	return true
}

func ropeCat(a, b *Rope) *Rope {
	return &Rope{append(append([]*Seg{}, a.S...), b.S...)}
}

// segsOf: the rope of the first n bytes of a sequence
func (x *Ex) segsOf(s Seq, n *Term) *Rope {
	if c, ok := n.isInt64(); ok && c == 0 {
		return &Rope{}
	}
	switch q := s.(type) {
	case *SeqUv:
		if n == uvLen(x.cur, q.T) || n == uvLen(nil, q.T) {
			return &Rope{[]*Seg{{K: sUv, T: q.T}}}
		}
	case *SeqOver:
		if q.Lo.isConst() && q.Lo.ival.Sign() == 0 && q.Hi == n {
			return x.segsOf(q.B, n)
		}
		if q.Lo.isConst() && q.Lo.ival.Sign() == 0 && !n.isConst() {
			if d := Sub(n, q.Hi); d.isConst() && d.ival.Sign() > 0 {
				return ropeCat(x.segsOf(q.B, q.Hi), x.segsOf(shiftSeq(q.A, q.Hi), d))
			}
		}
		if q.Hi == n {
			if lo, _ := x.cur.iv(q.Lo); lo != nil && lo.Sign() >= 0 {
				return ropeCat(x.segsOf(q.A, q.Lo), x.segsOf(q.B, Sub(n, q.Lo)))
			}
		}
	case *SeqRope:
		if n == x.ropeLen(q.R) {
			return q.R
		}
		// a constant-length suffix removed
		if r, ok := x.ropeTake(q.R, n); ok {
			return r
		}
	case *SeqShift:
		if r, ok := q.S.(*SeqRope); ok {
			if rest, ok := x.ropeDrop(r.R, q.D); ok {
				if n == x.ropeLen(rest) {
					return rest
				}
				if t, ok := x.ropeTake(rest, n); ok {
					return t
				}
			}
		}
	case *SeqCat:
		d := Sub(n, q.L)
		if lo, _ := x.cur.iv(d); lo != nil && lo.Sign() >= 0 {
			return ropeCat(x.segsOf(q.A, q.L), x.segsOf(q.B, d))
		}
	}
	return &Rope{[]*Seg{{K: sBytes, S: s, N: n}}}
}

// ropeDrop removes a prefix of d bytes when it aligns with the structure.
func (x *Ex) ropeDrop(r *Rope, d *Term) (*Rope, bool) {
	for i, g := range r.S {
		if d.isConst() && d.ival.Sign() == 0 {
			return &Rope{r.S[i:]}, true
		}
		l := x.segLen(g)
		if g.K == sBytes && l.isConst() && d.isConst() && l.ival.Cmp(d.ival) > 0 {
			return &Rope{append([]*Seg{{K: sBytes, S: shiftSeq(g.S, d), N: Sub(l, d)}}, r.S[i+1:]...)}, true
		}
		e := Sub(d, l)
		if lo, _ := x.cur.iv(e); lo == nil || lo.Sign() < 0 {
			return nil, false
		}
		d = e
	}
	if d.isConst() && d.ival.Sign() == 0 {
		return &Rope{}, true
	}
	return nil, false
}

// ropeTake keeps a prefix of n bytes when it aligns with the structure.
func (x *Ex) ropeTake(r *Rope, n *Term) (*Rope, bool) {
	out := &Rope{}
	for _, g := range r.S {
		if n.isConst() && n.ival.Sign() == 0 {
			return out, true
		}
		l := x.segLen(g)
		if g.K == sBytes && l.isConst() && n.isConst() && l.ival.Cmp(n.ival) > 0 {
			out.S = append(out.S, &Seg{K: sBytes, S: g.S, N: n})
			return out, true
		}
		e := Sub(n, l)
		if lo, _ := x.cur.iv(e); lo == nil || lo.Sign() < 0 {
			return nil, false
		}
		out.S = append(out.S, g)
		n = e
	}
	if n.isConst() && n.ival.Sign() == 0 {
		return out, true
	}
	return nil, false
}

// ropeEq: componentwise equality (a sufficient condition for byte equality; exact for aligned shapes)
func (x *Ex) ropeEq(a, b *Rope) *Term {
	if ropeSame(x, a, b) {
		return True
	}
	var cs []*Term
	A, B := ropeNorm(x, a).S, ropeNorm(x, b).S
	give := func() *Term {
		if os.Getenv("GV_ROPE") != "" {
			fmt.Fprintln(os.Stderr, "ropes not aligned:", x.ropeShow(&Rope{A}), "  AND  ", x.ropeShow(&Rope{B}))
		}
		var h []*Term
		k1 := a.key(x, &h)
		k2 := b.key(x, &h)
		return App("rope.eq#"+shortKey("rope#"+k1+"="+k2), SBool, nil, nil, h...)
	}
	for len(A) > 0 && len(B) > 0 {
		p, q := A[0], B[0]
		if p.K == sRep {
			if s := x.cur.simp2(Sub(p.Hi, p.Lo)); s.isConst() && s.ival.Sign() <= 0 {
				A = A[1:]
				continue
			}
		}
		if q.K == sRep {
			if s := x.cur.simp2(Sub(q.Hi, q.Lo)); s.isConst() && s.ival.Sign() <= 0 {
				B = B[1:]
				continue
			}
		}
		if g := x.condDef(p); g != nil && !(p.K == q.K && p.Key == q.Key) {
			p, A = g, append([]*Seg{g}, A[1:]...)
		} else if g := x.condDef(q); g != nil && !(p.K == q.K && p.Key == q.Key) {
			q, B = g, append([]*Seg{g}, B[1:]...)
		}
		switch {
		case p.K == sIte || q.K == sIte:
			g := p
			if p.K != sIte {
				g = q
			}
			side := func(c *Term, pick func(*Seg) *Rope) *Term {
				old := x.cur
				x.cur = old.clone()
				x.cur.assume(c, true)
				defer func() { x.cur = old }()
				if x.cur.dead {
					return True
				}
				l, r := &Rope{A}, &Rope{B}
				if g == p {
					l = ropeCat(pick(p), &Rope{A[1:]})
				} else {
					r = ropeCat(pick(q), &Rope{B[1:]})
				}
				return x.ropeEq(l, r)
			}
			a1 := side(g.C, func(g *Seg) *Rope { return g.A })
			b1 := side(Not(g.C), func(g *Seg) *Rope { return g.B })
			return And(append(cs, Implies(g.C, a1), Implies(Not(g.C), b1))...)
		case p.K == sBytes && q.K == sBytes:
			n, ok1 := p.N.isInt64()
			m, ok2 := q.N.isInt64()
			if ok1 && ok2 && n != m {
				k := n
				if m < k {
					k = m
				}
				for i := int64(0); i < k; i++ {
					cs = append(cs, x.deepEq(p.S.At(x, C(i)), q.S.At(x, C(i))))
				}
				A, B = A[1:], B[1:]
				if n > k {
					A = append([]*Seg{{K: sBytes, S: shiftSeq(p.S, C(k)), N: C(n - k)}}, A...)
				}
				if m > k {
					B = append([]*Seg{{K: sBytes, S: shiftSeq(q.S, C(k)), N: C(m - k)}}, B...)
				}
				continue
			}
			if ok1 && ok2 {
				for i := int64(0); i < n; i++ {
					cs = append(cs, x.deepEq(p.S.At(x, C(i)), q.S.At(x, C(i))))
				}
			} else {
				if len(A) > 1 || len(B) > 1 {
					x.ropeInexact = true
				}
				cs = append(cs, Eq(p.N, q.N), x.seqEq(p.S, q.S, p.N))
			}
		case p.K == sRep && q.K != sRep && len(A) > 1 && ropeSame(x, &Rope{A[1:2]}, &Rope{B[:1]}):
			x.ropeInexact = true
			cs = append(cs, x.ropeEq(&Rope{A[:1]}, &Rope{}))
			A = A[1:]
			continue
		case q.K == sRep && p.K != sRep && len(B) > 1 && ropeSame(x, &Rope{B[1:2]}, &Rope{A[:1]}):
			x.ropeInexact = true
			cs = append(cs, x.ropeEq(&Rope{B[:1]}, &Rope{}))
			B = B[1:]
			continue
		case p.K == sUv && q.K == sUv:
			cs = append(cs, Eq(p.T, q.T))
		case p.K == sRep && q.K == sRep && x.laterRep(p, q, B[1:], 0):
			x.ropeInexact = true
			cs = append(cs, x.ropeEq(&Rope{B[:1]}, &Rope{}))
			B = B[1:]
			continue
		case p.K == sRep && q.K == sRep && x.laterRep(q, p, A[1:], 0):
			x.ropeInexact = true
			cs = append(cs, x.ropeEq(&Rope{A[:1]}, &Rope{}))
			A = A[1:]
			continue
		case p.K == sRep && q.K == sRep && x.laterRep(p, q, B[1:], 1):
			A = x.peel(p, A[1:])
			continue
		case p.K == sRep && q.K == sRep && x.laterRep(q, p, A[1:], 1):
			B = x.peel(q, B[1:])
			continue
		case p.K == sRep && q.K == sRep && x.before(p, q):
			A = x.peel(p, A[1:])
			continue
		case p.K == sRep && q.K == sRep && x.before(q, p):
			B = x.peel(q, B[1:])
			continue
		case p.K == sRep && q.K == sRep:
			x.ropeInexact = true
			d := Sub(p.Lo, q.Lo)
			e := Sub(Sub(q.Hi, q.Lo), Sub(p.Hi, p.Lo)) // how much longer q is
			k := BoundVar("r", bi(0), maxLen)
			old := x.cur
			x.cur = old.clone()
			x.cur.assume(And(Le(p.Lo, k), Lt(k, p.Hi)), false)
			if c, ok := e.isInt64(); ok && c < 0 {
				x.cur.assume(Lt(k, Add(p.Hi, C(c))), false)
			}
			body := True
			if !x.cur.dead {
				body = x.ropeEq(p.F(k), q.F(Sub(k, d)))
			}
			x.cur = old
			if c, ok := e.isInt64(); ok && c != 0 && c <= 8 && c >= -8 {
				hi := p.Hi
				if c < 0 {
					hi = Add(p.Hi, e)
				}
				if body != True {
					cs = append(cs, Forall([]*Term{k}, Or(Lt(k, p.Lo), Ge(k, hi), body)))
				}
				A, B = A[1:], B[1:]
				if c > 0 {
					B = append(x.repExpand(&Seg{K: sRep, Lo: Sub(q.Hi, e), Hi: q.Hi, F: q.F}, c), B...)
				} else {
					A = append(x.repExpand(&Seg{K: sRep, Lo: hi, Hi: p.Hi, F: p.F}, -c), A...)
				}
				A, B = ropeNorm(x, &Rope{A}).S, ropeNorm(x, &Rope{B}).S
				continue
			}
			cs = append(cs, Eq(e, C(0)))
			if body != True {
				cs = append(cs, Forall([]*Term{k}, Or(Lt(k, p.Lo), Ge(k, p.Hi), body)))
			}
		case p.K == sVar && q.K == sVar && p.Key == q.Key && len(p.H) == len(q.H):
			x.ropeInexact = true
			for i := range p.H {
				cs = append(cs, Eq(p.H[i], q.H[i]))
			}
		case p.K == sUv && q.K == sBytes:
			if c, ok := q.N.isInt64(); ok && c >= 1 {
				// a single-byte varint on one side only: equal iff the value is that byte (< 128)
				if n, ok := uvLen(x.cur, p.T).isInt64(); !ok || n != 1 {
					b0, _ := q.S.At(x, C(0)).(*Term)
					if b0 == nil {
						return give()
					}
					if _, hi := x.cur.iv(b0); hi != nil && hi.Cmp(bi(127)) <= 0 {
						cs = append(cs, Eq(p.T, b0))
						A = A[1:]
						B = B[1:]
						if c > 1 {
							B = append([]*Seg{{K: sBytes, S: shiftSeq(q.S, C(1)), N: C(c - 1)}}, B...)
						}
						continue
					}
				}
			}
			return give()
		case p.K == sBytes && q.K == sUv:
			r := x.ropeEq(&Rope{B}, &Rope{A})
			return And(append(cs, r)...)
		default:
			return give()
		}
		A, B = A[1:], B[1:]
	}
	for _, g := range append(append([]*Seg{}, A...), B...) {
		if d := x.condDef(g); d != nil {
			g = d
		}
		switch g.K {
		case sIte:
			cs = append(cs, Implies(g.C, x.under(g.C, func() *Term { return x.ropeEq(g.A, &Rope{}) })), Implies(Not(g.C), x.under(Not(g.C), func() *Term { return x.ropeEq(g.B, &Rope{}) })))
		case sRep:
			k := BoundVar("r", bi(0), maxLen)
			in := And(Le(g.Lo, k), Lt(k, g.Hi))
			body := x.under(in, func() *Term {
				if x.cur.simp(Lt(g.Lo, g.Hi)) == False {
					return True
				}
				return x.ropeEq(g.F(k), &Rope{})
			})
			if body == True {
				continue
			}
			cs = append(cs, Or(Ge(g.Lo, g.Hi), Forall([]*Term{k}, Or(Lt(k, g.Lo), Ge(k, g.Hi), body))))
		case sBytes:
			cs = append(cs, Eq(g.N, C(0)))
		case sUv:
			return False
		default:
			return give()
		}
	}
	return And(cs...)
}

func (x *Ex) ropeShow(r *Rope) string {
	s := ""
	for _, g := range r.S {
		switch g.K {
		case sBytes:
			s += fmt.Sprintf("[%T %v] ", g.S, g.N)
		case sUv:
			s += fmt.Sprintf("uv(%v) ", g.T)
		case sRep:
			s += fmt.Sprintf("rep(%v..%v: %s) ", g.Lo, g.Hi, x.ropeShow(g.F(Var("i", SInt, nil, nil))))
		case sVar:
			s += g.Key + " "
		case sIte:
			s += fmt.Sprintf("(%v ? %s : %s) ", g.C, x.ropeShow(g.A), x.ropeShow(g.B))
		}
	}
	return s
}

func (x *Ex) shape(g *Seg) string {
	var h []*Term
	return g.key(x, &h)
}

func isConst(t *Term, n int64) bool { return t.isConst() && t.ival.Cmp(bi(n)) == 0 }

// before: p and q repeat the same up to the same end, and p starts a few elements earlier.
func (x *Ex) before(p, q *Seg) bool {
	h, d := x.cur.simp2(Sub(q.Hi, p.Hi)), x.cur.simp2(Sub(q.Lo, p.Lo))
	return h.isConst() && h.ival.Sign() == 0 && d.isConst() && d.ival.Sign() > 0 && d.ival.Cmp(bi(8)) <= 0 && x.shape(p) == x.shape(q)
}

// laterRep: q does not repeat what p does, but a later segment continues p after its first d elements.
func (x *Ex) laterRep(p, q *Seg, rest []*Seg, d int64) bool {
	k := x.shape(p)
	if k == x.shape(q) {
		return false
	}
	for _, g := range rest {
		if g.K == sRep && isConst(x.cur.simp2(Sub(g.Lo, p.Lo)), d) && x.shape(g) == k {
			return true
		}
	}
	return false
}

// peel: p, followed by rest, with the first element of p split off.
func (x *Ex) peel(p *Seg, rest []*Seg) []*Seg {
	l := append(append([]*Seg{}, p.F(p.Lo).S...), &Seg{K: sRep, Lo: Add(p.Lo, C(1)), Hi: p.Hi, F: p.F})
	if x.cur.simp(Lt(p.Lo, p.Hi)) != True {
		l = []*Seg{{K: sIte, C: Lt(p.Lo, p.Hi), A: &Rope{l}, B: &Rope{}}}
	}
	return append(l, rest...)
}

func (x *Ex) repExpand(g *Seg, c int64) []*Seg {
	var r []*Seg
	for i := int64(0); i < c; i++ {
		r = append(r, g.F(Add(g.Lo, C(i))).S...)
	}
	return r
}

// ---- reading ----

type readOut struct {
	st   *State
	ok   bool
	s    Seq   // bytes read
	v    *Term // varint read
	rest *Rope
	took *Rope // what a successful read consumed
	left bool  // short read: some bytes were available
	got  *Term
}

func segBytes(s Seq, n *Term) *Rope { return &Rope{[]*Seg{{K: sBytes, S: s, N: n}}} }

// setRead stores the state of a stream after a read.
func (x *Ex) setRead(p *PtrV, o readOut) {
	v := x.load(o.st, p, nil).(*RopeV)
	n := &RopeV{R: o.rest, W: v.W}
	old := v.C
	if old == nil {
		old = &Rope{}
	}
	switch {
	case !o.ok:
		n.C = ropeVar(uniq("taken"))
	case o.took == nil:
		n.C = old
	default:
		n.C = ropeCat(old, o.took)
	}
	x.store(o.st, p, n)
}

// fork on a condition, dropping infeasible sides
func (x *Ex) fork(st *State, c *Term) (yes, no *State) {
	c = st.simp(c)
	if c == True {
		return st, nil
	}
	if c == False {
		return nil, st
	}
	a, b := st.clone(), st
	a.assume(c, true)
	b.assume(Not(c), true)
	if a.dead || !x.feasible(a, True) {
		a = nil
	}
	if b.dead || !x.feasible(b, True) {
		b = nil
	}
	return a, b
}

// headOf resolves repetition segments at the head.
func (x *Ex) heads(st *State, r *Rope) []readOut {
	x.cur = st
	x.nHeads++
	defer func() { x.nHeads-- }()
	if x.nHeads > 60 {
		if os.Getenv("GV_ROPE") != "" {
			fmt.Fprintln(os.Stderr, "heads:", x.ropeShow(r))
			for _, it := range st.pc {
				fmt.Fprintln(os.Stderr, "  pc", it.t)
			}
		}
		x.fail("reading a repetition that may be empty")
	}
	if x.noProve { // only looking for what a loop writes: the content does not matter
		return []readOut{{st: st, rest: ropeVar(uniq("np"))}}
	}
	r = x.resolve(r)
	for len(r.S) > 0 {
		g := r.S[0]
		if d := x.condDef(g); d != nil {
			g = d
		}
		switch g.K {
		case sIte:
			y, n := x.fork(st, g.C)
			var outs []readOut
			if y != nil {
				outs = append(outs, x.heads(y, ropeCat(g.A, &Rope{r.S[1:]}))...)
			}
			if n != nil {
				outs = append(outs, x.heads(n, ropeCat(g.B, &Rope{r.S[1:]}))...)
			}
			return outs
		case sRep:
			y, n := x.fork(st, Lt(g.Lo, g.Hi))
			var outs []readOut
			if y != nil {
				x.cur = y
				first, rest := g.F(g.Lo), &Seg{K: sRep, Lo: Add(g.Lo, C(1)), Hi: g.Hi, F: g.F}
				y.assume(Eq(x.segLen(g), Add(x.ropeLen(first), x.segLen(rest))), false)
				nr := &Rope{append(append(append([]*Seg{}, first.S...), rest), r.S[1:]...)}
				outs = append(outs, x.heads(y, nr)...)
			}
			if n != nil {
				x.cur = n
				n.assume(Eq(x.segLen(g), C(0)), false)
				outs = append(outs, x.heads(n, &Rope{r.S[1:]})...)
			}
			return outs
		case sBytes:
			y, n := x.fork(st, Le(g.N, C(0)))
			if n == nil {
				st = y
				r = &Rope{r.S[1:]}
				continue
			}
			if y == nil {
				return []readOut{{st: n, rest: r}}
			}
			x.cur = y
			return append(x.heads(y, &Rope{r.S[1:]}), readOut{st: n, rest: r})
		default:
			return []readOut{{st: st, rest: r}}
		}
	}
	return []readOut{{st: st, rest: r}}
}

// readN reads n bytes (io.ReadFull semantics).
func (x *Ex) readN(st *State, r *Rope, n *Term) []readOut {
	x.cur = st
	n = st.simp2(n)
	if n.isConst() && n.ival.Sign() == 0 {
		return []readOut{{st: st, ok: true, s: &SeqConc{}, rest: r}}
	}
	var outs []readOut
	if !x.noProve {
		r = x.resolve(r)
		if len(r.S) > 0 && r.S[0].K == sBytes && r.S[0].N == n {
			return []readOut{{st: st, ok: true, s: r.S[0].S, took: segBytes(r.S[0].S, n), rest: &Rope{r.S[1:]}}}
		}
		if y, no := x.fork(st, Le(n, C(0))); no == nil {
			return []readOut{{st: y, ok: true, s: &SeqConc{}, rest: r}}
		} else if y != nil {
			outs = append(outs, readOut{st: y, ok: true, s: &SeqConc{}, rest: r})
			st = no
		}
	}
	for _, h := range x.heads(st, r) {
		st, r := h.st, h.rest
		x.cur = st
		if len(r.S) == 0 {
			y, no := x.fork(st, Le(n, C(0)))
			if y != nil {
				outs = append(outs, readOut{st: y, ok: true, s: &SeqConc{}, rest: r})
			}
			if no != nil {
				outs = append(outs, readOut{st: no, rest: r, got: C(0)})
			}
			continue
		}
		g := r.S[0]
		switch g.K {
		case sBytes:
			if g.N == n {
				outs = append(outs, readOut{st: st, ok: true, s: g.S, took: segBytes(g.S, n), rest: &Rope{r.S[1:]}})
				continue
			}
			y, no := x.fork(st, Le(n, g.N))
			if y != nil {
				outs = append(outs, readOut{st: y, ok: true, s: g.S, took: segBytes(g.S, n), rest: &Rope{append([]*Seg{{K: sBytes, S: shiftSeq(g.S, n), N: Sub(g.N, n)}}, r.S[1:]...)}})
			}
			if no != nil {
				x.cur = no
				for _, o := range x.readN(no, &Rope{r.S[1:]}, Sub(n, g.N)) {
					if o.ok {
						o.s = x.catSeq(g.S, g.N, o.s, n)
						o.took = segBytes(o.s, n)
					} else {
						o.left = true
						o.got = Add(o.got, g.N)
					}
					outs = append(outs, o)
				}
			}
		case sUv:
			if l, ok := uvLen(st, g.T).isInt64(); ok {
				nr := &Rope{append([]*Seg{{K: sBytes, S: &SeqUv{g.T}, N: C(l)}}, r.S[1:]...)}
				outs = append(outs, x.readN(st, nr, n)...)
				continue
			}
			if n.isConst() && n.ival.Cmp(bi(1)) == 0 {
				y, no := x.fork(st, Lt(g.T, C(128)))
				if y != nil {
					outs = append(outs, readOut{st: y, ok: true, s: &SeqConc{[]Val{g.T}}, took: segBytes(&SeqConc{[]Val{g.T}}, n), rest: &Rope{r.S[1:]}})
				}
				if no != nil {
					x.cur = no
					x.fail("raw read inside a multi-byte varint")
				}
				continue
			}
			x.fail("raw read of %v bytes over a varint", n)
		case sVar:
			b := st.clone()
			nm := uniq("rd")
			var sq Seq
			if c, ok := n.isInt64(); ok && c <= 128 && c >= 1 {
				sq = x.symBytes(c, nm)
			} else {
				sq = &SeqSym{byteT, nm, nil}
			}
			y, no := x.fork(st, Lt(n, C(0)))
			if y != nil {
				x.cur = y
				x.fail("negative read size")
			}
			if no != nil {
				rest := &Seg{K: sVar, Key: nm + ".rest"}
				no.assume(Eq(x.segLen(g), Add(n, x.segLen(rest))), false)
				outs = append(outs, readOut{st: no, ok: true, s: sq, took: segBytes(sq, n), rest: &Rope{append([]*Seg{rest}, r.S[1:]...)}})
			}
			lf := Fresh("short", SBool, nil, nil)
			_ = lf
			outs = append(outs, readOut{st: b.clone(), rest: &Rope{}, got: C(0)})
			if !(n.isConst() && n.ival.Cmp(bi(1)) == 0) {
				c := b
				got := Fresh("got", SInt, bi(1), maxLen)
				c.assume(Lt(got, n), false)
				outs = append(outs, readOut{st: c, rest: &Rope{}, left: true, got: got})
			}
		}
	}
	return outs
}

func (x *Ex) catSeq(a Seq, an *Term, b Seq, total *Term) Seq {
	if n, ok := an.isInt64(); ok {
		if m, ok := total.isInt64(); ok && m <= 4096 {
			return &SeqConc{append(append([]Val{}, expandSeq(x, a, n)...), expandSeq(x, b, m-n)...)}
		}
	}
	return &SeqCat{a, an, b}
}

// readUv reads a varint.
func (x *Ex) readUv(st *State, r *Rope) []readOut {
	var outs []readOut
	for _, h := range x.heads(st, r) {
		st, r := h.st, h.rest
		x.cur = st
		if len(r.S) == 0 {
			outs = append(outs, readOut{st: st, rest: r})
			continue
		}
		g := r.S[0]
		switch g.K {
		case sUv:
			outs = append(outs, readOut{st: st, ok: true, v: g.T, took: &Rope{[]*Seg{g}}, rest: &Rope{r.S[1:]}})
		case sVar:
			b := st.clone()
			v := Fresh("uv", SInt, bi(0), maxU64)
			rest, uv := &Seg{K: sVar, Key: uniq("uv.rest")}, &Seg{K: sUv, T: v}
			st.assume(Eq(x.segLen(g), Add(x.segLen(uv), x.segLen(rest))), false)
			outs = append(outs, readOut{st: st, ok: true, v: v, took: &Rope{[]*Seg{uv}}, rest: &Rope{append([]*Seg{rest}, r.S[1:]...)}})
			outs = append(outs, readOut{st: b, rest: x.badRest(b, r)})
			// an encoding with superfluous zero groups
			c := b.clone()
			x.cur = c
			v = Fresh("uv", SInt, bi(0), new(big.Int).Sub(pow2(63), bi(1)))
			l := Fresh("uvn", SInt, bi(2), bi(10))
			rest = &Seg{K: sVar, Key: uniq("uv.rest")}
			c.assume(Gt(l, uvLen(c, v)), false)
			c.assume(Eq(x.segLen(g), Add(l, x.segLen(rest))), false)
			outs = append(outs, readOut{st: c, ok: true, v: v, took: segBytes(&SeqSym{byteT, uniq("uv.pad"), nil}, l), rest: &Rope{append([]*Seg{rest}, r.S[1:]...)}})
		case sBytes:
			n, isC := g.N.isInt64()
			b0, _ := g.S.At(x, C(0)).(*Term)
			if b0 != nil && isC {
				// fixed bytes: decode byte by byte
				acc := C(0)
				cur := st
				i := int64(0)
				for ; i < n && i < 10 && cur != nil; i++ {
					bt := g.S.At(x, C(i)).(*Term)
					y, no := x.fork(cur, Lt(bt, C(128)))
					if y != nil {
						v := Add(acc, Mul(bt, Const(pow2(int(7*i)))))
						bad := False
						if i == 9 {
							bad = Gt(bt, C(1))
						}
						over, fine := x.fork(y, bad)
						if fine != nil {
							rest := &Rope{append([]*Seg{{K: sBytes, S: shiftSeq(g.S, C(i+1)), N: C(n - i - 1)}}, r.S[1:]...)}
							pad, min := (*State)(nil), fine
							if i > 0 {
								pad, min = x.fork(fine, Eq(bt, C(0)))
							}
							if min != nil {
								outs = append(outs, readOut{st: min, ok: true, v: v, took: &Rope{[]*Seg{{K: sUv, T: v}}}, rest: rest})
							}
							if pad != nil {
								outs = append(outs, readOut{st: pad, ok: true, v: v, took: segBytes(g.S, C(i+1)), rest: rest})
							}
						}
						if over != nil {
							outs = append(outs, readOut{st: over, rest: x.badRest(over, r), left: true})
						}
					}
					acc = Add(acc, Mul(Sub(bt, C(128)), Const(pow2(int(7*i)))))
					cur = no
				}
				if cur != nil {
					if i == 10 || len(r.S) == 1 {
						outs = append(outs, readOut{st: cur, rest: x.badRest(cur, r), left: true})
					} else {
						x.fail("varint across segments")
					}
				}
				continue
			}
			// arbitrary bytes: some value, some consumed length
			b := st.clone()
			v := Fresh("uv", SInt, bi(0), maxU64)
			l := Fresh("uvn", SInt, bi(1), bi(10))
			if len(r.S) > 1 {
				x.fail("varint across segments")
			}
			st.assume(Le(l, g.N), false)
			outs = append(outs, readOut{st: st, ok: true, v: v, took: segBytes(g.S, l), rest: &Rope{append([]*Seg{{K: sBytes, S: shiftSeq(g.S, l), N: Sub(g.N, l)}}, r.S[1:]...)}})
			l2 := Fresh("uvn", SInt, bi(0), bi(10))
			b.assume(Le(l2, g.N), false)
			outs = append(outs, readOut{st: b, left: true, rest: &Rope{append([]*Seg{{K: sBytes, S: shiftSeq(g.S, l2), N: Sub(g.N, l2)}}, r.S[1:]...)}})
		}
	}
	return outs
}

// badRest is what is left of r after a failed read.
func (x *Ex) badRest(st *State, r *Rope) *Rope {
	b := ropeVar(uniq("bad"))
	x.cur = st
	st.assume(Le(x.ropeLen(b), x.ropeLen(r)), false)
	return b
}

// under evaluates f where c is known to hold.
func (x *Ex) under(c *Term, f func() *Term) *Term {
	old := x.cur
	x.cur = old.clone()
	x.cur.assume(c, true)
	defer func() { x.cur = old }()
	if x.cur.dead {
		return True
	}
	return f()
}

// condDef makes a case distinction of unknown content with conditional definitions.
func (x *Ex) condDef(g *Seg) *Seg {
	n := ""
	if g.bare {
		return nil
	}
	if g.K == sVar && len(g.H) == 0 {
		n = g.Key
	} else if q, ok := g.S.(*SeqSym); ok && g.K == sBytes && len(q.Idx) == 0 && !g.N.isConst() {
		n = "seq:" + q.Name
	}
	ds := x.ropeDefs[n]
	if n == "" || len(ds) == 0 {
		return nil
	}
	b := *g
	b.bare = true
	r := &Rope{[]*Seg{&b}}
	some := false
	for i := len(ds) - 1; i >= 0; i-- {
		c := ds[i].cond
		if x.cur != nil {
			c = x.cur.simp(c)
		}
		if c == False {
			continue
		}
		some = true
		r = &Rope{[]*Seg{{K: sIte, C: c, A: ds[i].r, B: r}}}
	}
	if !some {
		return nil
	}
	return r.S[0]
}
