package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
)

// Machine-integer semantics over mathematical Int terms (explicit wrap-around).

type intTy struct {
	w      int
	signed bool
}

func intType(t types.Type) (intTy, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intTy{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intTy{64, true}, true
	case types.Int8:
		return intTy{8, true}, true
	case types.Int16:
		return intTy{16, true}, true
	case types.Int32, types.UntypedRune:
		return intTy{32, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intTy{64, false}, true
	case types.Uint8:
		return intTy{8, false}, true
	case types.Uint16:
		return intTy{16, false}, true
	case types.Uint32:
		return intTy{32, false}, true
	}
	return intTy{}, false
}

func (t intTy) rng() (*big.Int, *big.Int) {
	if t.signed {
		return new(big.Int).Neg(pow2(t.w - 1)), new(big.Int).Sub(pow2(t.w-1), bi(1))
	}
	return bi(0), new(big.Int).Sub(pow2(t.w), bi(1))
}

func (t intTy) fits(x *Term) bool {
	lo, hi := t.rng()
	return x.lo != nil && x.hi != nil && x.lo.Cmp(lo) >= 0 && x.hi.Cmp(hi) <= 0
}

// ivCtx lets the executor supply path-refined intervals.
type ivCtx interface {
	iv(*Term) (*big.Int, *big.Int)
}

func fitsIn(x *Term, lo, hi *big.Int, cx ivCtx) bool {
	l, h := x.lo, x.hi
	if cx != nil {
		l, h = cx.iv(x)
	}
	return l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0
}

// wrap reduces a mathematical value into the machine type.
func wrap(x *Term, t intTy, cx ivCtx) *Term {
	lo, hi := t.rng()
	if fitsIn(x, lo, hi, cx) {
		return x
	}
	m := pow2(t.w)
	l, h := x.lo, x.hi
	if cx != nil {
		l, h = cx.iv(x)
	}
	if l != nil && h != nil {
		// single-fold overflow: use ite
		if l.Cmp(lo) >= 0 && h.Cmp(new(big.Int).Add(hi, m)) <= 0 {
			return Ite(Le(x, Const(hi)), x, Sub(x, Const(m)))
		}
		if h.Cmp(hi) <= 0 && l.Cmp(new(big.Int).Sub(lo, m)) >= 0 {
			return Ite(Ge(x, Const(lo)), x, Add(x, Const(m)))
		}
	}
	if !t.signed {
		return Mod(x, Const(m))
	}
	half := Const(pow2(t.w - 1))
	return Sub(Mod(Add(x, half), Const(m)), half)
}

func toUnsigned(x *Term, w int) *Term {
	if x.lo != nil && x.lo.Sign() >= 0 {
		return x
	}
	return wrap(x, intTy{w, false}, nil)
}

// bits [lo,hi) of nonneg x
func bitsOf(x *Term, lo, hi int) *Term {
	return Mod(Div(x, Const(pow2(lo))), Const(pow2(hi-lo)))
}

type run struct{ lo, hi int }

func runsOf(m *big.Int) []run {
	var rs []run
	n := m.BitLen()
	for i := 0; i < n; {
		if m.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && m.Bit(j) == 1 {
			j++
		}
		rs = append(rs, run{i, j})
		i = j
	}
	return rs
}

// tz: known number of trailing zero bits (capped 64)
func tz(t *Term) int {
	switch t.op {
	case OLin:
		m := 1 << 20
		if t.ival.Sign() != 0 {
			m = int(t.ival.TrailingZeroBits())
		} else if len(t.args) == 0 {
			return 512
		}
		for i, a := range t.args {
			k := int(t.coefs[i].TrailingZeroBits()) + tz(a)
			if k < m {
				m = k
			}
		}
		return m
	case OMul:
		s := 0
		for _, a := range t.args {
			s += tz(a)
		}
		return s
	case OIte:
		a, b := tz(t.args[1]), tz(t.args[2])
		if a < b {
			return a
		}
		return b
	case OMod:
		if t.args[1].isConst() {
			a, b := tz(t.args[0]), int(t.args[1].ival.TrailingZeroBits())
			if a < b {
				return a
			}
			return b
		}
	}
	return 0
}

// operands nonneg < 2^w
func bitAnd(a, b *Term, w int) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.isConst() {
		r := C(0)
		for _, q := range runsOf(b.ival) {
			r = Add(r, Scale(pow2(q.lo), bitsOf(a, q.lo, q.hi)))
		}
		return r
	}
	if a.op == OIte && a.args[1].isConst() && a.args[2].isConst() {
		return Ite(a.args[0], bitAnd(a.args[1], b, w), bitAnd(a.args[2], b, w))
	}
	if b.op == OIte && b.args[1].isConst() && b.args[2].isConst() {
		return Ite(b.args[0], bitAnd(a, b.args[1], w), bitAnd(a, b.args[2], w))
	}
	if smallBits(a, b) {
		return bitwise(a, b, func(x, y *Term) *Term { return And(x, y) })
	}
	return bitUF("and", a, b, w)
}

func smallBits(a, b *Term) bool {
	return a.hi != nil && b.hi != nil && a.hi.BitLen() <= 8 && b.hi.BitLen() <= 8
}

func bitwise(a, b *Term, f func(x, y *Term) *Term) *Term {
	n := a.hi.BitLen()
	if k := b.hi.BitLen(); k > n {
		n = k
	}
	r := C(0)
	for i := 0; i < n; i++ {
		x := Eq(bitsOf(a, i, i+1), C(1))
		y := Eq(bitsOf(b, i, i+1), C(1))
		r = Add(r, Ite(f(x, y), Const(pow2(i)), C(0)))
	}
	return r
}

func bitUF(op string, a, b *Term, w int) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	hi := new(big.Int).Sub(pow2(w), bi(1))
	return App(fmt.Sprintf("bit.%s%d", op, w), SInt, bi(0), hi, a, b)
}

func bitOr(a, b *Term, w int) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.isConst() {
		r := a
		for _, q := range runsOf(b.ival) {
			r = Add(r, Scale(new(big.Int).Neg(pow2(q.lo)), bitsOf(a, q.lo, q.hi)))
		}
		return Add(r, b)
	}
	if d := disjoint(a, b); d {
		return Add(a, b)
	}
	if smallBits(a, b) {
		return bitwise(a, b, func(x, y *Term) *Term { return Or(x, y) })
	}
	if ka, kb := tz(a), tz(b); ka > 0 || kb > 0 {
		// disjointness decided by the solver: low part below 2^k, high part a multiple of 2^k
		if ka < kb {
			a, b, ka = b, a, kb
		}
		if b.lo != nil && b.lo.Sign() >= 0 {
			return Ite(Lt(b, Const(pow2(ka))), Add(a, b), bitUF("or", a, b, w))
		}
	}
	return bitUF("or", a, b, w)
}

func disjoint(a, b *Term) bool {
	ok := func(a, b *Term) bool {
		return b.hi != nil && b.lo != nil && b.lo.Sign() >= 0 && b.hi.BitLen() <= tz(a)
	}
	return ok(a, b) || ok(b, a)
}

func bitXor(a, b *Term, w int) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return C(0)
	}
	if b.isConst() {
		r := a
		for _, q := range runsOf(b.ival) {
			bits := bitsOf(a, q.lo, q.hi)
			mx := Const(new(big.Int).Sub(pow2(q.hi-q.lo), bi(1)))
			// bits -> mx - bits
			r = Add(r, Scale(pow2(q.lo), Sub(Sub(mx, bits), bits)))
		}
		return r
	}
	if disjoint(a, b) {
		return Add(a, b)
	}
	if a.op == OIte && a.args[1].isConst() && a.args[2].isConst() {
		return Ite(a.args[0], bitXor(a.args[1], b, w), bitXor(a.args[2], b, w))
	}
	if b.op == OIte && b.args[1].isConst() && b.args[2].isConst() {
		return Ite(b.args[0], bitXor(a, b.args[1], w), bitXor(a, b.args[2], w))
	}
	if smallBits(a, b) {
		return bitwise(a, b, func(x, y *Term) *Term { return Not(Eq(x, y)) })
	}
	return bitUF("xor", a, b, w)
}

// tdiv: Go truncated division on ints (b != 0)
func tdiv(a, b *Term, cx ivCtx) *Term {
	iv := func(t *Term) (*big.Int, *big.Int) {
		if cx != nil {
			return cx.iv(t)
		}
		return t.lo, t.hi
	}
	al, _ := iv(a)
	bl, bh := iv(b)
	if bl != nil && bl.Sign() > 0 {
		if al != nil && al.Sign() >= 0 {
			return Div(a, b)
		}
		return Ite(Ge(a, C(0)), Div(a, b), Neg(Div(Neg(a), b)))
	}
	if bh != nil && bh.Sign() < 0 {
		nb := Neg(b)
		return Ite(Ge(a, C(0)), Neg(Div(a, nb)), Div(Neg(a), nb))
	}
	if al != nil && al.Sign() >= 0 && bl != nil && bl.Sign() >= 0 {
		return Div(a, b) // b==0 excluded by the division obligation
	}
	nb := Neg(b)
	pos := Ite(Ge(a, C(0)), Div(a, b), Neg(Div(Neg(a), b)))
	neg := Ite(Ge(a, C(0)), Neg(Div(a, nb)), Div(Neg(a), nb))
	return Ite(Ge(b, C(0)), pos, neg)
}

func trem(a, b *Term, cx ivCtx) *Term {
	iv := func(t *Term) (*big.Int, *big.Int) {
		if cx != nil {
			return cx.iv(t)
		}
		return t.lo, t.hi
	}
	al, _ := iv(a)
	bl, _ := iv(b)
	if al != nil && al.Sign() >= 0 && bl != nil && bl.Sign() >= 0 {
		return Mod(a, b)
	}
	return Sub(a, Mul(b, tdiv(a, b, cx)))
}

// shl/shr with possibly symbolic shift amount s (nonneg)
func pow2Term(s *Term) *Term {
	if n, ok := s.isInt64(); ok {
		if n > 512 {
			n = 512
		}
		return Const(pow2(int(n)))
	}
	lo, hi := int64(0), int64(64)
	if s.lo != nil && s.lo.IsInt64() && s.lo.Int64() > 0 {
		lo = s.lo.Int64()
	}
	if s.hi != nil && s.hi.IsInt64() && s.hi.Int64() < 64 {
		hi = s.hi.Int64()
	}
	if lo > 64 {
		lo = 64
	}
	r := Const(pow2(int(hi)))
	for k := hi - 1; k >= lo; k-- {
		r = Ite(Eq(s, C(k)), Const(pow2(int(k))), r)
	}
	return r
}

func intBin(op token.Token, a, b *Term, t intTy, cx ivCtx) *Term {
	switch op {
	case token.ADD:
		return wrap(Add(a, b), t, cx)
	case token.SUB:
		return wrap(Sub(a, b), t, cx)
	case token.MUL:
		return wrap(Mul(a, b), t, cx)
	case token.QUO:
		return wrap(tdiv(a, b, cx), t, cx)
	case token.REM:
		return trem(a, b, cx)
	case token.SHL:
		p := pow2Term(b)
		if p.op == OIte {
			return mapIte(p, func(c *Term) *Term { return wrap(Mul(a, c), t, cx) })
		}
		return wrap(Mul(a, p), t, cx)
	case token.SHR:
		p := pow2Term(b)
		return mapIte(p, func(c *Term) *Term { return Div(a, c) })
	}
	ua, ub := toUnsigned(a, t.w), toUnsigned(b, t.w)
	var r *Term
	switch op {
	case token.AND:
		r = bitAnd(ua, ub, t.w)
	case token.OR:
		r = bitOr(ua, ub, t.w)
	case token.XOR:
		r = bitXor(ua, ub, t.w)
	case token.AND_NOT:
		m := new(big.Int).Sub(pow2(t.w), bi(1))
		r = bitAnd(ua, Sub(Const(m), ub), t.w)
	default:
		panic("intBin " + op.String())
	}
	return wrap(r, t, cx)
}

func mapIte(t *Term, f func(*Term) *Term) *Term {
	if t.op == OIte {
		return Ite(t.args[0], mapIte(t.args[1], f), mapIte(t.args[2], f))
	}
	return f(t)
}
