package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// ---- sorts ----

type Sort struct {
	Name string
	id   int
}

var sortTab = map[string]*Sort{}

func mkSort(n string) *Sort {
	if s, ok := sortTab[n]; ok {
		return s
	}
	s := &Sort{n, len(sortTab)}
	sortTab[n] = s
	return s
}

var (
	SBool = mkSort("Bool")
	SInt  = mkSort("Int")
)

// bytes array sorts: B32, B64 ...
func bytesSort(n int64) *Sort { return mkSort(fmt.Sprintf("B%d", n)) }

// ---- terms ----

type Op int

const (
	OTrue Op = iota
	OFalse
	OVar // name (includes bound vars)
	OApp // name(args) uninterpreted
	ONot //
	OAnd // n-ary
	OOr  // n-ary
	OEq  // non-int equality (a,b)
	OEq0 // int: lin == 0
	OGe0 // int: lin >= 0
	OIte //
	OLin // sum coef*arg + ival   (args non-lin, non-const)
	OMul // product of args (nonlinear monomial, coef 1)
	ODiv // euclid div by positive const or symbolic (args a,b)
	OMod // mod
	OForall
	OExists
)

type Term struct {
	id     int
	op     Op
	sort   *Sort
	args   []*Term
	coefs  []*big.Int // OLin
	ival   *big.Int   // OLin const
	name   string
	lo, hi *big.Int // interval for ints, nil = unbounded
	bound  []*Term  // quantifier bound vars
	pats   [][]*Term
	hasBV  bool // contains bound variable (free within)
	depth  int
}

var termTab = map[string]*Term{}
var termList []*Term

func key(t *Term) string {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(t.op)))
	b.WriteByte(':')
	b.WriteString(strconv.Itoa(t.sort.id))
	b.WriteByte(':')
	b.WriteString(t.name)
	for i, a := range t.args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
		if t.coefs != nil {
			b.WriteByte('*')
			b.WriteString(t.coefs[i].String())
		}
	}
	if t.ival != nil {
		b.WriteByte('#')
		b.WriteString(t.ival.String())
	}
	for _, v := range t.bound {
		b.WriteByte('!')
		b.WriteString(strconv.Itoa(v.id))
	}
	return b.String()
}

func intern(t *Term) *Term {
	k := key(t)
	if o, ok := termTab[k]; ok {
		return o
	}
	t.id = len(termList)
	for _, a := range t.args {
		if a.hasBV {
			t.hasBV = true
		}
		if a.depth+1 > t.depth {
			t.depth = a.depth + 1
		}
	}
	if t.op == OForall || t.op == OExists {
		t.hasBV = hasFreeBV(t)
	}
	termTab[k] = t
	termList = append(termList, t)
	if t.sort == SInt && t.lo == nil && t.hi == nil {
		t.lo, t.hi = interval(t)
	}
	return t
}

var (
	True  = intern(&Term{op: OTrue, sort: SBool})
	False = intern(&Term{op: OFalse, sort: SBool})
)

func hasFreeBV(q *Term) bool {
	bound := map[*Term]bool{}
	for _, b := range q.bound {
		bound[b] = true
	}
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if !t.hasBV || seen[t] {
			return false
		}
		seen[t] = true
		if t.op == OVar {
			return !bound[t]
		}
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(q.args[0])
}

func bi(n int64) *big.Int { return big.NewInt(n) }

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

func Const(n *big.Int) *Term {
	return intern(&Term{op: OLin, sort: SInt, ival: n, lo: n, hi: n})
}
func C(n int64) *Term { return Const(bi(n)) }

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

func (t *Term) isConst() bool { return t.op == OLin && len(t.args) == 0 }
func (t *Term) cval() *big.Int {
	if t.isConst() {
		return t.ival
	}
	return nil
}
func (t *Term) isInt64() (int64, bool) {
	if t.isConst() && t.ival.IsInt64() {
		return t.ival.Int64(), true
	}
	return 0, false
}

var freshCtr = map[string]int{}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '!', r == '$', r == '@', r == '~', r == '%', r == '^', r == '&', r == '*', r == '-', r == '+', r == '<', r == '>', r == '?', r == '/', r == '=':
			b.WriteRune(r)
		default:
			b.WriteByte('_')
		}
	}
	return b.String()
}

func uniq(base string) string {
	base = sanitize(base)
	n := freshCtr[base]
	freshCtr[base] = n + 1
	return base + "!" + strconv.Itoa(n)
}

// Var makes/gets a named variable with the given interval (ints).
func Var(name string, s *Sort, lo, hi *big.Int) *Term {
	return intern(&Term{op: OVar, name: sanitize(name), sort: s, lo: lo, hi: hi})
}

func Fresh(base string, s *Sort, lo, hi *big.Int) *Term { return Var(uniq(base), s, lo, hi) }

func BoundVar(base string, lo, hi *big.Int) *Term {
	t := Var(uniq("bv."+base), SInt, lo, hi)
	t.hasBV = true
	return t
}

// App: uninterpreted application. Interval attached to function name.
type ufSig struct {
	args []*Sort
	res  *Sort
	lo   *big.Int
	hi   *big.Int
}

var ufTab = map[string]*ufSig{}

func App(name string, s *Sort, lo, hi *big.Int, args ...*Term) *Term {
	name = sanitize(name)
	if len(args) == 0 {
		return Var(name, s, lo, hi)
	}
	if u, ok := ufTab[name]; ok {
		if len(u.args) != len(args) || u.res != s {
			panic("UF redeclared with different signature: " + name)
		}
		for i := range args {
			if u.args[i] != args[i].sort {
				panic("UF arg sort mismatch: " + name)
			}
		}
	} else {
		u := &ufSig{res: s, lo: lo, hi: hi}
		for _, a := range args {
			u.args = append(u.args, a.sort)
		}
		ufTab[name] = u
	}
	// simplifications for bytes-array accessors
	if strings.HasPrefix(name, "b.at") && len(args) == 2 {
		a := args[0]
		if a.op == OApp && strings.HasPrefix(a.name, "b.mk") {
			if n, ok := args[1].isInt64(); ok && n >= 0 && n < int64(len(a.args)) {
				return a.args[n]
			}
		}
		if a.op == OIte {
			return Ite(a.args[0], App(name, s, lo, hi, a.args[1], args[1]), App(name, s, lo, hi, a.args[2], args[1]))
		}
	}
	if strings.HasPrefix(name, "b.mk") {
		a := args[0]
		if a.op == OApp && strings.HasPrefix(a.name, "b.at") {
			all := true
			for i, x := range args {
				if x.op != OApp || x.name != a.name || x.args[0] != a.args[0] {
					all = false
					break
				}
				if n, ok := x.args[1].isInt64(); !ok || n != int64(i) {
					all = false
					break
				}
			}
			if all && a.args[0].sort == s {
				return a.args[0]
			}
		}
	}
	return intern(&Term{op: OApp, name: name, sort: s, args: args, lo: lo, hi: hi})
}

// ---- interval helpers ----

func addB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	return new(big.Int).Add(a, b)
}

func mulIv(c *big.Int, lo, hi *big.Int) (*big.Int, *big.Int) {
	m := func(x *big.Int) *big.Int {
		if x == nil {
			return nil
		}
		return new(big.Int).Mul(c, x)
	}
	if c.Sign() >= 0 {
		return m(lo), m(hi)
	}
	return m(hi), m(lo)
}

func interval(t *Term) (lo, hi *big.Int) {
	return intervalWith(t, func(a *Term) (*big.Int, *big.Int) { return a.lo, a.hi })
}

func intervalWith(t *Term, iv func(*Term) (*big.Int, *big.Int)) (lo, hi *big.Int) {
	switch t.op {
	case OLin:
		lo, hi = t.ival, t.ival
		for i, a := range t.args {
			l, h := iv(a)
			l, h = mulIv(t.coefs[i], l, h)
			lo, hi = addB(lo, l), addB(hi, h)
		}
		return
	case OMul:
		lo, hi = bi(1), bi(1)
		for _, a := range t.args {
			l, h := iv(a)
			if l == nil || h == nil {
				if l != nil && l.Sign() >= 0 && lo != nil && lo.Sign() >= 0 {
					lo, hi = new(big.Int).Mul(lo, l), nil
					continue
				}
				return nil, nil
			}
			if hi == nil {
				if lo != nil && lo.Sign() >= 0 && l.Sign() >= 0 {
					lo = new(big.Int).Mul(lo, l)
					continue
				}
				return nil, nil
			}
			c := []*big.Int{new(big.Int).Mul(lo, l), new(big.Int).Mul(lo, h), new(big.Int).Mul(hi, l), new(big.Int).Mul(hi, h)}
			lo, hi = c[0], c[0]
			for _, x := range c[1:] {
				if x.Cmp(lo) < 0 {
					lo = x
				}
				if x.Cmp(hi) > 0 {
					hi = x
				}
			}
		}
		// even power
		if len(t.args) == 2 && t.args[0] == t.args[1] && lo != nil && lo.Sign() < 0 {
			lo = bi(0)
		}
		return
	case OIte:
		l1, h1 := iv(t.args[1])
		l2, h2 := iv(t.args[2])
		return minB(l1, l2), maxB(h1, h2)
	case ODiv:
		l1, h1 := iv(t.args[0])
		l2, h2 := iv(t.args[1])
		if l2 != nil && l2.Sign() > 0 {
			if h2 != nil && l2.Cmp(h2) == 0 {
				if l1 != nil {
					lo = floorDiv(l1, l2)
				}
				if h1 != nil {
					hi = floorDiv(h1, l2)
				}
				return
			}
			if l1 != nil && l1.Sign() >= 0 {
				lo = bi(0)
				if h1 != nil {
					hi = floorDiv(h1, l2)
				}
				return
			}
			if l1 != nil {
				lo = l1
			}
			if h1 != nil {
				if h1.Sign() >= 0 {
					hi = h1
				} else {
					hi = bi(-1)
				}
			}
			return
		}
		return nil, nil
	case OMod:
		l1, h1 := iv(t.args[0])
		l2, h2 := iv(t.args[1])
		if l2 != nil && l2.Sign() > 0 {
			lo = bi(0)
			if h2 != nil {
				hi = new(big.Int).Sub(h2, bi(1))
			}
			if l1 != nil && l1.Sign() >= 0 && h1 != nil && (hi == nil || h1.Cmp(hi) < 0) {
				hi = h1
			}
			return
		}
		return nil, nil
	}
	return t.lo, t.hi
}

func minB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}
func floorDiv(a, b *big.Int) *big.Int { // b>0
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m)
	return q
}

// ---- linear / polynomial arithmetic ----

type lin struct {
	m map[*Term]*big.Int
	c *big.Int
}

func toLin(t *Term) *lin {
	l := &lin{map[*Term]*big.Int{}, new(big.Int)}
	l.add(t, bi(1))
	return l
}

func (l *lin) addAtom(a *Term, k *big.Int) {
	if o, ok := l.m[a]; ok {
		s := new(big.Int).Add(o, k)
		if s.Sign() == 0 {
			delete(l.m, a)
		} else {
			l.m[a] = s
		}
	} else if k.Sign() != 0 {
		l.m[a] = k
	}
}

func (l *lin) add(t *Term, k *big.Int) {
	if t.op == OLin {
		l.c = new(big.Int).Add(l.c, new(big.Int).Mul(k, t.ival))
		for i, a := range t.args {
			l.addAtom(a, new(big.Int).Mul(k, t.coefs[i]))
		}
		return
	}
	l.addAtom(t, new(big.Int).Set(k))
}

func (l *lin) term() *Term {
	// combine k*mod(y,b) + k*b*div(y,b) -> k*y
	for changed := true; changed; {
		changed = false
		for a, k := range l.m {
			if a.op != OMod || !a.args[1].isConst() {
				continue
			}
			d := Div(a.args[0], a.args[1])
			if z := l.nextDigit(d, new(big.Int).Mul(k, a.args[1].ival)); z != nil {
				// k*mod(y,b) + k*b*mod(div(y,b),m) -> k*mod(y,b*m)
				kk := new(big.Int).Set(k)
				l.addAtom(a, new(big.Int).Neg(kk))
				l.addAtom(z, new(big.Int).Neg(new(big.Int).Mul(kk, a.args[1].ival)))
				l.add(Mod(a.args[0], Const(new(big.Int).Mul(a.args[1].ival, z.args[1].ival))), kk)
				changed = true
				break
			}
			if d.op == OLin && !(len(d.args) == 1 && d.ival.Sign() == 0) {
				// general linear quotient: check whether it is fully contained
				ok := len(d.args) > 0
				kb := new(big.Int).Mul(k, a.args[1].ival)
				for i, x := range d.args {
					c, has := l.m[x]
					if !has || c.Cmp(new(big.Int).Mul(kb, d.coefs[i])) != 0 {
						ok = false
						break
					}
				}
				if !ok {
					continue
				}
			} else {
				x, cc := d, bi(1)
				if d.op == OLin {
					x, cc = d.args[0], d.coefs[0]
				}
				c, has := l.m[x]
				kb := new(big.Int).Mul(k, a.args[1].ival)
				kb.Mul(kb, cc)
				if !has || c.Sign() != kb.Sign() || c.CmpAbs(kb) < 0 {
					continue
				}
				if c.Cmp(kb) != 0 {
					continue
				}
			}
			kk := new(big.Int).Set(k)
			l.addAtom(a, new(big.Int).Neg(kk))
			l.add(d, new(big.Int).Neg(new(big.Int).Mul(kk, a.args[1].ival)))
			l.add(a.args[0], kk)
			changed = true
			break
		}
	}
	if len(l.m) == 0 {
		return Const(l.c)
	}
	as := make([]*Term, 0, len(l.m))
	for a := range l.m {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && l.c.Sign() == 0 && l.m[as[0]].Cmp(bi(1)) == 0 {
		return as[0]
	}
	cs := make([]*big.Int, len(as))
	for i, a := range as {
		cs[i] = l.m[a]
	}
	return intern(&Term{op: OLin, sort: SInt, args: as, coefs: cs, ival: l.c})
}

// nextDigit: the atom mod(d, m) for some constant m, if its coefficient is k.
func (l *lin) nextDigit(d *Term, k *big.Int) *Term {
	for z, c := range l.m {
		if z.op == OMod && z.args[0] == d && z.args[1].isConst() && z.args[1].ival.Sign() > 0 && c.Cmp(k) == 0 {
			return z
		}
	}
	return nil
}

func Add(ts ...*Term) *Term {
	l := &lin{map[*Term]*big.Int{}, new(big.Int)}
	for _, t := range ts {
		l.add(t, bi(1))
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := toLin(a)
	l.add(b, bi(-1))
	return l.term()
}
func Neg(a *Term) *Term { return Sub(C(0), a) }
func Scale(k *big.Int, a *Term) *Term {
	l := &lin{map[*Term]*big.Int{}, new(big.Int)}
	l.add(a, k)
	return l.term()
}

func monoMul(a, b *Term) *Term {
	var fs []*Term
	app := func(t *Term) {
		if t.op == OMul {
			fs = append(fs, t.args...)
		} else {
			fs = append(fs, t)
		}
	}
	app(a)
	app(b)
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	return intern(&Term{op: OMul, sort: SInt, args: fs})
}

const maxExpand = 20000

func Mul(a, b *Term) *Term {
	if a.isConst() {
		return Scale(a.ival, b)
	}
	if b.isConst() {
		return Scale(b.ival, a)
	}
	// ite with constant-ish branches: distribute when one side is ite of consts
	if a.op == OIte && a.args[1].isConst() && a.args[2].isConst() {
		return Ite(a.args[0], Mul(a.args[1], b), Mul(a.args[2], b))
	}
	if b.op == OIte && b.args[1].isConst() && b.args[2].isConst() {
		return Ite(b.args[0], Mul(a, b.args[1]), Mul(a, b.args[2]))
	}
	la, lb := toLin(a), toLin(b)
	na, nb := len(la.m)+1, len(lb.m)+1
	if na*nb > maxExpand {
		return monoMul(a, b)
	}
	l := &lin{map[*Term]*big.Int{}, new(big.Int).Mul(la.c, lb.c)}
	for x, k := range la.m {
		for y, k2 := range lb.m {
			l.addAtom(monoMul(x, y), new(big.Int).Mul(k, k2))
		}
		if lb.c.Sign() != 0 {
			l.addAtom(x, new(big.Int).Mul(k, lb.c))
		}
	}
	if la.c.Sign() != 0 {
		for y, k2 := range lb.m {
			l.addAtom(y, new(big.Int).Mul(la.c, k2))
		}
	}
	return l.term()
}

// Div: floor division, divisor expected > 0 (Euclid division as in SMT-LIB for positive divisors)
func Div(a, b *Term) *Term {
	if b.isConst() && b.ival.Sign() > 0 {
		c := b.ival
		if c.Cmp(bi(1)) == 0 {
			return a
		}
		if a.isConst() {
			return Const(floorDiv(a.ival, c))
		}
		if a.lo != nil && a.hi != nil {
			ql, qh := floorDiv(a.lo, c), floorDiv(a.hi, c)
			if ql.Cmp(qh) == 0 {
				return Const(ql)
			}
		}
		if a.op == ODiv && a.args[1].isConst() && a.args[1].ival.Sign() > 0 {
			return Div(a.args[0], Const(new(big.Int).Mul(a.args[1].ival, c)))
		}
		if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
			return Ite(a.args[0], Div(a.args[1], b), Div(a.args[2], b))
		}
		if a.op == OMod && a.args[1].isConst() {
			// div(mod(y, m), c) with c | m  = mod(div(y,c), m/c)
			q, r := new(big.Int), new(big.Int)
			q.DivMod(a.args[1].ival, c, r)
			if r.Sign() == 0 {
				return Mod(Div(a.args[0], b), Const(q))
			}
		}
		if a.op == OLin {
			q := &lin{map[*Term]*big.Int{}, new(big.Int)}
			r := &lin{map[*Term]*big.Int{}, new(big.Int)}
			nq := 0
			for i, x := range a.args {
				qq, rr := new(big.Int), new(big.Int)
				qq.DivMod(a.coefs[i], c, rr)
				if rr.Sign() == 0 {
					q.addAtom(x, qq)
					nq++
				} else if qq.Sign() != 0 && (new(big.Int).Sub(c, rr).Cmp(rr) < 0) {
					// prefer small absolute remainder coefficients
					qq.Add(qq, bi(1))
					rr.Sub(rr, c)
					q.addAtom(x, qq)
					r.addAtom(x, rr)
					if qq.Sign() != 0 {
						nq++
					}
				} else if qq.Sign() != 0 && qq.CmpAbs(bi(1)) >= 0 && a.coefs[i].CmpAbs(c) > 0 {
					q.addAtom(x, qq)
					r.addAtom(x, rr)
					nq++
				} else {
					r.addAtom(x, a.coefs[i])
				}
			}
			qc, rc := new(big.Int), new(big.Int)
			qc.DivMod(a.ival, c, rc)
			q.c = qc
			r.c = rc
			if nq > 0 || qc.Sign() != 0 {
				rt := r.term()
				q.add(Div(rt, b), bi(1))
				return q.term()
			}
			// gcd reduction: div(g*x + r0, c): if g | c and all coefs multiples of g: div(x*g + k, c) = div(x + floor(k/g), c/g)
			g := new(big.Int).Set(c)
			for _, k := range a.coefs {
				g.GCD(nil, nil, g, new(big.Int).Abs(k))
			}
			if g.Cmp(bi(1)) > 0 {
				n := &lin{map[*Term]*big.Int{}, floorDiv(a.ival, g)}
				for i, x := range a.args {
					n.addAtom(x, new(big.Int).Div(a.coefs[i], g))
				}
				return Div(n.term(), Const(new(big.Int).Div(c, g)))
			}
			// div(g*Y + r, c) where g | c, |r| small: r in [0,g) => div(Y, c/g)
			if t := divSplit(a, c); t != nil {
				return t
			}
		}
	}
	if a.isConst() && a.ival.Sign() == 0 {
		return a
	}
	return intern(&Term{op: ODiv, sort: SInt, args: []*Term{a, b}})
}

// divSplit: a = g*Y + R with 0<=R<g, g|c  => floor(a/c) = floor(Y/(c/g)).
func divSplit(a *Term, c *big.Int) *Term {
	// candidate g values: gcds of coefs with c
	seen := map[string]bool{}
	var cands []*big.Int
	for _, k := range a.coefs {
		g := new(big.Int).GCD(nil, nil, new(big.Int).Abs(k), c)
		if g.Cmp(bi(1)) > 0 && !seen[g.String()] {
			seen[g.String()] = true
			cands = append(cands, g)
		}
	}
	sort.Slice(cands, func(i, j int) bool { return cands[i].Cmp(cands[j]) > 0 })
	for _, g := range cands {
		Y := &lin{map[*Term]*big.Int{}, new(big.Int)}
		R := &lin{map[*Term]*big.Int{}, new(big.Int)}
		for i, x := range a.args {
			q, r := new(big.Int), new(big.Int)
			q.DivMod(a.coefs[i], g, r)
			if r.Sign() == 0 {
				Y.addAtom(x, q)
			} else {
				R.addAtom(x, a.coefs[i])
			}
		}
		q, r := new(big.Int), new(big.Int)
		q.DivMod(a.ival, g, r)
		Y.c, R.c = q, r
		rt := R.term()
		if rt.lo != nil && rt.hi != nil && rt.lo.Sign() >= 0 && rt.hi.Cmp(g) < 0 {
			return Div(Y.term(), Const(new(big.Int).Div(c, g)))
		}
	}
	return nil
}

func Mod(a, b *Term) *Term {
	if b.isConst() && b.ival.Sign() > 0 {
		c := b.ival
		if c.Cmp(bi(1)) == 0 {
			return C(0)
		}
		if a.isConst() {
			return Const(new(big.Int).Mod(a.ival, c))
		}
		if a.lo != nil && a.hi != nil {
			ql, qh := floorDiv(a.lo, c), floorDiv(a.hi, c)
			if ql.Cmp(qh) == 0 {
				return Sub(a, Const(new(big.Int).Mul(ql, c)))
			}
		}
		if a.op == OMod && a.args[1].isConst() {
			if new(big.Int).Mod(a.args[1].ival, c).Sign() == 0 {
				return Mod(a.args[0], b)
			}
		}
		if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
			return Ite(a.args[0], Mod(a.args[1], b), Mod(a.args[2], b))
		}
		if a.op == OLin {
			r := &lin{map[*Term]*big.Int{}, new(big.Int).Mod(a.ival, c)}
			ch := r.c.Cmp(a.ival) != 0
			for i, x := range a.args {
				rr := new(big.Int).Mod(a.coefs[i], c)
				if rr.Sign() != 0 {
					alt := new(big.Int).Sub(rr, c)
					if alt.CmpAbs(rr) < 0 {
						rr = alt
					}
				}
				if rr.Cmp(a.coefs[i]) != 0 {
					ch = true
				}
				// nested mod with multiple modulus
				if x.op == OMod && x.args[1].isConst() && rr.Sign() != 0 && new(big.Int).Mod(new(big.Int).Mul(rr, x.args[1].ival), c).Sign() == 0 {
					r.add(x.args[0], rr)
					ch = true
					continue
				}
				r.addAtom(x, rr)
			}
			if ch {
				return Mod(r.term(), b)
			}
			// common factor
			g := new(big.Int).Set(c)
			g.GCD(nil, nil, g, new(big.Int).Abs(a.ival))
			if a.ival.Sign() == 0 {
				g = new(big.Int).Set(c)
			}
			for _, k := range a.coefs {
				g.GCD(nil, nil, g, new(big.Int).Abs(k))
			}
			if g.Cmp(bi(1)) > 0 {
				n := &lin{map[*Term]*big.Int{}, new(big.Int).Div(a.ival, g)}
				for i, x := range a.args {
					n.addAtom(x, new(big.Int).Div(a.coefs[i], g))
				}
				return Scale(g, Mod(n.term(), Const(new(big.Int).Div(c, g))))
			}
		}
	}
	if a.isConst() && a.ival.Sign() == 0 {
		return a
	}
	return intern(&Term{op: OMod, sort: SInt, args: []*Term{a, b}})
}

// ---- booleans ----

func Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return False
	case OFalse:
		return True
	case ONot:
		return a.args[0]
	case OGe0:
		return ge0(Sub(C(-1), a.args[0]))
	}
	return intern(&Term{op: ONot, sort: SBool, args: []*Term{a}})
}

func nary(op Op, ts []*Term) *Term {
	unit, zero := True, False
	if op == OOr {
		unit, zero = False, True
	}
	seen := map[*Term]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit || seen[t] {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	// absorption for (a or (not a and b)) handled lightly
	if op == OOr || op == OAnd {
		dual := OAnd
		if op == OAnd {
			dual = OOr
		}
		for i, t := range out {
			if t.op == dual {
				var keep []*Term
				ch := false
				absorbed := false
				for _, a := range t.args {
					if seen[Not(a)] {
						ch = true
						continue
					}
					if seen[a] {
						absorbed = true
					}
					keep = append(keep, a)
				}
				if absorbed {
					o2 := append(append([]*Term{}, out[:i]...), out[i+1:]...)
					return nary(op, o2)
				}
				if ch {
					o2 := append([]*Term{}, out...)
					o2[i] = nary(dual, keep)
					return nary(op, o2)
				}
			}
		}
	}
	return intern(&Term{op: op, sort: SBool, args: out})
}

func And(ts ...*Term) *Term { return nary(OAnd, ts) }
func Or(ts ...*Term) *Term  { return nary(OOr, ts) }
func Implies(a, b *Term) *Term {
	return Or(Not(a), b)
}

func ge0(t *Term) *Term {
	if t.lo != nil && t.lo.Sign() >= 0 {
		return True
	}
	if t.hi != nil && t.hi.Sign() < 0 {
		return False
	}
	if t.op == OIte && (t.args[1].isConst() || t.args[2].isConst()) {
		return Ite(t.args[0], ge0(t.args[1]), ge0(t.args[2]))
	}
	if t.op == OLin {
		g := new(big.Int)
		for _, k := range t.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		if g.Cmp(bi(1)) > 0 {
			n := &lin{map[*Term]*big.Int{}, floorDiv(t.ival, g)}
			for i, x := range t.args {
				n.addAtom(x, new(big.Int).Div(t.coefs[i], g))
			}
			return ge0(n.term())
		}
		// single ite atom with const branches
		if len(t.args) == 1 && t.args[0].op == OIte {
			x := t.args[0]
			if x.args[1].isConst() || x.args[2].isConst() {
				f := func(v *Term) *Term { return Add(Scale(t.coefs[0], v), Const(t.ival)) }
				return Ite(x.args[0], ge0(f(x.args[1])), ge0(f(x.args[2])))
			}
		}
	}
	return intern(&Term{op: OGe0, sort: SBool, args: []*Term{t}})
}

func Ge(a, b *Term) *Term { return ge0(Sub(a, b)) }
func Le(a, b *Term) *Term { return ge0(Sub(b, a)) }
func Lt(a, b *Term) *Term { return ge0(Sub(Sub(b, a), C(1))) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %s %s: %s vs %s", a.sort.Name, b.sort.Name, a, b))
	}
	if a.sort == SInt {
		return eq0(Sub(a, b))
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.op == OIte && (b == a.args[1] || b == a.args[2]) {
		return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
	}
	if b.op == OIte && (a == b.args[1] || a == b.args[2]) {
		return Ite(b.args[0], Eq(a, b.args[1]), Eq(a, b.args[2]))
	}
	if isMk(a) && isMk(b) {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if isMk(b) {
		a, b = b, a
	}
	if isMk(a) && len(a.args) <= 64 {
		// extensionality against an opaque byte array
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], bAt(b, C(int64(i)))))
		}
		return And(cs...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{op: OEq, sort: SBool, args: []*Term{a, b}})
}

func isMk(t *Term) bool { return t.op == OApp && strings.HasPrefix(t.name, "b.mk") }

func bAt(t *Term, i *Term) *Term {
	return App("b.at"+t.sort.Name, SInt, bi(0), bi(255), t, i)
}

func eq0(t *Term) *Term {
	if t.isConst() {
		return Bool(t.ival.Sign() == 0)
	}
	if t.lo != nil && t.lo.Sign() > 0 || t.hi != nil && t.hi.Sign() < 0 {
		return False
	}
	if t.op == OIte && (t.args[1].isConst() || t.args[2].isConst()) {
		return Ite(t.args[0], eq0(t.args[1]), eq0(t.args[2]))
	}
	if t.op == OLin {
		g := new(big.Int)
		for _, k := range t.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		if g.Cmp(bi(1)) > 0 {
			if new(big.Int).Mod(t.ival, g).Sign() != 0 {
				return False
			}
		}
		neg := t.coefs[0].Sign() < 0
		if g.Cmp(bi(1)) > 0 || neg {
			if g.Sign() == 0 {
				g = bi(1)
			}
			d := new(big.Int).Set(g)
			if neg {
				d.Neg(d)
			}
			n := &lin{map[*Term]*big.Int{}, new(big.Int).Quo(t.ival, d)}
			for i, x := range t.args {
				n.addAtom(x, new(big.Int).Quo(t.coefs[i], d))
			}
			return eq0(n.term())
		}
		if len(t.args) == 1 && t.args[0].op == OIte {
			x := t.args[0]
			if x.args[1].isConst() || x.args[2].isConst() {
				f := func(v *Term) *Term { return Add(Scale(t.coefs[0], v), Const(t.ival)) }
				return Ite(x.args[0], eq0(f(x.args[1])), eq0(f(x.args[2])))
			}
		}
	}
	return intern(&Term{op: OEq0, sort: SBool, args: []*Term{t}})
}

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.sort != b.sort {
		panic("ite sorts " + a.String() + " / " + b.String())
	}
	if a.sort == SBool {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return intern(&Term{op: OIte, sort: a.sort, args: []*Term{c, a, b}})
}

func Forall(vs []*Term, body *Term, pats ...[]*Term) *Term { return quant(OForall, vs, body, pats) }
func Exists(vs []*Term, body *Term, pats ...[]*Term) *Term { return quant(OExists, vs, body, pats) }
func quant(op Op, vs []*Term, body *Term, pats [][]*Term) *Term {
	if body == True || body == False {
		return body
	}
	if !body.hasBV {
		return body // callers guarantee non-empty domains for ints
	}
	return intern(&Term{op: op, sort: SBool, args: []*Term{body}, bound: vs, pats: pats})
}

// ---- substitution / traversal ----

func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		na := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			na[i] = rec(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, na)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OApp:
		return App(t.name, t.sort, t.lo, t.hi, a...)
	case ONot:
		return Not(a[0])
	case OAnd:
		return And(a...)
	case OOr:
		return Or(a...)
	case OEq:
		return Eq(a[0], a[1])
	case OEq0:
		return eq0(a[0])
	case OGe0:
		return ge0(a[0])
	case OIte:
		return Ite(a[0], a[1], a[2])
	case OLin:
		l := &lin{map[*Term]*big.Int{}, t.ival}
		for i, x := range a {
			l.add(x, t.coefs[i])
		}
		return l.term()
	case OMul:
		r := a[0]
		for _, x := range a[1:] {
			r = Mul(r, x)
		}
		return r
	case ODiv:
		return Div(a[0], a[1])
	case OMod:
		return Mod(a[0], a[1])
	case OForall, OExists:
		return quant(t.op, t.bound, a[0], t.pats)
	}
	panic("rebuild")
}

// ---- printing ----

func intStr(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func (t *Term) String() string { return smtTree(t, nil, 0) }

func sym(n string) string { return "|" + n + "|" }

// smtTree prints with references for shared nodes from ref.
func smtTree(t *Term, ref func(*Term) (string, bool), d int) string {
	rec := func(a *Term) string {
		if ref != nil {
			if s, ok := ref(a); ok {
				return s
			}
		}
		if ref == nil && d > 12 && len(a.args) > 0 {
			return "..."
		}
		return smtTree(a, ref, d+1)
	}
	list := func(op string, as []*Term) string {
		var b strings.Builder
		b.WriteString("(" + op)
		for _, a := range as {
			b.WriteByte(' ')
			b.WriteString(rec(a))
		}
		b.WriteByte(')')
		return b.String()
	}
	switch t.op {
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OVar:
		return sym(t.name)
	case OApp:
		return list(sym(t.name), t.args)
	case ONot:
		return list("not", t.args)
	case OAnd:
		return list("and", t.args)
	case OOr:
		return list("or", t.args)
	case OEq:
		return list("=", t.args)
	case OIte:
		return list("ite", t.args)
	case OMul:
		return list("*", t.args)
	case ODiv:
		return list("div", t.args)
	case OMod:
		return list("mod", t.args)
	case OEq0, OGe0:
		op := "="
		if t.op == OGe0 {
			op = ">="
		}
		x := t.args[0]
		if x.op != OLin {
			return "(" + op + " " + rec(x) + " 0)"
		}
		if ref != nil {
			if s, ok := ref(x); ok {
				return "(" + op + " " + s + " 0)"
			}
		}
		return "(" + op + " " + linStr(x, rec, 1) + " " + linStr(x, rec, -1) + ")"
	case OLin:
		return linStr(t, rec, 0)
	case OForall, OExists:
		var b strings.Builder
		if t.op == OForall {
			b.WriteString("(forall (")
		} else {
			b.WriteString("(exists (")
		}
		for _, v := range t.bound {
			fmt.Fprintf(&b, "(%s %s)", sym(v.name), v.sort.Name)
		}
		b.WriteString(") ")
		body := t.args[0]
		// bound variable ranges
		var rs []string
		for _, v := range t.bound {
			if v.lo != nil {
				rs = append(rs, fmt.Sprintf("(>= %s %s)", sym(v.name), intStr(v.lo)))
			}
			if v.hi != nil {
				rs = append(rs, fmt.Sprintf("(<= %s %s)", sym(v.name), intStr(v.hi)))
			}
		}
		bs := rec(body)
		if len(rs) > 0 {
			if t.op == OForall {
				bs = "(=> (and " + strings.Join(rs, " ") + ") " + bs + ")"
			} else {
				bs = "(and " + strings.Join(rs, " ") + " " + bs + ")"
			}
		}
		if len(t.pats) > 0 {
			b.WriteString("(! " + bs)
			for _, p := range t.pats {
				b.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						b.WriteByte(' ')
					}
					b.WriteString(smtTree(x, nil, -1000))
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		} else {
			b.WriteString(bs)
		}
		b.WriteString(")")
		return b.String()
	}
	return "?"
}

// linStr: side 0 = all; 1 = positive part; -1 = negated negative part
func linStr(t *Term, rec func(*Term) string, side int) string {
	var ps []string
	for i, a := range t.args {
		k := t.coefs[i]
		if side == 1 && k.Sign() < 0 || side == -1 && k.Sign() > 0 {
			continue
		}
		if side == -1 {
			k = new(big.Int).Neg(k)
		}
		if k.Cmp(bi(1)) == 0 {
			ps = append(ps, rec(a))
		} else {
			ps = append(ps, "(* "+intStr(k)+" "+rec(a)+")")
		}
	}
	k := t.ival
	if !(k.Sign() == 0 || side == 1 && k.Sign() < 0 || side == -1 && k.Sign() > 0) {
		if side == -1 {
			k = new(big.Int).Neg(k)
		}
		ps = append(ps, intStr(k))
	}
	if len(ps) == 0 {
		return "0"
	}
	if len(ps) == 1 {
		return ps[0]
	}
	return "(+ " + strings.Join(ps, " ") + ")"
}

// Script accumulates declarations and shared definitions for a set of terms.
type Script struct {
	b        strings.Builder
	declared map[string]bool
	defined  map[*Term]string
	sorts    map[string]bool
	mkAx     map[*Term]bool
}

func NewScript() *Script {
	return &Script{declared: map[string]bool{}, defined: map[*Term]string{}, sorts: map[string]bool{}, mkAx: map[*Term]bool{}}
}

func (s *Script) declSort(so *Sort) {
	if so == SBool || so == SInt || s.sorts[so.Name] {
		return
	}
	s.sorts[so.Name] = true
	fmt.Fprintf(&s.b, "(declare-sort %s 0)\n", so.Name)
}

// Prepare emits declarations for everything t needs, range axioms for variables and
// uninterpreted applications, and define-funs for shared closed subterms.
func (s *Script) Prepare(ts ...*Term) {
	count := map[*Term]int{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		count[t]++
		if count[t] > 1 {
			return
		}
		if _, ok := s.defined[t]; ok {
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				walk(x)
			}
		}
		order = append(order, t)
	}
	for _, t := range ts {
		walk(t)
	}
	ref := func(a *Term) (string, bool) {
		n, ok := s.defined[a]
		return n, ok
	}
	rangeOf := func(x string, lo, hi *big.Int) {
		if lo != nil {
			fmt.Fprintf(&s.b, "(assert (>= %s %s))\n", x, intStr(lo))
		}
		if hi != nil {
			fmt.Fprintf(&s.b, "(assert (<= %s %s))\n", x, intStr(hi))
		}
	}
	for _, t := range order {
		switch t.op {
		case OVar:
			if t.hasBV || s.declared[t.name] {
				continue
			}
			s.declared[t.name] = true
			s.declSort(t.sort)
			fmt.Fprintf(&s.b, "(declare-fun %s () %s)\n", sym(t.name), t.sort.Name)
			if t.sort == SInt {
				rangeOf(sym(t.name), t.lo, t.hi)
			}
			continue
		case OApp:
			if !s.declared[t.name] {
				s.declared[t.name] = true
				u := ufTab[t.name]
				var as []string
				for _, a := range u.args {
					s.declSort(a)
					as = append(as, a.Name)
				}
				s.declSort(u.res)
				fmt.Fprintf(&s.b, "(declare-fun %s (%s) %s)\n", sym(t.name), strings.Join(as, " "), u.res.Name)
			}
			if t.hasBV && t.sort == SInt && (t.lo != nil || t.hi != nil) && !s.declared["rg:"+t.name] {
				s.declared["rg:"+t.name] = true
				u := ufTab[t.name]
				var vs, bs []string
				for i, a := range u.args {
					vs = append(vs, fmt.Sprintf("(x~%d %s)", i, a.Name))
					bs = append(bs, fmt.Sprintf("x~%d", i))
				}
				ap := "(" + sym(t.name) + " " + strings.Join(bs, " ") + ")"
				var cs []string
				if t.lo != nil {
					cs = append(cs, fmt.Sprintf("(>= %s %s)", ap, intStr(t.lo)))
				}
				if t.hi != nil {
					cs = append(cs, fmt.Sprintf("(<= %s %s)", ap, intStr(t.hi)))
				}
				fmt.Fprintf(&s.b, "(assert (forall (%s) (! (and %s) :pattern (%s))))\n", strings.Join(vs, " "), strings.Join(cs, " "), ap)
			}
			if ax, ok := quantAxioms[t.name]; ok && !s.declared["ax:"+t.name] {
				s.declared["ax:"+t.name] = true
				a := ax()
				s.Prepare(a)
				fmt.Fprintf(&s.b, "(assert %s)\n", s.Str(a))
			}
		}
		if len(t.args) > 0 && !t.hasBV && (count[t] > 1 || t.depth%40 == 39 || t.op == OApp && t.sort == SInt && (t.lo != nil || t.hi != nil)) {
			n := "|d~" + strconv.Itoa(t.id) + "|"
			body := smtTree(t, ref, 0)
			s.declSort(t.sort)
			fmt.Fprintf(&s.b, "(define-fun %s () %s %s)\n", n, t.sort.Name, body)
			s.defined[t] = n
			if t.op == OApp && t.sort == SInt {
				rangeOf(n, t.lo, t.hi)
			}
			if t.op == OApp && t.name == "uvlen" { // a number takes one byte when it is below 128
				fmt.Fprintf(&s.b, "(assert (= (= %s 1) (<= %s 127)))\n", n, s.Str(t.args[0]))
			}
		}
		if t.op == OMul && !t.hasBV && (t.lo != nil || t.hi != nil) && !s.declared[fmt.Sprintf("mr:%d", t.id)] {
			s.declared[fmt.Sprintf("mr:%d", t.id)] = true
			rangeOf(s.Str(t), t.lo, t.hi)
		}
		if isMk(t) && !t.hasBV && !s.mkAx[t] {
			// at(mk(...),i) = arg_i
			s.mkAx[t] = true
			at := "b.at" + t.sort.Name
			if !s.declared[at] {
				s.declared[at] = true
				fmt.Fprintf(&s.b, "(declare-fun %s (%s Int) Int)\n", sym(at), t.sort.Name)
			}
			ts := s.Str(t)
			for i, a := range t.args {
				fmt.Fprintf(&s.b, "(assert (= (%s %s %d) %s))\n", sym(at), ts, i, s.Str(a))
			}
		}
	}
}

// quantAxioms: UF name -> axiom builder (emitted once when the UF is used)
var quantAxioms = map[string]func() *Term{}

func (s *Script) Str(t *Term) string {
	if n, ok := s.defined[t]; ok {
		return n
	}
	return smtTree(t, func(a *Term) (string, bool) { n, ok := s.defined[a]; return n, ok }, 0)
}

// drain returns text accumulated since last drain
func (s *Script) drain() string {
	r := s.b.String()
	s.b.Reset()
	return r
}
