package main

import (
	"math/big"
	"strings"
)

func occurs(v, t *Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

func flatten(ts []*Term) (r []*Term) {
	for _, t := range ts {
		if t.op == OAnd {
			r = append(r, flatten(t.args)...)
		} else if t != True {
			r = append(r, t)
		}
	}
	return
}

// solveEqs eliminates loop variables that the path condition determines: an equivalent, more syntactic query.
func (o *Obl) solveEqs() ([]*Term, *Term, bool) {
	pc := flatten(o.pc)
	goal := o.goal
	changed := false
	elim := func(t *Term) bool {
		return t.op == OVar && (strings.HasPrefix(t.name, "lh.") || strings.HasPrefix(t.name, "iter!"))
	}
	for round := 0; round < 200; round++ {
		var v, by *Term
		lows, highs := map[*Term]*big.Int{}, map[*Term]*big.Int{}
		for _, p := range pc {
			if p.op == OEq {
				for i := 0; i < 2; i++ {
					if elim(p.args[i]) && !occurs(p.args[i], p.args[1-i]) {
						v, by = p.args[i], p.args[1-i]
					}
				}
			}
			if p.op == OEq0 {
				l := toLin(p.args[0])
				for a, k := range l.m {
					if elim(a) && k.CmpAbs(bi(1)) == 0 {
						// k*a + rest = 0
						rest := Sub(p.args[0], Scale(k, a))
						e := Scale(new(big.Int).Neg(k), rest)
						if !occurs(a, e) && (v == nil || a.id < v.id) {
							v, by = a, e
						}
					}
				}
			}
			if p.op == OGe0 {
				l := toLin(p.args[0])
				if len(l.m) == 1 {
					for a, k := range l.m {
						if !elim(a) {
							continue
						}
						if k.Cmp(bi(1)) == 0 {
							b := new(big.Int).Neg(l.c)
							if lows[a] == nil || lows[a].Cmp(b) < 0 {
								lows[a] = b
							}
						} else if k.Cmp(bi(-1)) == 0 {
							if highs[a] == nil || highs[a].Cmp(l.c) > 0 {
								highs[a] = l.c
							}
						}
					}
				}
			}
			if v != nil {
				break
			}
		}
		if v == nil {
			for a, lo := range lows {
				if a.lo != nil && a.lo.Cmp(lo) > 0 {
					lo = a.lo
				}
				if h := highs[a]; h != nil && h.Cmp(lo) == 0 && (v == nil || a.id < v.id) {
					v, by = a, Const(lo)
				}
			}
		}
		if v == nil {
			break
		}
		changed = true
		m := map[*Term]*Term{v: by}
		var n []*Term
		for _, p := range pc {
			if q := Subst(p, m); q != True {
				n = append(n, q)
			}
		}
		if v.sort == SInt {
			if v.lo != nil {
				n = append(n, Ge(by, Const(v.lo)))
			}
			if v.hi != nil {
				n = append(n, Le(by, Const(v.hi)))
			}
		}
		pc = flatten(n)
		goal = Subst(goal, m)
	}
	if !changed {
		return nil, nil, false
	}
	m := map[*Term]*Term{}
	for _, p := range pc {
		if p.op == OGe0 || p.op == OEq || p.op == OEq0 || p.op == OVar {
			m[p] = True
			m[Not(p)] = False
		}
	}
	goal = Subst(goal, m)
	return pc, goal, true
}
