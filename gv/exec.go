package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	fn      *ssa.Function
	env     map[ssa.Value]Val
	defers  []*deferred
	count   map[*ssa.BasicBlock]int
	cut     map[*ssa.BasicBlock]*Cut
	visits  map[*ssa.BasicBlock]int
	depth   int
	args    []Val
	bind    []Val
	entry   *State // state at function entry (for old/entry_ values)
	harness *Harness
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	pos  token.Pos
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env)+8)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.count = map[*ssa.BasicBlock]int{}
	for k, v := range f.count {
		n.count[k] = v
	}
	n.cut = map[*ssa.BasicBlock]*Cut{}
	for k, v := range f.cut {
		n.cut[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	return &n
}

const (
	xRet = iota
	xStop
)

type Exit struct {
	kind int
	fr   *Frame
	st   *State
	res  Val
	prev *ssa.BasicBlock
}

type Outcome struct {
	st  *State
	res Val
}

type Obl struct {
	Name               string // stable name
	Kind               string
	Pos                string
	pc                 []*Term
	goal               *Term
	Spec               string
	state              string // discharged / failed / unknown
	by                 string
	secs               float64
	model              string
	trivial            bool
	msg                string
	in                 []inputTerm
	text, text2, text3, mtext string
}

type Ex struct {
	prog          *ssa.Program
	L             *Loaded
	cur           *State
	base          map[*Obj]Val
	symCache      map[*Obj]Val
	ropeDefs      map[string][]ropeDef
	inAssume      bool
	assumeBase    int
	ropeInexact   bool
	nonNilOpaque map[string]bool // opaque functions that never give nil
	wholes, finding bool // some reader was made from known bytes; looking for one
	allocLimit    *Term
	globals       map[*ssa.Global]*Obj
	initDone      map[*ssa.Package]bool
	spec          bool // evaluating specification code: no obligations
	obls          []*Obl
	specName      string
	prefix        string
	solver        *Inc
	stack         []ssa.Instruction
	fnStack       []*ssa.Function
	discover      *Discover
	allowRo       bool
	steps         int
	implCache     map[string][]types.Type
	paths         int
	opts          map[string]string
	funcsUsed     map[string]bool // real functions executed (inlined or verified)
	contractsUsed map[string]bool
	trusted       map[string]bool
	noProve       bool
	harness       *Harness
	topFrame      *Frame
	nHeads        int
	recDefs       map[string]bool
	facts         []*Term // global ground axioms (recursive definitions etc.)
	factSet       map[*Term]bool
	opaque        map[string]bool
	inQuant       int
	reading       int // an element of a sequence is being read
	errTags       int64
	uninterp      map[string]*RecFn
	bufDepth      int
	skipEnter     bool
	inputs        []inputTerm
	transparent   map[string]bool
	inlineOnly    map[string]bool
	recFuel       int
	newCut        *Cut
	specOpaque    map[string]bool
	constFuel     int
	factHead      []string
	invAssume     *State
	curCut        *Cut
	curCutFr      *Frame
	covers        int
	repDepth      int
	anyLive       bool
}

func (x *Ex) where() string {
	var b strings.Builder
	for i := len(x.stack) - 1; i >= 0 && i > len(x.stack)-6; i-- {
		in := x.stack[i]
		if in == nil {
			continue
		}
		p := in.Pos()
		fmt.Fprintf(&b, "%s[%s] ", x.posStr(p), in.Parent().Name())
	}
	return b.String()
}

func (x *Ex) posStr(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := x.prog.Fset.Position(p)
	f := q.Filename
	f = strings.TrimPrefix(f, repoDir+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// ---- CFG info ----

type cfgInfo struct {
	ipdom   map[*ssa.BasicBlock]*ssa.BasicBlock
	headers map[*ssa.BasicBlock]*loopInfo
	order   []*loopInfo
}
type loopInfo struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int // 1-based source order
}

var cfgCache = map[*ssa.Function]*cfgInfo{}

func cfgOf(fn *ssa.Function) *cfgInfo {
	if c, ok := cfgCache[fn]; ok {
		return c
	}
	c := &cfgInfo{ipdom: map[*ssa.BasicBlock]*ssa.BasicBlock{}, headers: map[*ssa.BasicBlock]*loopInfo{}}
	cfgCache[fn] = c
	n := len(fn.Blocks)
	// which blocks reach a return
	exitIdx := n
	pd := make([]*big.Int, n+1)
	full := new(big.Int).Sub(pow2(n+1), bi(1))
	for i := range pd {
		pd[i] = full
	}
	pd[exitIdx] = new(big.Int).SetBit(new(big.Int), exitIdx, 1)
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			s := new(big.Int).Set(full)
			any := false
			if len(b.Succs) == 0 {
				if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					s.And(s, pd[exitIdx])
					any = true
				}
			}
			for _, q := range b.Succs {
				s.And(s, pd[q.Index])
				any = true
			}
			if !any {
				continue
			}
			s.SetBit(s, i, 1)
			if s.Cmp(pd[i]) != 0 {
				pd[i] = s
				ch = true
			}
		}
	}
	for i, b := range fn.Blocks {
		if pd[i].Cmp(full) == 0 {
			continue
		}
		// immediate: the strict postdominator with the largest own pdom set
		var best *ssa.BasicBlock
		bc := -1
		for j := 0; j < n; j++ {
			if j != i && pd[i].Bit(j) == 1 {
				cnt := 0
				for k := 0; k <= n; k++ {
					cnt += int(pd[j].Bit(k))
				}
				if cnt > bc {
					bc, best = cnt, fn.Blocks[j]
				}
			}
		}
		c.ipdom[b] = best
	}
	// natural loops
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := c.headers[s]
				if li == nil {
					li = &loopInfo{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					c.headers[s] = li
				}
				var walk func(q *ssa.BasicBlock)
				walk = func(q *ssa.BasicBlock) {
					if li.blocks[q] {
						return
					}
					li.blocks[q] = true
					for _, p := range q.Preds {
						walk(p)
					}
				}
				walk(b)
			}
		}
	}
	for _, li := range c.headers {
		c.order = append(c.order, li)
	}
	posOf := func(li *loopInfo) token.Pos {
		var best token.Pos
		for b := range li.blocks {
			for _, in := range b.Instrs {
				if p := in.Pos(); p.IsValid() && (best == 0 || p < best) {
					if _, ok := in.(*ssa.Phi); ok {
						continue
					}
					best = p
				}
			}
		}
		return best
	}
	sort.Slice(c.order, func(i, j int) bool {
		pi, pj := posOf(c.order[i]), posOf(c.order[j])
		if pi != pj {
			return pi < pj
		}
		return len(c.order[i].blocks) > len(c.order[j].blocks)
	})
	for i, li := range c.order {
		li.ord = i + 1
	}
	return c
}

// ---- calling functions ----

const maxDepth = 80

func (x *Ex) callFn(st *State, fn *ssa.Function, args []Val, bind []Val, caller *Frame) []Outcome {
	if len(fn.Blocks) == 0 {
		x.fail("no body and no model for %s", fn.String())
	}
	d := 0
	if caller != nil {
		d = caller.depth + 1
	}
	if d > maxDepth {
		x.fail("call depth exceeded at %s", fn)
	}
	if !x.spec {
		x.funcsUsed[fn.String()] = true
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, count: map[*ssa.BasicBlock]int{}, cut: map[*ssa.BasicBlock]*Cut{}, visits: map[*ssa.BasicBlock]int{}, depth: d, args: args, bind: bind}
	if len(args) != len(fn.Params) {
		x.fail("arity mismatch calling %s: %d vs %d", fn, len(args), len(fn.Params))
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = bind[i]
	}
	return x.runFrame(st, fr)
}

func (x *Ex) runFrame(st *State, fr *Frame) []Outcome {
	fn := fr.fn
	fr.entry = st.clone()
	x.fnStack = append(x.fnStack, fn)
	baseLen := len(st.pc)
	base := fr.entry
	sl := len(x.stack)
	exits := x.exec(fr, st, fn.Blocks[0], nil, 0, nil)
	x.stack = x.stack[:sl]
	x.fnStack = x.fnStack[:len(x.fnStack)-1]
	var outs []Outcome
	for _, e := range exits {
		if e.kind != xRet {
			x.fail("stop exit escaped from %s", fn)
		}
		outs = append(outs, Outcome{e.st, e.res})
	}
	if len(outs) > 1 {
		outs = x.mergeOutcomes(baseLen, base, fn, outs)
	}
	return outs
}

// group outcomes by constant-valued bool/error results, merge inside each group
func (x *Ex) mergeOutcomes(baseLen int, base *State, fn *ssa.Function, outs []Outcome) []Outcome {
	if x.opts["nomerge"] == "1" && !x.spec {
		return outs
	}
	groupKey := func(o Outcome) string {
		if x.spec {
			return ""
		}
		var parts []Val
		if t, ok := o.res.(*TupleV); ok {
			parts = t.V
		} else {
			parts = []Val{o.res}
		}
		k := ""
		for _, p := range parts {
			switch p := p.(type) {
			case *IfaceV:
				if c := p.Tag.cval(); c != nil && c.Sign() == 0 {
					k += "N"
				} else if p.Tag.lo != nil && p.Tag.lo.Sign() > 0 {
					k += "E"
				} else {
					k += "?"
				}
			case *Term:
				if p.sort == SBool && len(parts) > 1 {
					if p == True {
						k += "T"
					} else if p == False {
						k += "F"
					} else {
						k += "?"
					}
				}
			case *PtrV:
				if p.Nil == True {
					k += "n"
				} else {
					k += "p"
				}
			}
		}
		return k
	}
	groups := map[string][]Outcome{}
	var order []string
	for _, o := range outs {
		k := groupKey(o)
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], o)
	}
	var res []Outcome
	for _, k := range order {
		g := groups[k]
		if len(g) == 1 {
			res = append(res, g[0])
			continue
		}
		var sts []*State
		var vs []Val
		for _, o := range g {
			sts = append(sts, o.st)
			vs = append(vs, o.res)
		}
		x.cur = g[0].st
		m, sels, ok := x.mergeStates(baseLen, base, sts)
		if ok {
			var v Val
			if vs[0] != nil {
				v, ok = x.foldVals(sels, vs)
			}
			if ok {
				res = append(res, Outcome{m, v})
				continue
			}
		}
		res = append(res, g...)
	}
	return res
}

// evalPure evaluates a call that must yield a single merged outcome (spec predicates)
func (x *Ex) evalPure(st *State, f Val, args []Val) Val {
	old := x.spec
	x.spec = true
	defer func() { x.spec = old }()
	s := st.clone()
	outs := x.callVal(s, f, args, nil, nil)
	if len(outs) == 0 {
		return nil
	}
	if len(outs) == 1 {
		x.cur = st
		return outs[0].res
	}
	var sts []*State
	var vs []Val
	for _, o := range outs {
		sts = append(sts, o.st)
		vs = append(vs, o.res)
	}
	_, sels, ok := x.mergeStates(len(st.pc), st, sts)
	if ok {
		if v, ok := x.foldVals(sels, vs); ok {
			x.cur = st
			return v
		}
	}
	x.fail("specification expression does not evaluate to a single value (%d outcomes)", len(outs))
	return nil
}

// ---- the executor ----

func (x *Ex) exec(fr *Frame, st *State, b *ssa.BasicBlock, prev *ssa.BasicBlock, idx int, stop *ssa.BasicBlock) []Exit {
	var exits []Exit
	entered := idx > 0 || x.skipEnter // mid-block continuation
	x.skipEnter = false
	for {
		if st.dead {
			return exits
		}
		if !entered {
			if b == stop && prev != nil {
				return append(exits, Exit{kind: xStop, fr: fr, st: st, prev: prev})
			}
			// phis
			var phiVals []Val
			var phis []*ssa.Phi
			for _, in := range b.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				phis = append(phis, p)
				pi := -1
				for i, q := range b.Preds {
					if q == prev {
						pi = i
					}
				}
				phiVals = append(phiVals, x.value(fr, st, p.Edges[pi]))
			}
			if !x.enterBlock(fr, st, b, prev, phis, phiVals) {
				return exits
			}
			if st.dead {
				return exits
			}
			idx = len(phis)
			if cut := x.newCut; cut != nil {
				x.newCut = nil
				cs, fs := x.caseSplit(fr, st, cut, phis)
				for k, c := range cs {
					x.cur = c
					if idx > 0 {
						exits = append(exits, x.exec(fs[k], c, b, prev, idx, stop)...)
					} else {
						exits = append(exits, x.exec0(fs[k], c, b, prev, stop)...)
					}
				}
				return exits
			}
		}
		entered = false
		x.cur = st
		advanced := false
		for i := idx; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			x.steps++
			if x.steps > stepLimit {
				x.fail("step limit exceeded")
			}
			x.stack = append(x.stack, in)
			switch in := in.(type) {
			case *ssa.Jump:
				x.pop()
				prev, b, idx = b, b.Succs[0], 0
				advanced = true
			case *ssa.If:
				c := st.simp(x.value(fr, st, in.Cond).(*Term))
				t, f := b.Succs[0], b.Succs[1]
				if c == True || c == False {
					x.pop()
					prev = b
					if c == True {
						b = t
					} else {
						b = f
					}
					advanced = true
					break
				}
				if !x.spec {
					if !x.feasible(st, c) {
						st.assume(Not(c), false)
						x.pop()
						prev, b = b, f
						advanced = true
						break
					}
					if !x.feasible(st, Not(c)) {
						st.assume(c, false)
						x.pop()
						prev, b = b, t
						advanced = true
						break
					}
				}
				x.pop()
				x.paths++
				if x.paths > pathLimit {
					x.fail("path limit exceeded in %s", fr.fn)
				}
				J := cfgOf(fr.fn).ipdom[b]
				if x.opts["noregion"] == "1" && !x.spec {
					J = nil
				}
				s2, f2 := st.clone(), fr.clone()
				baseLen := len(st.pc)
				var base *State
				if J != nil {
					base = st.clone()
				}
				st.assume(c, true)
				s2.assume(Not(c), true)
				target := stop
				if J != nil {
					target = J
				}
				e1 := x.exec(fr, st, t, b, 0, target)
				e2 := x.exec(f2, s2, f, b, 0, target)
				all := append(e1, e2...)
				if J == nil || J == stop {
					if J != nil && J == stop {
						all = x.tryMergeStops(fr, baseLen, base, J, all)
					}
					return append(exits, all...)
				}
				var stops []Exit
				for _, e := range all {
					if e.kind == xStop {
						stops = append(stops, e)
					} else {
						exits = append(exits, e)
					}
				}
				stops = x.tryMergeStops(fr, baseLen, base, J, stops)
				for k := 0; k < len(stops)-1; k++ {
					exits = append(exits, x.resume(stops[k], J, stop)...)
				}
				if len(stops) == 0 {
					return exits
				}
				return append(exits, x.resume(stops[len(stops)-1], J, stop)...)
			case *ssa.Return:
				var res Val
				switch len(in.Results) {
				case 0:
				case 1:
					res = x.value(fr, st, in.Results[0])
				default:
					tv := &TupleV{}
					for _, r := range in.Results {
						tv.V = append(tv.V, x.value(fr, st, r))
					}
					res = tv
				}
				x.pop()
				return append(exits, Exit{kind: xRet, fr: fr, st: st, res: res})
			case *ssa.Panic:
				x.obligeAlways(st, "panic", "panic", in.Pos(), False)
				x.pop()
				return exits
			default:
				outs := x.step(fr, st, in)
				x.pop()
				if outs == nil { // no fork
					if st.dead {
						return exits
					}
					continue
				}
				if len(outs) == 0 {
					return exits
				}
				if len(outs) == 1 {
					st = outs[0].st
					x.cur = st
					if v, ok := in.(ssa.Value); ok {
						fr.env[v] = outs[0].res
					}
					if st.dead {
						return exits
					}
					continue
				}
				for k, o := range outs {
					f := fr
					if k < len(outs)-1 {
						f = fr.clone()
					}
					if v, ok := in.(ssa.Value); ok {
						f.env[v] = o.res
					}
					exits = append(exits, x.exec(f, o.st, b, prev, i+1, stop)...)
				}
				return exits
			}
			if advanced {
				break
			}
		}
		if !advanced {
			x.fail("fell off block")
		}
		idx = 0
	}
}

// resume continues a stop-exit at block J; a merged exit has prev==nil and carries phi values in res.
func (x *Ex) resume(e Exit, J, stop *ssa.BasicBlock) []Exit {
	if e.st.dead {
		return nil
	}
	x.cur = e.st
	if e.res == nil {
		return x.exec(e.fr, e.st, J, e.prev, 0, stop)
	}
	pv := e.res.(*TupleV).V
	var phis []*ssa.Phi
	for _, in := range J.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	if J == stop {
		return []Exit{e}
	}
	if !x.enterBlock(e.fr, e.st, J, e.prev, phis, pv) {
		return nil
	}
	if len(phis) == 0 {
		// exec with idx 0 would re-enter; emulate by starting mid-block
		return x.execAt(e.fr, e.st, J, e.prev, stop, 0)
	}
	return x.exec(e.fr, e.st, J, e.prev, len(phis), stop)
}

// execAt starts at instruction idx without phi/loop entry processing, even for idx 0
func (x *Ex) execAt(fr *Frame, st *State, b, prev *ssa.BasicBlock, stop *ssa.BasicBlock, idx int) []Exit {
	// execute first instruction manually when idx==0 by using a sentinel
	if idx > 0 {
		return x.exec(fr, st, b, prev, idx, stop)
	}
	return x.exec0(fr, st, b, prev, stop)
}

func (x *Ex) exec0(fr *Frame, st *State, b, prev, stop *ssa.BasicBlock) []Exit {
	x.skipEnter = true
	return x.exec(fr, st, b, prev, 0, stop)
}

func (x *Ex) tryMergeStops(fr *Frame, baseLen int, base *State, J *ssa.BasicBlock, all []Exit) []Exit {
	var stops, rest []Exit
	for _, e := range all {
		if e.kind == xStop {
			if !e.st.dead {
				stops = append(stops, e)
			}
		} else {
			rest = append(rest, e)
		}
	}
	if len(stops) <= 1 || x.opts["nomerge"] == "1" && !x.spec {
		return append(rest, stops...)
	}
	var phis []*ssa.Phi
	for _, in := range J.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	var sts []*State
	for _, e := range stops {
		if len(e.fr.defers) != len(stops[0].fr.defers) || len(e.fr.cut) != len(stops[0].fr.cut) {
			return append(rest, stops...)
		}
		sts = append(sts, e.st)
	}
	x.cur = stops[0].st
	m, sels, ok := x.mergeStates(baseLen, base, sts)
	if !ok {
		return append(rest, stops...)
	}
	tv := &TupleV{}
	for pi, p := range phis {
		var vs []Val
		for _, e := range stops {
			if e.res != nil {
				vs = append(vs, e.res.(*TupleV).V[pi])
				continue
			}
			k := -1
			for i, q := range J.Preds {
				if q == e.prev {
					k = i
				}
			}
			x.cur = e.st
			vs = append(vs, x.value(e.fr, e.st, p.Edges[k]))
		}
		x.cur = m
		v, ok := x.foldVals(sels, vs)
		if !ok {
			return append(rest, stops...)
		}
		tv.V = append(tv.V, v)
	}
	f := stops[0].fr
	// keep only values common to all frames or defined before (conservatively: keep first frame's env)
	for _, e := range stops[1:] {
		for k, v := range e.fr.env {
			if o, ok := f.env[k]; !ok || o != v {
				if ok {
					delete(f.env, k)
				}
			}
		}
		for k, c := range e.fr.count {
			if c > f.count[k] {
				f.count[k] = c
			}
		}
	}
	return append(rest, Exit{kind: xStop, fr: f, st: m, prev: stops[0].prev, res: tv})
}

func (x *Ex) pop() { x.stack = x.stack[:len(x.stack)-1] }

// ---- values ----

func (x *Ex) value(fr *Frame, st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return &FuncV{Fn: v, Nil: False}
	case *ssa.Global:
		return &PtrV{Nil: False, Obj: x.globalObj(v)}
	case *ssa.Builtin:
		return &BuiltinV{v}
	}
	r, ok := fr.env[v]
	if !ok {
		x.fail("undefined value %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (x *Ex) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return x.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return strLit(constant.StringVal(c.Value))
	case constant.Int, constant.Float:
		if _, ok := intType(c.Type()); ok {
			n, _ := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			return Const(n)
		}
		return Var("float."+c.Value.ExactString(), mkSort("Float"), nil, nil)
	}
	x.fail("const %s", c)
	return nil
}

func (x *Ex) globalObj(g *ssa.Global) *Obj {
	if o, ok := x.globals[g]; ok {
		return o
	}
	o := newObj(g.Type().(*types.Pointer).Elem(), "glob."+g.Pkg.Pkg.Path()+"."+g.Name())
	o.glob = g
	x.globals[g] = o
	return o
}

// globalInit yields the initial content of a global: the value its package's init stores
// (executed from the real init), or a symbolic value for packages without source here.
func (x *Ex) globalInit(o *Obj) Val {
	g := o.glob
	p := g.Pkg
	if x.L.mutable[g] {
		v := x.symVal(o.T, o.name, nil)
		x.base[o] = v
		return v
	}
	init := p.Func("init")
	if init != nil && len(init.Blocks) > 0 && !x.initDone[p] && x.L.repo[p] {
		x.initDone[p] = true
		x.runInit(p, init)
		if v, ok := x.base[o]; ok {
			return v
		}
	}
	var v Val
	if isError(o.T) {
		x.errTags++
		v = &IfaceV{IT: o.T, Tag: C(x.errTags)}
	} else if x.L.repo[p] {
		v = x.zero(o.T)
	} else {
		v = x.symVal(o.T, o.name, nil)
		if pv, ok := v.(*PtrV); ok {
			pv.Nil = False
		}
	}
	x.base[o] = v
	return v
}

// runInit executes the straight-line package initialiser on a scratch state.
func (x *Ex) runInit(p *ssa.Package, init *ssa.Function) {
	oldSpec, oldCur, oldStack := x.spec, x.cur, x.stack
	x.spec = true
	oldDisc := x.discover
	x.discover = nil // what the initialiser writes is not written by the loop that first reads it
	defer func() { x.spec, x.cur, x.stack, x.discover = oldSpec, oldCur, oldStack, oldDisc }()
	st := newState()
	st.mem = x.base
	fr := &Frame{fn: init, env: map[ssa.Value]Val{}, count: map[*ssa.BasicBlock]int{}, cut: map[*ssa.BasicBlock]*Cut{}, visits: map[*ssa.BasicBlock]int{}}
	// execute every instruction of every block except the guard; tolerate unsupported ones
	b := init.Blocks[1]
	seen := map[*ssa.BasicBlock]bool{}
	for b != nil && !seen[b] {
		seen[b] = true
		var next *ssa.BasicBlock
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Jump:
				next = b.Succs[0]
				continue
			case *ssa.Return:
				return
			case *ssa.Call:
				if f, ok := in.Call.Value.(*ssa.Function); ok && f.Name() == "init" && f.Pkg != p {
					continue
				}
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(vfError); !ok {
							panic(r)
						}
						if v, ok := in.(ssa.Value); ok {
							fr.env[v] = x.opaqueFor(v)
						}
						if os.Getenv("GV_INIT") != "" {
							fmt.Fprintln(os.Stderr, "init:", p.Pkg.Path(), in, r)
						}
					}
				}()
				x.cur = st
				x.stack = append(oldStack[:len(oldStack):len(oldStack)], in)
				outs := x.step(fr, st, in)
				if len(outs) == 1 {
					if v, ok := in.(ssa.Value); ok {
						fr.env[v] = outs[0].res
					}
					if outs[0].st != st {
						for k, v := range outs[0].st.mem {
							st.mem[k] = v
						}
					}
				} else if outs != nil {
					x.fail("init forks")
				}
			}()
		}
		b = next
	}
}

func (x *Ex) opaqueFor(v ssa.Value) Val {
	if t, ok := v.Type().(*types.Tuple); ok && t.Len() == 0 {
		return nil
	}
	return x.symVal(v.Type(), uniq("opaque."+v.Name()), nil)
}

func (x *Ex) feasible(st *State, c *Term) bool {
	if c == False {
		return false
	}
	if x.noProve {
		return true
	}
	return x.solver.check(x, st, c, feasMs) != "unsat"
}
