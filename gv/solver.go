package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

const (
	feasMs  = 250
	quickMs = 400
)

var stepLimit = 40000000
var pathLimit = 60000
var unrollLimit = 4200
var unrollAuto int64 = 70

// Inc: an incremental z3 process synchronised with the executor's path condition stack.
type Inc struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	sc      *Script
	stack   []*Term
	nfacts  int
	cache   map[string]string
	queries int
	secs    float64
	dead    bool
	log     *os.File
	slow    int // queries that ran out of time; after three, nonlinear facts are left out
}

// withoutNonlinear leaves out the conjuncts with products of unknowns (weaker, so feasibility stays sound).
func withoutNonlinear(t *Term) *Term {
	if t.op == OAnd {
		var cs []*Term
		for _, a := range t.args {
			cs = append(cs, withoutNonlinear(a))
		}
		return And(cs...)
	}
	if hasMul(t, map[int]bool{}) {
		return True
	}
	return t
}

func hasMul(t *Term, seen map[int]bool) bool {
	if t.op == OMul {
		return true
	}
	if seen[t.id] {
		return false
	}
	seen[t.id] = true
	for _, a := range t.args {
		if hasMul(a, seen) {
			return true
		}
	}
	return false
}

func newInc() *Inc {
	s := &Inc{cache: map[string]string{}}
	s.start()
	return s
}

func (s *Inc) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReader(o)
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.sc = NewScript()
	s.stack = nil
	if p := os.Getenv("GV_LOG"); p != "" {
		s.log, _ = os.Create(p)
	}
	s.send("(set-option :global-declarations true)\n(set-option :smt.auto_config true)\n")
}

func (s *Inc) send(t string) {
	if s.log != nil {
		s.log.WriteString(t)
	}
	io.WriteString(s.in, t)
}

func (s *Inc) restart() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.start()
}

func (s *Inc) readLine(d time.Duration) (string, bool) {
	type r struct {
		l   string
		err error
	}
	ch := make(chan r, 1)
	go func() {
		l, err := s.out.ReadString('\n')
		ch <- r{l, err}
	}()
	select {
	case v := <-ch:
		return strings.TrimSpace(v.l), v.err == nil
	case <-time.After(d):
		return "", false
	}
}

// check decides satisfiability of pc /\ t with a small timeout.
func (s *Inc) check(x *Ex, st *State, t *Term, ms int) string {
	if t == False {
		return "unsat"
	}
	var kb strings.Builder
	for _, it := range st.pc {
		fmt.Fprintf(&kb, "%d,", it.t.id)
	}
	fmt.Fprintf(&kb, ":%d:%d", t.id, len(x.facts))
	k := kb.String()
	if r, ok := s.cache[k]; ok {
		return r
	}
	t0 := time.Now()
	defer func() { s.secs += time.Since(t0).Seconds() }()
	s.queries++
	if s.queries%3000 == 0 {
		s.restart()
	}
	// sync stack
	n := 0
	for n < len(s.stack) && n < len(st.pc) && s.stack[n] == st.pc[n].t {
		n++
	}
	if n < len(s.stack) {
		s.send(fmt.Sprintf("(pop %d)\n", len(s.stack)-n))
		s.stack = s.stack[:n]
	}
	for ; n < len(st.pc); n++ {
		p := st.pc[n].t
		// declarations and range facts are emitted at the current level but re-emitted never; keep them global by
		// asserting ranges inside the script with global declarations: popped range facts are re-asserted lazily.
		s.send("(push 1)\n")
		q := p
		if s.slow >= 3 {
			q = withoutNonlinear(p)
		}
		s.sc.Prepare(q)
		s.send(s.fixRanges())
		s.send("(assert " + s.sc.Str(q) + ")\n")
		s.stack = append(s.stack, p)
	}
	s.send("(push 1)\n")
	fs := append([]*Term{}, x.relevantFacts(append([]*Term{t}, s.stack...))...)
	s.sc.Prepare(append(fs, t)...)
	s.send(s.fixRanges())
	for _, f := range fs {
		s.send("(assert " + s.sc.Str(f) + ")\n")
	}
	s.send("(assert " + s.sc.Str(t) + ")\n")
	s.send(s.rangesFor(append(append([]*Term{}, s.stack...), append(fs, t)...)))
	s.send(fmt.Sprintf("(set-option :timeout %d)\n(check-sat)\n(pop 1)\n", ms))
	r, ok := s.readLine(time.Duration(ms)*time.Millisecond + 700*time.Millisecond)
	if !ok || (r != "sat" && r != "unsat" && r != "unknown") {
		if os.Getenv("GV_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "z3 incremental:", r, ok)
		}
		s.restart()
		r = "unknown"
		s.slow++
	}
	s.cache[k] = r
	return r
}

// fixRanges drains declarations, dropping assert lines (ranges are asserted per query by rangesFor).
func (s *Inc) fixRanges() string {
	d := s.sc.drain()
	if !strings.Contains(d, "(assert") {
		return d
	}
	var b strings.Builder
	for _, l := range strings.SplitAfter(d, "\n") {
		if strings.HasPrefix(l, "(assert") {
			continue
		}
		b.WriteString(l)
	}
	return b.String()
}

// rangesFor asserts intervals of variables and applications occurring in ts.
func (s *Inc) rangesFor(ts []*Term) string {
	var b strings.Builder
	seen := map[*Term]bool{}
	ax := map[string]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		if (t.op == OVar || t.op == OApp) && t.sort == SInt && !t.hasBV {
			n := s.sc.Str(t)
			if t.lo != nil {
				fmt.Fprintf(&b, "(assert (>= %s %s))\n", n, intStr(t.lo))
			}
			if t.hi != nil {
				fmt.Fprintf(&b, "(assert (<= %s %s))\n", n, intStr(t.hi))
			}
		}
		if isMk(t) && !t.hasBV {
			n := s.sc.Str(t)
			at := "b.at" + t.sort.Name
			if !s.sc.declared[at] {
				s.sc.declared[at] = true
				fmt.Fprintf(&b, "(declare-fun %s (%s Int) Int)\n", sym(at), t.sort.Name)
			}
			for i, a := range t.args {
				fmt.Fprintf(&b, "(assert (= (%s %s %d) %s))\n", sym(at), n, i, s.sc.Str(a))
			}
		}
		if t.op == OApp && !ax[t.name] {
			if f, ok := quantAxioms[t.name]; ok {
				ax[t.name] = true
				a := f()
				s.sc.Prepare(a)
				b.WriteString(s.fixRanges())
				fmt.Fprintf(&b, "(assert %s)\n", s.sc.Str(a))
			}
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return b.String()
}

func (s *Inc) close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// ---- portfolio ----

type backend struct {
	name string
	args func(file string, secs int) []string
}

var backends = []backend{
	{"z3-5", func(f string, s int) []string { return []string{"z3-new", fmt.Sprintf("-T:%d", s), f} }},
	{"cvc5", func(f string, s int) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", s*1000), "--nl-ext-tplanes", f}
	}},
	{"z3-4.8", func(f string, s int) []string { return []string{"z3", fmt.Sprintf("-T:%d", s), f} }},
	{"z3-5-nla", func(f string, s int) []string {
		return []string{"z3-new", fmt.Sprintf("-T:%d", s), "smt.arith.solver=2", f}
	}},
}

// digits rewrites x as k*x1 + x0 for every atom x that occurs under div/mod by a chain of constants.
func (o *Obl) digits() ([]*Term, *Term, bool) {
	ks := map[*Term]map[string]*big.Int{}
	bad := map[*Term]bool{}
	seen := map[*Term]bool{}
	nonlin := false
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		if t.op == OMul {
			nonlin = true
		}
		if (t.op == ODiv || t.op == OMod) && !t.hasBV && t.args[1].isConst() {
			a := t.args[0]
			if (a.op == OVar || a.op == OApp) && a.lo != nil && a.lo.Sign() >= 0 && a.hi != nil {
				if ks[a] == nil {
					ks[a] = map[string]*big.Int{}
					order = append(order, a)
				}
				k := t.args[1].ival
				if k.Sign() <= 0 {
					bad[a] = true
				}
				ks[a][k.String()] = k
			}
		}
	}
	for _, p := range append(append([]*Term{}, o.pc...), o.goal) {
		walk(p)
	}
	if !nonlin {
		return nil, nil, false
	}
	m := map[*Term]*Term{}
	var extra []*Term
	for _, a := range order {
		if bad[a] || len(ks[a]) > 8 {
			continue
		}
		var l []*big.Int
		for _, k := range ks[a] {
			l = append(l, k)
		}
		sort.Slice(l, func(i, j int) bool { return l[i].Cmp(l[j]) < 0 })
		ok := true
		for i := 1; i < len(l); i++ {
			if new(big.Int).Mod(l[i], l[i-1]).Sign() != 0 {
				ok = false
			}
		}
		if !ok {
			continue
		}
		sum := C(0)
		prev := bi(1)
		for i, k := range l {
			w := new(big.Int).Div(k, prev)
			d := Fresh(fmt.Sprintf("dig%d", i), SInt, bi(0), new(big.Int).Sub(w, bi(1)))
			sum = Add(sum, Scale(prev, d))
			prev = k
		}
		top := Fresh("digtop", SInt, bi(0), new(big.Int).Div(a.hi, prev))
		sum = Add(sum, Scale(prev, top))
		m[a] = sum
		extra = append(extra, Le(Const(a.lo), sum), Le(sum, Const(a.hi)))
	}
	if len(m) == 0 {
		return nil, nil, false
	}
	var pc []*Term
	for _, p := range o.pc {
		pc = append(pc, Subst(p, m))
	}
	return append(pc, extra...), Subst(o.goal, m), true
}

func (o *Obl) script(model bool) string {
	s := NewScript()
	all := append(append([]*Term{}, o.pc...), Not(o.goal))
	s.Prepare(all...)
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	if model {
		b.WriteString("(set-option :produce-models true)\n")
	}
	b.WriteString(s.drain())
	for _, p := range o.pc {
		b.WriteString("(assert " + s.Str(p) + ")\n")
	}
	b.WriteString("(assert " + s.Str(Not(o.goal)) + ")\n")
	b.WriteString(s.drain())
	for _, t := range floatApps(all) {
		fmt.Fprintf(&b, "(assert (= %s (%s %s %s)))\n", s.Str(t), sym(t.name), s.Str(t.args[1]), s.Str(t.args[0]))
	}
	b.WriteString("(check-sat)\n")
	if model {
		b.WriteString("(get-model)\n")
	}
	return b.String()
}

// floatApps collects the commutative floating point operations.
func floatApps(ts []*Term) (r []*Term) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		if t.op == OApp && (t.name == "float+" || t.name == "float*") && !t.hasBV {
			r = append(r, t)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return
}

var sem = make(chan struct{}, 8)

// discharge runs the portfolio on one obligation.
func (o *Obl) discharge(dir string, n int, secs int) {
	txt := o.text
	f := filepath.Join(dir, fmt.Sprintf("o%d.smt2", n))
	os.WriteFile(f, []byte(txt), 0o644)
	defer os.Remove(f)
	type job struct {
		b    backend
		file string
		tag  string
	}
	var jobs []job
	for _, b := range backends {
		jobs = append(jobs, job{b, f, ""})
	}
	if o.text2 != "" {
		f2 := filepath.Join(dir, fmt.Sprintf("o%dd.smt2", n))
		os.WriteFile(f2, []byte(o.text2), 0o644)
		defer os.Remove(f2)
		jobs = []job{{backends[0], f2, "+digits"}, {backends[1], f2, "+digits"}, {backends[2], f2, "+digits"}, {backends[0], f, ""}, {backends[1], f, ""}}
	}
	if o.text3 != "" {
		f3 := filepath.Join(dir, fmt.Sprintf("o%ds.smt2", n))
		os.WriteFile(f3, []byte(o.text3), 0o644)
		defer os.Remove(f3)
		jobs = append([]job{{backends[0], f3, "+subst"}}, jobs...)
		jobs = append(jobs, job{backends[1], f3, "+subst"})
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type res struct {
		by, out string
		secs    float64
	}
	ch := make(chan res, len(jobs))
	for _, jb := range jobs {
		b, f := jb.b, jb.file
		bname := b.name + jb.tag
		go func() {
			sem <- struct{}{}
			defer func() { <-sem }()
			if ctx.Err() != nil {
				ch <- res{bname, "cancelled", 0}
				return
			}
			t0 := time.Now()
			a := b.args(f, secs)
			c2, cn := context.WithTimeout(ctx, time.Duration(secs+2)*time.Second)
			defer cn()
			cmd := exec.CommandContext(c2, a[0], a[1:]...)
			out, _ := cmd.Output()
			ch <- res{bname, string(out), time.Since(t0).Seconds()}
		}()
	}
	o.state = "failed"
	o.msg = "unknown"
	for range jobs {
		r := <-ch
		o.secs += r.secs
		first := strings.TrimSpace(strings.SplitN(r.out, "\n", 2)[0])
		if first == "unsat" {
			o.state, o.by = "discharged", r.by
			return
		}
		if first == "sat" {
			o.msg = "sat (" + r.by + ")"
			o.by = r.by
			return
		}
		if strings.Contains(r.out, "error") && !strings.Contains(r.out, "timeout") && first != "unknown" {
			o.msg += "; " + r.by + ": " + trunc(r.out, 200)
		}
	}
}

func trunc(s string, n int) string {
	s = strings.TrimSpace(s)
	if len(s) > n {
		return s[:n]
	}
	return s
}

// modelOf asks z3 for a model of the negated obligation.
func (o *Obl) modelOf(dir string, secs int) string {
	f := filepath.Join(dir, "model.smt2")
	os.WriteFile(f, []byte(o.mtext), 0o644)
	defer os.Remove(f)
	out, _ := exec.Command("z3-new", fmt.Sprintf("-T:%d", secs), f).Output()
	if strings.HasPrefix(string(out), "sat") {
		return string(out)
	}
	return ""
}

func dischargeAll(obls []*Obl, dir string, secs int, deadline time.Time) {
	var wg sync.WaitGroup
	lim := make(chan struct{}, workers())
	for i, o := range obls {
		if o.state != "pending" {
			continue
		}
		o.text = o.script(false)
		if pc, g, ok := o.digits(); ok {
			o2 := &Obl{pc: pc, goal: g}
			o.text2 = o2.script(false)
		}
		if pc, g, ok := o.solveEqs(); ok {
			o2 := &Obl{pc: pc, goal: g}
			if g == True {
				o.state, o.by = "discharged", "simplifier"
				continue
			}
			o.text3 = o2.script(false)
		}
		o.mtext = o.script(true)
		wg.Add(1)
		go func(i int, o *Obl) {
			defer wg.Done()
			lim <- struct{}{}
			defer func() { <-lim }()
			if time.Now().After(deadline) {
				o.state, o.msg = "failed", "time budget exhausted"
				return
			}
			s := secs
			if r := int(time.Until(deadline).Seconds()); r < s {
				s = r
			}
			if s < 1 {
				s = 1
			}
			o.discharge(dir, i, s)
		}(i, o)
	}
	wg.Wait()
}
