package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func workers() int {
	if v := os.Getenv("GV_WORKERS"); v != "" {
		n, _ := strconv.Atoi(v)
		if n > 0 {
			return n
		}
	}
	return 4
}

type finding struct {
	prop, obl, text string
	printed         bool
}

func verifDir() string { return filepath.Dir(contractsDir) }

func readFindings(prop string) []*finding {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	var r []*finding
	re := regexp.MustCompile(`^finding: property=(\S+) obligation=(\S+) (.*)$`)
	for _, ln := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(ln)); m != nil && m[1] == prop {
			r = append(r, &finding{m[1], m[2], m[3], false})
		}
	}
	return r
}

type specRun struct {
	spec   *Spec
	one    *oneJSON
	stderr string
	fails  []oblJSON // failing obligations not listed as known findings
	replay string
	conc   bool
	res    *driveResult
}

type driveResult struct {
	Spec    string
	Runs    int64
	Skipped int64
	Fail    string
	Iter    int64
	Args    string
	Stack   string
	Cmd     string `json:"-"`
}

func check(prop, tier string) int {
	t0 := time.Now()
	seed := 1
	if v := os.Getenv("VERIF_SEED"); v != "" {
		seed, _ = strconv.Atoi(v)
	}
	secs, budget, par := 15, 360, 4
	driveSecs := 40
	if tier == "thorough" {
		secs, budget, driveSecs = 60, 1500, 240
	}
	l, err := load()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	finds := readFindings(prop)
	known := func(obl string) *finding {
		for _, f := range finds {
			if f.obl == obl {
				return f
			}
		}
		return nil
	}
	var runs []*specRun
	var bounded []*specRun
	for _, s := range l.specs {
		if !hasProp(s, prop) {
			continue
		}
		if s.Opts["bounded"] != "" {
			bounded = append(bounded, &specRun{spec: s})
		} else if s.Opts["tier"] == "" || s.Opts["tier"] == tier {
			runs = append(runs, &specRun{spec: s})
		}
	}
	var droppedMsgs []string
	for f, e := range l.dropped {
		b, _ := os.ReadFile(f)
		if regexp.MustCompile(`//vf:spec [^\n]*prop=(\S*,)?` + prop + `[\s,]`).Match(b) {
			droppedMsgs = append(droppedMsgs, fmt.Sprintf("contract file %s no longer type-checks against the code: %s", filepath.Base(f), e))
		}
	}
	if len(runs)+len(bounded)+len(droppedMsgs) == 0 {
		fmt.Fprintln(os.Stderr, "no contracts for property", prop)
		return 2
	}
	self, _ := os.Executable()
	var wg sync.WaitGroup
	lim := make(chan struct{}, par)
	for _, r := range runs {
		wg.Add(1)
		go func(r *specRun) {
			defer wg.Done()
			lim <- struct{}{}
			defer func() { <-lim }()
			c := exec.Command("timeout", "-k", "5", strconv.Itoa(budget+60), self, "one", r.spec.Name, strconv.Itoa(secs), strconv.Itoa(budget))
			c.Env = append(os.Environ(), "GV_WORKERS=3", "GOMEMLIMIT=5GiB")
			var out, er bytes.Buffer
			c.Stdout, c.Stderr = &out, &er
			err := c.Run()
			r.one = &oneJSON{}
			if json.Unmarshal(out.Bytes(), r.one) != nil {
				r.one = &oneJSON{Spec: r.spec.Name, Error: fmt.Sprintf("verifier did not finish: %v %s", err, trunc(er.String(), 300))}
			}
		}(r)
	}
	wg.Wait()
	// classify
	nObl, nDis := 0, 0
	by := map[string]int{}
	var solverS float64
	trusted, funcs, contracts := map[string]bool{}, map[string]bool{}, map[string]bool{}
	perSpec := []map[string]interface{}{}
	var failing []*specRun
	names := map[string]bool{}
	for _, r := range runs {
		o := r.one
		add := func(kind, msg string) {
			n := r.spec.Name + "/" + kind
			if f := known(n); f != nil {
				if !f.printed {
					f.printed = true
					fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", prop, f.text, n)
				}
				return
			}
			r.fails = append(r.fails, oblJSON{Name: n, Kind: kind, State: "failed", Msg: msg})
		}
		d := 0
		for _, b := range o.Obls {
			nObl++
			names[b.Name] = true
			if b.State == "discharged" {
				nDis++
				d++
				by[b.By]++
				continue
			}
			if f := known(b.Name); f != nil {
				nObl--
				if !f.printed {
					f.printed = true
					fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", prop, f.text, b.Name)
				}
				continue
			}
			r.fails = append(r.fails, b)
		}
		if o.Error != "" {
			nObl++
			add("engine", "the verifier cannot process the current code: "+o.Error)
		} else if !o.Live && len(r.fails) == 0 {
			nObl++
			add("vacuous", "no execution reaches the postcondition")
		}
		for _, t := range o.Trusted {
			trusted[t] = true
		}
		for _, t := range o.Funcs {
			funcs[norm(t)] = true
		}
		for _, t := range o.Contracts {
			contracts[t] = true
		}
		solverS += o.SolverS
		perSpec = append(perSpec, map[string]interface{}{"contract": r.spec.Name, "targets": r.spec.Targets, "obligations": len(o.Obls), "discharged": d, "seconds": round(o.Secs), "covers": o.Covers, "uses_contracts": o.Contracts})
		if len(r.fails) > 0 {
			failing = append(failing, r)
		}
	}
	// bounded stand-ins (labelled, never counted as proved)
	boundedInfo := []map[string]interface{}{}
	drv := newDriver(l)
	defer drv.close()
	for _, r := range bounded {
		n, _ := strconv.Atoi(r.spec.Opts["bounded"])
		if tier == "thorough" {
			n *= 20
		}
		res := drv.run(r.spec, nil, seed, 60, n, false)
		if res == nil {
			r.fails = append(r.fails, oblJSON{Name: r.spec.Name + "/bounded", Kind: "bounded", Msg: "the bounded harness did not build or run: " + drv.err})
		} else {
			boundedInfo = append(boundedInfo, map[string]interface{}{"contract": r.spec.Name, "targets": r.spec.Targets, "cases": res.Runs, "skipped": res.Skipped, "bound": fmt.Sprintf("%d generated inputs", n)})
			if res.Fail != "" {
				r.fails = append(r.fails, oblJSON{Name: r.spec.Name + "/bounded", Kind: "bounded", Msg: res.Fail})
				r.res, r.conc = res, true
			} else if res.Runs == 0 {
				r.fails = append(r.fails, oblJSON{Name: r.spec.Name + "/bounded", Kind: "bounded", Msg: "no input satisfied the precondition"})
			}
		}
		if len(r.fails) > 0 {
			failing = append(failing, r)
		}
	}
	// replay
	if len(failing) > 0 {
		left := 700 - int(time.Since(t0).Seconds())
		if tier == "thorough" {
			left = 3000
		}
		rounds := (len(failing) + 5) / 6
		ds := driveSecs
		if ds*rounds > left-60 {
			ds = (left - 60) / rounds
		}
		if ds < 3 {
			ds = 3
		}
		drv.prepare(failing)
		lim := make(chan struct{}, 6)
		for _, r := range failing {
			if r.conc {
				continue
			}
			wg.Add(1)
			go func(r *specRun) {
				defer wg.Done()
				lim <- struct{}{}
				defer func() { <-lim }()
				res := drv.run(r.spec, r.one, seed, ds, 0, true)
				if res != nil && res.Fail != "" {
					r.res, r.conc = res, true
				}
			}(r)
		}
		wg.Wait()
	}
	rdir := filepath.Join(verifDir(), "evidence", "replay")
	os.MkdirAll(rdir, 0o755)
	viol := 0
	for i, r := range failing {
		viol++
		f := filepath.Join(rdir, fmt.Sprintf("%s-%s.txt", prop, r.spec.Fn.Name()))
		os.WriteFile(f, []byte(replayText(l, prop, r)), 0o644)
		suffix := ""
		if !r.conc {
			suffix = " no-failing-input-found"
		}
		fmt.Printf("failed obligation: %s (%s)\n", r.fails[0].Name, trunc(r.fails[0].Msg, 200))
		if r.conc {
			fmt.Printf("failing input: %s: %s\n", r.spec.Name, trunc(r.res.Fail, 200))
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, f, suffix)
		_ = i
	}
	for i, m := range droppedMsgs {
		viol++
		nObl++
		f := filepath.Join(rdir, fmt.Sprintf("%s-contract-%d.txt", prop, i))
		os.WriteFile(f, []byte(m+"\n"), 0o644)
		fmt.Printf("failed obligation: %s\n", m)
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, f)
	}
	// evidence
	level := "proof"
	assumptions := append([]string{}, baseAssumptions...)
	for _, t := range keys(trusted) {
		assumptions = append(assumptions, "trusted: "+t)
	}
	cov := map[string]interface{}{
		"obligations": nObl, "discharged": nDis, "distinct_obligation_names": len(names),
		"checker_cmd":                "gv check " + prop + " " + tier + " (z3 4.8.12, z3 5.3.2, cvc5 1.1.2)",
		"trusted_base":               append([]string{"gv symbolic executor over go/ssa of the current source", "z3", "cvc5"}, keys(trusted)...),
		"functions_under_contract":   keys(funcs),
		"contracts_used_at_calls":    keys(contracts),
		"discharged_by":              by,
		"solver_seconds":             round(solverS),
		"contracts":                  perSpec,
		"bounded_standins":           boundedInfo,
		"extraction_drops":           "import \"C\" of config/network.go (unused by the code) is removed for analysis; nothing else",
		"known_findings_not_counted": len(finds),
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions, "wall_s": round(time.Since(t0).Seconds()), "violations": viol}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verifDir(), "evidence", prop+".json"), append(b, '\n'), 0o644)
	fmt.Printf("property %s: %d contracts, %d/%d obligations discharged, %d bounded stand-ins, %d violations, %.1fs\n", prop, len(runs), nDis, nObl, len(bounded), viol, time.Since(t0).Seconds())
	if viol > 0 {
		return 1
	}
	return 0
}

var baseAssumptions = []string{
	"slices, strings and maps handed to a function have at most 2^40 elements",
	"distinct pointer/slice/map parameters do not alias unless the contract says so; append to a slice of unknown capacity is treated as a copy",
	"partial correctness: termination is not proved (no loop is assumed to run 2^61 iterations)",
	"sequential semantics per function: no other goroutine changes the state between a function's steps (lock obligations are checked separately)",
	"allocation succeeds unless a contract bounds it",
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func replayText(l *Loaded, prop string, r *specRun) string {
	var b strings.Builder
	fmt.Fprintf(&b, "property %s\ncontract %s (%s) of %s\n\n", prop, r.spec.Name, r.spec.File, strings.Join(r.spec.Targets, ", "))
	if r.conc {
		fmt.Fprintf(&b, "FAILING INPUT on the real code: %s\n%s\n%s\nreproduce: %s\n\n", r.res.Fail, r.res.Args, r.res.Stack, r.res.Cmd)
	} else {
		fmt.Fprintf(&b, "no failing input found by the replay search\n\n")
	}
	for _, o := range r.fails {
		fmt.Fprintf(&b, "failed obligation %s at %s: %s\n", o.Name, o.Pos, o.Msg)
		if o.Model != "" {
			fmt.Fprintf(&b, "solver model:\n%s\n", trunc(o.Model, 4000))
		}
	}
	return b.String()
}

// ---- concrete replay driver ----

type driver struct {
	l    *Loaded
	dir  string
	bins map[string]string
	mu   sync.Mutex
	err  string
}

func newDriver(l *Loaded) *driver { return &driver{l: l, bins: map[string]string{}} }

func (d *driver) close() {
	if d.dir != "" {
		os.RemoveAll(d.dir)
	}
}

func (d *driver) tmp() string {
	if d.dir == "" {
		d.dir, _ = os.MkdirTemp("", "gvdrive")
	}
	return d.dir
}

func (d *driver) prepare(rs []*specRun) {
	for _, r := range rs {
		d.bin(r.spec.Pkg)
	}
}

func goEnv() []string {
	return append(os.Environ(), "CGO_ENABLED=1", "GOFLAGS=-mod=readonly -buildvcs=false", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
}

// bin builds the replay binary for a package: the package's own sources, the contracts and a
// generated test entry, through an overlay.
func (d *driver) bin(pkg string) string {
	d.mu.Lock()
	defer d.mu.Unlock()
	if b, ok := d.bins[pkg]; ok {
		return b
	}
	d.bins[pkg] = ""
	if len(d.l.dropped) > 0 {
		// some generators may be missing: inputs found without them may be senseless
		d.err = "some contract files no longer type-check"
		return ""
	}
	dir := d.tmp()
	var sp *ssa.Package
	for p := range d.l.repo {
		if p.Pkg.Path() == pkg {
			sp = p
		}
	}
	if sp == nil {
		return ""
	}
	rel := strings.TrimPrefix(strings.TrimPrefix(pkg, modPath), "/")
	var specs, gens, tgens []string
	for n, m := range sp.Members {
		f, ok := m.(*ssa.Function)
		if !ok {
			continue
		}
		switch {
		case strings.HasPrefix(n, "Spec_"):
			specs = append(specs, fmt.Sprintf("%q: %s", n, n))
		case strings.HasPrefix(n, "GenT_"):
			tgens = append(tgens, n)
		case strings.HasPrefix(n, "Gen_"):
			gens = append(gens, fmt.Sprintf("%q: %s", n, n))
		}
		_ = f
	}
	var impls []string
	sc := sp.Pkg.Scope()
	for _, in := range sc.Names() {
		it, ok := sc.Lookup(in).(*types.TypeName)
		if !ok || it.IsAlias() {
			continue
		}
		iface, ok := it.Type().Underlying().(*types.Interface)
		if !ok || iface.NumMethods() == 0 {
			continue
		}
		for _, T := range d.l.namedTypes {
			n, ok := T.(*types.Named)
			if !ok || n.Obj().Pkg() != sp.Pkg || n.Obj().Parent() != sc {
				continue
			}
			if types.Implements(T, iface) {
				impls = append(impls, "*new("+n.Obj().Name()+")")
			} else if types.Implements(types.NewPointer(T), iface) {
				impls = append(impls, "new("+n.Obj().Name()+")")
			}
		}
	}
	for _, s := range [][]string{specs, gens, tgens, impls} {
		sort.Strings(s)
	}
	src := "package " + sp.Pkg.Name() + "\n\nimport (\n\t\"testing\"\n\n\t\"" + vfPath + "\"\n)\n\nfunc TestZZVFDrive(t *testing.T) {\n\tvf.Drive(map[string]interface{}{\n" +
		strings.Join(specs, ",\n") + ",\n}, map[string]interface{}{" + joinTrail(gens) + "}, []interface{}{" + strings.Join(tgens, ", ") + "}, []interface{}{" + strings.Join(impls, ", ") + "})\n}\n"
	id := strings.ReplaceAll(rel, "/", "_")
	tf := filepath.Join(dir, id+"_drive_test.go")
	os.WriteFile(tf, []byte(src), 0o644)
	rep := map[string]string{}
	for dst, s := range overlayFiles() {
		if _, bad := d.l.dropped[s]; !bad {
			rep[dst] = s
		}
	}
	rep[filepath.Join(repoDir, rel, "zz_vf_drive_test.go")] = tf
	// the package's own tests are not needed
	ms, _ := filepath.Glob(filepath.Join(repoDir, rel, "*_test.go"))
	for _, m := range ms {
		rep[m] = ""
	}
	jb, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ovf := filepath.Join(dir, id+"_overlay.json")
	os.WriteFile(ovf, jb, 0o644)
	out := filepath.Join(dir, id+".test")
	c := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", out, "./"+rel)
	c.Dir = repoDir
	c.Env = goEnv()
	if o, err := c.CombinedOutput(); err != nil {
		d.err = trunc(string(o), 500)
		fmt.Fprintln(os.Stderr, "replay driver for", rel, "does not build:", d.err)
		return ""
	}
	d.bins[pkg] = out
	return out
}

func joinTrail(s []string) string {
	if len(s) == 0 {
		return ""
	}
	return strings.Join(s, ",\n") + ",\n"
}

// run drives one contract: for at most secs seconds or count inputs.
func (d *driver) run(s *Spec, one *oneJSON, seed, secs, count int, fromModel bool) *driveResult {
	bin := d.bin(s.Pkg)
	if bin == "" {
		return nil
	}
	work, _ := os.MkdirTemp(d.tmp(), "run")
	hints := filepath.Join(work, "hints")
	os.WriteFile(hints, []byte(strings.Join(d.hints(s, one), "\n")), 0o644)
	runOnce := func(from, cnt int64, describe bool, secs int) (*driveResult, string, bool) {
		out, prog := filepath.Join(work, "out"), filepath.Join(work, "prog")
		os.Remove(out)
		env := []string{"VF_SPEC=" + s.Fn.Name(), "VF_TARGETS=" + targetNames(s), fmt.Sprintf("VF_SEED=%d", seed), fmt.Sprintf("VF_SECS=%d", secs), "VF_HINTS=" + hints, "VF_OUT=" + out, "VF_PROGRESS=" + prog, fmt.Sprintf("VF_FROM=%d", from)}
		if cnt > 0 {
			env = append(env, fmt.Sprintf("VF_COUNT=%d", cnt))
		}
		if describe {
			env = append(env, "VF_DESCRIBE=1")
		}
		if v := s.Opts["alloc"]; v != "" {
			env = append(env, "VF_ALLOC="+v)
		}
		c := exec.Command("bash", "-c", "ulimit -v 12000000; exec timeout -k 2 "+strconv.Itoa(secs+30)+" "+bin+" -test.run TestZZVFDrive -test.timeout 0")
		c.Dir = work
		c.Env = append(goEnv(), env...)
		c.Env = append(c.Env, "GOMAXPROCS=2", "GOTRACEBACK=all")
		o, err := c.CombinedOutput()
		b, _ := os.ReadFile(out)
		r := &driveResult{}
		lines := strings.Split(strings.TrimSpace(string(b)), "\n")
		ok := json.Unmarshal([]byte(lines[len(lines)-1]), r) == nil
		if !ok {
			pb, _ := os.ReadFile(prog)
			n, _ := strconv.ParseInt(strings.TrimSpace(string(pb)), 10, 64)
			r = &driveResult{Iter: n}
		}
		_ = err
		return r, string(o), ok
	}
	r, text, ok := runOnce(0, int64(count), false, secs)
	if !ok {
		// the process died: the last started iteration is the failing one
		if !strings.Contains(text, "fatal error") && !strings.Contains(text, "panic") && !strings.Contains(text, "signal") {
			d.err = trunc(text, 300)
			return nil
		}
		it := r.Iter
		desc, _, _ := runOnce(it, 1, true, 20)
		r = &driveResult{Spec: s.Name, Runs: it, Fail: "the process dies: " + firstLine(text), Iter: it, Args: desc.Args, Stack: trunc(text, 3000)}
	}
	r.Cmd = fmt.Sprintf("gv drive %s %d %d", s.Name, seed, r.Iter)
	return r
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal error") || strings.Contains(l, "panic") || strings.Contains(l, "signal") {
			return l
		}
	}
	return trunc(s, 100)
}

// hints: integers from solver models and constants in the functions the proof went through.
func (d *driver) hints(s *Spec, one *oneJSON) []string {
	seen := map[string]bool{}
	var r []string
	add := func(n string) {
		if !seen[n] && len(r) < 400 {
			seen[n] = true
			r = append(r, n)
		}
	}
	if one != nil {
		for _, n := range one.Ints {
			if len(r) < 200 {
				add(n)
			}
		}
	}
	var consts []string
	visit := func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if c, ok := (*op).(*ssa.Const); ok && c.Value != nil {
						if _, isInt := intType(c.Type()); isInt {
							if n, ok := new(big.Int).SetString(c.Value.ExactString(), 10); ok {
								consts = append(consts, n.String())
							}
						}
					}
				}
			}
		}
	}
	done := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function, depth int)
	rec = func(f *ssa.Function, depth int) {
		if done[f] || depth > 4 || f.Pkg == nil || !d.l.repo[f.Pkg] || strings.Contains(f.Pkg.Pkg.Path(), "edwards25519") || f.Pkg.Pkg.Path() == vfPath {
			return
		}
		done[f] = true
		visit(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						rec(g, depth+1)
					}
				}
				if mk, ok := in.(*ssa.MakeClosure); ok {
					rec(mk.Fn.(*ssa.Function), depth+1)
				}
			}
		}
	}
	rec(s.Fn, 0)
	for _, f := range s.Fn.AnonFuncs {
		rec(f, 1)
	}
	sort.Strings(consts)
	for _, c := range consts {
		add(c)
	}
	return r
}

// searchCmd: gv drive SPEC|PROP [secs] — run contracts on concrete inputs (development aid and
// reproduction: gv drive SPEC SEED ITER).
func searchCmd(a []string) int {
	l, err := load()
	die(err)
	for f, e := range l.dropped {
		fmt.Println("DROPPED", f, e)
	}
	d := newDriver(l)
	defer d.close()
	rc := 0
	secs := 5
	if len(a) == 2 {
		secs, _ = strconv.Atoi(a[1])
	}
	for _, s := range l.specs {
		if ok, _ := filepath.Match(a[0], s.Name); !ok && !hasProp(s, a[0]) {
			continue
		}
		if len(a) == 3 {
			seed, _ := strconv.Atoi(a[1])
			it, _ := strconv.Atoi(a[2])
			bin := d.bin(s.Pkg)
			c := exec.Command(bin, "-test.run", "TestZZVFDrive", "-test.timeout", "0")
			out := filepath.Join(d.tmp(), "o")
			hints := filepath.Join(d.tmp(), "hints")
			os.WriteFile(hints, []byte(strings.Join(d.hints(s, nil), "\n")), 0o644)
			c.Env = append(goEnv(), "VF_SPEC="+s.Fn.Name(), "VF_TARGETS="+targetNames(s), fmt.Sprintf("VF_SEED=%d", seed), fmt.Sprintf("VF_FROM=%d", it), "VF_COUNT=1", "VF_OUT="+out, "VF_HINTS="+hints, "VF_PROGRESS="+out+"p", "VF_DEBUG=1")
			o, _ := c.CombinedOutput()
			b, _ := os.ReadFile(out)
			fmt.Println(string(o), string(b))
			continue
		}
		r := d.run(s, nil, 1, secs, 0, false)
		if r == nil {
			fmt.Println(s.Name, "driver failed:", d.err)
			rc = 1
			continue
		}
		fmt.Printf("%s: %d runs, %d skipped", s.Name, r.Runs, r.Skipped)
		if r.Fail != "" {
			fmt.Printf(" FAIL %s\n%s\n%s\n%s", r.Fail, r.Args, r.Stack, r.Cmd)
			rc = 1
		}
		fmt.Println()
	}
	return rc
}

// targetNames: the last names of the functions under contract, as they end in a stack trace.
func targetNames(s *Spec) string {
	var r []string
	for _, t := range s.Targets {
		r = append(r, t[strings.LastIndex(t, ".")+1:])
	}
	return strings.Join(r, ";")
}
