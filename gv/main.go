package main

import (
	"go/types"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

var _ typeutil.Map

type oblJSON struct {
	Name    string  `json:"name"`
	Kind    string  `json:"kind"`
	Pos     string  `json:"pos"`
	State   string  `json:"state"`
	By      string  `json:"by"`
	Secs    float64 `json:"secs"`
	Msg     string  `json:"msg,omitempty"`
	Trivial bool    `json:"trivial"`
	Model   string  `json:"model,omitempty"`
}

type oneJSON struct {
	Spec      string    `json:"spec"`
	Obls      []oblJSON `json:"obls"`
	Error     string    `json:"error,omitempty"`
	Funcs     []string  `json:"funcs"`
	Contracts []string  `json:"contracts"`
	Trusted   []string  `json:"trusted"`
	Live      bool      `json:"live"`
	Covers    int       `json:"covers"`
	Secs      float64   `json:"secs"`
	SolverS   float64   `json:"solver_s"`
	Ints      []string  `json:"ints,omitempty"` // integers occurring in models: hints for the replay search
}

func newEx(l *Loaded) *Ex {
	x := &Ex{prog: l.prog, L: l,
		base: map[*Obj]Val{}, symCache: map[*Obj]Val{}, ropeDefs: map[string][]ropeDef{}, globals: map[*ssa.Global]*Obj{}, initDone: map[*ssa.Package]bool{},
		implCache: map[string][]types.Type{}, opts: map[string]string{}, funcsUsed: map[string]bool{}, contractsUsed: map[string]bool{},
		trusted: map[string]bool{}, recDefs: map[string]bool{}, factSet: map[*Term]bool{}, opaque: map[string]bool{},
		uninterp: map[string]*RecFn{}, transparent: map[string]bool{}, inlineOnly: map[string]bool{}, specOpaque: map[string]bool{}, recFuel: 1, constFuel: 300,
	}
	x.solver = newInc()
	return x
}

func verifyOne(l *Loaded, s *Spec, secs int, deadline time.Time) (r *oneJSON) {
	t0 := time.Now()
	x := newEx(l)
	defer x.solver.close()
	r = &oneJSON{Spec: s.Name}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if v, ok := e.(vfError); ok {
					r.Error = v.msg
				} else {
					r.Error = fmt.Sprintf("internal: %v", e)
					if os.Getenv("GV_DEBUG") != "" {
						fmt.Fprintf(os.Stderr, "%v\n%s\n", e, debug.Stack())
					}
				}
			}
		}()
		x.verify(s)
	}()
	dir, _ := os.MkdirTemp("", "gv")
	defer os.RemoveAll(dir)
	symx := time.Since(t0).Seconds()
	if r.Error == "" || os.Getenv("GV_KEEP") != "" {
		dischargeAll(x.obls, dir, secs, deadline)
	}
	if os.Getenv("GV_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "symbolic execution %.2fs, incremental solver %.2fs (%d queries), total %.2fs, steps %d\n", symx, x.solver.secs, x.solver.queries, time.Since(t0).Seconds(), x.steps)
	}
	seen := map[string]bool{}
	for i, o := range x.obls {
		j := oblJSON{Name: o.Name, Kind: o.Kind, Pos: o.Pos, State: o.state, By: o.by, Secs: o.secs, Msg: o.msg, Trivial: o.trivial}
		r.SolverS += o.secs
		if o.state == "failed" && len(seen) < 40 {
			if strings.HasPrefix(o.msg, "sat") {
				j.Model = trunc(o.modelOf(dir, 10), 20000)
				for _, n := range intsIn(j.Model) {
					if !seen[n] {
						seen[n] = true
						r.Ints = append(r.Ints, n)
					}
				}
			}
			if d := os.Getenv("GV_DUMP"); d != "" {
				os.MkdirAll(d, 0o755)
				os.WriteFile(filepath.Join(d, fmt.Sprintf("o%d.smt2", i)), []byte(o.text), 0o644)
				j.Msg += fmt.Sprintf(" [o%d.smt2]", i)
			}
		}
		r.Obls = append(r.Obls, j)
	}
	r.SolverS += x.solver.secs
	r.Funcs, r.Contracts, r.Trusted = keys(x.funcsUsed), keys(x.contractsUsed), keys(x.trusted)
	r.Live, r.Covers = x.anyLive, x.covers
	r.Secs = time.Since(t0).Seconds()
	return r
}

func intsIn(s string) []string {
	var r []string
	n := 0
	for i := 0; i < len(s) && n < 400; {
		c := s[i]
		if c >= '0' && c <= '9' && (i == 0 || !isWord(s[i-1])) {
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			if j == len(s) || !isWord(s[j]) {
				r = append(r, s[i:j])
				n++
			}
			i = j
			continue
		}
		i++
	}
	return r
}

func isWord(c byte) bool {
	return c == '_' || c == '.' || c == '!' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
}

func keys(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func main() {
	if v := os.Getenv("GV_REPO"); v != "" {
		repoDir = v
	}
	if v := os.Getenv("GV_CONTRACTS"); v != "" {
		contractsDir = v
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gv list | one SPEC | dev SPEC... | check PROP TIER")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		l, err := load()
		die(err)
		for _, s := range l.specs {
			fmt.Println(s.Name, s.Props, s.Targets, s.Opts)
		}
		for f, e := range l.dropped {
			fmt.Println("DROPPED", f, e)
		}
	case "one":
		l, err := load()
		die(err)
		s := l.spec(os.Args[2])
		if s == nil {
			fmt.Fprintln(os.Stderr, "no such spec")
			os.Exit(2)
		}
		secs := 20
		if len(os.Args) > 3 {
			fmt.Sscan(os.Args[3], &secs)
		}
		budget := 600
		if len(os.Args) > 4 {
			fmt.Sscan(os.Args[4], &budget)
		}
		r := verifyOne(l, s, secs, time.Now().Add(time.Duration(budget)*time.Second))
		b, _ := json.Marshal(r)
		os.Stdout.Write(b)
	case "dev":
		l, err := load()
		die(err)
		for f, e := range l.dropped {
			fmt.Println("DROPPED", f, e)
		}
		secs := 10
		if v := os.Getenv("GV_SECS"); v != "" {
			fmt.Sscan(v, &secs)
		}
		for _, pat := range os.Args[2:] {
			for _, s := range l.specs {
				if ok, _ := filepath.Match(pat, s.Name); !ok && !hasProp(s, pat) {
					continue
				}
				if len(os.Args) > 3 || strings.ContainsAny(pat, "*") || hasProp(s, pat) {
					self, _ := os.Executable()
					c := exec.Command(self, "one", s.Name, fmt.Sprint(secs), "3600")
					c.Stderr = os.Stderr
					out, _ := c.Output()
					r := &oneJSON{Spec: s.Name}
					if len(out) == 0 {
						r.Error = "no output"
					}
					json.Unmarshal(out, r)
					devPrint(r)
				} else {
					devPrint(verifyOne(l, s, secs, time.Now().Add(time.Hour)))
				}
			}
		}
	case "check":
		os.Exit(check(os.Args[2], os.Args[3]))
	case "drive":
		os.Exit(searchCmd(os.Args[2:]))
	default:
		os.Exit(2)
	}
}

func resetGlobals() {
	symObjs = map[string]*Obj{}
}

func hasProp(s *Spec, p string) bool {
	for _, q := range s.Props {
		if q == p {
			return true
		}
	}
	return false
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func devPrint(r *oneJSON) {
	n, ok := 0, 0
	for _, o := range r.Obls {
		n++
		if o.State == "discharged" {
			ok++
		}
		if o.State != "discharged" || os.Getenv("GV_ALL") != "" {
			fmt.Printf("  %-11s %-60s %s %s %.2fs %s\n", o.State, o.Name, o.Pos, o.By, o.Secs, o.Msg)
			if os.Getenv("GV_MODEL") != "" {
				fmt.Println(o.Model)
			}
		}
	}
	fmt.Printf("%s: %d/%d obligations, live=%v covers=%d, %.1fs (solver %.1fs)", r.Spec, ok, n, r.Live, r.Covers, r.Secs, r.SolverS)
	if r.Error != "" {
		fmt.Printf(" ERROR %s", r.Error)
	}
	fmt.Println()
	if os.Getenv("GV_TRUST") != "" {
		for _, t := range r.Trusted {
			fmt.Println("   trusted:", t)
		}
		fmt.Println("   funcs:", strings.Join(r.Funcs, " "))
	}
}
