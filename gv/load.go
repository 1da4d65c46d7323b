package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = "/repo"
var contractsDir = "/verif/contracts"

const modPath = "github.com/r3volut1oner/go-karbo"
const vfPath = modPath + "/internal/vf"

type Spec struct {
	Name    string // pkg.Spec_x
	Fn      *ssa.Function
	Props   []string
	Targets []string
	Opts    map[string]string
	File    string
	Doc     string
	Pkg     string
}

type Loaded struct {
	prog          *ssa.Program
	pkgs          []*packages.Package
	repo          map[*ssa.Package]bool
	specs         []*Spec
	byTarget      map[string]*Spec
	invs          map[string]*ssa.Function
	models        map[string]*ssa.Function
	opaqueSet     map[string]bool
	recFns        map[*ssa.Function]bool
	mutable       map[*ssa.Global]bool
	namedTypes    []types.Type
	dropped       map[string]string // contract file -> error
	funcs         map[string]*ssa.Function
	contractFiles []string
}

func norm(name string) string { return strings.ReplaceAll(name, modPath+"/", "") }

func (l *Loaded) isRepoPath(p string) bool {
	return p == modPath || strings.HasPrefix(p, modPath+"/")
}

// overlayFiles maps /repo paths to contract files.
func overlayFiles() map[string]string {
	r := map[string]string{}
	filepath.Walk(contractsDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(contractsDir, p)
		dir, base := filepath.Split(rel)
		if strings.HasPrefix(dir, "internal/vf") {
			r[filepath.Join(repoDir, rel)] = p
		} else {
			r[filepath.Join(repoDir, dir, "zz_vf_"+base)] = p
		}
		return nil
	})
	return r
}

func cgoOverlay() (string, []byte) {
	f := filepath.Join(repoDir, "config/network.go")
	b, err := os.ReadFile(f)
	if err != nil {
		return "", nil
	}
	s := string(b)
	if !strings.Contains(s, "import \"C\"") && !strings.Contains(s, "\"C\"\n") {
		return "", nil
	}
	s = strings.Replace(s, "import \"C\"", "", 1)
	s = strings.Replace(s, "\t\"C\"\n", "\n", 1)
	return f, []byte(s)
}

func load() (*Loaded, error) {
	files := overlayFiles()
	dropped := map[string]string{}
	for try := 0; try < 12; try++ {
		ov := map[string][]byte{}
		for dst, src := range files {
			if _, bad := dropped[src]; bad {
				continue
			}
			b, err := os.ReadFile(src)
			if err != nil {
				return nil, err
			}
			ov[dst] = b
		}
		if f, b := cgoOverlay(); f != "" {
			ov[f] = b
		}
		env := append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=readonly -buildvcs=false", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
		cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repoDir, Overlay: ov, Env: env}
		ps, err := packages.Load(cfg, "./...")
		if err != nil {
			return nil, err
		}
		bad := 0
		var fatal []string
		for _, p := range ps {
			for _, e := range p.Errors {
				pos := e.Pos
				file := pos
				if i := strings.Index(pos, ":"); i > 0 {
					file = pos[:i]
				}
				if src, ok := files[file]; ok && !strings.Contains(file, "internal/vf/") {
					if _, done := dropped[src]; !done {
						dropped[src] = e.Error()
						bad++
					}
					continue
				}
				fatal = append(fatal, e.Error())
			}
		}
		if bad > 0 {
			continue
		}
		if len(fatal) > 0 {
			return nil, fmt.Errorf("repository does not type-check: %s", strings.Join(fatal, "; "))
		}
		l := &Loaded{pkgs: ps, dropped: dropped}
		l.build(files)
		return l, nil
	}
	return nil, fmt.Errorf("contracts do not load: %v", dropped)
}

func (l *Loaded) build(files map[string]string) {
	prog, spkgs := ssautil.Packages(l.pkgs, ssa.GlobalDebug|ssa.InstantiateGenerics)
	prog.Build()
	l.prog = prog
	l.repo = map[*ssa.Package]bool{}
	l.byTarget = map[string]*Spec{}
	l.invs = map[string]*ssa.Function{}
	l.models = map[string]*ssa.Function{}
	l.opaqueSet = map[string]bool{}
	l.recFns = map[*ssa.Function]bool{}
	l.mutable = map[*ssa.Global]bool{}
	l.funcs = map[string]*ssa.Function{}
	for _, p := range spkgs {
		if p != nil {
			l.repo[p] = true
		}
	}
	isContract := map[string]bool{}
	for d := range files {
		isContract[d] = true
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg == nil || !l.repo[f.Pkg] {
			continue
		}
		l.funcs[norm(f.String())] = f
		if f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					g := rootGlobal(s.Addr)
					if g == nil { // its address is kept, so that it may be written through it
						if _, ok := s.Val.Type().Underlying().(*types.Pointer); ok {
							g = rootGlobal(s.Val)
						}
					}
					if g != nil && f.Name() != "init" {
						l.mutable[g] = true
					}
				}
			}
		}
	}
	for i, p := range l.pkgs {
		sp := spkgs[i]
		if sp == nil {
			continue
		}
		for _, f := range p.Syntax {
			name := p.Fset.Position(f.Pos()).Filename
			if !isContract[name] || strings.Contains(name, "/internal/vf/") {
				continue
			}
			l.contractFiles = append(l.contractFiles, files[name])
			for _, cg := range f.Comments {
				for _, c := range cg.List {
					if t := strings.TrimPrefix(c.Text, "//vf:opaque "); t != c.Text {
						l.opaqueSet[denorm(strings.TrimSpace(t))] = true
					}
					if t := strings.TrimPrefix(c.Text, "//vf:open "); t != c.Text {
						l.opaqueSet["open "+strings.TrimSpace(t)] = true
					}
				}
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				fn := sp.Func(fd.Name.Name)
				if fn == nil {
					continue
				}
				if strings.HasPrefix(fn.Name(), "Inv_") {
					l.invs[strings.TrimPrefix(fn.Name(), "Inv_")] = fn
				}
				if strings.HasPrefix(fn.Name(), "Cases_") {
					l.invs["cases "+strings.TrimPrefix(fn.Name(), "Cases_")] = fn
				}
				if callsSelf(fn) {
					l.recFns[fn] = true
				}
				if fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if t := strings.TrimPrefix(c.Text, "//vf:spec "); t != c.Text {
						s := &Spec{Name: p.Name + "." + fd.Name.Name, Fn: fn, Opts: map[string]string{}, File: files[name], Pkg: p.PkgPath}
						for _, kv := range strings.Fields(t) {
							k, v := kv, "1"
							if j := strings.Index(kv, "="); j > 0 {
								k, v = kv[:j], kv[j+1:]
							}
							switch k {
							case "prop":
								s.Props = strings.Split(v, ",")
							case "target":
								s.Targets = strings.Split(v, ";")
							default:
								s.Opts[k] = v
							}
						}
						l.specs = append(l.specs, s)
					}
					if t := strings.TrimPrefix(c.Text, "//vf:model "); t != c.Text {
						l.models[denorm(strings.TrimSpace(t))] = fn
					}
				}
			}
		}
		// named types
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if isContract[p.Fset.Position(tn.Pos()).Filename] {
					continue
				}
				if _, isI := tn.Type().Underlying().(*types.Interface); !isI {
					l.namedTypes = append(l.namedTypes, tn.Type())
				}
			}
		}
	}
	sort.Slice(l.specs, func(i, j int) bool { return l.specs[i].Name < l.specs[j].Name })
	for _, s := range l.specs {
		if s.Opts["contract"] == "1" {
			for _, t := range s.Targets {
				l.byTarget[t] = s
			}
		}
	}
}

// denorm: expand short names ("utils.F", "(*crypto.Key).Bytes") to ssa names
func denorm(s string) string {
	if strings.HasPrefix(s, "invoke ") || strings.Contains(s, modPath) {
		return s
	}
	pre := ""
	rest := s
	for strings.HasPrefix(rest, "(") || strings.HasPrefix(rest, "*") {
		pre += rest[:1]
		rest = rest[1:]
	}
	for _, d := range []string{"utils", "crypto", "crypto/base58", "crypto/edwards25519", "cryptonote", "config", "p2p", "encoding/binary", "cmd"} {
		if strings.HasPrefix(rest, d+".") {
			if d == "encoding/binary" && isStdBinary(rest) {
				break
			}
			return pre + modPath + "/" + rest
		}
	}
	return s
}

func isStdBinary(rest string) bool { return false }

func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch q := v.(type) {
		case *ssa.Global:
			return q
		case *ssa.FieldAddr:
			v = q.X
		case *ssa.IndexAddr:
			v = q.X
		default:
			return nil
		}
	}
}

func callsSelf(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f == fn {
					return true
				}
			}
		}
	}
	return false
}

func (l *Loaded) contractFor(fn *ssa.Function) *Spec { return l.byTarget[norm(fn.String())] }

func (l *Loaded) spec(name string) *Spec {
	for _, s := range l.specs {
		if s.Name == name {
			return s
		}
	}
	return nil
}

var usedAsCache = map[string][]types.Type{}

// usedAs: the concrete types that anything in the program converts to the interface type T or asserts of it.
func (l *Loaded) usedAs(T types.Type) []types.Type {
	k := T.String()
	if r, ok := usedAsCache[k]; ok {
		return r
	}
	set := map[string]types.Type{}
	for f := range ssautil.AllFunctions(l.prog) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MakeInterface:
					if types.Identical(in.Type(), T) {
						set[in.X.Type().String()] = in.X.Type()
					}
				case *ssa.TypeAssert:
					if _, isI := in.AssertedType.Underlying().(*types.Interface); !isI && types.Identical(in.X.Type(), T) {
						set[in.AssertedType.String()] = in.AssertedType
					}
				}
			}
		}
	}
	var names []string
	for n := range set {
		names = append(names, n)
	}
	sort.Strings(names)
	r := []types.Type{}
	for _, n := range names {
		r = append(r, set[n])
	}
	usedAsCache[k] = r
	return r
}
