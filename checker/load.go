package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/scouter-contrib/scouter-agent-golang"
const rootPkg = modPath + "/scouterx"

// World is the analysed program: the type-checked packages of /repo and their dependencies in SSA form.
type World struct {
	Repo  string
	Prog  *ssa.Program
	Pkgs  []*packages.Package // repository packages only
	ByPth map[string]*packages.Package
	SSA   map[string]*ssa.Package
	Funcs []*ssa.Function // every repository function with a body (incl. closures)

	// filled in by gostart.go on first use
	callSites map[*ssa.Function][]ssa.CallInstruction
	bindings  map[*ssa.Function][]*ssa.MakeClosure
	stores    map[string][]*ssa.Store
	starts    []goStart
}

// listNames: print the names known instead of analysing.
var listNames bool

func loadWorld(repo string) (*World, error) {
	tmp, err := os.MkdirTemp("", "verifmod")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(tmp, f), b, 0644); err != nil {
			return nil, err
		}
	}
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "CGO_ENABLED", "GOWORK", "GO111MODULE", "GOSUMDB", "GOOS", "GOARCH":
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=mod -modfile="+filepath.Join(tmp, "go.mod"), "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOWORK=off", "GOSUMDB=off")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: env, Tests: false}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("repository does not type-check: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages loaded from %s", repo)
	}
	local := func(ps []*packages.Package) (r []*packages.Package) {
		packages.Visit(ps, nil, func(p *packages.Package) {
			if strings.HasPrefix(p.PkgPath, modPath) {
				r = append(r, p)
			}
		})
		sort.Slice(r, func(i, j int) bool { return r[i].PkgPath < r[j].PkgPath })
		return
	}
	if listNames {
		writeNames(local(pkgs))
		os.Exit(0)
	}
	if over := knownNames(local(pkgs)); over != nil {
		cfg.Overlay = over
		cfg.Fset = nil
		if again, err := packages.Load(cfg, "./..."); err == nil {
			ok := true
			packages.Visit(again, nil, func(p *packages.Package) {
				ok = ok && !(strings.HasPrefix(p.PkgPath, modPath) && len(p.Errors) > 0)
			})
			if ok {
				pkgs = again
			}
		}
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{Repo: repo, Prog: prog, ByPth: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{}}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		w.ByPth[p.PkgPath] = p
		if strings.HasPrefix(p.PkgPath, modPath) {
			w.Pkgs = append(w.Pkgs, p)
		}
	})
	sort.Slice(w.Pkgs, func(i, j int) bool { return w.Pkgs[i].PkgPath < w.Pkgs[j].PkgPath })
	for _, sp := range prog.AllPackages() {
		w.SSA[sp.Pkg.Path()] = sp
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks != nil && w.InRepo(f) {
			w.Funcs = append(w.Funcs, f)
		}
	}
	sort.Slice(w.Funcs, func(i, j int) bool {
		a, b := w.Funcs[i], w.Funcs[j]
		if a.RelString(nil) != b.RelString(nil) {
			return a.RelString(nil) < b.RelString(nil)
		}
		return a.Pos() < b.Pos()
	})
	despill(w.Funcs)
	return w, nil
}

// FnPkg is the package path a function belongs to (also for wrappers and closures).
func FnPkg(f *ssa.Function) string {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return g.Pkg.Pkg.Path()
		}
		if g.Object() != nil && g.Object().Pkg() != nil {
			return g.Object().Pkg().Path()
		}
		if o := g.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
	}
	return ""
}

func (w *World) InRepo(f *ssa.Function) bool {
	return f != nil && strings.HasPrefix(FnPkg(f), modPath)
}

// short package path relative to scouterx
func relPkg(p string) string {
	if p == rootPkg {
		return "scouterx"
	}
	return strings.TrimPrefix(p, rootPkg+"/")
}

// FnName is a readable stable name: netdata.(*DataOutputX).WriteInt8, strace.EndService, strace.X$1
func FnName(f *ssa.Function) string {
	if f == nil {
		return "<nil>"
	}
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, rootPkg+"/", "")
	s = strings.ReplaceAll(s, rootPkg, "scouterx")
	return s
}

// Fn resolves "pkg.Name" or "pkg.(*T).Name" (pkg relative to scouterx).
func (w *World) Fn(pkg, recv, name string) *ssa.Function {
	path := rootPkg
	if pkg != "" && pkg != "scouterx" {
		path = rootPkg + "/" + pkg
	}
	sp := w.SSA[path]
	if sp == nil {
		return nil
	}
	if recv == "" {
		return sp.Func(name)
	}
	tn, ok := sp.Pkg.Scope().Lookup(recv).(*types.TypeName)
	if !ok {
		return nil
	}
	for _, t := range []types.Type{types.NewPointer(tn.Type()), tn.Type()} {
		ms := w.Prog.MethodSets.MethodSet(t)
		if sel := ms.Lookup(sp.Pkg, name); sel != nil {
			return w.Prog.MethodValue(sel)
		}
	}
	return nil
}

func (w *World) Type(pkg, name string) types.Type {
	path := rootPkg + "/" + pkg
	sp := w.SSA[path]
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// At renders an instruction position as file:line relative to the repository.
func (w *World) At(in ssa.Instruction) string {
	p := in.Pos()
	if !p.IsValid() {
		if v, ok := in.(ssa.Value); ok {
			for _, r := range *v.Referrers() {
				if r.Pos().IsValid() {
					p = r.Pos()
					break
				}
			}
		}
	}
	f := in.Parent()
	if !p.IsValid() {
		if b := in.Block(); b != nil {
			for _, x := range b.Instrs {
				if x.Pos().IsValid() {
					p = x.Pos()
					break
				}
			}
		}
	}
	if !p.IsValid() && f != nil {
		p = f.Pos()
	}
	ps := w.Prog.Fset.Position(p)
	rel, err := filepath.Rel(w.Repo, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

func (w *World) FnAt(f *ssa.Function) string {
	ps := w.Prog.Fset.Position(f.Pos())
	rel, err := filepath.Rel(w.Repo, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}
