package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const harnessModule = "verif/harness"

func isHarnessPath(p string) bool {
	return p == harnessModule || strings.HasPrefix(p, harnessModule+"/")
}

// Program is the loaded SSA program: the harness packages and everything they
// import, built from the current source tree.
type Program struct {
	prog               *ssa.Program
	fset               *token.FileSet
	pkgs               []*ssa.Package
	byPath             map[string]*ssa.Package
	runtimeErrorT      types.Type
	runtimePlainErrorT types.Type
	mu                 sync.Mutex
	methCache          sync.Map
	errorT             *types.Interface
}

func LoadProgram(dir string, overlay map[string][]byte, patterns ...string) (*Program, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax | packages.NeedModule,
		Dir:     dir,
		Fset:    fset,
		Env:     append(os.Environ(), "CGO_ENABLED=0"),
		Overlay: overlay,
	}
	initial, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		if len(errs) > 20 {
			errs = errs[:20]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, pkgs := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, fset: fset, pkgs: pkgs, byPath: map[string]*ssa.Package{}}
	for _, p := range prog.AllPackages() {
		P.byPath[p.Pkg.Path()] = p
	}
	P.errorT = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	if rt := P.byPath["runtime"]; rt != nil {
		// a runtime.Error implementation whose text we control
		P.runtimeErrorT = rt.Type("errorString").Type()
		P.runtimePlainErrorT = rt.Type("plainError").Type()
		if t := rt.Type("plainErrorString"); t != nil {
			P.runtimePlainErrorT = t.Type()
		}
	}
	if P.runtimeErrorT == nil {
		return nil, fmt.Errorf("no runtime package")
	}
	return P, nil
}

func (P *Program) lookupFn(pkg, name string) *ssa.Function {
	p := P.byPath[pkg]
	if p == nil {
		panic(unsupported{"package not loaded: " + pkg})
	}
	f := p.Func(name)
	if f == nil {
		panic(unsupported{"no function " + pkg + "." + name})
	}
	return f
}

// typ finds a named type.
func (P *Program) typ(pkg, name string) types.Type {
	p := P.byPath[pkg]
	if p == nil {
		panic(unsupported{"package not loaded: " + pkg})
	}
	t := p.Type(name)
	if t == nil {
		panic(unsupported{"no type " + pkg + "." + name})
	}
	return t.Type()
}

func (P *Program) hasPkg(pkg string) bool { return P.byPath[pkg] != nil }

type methKey struct {
	t    types.Type
	name string
	pkg  *types.Package
}

func (P *Program) findMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	k := methKey{t, name, pkg}
	if v, ok := P.methCache.Load(k); ok {
		return v.(*ssa.Function)
	}
	P.mu.Lock()
	defer P.mu.Unlock()
	ms := P.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	f := P.prog.MethodValue(sel)
	if f != nil {
		P.methCache.Store(k, f)
	}
	return f
}

func (P *Program) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	return P.findMethod(t, m.Pkg(), m.Name())
}

// methodByName finds an exported method.
func (P *Program) methodByName(t types.Type, name string) *ssa.Function {
	return P.findMethod(t, nil, name)
}

// sourceDirs are the directories of the repository's and the harness's
// packages.
func (P *Program) sourceDirs(pkg string) []string {
	var out []string
	for _, p := range P.prog.AllPackages() {
		path := p.Pkg.Path()
		if !isRepoPath(path) && !isHarnessPath(path) || path == harnessModule+"/v" || path == harnessModule+"/model" {
			continue
		}
		for _, m := range p.Members {
			if f := P.fset.Position(m.Pos()).Filename; f != "" {
				out = append(out, filepath.Dir(f))
				break
			}
		}
	}
	sort.Strings(out)
	return out
}
