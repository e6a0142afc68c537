package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	Fset  *token.FileSet
	Prog  *ssa.Program
	Pkgs  map[string]*ssa.Package // by short name
	Types map[string]*types.Package
	Funcs map[string]*ssa.Function // canonical name -> function (origin)
	repo  map[*types.Package]bool
}

// loadProgram loads one module of the repository (dir) with the overlay clients.
func loadProgram(dir string, overlay map[string][]byte) (*Program, error) {
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedExportFile,
		Dir:     dir,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0"),
	}
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.GlobalDebug)
	prog.Build()
	P := &Program{Fset: prog.Fset, Prog: prog, Pkgs: map[string]*ssa.Package{}, Types: map[string]*types.Package{}, Funcs: map[string]*ssa.Function{}, repo: map[*types.Package]bool{}}
	for i, p := range spkgs {
		if p == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		P.Pkgs[p.Pkg.Name()] = p
		P.Types[p.Pkg.Name()] = p.Pkg
		P.repo[p.Pkg] = true
		for _, im := range pkgs[i].Types.Imports() {
			P.addTypes(im)
		}
	}
	for i, p := range spkgs {
		aliasInitClosures(p, pkgs[i].Syntax)
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Origin() != nil && fn.Origin() != fn {
			continue
		}
		if fn.Pkg == nil || !P.repo[fn.Pkg.Pkg] {
			continue
		}
		P.Funcs[canonName(fn)] = fn
	}
	// generic methods are not reached by AllFunctions without instantiation: add explicitly
	for _, p := range spkgs {
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				P.addFn(m)
			case *ssa.Type:
				n, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					if f := prog.FuncValue(n.Method(i)); f != nil {
						P.addFn(f)
					}
				}
			}
		}
	}
	return P, nil
}

func (P *Program) addFn(f *ssa.Function) {
	P.Funcs[canonName(f)] = f
	for _, a := range f.AnonFuncs {
		P.addFn(a)
	}
}

func (P *Program) addTypes(p *types.Package) {
	if _, ok := P.Types[p.Name()]; ok {
		return
	}
	P.Types[p.Name()] = p
	for _, im := range p.Imports() {
		P.addTypes(im)
	}
}

// initAlias names the closures of package variable initialisers after the variable: pkg.recordPool$1.
var initAlias = map[*ssa.Function]string{}

func aliasInitClosures(p *ssa.Package, files []*ast.File) {
	ini := p.Func("init")
	if ini == nil {
		return
	}
	n := map[string]int{}
	fns := append([]*ssa.Function{}, ini.AnonFuncs...)
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	for _, fn := range fns {
		for _, f := range files {
			for _, d := range f.Decls {
				g, ok := d.(*ast.GenDecl)
				if !ok || g.Tok != token.VAR {
					continue
				}
				for _, sp := range g.Specs {
					v := sp.(*ast.ValueSpec)
					if v.Pos() <= fn.Pos() && fn.Pos() < v.End() {
						n[v.Names[0].Name]++
						initAlias[fn] = fmt.Sprintf("%s.%s$%d", p.Pkg.Name(), v.Names[0].Name, n[v.Names[0].Name])
					}
				}
			}
		}
	}
}

// canonName gives "pkg.Type.Method", "pkg.Func" or "pkg.Func$1".
func canonName(fn *ssa.Function) string {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if a, ok := initAlias[fn]; ok {
		return a
	}
	if fn.Parent() != nil {
		return canonName(fn.Parent()) + strings.TrimPrefix(fn.Name(), fn.Parent().Name())
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Name() + "."
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Name() + "."
	}
	if r := fn.Signature.Recv(); r != nil {
		return pkg + recvName(r.Type()) + "." + fn.Name()
	}
	return pkg + fn.Name()
}

func recvName(t types.Type) string {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

func typeFuncName(f *types.Func) string {
	pkg := ""
	if f.Pkg() != nil {
		pkg = f.Pkg().Name() + "."
	}
	sig := f.Type().(*types.Signature)
	if sig.Recv() != nil {
		return pkg + recvName(sig.Recv().Type()) + "." + f.Name()
	}
	return pkg + f.Name()
}

// readOverlay maps contract client files (contracts/clients/<module>/<pkg dir>/x.go) into the repository.
func readOverlay(clients, dir string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	if _, err := os.Stat(clients); err != nil {
		return ov, nil
	}
	err := filepath.Walk(clients, func(p string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(clients, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		ov[filepath.Join(dir, rel)] = b
		return nil
	})
	return ov, err
}
