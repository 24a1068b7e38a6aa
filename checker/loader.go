package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked module in SSA form
type Program struct {
	dir    string
	mod    string
	prog   *ssa.Program
	pkgs   []*packages.Package
	ssa    map[string]*ssa.Package
	fset   *token.FileSet
	parsed map[string]*packages.Package
	once   sync.Once
	vars   []*ssa.Global
}

func load(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GONOSUMDB=*", "GOFLAGS=-mod=readonly"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{dir: dir, ssa: map[string]*ssa.Package{}, parsed: map[string]*packages.Package{}}
	for _, k := range pkgs {
		if len(k.Errors) > 0 {
			return nil, fmt.Errorf("%s: %v", k.PkgPath, k.Errors[0])
		}
		if k.Module != nil && k.Module.Main {
			p.mod = k.Module.Path
		}
		p.parsed[k.PkgPath] = k
	}
	p.pkgs = pkgs
	sort.Slice(p.pkgs, func(i, j int) bool { return p.pkgs[i].PkgPath < p.pkgs[j].PkgPath })
	prog, _ := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.SanityCheckFunctions*0)
	prog.Build()
	p.prog = prog
	p.fset = prog.Fset
	for _, k := range prog.AllPackages() {
		p.ssa[k.Pkg.Path()] = k
	}
	return p, nil
}

// globals are the variables of all packages in a fixed order
func (p *Program) globals() []*ssa.Global {
	p.once.Do(func() {
		for _, path := range sortedKeys(p.ssa) {
			k := p.ssa[path]
			for _, n := range sortedKeys(k.Members) {
				if g, ok := k.Members[n].(*ssa.Global); ok {
					p.vars = append(p.vars, g)
				}
			}
		}
	})
	return p.vars
}

func (p *Program) isModule(k *types.Package) bool {
	return k != nil && (k.Path() == p.mod || strings.HasPrefix(k.Path(), p.mod+"/"))
}

// pkg finds a module package by its path below the module
func (p *Program) pkg(rel string) *ssa.Package {
	if rel == "" {
		return p.ssa[p.mod]
	}
	return p.ssa[p.mod+"/"+rel]
}

func (p *Program) fn(rel, name string) *ssa.Function {
	k := p.pkg(rel)
	if k == nil {
		return nil
	}
	return k.Func(name)
}

func (p *Program) typ(rel, name string) types.Type {
	k := p.pkg(rel)
	if k == nil {
		return nil
	}
	if o := k.Pkg.Scope().Lookup(name); o != nil {
		return o.Type()
	}
	return nil
}

// method finds a method in the method set of t
func (p *Program) method(t types.Type, name string) *ssa.Function {
	ms := p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// moduleFuncs lists all functions of the module with a body, closures included
func (p *Program) moduleFuncs() []*ssa.Function {
	var out []*ssa.Function
	for fn := range ssautil.AllFunctions(p.prog) {
		if fn.Pkg != nil && p.isModule(fn.Pkg.Pkg) && len(fn.Blocks) > 0 && fn.Synthetic == "" {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

func (p *Program) relName(fn *ssa.Function) string {
	return strings.ReplaceAll(fnString(fn), p.mod+"/", "")
}

var fnStrings sync.Map

func fnString(fn *ssa.Function) string {
	if s, ok := fnStrings.Load(fn); ok {
		return s.(string)
	}
	s := fn.String()
	fnStrings.Store(fn, s)
	return s
}

// initOrder lists the module packages, imported ones first
func (p *Program) initOrder() []*ssa.Package {
	var out []*ssa.Package
	seen := map[string]bool{}
	var visit func(k *types.Package)
	visit = func(k *types.Package) {
		if seen[k.Path()] || !p.isModule(k) {
			return
		}
		seen[k.Path()] = true
		imps := append([]*types.Package{}, k.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, i := range imps {
			visit(i)
		}
		if s := p.ssa[k.Path()]; s != nil {
			out = append(out, s)
		}
	}
	for _, k := range p.pkgs {
		visit(k.Types)
	}
	return out
}

var _ ast.Node
