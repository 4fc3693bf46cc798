package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked SSA program of the repository under analysis.
type Program struct {
	Dir    string
	Fset   *token.FileSet
	Prog   *ssa.Program
	Pkgs   map[string]*ssa.Package // by path relative to the module ("" is the root package)
	TPkgs  map[string]*packages.Package
	Funcs  []*ssa.Function // every function with a body of the analysed packages, deterministic order
	Module string

	fieldOwner map[*types.Var]string // field -> "rel.Type.field"
	info       *modInfo
	gconsts    map[*ssa.Global]*gconst
}

// Load type-checks /repo's current source and builds SSA for its packages.
// overlay replaces file contents (used only by the self-test).
func Load(dir string, overlay map[string][]byte) (*Program, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     dir,
		Fset:    fset,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the source does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.BuilderMode(0))
	prog.Build()
	p := &Program{Dir: dir, Fset: fset, Prog: prog, Pkgs: map[string]*ssa.Package{}, TPkgs: map[string]*packages.Package{}}
	for i, pk := range pkgs {
		if pk.Module != nil && p.Module == "" {
			p.Module = pk.Module.Path
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(pk.PkgPath, p.Module), "/")
		if spkgs[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", pk.PkgPath)
		}
		if rel == "testutil" || strings.HasPrefix(rel, "examples") {
			continue
		}
		p.Pkgs[rel] = spkgs[i]
		p.TPkgs[rel] = pk
	}
	p.fieldOwner = map[*types.Var]string{}
	for _, sp := range p.Pkgs {
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				if st, ok := tn.Type().Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						if _, dup := p.fieldOwner[st.Field(i)]; !dup {
							p.fieldOwner[st.Field(i)] = p.Rel(sp.Pkg) + "." + n + "." + st.Field(i).Name()
						}
					}
				}
			}
		}
	}
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if p.Own(f) && len(f.Blocks) > 0 && f.Synthetic == "" || p.Own(f) && f.Name() == "init" && len(f.Blocks) > 0 {
			p.Funcs = append(p.Funcs, f)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		if p.Funcs[i].Pos() != p.Funcs[j].Pos() {
			return p.Funcs[i].Pos() < p.Funcs[j].Pos()
		}
		return p.Funcs[i].String() < p.Funcs[j].String()
	})
	p.info = p.analyseModule()
	return p, nil
}

// Own reports whether the function belongs to an analysed package.
func (p *Program) Own(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	pk := f.Package()
	if pk == nil {
		if f.Origin() != nil {
			pk = f.Origin().Package()
		}
		if pk == nil && f.Parent() != nil {
			return p.Own(f.Parent())
		}
		if pk == nil {
			return false
		}
	}
	for _, q := range p.Pkgs {
		if q == pk {
			return true
		}
	}
	return false
}

func (p *Program) Rel(pk *types.Package) string {
	if pk == nil {
		return ""
	}
	if pk.Path() == p.Module {
		return "stomp"
	}
	return strings.TrimPrefix(pk.Path(), p.Module+"/")
}

// Pos formats a position relative to the repository.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	if r, err := filepath.Rel(p.Dir, q.Filename); err == nil && !strings.HasPrefix(r, "..") {
		return fmt.Sprintf("%s:%d", r, q.Line)
	}
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

// FuncName is a readable, stable name of a function.
func (p *Program) FuncName(f *ssa.Function) string {
	return strings.ReplaceAll(f.RelString(nil), p.Module, "stomp")
}

// NamedType finds a named type of a package of the module.
func (p *Program) NamedType(rel, name string) *types.Named {
	sp := p.Pkgs[rel]
	if sp == nil {
		return nil
	}
	if tn, ok := sp.Pkg.Scope().Lookup(name).(*types.TypeName); ok {
		if n, ok := tn.Type().(*types.Named); ok {
			return n
		}
	}
	return nil
}

// Method finds the declared method of a named type (pointer or value receiver).
func (p *Program) Method(rel, typ, name string) *ssa.Function {
	n := p.NamedType(rel, typ)
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return p.Prog.FuncValue(n.Method(i))
		}
	}
	return nil
}

// Func finds a package-level function.
func (p *Program) Func(rel, name string) *ssa.Function {
	if sp := p.Pkgs[rel]; sp != nil {
		return sp.Func(name)
	}
	return nil
}

// instrPos finds a usable position for an instruction.
func instrPos(in ssa.Instruction) token.Pos {
	if in.Pos().IsValid() {
		return in.Pos()
	}
	if v, ok := in.(ssa.Value); ok {
		if v.Referrers() != nil {
			for _, r := range *v.Referrers() {
				if r.Pos().IsValid() {
					return r.Pos()
				}
			}
		}
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && (*op).Pos().IsValid() {
			if _, isFn := (*op).(*ssa.Function); isFn {
				continue
			}
			return (*op).Pos()
		}
	}
	return in.Parent().Pos()
}
