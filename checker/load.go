package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/alexander-yu/stream"

// Program is the type-checked program and its SSA form: every non-test package
// of the repository below analysis, plus the specification overlays.
type Program struct {
	Dir  string
	Pkgs []*packages.Package
	Prog *ssa.Program
	SSA  map[string]*ssa.Package // by path relative to the module ("" = root)
}

// load type-checks the repository's current source. overlay maps absolute file
// names to contents that are added to the packages in memory only.
func load(dir string, overlay map[string][]byte) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule,
		Dir:  dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local",
			"GOWORK=off"),
		Overlay: overlay,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var kept []*packages.Package
	for _, p := range pkgs {
		rel := relPkg(p.PkgPath)
		if rel == "?" || strings.HasPrefix(rel, "examples") || rel == "util/test" {
			continue
		}
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("package %s does not type-check: %v", p.PkgPath, p.Errors[0])
		}
		kept = append(kept, p)
	}
	sort.Slice(kept, func(i, j int) bool { return kept[i].PkgPath < kept[j].PkgPath })
	prog, spkgs := ssautil.Packages(kept, ssa.InstantiateGenerics)
	prog.Build()
	out := &Program{Dir: dir, Pkgs: kept, Prog: prog, SSA: map[string]*ssa.Package{}}
	for i, p := range kept {
		if spkgs[i] == nil {
			return nil, fmt.Errorf("no SSA for package %s", p.PkgPath)
		}
		out.SSA[relPkg(p.PkgPath)] = spkgs[i]
	}
	return out, nil
}

// relPkg returns a package path relative to the module, or "?" if outside.
func relPkg(path string) string {
	if path == modPath {
		return ""
	}
	if strings.HasPrefix(path, modPath+"/") {
		return path[len(modPath)+1:]
	}
	return "?"
}

// inRepo reports whether the function's body belongs to the repository.
func inRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return relPkg(fn.Pkg.Pkg.Path()) != "?"
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return relPkg(o.Pkg().Path()) != "?"
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return relPkg(o.Pkg.Pkg.Path()) != "?"
	}
	return false
}

// typeName gives "pkg.Type" relative to the module for repository types and the
// full path otherwise, ignoring one level of pointer.
func typeName(t types.Type) string {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() == nil {
			return o.Name()
		}
		rel := relPkg(o.Pkg().Path())
		if rel == "?" {
			return o.Pkg().Path() + "." + o.Name()
		}
		if rel == "" {
			rel = "stream"
		}
		return rel + "." + o.Name()
	}
	return t.String()
}

// fnName is the name of a function relative to the module.
func fnName(fn *ssa.Function) string {
	s := fn.RelString(nil)
	return strings.ReplaceAll(strings.ReplaceAll(s, modPath+"/", ""), modPath+".", "stream.")
}

// posOf prints a file:line relative to the repository.
func (p *Program) posOf(in ssa.Instruction) string {
	pos := in.Pos()
	fn := in.Parent()
	if !pos.IsValid() && in.Block() != nil {
		for _, i := range in.Block().Instrs {
			if i.Pos().IsValid() {
				pos = i.Pos()
				break
			}
		}
	}
	if !pos.IsValid() && fn != nil {
		pos = fn.Pos()
	}
	ps := p.Prog.Fset.Position(pos)
	f := ps.Filename
	if r, err := filepath.Rel(p.Dir, f); err == nil {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (p *Program) fnPos(fn *ssa.Function) string {
	ps := p.Prog.Fset.Position(fn.Pos())
	f := ps.Filename
	if r, err := filepath.Rel(p.Dir, f); err == nil {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// method finds the method of *T (or T) by name.
func (p *Program) method(pkg, typ, name string) *ssa.Function {
	sp := p.SSA[pkg]
	if sp == nil {
		return nil
	}
	m, ok := sp.Members[typ].(*ssa.Type)
	if !ok {
		return nil
	}
	for _, t := range []types.Type{types.NewPointer(m.Type()), m.Type()} {
		ms := p.Prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				if f := p.Prog.MethodValue(ms.At(i)); f != nil {
					if f.Synthetic != "" && len(f.Blocks) > 0 {
						if sf := p.Prog.FuncValue(ms.At(i).Obj().(*types.Func)); sf != nil && sf.Blocks != nil {
							return sf
						}
					}
					return f
				}
			}
		}
	}
	return nil
}

// function finds a package-level function by name.
func (p *Program) function(pkg, name string) *ssa.Function {
	sp := p.SSA[pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// structTypes lists the named struct types declared in the analysed packages.
func (p *Program) structTypes() []*types.Named {
	var out []*types.Named
	for _, pkg := range p.Pkgs {
		sc := pkg.Types.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			if _, ok := n.Underlying().(*types.Struct); ok {
				out = append(out, n)
			}
		}
	}
	return out
}

// methodsOf lists the declared methods of a named type.
func (p *Program) methodsOf(pkg, typ string) []*ssa.Function {
	m, ok := p.SSA[pkg].Members[typ].(*ssa.Type)
	if !ok {
		return nil
	}
	n, ok := types.Unalias(m.Type()).(*types.Named)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for i := 0; i < n.NumMethods(); i++ {
		if f := p.Prog.FuncValue(n.Method(i)); f != nil {
			out = append(out, f)
		}
	}
	return out
}
