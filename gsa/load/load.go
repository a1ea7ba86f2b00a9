// Package load reads the program under analysis from its current source
package load

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked program and its SSA form
type Program struct {
	Dir    string
	Module string
	Pkgs   []*packages.Package
	Prog   *ssa.Program
	SSA    map[string]*ssa.Package // by import path
	Errs   []string
}

// Load reads all packages below dir. overlay maps file names relative to dir
// to additional source text.
func Load(dir string, overlay map[string][]byte) (*Program, error) {
	tmp, err := os.MkdirTemp("", "gsa")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	mod := ""
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			return nil, err
		}
		if f == "go.mod" {
			for _, l := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(l, "module ") {
					mod = strings.TrimSpace(l[7:])
				}
			}
		}
		if err := os.WriteFile(filepath.Join(tmp, f), b, 0o644); err != nil {
			return nil, err
		}
	}
	ov := map[string][]byte{}
	for k, v := range overlay {
		ov[filepath.Join(dir, k)] = v
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:        dir,
		BuildFlags: []string{"-modfile=" + filepath.Join(tmp, "go.mod")},
		Env:        append(os.Environ(), "GOFLAGS=-mod=mod", "CGO_ENABLED=0", "GOPROXY=off"),
		Overlay:    ov,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{Dir: dir, Module: mod, Pkgs: pkgs, SSA: map[string]*ssa.Package{}}
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			p.Errs = append(p.Errs, fmt.Sprint(e))
		}
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	if len(p.Errs) > 0 {
		return p, fmt.Errorf("source does not type-check: %s", p.Errs[0])
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.Prog = prog
	for _, sp := range prog.AllPackages() {
		p.SSA[sp.Pkg.Path()] = sp
	}
	return p, nil
}

// Pkg returns the package whose path ends with suffix
func (p *Program) Pkg(suffix string) *ssa.Package {
	for k, v := range p.SSA {
		if k == p.Module+"/"+suffix || (suffix == "" && k == p.Module) {
			return v
		}
	}
	return nil
}

// Func finds a function or method: "F" or "T.M"
func (p *Program) Func(pkg, name string) *ssa.Function {
	sp := p.Pkg(pkg)
	if sp == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		t := sp.Type(name[:i])
		if t == nil {
			return nil
		}
		return p.Prog.LookupMethod(ptrTo(t.Type()), sp.Pkg, name[i+1:])
	}
	return sp.Func(name)
}

func ptrTo(t types.Type) types.Type { return types.NewPointer(t) }

// PtrTo is the pointer type to t
func PtrTo(t types.Type) types.Type { return types.NewPointer(t) }

// InModule tells whether a package belongs to the analysed module
func (p *Program) InModule(path string) bool {
	return path == p.Module || strings.HasPrefix(path, p.Module+"/")
}

// Named finds a type of a package
func (p *Program) Named(pkg, name string) types.Type {
	sp := p.Pkg(pkg)
	if sp == nil || sp.Type(name) == nil {
		return nil
	}
	return sp.Type(name).Type()
}
