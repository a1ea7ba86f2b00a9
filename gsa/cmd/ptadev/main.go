package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"gsa/load"
	"gsa/pta"

	"golang.org/x/tools/go/ssa"
)

func main() {
	p, err := load.Load("/repo", nil)
	if err != nil {
		panic(err)
	}
	var roots []*ssa.Function
	for _, pk := range []string{"featselect", "cmd"} {
		sp := p.Pkg(pk)
		for _, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok && f.Synthetic == "" {
				roots = append(roots, f)
			}
			if t, ok := m.(*ssa.Type); ok {
				ms := p.Prog.MethodSets.MethodSet(load.PtrTo(t.Type()))
				for i := 0; i < ms.Len(); i++ {
					if f := p.Prog.MethodValue(ms.At(i)); f != nil && f.Pkg == sp && f.Synthetic == "" {
						roots = append(roots, f)
					}
				}
			}
		}
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].String() < roots[j].String() })
	impls := pta.Implementers(p.Prog, p.Module)
	for _, f := range roots {
		if len(os.Args) > 1 && !strings.Contains(f.String(), os.Args[1]) {
			continue
		}
		t0 := time.Now()
		a := pta.New(p.Prog, p.Module, impls)
		a.Run(f)
		w := map[string]bool{}
		for _, ac := range a.AccList {
			if ac.Write && (ac.Loc.O.Kind == pta.KParam || ac.Loc.O.Kind == pta.KGlobal) {
				s := a.Describe(ac.Loc)
				if ac.Append {
					s += "(append)"
				}
				w[s] = true
			}
		}
		al := map[string]bool{}
		rs := f.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			o, pth := a.Ret(i)
			for ob := range a.Reach(o, pth, rs.At(i).Type()) {
				if ob.Kind == pta.KParam || ob.Kind == pta.KGlobal {
					al[fmt.Sprintf("r%d~%s", i, ob.Name)] = true
				}
			}
		}
		fmt.Printf("%s\n   writes %v\n   alias %v\n   ctxs %d steps %d unknown %v %.2fs\n", strings.ReplaceAll(f.String(), "github.com/davidkleiven/goselect/", ""), keys(w), keys(al), len(a.Ctxs), a.Steps, keys(a.Unknown), time.Since(t0).Seconds())
	}
}

func keys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
