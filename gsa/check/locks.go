package check

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"gsa/pta"

	"golang.org/x/tools/go/ssa"
)

// concurrent lists the methods other goroutines may call during a search
var concurrent = map[string][]string{
	"Highscore":      {"Insert", "Len", "BestScore", "Scores", "MarshalJSON"},
	"SearchProgress": {"Set", "Get"},
}

func checkC01(c *Ctx) {
	c.Rule("guarded", "every access to state that a method of the collector changes happens with the collector's lock held, in write mode for changes; one lock guards all of it")
	c.Rule("lock discipline", "on every way out of the routine the lock is released, it is never acquired while the goroutine may hold it, never released without being held, and no channel operation happens while it is held")
	c.Rule("one publication", "the three progress values are read, respectively written, in one critical section, each of them")
	c.Rule("search locks", "the search itself touches the collectors' state only with the lock held")
	var tns []string
	for t := range concurrent {
		tns = append(tns, t)
	}
	sort.Strings(tns)
	for _, tn := range tns {
		guarded := map[string]bool{}
		type acc struct {
			m    string
			a    *pta.An
			lr   *pta.LockRes
			root *ssa.Function
		}
		var ms []acc
		for _, m := range concurrent[tn] {
			f := c.Need("featselect", tn+"."+m)
			if f == nil {
				continue
			}
			a := c.analyse(f)
			lr := a.LockAnalysis()
			ms = append(ms, acc{tn + "." + m, a, lr, f})
			for _, ac := range a.AccList {
				if ac.Write && ac.Loc.O.Kind == pta.KParam && ac.Loc.O.Root == 0 {
					guarded[a.TypeDesc(ac.Loc)] = true
				}
			}
			// elements enter the list through the argument too
		}
		lockPaths := map[string]int{}
		for _, m := range ms {
			bad := ""
			n := 0
			common := map[string]bool{}
			first := true
			for _, ac := range m.a.AccList {
				if ac.Loc.O.Kind != pta.KParam || ac.Loc.O.Root != 0 || !guarded[m.a.TypeDesc(ac.Loc)] {
					continue
				}
				n++
				st := m.lr.At[pta.Point{Ctx: ac.Ctx, Instr: ac.Instr}]
				held := map[string]bool{}
				if st != nil {
					for k, h := range st.Must {
						if h.Write || !ac.Write {
							l := m.lr.Locks[k]
							if l.O.Kind == pta.KParam && l.O.Root == 0 {
								held[m.a.TypeDesc(l)] = true
							}
						}
					}
				} else {
					// performed by a deferred call
					held = nil
				}
				if held != nil && len(held) == 0 && bad == "" {
					w := "reads"
					if ac.Write {
						w = "writes"
					}
					bad = fmt.Sprintf("%s %s at %s without the lock (%s)", w, m.a.TypeDesc(ac.Loc), c.Where(ac.Instr.Pos()), ctxPath(ac.Ctx))
				}
				if held == nil {
					bad = "access in a deferred call at " + c.Where(ac.Instr.Pos())
				}
				if first {
					common = held
					first = false
				} else {
					for k := range common {
						if !held[k] {
							delete(common, k)
						}
					}
				}
			}
			c.Count("guarded accesses", n)
			if n == 0 {
				c.Add("guarded", m.m, m.root.Pos(), Undecided, "no access to guarded state found")
			} else {
				c.Check(bad == "", "guarded", m.m, m.root.Pos(), "%s", bad)
			}
			for k := range common {
				lockPaths[k]++
			}
			c.lockIssues(m.m, m.root, m.a, m.lr)
		}
		one := false
		for _, n := range lockPaths {
			if n == len(ms) {
				one = true
			}
		}
		if len(ms) > 0 {
			c.Check(one, "guarded", tn+": one lock for all methods", ms[0].root.Pos(), "no single lock of the receiver is held at all guarded accesses of all of %v", concurrent[tn])
		}
	}
	for _, m := range []string{"Get", "Set"} {
		f := c.Need("featselect", "SearchProgress."+m)
		if f == nil {
			continue
		}
		a := c.analyse(f)
		lr := a.LockAnalysis()
		sections := map[string]bool{}
		fields := map[string]bool{}
		for _, ac := range a.AccList {
			if ac.Loc.O.Kind != pta.KParam || ac.Loc.O.Root != 0 || ac.Write != (m == "Set") {
				continue
			}
			if strings.Contains(a.TypeDesc(ac.Loc), "lock") {
				continue
			}
			fields[ac.Loc.Path] = true
			if st := lr.At[pta.Point{Ctx: ac.Ctx, Instr: ac.Instr}]; st != nil {
				for _, h := range st.Must {
					sections[h.At] = true
				}
				if len(st.Must) == 0 {
					sections["none"] = true
				}
			}
		}
		loop := false
		for s := range sections {
			if strings.HasSuffix(s, "loop") || s == "?" || s == "none" {
				loop = true
			}
		}
		// the whole struct may also be copied at once
		nf := len(fields)
		if fields[""] {
			nf = 3
		}
		c.Check(len(sections) == 1 && !loop && nf == 3, "one publication", "SearchProgress."+m, f.Pos(), "%d fields in %d critical sections", nf, len(sections))
	}
	// the routines that use a collector directly
	for _, n := range []string{"SelectModel", "CreateChild", "CreateChildNodes", "BruteForceSelect", "CleanQueue"} {
		f := c.Need("featselect", n)
		if f == nil {
			continue
		}
		a := c.analyse(f)
		lr := a.LockAnalysis()
		bad := ""
		cnt := 0
		for _, ac := range a.AccList {
			o := ac.Loc.O
			if o.Kind != pta.KParam || o.Root >= len(f.Params) || o.Root < 0 {
				continue
			}
			tn := namedPtr(f.Params[o.Root].Type())
			if concurrent[tn] == nil {
				continue
			}
			d := a.TypeDesc(ac.Loc)
			if !strings.HasPrefix(d, "List.") && !strings.HasPrefix(d, "Element.") && !strings.HasPrefix(d, "SearchProgress.") {
				continue
			}
			cnt++
			st := lr.At[pta.Point{Ctx: ac.Ctx, Instr: ac.Instr}]
			ok := false
			if st != nil {
				for _, h := range st.Must {
					if h.Write || !ac.Write {
						ok = true
					}
				}
			}
			if !ok && bad == "" {
				bad = fmt.Sprintf("touches %s of the %s at %s without its lock (%s)", d, tn, c.Where(ac.Instr.Pos()), ctxPath(ac.Ctx))
			}
		}
		c.Count("collector accesses in the search", cnt)
		c.Check(bad == "", "search locks", n, f.Pos(), "%s", bad)
		c.lockIssues(n, f, a, lr)
	}
	c.AtLeast("guarded accesses", 12)
	c.AtLeast("collector accesses in the search", 8)
}

func namedPtr(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func (c *Ctx) lockIssues(name string, f *ssa.Function, a *pta.An, lr *pta.LockRes) {
	bad := ""
	pos := f.Pos()
	for _, i := range lr.Issues {
		w := c.Where(f.Pos())
		if i.Point.Instr != nil {
			w = c.Where(i.Point.Instr.Pos())
		}
		l := ""
		if i.Lock != "" {
			l = a.TypeDesc(lr.Locks[i.Lock])
		}
		bad = fmt.Sprintf("%s: %s at %s (%s)", l, i.What, w, ctxPath(i.Point.Ctx))
		break
	}
	// channel operations under a lock
	if bad == "" {
		for p, st := range lr.At {
			if len(st.May) == 0 {
				continue
			}
			blocking := false
			switch x := p.Instr.(type) {
			case *ssa.Send:
				blocking = true
			case *ssa.UnOp:
				blocking = x.Op.String() == "<-"
			case *ssa.Select:
				blocking = x.Blocking
			}
			if blocking {
				bad = fmt.Sprintf("channel operation at %s while a lock is held (%s)", c.Where(p.Instr.Pos()), ctxPath(p.Ctx))
			}
		}
	}
	c.Count("lock operations", lr.Events)
	c.Check(bad == "", "lock discipline", name, pos, "%s", bad)
}

func init() {
	registry["C01"] = checkC01
	explain["C01"] = "Lockset analysis: a flow-sensitive interprocedural dataflow of locks certainly and possibly held (defers, callees and panics included) over the points-to contexts of each method; every access to state some method changes is checked against the lock state, and all accesses of all methods must share one lock of the receiver. The search routines are checked the same way, and release, re-acquisition, mode and blocking rules are checked at every lock operation."
}
