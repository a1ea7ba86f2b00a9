package sem

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// deepAll is deep with the possibility to evaluate methods of matrix types
func (ev *Eval) deepAll(fn *ssa.Function, mem *Mem, v *T, t types.Type) *T {
	fr := &frame{fn: fn, base: True, site: "deep"}
	c := mctx{fr, firstInstr(fn), &state{g: True, mem: mem}}
	return ev.deepN(c, mem, v, t, 6)
}

// EventTerm is the canonical description of an event: when it happens in the
// turns of its loops and with which arguments
func (ev *Eval) EventTerm(e *Event) *T {
	args := append([]*T{}, e.Args...)
	g := e.Guard
	t := eventBody(e.Kind, g, args)
	for L := e.Loop; L != nil; L = L.parent {
		t = L.closeEvent(t)
	}
	return t
}

func eventBody(kind string, g *T, args []*T) *T {
	b := Op("ev", kind, NotNum, args...)
	return Ite(g, b, mk("none", "", nil, NotNum))
}

// closeEvent describes the turns of the loop in which an event happens
func (L *Loop) closeEvent(t *T) *T {
	none := mk("none", "", nil, NotNum)
	r := L.resolve(t)
	happens := MapLeaves(r, func(l *T) *T {
		if l == none {
			return False
		}
		return True
	})
	if L.tau != nil {
		// an event of the last turn only is not repeated
		B := False
		for _, e := range L.exits {
			B = Or(B, L.resolve(e.guard))
		}
		if Implies(happens, B) {
			return Ite(L.guard, L.atExit(r), none)
		}
		r = liftN([]*T{L.tau}, func(a []*T) *T {
			return Ite(Le(L.t, a[0]), r, none)
		})
	}
	if !r.Has(L.t) && L.tau == nil {
		return Ite(L.guard, r, none)
	}
	n := Inf
	body := Lam(L.t, r)
	_ = n
	return Ite(L.guard, MapLeaves(body, func(l *T) *T { return mk("each", "", []*T{l}, NotNum) }), none)
}

// Summary is what a caller can observe of a function: its results, what it
// leaves in the memory reachable from its parameters, when it panics, and its
// other effects
type Summary struct {
	Fn     *ssa.Function
	Vals   []*T
	After  []*T
	Before []*T
	Panic  *T
	Undef  *T // the summary says nothing about these inputs
	Events []*EventInfo
	Notes  []string
	Res    *Result
}

// EventInfo is a described event
type EventInfo struct {
	Kind string
	Term *T
	Pos  token.Pos
}

// happens is the condition for an event to happen at least once, as a
// function of the turns of the loops outside
func (ev *Eval) happens(e *Event) *T {
	g := e.Guard
	for L := e.Loop; L != nil; L = L.parent {
		r := L.resolve(g)
		if L.tau != nil {
			r = liftN([]*T{L.tau}, func(a []*T) *T {
				u := FreshIndex("u", nil)
				return AnyT(Add(a[0], One), u, Subst(r, map[*T]*T{L.t: u}))
			})
			r = BoolTerm(r)
		} else if r.Has(L.t) {
			u := FreshIndex("u", nil)
			r = AnyT(Inf, u, Subst(r, map[*T]*T{L.t: u}))
		}
		g = And(L.guard, r)
	}
	return g
}

// Summarize evaluates a function. pre restricts the inputs; keep selects the
// events that are part of the summary.
func (ev *Eval) Summarize(fn *ssa.Function, params []*T, mem *Mem, pre *T, keep func(e *Event) bool) *Summary {
	r := ev.Call(fn, params, mem)
	s := &Summary{Fn: fn, Res: r, Notes: r.Notes, Panic: False, Undef: False}
	for _, e := range r.Events {
		if e.Kind == "panic" {
			s.Panic = Or(s.Panic, ev.happens(e))
		}
		if strings.HasSuffix(e.Kind, ".gsaUndefined") {
			s.Undef = Or(s.Undef, ev.happens(e))
		}
	}
	s.Panic = Constrain(Assumed(s.Panic), pre)
	ok := And(pre, Not(s.Panic))
	eqs := WithEquations(ok)
	lim := func(t *T) *T {
		if ok == False {
			return t
		}
		return eqs(Constrain(Assumed(t), ok))
	}
	for i, v := range r.Vals {
		s.Vals = append(s.Vals, lim(ev.deepAll(fn, r.Mem, v, fn.Signature.Results().At(i).Type())))
	}
	m0 := mem
	if m0 == nil {
		m0 = newMem()
	}
	for i, p := range params {
		s.Before = append(s.Before, lim(ev.deepAll(fn, m0, p, fn.Params[i].Type())))
		s.After = append(s.After, lim(ev.deepAll(fn, r.Mem, p, fn.Params[i].Type())))
	}
	for _, e := range r.Events {
		if e.Kind == "panic" || !keep(e) {
			continue
		}
		t := lim(ev.EventTerm(e))
		if t.Op == "none" {
			continue
		}
		s.Events = append(s.Events, &EventInfo{Kind: e.Kind, Term: t, Pos: e.Pos})
	}
	return s
}

// Worlds compares what two functions leave in the objects that existed before,
// one region of memory after the other
func (ev *Eval) Worlds(fn *ssa.Function, a, b *Summary, mem *Mem, pre *T, f func(region string, x, y *T)) {
	if mem == nil {
		mem = newMem()
	}
	rs := map[string]bool{}
	for r := range a.Res.Mem.m {
		rs[r] = true
	}
	for r := range b.Res.Mem.m {
		rs[r] = true
	}
	var names []string
	for r := range rs {
		names = append(names, r)
	}
	sort.Strings(names)
	ok := And(pre, Not(a.Panic))
	for _, r := range names {
		if a.Res.Mem.get(r) == b.Res.Mem.get(r) || r == "svd" || r == "mrows" || r == "mcols" || strings.HasPrefix(r, "C:") {
			continue
		}
		o := Fresh("any object", NotNum)
		key := o
		switch {
		case r == "mat":
			key = mij(o, FreshIndex("i", nil), FreshIndex("j", nil))
		case strings.HasPrefix(r, "E:"):
			key = Op("idx", "", NotNum, o, FreshIndex("i", nil))
		case r == "lseq":
		case !strings.HasPrefix(r, "F:"):
			continue
		}
		get := func(m *Mem) *T {
			if r == "lseq" {
				return sameAs(o, WithEquations(ok)(Constrain(ev.listContent(mctx{}, m, o, 6), ok)))
			}
			v := ev.sel(m.get(r), r, key)
			if isBoolType(ev.regType[r]) {
				v = BoolTerm(v)
			}
			if ok != False {
				v = Constrain(Assumed(v), ok)
			}
			return sameAs(o, ev.deepAll(fn, m, v, ev.regType[r]))
		}
		f(r, get(a.Res.Mem), get(b.Res.Mem))
	}
}

// sameAs writes the other object for o where the two are the same
func sameAs(o, t *T) *T {
	for _, a := range Atoms(t) {
		if a.Op != "eq" && a.Op != "eqc" || a.Args[0] != o && a.Args[1] != o {
			continue
		}
		k := a.Args[0]
		if k == o {
			k = a.Args[1]
		}
		if k.Has(o) {
			continue
		}
		hi, lo := cof(t, a)
		t = Ite(atomT(a), Subst(hi, map[*T]*T{o: k}), lo)
	}
	return t
}

// Undecided tells whether a term contains values the evaluation did not resolve
func Undecided(t *T) bool { return undecided(t, map[int]bool{}) }

func undecided(t *T, seen map[int]bool) bool {
	if t == nil || seen[t.id] {
		return false
	}
	seen[t.id] = true
	switch t.Op {
	case "phi", "hdr", "undef":
		return true
	}
	if len(t.Aux) > 3 && t.Aux[:3] == "lx:" || t.Op == "lx" {
		return true
	}
	for _, a := range t.Args {
		if undecided(a, seen) {
			return true
		}
	}
	for _, m := range t.poly {
		for _, f := range m.fs {
			if undecided(f.a, seen) {
				return true
			}
		}
	}
	return false
}
