package sem

import (
	"fmt"
	"go/token"
	"os"

	"golang.org/x/tools/go/ssa"
)

// bound records, if asked for, that a condition must hold for an operation not
// to fail: an index in range, a size that is not negative
func (ev *Eval) bound(fr *frame, in ssa.Instruction, st *state, what string, within *T) {
	if ev.Bounds {
		ev.record(fr, in, st, what, within)
	}
}

func (ev *Eval) record(fr *frame, in ssa.Instruction, st *state, what string, within *T) {
	ev.NumBounds++
	if within == True {
		return
	}
	g := And(st.g, Not(within))
	if g == False {
		return
	}
	ev.event(fr, "bound", g, st.mem, in.Pos(), Str(what))
}

func inRange(i, n *T) *T { return And(Ge(i, Zero), Lt(i, n)) }

// sizeOK tells that an amount of memory can be asked for. What is counted from
// data in memory is small enough; a number read from a file has to be limited.
func sizeOK(n *T) *T {
	if hasOp(n, "jnum", map[int]bool{}) {
		return And(Ge(n, Zero), Le(n, Int(1<<32)))
	}
	return Ge(n, Zero)
}

func hasOp(t *T, op string, seen map[int]bool) bool {
	if seen[t.id] {
		return false
	}
	seen[t.id] = true
	if t.Op == op {
		return true
	}
	for _, a := range t.Args {
		if hasOp(a, op, seen) {
			return true
		}
	}
	for _, m := range t.poly {
		for _, f := range m.fs {
			if hasOp(f.a, op, seen) {
				return true
			}
		}
	}
	return false
}

// Failing is the condition for an operation to fail that was not shown to be
// impossible
type Failing struct {
	What string
	Pos  token.Pos
	When *T
	Fn   *ssa.Function
}

// Failures checks all operations recorded in a result, for the inputs that
// satisfy the precondition
func (ev *Eval) Failures(r *Result, pre *T) (n int, bad []*Failing) {
	n = ev.NumBounds
	for _, e := range r.Events {
		if e.Kind != "bound" {
			continue
		}
		g := e.Guard
		idx := []*T{Zero}
		for L := e.Loop; L != nil; L = L.parent {
			g = L.resolve(g)
			in := True
			if L.tau != nil {
				in = Le(L.t, L.tau)
			}
			g = And(And(L.guard, in), g)
			idx = append(idx, L.t)
		}
		if !Impossible(And(g, pre), idx) {
			bad = append(bad, &Failing{What: e.Args[0].Aux, Pos: e.Pos, When: g, Fn: e.Fn})
		}
	}
	return
}

// FailsAt looks for whole numbers up to a limit in place of the parameters for
// which an operation recorded in a result fails. Arithmetic that counts by a
// constant (such as the bytes of a bit array) repeats itself below the limit.
func (ev *Eval) FailsAt(r *Result, params []*T, pre *T, limit int64) (n int, bad []*Failing) {
	n = ev.NumBounds
	for _, e := range r.Events {
		if e.Kind != "bound" || e.Loop != nil {
			continue
		}
		g := And(pre, e.Guard)
		done := false
		var try func(k int, m map[*T]*T, what string)
		try = func(k int, m map[*T]*T, what string) {
			if done {
				return
			}
			if k == len(params) {
				if Subst(g, m) == True {
					done = true
					bad = append(bad, &Failing{What: e.Args[0].Aux, Pos: e.Pos, When: mk("str", what, nil, NotNum), Fn: e.Fn})
				}
				return
			}
			if params[k].num != IntNum {
				try(k+1, m, what)
				return
			}
			for v := int64(0); v <= limit; v++ {
				m[params[k]] = Int(v)
				try(k+1, m, what+fmt.Sprintf(" %s=%d", params[k].Aux, v))
			}
			delete(m, params[k])
		}
		try(0, map[*T]*T{}, "")
	}
	return
}

// Impossible tells that a condition never holds. Statements that something
// holds for no position are used at the given positions, at the positions that
// are claimed to exist, and next to them.
func Impossible(g *T, idx []*T) bool {
	return refuteBoth(g, idx, 3000)
}

// chain uses that a quantity grows by at least k from each position to the
// next: at position i it is at least what it is at the start plus k·i
func chain(any *T, cand []*T) *T {
	d := True
	u := FreshIndex("u", nil)
	for _, l := range litsOf(Not(BoolTerm(openLam(any.Args[1], u)))) {
		if l.a.Op != "thr" || l.a.neg || !isIntForm(l.a.Args[0]) || !l.a.Args[0].Has(u) {
			continue
		}
		f, k := l.a.Args[0], Const(l.a.k)
		if !l.holds { // f <= k-1
			f, k = Sub(Zero, f), Sub(One, k)
		}
		up, down := Zero, Zero
		for _, m := range monos(f) {
			if !mkPoly([]mono{m}).Has(u) {
				k = Sub(k, mkPoly([]mono{m}))
			} else if m.c.Sign() > 0 {
				up = Add(up, mkPoly([]mono{m}))
			} else {
				down = Sub(down, mkPoly([]mono{m}))
			}
		}
		at := func(t, i *T) *T { return Subst(t, map[*T]*T{u: i}) }
		g := down // f = up-down is g(u+1)-g(u)
		if at(g, Add(u, One)) != up {
			if at(up, Add(u, One)) != down {
				continue
			}
			g = Sub(Zero, up)
		}
		for _, i := range cand {
			if i == Zero {
				continue
			}
			grown := Ge(Sub(at(g, i), at(g, Zero)), Mul(k, i))
			d = And(d, Or(Not(And(Ge(i, Zero), Le(i, any.Args[0]))), grown))
		}
	}
	return d
}

// litsOf are the statements that must all hold for a condition to hold
func litsOf(c *T) (ls []lit) {
	for c.Op == "ite" {
		switch {
		case c.Args[2] == False:
			ls = append(ls, lit{c.Args[0], true})
			c = c.Args[1]
		case c.Args[1] == False:
			ls = append(ls, lit{c.Args[0], false})
			c = c.Args[2]
		default:
			return
		}
	}
	return
}

// refuteBoth uses the statements at the positions themselves first, and next to
// them only if that does not do
func refuteBoth(c *T, idx []*T, n int) bool {
	b := n
	if refute(c, idx, map[*T]bool{}, 5, &b, false) {
		return true
	}
	b = n
	return refute(c, idx, map[*T]bool{}, 5, &b, true)
}

// tooLarge tells that a diagram has too many nodes to be followed
func tooLarge(d *T) bool {
	seen := map[*T]bool{}
	var walk func(t *T) bool
	walk = func(t *T) bool {
		if t.Op != "ite" || seen[t] {
			return false
		}
		seen[t] = true
		return len(seen) > 4000 || walk(t.Args[1]) || walk(t.Args[2])
	}
	return walk(d)
}

func refute(c *T, idx []*T, opened map[*T]bool, depth int, budget *int, near bool) bool {
	if c == False {
		return true
	}
	return Ways(c, True, 50000, func(leaf *T, ls []lit) bool {
		if leaf == False {
			return true
		}
		*budget--
		if *budget < 0 || depth == 0 {
			if Debug {
				for _, l := range ls {
					println("   ", l.holds, l.a.String())
				}
				println("-- left", *budget, depth)
			}
			return false
		}
		before := litsTerm(ls)
		d := before
		cand := idx
		op := opened
		for _, l := range ls {
			if l.a.Op != "any" || !l.holds || op[l.a] {
				continue
			}
			if len(op) == len(opened) {
				op = map[*T]bool{}
				for k := range opened {
					op[k] = true
				}
			}
			op[l.a] = true
			k := FreshIndex("k", nil)
			in := Ge(k, Zero)
			if l.a.Args[0] != Inf {
				in = inRange(k, l.a.Args[0])
			}
			d = And(d, And(in, BoolTerm(openLam(l.a.Args[1], k))))
			cand = append(append([]*T{}, cand...), k)
		}
		if d == False {
			return true
		}
		for _, l := range ls {
			if l.a.Op != "any" || l.holds {
				continue
			}
			for _, i := range cand {
				for _, o := range []int64{0, -1, 1} {
					if o != 0 && !near {
						break
					}
					i := Add(i, Int(o))
					in := Ge(i, Zero)
					if l.a.Args[0] != Inf {
						in = inRange(i, l.a.Args[0])
					}
					in = Constrain(in, before)
					if in == False {
						continue
					}
					d = And(d, Not(And(in, BoolTerm(openLam(l.a.Args[1], i)))))
					if d == False {
						return true
					}
					if tooLarge(d) {
						return false
					}
				}
			}
		}
		for _, l := range ls {
			if near && l.a.Op == "any" && !l.holds && l.a.Args[0] != Inf {
				d = And(d, chain(l.a, cand))
			}
		}
		if d == False {
			return true
		}
		eqs := WithEquations(before)
		d = eqs(d)
		zero := map[*T]*T{}
		for _, x := range cand {
			if _, isNum := x.ConstVal(); !isNum && x.Op == "sym" && Ge(x, Zero) == True && Constrain(Ge(x, One), before) == False {
				zero[x] = Zero
			}
		}
		if len(zero) > 0 {
			d = Subst(d, zero)
		}
		if Debug && d == before && len(cand) == len(idx) {
			for _, l := range ls {
				println("   ", l.holds, l.a.String())
			}
			println("--")
		}
		if d == before && len(cand) == len(idx) {
			return false
		}
		for i, x := range cand {
			if y := eqs(x); y != x {
				cand = append([]*T{}, cand...)
				cand[i] = y
			}
		}
		return refute(d, cand, op, depth-1, budget, near)
	})
}

var inCannotBe bool

// cannotBe tells that conditions taken together never hold
func cannotBe(ls []lit) bool {
	quant := false
	nested := inCannotBe
	inCannotBe = true
	defer func() { inCannotBe = nested }()
	for i, l := range ls {
		quant = quant || l.a.Op == "any"
		for _, m := range ls[:i] {
			if !nested && l.holds != m.holds && l.a.Op == m.a.Op && l.a.Aux == m.a.Aux && (l.a.Op == "eq" || l.a.Op == "eqc" || l.a.Op == "call") && len(l.a.Args) == len(m.a.Args) {
				// the same statement about things that are the same
				same := true
				b := 200
				c := litsTerm(ls)
				for k := range l.a.Args {
					same = same && sameWays(l.a.Args[k], m.a.Args[k], c, &b, 8)
				}
				if same {
					return true
				}
			}
		}
	}
	if !quant {
		return false
	}
	return refuteBoth(litsTerm(ls), []*T{Zero}, 600)
}

// Debug prints the ways that are not refuted
var Debug = os.Getenv("GSADEBUG") != ""

// ResetRun clears what an evaluation that gave up left behind
func ResetRun() { inCannotBe = false }

// nonZero tells that a number is not zero; a product is zero only if one of its
// factors is
func nonZero(d *T) *T {
	return liftN([]*T{d}, func(a []*T) *T {
		d := a[0]
		if d.Op != "poly" || len(d.poly) != 1 {
			return Not(Eq(d, Zero))
		}
		r := True
		for _, f := range d.poly[0].fs {
			r = And(r, Not(Eq(f.a, Zero)))
		}
		return r
	})
}
