package sem

import (
	"math/big"
	"sort"
)

// A small decision procedure for conjunctions of linear inequalities, used to
// drop ways through a diagram that cannot happen.

type linCons struct {
	c      map[int]*big.Rat // coefficient per product
	k      *big.Rat         // sum >= k (or > k)
	strict bool
}

type linSys struct {
	cons []linCons
	vars map[int]*T // products by number
	lits []lit
}

func (s *linSys) add(f *T, k *big.Rat, strict bool, sign int) {
	c := linCons{c: map[int]*big.Rat{}, k: new(big.Rat).Set(k), strict: strict}
	for _, m := range monos(f) {
		if len(m.fs) == 0 {
			c.k.Sub(c.k, m.c)
			continue
		}
		v := mkPoly([]mono{{c: ratOne, fs: m.fs}})
		s.vars[v.id] = v
		c.c[v.id] = new(big.Rat).Set(m.c)
	}
	if sign < 0 {
		for v := range c.c {
			c.c[v].Neg(c.c[v])
		}
		c.k.Neg(c.k)
	}
	s.cons = append(s.cons, c)
}

// literal adds a threshold atom or its negation
func (s *linSys) literal(a *T, holds bool) {
	if a.Op != "thr" {
		return
	}
	f := a.Args[0]
	if holds {
		s.add(f, a.k, a.neg, 1)
		return
	}
	if isIntForm(f) && !a.neg && intAtoms(f) {
		s.add(f, new(big.Rat).Sub(a.k, ratOne), false, -1)
		return
	}
	s.add(f, a.k, !a.neg, -1)
}

func intAtoms(f *T) bool {
	for _, m := range monos(f) {
		for _, g := range m.fs {
			if g.a.num != IntNum || g.e < 0 {
				return false
			}
		}
	}
	return true
}

// axioms adds what is known of the quantities that occur
func (s *linSys) axioms() {
	done := map[int]bool{}
	for round := 0; round < 3; round++ {
		n := len(s.vars)
		var ids []int
		for id := range s.vars {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			if done[id] {
				continue
			}
			done[id] = true
			v := s.vars[id]
			if v.Op == "poly" {
				if ms := monos(v); len(ms) == 1 && len(ms[0].fs) == 1 && ms[0].fs[0].e == 1 {
					v = ms[0].fs[0].a
				} else {
					continue
				}
			}
			if lo := lowerBound(v); lo != nil {
				s.add(v, lo, false, 1)
			}
			if hi := upperBound(v); hi != nil {
				s.add(v, hi, false, -1)
			}
			if v.Op == "idiv" {
				if c, ok := v.Args[1].ConstVal(); ok && c.Sign() > 0 {
					if lo := lowerBound(v.Args[0]); lo != nil && lo.Sign() >= 0 {
						d := Sub(v.Args[0], Mul(Const(c), v))
						s.add(d, ratZero, false, 1)
						s.add(d, new(big.Rat).Sub(c, ratOne), false, -1)
					}
				}
			}
			if v.Op == "first" || v.Op == "last" {
				// the place is within the range searched when there is one
				for _, l := range s.lits {
					if l.holds && l.a.Op == "any" && l.a.Args[0] == v.Args[0] && l.a.Args[1] == v.Args[1] && v.Args[0] != Inf {
						s.add(Sub(v.Args[0], v), ratOne, false, 1)
					}
				}
			}
		}
		if len(s.vars) == n {
			break
		}
	}
}

// feasible tells whether the system may have a solution
func (s *linSys) feasible() bool {
	cons := s.cons
	for {
		// constants
		var rest []linCons
		vars := map[int]int{}
		for _, c := range cons {
			for v, x := range c.c {
				if x.Sign() == 0 {
					delete(c.c, v)
				}
			}
			if len(c.c) == 0 {
				if c.k.Sign() > 0 || c.k.Sign() == 0 && c.strict {
					return false
				}
				continue
			}
			for v := range c.c {
				vars[v]++
			}
			rest = append(rest, c)
		}
		cons = rest
		if len(vars) == 0 {
			return true
		}
		// the variable whose elimination costs least
		best, cost := -1, 0
		var ids []int
		for v := range vars {
			ids = append(ids, v)
		}
		sort.Ints(ids)
		for _, v := range ids {
			p, n := 0, 0
			for _, c := range cons {
				if x, ok := c.c[v]; ok {
					if x.Sign() > 0 {
						p++
					} else {
						n++
					}
				}
			}
			if best < 0 || p*n-p-n < cost {
				best, cost = v, p*n-p-n
			}
		}
		var pos, neg, out []linCons
		for _, c := range cons {
			x, ok := c.c[best]
			switch {
			case !ok:
				out = append(out, c)
			case x.Sign() > 0:
				pos = append(pos, c)
			default:
				neg = append(neg, c)
			}
		}
		if len(pos)*len(neg) > 400 {
			return true // give up
		}
		for _, p := range pos {
			for _, n := range neg {
				a, b := new(big.Rat).Neg(n.c[best]), p.c[best]
				r := linCons{c: map[int]*big.Rat{}, strict: p.strict || n.strict}
				r.k = new(big.Rat).Add(new(big.Rat).Mul(p.k, a), new(big.Rat).Mul(n.k, b))
				for v, x := range p.c {
					r.c[v] = new(big.Rat).Mul(x, a)
				}
				for v, x := range n.c {
					y := new(big.Rat).Mul(x, b)
					if o, ok := r.c[v]; ok {
						y.Add(y, o)
					}
					r.c[v] = y
				}
				delete(r.c, best)
				out = append(out, r)
			}
		}
		if len(out) > 3000 {
			return true
		}
		cons = out
	}
}

type lit struct {
	a     *T
	holds bool
}

// contradicts tells that the same condition was already taken the other way
func contradicts(ls []lit, a *T, holds bool) bool {
	for _, l := range ls {
		if l.a == a && l.holds != holds {
			return true
		}
	}
	return false
}

func feasibleLits(ls []lit) bool {
	s := &linSys{vars: map[int]*T{}, lits: ls}
	for _, l := range ls {
		s.literal(l.a, l.holds)
	}
	if len(s.cons) < 2 {
		return true
	}
	s.axioms()
	// what must hold when two quantities agree carries over to other atoms
	return s.feasible()
}

// Ways calls f for each way through a diagram that can happen under the
// condition; it stops when f returns false or after n ways
func Ways(t, cond *T, n int, f func(leaf *T, ls []lit) bool) bool {
	var rec func(t *T, c *T, ls []lit) bool
	rec = func(t, c *T, ls []lit) bool {
		if c == False {
			return true
		}
		top := topAtom(t, c)
		if top == nil {
			n--
			if n < 0 {
				return false
			}
			return f(t, ls)
		}
		t1, t0 := cof(t, top)
		c1, c0 := cof(c, top)
		for i := 0; i < 2; i++ {
			l := append(append([]lit{}, ls...), lit{top, i == 0})
			tt, cc := t1, c1
			if i == 1 {
				tt, cc = t0, c0
			}
			if cc == False || contradicts(ls, top, i == 0) {
				continue
			}
			if top.Op == "thr" && !feasibleLits(l) {
				continue
			}
			if !rec(tt, cc, l) {
				return false
			}
		}
		return true
	}
	return rec(t, cond, nil)
}

// SameWays tells that two terms agree in every way that can happen under the
// condition
func SameWays(x, y, cond *T) bool {
	budget := 20000
	return sameWays(x, y, cond, &budget, 12)
}

func sameWays(x, y, cond *T, budget *int, depth int) bool {
	if x == y {
		return true
	}
	if depth == 0 || *budget <= 0 {
		return false
	}
	pair := liftN([]*T{x, y}, func(a []*T) *T { return mk("pair", "", []*T{a[0], a[1]}, NotNum) })
	return Ways(pair, cond, *budget, func(leaf *T, ls []lit) (same bool) {
		*budget--
		if *budget < 0 || leaf.Op != "pair" {
			return false
		}
		defer func() {
			if !same && Debug {
				for _, l := range ls {
					println("   ", l.holds, l.a.String())
				}
				println("try:", leaf.String())
			}
			if !same && (cannotBe(ls) || atOdds(ls)) {
				same = true
			}
			if !same && Debug {
				for _, l := range ls {
					println("   ", l.holds, l.a.String())
				}
				println("differ:", leaf.Args[0].Op, leaf.Args[1].Op, len(leaf.Args[0].Args), leaf.Args[0].poly != nil, leaf.String())
			}
		}()
		a, b := leaf.Args[0], leaf.Args[1]
		if a == b {
			return true
		}
		c := litsTerm(ls)
		eqs := WithEquations(c)
		if x, y := eqs(a), eqs(b); x != a || y != b {
			// what the conditions make equal may make the two agree
			return sameWays(x, y, c, budget, depth-1)
		}
		return sameParts(a, b, c, budget, depth-1)
	})
}

// atOdds tells that what some of the literals make equal is at odds with
// the others
func atOdds(ls []lit) bool {
	eqs := WithEquations(litsTerm(ls))
	c := True
	for _, l := range ls {
		t := BoolTerm(eqs(atomT(l.a)))
		if !l.holds {
			t = Not(t)
		}
		c = And(c, t)
	}
	return c == False
}

// litsTerm is the conjunction of the literals
func litsTerm(ls []lit) *T {
	cond := True
	for _, l := range ls {
		t := atomT(l.a)
		if !l.holds {
			t = Not(t)
		}
		cond = And(cond, t)
	}
	return cond
}

// sameParts compares two records, matrices or sequences part by part, under
// the conditions under which they are the values
func sameParts(a, b, cond *T, budget *int, depth int) bool {
	if a.Op != b.Op || len(a.Args) != len(b.Args) || a.poly != nil || b.poly != nil {
		return false
	}
	switch a.Op {
	case "obj", "rec", "seq", "listv", "matv", "pair", "lam", "call", "jobj", "idx", "ld", "base", "off", "len", "ext", "boxed":
	default:
		return false
	}
	if a.Op != "lam" && a.Aux != b.Aux {
		return false
	}
	if a.Op == "lam" {
		y := FreshIndex("y", nil)
		return sameWays(openLam(a, y), openLam(b, y), cond, budget, depth)
	}
	for i := range a.Args {
		if x, y := a.Args[i], b.Args[i]; i == 1 && (a.Op == "seq" || a.Op == "listv") && x.Op == "lam" && y.Op == "lam" {
			// entries are compared at the positions there are
			k := FreshIndex("y", nil)
			if !sameWays(openLam(x, k), openLam(y, k), And(cond, inRange(k, a.Args[0])), budget, depth-1) {
				return false
			}
			continue
		}
		if !sameWays(a.Args[i], b.Args[i], cond, budget, depth) {
			return false
		}
		if i == 0 && (a.Op == "seq" || a.Op == "listv") && And(cond, Ge(a.Args[0], One)) == False {
			return true // without entries
		}
	}
	return true
}

// Proved tells that a condition holds in every way that can happen
func Proved(t, cond *T) bool {
	return Ways(t, cond, 20000, func(leaf *T, ls []lit) bool { return leaf == True || cannotBe(ls) })
}
