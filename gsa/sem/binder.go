package sem

import (
	"math/big"
	"sort"
	"strconv"
)

// closeLam abstracts symbol x from body
func closeLam(x, body *T) *T {
	h := body.hgt + 1
	var b *T
	for {
		b = Subst(body, map[*T]*T{x: bv(h)})
		if b.hgt+1 >= h {
			break
		}
		h = b.hgt + 1
	}
	if b.hgt+1 > h {
		h = b.hgt + 1
		b = Subst(body, map[*T]*T{x: bv(h)})
	}
	key := "lam|" + strconv.Itoa(h) + "|" + strconv.Itoa(b.id)
	if t, ok := table[key]; ok {
		return t
	}
	t := &T{id: nextID, Op: "lam", Aux: strconv.Itoa(h), Args: []*T{b}, hgt: h}
	nextID++
	id := bv(h).id
	for _, v := range b.vars {
		if v != id {
			t.vars = append(t.vars, v)
		}
	}
	table[key] = t
	return t
}

// openLam applies an abstraction
func openLam(lam, x *T) *T {
	h, _ := strconv.Atoi(lam.Aux)
	return Subst(lam.Args[0], map[*T]*T{bv(h): x})
}

func rebuildBinder(t *T, f func(*T) *T) *T {
	if t.Op == "lam" {
		y := FreshIndex("y", nil)
		return Lam(y, f(openLam(t, y)))
	}
	if t.Op == "nth" {
		y := FreshIndex("y", nil)
		return Nth(y, f(openLam(t.Args[0], y)), f(t.Args[1]))
	}
	if t.Op == "lx" {
		args := make([]*T, len(t.Args))
		for i, a := range t.Args {
			args[i] = f(a)
		}
		return Op("lx", t.Aux, t.num, args...)
	}
	n := f(t.Args[0])
	return liftN([]*T{n}, func(as []*T) *T {
		n := as[0]
		y := FreshIndex("y", n)
		body := f(openLam(t.Args[1], y))
		switch t.Op {
		case "sum":
			return SumT(n, y, body)
		case "prod":
			return ProdT(n, y, body)
		case "any":
			return AnyT(n, y, body)
		case "first":
			return FirstT(n, y, body)
		case "last":
			return LastT(n, y, body)
		case "max":
			return MaxT(n, y, body, f(t.Args[2]))
		case "min":
			return Neg(MaxT(n, y, Neg(body), Neg(f(t.Args[2]))))
		}
		panic("binder " + t.Op)
	})
}

// renew gives the bound symbol the facts of its range
func renew(n, x, body *T) (*T, *T) {
	y := FreshIndex("b", n)
	return y, Subst(body, map[*T]*T{x: y})
}

// hoist moves decisions that do not depend on x out of a binder
func hoist(x, body *T, f func(body *T) *T) *T {
	for _, a := range Atoms(body) {
		if !a.Has(x) {
			return Ite(atomT(a), hoist(x, restrict(body, a, true), f), hoist(x, restrict(body, a, false), f))
		}
	}
	return f(body)
}

// linearIn decomposes f = s*x + r with s = +-1 and r free of x
func linearIn(f, x *T) (s int, r *T, ok bool) {
	var rest []mono
	for _, m := range monos(f) {
		has := false
		for _, g := range m.fs {
			if g.a.Has(x) {
				has = true
			}
		}
		if !has {
			rest = append(rest, m)
			continue
		}
		if len(m.fs) != 1 || m.fs[0].a != x || m.fs[0].e != 1 || s != 0 {
			return 0, nil, false
		}
		switch {
		case m.c.Cmp(ratOne) == 0:
			s = 1
		case m.c.Cmp(big.NewRat(-1, 1)) == 0:
			s = -1
		default:
			return 0, nil, false
		}
	}
	if s == 0 {
		return 0, nil, false
	}
	return s, mkPoly(rest), true
}

// cutPoint expresses a threshold atom as x>=c (pos) or not x>=c
func cutPoint(a, x *T) (c *T, pos bool, ok bool) {
	if a.Op != "thr" {
		return nil, false, false
	}
	s, r, ok := linearIn(a.Args[0], x)
	if !ok || r.num == RealNum {
		return nil, false, false
	}
	k := a.k
	if s > 0 { // x >= k-r  (or x > k-r)
		kk := k
		if a.neg {
			kk = new(big.Rat).Add(floorRat(k), ratOne)
		} else {
			kk = ceilRat(k)
		}
		return Sub(Const(kk), r), true, true
	}
	// -x + r >= k -> x <= r-k -> not x >= r-k+1
	kk := ceilRat(k)
	if a.neg {
		kk = new(big.Rat).Add(floorRat(k), ratOne)
	}
	return Sub(Add(r, One), Const(kk)), false, true
}

type cut struct {
	atom *T
	c    *T
	pos  bool
}

func cuts(x, body *T) []cut {
	var res []cut
	for _, a := range Atoms(body) {
		if !a.Has(x) {
			continue
		}
		if c, pos, ok := cutPoint(a, x); ok {
			res = append(res, cut{a, c, pos})
		}
	}
	return res
}

// atCut restricts a body to x>=c (ge) or x<c
func atCut(body *T, ct cut, ge bool) *T {
	return restrict(body, ct.atom, ge == ct.pos)
}

// splitRange breaks a range of x at all linear thresholds on x.
// leaf handles a range [lo,hi) without such thresholds, def is the value of
// an empty range, one that of a single position.
func splitRange(lo, hi, x, body, def *T, leaf func(lo, hi, body *T) *T, comb func(a, b *T) *T) *T {
	if body == def {
		return def
	}
	cs := cuts(x, body)
	if len(cs) == 0 {
		return leaf(lo, hi, body)
	}
	// all conditions refer to the same cut value may differ; take the first
	a := cs[0]
	sameC := func(c *T) []cut {
		var r []cut
		for _, o := range cs {
			if o.c == c {
				r = append(r, o)
			}
		}
		return r
	}
	applyCut := func(b *T, c *T, ge bool) *T {
		for _, o := range sameC(c) {
			b = atCut(b, o, ge)
		}
		return b
	}
	next := Add(a.c, One)
	prev := Sub(a.c, One)
	var p, q *T // point [p,q) with q=p+1
	if len(sameC(next)) > 0 {
		p, q = a.c, next
	} else if len(sameC(prev)) > 0 {
		p, q = prev, a.c
	}
	rec := func(lo, hi, b *T) *T { return splitRange(lo, hi, x, b, def, leaf, comb) }
	if p != nil {
		below := applyCut(applyCut(body, p, false), q, false)
		at := applyCut(applyCut(body, p, true), q, false)
		above := applyCut(applyCut(body, p, true), q, true)
		atVal := Subst(at, map[*T]*T{x: p})
		in := And(Ge(p, lo), Lt(p, hi))
		var mid, out *T
		if below == def && above == def {
			mid = atVal
			out = def
		} else {
			mid = comb(comb(rangeOr(lo, p, rec, below, def), atVal), rangeOr(q, hi, rec, above, def))
			out = Ite(Lt(p, lo), rec(lo, hi, above), rec(lo, hi, below))
		}
		return Ite(in, mid, out)
	}
	below := applyCut(body, a.c, false)
	above := applyCut(body, a.c, true)
	var allBelow *T
	if d, ok := Sub(a.c, lo).ConstVal(); ok && d.Cmp(ratOne) == 0 {
		// at most one position below
		allBelow = Ite(Gt(hi, lo), rec(lo, a.c, below), def)
	} else {
		allBelow = rec(lo, hi, below)
	}
	mid := comb(rec(lo, a.c, below), rec(a.c, hi, above))
	return Ite(Le(a.c, lo), rec(lo, hi, above), Ite(Ge(a.c, hi), allBelow, mid))
}

func rangeOr(lo, hi *T, rec func(lo, hi, b *T) *T, body, def *T) *T {
	if body == def {
		return def
	}
	return rec(lo, hi, body)
}

func constSmall(n *T) (int, bool) {
	c, ok := n.ConstVal()
	if !ok || !c.IsInt() || !c.Num().IsInt64() {
		return 0, false
	}
	v := c.Num().Int64()
	if v > 12 {
		return 0, false
	}
	if v < 0 {
		v = 0
	}
	return int(v), true
}

func shift(x, lo, body *T) *T {
	if lo == Zero {
		return body
	}
	return Subst(body, map[*T]*T{x: Add(x, lo)})
}

// clampN makes a count non-negative
func clampN(n *T) *T {
	if n == Inf {
		return n
	}
	return MapLeaves(n, func(l *T) *T { return Ite(Ge(l, Zero), l, Zero) })
}

// SumT is the sum of body over 0<=x<n
func SumT(n, x, body *T) *T {
	if n.Op == "ite" {
		return liftN([]*T{n}, func(a []*T) *T { return SumT(a[0], x, body) })
	}
	x, body = renew(n, x, body)
	return hoist(x, body, func(b *T) *T {
		return splitRange(Zero, n, x, b, Zero, func(lo, hi, b *T) *T {
			return sumLeaf(Sub(hi, lo), x, shift(x, lo, b))
		}, Add)
	})
}

func sumLeaf(n, x, body *T) *T {
	if n.Op == "ite" {
		return liftN([]*T{n}, func(a []*T) *T { return SumT(a[0], x, body) })
	}
	if body == Zero {
		return Zero
	}
	if k, ok := constSmall(n); ok && n != Inf {
		r := Zero
		for i := 0; i < k; i++ {
			r = Add(r, Subst(body, map[*T]*T{x: Int(int64(i))}))
		}
		return r
	}
	// split into (factor free of x) * (monomial in x), coefficient diagrams
	type part struct {
		free, dep []factor
	}
	parts := map[string]*part{}
	for _, l := range Leaves(body) {
		for _, m := range monos(l) {
			fr, dp := splitMono(m.fs, x)
			k := monoKey(fr) + "/" + monoKey(dp)
			if parts[k] == nil {
				parts[k] = &part{fr, dp}
			}
		}
	}
	var keys []string
	for k := range parts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	total := Zero
	for _, k := range keys {
		p := parts[k]
		coef := MapLeaves(body, func(l *T) *T {
			for _, m := range monos(l) {
				fr, dp := splitMono(m.fs, x)
				if monoKey(fr)+"/"+monoKey(dp) == k {
					return Const(m.c)
				}
			}
			return Zero
		})
		free := mkPoly([]mono{{c: ratOne, fs: p.free}})
		dep := mkPoly([]mono{{c: ratOne, fs: p.dep}})
		total = Add(total, Mul(free, sumAtom(n, x, coef, dep)))
	}
	return total
}

func splitMono(fs []factor, x *T) (free, dep []factor) {
	for _, f := range fs {
		if f.a.Has(x) {
			dep = append(dep, f)
		} else {
			free = append(free, f)
		}
	}
	return
}

func sumAtom(n, x, coef, dep *T) *T {
	// scale so that the first nonzero leaf is 1
	scale := ratOne
	for t := coef; ; {
		if t.Op == "ite" {
			t = t.Args[1]
			continue
		}
		c, _ := t.ConstVal()
		if c == nil || c.Sign() == 0 {
			break
		}
		scale = c
		break
	}
	if scale == ratOne {
		for _, l := range Leaves(coef) {
			if c, ok := l.ConstVal(); ok && c.Sign() != 0 {
				scale = c
				break
			}
		}
	}
	body := MapLeaves(coef, func(l *T) *T { return Mul(Mul(l, Const(new(big.Rat).Inv(scale))), dep) })
	sc := Const(scale)
	if !body.Has(x) {
		if n == Inf {
			return Inf
		}
		return Mul(sc, Mul(clampN(n), body))
	}
	// polynomial sums of x itself
	if body == x && n != Inf {
		m := clampN(n)
		return Mul(sc, Mul(Const(big.NewRat(1, 2)), Mul(m, Sub(m, One))))
	}
	if r := interchange(n, x, coef, scale, dep); r != nil {
		return Mul(sc, r)
	}
	lam := closeLam(x, body)
	// counting up to the k-th hit gives k
	if n.Op == "nth" && n.Args[0] == indicator(lam) {
		return Mul(sc, n.Args[1])
	}
	if r := nthPlusOne(n, lam); r != nil {
		return Mul(sc, r)
	}
	if (n.Op == "first") && n.Args[1] == indicator(lam) {
		return Zero
	}
	num := RealNum
	if body.num == IntNum {
		num = IntNum
	}
	return Mul(sc, mk("sum", "", []*T{n, lam}, num))
}

// interchange puts two nested sums into their canonical order
func interchange(n, x, coef *T, scale *big.Rat, dep *T) *T {
	ms := monos(dep)
	if len(ms) != 1 || n == Inf {
		return nil
	}
	for i, f := range ms[0].fs {
		if f.a.Op != "sum" || f.e != 1 {
			continue
		}
		m := f.a.Args[0]
		if m == Inf || m.Has(x) || m.id >= n.id {
			continue
		}
		rest := append(append([]factor{}, ms[0].fs[:i]...), ms[0].fs[i+1:]...)
		y := FreshIndex("y", m)
		in := Mul(mkPoly([]mono{{c: ms[0].c, fs: rest}}), openLam(f.a.Args[1], y))
		body := MapLeaves(coef, func(l *T) *T { return Mul(Mul(l, Const(new(big.Rat).Inv(scale))), in) })
		return SumT(m, y, SumT(n, x, body))
	}
	return nil
}

func nthPlusOne(n, lam *T) *T {
	ms := monos(n)
	if len(ms) != 2 || len(ms[0].fs) != 0 || ms[0].c.Cmp(ratOne) != 0 || len(ms[1].fs) != 1 {
		return nil
	}
	a := ms[1].fs[0].a
	if a.Op == "nth" && ms[1].c.Cmp(ratOne) == 0 && ms[1].fs[0].e == 1 && a.Args[0] == indicator(lam) {
		return Add(a.Args[1], One)
	}
	return nil
}

// indicator turns a 0/1 abstraction into the boolean one
func indicator(lam *T) *T {
	b := lam.Args[0]
	for _, l := range Leaves(b) {
		if l != Zero && l != One {
			return nil
		}
	}
	y := FreshIndex("y", nil)
	return closeLam(y, MapLeaves(openLam(lam, y), func(l *T) *T {
		if l == One {
			return True
		}
		return False
	}))
}

// Count is the number of x<n where cond holds
func Count(n, x, cond *T) *T { return SumT(n, x, Ite(cond, One, Zero)) }

// ProdT is the product of body over x<n
func ProdT(n, x, body *T) *T {
	if k, ok := constSmall(n); ok {
		r := One
		for i := 0; i < k; i++ {
			r = Mul(r, Subst(body, map[*T]*T{x: Int(int64(i))}))
		}
		return r
	}
	if n.Op == "ite" {
		return liftN([]*T{n}, func(a []*T) *T { return ProdT(a[0], x, body) })
	}
	x, body = renew(n, x, body)
	return hoist(x, body, func(b *T) *T {
		if b == One {
			return One
		}
		return mk("prod", "", []*T{n, closeLam(x, b)}, RealNum)
	})
}

// AnyT tells if body holds for some x<n
func AnyT(n, x, body *T) *T {
	body = BoolTerm(body)
	if n.Op == "ite" {
		return liftN([]*T{n}, func(a []*T) *T { return AnyT(a[0], x, body) })
	}
	x, body = renew(n, x, body)
	return hoist(x, body, func(b *T) *T {
		return splitRange(Zero, n, x, b, False, func(lo, hi, b *T) *T {
			return anyLeaf(Sub(hi, lo), x, shift(x, lo, b))
		}, Or)
	})
}

func anyLeaf(n, x, body *T) *T {
	if n.Op == "ite" {
		return liftN([]*T{n}, func(a []*T) *T { return anyLeaf(a[0], x, body) })
	}
	if body == False {
		return False
	}
	if !body.Has(x) {
		return And(Gt(n, Zero), body)
	}
	if n != Inf {
		if k, ok := constSmall(n); ok {
			r := False
			for i := 0; i < k; i++ {
				r = Or(r, Subst(body, map[*T]*T{x: Int(int64(i))}))
			}
			return r
		}
	}
	if pos, cond, rest, ok := uniquePos(body, x, n); ok {
		return And(cond, Subst(rest, map[*T]*T{x: pos}))
	}
	// some earlier step had g: some step but the last has g
	if g := prefixAny(body, x); g != nil {
		m := n
		if n != Inf {
			m = Sub(n, One)
		}
		y := FreshIndex("y", m)
		return AnyT(clampN(m), y, openLam(g, y))
	}
	lam := closeLam(x, body)
	if n.Op == "first" && n.Args[1] == lam {
		return False
	}
	return atomT(mk("any", "", []*T{n, lam}, NotNum))
}

// prefixAny recognises body == any(y<x, g(y))
func prefixAny(body, x *T) *T {
	if body.Op == "ite" && body.Args[1] == True && body.Args[2] == False {
		a := body.Args[0]
		if a.Op == "any" && a.Args[0] == x && !a.Args[1].Has(x) {
			return a.Args[1]
		}
	}
	return nil
}

// AllT tells if body holds for all x<n
func AllT(n, x, body *T) *T { return Not(AnyT(n, x, Not(BoolTerm(body)))) }

// FirstT is the first x<n with body (meaningful only if there is one)
func FirstT(n, x, body *T) *T { return searchT("first", n, x, body) }

// LastT is the last x<n with body
func LastT(n, x, body *T) *T { return searchT("last", n, x, body) }

func searchT(op string, n, x, body *T) *T {
	body = BoolTerm(body)
	if n.Op == "ite" {
		return liftN([]*T{n}, func(a []*T) *T { return searchT(op, a[0], x, body) })
	}
	x, body = renew(n, x, body)
	return hoist(x, body, func(b *T) *T { return searchRange(op, Zero, n, x, b) })
}

// searchRange: first/last x in [lo,hi) with body
func searchRange(op string, lo, hi, x, body *T) *T {
	if hi.Op == "ite" || lo.Op == "ite" {
		return liftN([]*T{lo, hi}, func(a []*T) *T { return searchRange(op, a[0], a[1], x, body) })
	}
	if body == False {
		return Zero
	}
	if body == True {
		if op == "first" {
			return lo
		}
		return Sub(hi, One)
	}
	cs := cuts(x, body)
	if len(cs) > 0 {
		a := cs[0]
		below := atCut(body, a, false)
		above := atCut(body, a, true)
		for _, o := range cs[1:] {
			if o.c == a.c {
				below = atCut(below, o, false)
				above = atCut(above, o, true)
			}
		}
		loAbove := Max2(lo, a.c)
		hiBelow := hi
		if hi != Inf {
			hiBelow = Min2(hi, a.c)
		} else {
			hiBelow = a.c
		}
		if below == False {
			return searchRange(op, loAbove, hi, x, above)
		}
		if above == False {
			return searchRange(op, lo, hiBelow, x, below)
		}
		if op == "first" {
			return Ite(anyRange(lo, hiBelow, x, below), searchRange(op, lo, hiBelow, x, below), searchRange(op, loAbove, hi, x, above))
		}
		return Ite(anyRange(loAbove, hi, x, above), searchRange(op, loAbove, hi, x, above), searchRange(op, lo, hiBelow, x, below))
	}
	n := hi
	if hi != Inf {
		n = Sub(hi, lo)
	}
	b := shift(x, lo, body)
	if n != Inf {
		if c, ok := n.ConstVal(); ok && c.Cmp(ratOne) == 0 {
			return lo
		}
	}
	if pos, _, _, ok := uniquePos(b, x, n); ok {
		return Add(pos, lo)
	}
	if g := prefixAny(b, x); g != nil && op == "first" {
		m := n
		if n != Inf {
			m = Sub(n, One)
		}
		y := FreshIndex("y", m)
		return Add(Add(FirstT(m, y, openLam(g, y)), One), lo)
	}
	return Add(lo, mk(op, "", []*T{n, closeLam(x, b)}, IntNum))
}

func anyRange(lo, hi, x, body *T) *T {
	n := Inf
	if hi != Inf {
		n = Sub(hi, lo)
	}
	if n.Op == "ite" || lo.Op == "ite" {
		return liftN([]*T{lo, n}, func(a []*T) *T { return AnyT(a[1], x, shift(x, a[0], body)) })
	}
	return AnyT(n, x, shift(x, lo, body))
}

// MaxT is the maximum of init and body(x) for x<n
func MaxT(n, x, body, init *T) *T {
	if n.Op == "ite" {
		return liftN([]*T{n}, func(a []*T) *T { return MaxT(a[0], x, body, init) })
	}
	if n == Zero {
		return init
	}
	x, body = renew(n, x, body)
	num := RealNum
	if body.num == IntNum {
		num = IntNum
	}
	if init.Op == "ite" {
		return liftN([]*T{init}, func(a []*T) *T { return MaxT(n, x, body, a[0]) })
	}
	return hoist(x, body, func(b *T) *T {
		if b.Op == "max" && b.Args[2].Op != "ninf" {
			// an inner start below the outer one never matters
			if c, ok := b.Args[2].ConstVal(); ok {
				if d, ok := init.ConstVal(); ok && c.Cmp(d) <= 0 {
					b = mk("max", "", []*T{b.Args[0], b.Args[1], mk("ninf", "", nil, RealNum)}, b.num)
				}
			}
		}
		if !b.Has(x) {
			return Ite(Gt(n, Zero), Max2(init, b), init)
		}
		if c, ok := n.ConstVal(); ok && c.Cmp(ratOne) == 0 {
			return Max2(init, Subst(b, map[*T]*T{x: Zero}))
		}
		return mk("max", "", []*T{n, closeLam(x, b), init}, num)
	})
}

// Nth is the k-th (from 0) position where cond holds
func Nth(x, cond, k *T) *T {
	cond = BoolTerm(cond)
	if k.Op == "ite" {
		return liftN([]*T{k}, func(a []*T) *T { return Nth(x, cond, a[0]) })
	}
	x, cond = renew(Inf, x, cond)
	return hoist(x, cond, func(c *T) *T {
		if c == True {
			return k
		}
		if c == False {
			return Zero
		}
		return mk("nth", "", []*T{closeLam(x, c), k}, IntNum)
	})
}

// Lam is an unapplied abstraction (content of a sequence)
func Lam(x, body *T) *T {
	return hoist(x, body, func(b *T) *T { return closeLam(x, b) })
}

// eqCase is a decomposition body == (f==k) and rest
type eqCase struct {
	f    *T
	k    *big.Rat
	rest *T
}

// eqCases finds integer equalities implied by a boolean diagram
func eqCases(body, x *T) []eqCase {
	as := Atoms(body)
	have := map[int]bool{}
	for _, a := range as {
		have[a.id] = true
	}
	var res []eqCase
	for _, a := range as {
		if a.Op != "thr" || a.neg || !a.Has(x) {
			continue
		}
		// lower side: a (f>=k) must hold
		if restrict(body, a, false) != False {
			continue
		}
		k1 := new(big.Rat).Add(a.k, ratOne)
		up := thrAtom(a.Args[0], k1, false)
		if !have[up.id] {
			continue
		}
		if restrict(body, up, true) != False {
			continue
		}
		rest := restrict(restrict(body, a, true), up, false)
		res = append(res, eqCase{a.Args[0], a.k, rest})
	}
	return res
}

// uniquePos finds the only x<n that can satisfy body. rest is the remaining
// condition (to be taken at x=pos), cond says when pos is in range.
func uniquePos(body, x, n *T) (pos, cond, rest *T, ok bool) {
	for _, e := range eqCases(body, x) {
		if s, r, lin := linearIn(e.f, x); lin {
			// s*x + r == k
			c := Sub(Const(e.k), r)
			if s < 0 {
				c = Neg(c)
			}
			in := Ge(c, Zero)
			if n != Inf {
				in = And(in, Lt(c, n))
			}
			return c, in, e.rest, true
		}
		// one monomial with x: a counting prefix or an nth position
		var dep *mono
		var free []mono
		bad := false
		ms := monos(e.f)
		for i := range ms {
			h := false
			for _, g := range ms[i].fs {
				if g.a.Has(x) {
					h = true
				}
			}
			if !h {
				free = append(free, ms[i])
				continue
			}
			if dep != nil || len(ms[i].fs) != 1 || ms[i].fs[0].e != 1 {
				bad = true
				break
			}
			dep = &ms[i]
		}
		if bad || dep == nil || new(big.Rat).Abs(dep.c).Cmp(ratOne) != 0 {
			continue
		}
		a := dep.fs[0].a
		K := Sub(Const(e.k), mkPoly(free))
		if dep.c.Sign() < 0 {
			K = Neg(K)
		}
		switch a.Op {
		case "sum":
			if a.Args[0] != x || a.Args[1].Has(x) {
				continue
			}
			ind := indicator(a.Args[1])
			if ind == nil {
				continue
			}
			g := openLam(ind, x)
			if !Implies(e.rest, g) {
				continue
			}
			rest := Constrain(e.rest, g)
			y := FreshIndex("y", nil)
			gy := openLam(ind, y)
			pos := Nth(y, gy, K)
			in := Ge(K, Zero)
			if n != Inf {
				in = And(in, Lt(K, Count(n, y, gy)))
			}
			return pos, in, rest, true
		case "nth":
			// nth(g, x+d) == K
			if a.Args[0].Has(x) {
				continue
			}
			s, d, lin := linearIn(a.Args[1], x)
			if !lin || s < 0 {
				continue
			}
			y := FreshIndex("y", nil)
			gy := openLam(a.Args[0], y)
			if K.Op == "ite" {
				continue
			}
			cnt := Count(K, y, gy)
			pos := Sub(cnt, d)
			in := And(Ge(K, Zero), openLam(a.Args[0], K))
			if n != Inf {
				if lim := countLimit(n, a.Args[0]); lim != nil && d == Zero {
					in = And(in, Lt(K, lim))
				} else {
					in = And(in, And(Ge(pos, Zero), Lt(pos, n)))
				}
			}
			return pos, in, e.rest, true
		}
	}
	return nil, nil, nil, false
}

// countLimit recognises n == sum(M, indicator of lam) and returns M
func countLimit(n, lam *T) *T {
	if n.Op == "sum" && indicator(n.Args[1]) == lam {
		return n.Args[0]
	}
	return nil
}
