package sem

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Loop is one evaluation of a natural loop. Values of the body are expressed
// over the turn counter t, the loop header values ("phi" and "hdr" terms
// marked with mark) and everything from outside.
type Loop struct {
	ev        *Eval
	id        int
	t         *T
	mark      *T
	parent    *Loop
	frame     *frame
	header    *ssa.BasicBlock
	guard     *T // condition to enter, in the enclosing region
	pre       *Mem
	latch     *Mem
	latchG    *T
	phis      []*loopPhi
	sols      map[int]*T
	busy      map[int]bool
	busyShape map[string]int
	hdrs      map[string]*Map
	assume    map[string]bool // regions written in the body; nil: not yet known
	freshV    map[string]bool // regions of slices that hold only what the caller put there or new slices
	fresh     map[string]bool // regions in which the body writes only objects the analysed code made
	outerT    []*T
	syms      []*T

	flags  map[*T]*T // what the variables that end the loop are at the end
	exits  []*exitEdge
	tau    *T // number of the turn in which the loop is left
	finals map[int]*T
	events []*Event
	Pos    string
}

// loopCell is a cell of memory holding a slice that grows in a loop
type loopCell struct {
	r    string
	key  *T
	elem types.Type
}

// grownCells finds the cells that hold a slice extended in each turn; they are
// treated like variables of the loop
func (L *Loop) grownCells(touched map[string]bool) []*loopCell {
	var res []*loopCell
	var rs []string
	for r := range touched {
		if isSliceType(L.ev.regType[r]) {
			rs = append(rs, r)
		}
	}
	sort.Strings(rs)
	for _, r := range rs {
		keys := map[*T]bool{}
		L.storeKeys(L.latch.get(r), r, keys, map[*Map]bool{}, nil)
		var ks []*T
		for k := range keys {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
		for _, k := range ks {
			if rootOf(k).Op != "new" {
				continue
			}
			grows := false
			for _, l := range Leaves(L.ev.sel(L.latch.get(r), r, k)) {
				if l.Op != "slice" {
					continue
				}
				for _, m := range monos(l.Args[2]) {
					for _, f := range m.fs {
						if x := f.a; x.Op == "len" && x.Args[0].Op == "hdr" && x.Args[0].Aux == r && len(monos(l.Args[2])) > 1 {
							grows = true
						}
					}
				}
			}
			if grows {
				res = append(res, &loopCell{r, k, L.ev.regType[r].Underlying().(*types.Slice).Elem()})
			}
		}
	}
	return res
}

// storeKeys collects the keys that do not depend on the turn of the loop
func (L *Loop) storeKeys(m *Map, r string, keys map[*T]bool, seen map[*Map]bool, in []*Loop) {
	for m != nil && !seen[m] {
		seen[m] = true
		switch m.kind {
		case mExit:
			in = append(append([]*Loop{}, in...), m.loop)
		case mInit:
			return
		case mHdr:
			if m.loop == L {
				return
			}
			if m.loop.latch != nil {
				L.storeKeys(m.loop.pre.get(r), r, keys, seen, in)
			}
			return
		case mStore:
			ok := !m.key.Has(L.t) && !m.key.Has(L.mark) && m.key.Op != "ite"
			for _, k := range in {
				ok = ok && !m.key.Has(k.t) && !m.key.Has(k.mark)
			}
			if ok {
				keys[m.key] = true
			}
		case mMerge:
			L.storeKeys(m.b, r, keys, seen, in)
		}
		m = m.prev
	}
}

type loopPhi struct {
	cell  *loopCell // a cell of memory instead of a variable
	phi   *ssa.Phi
	init  *T
	next  *T
	sym   *T // header value used in the body
	off   *T // slice phis: offset and length symbols
	ln    *T
	nextO *T
	nextL *T
	mode  int // 0 scalar, 1 slice over a fixed base, 2 slice over its own virtual base
	base  *T
}

type exitEdge struct {
	from, to *ssa.BasicBlock
	guard    *T
	mem      *Mem
	fguard   *T
}

func (L *Loop) hdrMap(r string) *Map {
	if L.assume != nil && !L.assume[r] {
		return L.pre.get(r)
	}
	if m := L.hdrs[r]; m != nil {
		return m
	}
	m := &Map{kind: mHdr, loop: L}
	L.hdrs[r] = m
	return m
}

// freshOnly tells that all the writes between the header of a loop and m are
// to objects made by the analysed code
func (L *Loop) freshOnly(m *Map, r string, seen map[*Map]bool) bool {
	for m != nil && !seen[m] {
		seen[m] = true
		switch m.kind {
		case mInit:
			return true
		case mHdr:
			k := m.loop
			if k == L {
				return true
			}
			if k.latch == nil || !L.freshOnly(k.latch.get(r), r, seen) {
				return false
			}
			m = k.pre.get(r)
			continue
		case mStore, mDef, mHavoc:
			if rootOf(m.key).Op != "new" {
				return false
			}
		case mCopy:
			if rootOf(m.dst).Op != "new" {
				return false
			}
		case mMerge:
			if !L.freshOnly(m.b, r, seen) {
				return false
			}
		}
		m = m.prev
	}
	return true
}

var loopOf = map[*T]*Loop{}

// freshVals tells that the slices written into a region are all new
func (L *Loop) freshVals(m *Map, r string, seen map[*Map]bool) bool {
	for m != nil && !seen[m] {
		seen[m] = true
		switch m.kind {
		case mInit:
			return true
		case mHdr:
			if m.loop == L {
				return true
			}
			return m.loop.freshV[r]
		case mStore:
			for _, l := range Leaves(m.val) {
				if l.Op != "slice" {
					return false
				}
				b := l.Args[0]
				if b == Nil || rootOf(b).Op == "new" {
					continue
				}
				if b.Op == "base" && b.Args[0].Op == "hdr" && b.Args[0].Aux == r && loopOf[b.Args[0].Args[0]] != nil {
					continue
				}
				return false
			}
		case mCopy, mDef, mHavoc:
			return false
		case mMerge:
			if !L.freshVals(m.b, r, seen) {
				return false
			}
		}
		m = m.prev
	}
	return true
}

// ownSlice compares the slice the caller handed in at one place with one held,
// at the start of some turn, by a region that holds only slices from the
// caller's own place and new ones
func ownSlice(a, b *T) bool {
	if b.Args[0].Op != "hdr" {
		a, b = b, a
	}
	h := b.Args[0]
	if h.Op != "hdr" || a.Args[0].Op != "ld" || !given(a) || a.Args[0].Aux == h.Aux {
		return false
	}
	L := loopOf[h.Args[0]]
	return L != nil && L.freshV[h.Aux]
}

// resolve replaces header values by their value at the start of turn t
func (L *Loop) resolve(v *T) *T {
	r := &resolver{L: L, memo: map[int]*T{}}
	return r.do(v)
}

type resolver struct {
	L    *Loop
	memo map[int]*T
}

func (r *resolver) do(t *T) *T {
	if !t.Has(r.L.mark) {
		return t
	}
	if v, ok := r.memo[t.id]; ok {
		return v
	}
	var v *T
	switch {
	case t.Op == "phi" && t.Args[0] == r.L.mark:
		v = r.L.solve(t)
	case t.Op == "hdr" && t.Args[0] == r.L.mark:
		k := r.do(t.Args[1])
		v = liftN([]*T{k}, func(a []*T) *T { return r.L.solveHdr(t.Aux, a[0], t.num) })
	default:
		v = rebuild(t, r.do)
	}
	r.memo[t.id] = v
	return v
}

// solveHdr gives the content of a region at the start of turn t
func (L *Loop) solveHdr(region string, key *T, num int) *T {
	raw := mk("hdr", region, []*T{L.mark, key}, num)
	if key.Has(L.mark) {
		return raw // unresolved key
	}
	if key.Has(L.t) {
		tau := L.freeSym(key)
		gk := Subst(key, map[*T]*T{L.t: tau})
		g := L.solve(mk("hdr", region, []*T{L.mark, gk}, num))
		if g.Has(L.mark) {
			return raw
		}
		return Subst(g, map[*T]*T{tau: L.t})
	}
	return L.solve(raw)
}

// sameCell writes x for other reads of its region where the keys agree
func (L *Loop) sameCell(x, next *T) *T {
	if x.Op != "hdr" || !next.Has(L.mark) {
		return next
	}
	var others []*T
	seen := map[int]bool{}
	var rec func(t *T)
	rec = func(t *T) {
		if seen[t.id] || !t.Has(L.mark) {
			return
		}
		seen[t.id] = true
		if t.Op == "hdr" && t.Args[0] == L.mark && t != x && t.Aux == x.Aux && !t.Args[1].Has(L.mark) {
			others = append(others, t)
		}
		for _, a := range t.Args {
			rec(a)
		}
		for _, m := range t.poly {
			for _, f := range m.fs {
				rec(f.a)
			}
		}
	}
	rec(next)
	for _, h := range others {
		c := eqKey(h.Args[1], x.Args[1])
		if c == False {
			continue
		}
		next = Ite(c, substTerm(next, h, x), next)
	}
	return next
}

// freeSym is a symbol for a turn that does not occur in the key
func (L *Loop) freeSym(key *T) *T {
	for _, s := range L.syms {
		if !key.Has(s) {
			return s
		}
	}
	s := FreshIndex("f", nil)
	L.syms = append(L.syms, s)
	return s
}

// solve gives the value of a header term at the start of turn t
func (L *Loop) solve(x *T) *T {
	if v, ok := L.sols[x.id]; ok {
		return v
	}
	if L.busy[x.id] || len(L.busy) > 12 {
		return x
	}
	shape := x.Aux
	if x.Op == "hdr" {
		shape += fmt.Sprint("@", rootOf(x.Args[1]).id)
	}
	if L.busyShape == nil {
		L.busyShape = map[string]int{}
	}
	if L.busyShape[shape] >= 3 {
		return x
	}
	L.ev.solves++
	if L.ev.solves > 4000 {
		return L.opaque(x)
	}
	L.busyShape[shape]++
	L.busy[x.id] = true
	defer func() { L.busyShape[shape]-- }()
	init, next, ok := L.recurrence(x)
	var v *T
	if ok {
		next = L.sameCell(x, L.resolve(next))
		v = L.closed(x, init, next)
		if v == nil || v.Has(L.mark) {
			v = L.recTerm(x, init, next)
		}
	}
	delete(L.busy, x.id)
	if v == nil || v.Has(L.mark) {
		v = L.opaque(x)
		if len(L.busy) > 0 {
			return v // part of a cycle: do not remember
		}
	}
	L.sols[x.id] = v
	return v
}

// recTerm describes a self-contained recurrence by its start and step
func (L *Loop) recTerm(x, init, next *T) *T {
	if x.Op != "phi" || init.Has(L.mark) {
		return nil
	}
	self := Sym(fmt.Sprintf("self%d/%d", len(L.outerT), x.num), x.num)
	n := substTerm(next, x, self)
	if n.Has(L.mark) {
		return nil
	}
	return Op("rec", "", x.num, L.t, init, Lam(L.t, n))
}

// opaque is a value that has no closed form
func (L *Loop) opaque(x *T) *T {
	args := append([]*T{L.t}, L.outerT...)
	if x.Op == "hdr" {
		args = append(args, x.Args[1])
	}
	return mk("lx", fmt.Sprintf("L%d:%s", L.id, x.Aux), args, x.num)
}

func (L *Loop) recurrence(x *T) (init, next *T, ok bool) {
	if x.Op == "phi" {
		for _, p := range L.phis {
			switch x {
			case p.sym:
				return p.init, L.step(p.next), true
			case p.off:
				return p.init, L.step(p.nextO), true
			case p.ln:
				return initLen(p), L.step(p.nextL), true
			}
		}
		return nil, nil, false
	}
	key := x.Args[1]
	init = L.ev.sel(L.pre.get(x.Aux), x.Aux, key)
	next = L.ev.sel(L.latch.get(x.Aux), x.Aux, key)
	next = L.step(next)
	if isSliceType(L.ev.regType[x.Aux]) {
		next = substTerm(next, hdrSlice(x), x)
	}
	return init, next, true
}

func isSliceType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// hdrSlice is the slice held by a header cell
func hdrSlice(x *T) *T {
	return mkSlice([]*T{Op("base", "", NotNum, x), Op("off", "", IntNum, x), Op("len", "", IntNum, x)})
}

func initLen(p *loopPhi) *T { return Op("len", "", IntNum, p.init) }

func (L *Loop) step(v *T) *T { return Constrain(v, L.latchG) }

func leafSet(t *T) []*T { return Leaves(t) }

func isBoolVal(t *T) bool { return isBoolDiag(t) }

// closed finds a closed form of x(0)=init, x(t+1)=next
func (L *Loop) closed(x, init, next *T) *T {
	t := L.t
	if next == x || (next.Op == "ite" && next == atomT(x)) {
		return init
	}
	// boolean header values appear as atoms
	isB := isBoolVal(next) || isBoolVal(init)
	if isB {
		return L.closedBool(x, init, next)
	}
	guardsHaveX := false
	for _, a := range Atoms(next) {
		if a.Has(x) || containsTerm(a, x) {
			guardsHaveX = true
		}
	}
	hasX := func(v *T) bool { return containsTerm(v, x) }
	if v := L.filters(x, init, next); v != nil {
		return v
	}
	if v := L.pushes(x, init, next); v != nil {
		return v
	}
	if v := L.runNested(x, init, next); x.isNum() && v != nil {
		return v
	}
	if !guardsHaveX {
		allSum, lastOnly := true, true
		for _, l := range Leaves(next) {
			d := Sub1(l, x)
			if d == nil || hasX(d) {
				allSum = false
			}
			if l != x && hasX(l) {
				lastOnly = false
			}
		}
		if x.isNum() && allSum {
			e := MapLeaves(next, func(l *T) *T { return Sub1(l, x) })
			u := FreshIndex("u", t)
			return Add(init, SumT(t, u, Subst(e, map[*T]*T{t: u})))
		}
		if lastOnly {
			G := MapLeaves(next, func(l *T) *T {
				if l == x {
					return False
				}
				return True
			})
			return L.lastAssign(G, next, x, init)
		}
		if v := L.once(x, init, next); v != nil {
			return v
		}
		// products
		allProd := x.isNum()
		for _, l := range Leaves(next) {
			q := Div(l, x)
			if hasX(q) {
				allProd = false
			}
		}
		if allProd {
			e := MapLeaves(next, func(l *T) *T { return Div(l, x) })
			u := FreshIndex("u", t)
			return Mul(init, ProdT(t, u, Subst(e, map[*T]*T{t: u})))
		}
		// iteration over a list
		if next.Op == "lnext" || next.Op == "ite" {
			if v := L.listWalk(x, init, next); v != nil {
				return v
			}
		}
		return nil
	}
	if v := L.listWalk(x, init, next); v != nil {
		return v
	}
	if v := L.once(x, init, next); v != nil {
		return v
	}
	if x.isNum() {
		// running maximum or minimum
		if v := L.runMax(x, init, next, false); v != nil {
			return v
		}
		if v := L.runMax(x, init, next, true); v != nil {
			return v
		}
		return L.runArg(x, init, next)
	}
	return nil
}

// runNested recognises an extreme carried through an inner loop that continues
// from the extreme so far
func (L *Loop) runNested(x, init, next *T) *T {
	t := L.t
	in, sign := next, One
	from := x
	if in.Op == "poly" {
		in, sign, from = Neg(in), Int(-1), Neg(x)
	}
	if in.Op != "max" || in.Args[2] != from || containsTerm(in.Args[0], x) || containsTerm(in.Args[1], x) {
		return nil
	}
	w := FreshIndex("w", in.Args[0])
	u := FreshIndex("u", t)
	body := MaxT(in.Args[0], w, openLam(in.Args[1], w), mk("ninf", "", nil, RealNum))
	return Mul(sign, MaxT(t, u, Subst(body, map[*T]*T{t: u}), Mul(sign, init)))
}

// runArg recognises the place of the largest or smallest value so far, kept as
// a place only: the value at that place is the running extreme
func (L *Loop) runArg(x, init, next *T) *T {
	t := L.t
	if next.Op != "ite" || x.num != IntNum || init.Op == "ite" {
		return nil
	}
	c, e := next.Args[0], next.Args[1]
	keep := next.Args[2]
	taken := true
	if e == x {
		e, keep, taken = keep, e, false
	}
	if keep != x || c.Op != "thr" || c.k.Sign() != 0 || e.Op == "ite" || containsTerm(e, x) || !containsTerm(c, x) {
		return nil
	}
	p := c.Args[0]
	if substTerm(p, x, e) != Zero {
		return nil
	}
	var own []mono
	for _, m := range monos(p) {
		with := false
		for _, f := range m.fs {
			with = with || containsTerm(f.a, x)
		}
		if !with {
			own = append(own, m)
		}
	}
	v := mkPoly(own) // the value at the place of this turn; p is v less the value at x
	later := Zero
	if e == Add(t, One) && init == Zero {
		// the first place is that of a turn before the first one
		later = One
		v, p, e = Subst(v, map[*T]*T{t: Sub(t, One)}), Subst(p, map[*T]*T{t: Sub(t, One)}), t
	}
	start := substTerm(Sub(v, p), x, init)
	if containsTerm(v, x) || start.Op == "ite" || start.Has(t) {
		return nil
	}
	u := FreshIndex("u", t)
	body := Subst(v, map[*T]*T{t: u})
	var ext *T
	if taken {
		ext = MaxT(t, u, body, start)
	} else {
		ext = Neg(MaxT(t, u, Neg(body), Neg(start)))
	}
	g := cmp0(Sub(v, ext), c.neg)
	if !taken {
		g = Not(g)
	}
	r := L.lastAssign(g, Ite(g, e, x), x, init)
	if r != nil && later != Zero {
		r = Subst(r, map[*T]*T{t: Add(t, later)})
	}
	return r
}

// pushes recognises a list that grows by one element in each turn
func (L *Loop) pushes(x, init, next *T) *T {
	if x.Op != "hdr" || x.Aux != "lseq" || next.Op == "ite" && containsTerm(next.Args[0], x) {
		return nil
	}
	for _, l := range Leaves(next) {
		if l.Op != "lpush" || l.Args[0] != x || containsTerm(l.Args[1], x) {
			return nil
		}
	}
	v := MapLeaves(next, func(l *T) *T { return l.Args[1] })
	u := FreshIndex("u", L.t)
	body := Lam(u, Subst(v, map[*T]*T{L.t: u}))
	return MapLeaves(init, func(l *T) *T {
		switch {
		case l == Nil || l == Zero:
			l = mk("lempty", "", nil, NotNum)
		case l.Op == "ld":
			l = mk("lseq", "", l.Args, NotNum)
		}
		return mk("lcat", "", []*T{l, L.t, body}, NotNum)
	})
}

// onlyKey tells that all the writes of one turn to a region are to one key
func (L *Loop) onlyKey(m *Map, key *T) bool {
	for m != nil {
		switch m.kind {
		case mHdr:
			return m.loop == L
		case mStore:
			if m.key != key {
				return false
			}
		case mMerge:
			if !L.onlyKey(m.b, key) {
				return false
			}
		default:
			return false
		}
		m = m.prev
	}
	return false
}

// filters recognises a list of which each turn may take out its own element
func (L *Loop) filters(x, init, next *T) *T {
	if x.Op != "hdr" || x.Aux != "lseq" || init.Op != "lseq" && init.Op != "ld" {
		return nil
	}
	var off, seq *T
	for _, l := range Leaves(next) {
		if l.Op == "lrm?" && l.Args[1].Op == "lelem" {
			seq = l.Args[1].Args[0]
			off = Sub(l.Args[1].Args[1], L.t)
		}
	}
	if seq == nil || seq.Op != "lseq" || off.Has(L.t) || containsTerm(off, x) {
		return nil
	}
	mine := True // the list of the cell is the one that is walked over
	if key := x.Args[1]; key != seq.Args[0] {
		mine = eqKey(key, seq.Args[0])
	} else if seq != init && (init.Op != "ld" || mk("lseq", "", init.Args, NotNum) != seq) {
		return nil
	}
	for _, l := range Leaves(Constrain(next, Not(mine))) {
		if l != x && mine != True {
			return nil
		}
	}
	n := seqLen(seq)
	next = Constrain(next, And(And(mine, Ge(n, One)), And(Ge(Add(L.t, off), Zero), Lt(Add(L.t, off), n))))
	for _, l := range Leaves(next) {
		if l == x {
			continue
		}
		if l.Op != "lrm?" || l.Args[0] != x || l.Args[1].Op != "lelem" || l.Args[1].Args[0] != seq || Sub(l.Args[1].Args[1], L.t) != off {
			return nil
		}
	}
	G := MapLeaves(next, func(l *T) *T {
		if l == x {
			return True
		}
		return False
	})
	if containsTerm(G, x) {
		return nil
	}
	u := FreshIndex("u", L.t)
	gone := And(And(Ge(u, off), Lt(u, Add(off, L.t))), Not(BoolTerm(Subst(G, map[*T]*T{L.t: Sub(u, off)}))))
	f := Op("lfilt", "", NotNum, seq, n, Lam(u, Constrain(Not(gone), And(Ge(u, Zero), Lt(u, n)))))
	return Ite(mine, f, init)
}

// once handles values that change in at most one turn
func (L *Loop) once(x, init, next *T) *T {
	t := L.t
	G := MapLeaves(next, func(l *T) *T {
		if l == x {
			return False
		}
		return True
	})
	u := FreshIndex("u", t)
	gu := Subst(G, map[*T]*T{t: u})
	pos, cond, rest, ok := uniquePos(gu, u, t)
	if !ok || containsTerm(pos, x) || containsTerm(cond, x) {
		return nil
	}
	// before its only turn the value is the initial one
	val := Subst(Constrain(next, G), map[*T]*T{t: pos})
	val = substTerm(val, x, init)
	c := substTerm(And(cond, Subst(rest, map[*T]*T{u: pos})), x, init)
	return Ite(c, val, init)
}

// Sub1 is l-x for leaves
func Sub1(l, x *T) *T {
	if !l.isNum() || !x.isNum() {
		return nil
	}
	return Sub(l, x)
}

func containsTerm(t, x *T) bool { return contains(t, x, map[int]bool{}) }

func contains(t, x *T, seen map[int]bool) bool {
	var rec func(t *T) bool
	rec = func(t *T) bool {
		if t == x {
			return true
		}
		if r, ok := seen[t.id]; ok {
			return r
		}
		seen[t.id] = false
		for _, v := range x.vars {
			if !t.hasVar(v) {
				return false
			}
		}
		for _, a := range t.Args {
			if rec(a) {
				seen[t.id] = true
				return true
			}
		}
		for _, m := range t.poly {
			for _, f := range m.fs {
				if rec(f.a) {
					seen[t.id] = true
					return true
				}
			}
		}
		return false
	}
	return rec(t)
}

// substTerm replaces an arbitrary subterm
func substTerm(t, x, by *T) *T {
	memo := map[int]*T{}
	has := map[int]bool{}
	var do func(t *T) *T
	do = func(t *T) *T {
		if t == x {
			return by
		}
		if !contains(t, x, has) {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		r := rebuild(t, do)
		memo[t.id] = r
		return r
	}
	return do(t)
}

// lastAssign: x becomes E(u) at turns u with G(u), else keeps its value
func (L *Loop) lastAssign(G, next, x, init *T) *T {
	t := L.t
	u := FreshIndex("u", t)
	gu := Subst(G, map[*T]*T{t: u})
	eu := Subst(Constrain(next, G), map[*T]*T{t: u})
	if containsTerm(eu, x) {
		return nil
	}
	return hoist(u, gu, func(g *T) *T {
		if g == False {
			return init
		}
		if g == True {
			return Ite(Gt(t, Zero), Subst(eu, map[*T]*T{u: Sub(t, One)}), init)
		}
		if pos, cond, rest, ok := uniquePos(g, u, t); ok {
			e2 := Constrain(eu, g)
			// the value may use the equality that fixed the position
			c := And(cond, Subst(rest, map[*T]*T{u: pos}))
			return Ite(substTerm(c, x, init), substTerm(Subst(e2, map[*T]*T{u: pos}), x, init), init)
		}
		if !eu.Has(u) {
			return Ite(AnyT(t, u, g), eu, init)
		}
		last := LastT(t, u, g)
		return Ite(AnyT(t, u, g), Subst(Constrain(eu, g), map[*T]*T{u: last}), init)
	})
}

func (L *Loop) closedBool(x, init, next *T) *T {
	t := L.t
	// next = ite(x, h, g)
	ax := x
	h := restrict(next, ax, true)
	g := restrict(next, ax, false)
	if containsTerm(h, x) || containsTerm(g, x) {
		return nil
	}
	u := FreshIndex("u", t)
	at := func(v *T) *T { return Subst(v, map[*T]*T{t: u}) }
	switch {
	case h == True && g == False:
		return init
	case h == g: // last value
		return Ite(Gt(t, Zero), Subst(g, map[*T]*T{t: Sub(t, One)}), init)
	case h == True:
		return Or(init, AnyT(t, u, at(g)))
	case g == False:
		return And(init, AllT(t, u, at(h)))
	}
	// ite(G, e, x): assigned where h==g
	G := Ite(h, g, Not(g)) // h<=>g
	if Implies(Not(G), And(h, Not(g))) {
		// where not assigned the value is kept
		uu := at(G)
		val := at(Constrain(g, G))
		if pos, cond, rest, ok := uniquePos(uu, u, t); ok {
			return Ite(And(cond, Subst(rest, map[*T]*T{u: pos})), Subst(val, map[*T]*T{u: pos}), init)
		}
		last := LastT(t, u, uu)
		return Ite(AnyT(t, u, uu), Subst(val, map[*T]*T{u: last}), init)
	}
	// applied once
	D := Or(Ite(h, False, True), g) // differs from keeping
	uu := at(D)
	if pos, cond, rest, ok := uniquePos(uu, u, t); ok {
		c := And(cond, Subst(rest, map[*T]*T{u: pos}))
		hv := Subst(at(Constrain(h, D)), map[*T]*T{u: pos})
		gv := Subst(at(Constrain(g, D)), map[*T]*T{u: pos})
		return Ite(c, Ite(init, hv, gv), init)
	}
	return nil
}

func (L *Loop) runMax(x, init, next *T, min bool) *T {
	// candidates: leaves other than x
	t := L.t
	var cand []*T
	for _, l := range Leaves(next) {
		if l != x {
			if containsTerm(l, x) {
				return nil
			}
			cand = append(cand, l)
		}
	}
	if len(cand) == 0 {
		return nil
	}
	// value taken in this turn, ignoring the comparison with x: remove x atoms
	var e *T
	guard := next
	var xAtoms []*T
	for _, a := range Atoms(next) {
		if containsTerm(a, x) {
			xAtoms = append(xAtoms, a)
		}
	}
	_ = guard
	// try: next == ite(G, pick(x,e), x) with e = ite-combination of candidates
	build := func(e, G *T) bool {
		var cmp1, cmp2 *T
		if min {
			cmp1, cmp2 = Lt(e, x), Le(e, x)
		} else {
			cmp1, cmp2 = Gt(e, x), Ge(e, x)
		}
		return next == Ite(And(G, cmp1), e, x) || next == Ite(And(G, cmp2), e, x)
	}
	// e: choose the candidate leaf along each path
	e = next
	for _, a := range xAtoms {
		hi, lo := restrict(e, a, true), restrict(e, a, false)
		// prefer the side that is not x
		e = Ite(True, preferNot(hi, lo, x), Zero)
	}
	G := MapLeaves(e, func(l *T) *T {
		if l == x {
			return False
		}
		return True
	})
	if G == False {
		return nil
	}
	ee := Constrain(e, G)
	if containsTerm(ee, x) || containsTerm(G, x) || !build(ee, G) {
		return nil
	}
	u := FreshIndex("u", t)
	if min {
		ee = Neg(ee)
		init = Neg(init)
	}
	body := Subst(ee, map[*T]*T{t: u})
	if G != True {
		gu := Subst(G, map[*T]*T{t: u})
		body = Ite(gu, body, mk("ninf", "", nil, RealNum))
	}
	r := MaxT(t, u, body, init)
	if min {
		r = Neg(r)
	}
	return r
}

// preferNot merges two cofactors taking the one that is not x
func preferNot(a, b, x *T) *T {
	return lift2('~', a, b, func(a, b *T) *T {
		if a == x {
			return b
		}
		return a
	})
}

// listWalk recognises x = x.Next()
func (L *Loop) listWalk(x, init, next *T) *T {
	if next.Op == "ite" && next.Args[1] == Nil {
		// what a turn takes out of a list is its own element only, and the
		// element of a later turn is another one
		if c := next.Args[0]; c.Op == "hdr" && c.Aux == "lrem" && c.Args[0] == L.mark && c.Args[1] == x && L.onlyKey(L.latch.get("lrem"), x) {
			next = next.Args[2]
		}
	}
	if next.Op != "lnext" || next.Args[0] != x {
		return nil
	}
	for _, l := range Leaves(init) {
		if l != Nil && l.Op != "lelem" {
			return nil
		}
	}
	return MapLeaves(init, func(l *T) *T {
		if l == Nil {
			return Nil
		}
		pos := Add(l.Args[1], L.t)
		return Ite(Lt(pos, seqLen(l.Args[0])), mk("lelem", "", []*T{l.Args[0], pos}, NotNum), Nil)
	})
}

func seqLen(seq *T) *T {
	switch seq.Op {
	case "lseq":
		return mk("llen", "", []*T{seq.Args[0]}, IntNum)
	case "lempty":
		return Zero
	case "lpush", "lpushf", "lins":
		return Add(seqLen(seq.Args[0]), One)
	case "lrm":
		return Sub(seqLen(seq.Args[0]), One)
	case "lcat":
		return Add(seqLen(seq.Args[0]), seq.Args[1])
	case "lfilt":
		u := FreshIndex("u", seq.Args[1])
		return SumT(seq.Args[1], u, Ite(BoolTerm(openLam(seq.Args[2], u)), One, Zero))
	}
	return mk("llen", "", []*T{seq}, IntNum)
}

// lnext is the successor of a list element
func lnext(e, removed *T) *T {
	return liftN([]*T{e, removed}, func(a []*T) *T {
		e, rm := a[0], a[1]
		if rm == True {
			return Nil
		}
		switch e.Op {
		case "lelem":
			pos := Add(e.Args[1], One)
			return Ite(Lt(pos, seqLen(e.Args[0])), mk("lelem", "", []*T{e.Args[0], pos}, NotNum), Nil)
		}
		return mk("lnext", "", []*T{e}, NotNum)
	})
}

// finish computes the exit turn and the exit guards
func (L *Loop) finish() {
	if L.assume == nil {
		return
	}
	B := False
	gs := make([]*T, len(L.exits))
	for i, e := range L.exits {
		gs[i] = L.resolve(e.guard)
		B = Or(B, gs[i])
	}
	if L.guard != nil {
		// quantities known to agree on entry are written in one way
		B = WithEquations(L.guard)(B)
	}
	L.foundFlags()
	u := FreshIndex("u", nil)
	L.tau = FirstT(Inf, u, Subst(B, map[*T]*T{L.t: u}))
	for i, e := range L.exits {
		if len(L.exits) == 1 {
			e.fguard = True
		} else {
			e.fguard = L.atExit(gs[i])
		}
	}
}

// foundFlags finds the variables that start out false, are assigned in each
// turn and end the loop once they are true: such a variable is true at the end
// if the value assigned is true in some turn
func (L *Loop) foundFlags() {
	for _, p := range L.phis {
		x := p.sym
		if p.init != False || x == nil {
			continue
		}
		B := False
		for _, e := range L.exits {
			B = Or(B, e.guard)
		}
		if !containsTerm(B, x) || restrict(B, x, true) != True {
			continue
		}
		D := L.resolve(restrict(B, x, false))
		if D.Op != "ite" || D.Args[1] != True || D.Args[2] != False || D.Args[0].Op != "thr" || D.Args[0].neg || D.Has(L.mark) {
			continue
		}
		a := D.Args[0]
		rest := Sub(a.Args[0], L.t)
		if rest.Has(L.t) || !isIntForm(a.Args[0]) {
			continue
		}
		next := L.step(p.next)
		if containsTerm(next, x) {
			continue
		}
		next = L.resolve(next)
		if next.Has(L.mark) || !isBoolVal(next) {
			continue
		}
		u := FreshIndex("u", nil)
		if L.flags == nil {
			L.flags = map[*T]*T{}
		}
		L.flags[x] = AnyT(Sub(Const(a.k), rest), u, Subst(next, map[*T]*T{L.t: u}))
	}
}

// final is the value of a body term in the turn the loop is left
func (L *Loop) final(v *T) *T {
	for x, f := range L.flags {
		if containsTerm(v, x) {
			v = Ite(f, restrict(v, x, true), restrict(v, x, false))
			v = substTerm(v, x, f)
		}
	}
	if !v.Has(L.mark) && !v.Has(L.t) {
		return v
	}
	if r, ok := L.finals[v.id]; ok {
		return r
	}
	r := L.atExit(L.resolve(v))
	if L.tau != nil {
		L.finals[v.id] = r
	}
	return r
}

func (L *Loop) atExit(v *T) *T {
	if L.tau == nil {
		return v
	}
	return liftN([]*T{L.tau}, func(a []*T) *T {
		tau := a[0]
		w := v
		// the search condition is known to hold at its first position
		for _, m := range monos(tau) {
			if len(m.fs) == 1 && m.fs[0].a.Op == "first" && m.c.Cmp(ratOne) == 0 {
				f := m.fs[0].a
				g := openLam(f.Args[1], Sub(L.t, Sub(tau, f)))
				w = Constrain(w, g)
				if f.Args[0] != Inf {
					w = Constrain(w, Lt(L.t, Add(f.Args[0], Sub(tau, f))))
				}
			}
		}
		return Subst(w, map[*T]*T{L.t: tau})
	})
}

// resolveAll resolves a term through a chain of loops, innermost first, and
// keeps the turn counters as free symbols
func resolveAll(v *T, L *Loop) *T {
	for ; L != nil; L = L.parent {
		v = L.resolve(v)
	}
	return v
}
