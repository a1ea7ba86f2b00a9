package check

import (
	"go/constant"
	"go/token"
	"math"

	"golang.org/x/tools/go/ssa"
)

// scan is a loop over consecutive indices that is left at its head only
type scan struct {
	*ssaLoop
	idx   ssa.Value
	cond  *ssa.If
	first int64
	bound ssa.Value
	short int64 // the bound is this much below a length
	of    ssa.Value
	down  bool // from the last index to the first
}

func asScan(l *ssaLoop) *scan {
	ifi, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok || !l.body[l.head.Succs[0]] || l.body[l.head.Succs[1]] {
		return nil
	}
	cmp, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	iv, bound := cmp.X, cmp.Y
	extra := int64(0)
	switch cmp.Op {
	case token.LSS, token.NEQ:
	case token.LEQ:
		extra = 1
	case token.GTR:
		iv, bound = bound, iv
	case token.GEQ:
		iv, bound = bound, iv
		extra = 1
	default:
		return nil
	}
	for b := range l.body {
		if b == l.head {
			continue
		}
		for _, s := range b.Succs {
			if !l.body[s] {
				return nil
			}
		}
	}
	adj := int64(0)
	if sc := asDownScan(l, ifi, cmp); sc != nil {
		return sc
	}
	ph, ok := iv.(*ssa.Phi)
	if !ok {
		b, ok := iv.(*ssa.BinOp)
		if !ok {
			return nil
		}
		ph, ok = b.X.(*ssa.Phi)
		if !ok || !plusOne(b, ph) {
			return nil
		}
		adj = 1
	}
	if ph.Block() != l.head {
		return nil
	}
	sc := &scan{ssaLoop: l, idx: iv, cond: ifi, bound: bound, short: -extra}
	for i, e := range ph.Edges {
		if l.body[l.head.Preds[i]] {
			if adj == 1 && e == iv || adj == 0 && plusOne(e, ph) {
				continue
			}
			return nil
		}
		k, ok := e.(*ssa.Const)
		if !ok || k.Value == nil {
			return nil
		}
		sc.first = k.Int64() + adj
	}
	for {
		b, ok := bound.(*ssa.BinOp)
		if !ok {
			break
		}
		k, isK := b.Y.(*ssa.Const)
		if !isK || b.Op != token.SUB && b.Op != token.ADD {
			return nil
		}
		if b.Op == token.SUB {
			sc.short += k.Int64()
		} else {
			sc.short -= k.Int64()
		}
		bound = b.X
	}
	if c, ok := bound.(*ssa.Call); ok {
		if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			sc.of = c.Call.Args[0]
		}
	}
	return sc
}

// asDownScan: from the last index of a list to the first
func asDownScan(l *ssaLoop, ifi *ssa.If, cmp *ssa.BinOp) *scan {
	ph, ok := cmp.X.(*ssa.Phi)
	if !ok || ph.Block() != l.head {
		return nil
	}
	k, ok := cmp.Y.(*ssa.Const)
	if !ok || k.Value == nil || cmp.Op != token.GEQ && cmp.Op != token.GTR {
		return nil
	}
	sc := &scan{ssaLoop: l, idx: ph, cond: ifi, down: true, first: k.Int64()}
	if cmp.Op == token.GTR {
		sc.first++
	}
	for i, e := range ph.Edges {
		b, ok := e.(*ssa.BinOp)
		if !ok {
			return nil
		}
		one, isK := b.Y.(*ssa.Const)
		if !isK || one.Value == nil {
			return nil
		}
		if l.body[l.head.Preds[i]] {
			if !(b.X == ssa.Value(ph) && (b.Op == token.SUB && one.Int64() == 1 || b.Op == token.ADD && one.Int64() == -1)) {
				return nil
			}
			continue
		}
		c, ok := b.X.(*ssa.Call)
		if !ok || b.Op != token.SUB {
			return nil
		}
		bi, ok := c.Call.Value.(*ssa.Builtin)
		if !ok || bi.Name() != "len" {
			return nil
		}
		sc.bound, sc.of, sc.short = c, c.Call.Args[0], one.Int64()-1
	}
	if sc.of == nil {
		return nil
	}
	return sc
}

// ---- one round of a scan on sample values ----

type mkind uint8

const (
	mUnknown mkind = iota
	mNum           // a number that follows from the sample
	mBool
	mIdx   // the index
	mElem  // the sampled element itself
	mInt   // an element of a list of indices
	mPick  // the element of a list at an element of a list of indices
	mList  // a list with what was appended
	mCount // a counter
)

type mval struct {
	k    mkind
	f    float64
	b    bool
	base ssa.Value // list, or phi of list and counter
	by   ssa.Value // list of indices of a pick
	add  []mval
	n    int64
}

type mstore struct {
	list ssa.Value
	idx  mval
	val  mval
}

type mout struct {
	phis   map[*ssa.Phi]mval
	stores []mstore
}

type rounder struct {
	l      *scan
	x      ssa.Value
	sample float64
	outs   []mout
	steps  int
	failed bool
	inMod  func(*ssa.Function) bool
}

// sameList: two values that are the same list
func sameList(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	u, ok1 := a.(*ssa.UnOp)
	v, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && u.Op == token.MUL && v.Op == token.MUL {
		if u.X == v.X {
			return true
		}
		p, ok1 := u.X.(*ssa.FieldAddr)
		q, ok2 := v.X.(*ssa.FieldAddr)
		if ok1 && ok2 && p.Field == q.Field {
			return p.X == q.X || sameList(p.X, q.X)
		}
	}
	return false
}

// sampled runs one round of the loop for a value of the element of x
func (l *scan) sampled(x ssa.Value, c float64, inMod func(*ssa.Function) bool) ([]mout, bool) {
	r := &rounder{l: l, x: x, sample: c, inMod: inMod}
	env := map[ssa.Value]mval{}
	for _, in := range l.head.Instrs[:nphis(l.head)] {
		ph := in.(*ssa.Phi)
		switch {
		case ssa.Value(ph) == l.idx:
			env[ph] = mval{k: mIdx}
		case sliceElem(ph.Type()) != nil:
			env[ph] = mval{k: mList, base: ph}
		case isIntT(ph.Type()):
			env[ph] = mval{k: mCount, base: ph}
		}
	}
	env[l.idx] = mval{k: mIdx}
	r.exec(l.head.Succs[0], l.head, env, nil)
	return r.outs, !r.failed
}

func (r *rounder) exec(b, prev *ssa.BasicBlock, env map[ssa.Value]mval, stores []mstore) {
	if r.steps++; r.steps > 4000 {
		r.failed = true
	}
	if r.failed {
		return
	}
	if b == r.l.head {
		o := mout{phis: map[*ssa.Phi]mval{}, stores: stores}
		for i, p := range b.Preds {
			if p == prev {
				for _, in := range b.Instrs[:nphis(b)] {
					ph := in.(*ssa.Phi)
					o.phis[ph] = r.get(env, ph.Edges[i])
				}
			}
		}
		r.outs = append(r.outs, o)
		return
	}
	n := map[ssa.Value]mval{}
	for k, v := range env {
		n[k] = v
	}
	env = n
	stores = append([]mstore(nil), stores...)
	var ups []mval
	for _, in := range b.Instrs[:nphis(b)] {
		ph := in.(*ssa.Phi)
		for i, p := range b.Preds {
			if p == prev {
				ups = append(ups, r.get(env, ph.Edges[i]))
			}
		}
	}
	for i, in := range b.Instrs[:nphis(b)] {
		if i < len(ups) {
			env[in.(*ssa.Phi)] = ups[i]
		}
	}
	for _, in := range b.Instrs[nphis(b):] {
		switch x := in.(type) {
		case *ssa.If:
			c := r.get(env, x.Cond)
			for k, s := range b.Succs {
				if c.k == mBool && c.b != (k == 0) {
					continue
				}
				r.exec(s, b, env, stores)
			}
			return
		case *ssa.Jump:
			r.exec(b.Succs[0], b, env, stores)
			return
		case *ssa.Return, *ssa.Panic:
			r.failed = true
			return
		case *ssa.Store:
			if ia, ok := x.Addr.(*ssa.IndexAddr); ok && sliceElem(ia.X.Type()) != nil {
				stores = append(stores, mstore{ia.X, r.get(env, ia.Index), r.get(env, x.Val)})
			}
		default:
			if v, ok := in.(ssa.Value); ok {
				env[v] = r.value(env, v)
			}
		}
	}
}

func (r *rounder) get(env map[ssa.Value]mval, v ssa.Value) mval {
	if m, ok := env[v]; ok {
		return m
	}
	if k, ok := v.(*ssa.Const); ok && k.Value != nil {
		switch k.Value.Kind() {
		case constant.Bool:
			return mval{k: mBool, b: constant.BoolVal(k.Value)}
		case constant.Int, constant.Float:
			f, _ := constant.Float64Val(k.Value)
			return mval{k: mNum, f: f}
		}
	}
	return mval{k: mUnknown, base: v}
}

func (m mval) num() (float64, bool) {
	if m.k == mNum || m.k == mElem {
		return m.f, true
	}
	return 0, false
}

func (r *rounder) value(env map[ssa.Value]mval, v ssa.Value) mval {
	switch x := v.(type) {
	case *ssa.UnOp:
		a := r.get(env, x.X)
		switch x.Op {
		case token.NOT:
			if a.k == mBool {
				return mval{k: mBool, b: !a.b}
			}
		case token.SUB:
			if f, ok := a.num(); ok {
				return mval{k: mNum, f: -f}
			}
		case token.MUL:
			ia, ok := x.X.(*ssa.IndexAddr)
			if !ok {
				return mval{}
			}
			el := sliceElem(ia.X.Type())
			if el == nil {
				return mval{}
			}
			i := r.get(env, ia.Index)
			switch {
			case i.k == mIdx && isFloatT(el):
				if r.x != nil && sameList(ia.X, r.x) {
					return mval{k: mElem, f: r.sample, base: r.x}
				}
				return mval{k: mUnknown, base: ia.X}
			case i.k == mIdx && isIntT(el):
				return mval{k: mInt, base: ia.X}
			case i.k == mInt && isFloatT(el):
				return mval{k: mPick, base: ia.X, by: i.base}
			}
		}
	case *ssa.BinOp:
		a, b := r.get(env, x.X), r.get(env, x.Y)
		return mbinop(x.Op, a, b)
	case *ssa.Convert:
		return r.get(env, x.X)
	case *ssa.ChangeType:
		return r.get(env, x.X)
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
			if bi.Name() == "append" && len(x.Call.Args) == 2 {
				l := r.get(env, x.Call.Args[0])
				e := oneVararg(x.Call.Args[1])
				if l.k == mList && e != nil {
					return mval{k: mList, base: l.base, add: append(append([]mval(nil), l.add...), r.get(env, e))}
				}
			}
			return mval{}
		}
		f := x.Call.StaticCallee()
		if f == nil {
			return mval{}
		}
		var as []mval
		for _, a := range x.Call.Args {
			as = append(as, r.get(env, a))
		}
		return r.callee(f, as, 0)
	}
	return mval{}
}

func mbinop(op token.Token, a, b mval) mval {
	if a.k == mBool && b.k == mBool {
		switch op {
		case token.EQL:
			return mval{k: mBool, b: a.b == b.b}
		case token.NEQ:
			return mval{k: mBool, b: a.b != b.b}
		}
		return mval{}
	}
	if a.k == mCount && b.k == mNum {
		switch op {
		case token.ADD:
			return mval{k: mCount, base: a.base, n: a.n + int64(b.f)}
		case token.SUB:
			return mval{k: mCount, base: a.base, n: a.n - int64(b.f)}
		}
	}
	if a.k == mIdx && b.k == mNum {
		// no coefficient is computed for the constant column: features count from one
		lo := 1.0
		switch {
		case op == token.EQL && b.f < lo, op == token.LSS && b.f <= lo, op == token.LEQ && b.f < lo:
			return mval{k: mBool}
		case op == token.NEQ && b.f < lo, op == token.GEQ && b.f <= lo, op == token.GTR && b.f < lo:
			return mval{k: mBool, b: true}
		}
		return mval{}
	}
	p, ok1 := a.num()
	q, ok2 := b.num()
	if !ok1 || !ok2 {
		return mval{}
	}
	switch op {
	case token.ADD:
		return mval{k: mNum, f: p + q}
	case token.SUB:
		return mval{k: mNum, f: p - q}
	case token.MUL:
		return mval{k: mNum, f: p * q}
	case token.QUO:
		return mval{k: mNum, f: p / q}
	case token.EQL:
		return mval{k: mBool, b: p == q}
	case token.NEQ:
		return mval{k: mBool, b: p != q}
	case token.LSS:
		return mval{k: mBool, b: p < q}
	case token.LEQ:
		return mval{k: mBool, b: p <= q}
	case token.GTR:
		return mval{k: mBool, b: p > q}
	case token.GEQ:
		return mval{k: mBool, b: p >= q}
	}
	return mval{}
}

// callee: what a routine without effects gives for the sample
func (r *rounder) callee(f *ssa.Function, as []mval, depth int) mval {
	pkg := ""
	if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	if pkg == "math" && len(as) > 0 {
		x, ok := as[0].num()
		if !ok {
			return mval{}
		}
		switch f.Name() {
		case "Abs":
			return mval{k: mNum, f: math.Abs(x)}
		case "Signbit":
			return mval{k: mBool, b: math.Signbit(x)}
		case "IsNaN":
			return mval{k: mBool, b: math.IsNaN(x)}
		case "Pow":
			if y, ok := as[1].num(); ok {
				return mval{k: mNum, f: math.Pow(x, y)}
			}
		case "Sqrt":
			return mval{k: mNum, f: math.Sqrt(x)}
		case "Max":
			if y, ok := as[1].num(); ok {
				return mval{k: mNum, f: math.Max(x, y)}
			}
		}
		return mval{}
	}
	if !r.inMod(f) || depth > 4 || len(f.Blocks) == 0 {
		return mval{}
	}
	env := map[ssa.Value]mval{}
	for i, p := range f.Params {
		if i < len(as) {
			env[p] = as[i]
		}
	}
	b, prev := f.Blocks[0], (*ssa.BasicBlock)(nil)
	for n := 0; n < 200; n++ {
		var ups []mval
		for _, in := range b.Instrs[:nphis(b)] {
			ph := in.(*ssa.Phi)
			for i, p := range b.Preds {
				if p == prev {
					ups = append(ups, r.get(env, ph.Edges[i]))
				}
			}
		}
		for i, in := range b.Instrs[:nphis(b)] {
			env[in.(*ssa.Phi)] = ups[i]
		}
		var next *ssa.BasicBlock
		for _, in := range b.Instrs[nphis(b):] {
			switch x := in.(type) {
			case *ssa.If:
				c := r.get(env, x.Cond)
				if c.k != mBool {
					return mval{}
				}
				next = b.Succs[1]
				if c.b {
					next = b.Succs[0]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				if len(x.Results) == 1 {
					return r.get(env, x.Results[0])
				}
				return mval{}
			case *ssa.Panic:
				return mval{}
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != nil {
					var a2 []mval
					for _, a := range x.Call.Args {
						a2 = append(a2, r.get(env, a))
					}
					env[x] = r.callee(g, a2, depth+1)
				}
			default:
				if v, ok := in.(ssa.Value); ok {
					env[v] = r.value(env, v)
				}
			}
		}
		if next == nil {
			return mval{}
		}
		prev, b = b, next
	}
	return mval{}
}

// scanEffect is what a whole scan makes of a list
type scanEffect struct {
	kind string    // "nz", "nzval", "pick", "same", "bad"
	phi  *ssa.Phi  // the list that grows
	list ssa.Value // the list that is stored to
	x    ssa.Value // the list scanned, or picked from
	by   ssa.Value // the list of indices
	why  string
	pos  token.Pos
}

// tiny is the smallest coefficient that must be listed
const tiny = 1e-12

func (l *scan) effects(inMod func(*ssa.Function) bool) []scanEffect {
	// the lists of numbers that are looked at
	var xs []ssa.Value
	for _, b := range l.head.Parent().Blocks {
		if !l.body[b] {
			continue
		}
		for _, in := range b.Instrs {
			u, ok := in.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				continue
			}
			ia, ok := u.X.(*ssa.IndexAddr)
			if !ok || ia.Index != l.idx {
				continue
			}
			if el := sliceElem(ia.X.Type()); el != nil && isFloatT(el) {
				dup := false
				for _, x := range xs {
					dup = dup || sameList(x, ia.X)
				}
				if !dup {
					xs = append(xs, ia.X)
				}
			}
		}
	}
	var phis []*ssa.Phi
	for _, in := range l.head.Instrs[:nphis(l.head)] {
		if ph := in.(*ssa.Phi); sliceElem(ph.Type()) != nil {
			phis = append(phis, ph)
		}
	}
	var lists []ssa.Value
	note := func(o mout) {
		for _, st := range o.stores {
			dup := false
			for _, x := range lists {
				dup = dup || sameList(x, st.list)
			}
			if !dup {
				lists = append(lists, st.list)
			}
		}
	}
	if len(xs) == 0 {
		xs = []ssa.Value{nil}
	}
	type run struct {
		x  ssa.Value
		by map[float64][]mout
	}
	var runs []run
	samples := []float64{0, tiny, -tiny, 1e-3, -1e-3, 1, -1, 1e6, -1e6}
	for _, x := range xs {
		rn := run{x, map[float64][]mout{}}
		ok := true
		for _, c := range samples {
			outs, fine := l.sampled(x, c, inMod)
			if !fine || len(outs) == 0 {
				ok = false
				break
			}
			for _, o := range outs {
				note(o)
			}
			rn.by[c] = outs
		}
		if ok {
			runs = append(runs, rn)
		}
	}
	var es []scanEffect
	for _, ph := range phis {
		var best *scanEffect
		for _, rn := range runs {
			e := l.classify(rn.x, rn.by, samples, func(o mout) ([]mval, bool) {
				v := o.phis[ph]
				return v.add, v.k == mList && v.base == ssa.Value(ph)
			})
			if e != nil && (best == nil || best.kind == "bad") {
				best = e
			}
		}
		if best != nil {
			best.phi = ph
			es = append(es, *best)
		}
	}
	for _, ls := range lists {
		var best *scanEffect
		for _, rn := range runs {
			e := l.classify(rn.x, rn.by, samples, func(o mout) ([]mval, bool) {
				var vs []mval
				for _, st := range o.stores {
					if !sameList(st.list, ls) {
						continue
					}
					if st.idx.k != mCount || st.idx.n != 0 {
						return nil, false
					}
					if c := o.phis[st.idx.base.(*ssa.Phi)]; c.k != mCount || c.base != st.idx.base || c.n != 1 {
						return nil, false
					}
					if !startsAtZero(l, st.idx.base.(*ssa.Phi)) {
						return nil, false
					}
					vs = append(vs, st.val)
				}
				return vs, true
			})
			if e != nil && (best == nil || best.kind == "bad") {
				best = e
			}
		}
		if best != nil && best.kind != "bad" {
			best.list = ls
			es = append(es, *best)
		}
	}
	return es
}

func startsAtZero(l *scan, ph *ssa.Phi) bool {
	for i, e := range ph.Edges {
		if !l.body[l.head.Preds[i]] && !constIs(e, 0) {
			return false
		}
	}
	return true
}

func (l *scan) classify(x ssa.Value, by map[float64][]mout, samples []float64, added func(mout) ([]mval, bool)) *scanEffect {
	every, none := true, true
	var first *mval
	uniform := true
	bad := ""
	for _, c := range samples {
		for _, o := range by[c] {
			vs, ok := added(o)
			if !ok {
				return nil
			}
			if len(vs) > 1 {
				return nil
			}
			if len(vs) == 0 {
				every = false
				if c != 0 && bad == "" {
					bad = "a feature with a coefficient like " + fstr(c) + " is not always listed"
				}
				continue
			}
			none = false
			if c == 0 {
				bad = "a feature whose coefficient is zero is listed"
			}
			v := vs[0]
			if first == nil {
				first = &v
			} else if first.k != v.k || first.base != v.base || first.by != v.by {
				uniform = false
			}
		}
	}
	if none || first == nil || !uniform {
		return nil
	}
	pos := l.cond.Pos()
	if every {
		if l.down {
			return nil
		}
		if l.first != 0 || l.short != 0 && l.of != nil {
			if first.k == mPick || first.k == mInt {
				return &scanEffect{kind: "bad", why: "not all features of the list are looked at", pos: pos}
			}
			return nil
		}
		switch first.k {
		case mPick:
			return &scanEffect{kind: "pick", x: first.base, by: first.by}
		case mInt:
			return &scanEffect{kind: "same", x: first.base}
		case mElem:
			return &scanEffect{kind: "same", x: first.base}
		}
		return nil
	}
	if first.k == mNum && x != nil {
		same := true
		for _, c := range samples {
			for _, o := range by[c] {
				if vs, _ := added(o); len(vs) == 1 && vs[0].f != c {
					same = false
				}
			}
		}
		if !same {
			return &scanEffect{kind: "bad", x: x, why: "the coefficient listed with a feature is not the one of the solution", pos: pos}
		}
		first.k = mElem
	}
	if first.k != mIdx && first.k != mElem {
		return nil
	}
	if x == nil {
		return nil
	}
	if bad == "" && l.of != nil && l.short > 0 {
		bad = "the last features are not looked at"
	}
	if bad == "" && l.first > 1 {
		bad = "the first features are not looked at"
	}
	if bad != "" {
		return &scanEffect{kind: "bad", x: x, why: bad, pos: pos}
	}
	if first.k == mIdx {
		return &scanEffect{kind: "nz", x: x}
	}
	return &scanEffect{kind: "nzval", x: x}
}

func fstr(f float64) string {
	return constant.MakeFloat64(f).String()
}
