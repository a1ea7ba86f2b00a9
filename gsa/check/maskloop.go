package check

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// idxLoop is a loop over the indices 0, 1, 2, … of lists
type idxLoop struct {
	*ssaLoop
	idx  ssa.Value // the index as the body uses it
	cond *ssa.If
	exit *ssa.BasicBlock
}

func constIs(v ssa.Value, n int64) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && isIntT(k.Type()) && k.Int64() == n
}

func plusOne(v, x ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	return ok && b.Op == token.ADD && (b.X == x && constIs(b.Y, 1) || b.Y == x && constIs(b.X, 1))
}

// asIdxLoop recognises a loop whose index takes 0, 1, 2, … up to a bound; the
// loop is left at the bound only
func asIdxLoop(l *ssaLoop) *idxLoop {
	ifi, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok || !l.body[l.head.Succs[0]] || l.body[l.head.Succs[1]] {
		return nil
	}
	cmp, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	iv, bound := cmp.X, cmp.Y
	switch cmp.Op {
	case token.LSS, token.NEQ:
	case token.GTR:
		iv, bound = bound, iv
	default:
		return nil
	}
	for _, v := range []ssa.Value{bound} {
		switch b := v.(type) {
		case *ssa.BinOp:
			return nil
		case *ssa.Const:
			_ = b
			return nil
		}
	}
	for b := range l.body {
		if b == l.head {
			continue
		}
		for _, s := range b.Succs {
			if !l.body[s] {
				return nil // left in another way
			}
		}
	}
	first := int64(0)
	ph, ok := iv.(*ssa.Phi)
	if !ok {
		b, ok := iv.(*ssa.BinOp)
		if !ok {
			return nil
		}
		ph, ok = b.X.(*ssa.Phi)
		if !ok || !plusOne(b, ph) {
			return nil
		}
		first = -1
	}
	if ph.Block() != l.head {
		return nil
	}
	for i, e := range ph.Edges {
		if l.body[l.head.Preds[i]] {
			if first == -1 && e == iv || first == 0 && plusOne(e, ph) {
				continue
			}
			return nil
		}
		if !constIs(e, first) {
			return nil
		}
	}
	return &idxLoop{l, iv, ifi, l.head.Succs[1]}
}

// elemOf: the list of which v is the element at the index of the loop
func (l *idxLoop) elemOf(v ssa.Value) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok || ia.Index != l.idx {
		return nil
	}
	if _, ok := ia.X.Type().Underlying().(*types.Slice); !ok {
		return nil
	}
	return ia.X
}

// under finds the mask whose element at the index is known to be true in a
// block
func (l *idxLoop) under(b *ssa.BasicBlock) ssa.Value {
	for x := b; x != nil && l.body[x] && x != l.head; x = x.Idom() {
		if len(x.Preds) != 1 {
			continue
		}
		p := x.Preds[0]
		ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, side := ifi.Cond, 0
		for {
			u, ok := c.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			c, side = u.X, 1-side
		}
		if p.Succs[side] != x {
			continue
		}
		if m := l.elemOf(c); m != nil {
			if sl, ok := m.Type().Underlying().(*types.Slice); ok && isBoolT(sl.Elem()) {
				return m
			}
		}
	}
	return nil
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// always: the block is run in every round of the loop
func (l *idxLoop) always(b *ssa.BasicBlock) bool {
	for i, p := range l.head.Preds {
		_ = i
		if l.body[p] && !b.Dominates(p) {
			return false
		}
	}
	return true
}

// counter: a number that starts from zero and counts the true elements of a
// mask
func (l *idxLoop) counter(v ssa.Value) ssa.Value {
	ph, ok := v.(*ssa.Phi)
	if !ok || ph.Block() != l.head {
		return nil
	}
	var mask ssa.Value
	seen := map[ssa.Value]bool{}
	var upd func(e ssa.Value) bool
	upd = func(e ssa.Value) bool {
		if e == ssa.Value(ph) || seen[e] {
			return true
		}
		seen[e] = true
		if plusOne(e, ph) {
			m := l.under(e.(*ssa.BinOp).Block())
			if m == nil || mask != nil && mask != m {
				return false
			}
			mask = m
			return true
		}
		if q, ok := e.(*ssa.Phi); ok && l.body[q.Block()] {
			for _, x := range q.Edges {
				if !upd(x) {
					return false
				}
			}
			return true
		}
		return false
	}
	for i, e := range ph.Edges {
		if l.body[l.head.Preds[i]] {
			if !upd(e) {
				return nil
			}
		} else if !constIs(e, 0) {
			return nil
		}
	}
	// the number must be raised whenever the element is true
	if mask != nil && !l.raised(ph, mask) {
		return nil
	}
	return mask
}

// raised: every way through a round on which the mask's element is true takes
// the raised number
func (l *idxLoop) raised(ph *ssa.Phi, mask ssa.Value) bool {
	// an unchanged number may arrive only over edges that do not lie under the mask
	ok := true
	seen := map[ssa.Value]bool{}
	var look func(e ssa.Value, from *ssa.BasicBlock)
	look = func(e ssa.Value, from *ssa.BasicBlock) {
		if e == ssa.Value(ph) {
			if l.under(from) == mask {
				ok = false
			}
			return
		}
		if seen[e] {
			return
		}
		seen[e] = true
		if q, isPhi := e.(*ssa.Phi); isPhi {
			for i, x := range q.Edges {
				look(x, q.Block().Preds[i])
			}
		}
	}
	for i, e := range ph.Edges {
		if l.body[l.head.Preds[i]] {
			look(e, l.head.Preds[i])
		}
	}
	return ok
}

// effect is what a whole loop does to a list or a number
type effect struct {
	kind string    // "copy", "selected", "count", "list"
	dst  ssa.Value // the list stored to, or the phi
	src  ssa.Value // the list copied or the mask
	at   *ssa.Store
}

// effects of a loop over indices
func (l *idxLoop) effects() []effect {
	var es []effect
	for _, in := range l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if isIntT(ph.Type()) {
			if m := l.counter(ph); m != nil {
				es = append(es, effect{kind: "count", dst: ph, src: m})
			}
		}
		if m := l.appended(ph); m != nil {
			es = append(es, effect{kind: "list", dst: ph, src: m})
		}
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && len(call.Call.Args) == 2 && oneVararg(call.Call.Args[1]) == l.idx {
					if m := l.under(b); m != nil {
						es = append(es, effect{kind: "append", dst: call.Call.Args[0], src: m})
					}
				}
			}
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			if _, ok := ia.X.Type().Underlying().(*types.Slice); !ok {
				continue
			}
			if ia.Index == l.idx && l.always(b) {
				if src := l.elemOf(st.Val); src != nil {
					es = append(es, effect{"copy", ia.X, src, st})
				}
				continue
			}
			if st.Val == l.idx {
				if m := l.under(b); m != nil && l.counter(ia.Index) == m {
					es = append(es, effect{"selected", ia.X, m, st})
				}
			}
		}
	}
	return es
}

// appended: a list that starts empty and to which the index is appended
// wherever the mask's element is true
func (l *idxLoop) appended(ph *ssa.Phi) ssa.Value {
	sl, ok := ph.Type().Underlying().(*types.Slice)
	if !ok || !isIntT(sl.Elem()) {
		return nil
	}
	var mask ssa.Value
	seen := map[ssa.Value]bool{}
	var upd func(e ssa.Value) bool
	upd = func(e ssa.Value) bool {
		if e == ssa.Value(ph) || seen[e] {
			return true
		}
		seen[e] = true
		switch q := e.(type) {
		case *ssa.Phi:
			for _, x := range q.Edges {
				if !upd(x) {
					return false
				}
			}
			return l.body[q.Block()]
		case *ssa.Call:
			bi, ok := q.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "append" || len(q.Call.Args) != 2 || q.Call.Args[0] != ssa.Value(ph) {
				return false
			}
			if v := oneVararg(q.Call.Args[1]); v != l.idx {
				return false
			}
			m := l.under(q.Block())
			if m == nil || mask != nil && mask != m {
				return false
			}
			mask = m
			return true
		}
		return false
	}
	for i, e := range ph.Edges {
		if l.body[l.head.Preds[i]] {
			if !upd(e) {
				return nil
			}
			continue
		}
		switch q := e.(type) {
		case *ssa.Const:
		case *ssa.MakeSlice:
			if !constIs(q.Len, 0) {
				return nil
			}
		case *ssa.Slice:
			if q.High == nil || !constIs(q.High, 0) {
				if n, ok := arrayLenOf(q); !ok || n != 0 {
					return nil
				}
			}
		default:
			return nil
		}
	}
	if mask != nil && !l.raised(ph, mask) {
		return nil
	}
	return mask
}

func arrayLenOf(sl *ssa.Slice) (int64, bool) {
	if p, ok := sl.X.Type().Underlying().(*types.Pointer); ok && sl.Low == nil && sl.High == nil {
		if a, ok := p.Elem().Underlying().(*types.Array); ok {
			return a.Len(), true
		}
	}
	return 0, false
}

// oneVararg gives the single value of a list made for a call
func oneVararg(v ssa.Value) ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	if n, ok := arrayLenOf(sl); !ok || n != 1 {
		return nil
	}
	var r ssa.Value
	for _, u := range *al.Referrers() {
		if ia, ok := u.(*ssa.IndexAddr); ok {
			for _, w := range *ia.Referrers() {
				if st, ok := w.(*ssa.Store); ok {
					if r != nil {
						return nil
					}
					r = st.Val
				}
			}
		}
	}
	return r
}

// rounds gives the variable of the loop and the number of rounds
func (l *idxLoop) rounds() (*ssa.Phi, ssa.Value) {
	cmp, ok := l.cond.Cond.(*ssa.BinOp)
	if !ok {
		return nil, nil
	}
	bound := cmp.Y
	if cmp.Op == token.GTR {
		bound = cmp.X
	}
	if ph, ok := l.idx.(*ssa.Phi); ok {
		return ph, bound
	}
	if b, ok := l.idx.(*ssa.BinOp); ok {
		if ph, ok := b.X.(*ssa.Phi); ok {
			return ph, bound
		}
	}
	return nil, nil
}
