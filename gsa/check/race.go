package check

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"gsa/pta"

	"golang.org/x/tools/go/ssa"
)

// race decides whether the goroutines of one root share mutable state
type race struct {
	c     *Ctx
	a     *pta.An
	lr    *pta.LockRes
	name  string
	gos   map[*pta.Ctx]pta.Point // thread -> its go statement
	sends []sendSite
	memo  map[string]int
	why   string
}

type sendSite struct {
	p    pta.Point
	ch   []pta.Loc
	val  ssa.Value
	objs map[*pta.Obj]bool // everything reachable from the payload
}

func (c *Ctx) newRace(name string, a *pta.An) *race {
	r := &race{c: c, a: a, lr: a.LockAnalysis(), name: name, gos: map[*pta.Ctx]pta.Point{}, memo: map[string]int{}}
	for _, cx := range a.CtxList() {
		if _, ok := cx.Call.(*ssa.Go); ok {
			r.gos[cx] = pta.Point{Ctx: cx.Parent, Instr: cx.Call}
		}
		for _, b := range cx.Fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Send:
					r.addSend(cx, in, x.Chan, x.X)
				case *ssa.Select:
					for _, s := range x.States {
						if s.Dir == types.SendOnly {
							r.addSend(cx, in, s.Chan, s.Send)
						}
					}
				}
			}
		}
	}
	return r
}

func (r *race) addSend(cx *pta.Ctx, in ssa.Instruction, ch, val ssa.Value) {
	s := sendSite{p: pta.Point{Ctx: cx, Instr: in}, ch: r.a.Pts(r.a.RegOf(cx, ch), ""), val: val, objs: map[*pta.Obj]bool{}}
	for o := range r.a.Reach(r.a.RegOf(cx, val), "", val.Type()) {
		s.objs[o] = true
	}
	r.sends = append(r.sends, s)
}

// has tells whether o is part of what is sent
func (s *sendSite) has(o *pta.Obj) bool {
	for x := o; x != nil; x = x.Parent {
		if s.objs[x] {
			return true
		}
	}
	return false
}

func overlap(a, b string) bool { return strings.HasPrefix(a, b) || strings.HasPrefix(b, a) }

// owner is the thread that allocates an object; ok is false if the object
// exists before the root runs
func owner(o *pta.Obj) (*pta.Ctx, bool) {
	if o.Kind != pta.KAlloc && o.Kind != pta.KExt || o.Ctx == nil {
		return nil, false
	}
	return o.Ctx.Thread(), true
}

func (r *race) held(ac *pta.Access) map[string]bool {
	m := map[string]bool{}
	st := r.lr.At[pta.Point{Ctx: ac.Ctx, Instr: ac.Instr}]
	if st != nil {
		for k, h := range st.Must {
			m[k] = h.Write
		}
	}
	return m
}

// beforeGo tells whether an access of the root's own thread can only happen
// before thread t is started
func (r *race) beforeGo(ac *pta.Access, t *pta.Ctx) bool {
	if t == nil || ac.Ctx.Thread() != t.Parent.Thread() {
		return false
	}
	return !pta.After(r.gos[t], pta.Point{Ctx: ac.Ctx, Instr: ac.Instr}, nil)
}

func allocPoint(o *pta.Obj) []pta.Point {
	if o.Ctx == nil || o.Site == nil {
		return nil
	}
	return []pta.Point{{Ctx: o.Ctx, Instr: o.Site}}
}

// recvPoints lists the places where a thread receives from a channel
func (r *race) recvPoints(t *pta.Ctx, ch *pta.Obj) []pta.Point {
	var ps []pta.Point
	for _, cx := range r.a.CtxList() {
		if cx.Thread() != t {
			continue
		}
		for _, b := range cx.Fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.UnOp:
					if x.Op == token.ARROW && r.hits(cx, x.X, ch) {
						ps = append(ps, pta.Point{Ctx: cx, Instr: in})
					}
				case *ssa.Select:
					for _, s := range x.States {
						if s.Dir == types.RecvOnly && r.hits(cx, s.Chan, ch) {
							ps = append(ps, pta.Point{Ctx: cx, Instr: in})
						}
					}
				}
			}
		}
	}
	return ps
}

func (r *race) hits(cx *pta.Ctx, ch ssa.Value, o *pta.Obj) bool {
	for _, l := range r.a.Pts(r.a.RegOf(cx, ch), "") {
		if l.O == o {
			return true
		}
	}
	return false
}

// exclusive tells whether whoever receives object o from channel ch is the
// only one to hold it from then on
func (r *race) exclusive(o *pta.Obj, ch *pta.Obj) bool {
	k := fmt.Sprintf("x%d-%d", o.ID, ch.ID)
	switch r.memo[k] {
	case 1:
		return true
	case 2:
		return false
	}
	r.memo[k] = 1 // assume while deciding (coinductive)
	ok := true
	var mine []sendSite
	for _, s := range r.sends {
		for _, l := range s.ch {
			if l.O == ch && s.has(o) {
				mine = append(mine, s)
				break
			}
		}
	}
	if len(mine) == 0 {
		r.why = "received from a channel nobody is seen to send it on"
		ok = false
	}
	for _, s := range mine {
		if !r.handedOver(o, s, mine) {
			ok = false
			break
		}
	}
	if !ok {
		r.memo[k] = 2
	}
	return ok
}

// handedOver tells whether send s gives o away for good
func (r *race) handedOver(o *pta.Obj, s sendSite, all []sendSite) bool {
	t := s.p.Ctx.Thread()
	own, alloc := owner(o)
	var cuts []pta.Point
	tagged := r.taggedIn(s, o)
	switch {
	case len(tagged) > 0:
		for _, ch := range tagged {
			if !r.exclusive(o, ch) {
				return false
			}
			cuts = append(cuts, r.recvPoints(t, ch)...)
		}
		if alloc && own == t {
			cuts = append(cuts, allocPoint(o)...)
		}
	case alloc && own == t:
		cuts = allocPoint(o)
	case o.Kind == pta.KParam:
		if r.distinctElement(o, s, all) {
			return true
		}
		r.why = fmt.Sprintf("%s belongs to the caller and is sent to several workers", r.a.TypeDesc(pta.Loc{O: o}))
		return false
	default:
		r.why = "sent by a goroutine that does not own it"
		return false
	}
	for _, s2 := range all {
		if s2.p.Ctx.Thread() == t && pta.After(s.p, s2.p, cuts) {
			if alloc && own == t && r.distinctAlloc(o, s, all) {
				continue
			}
			r.why = fmt.Sprintf("%s is sent at %s and again at %s without being made anew", r.a.TypeDesc(pta.Loc{O: o}), r.c.Where(s.p.Instr.Pos()), r.c.Where(s2.p.Instr.Pos()))
			return false
		}
	}
	for _, ac := range r.a.AccList {
		if ac.Loc.O != o || ac.Ctx.Thread() != t {
			continue
		}
		if ac.Loc.Via != nil && len(tagged) == 0 {
			continue // got it back through a channel
		}
		if len(tagged) > 0 && ac.Loc.Via != nil {
			in := false
			for _, ch := range tagged {
				if ac.Loc.Via.Chan == ch {
					in = true
				}
			}
			if !in {
				continue
			}
		}
		if pta.After(s.p, pta.Point{Ctx: ac.Ctx, Instr: ac.Instr}, cuts) {
			r.why = fmt.Sprintf("%s is used at %s after it was sent at %s", r.a.TypeDesc(ac.Loc), r.c.Where(ac.Instr.Pos()), r.c.Where(s.p.Instr.Pos()))
			return false
		}
	}
	if len(tagged) == 0 && !r.unshared(o, t) {
		return false
	}
	return true
}

// taggedIn lists the channels through which the sending thread itself got o
func (r *race) taggedIn(s sendSite, o *pta.Obj) []*pta.Obj {
	var chs []*pta.Obj
	t := s.p.Ctx.Thread()
	reg := r.a.RegOf(s.p.Ctx, s.val)
	for _, f := range pta.Flat(s.val.Type()) {
		for _, l := range r.a.Pts(reg, f) {
			if l.Via != nil && l.Via.Thread == t {
				if l.O == o || r.reaches(l, o) {
					chs = append(chs, l.Via.Chan)
				}
			}
		}
	}
	return chs
}

func (r *race) reaches(l pta.Loc, o *pta.Obj) bool {
	for _, x := range r.a.ReachLoc(l) {
		if x == o {
			return true
		}
	}
	return false
}

// unshared tells whether the allocating thread stores no reference to o in
// memory that other threads can see
func (r *race) unshared(o *pta.Obj, t *pta.Ctx) bool {
	for _, h := range r.a.Holders(o) {
		// cells that hold an untagged pointer to o
		if h.Loc.Via != nil {
			continue
		}
		ho := h.Holder
		switch ho.Kind {
		case pta.KReg, pta.KBox, pta.KFunc:
			continue
		case pta.KParam, pta.KGlobal:
			if r.storedBy(ho, h.Path, o, t) {
				r.why = fmt.Sprintf("a reference is kept in %s", r.a.Describe(pta.Loc{O: ho, Path: h.Path}))
				return false
			}
		}
	}
	return true
}

// storedBy tells whether thread t itself stores untagged pointers there
func (r *race) storedBy(ho *pta.Obj, path string, o *pta.Obj, t *pta.Ctx) bool {
	for _, ac := range r.a.AccList {
		if !ac.Write || ac.Loc.O != ho || ac.Loc.Path != path || ac.Ctx.Thread() != t {
			continue
		}
		if st, ok := ac.Instr.(*ssa.Store); ok {
			for _, f := range pta.Flat(st.Val.Type()) {
				for _, l := range r.a.Pts(r.a.RegOf(ac.Ctx, st.Val), f) {
					if l.O == o && l.Via == nil {
						return true
					}
				}
			}
		}
	}
	return false
}

// distinctElement tells whether o is (part of) an element of a caller's slice
// that is handed out at most once
func (r *race) distinctElement(o *pta.Obj, s sendSite, all []sendSite) bool {
	for x := o; x.Parent != nil; x = x.Parent {
		if !strings.HasPrefix(x.PPath, "[]") {
			continue
		}
		if r.elementsOnce(x.Parent, x.PPath, s, all) {
			return true
		}
	}
	return false
}

// distinctAlloc tells whether o, made in a loop and kept in a slice, is taken
// from that slice once
func (r *race) distinctAlloc(o *pta.Obj, s sendSite, all []sendSite) bool {
	t := s.p.Ctx.Thread()
	tried := map[*pta.Obj]bool{}
	for _, ac := range r.a.AccList {
		S := ac.Loc.O
		if !ac.Write || ac.Loc.Path != "[]" || tried[S] || S == o || !r.reaches(pta.Loc{O: S}, o) {
			continue
		}
		tried[S] = true
		if !r.elementsOnce(S, "[]", s, all) {
			continue
		}
		// every element of the slice is another object
		ok := true
		var stores []pta.Point
		for _, b := range r.a.AccList {
			if b.Write && b.Loc.O == S && overlap(b.Loc.Path, "[]") {
				stores = append(stores, pta.Point{Ctx: b.Ctx, Instr: b.Instr})
			}
		}
		for _, p := range stores {
			for _, q := range stores {
				if p.Ctx.Thread() != t || q.Ctx.Thread() != t || pta.After(p, q, allocPoint(o)) {
					ok = false
				}
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// elementsOnce tells whether the sending thread takes each element of a slice
// at most once, and takes one for each message
func (r *race) elementsOnce(slice *pta.Obj, path string, s sendSite, all []sendSite) bool {
	t := s.p.Ctx.Thread()
	var loads []pta.Point
	for _, ac := range r.a.AccList {
		if ac.Write || ac.Loc.O != slice || ac.Loc.Path != path || ac.Ctx.Thread() != t {
			continue
		}
		p := pta.Point{Ctx: ac.Ctx, Instr: ac.Instr}
		useful := false
		for _, s2 := range all {
			if s2.p.Ctx.Thread() == t && pta.After(p, s2.p, nil) {
				useful = true
			}
		}
		if !useful {
			continue // not on the way to a message
		}
		loads = append(loads, p)
		if r.cellCounted(slice, []pta.Point{p}) {
			continue
		}
		if !r.c.takenOnce(ac.Ctx.Fn, slice, r.a, ac.Ctx) {
			r.why = fmt.Sprintf("an element of %s may be handed out twice (%s)", slice.Name, r.c.Where(ac.Instr.Pos()))
			return false
		}
	}
	if len(loads) == 0 {
		return false
	}
	for _, s2 := range all {
		if s2.p.Ctx.Thread() == t && pta.After(s.p, s2.p, loads) {
			return false
		}
	}
	if r.cellCounted(slice, loads) {
		return true
	}
	// one function takes the elements, once
	for _, p := range loads {
		for _, q := range loads {
			if p.Ctx != q.Ctx {
				r.why = fmt.Sprintf("elements of %s are taken in several places", slice.Name)
				return false
			}
		}
		if pta.InLoopAbove(p.Ctx, t, slice) {
			r.why = fmt.Sprintf("elements of %s are taken by a function that runs repeatedly", slice.Name)
			return false
		}
	}
	return true
}

// cellCounted tells whether elements are taken at an index kept in a variable
// shared by closures, which grows between two uses whichever of them runs
func (r *race) cellCounted(slice *pta.Obj, loads []pta.Point) bool {
	var cell *ssa.Alloc
	uses := map[*ssa.Function]map[ssa.Instruction]bool{}
	for _, p := range loads {
		found := false
		for _, b := range p.Ctx.Fn.Blocks {
			for _, in := range b.Instrs {
				ia, ok := in.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				mine := false
				for _, l := range r.a.Pts(r.a.RegOf(p.Ctx, ia.X), "") {
					if l.O == slice {
						mine = true
					}
				}
				if !mine {
					continue
				}
				ld, ok := ia.Index.(*ssa.UnOp)
				if !ok || ld.Op != token.MUL || ld.Block() != b {
					return false
				}
				al, ok := ld.X.(*ssa.Alloc)
				if !ok {
					al, _ = captured(p.Ctx, ld.X)
				}
				if al == nil || cell != nil && al != cell {
					return false
				}
				cell = al
				if uses[p.Ctx.Fn] == nil {
					uses[p.Ctx.Fn] = map[ssa.Instruction]bool{}
				}
				uses[p.Ctx.Fn][ia] = true
				found = true
			}
		}
		if !found {
			return false
		}
	}
	if cell == nil {
		return false
	}
	for _, l := range loopsOf(cell.Parent()) {
		if l.body[cell.Block()] {
			return false
		}
	}
	// every routine that knows the variable, under the name it has there
	names := map[*ssa.Function]map[ssa.Value]bool{}
	var look func(v ssa.Value) bool
	look = func(v ssa.Value) bool {
		f := v.Parent()
		if names[f] == nil {
			names[f] = map[ssa.Value]bool{}
		}
		if names[f][v] {
			return true
		}
		names[f][v] = true
		for _, in := range *v.Referrers() {
			switch y := in.(type) {
			case *ssa.Store:
				if y.Addr != v {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				fn := y.Fn.(*ssa.Function)
				for i, bd := range y.Bindings {
					if bd == v && !look(fn.FreeVars[i]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	if !look(cell) {
		return false
	}
	for f, ns := range names {
		if !advancesCell(f, ns, uses[f], names, cell) {
			return false
		}
	}
	return true
}

// advancesCell decides for one routine that no element at the current index is
// used twice, and that the routine neither ends nor calls another that knows
// the index between a use and the step that follows it
func advancesCell(f *ssa.Function, ns map[ssa.Value]bool, uses map[ssa.Instruction]bool, all map[*ssa.Function]map[ssa.Value]bool, cell *ssa.Alloc) bool {
	ok := true
	flow := func(b *ssa.BasicBlock, used bool) bool {
		cur := map[ssa.Value]bool{} // loads that still have the current value
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op == token.MUL && ns[x.X] {
					cur[x] = true
				}
			case *ssa.IndexAddr:
				if uses[x] {
					if used || !cur[x.Index] {
						ok = false
					}
					used = true
				}
			case *ssa.Store:
				if !ns[x.Addr] {
					continue
				}
				step := false
				if bo, isB := x.Val.(*ssa.BinOp); isB && bo.Op == token.ADD && cur[bo.X] {
					if k, isC := bo.Y.(*ssa.Const); isC && k.Value != nil && k.Int64() > 0 {
						step = true
					}
				}
				if _, isC := x.Val.(*ssa.Const); isC && f == cell.Parent() && x.Block() == cell.Block() && !used {
					step = true // where it starts from
				}
				if !step {
					ok = false
				}
				used = false
				cur = map[ssa.Value]bool{}
			case *ssa.Return:
				if used {
					ok = false
				}
			case ssa.CallInstruction:
				if _, isB := x.Common().Value.(*ssa.Builtin); isB {
					continue
				}
				if g := x.Common().StaticCallee(); g != nil && all[g] == nil && g.Parent() == nil && len(x.Common().Args) == 0 {
					continue
				}
				if used {
					ok = false
				}
				cur = map[ssa.Value]bool{}
			}
		}
		return used
	}
	in := map[*ssa.BasicBlock]int{f.Blocks[0]: 1} // 1 not used, 2 possibly used
	for ch := true; ch; {
		ch = false
		for _, b := range f.Blocks {
			if in[b] == 0 {
				continue
			}
			o := 1
			if flow(b, in[b] == 2) {
				o = 2
			}
			for _, s := range b.Succs {
				if o > in[s] {
					in[s] = o
					ch = true
				}
			}
		}
	}
	return ok
}

// takenOnce tells whether the loads of elements of a slice in a function take
// each element at most once: the index grows strictly between two loads
func (c *Ctx) takenOnce(fn *ssa.Function, slice *pta.Obj, a *pta.An, cx *pta.Ctx) bool {
	loads := map[ssa.Instruction]ssa.Value{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, l := range a.Pts(a.RegOf(cx, ia.X), "") {
				if l.O == slice {
					loads[in] = ia.Index
				}
			}
		}
	}
	// an element read only to be looked at (its address not loaded) counts too
	return strictlyAdvancing(fn, loads)
}

// strictlyAdvancing decides, by forward dataflow, that each listed use of an
// index sees a value larger than every earlier one. States: 2 larger than all
// uses so far, 1 not smaller than the last use, 0 unknown.
func strictlyAdvancing(fn *ssa.Function, uses map[ssa.Instruction]ssa.Value) bool {
	vals := map[ssa.Value]bool{}
	var addVal func(v ssa.Value)
	addVal = func(v ssa.Value) {
		if vals[v] {
			return
		}
		switch x := v.(type) {
		case *ssa.Phi:
			vals[v] = true
			for _, e := range x.Edges {
				addVal(e)
			}
		case *ssa.BinOp:
			if x.Op == token.ADD {
				if k, ok := x.Y.(*ssa.Const); ok && k.Value != nil && k.Int64() > 0 {
					vals[v] = true
					addVal(x.X)
				}
			}
		case *ssa.Const:
			vals[v] = true
		}
	}
	for _, v := range uses {
		addVal(v)
		if !vals[v] {
			return false
		}
	}
	type state map[ssa.Value]int
	get := func(s state, v ssa.Value, used bool) int {
		if _, ok := v.(*ssa.Const); ok {
			if used {
				return 0
			}
			return 2
		}
		if x, ok := s[v]; ok {
			return x
		}
		return 0
	}
	// used: some use has happened
	type full struct {
		s    state
		used bool
	}
	ins := map[*ssa.BasicBlock]*full{}
	cp := func(f *full) *full {
		n := &full{state{}, f.used}
		for k, v := range f.s {
			n.s[k] = v
		}
		return n
	}
	ok := true
	visitBlock := func(b *ssa.BasicBlock, f *full, final bool) *full {
		f = cp(f)
		for _, in := range b.Instrs {
			if v, isUse := uses[in]; isUse {
				if final && get(f.s, v, f.used) != 2 {
					ok = false
				}
				for x := range vals {
					switch {
					case x == v:
						f.s[x] = 1
					case derivedFrom(x, v) && get(f.s, x, f.used) == 2:
					default:
						f.s[x] = 0
					}
				}
				f.used = true
			}
			if bo, isB := in.(*ssa.BinOp); isB && vals[bo] {
				if get(f.s, bo.X, f.used) >= 1 {
					f.s[bo] = 2
				} else {
					f.s[bo] = 0
				}
			}
		}
		return f
	}
	merge := func(old, nw *full) (*full, bool) {
		if old == nil {
			return nw, true
		}
		ch := false
		if nw.used && !old.used {
			old.used = true
			ch = true
		}
		for v := range vals {
			o, n := get(old.s, v, false), get(nw.s, v, false)
			if _, isC := v.(*ssa.Const); isC {
				continue
			}
			if n < o {
				old.s[v] = n
				ch = true
			}
		}
		return old, ch
	}
	entry := &full{state{}, false}
	for v := range vals {
		entry.s[v] = 2
	}
	ins[fn.Blocks[0]] = entry
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	for n := 0; len(work) > 0 && n < 10000; n++ {
		b := work[0]
		work = work[1:]
		out := visitBlock(b, ins[b], false)
		for _, s := range b.Succs {
			e := cp(out)
			nv := map[ssa.Value]int{}
			for _, in := range s.Instrs {
				ph, isP := in.(*ssa.Phi)
				if !isP {
					break
				}
				if !vals[ph] {
					continue
				}
				for i, p := range s.Preds {
					if p == b {
						nv[ph] = get(out.s, ph.Edges[i], out.used)
					}
				}
			}
			for k, v := range nv {
				e.s[k] = v
			}
			m, ch := merge(ins[s], e)
			ins[s] = m
			if ch {
				work = append(work, s)
			}
		}
	}
	for b, f := range ins {
		visitBlock(b, f, true)
	}
	return ok
}

func derivedFrom(x, v ssa.Value) bool {
	b, ok := x.(*ssa.BinOp)
	return ok && b.X == v
}

// afterForward tells whether a write to a received object can happen after the
// thread has passed it on
func (r *race) afterForward(w *pta.Access) bool {
	t := w.Ctx.Thread()
	cuts := r.recvPoints(t, w.Loc.Via.Chan)
	for _, s := range r.sends {
		if s.p.Ctx.Thread() != t || !s.has(w.Loc.O) {
			continue
		}
		if pta.After(s.p, pta.Point{Ctx: w.Ctx, Instr: w.Instr}, cuts) {
			r.why = fmt.Sprintf("written after it was passed on at %s", r.c.Where(s.p.Instr.Pos()))
			return true
		}
	}
	// kept in memory that other threads see
	for _, ac := range r.a.AccList {
		st, ok := ac.Instr.(*ssa.Store)
		if !ok || !ac.Write || ac.Ctx.Thread() != t {
			continue
		}
		if own, alloc := owner(ac.Loc.O); ac.Loc.O == w.Loc.O || alloc && own == t || ac.Loc.Via != nil && ac.Loc.Via.Thread == t {
			continue
		}
		if !pta.After(pta.Point{Ctx: ac.Ctx, Instr: st}, pta.Point{Ctx: w.Ctx, Instr: w.Instr}, cuts) {
			continue
		}
		for _, f := range pta.Flat(st.Val.Type()) {
			for _, l := range r.a.Pts(r.a.RegOf(ac.Ctx, st.Val), f) {
				if l.O == w.Loc.O && l.Via == w.Loc.Via {
					r.why = fmt.Sprintf("written after a reference was kept in %s at %s", r.a.Describe(ac.Loc), r.c.Where(st.Pos()))
					return true
				}
			}
		}
	}
	return false
}

// initialised tells whether the allocating thread finishes with o before it
// gives it away
func (r *race) initialised(o *pta.Obj, t *pta.Ctx) bool {
	cuts := allocPoint(o)
	for _, s := range r.sends {
		if s.p.Ctx.Thread() != t || !s.has(o) {
			continue
		}
		for _, ac := range r.a.AccList {
			if ac.Loc.O == o && ac.Write && ac.Loc.Via == nil && ac.Ctx.Thread() == t && pta.After(s.p, pta.Point{Ctx: ac.Ctx, Instr: ac.Instr}, cuts) {
				r.why = fmt.Sprintf("written at %s after it was sent at %s", r.c.Where(ac.Instr.Pos()), r.c.Where(s.p.Instr.Pos()))
				return false
			}
		}
	}
	return r.unshared(o, t)
}

// run reports every unsynchronised pair, by the object written
func (r *race) run() (bad map[string]string, pairs int) {
	bad = map[string]string{}
	byObj := map[*pta.Obj][]*pta.Access{}
	for _, ac := range r.a.AccList {
		byObj[ac.Loc.O] = append(byObj[ac.Loc.O], ac)
	}
	var objs []*pta.Obj
	for o := range byObj {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].ID < objs[j].ID })
	for _, o := range objs {
		own, alloc := owner(o)
		for _, w := range byObj[o] {
			if !w.Write {
				continue
			}
			for _, ac := range byObj[o] {
				if !overlap(w.Loc.Path, ac.Loc.Path) {
					continue
				}
				tw, ta := w.Ctx.Thread(), ac.Ctx.Thread()
				if tw == nil && ta == nil {
					continue
				}
				if tw == ta {
					if !pta.Multi(tw) {
						continue
					}
					if alloc && own == tw && w.Loc.Via == nil && ac.Loc.Via == nil {
						continue // each instance its own
					}
				}
				pairs++
				if r.safe(w, ac, own, alloc) {
					continue
				}
				d := r.a.TypeDesc(w.Loc)
				if bad[d] == "" {
					bad[d] = fmt.Sprintf("written at %s (%s), used at %s (%s): %s", r.c.Where(w.Instr.Pos()), ctxPath(w.Ctx), r.c.Where(ac.Instr.Pos()), ctxPath(ac.Ctx), r.why)
				}
			}
		}
	}
	return bad, pairs
}

func (r *race) safe(w, ac *pta.Access, own *pta.Ctx, alloc bool) bool {
	r.why = "no lock in common and no hand-over"
	hw, ha := r.held(w), r.held(ac)
	for k, wm := range hw {
		if _, ok := ha[k]; ok && wm {
			return true
		}
	}
	tw, ta := w.Ctx.Thread(), ac.Ctx.Thread()
	if r.beforeGo(ac, tw) || r.beforeGo(w, ta) {
		return true
	}
	if w.Loc.Via != nil && w.Loc.Via.Thread == tw {
		return r.exclusive(w.Loc.O, w.Loc.Via.Chan) && !r.afterForward(w)
	}
	if alloc && own == tw {
		return r.initialised(w.Loc.O, tw)
	}
	return false
}

func checkC02(c *Ctx) {
	c.Rule("no shared mutable state", "for every memory location written by one goroutine (or by its starter) and accessed by another, both hold a common lock, or the access happens before the goroutine is started, or the location is handed over: made anew for each message, sent, and not used by the sender afterwards")
	roots := []tool{}
	for _, n := range apiNames() {
		f := c.P.Func("featselect", n)
		if f == nil {
			continue
		}
		roots = append(roots, tool{n, f})
	}
	roots = append(roots, c.toolRoots()...)
	goSites := map[ssa.Instruction]bool{}
	for _, rt := range roots {
		a := c.analyse(rt.fn)
		has := false
		for _, cx := range a.CtxList() {
			if g, ok := cx.Call.(*ssa.Go); ok {
				has = true
				goSites[g] = true
			}
		}
		if !has {
			continue
		}
		r := c.newRace(rt.name, a)
		bad, pairs := r.run()
		c.Count("parallel routines", 1)
		c.Count("access pairs", pairs)
		c.Count("send sites", len(r.sends))
		var ks []string
		for k := range bad {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if len(ks) == 0 {
			c.Add("no shared mutable state", rt.name, rt.fn.Pos(), OK, "")
		}
		for _, k := range ks {
			c.Add("no shared mutable state", rt.name+": "+k, rt.fn.Pos(), Bad, "%s", bad[k])
		}
	}
	// every go statement of the module is covered by some root
	for _, sp := range c.P.SSA {
		if !pta.InModule(sp.Pkg.Path(), c.P.Module) {
			continue
		}
		for _, f := range allFuncs(c.P.Prog, sp) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if g, ok := in.(*ssa.Go); ok {
						c.Count("go statements", 1)
						c.Check(goSites[g], "go statement analysed", f.String(), g.Pos(), "the goroutine is not reached from any exported routine or tool")
					}
				}
			}
		}
	}
	c.AtLeast("parallel routines", 5)
	c.AtLeast("go statements", 5)
	c.AtLeast("access pairs", 50)
}

// allFuncs lists the functions of a package with their closures
func allFuncs(prog *ssa.Program, sp *ssa.Package) []*ssa.Function {
	var r []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || len(f.Blocks) == 0 {
			return
		}
		r = append(r, f)
		for _, x := range f.AnonFuncs {
			add(x)
		}
	}
	for _, m := range sp.Members {
		switch x := m.(type) {
		case *ssa.Function:
			add(x)
		case *ssa.Type:
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if f := prog.MethodValue(ms.At(i)); f != nil && f.Pkg == sp && f.Synthetic == "" {
						dup := false
						for _, y := range r {
							if y == f {
								dup = true
							}
						}
						if !dup {
							add(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Pos() < r[j].Pos() })
	return r
}

func init() {
	registry["C02"] = checkC02
	explain["C02"] = "Static race and ownership analysis: the points-to analysis tags every pointer a goroutine obtains by receiving from a channel; each pair of a write and another access to the same abstract location from different goroutine instances must be ordered by a common lock, by program order before the go statement, or by ownership transfer (allocated since the last send of it, not used by the sender after the send, not stored in shared memory, not written after being passed on)."
}
