package sem

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Eval computes values for the functions of one program
type Eval struct {
	Follow    bool // describe also the objects that arguments point to
	Divisors  bool // record the conditions for floating-point divisors not to be zero
	NumBounds int  // how many were looked at
	Bounds    bool // record the conditions for indexing and sizing
	Prog      *ssa.Program
	Module    string
	Opaque    func(*ssa.Function) bool
	regType   map[string]types.Type
	typs      map[string]types.Type
	Events    []*Event
	stack     []*ssa.Function
	info      map[*ssa.Function]*fnInfo
	// Unsupported constructs met, with their position
	Notes   []string
	Prints  bool // record output calls as events
	steps   int
	solves  int
	allL    []*Loop
	fnNames map[string]*ssa.Function
}

// Event is an effect that is observable from outside
type Event struct {
	Kind  string
	Guard *T
	Loop  *Loop
	Args  []*T
	Pos   token.Pos
	Fn    *ssa.Function
	mem   *Mem
}

// NewEval makes an evaluator
func NewEval(prog *ssa.Program, module string) *Eval {
	return &Eval{Prog: prog, Module: module, regType: map[string]types.Type{}, typs: map[string]types.Type{},
		info: map[*ssa.Function]*fnInfo{}, Opaque: func(*ssa.Function) bool { return false }}
}

func (ev *Eval) note(pos token.Pos, f string, a ...interface{}) {
	ev.Notes = append(ev.Notes, fmt.Sprintf("%s: %s", ev.Prog.Fset.Position(pos), fmt.Sprintf(f, a...)))
}

// ---------------------------------------------------------------- control flow facts

type sloop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *sloop
	depth  int
}

type fnInfo struct {
	rpo    []*ssa.BasicBlock
	loops  map[*ssa.BasicBlock]*sloop // by header
	inner  map[*ssa.BasicBlock]*sloop // innermost loop of a block
	dead   map[*ssa.BasicBlock]bool
	defers bool
}

func noReturnCall(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	if f == nil || f.Pkg == nil {
		return false
	}
	switch f.Pkg.Pkg.Path() + "." + f.Name() {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit", "log.Panic", "log.Panicf":
		return true
	}
	return false
}

func (ev *Eval) fn(f *ssa.Function) *fnInfo {
	if i := ev.info[f]; i != nil {
		return i
	}
	i := &fnInfo{loops: map[*ssa.BasicBlock]*sloop{}, inner: map[*ssa.BasicBlock]*sloop{}, dead: map[*ssa.BasicBlock]bool{}}
	ev.info[f] = i
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	for k := len(post) - 1; k >= 0; k-- {
		i.rpo = append(i.rpo, post[k])
	}
	// dead ends
	for _, b := range post {
		d := false
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Panic:
				d = true
			case *ssa.Call:
				if noReturnCall(&x.Call) {
					d = true
				}
			case *ssa.Defer:
				i.defers = true
			}
		}
		if d {
			i.dead[b] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, b := range post {
			if i.dead[b] || len(b.Succs) == 0 {
				continue
			}
			all := true
			for _, s := range b.Succs {
				if !i.dead[s] {
					all = false
				}
			}
			if all {
				i.dead[b] = true
				changed = true
			}
		}
	}
	// natural loops
	for _, b := range i.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := i.loops[s]
				if l == nil {
					l = &sloop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					i.loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	var ls []*sloop
	for _, l := range i.loops {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(a, b int) bool { return len(ls[a].blocks) < len(ls[b].blocks) })
	for k, l := range ls {
		for _, o := range ls[k+1:] {
			if o.blocks[l.header] && o != l {
				l.parent = o
				break
			}
		}
		for b := range l.blocks {
			if i.inner[b] == nil {
				i.inner[b] = l
			}
		}
	}
	return i
}

// ---------------------------------------------------------------- frames

type frame struct {
	fn    *ssa.Function
	info  *fnInfo
	env   map[ssa.Value]*T
	defL  map[ssa.Value]*Loop
	site  string
	base  *T    // guard of the call
	baseL *Loop // loop around the call
	cur   *Loop
	defs  []deferred
	rets  []retEdge
}

type deferred struct {
	call  *ssa.CallCommon
	args  []*T
	guard *T
}

type retEdge struct {
	guard *T
	vals  []*T
	mem   *Mem
}

func (fr *frame) ctx(g *T) *T {
	if fr.cur == fr.baseL {
		return And(fr.base, g)
	}
	return g
}

type edge struct {
	from  *ssa.BasicBlock
	to    *ssa.BasicBlock
	guard *T
	mem   *Mem
}

func (ev *Eval) ts(L *Loop) []*T {
	var r []*T
	for ; L != nil; L = L.parent {
		r = append([]*T{L.t}, r...)
	}
	return r
}

func (ev *Eval) newObj(fr *frame, pos interface{}, L *Loop) *T {
	return mk("new", fmt.Sprintf("%s/%v", fr.site, pos), ev.ts(L), NotNum)
}

func instrID(in ssa.Instruction) string {
	b := in.Block()
	for k, x := range b.Instrs {
		if x == in {
			return fmt.Sprintf("%s.%d.%d", in.Parent().Name(), b.Index, k)
		}
	}
	return "?"
}

// event records an effect
func (ev *Eval) event(fr *frame, kind string, g *T, mem *Mem, pos token.Pos, args ...*T) {
	ev.Events = append(ev.Events, &Event{Kind: kind, Guard: fr.ctx(g), Loop: fr.cur, Args: args, Pos: pos, Fn: fr.fn, mem: mem})
}

// val reads an operand
func (ev *Eval) val(fr *frame, v ssa.Value) *T {
	switch x := v.(type) {
	case *ssa.Const:
		return ev.constVal(x)
	case *ssa.Function:
		return mk("fnval", x.String(), nil, NotNum)
	case *ssa.Global:
		return mk("glob", x.String(), nil, NotNum)
	case *ssa.Builtin:
		return mk("builtin", x.Name(), nil, NotNum)
	}
	t, ok := fr.env[v]
	if !ok {
		return mk("undef", fmt.Sprintf("%s/%s", fr.fn, v.Name()), nil, numOf(v.Type()))
	}
	if L := fr.defL[v]; L != nil && L != fr.cur {
		// value computed in a loop that has been left
		if encloses(L, fr.cur) {
			return t
		}
		for l := L; l != nil && !encloses(l, fr.cur); l = l.parent {
			t = ev.finalShape(l, t)
		}
	}
	return t
}

func (ev *Eval) finalShape(l *Loop, t *T) *T { return l.final(t) }

func encloses(L, cur *Loop) bool {
	for l := cur; l != nil; l = l.parent {
		if l == L {
			return true
		}
	}
	return false
}

func (ev *Eval) constVal(c *ssa.Const) *T {
	if c.Value == nil {
		return ev.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return True
		}
		return False
	case constant.String:
		return Str(constant.StringVal(c.Value))
	case constant.Int, constant.Float:
		if numOf(c.Type()) == IntNum {
			r := new(big.Rat)
			if _, ok := r.SetString(constant.ToInt(c.Value).ExactString()); ok {
				return Const(r)
			}
		}
		f, _ := constant.Float64Val(c.Value)
		r := new(big.Rat)
		if r.SetFloat64(f) != nil {
			return Const(r)
		}
	}
	return mk("const", c.Value.ExactString(), nil, numOf(c.Type()))
}

// RealConst is the constant for a float64
func RealConst(f float64) *T {
	r := new(big.Rat)
	r.SetFloat64(f)
	return Const(r)
}

// Result is the outcome of one function
type Result struct {
	Fn     *ssa.Function
	Params []*T
	Vals   []*T
	Mem    *Mem
	Events []*Event
	Guard  *T
	Notes  []string
	Loops  []*Loop
}

// Call evaluates a function for symbolic arguments
func (ev *Eval) Call(fn *ssa.Function, params []*T, mem *Mem) *Result {
	ev.Events = nil
	ev.Notes = nil
	ev.allL = nil
	root := &frame{fn: fn, base: True, site: ""}
	if mem == nil {
		mem = newMem()
	}
	vals, m := ev.inline(root, fn, params, nil, mem, True, "", nil)
	r := &Result{Fn: fn, Params: params, Vals: vals, Mem: m, Events: ev.Events, Guard: True, Notes: ev.Notes, Loops: ev.allL}
	return r
}

// ParamSyms makes symbols for the parameters of a function
func (ev *Eval) ParamSyms(fn *ssa.Function) []*T {
	var r []*T
	for i, p := range fn.Params {
		r = append(r, ev.ParamSym(i, p.Type()))
	}
	return r
}

// ParamSym is the symbol of parameter i
func (ev *Eval) ParamSym(i int, t types.Type) *T {
	return ev.wrap(Sym(fmt.Sprintf("p%d", i), numOf(t)), t)
}

// inline evaluates a call of a function with a body
func (ev *Eval) inline(caller *frame, fn *ssa.Function, args, binds []*T, mem *Mem, g *T, site string, in ssa.Instruction) ([]*T, *Mem) {
	ev.stack = append(ev.stack, fn)
	defer func() { ev.stack = ev.stack[:len(ev.stack)-1] }()
	fr := &frame{fn: fn, info: ev.fn(fn), env: map[ssa.Value]*T{}, defL: map[ssa.Value]*Loop{},
		site: caller.site + "/" + site, base: caller.ctx(g), baseL: caller.cur, cur: caller.cur}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
		fr.defL[p] = caller.cur
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = binds[i]
		fr.defL[p] = caller.cur
	}
	ev.region(fr, fn.Blocks[0], nil, mem)
	if len(fr.rets) == 0 {
		// never returns
		res := make([]*T, fn.Signature.Results().Len())
		for i := range res {
			res[i] = ev.zero(fn.Signature.Results().At(i).Type())
		}
		return res, mem
	}
	last := fr.rets[len(fr.rets)-1]
	vals := append([]*T{}, last.vals...)
	m := last.mem
	all := last.guard
	for k := len(fr.rets) - 2; k >= 0; k-- {
		r := fr.rets[k]
		for i := range vals {
			vals[i] = Ite(r.guard, r.vals[i], vals[i])
		}
		m = mergeMem(r.guard, r.mem, m)
		all = Or(all, r.guard)
	}
	for i := range vals {
		vals[i] = Constrain(vals[i], all)
	}
	return vals, m
}

// region evaluates the blocks of a function body or of a loop body
func (ev *Eval) region(fr *frame, entry *ssa.BasicBlock, sl *sloop, mem *Mem) (latch, exits []*edge) {
	incoming := map[*ssa.BasicBlock][]*edge{}
	inRegion := func(b *ssa.BasicBlock) bool { return sl == nil || sl.blocks[b] }
	addEdge := func(e *edge) {
		if e.guard == False {
			return
		}
		if fr.info.dead[e.to] {
			ev.event(fr, "panic", e.guard, e.mem, posOf(e.to))
			return
		}
		switch {
		case sl != nil && e.to == sl.header:
			latch = append(latch, e)
		case !inRegion(e.to):
			exits = append(exits, e)
		default:
			incoming[e.to] = append(incoming[e.to], e)
		}
	}
	for _, b := range fr.info.rpo {
		if !inRegion(b) {
			continue
		}
		if b != entry && fr.info.inner[b] != sl {
			l := fr.info.inner[b]
			// inside a nested loop: only its outermost header below sl is handled
			for l != nil && l.parent != sl {
				l = l.parent
			}
			if l == nil || l.header != b {
				continue
			}
			if len(incoming[b]) == 0 {
				continue
			}
			for _, e := range ev.loop(fr, l, incoming[b]) {
				addEdge(e)
			}
			continue
		}
		if b == entry && sl == nil && fr.info.inner[b] != nil {
			// function entry is itself a loop header
			for _, e := range ev.loop(fr, fr.info.inner[b], []*edge{{from: nil, to: b, guard: True, mem: mem}}) {
				addEdge(e)
			}
			continue
		}
		g, m := True, mem
		if b != entry {
			es := incoming[b]
			if len(es) == 0 {
				continue
			}
			g, m = mergeEdges(es)
			ev.phis(fr, b, es, g)
		}
		ev.block(fr, b, g, m, addEdge)
	}
	return
}

func posOf(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos() != token.NoPos {
			return in.Pos()
		}
	}
	return token.NoPos
}

func mergeEdges(es []*edge) (*T, *Mem) {
	g, m := es[len(es)-1].guard, es[len(es)-1].mem
	for k := len(es) - 2; k >= 0; k-- {
		m = mergeMem(es[k].guard, es[k].mem, m)
		g = Or(es[k].guard, g)
	}
	return g, m
}

func predIndex(b, from *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == from {
			return i
		}
	}
	return 0
}

func (ev *Eval) phis(fr *frame, b *ssa.BasicBlock, es []*edge, g *T) {
	vals := map[*ssa.Phi]*T{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[p] = Constrain(ev.mergePhi(fr, b, p, es), g)
	}
	for p, v := range vals {
		ev.set(fr, p, v)
	}
}

func (ev *Eval) mergePhi(fr *frame, b *ssa.BasicBlock, p *ssa.Phi, es []*edge) *T {
	var v *T
	for k := len(es) - 1; k >= 0; k-- {
		x := ev.val(fr, p.Edges[predIndex(b, es[k].from)])
		if v == nil {
			v = x
		} else {
			v = iteVal(es[k].guard, x, v)
		}
	}
	return v
}

// iteVal is Ite that also merges struct values
func iteVal(g, a, b *T) *T { return Ite(g, a, b) }

func (ev *Eval) set(fr *frame, v ssa.Value, t *T) {
	fr.env[v] = t
	fr.defL[v] = fr.cur
}

// loop evaluates a natural loop
func (ev *Eval) loop(fr *frame, sl *sloop, es []*edge) []*edge {
	entryG, preMem := mergeEdges(es)
	var phis []*ssa.Phi
	inits := map[*ssa.Phi]*T{}
	for _, in := range sl.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		inits[p] = Constrain(ev.mergePhi(fr, sl.header, p, es), entryG)
	}
	modes := map[*ssa.Phi]int{}
	for _, p := range phis {
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			modes[p] = 1
			if inits[p].Op == "ite" {
				modes[p] = 2
			}
		}
	}
	nEv := len(ev.Events)
	nAll := len(ev.allL)
	nNotes := len(ev.Notes)
	outer := fr.cur
	var assume, fresh, freshV map[string]bool
	var cells []*loopCell
	for round := 0; ; round++ {
		if round > 12 {
			ev.note(posOf(sl.header), "loop analysis does not settle")
			return nil
		}
		ev.Events = ev.Events[:nEv]
		ev.allL = ev.allL[:nAll]
		ev.Notes = ev.Notes[:nNotes]
		L := &Loop{ev: ev, parent: outer, frame: fr, header: sl.header, guard: fr.ctx(entryG),
			sols: map[int]*T{}, busy: map[int]bool{}, hdrs: map[string]*Map{}, finals: map[int]*T{}, assume: assume, fresh: fresh, freshV: freshV,
			outerT: ev.ts(outer), Pos: ev.Prog.Fset.Position(posOf(sl.header)).String()}
		nextSym++
		L.id = nextSym
		L.t = FreshIndex("t", nil)
		L.mark = Fresh("hdrmark", NotNum)
		loopOf[L.mark] = L
		ev.allL = append(ev.allL, L)
		pre := preMem
		fr.cur = L
		for k, p := range phis {
			lp := &loopPhi{phi: p, init: inits[p], mode: modes[p]}
			name := fmt.Sprintf("%d", k)
			switch lp.mode {
			case 0:
				lp.sym = mk("phi", name, []*T{L.mark}, numOf(p.Type()))
				v := lp.sym
				if isBoolType(p.Type()) {
					v = BoolTerm(v)
				} else if st, ok := p.Type().Underlying().(*types.Struct); ok {
					_ = st
					v = ev.wrap(lp.sym, p.Type())
				}
				ev.set(fr, p, v)
			default:
				lp.off = mk("phi", name+"o", []*T{L.mark}, IntNum)
				lp.ln = mk("phi", name+"l", []*T{L.mark}, IntNum)
				lp.sym = mk("phi", name+"s", []*T{L.mark}, NotNum)
				if lp.mode == 1 {
					lp.base = Op("base", "", NotNum, lp.init)
					ev.set(fr, p, mkSlice([]*T{lp.base, lp.off, lp.ln}))
				} else {
					lp.base = mk("new", fmt.Sprintf("%s/%s#phi%d", fr.site, sl.header.String()+sl.header.Parent().Name(), k), ev.ts(outer), NotNum)
					elem := p.Type().Underlying().(*types.Slice).Elem()
					pre = ev.copySeq(pre, lp.base, Zero, Op("len", "", IntNum, lp.init), lp.init, elem)
					ev.set(fr, p, mkSlice([]*T{lp.base, Zero, lp.ln}))
				}
			}
			L.phis = append(L.phis, lp)
		}
		body := &Mem{loop: L, m: map[string]*Map{}}
		for k, c := range cells {
			lp := &loopPhi{cell: c, init: ev.sel(pre.get(c.r), c.r, c.key), mode: 2}
			name := fmt.Sprintf("c%d", k)
			lp.off = mk("phi", name+"o", []*T{L.mark}, IntNum)
			lp.ln = mk("phi", name+"l", []*T{L.mark}, IntNum)
			lp.sym = mk("phi", name+"s", []*T{L.mark}, NotNum)
			lp.base = mk("new", fmt.Sprintf("%s/%s#cell%d", fr.site, sl.header.String()+sl.header.Parent().Name(), k), ev.ts(outer), NotNum)
			pre = ev.copySeq(pre, lp.base, Zero, Op("len", "", IntNum, lp.init), lp.init, c.elem)
			body = body.store(c.r, c.key, mkSlice([]*T{lp.base, Zero, lp.ln}))
			L.phis = append(L.phis, lp)
		}
		L.pre = pre
		latch, exits := ev.region(fr, sl.header, sl, body)
		touched := map[string]bool{}
		changed := false
		if len(latch) == 0 {
			// the body never repeats
			L.latchG = False
			L.latch = body
		} else {
			L.latchG, L.latch = mergeEdges(latch)
		}
		for _, lp := range L.phis {
			var next *T
			if lp.cell != nil {
				cur := mkSlice([]*T{lp.base, Zero, lp.ln})
				next = Constrain(ev.sel(L.latch.get(lp.cell.r), lp.cell.r, lp.cell.key), L.latchG)
				lp.nextO = Zero
				lp.nextL = Op("len", "", IntNum, next)
				if next != cur {
					L.latch = ev.copySeq(L.latch, lp.base, Zero, lp.nextL, next, lp.cell.elem)
				}
				continue
			}
			if len(latch) == 0 {
				next = fr.env[lp.phi]
			} else {
				next = Constrain(ev.mergePhi(fr, sl.header, lp.phi, latch), L.latchG)
			}
			switch lp.mode {
			case 0:
				lp.next = next
			case 1:
				ok := true
				for _, l := range Leaves(next) {
					if l.Op != "slice" || l.Args[0] != lp.base {
						ok = false
					}
				}
				if !ok {
					modes[lp.phi] = 2
					changed = true
				}
				lp.nextO = sliceOff(next)
				lp.nextL = Op("len", "", IntNum, next)
			case 2:
				lp.nextO = Zero
				lp.nextL = Op("len", "", IntNum, next)
				elem := lp.phi.Type().Underlying().(*types.Slice).Elem()
				cur := fr.env[lp.phi]
				if next != cur {
					L.latch = ev.copySeq(L.latch, lp.base, Zero, lp.nextL, next, elem)
				}
			}
		}
		for r := range L.latch.m {
			touched[r] = true
		}
		for _, lp := range L.phis {
			if lp.cell != nil {
				touched[lp.cell.r] = true
				for _, r := range ev.elemRegions(lp.cell.elem) {
					touched[r] = true
				}
			} else if lp.mode == 2 {
				for _, r := range ev.elemRegions(lp.phi.Type().Underlying().(*types.Slice).Elem()) {
					touched[r] = true
				}
			}
		}
		for _, e := range exits {
			for r := range e.mem.m {
				touched[r] = true
			}
		}
		if assume == nil {
			assume = touched
			changed = true
		} else {
			for r := range touched {
				if !assume[r] {
					assume[r] = true
					changed = true
				}
			}
		}
		for _, c := range L.grownCells(touched) {
			known := false
			for _, o := range cells {
				known = known || o.r == c.r && o.key == c.key
			}
			if !known {
				cells = append(cells, c)
				changed = true
			}
		}
		if changed {
			fr.cur = outer
			continue
		}
		now := map[string]bool{}
		for r := range touched {
			seen := map[*Map]bool{}
			ok := L.freshOnly(L.latch.get(r), r, seen)
			for _, e := range exits {
				ok = ok && L.freshOnly(e.mem.get(r), r, seen)
			}
			if ok {
				now[r] = true
			}
		}
		nowV := map[string]bool{}
		for r := range touched {
			if !isSliceType(ev.regType[r]) {
				continue
			}
			seen := map[*Map]bool{}
			ok := L.freshVals(L.latch.get(r), r, seen) && L.freshVals(pre.get(r), r, seen)
			for _, e := range exits {
				ok = ok && L.freshVals(e.mem.get(r), r, seen)
			}
			if ok && (freshV == nil || freshV[r]) {
				nowV[r] = true
			}
		}
		again := fresh == nil && len(now) > 0 || len(nowV) != len(freshV)
		for r := range fresh {
			if !now[r] {
				again = true
			}
		}
		if again {
			if fresh != nil {
				for r := range now {
					if !fresh[r] {
						delete(now, r)
					}
				}
			}
			fresh = now
			freshV = nowV
			fr.cur = outer
			continue
		}
		for _, e := range exits {
			if o := sameExit(L.exits, e); o != nil {
				o.guard = Or(o.guard, e.guard)
				continue
			}
			L.exits = append(L.exits, &exitEdge{from: e.from, to: e.to, guard: e.guard, mem: e.mem})
		}
		L.finish()
		fr.cur = outer
		var res []*edge
		for _, e := range L.exits {
			m := pre
			for r := range touched {
				m = m.set(r, &Map{kind: mExit, loop: L, prev: e.mem.get(r)})
			}
			res = append(res, &edge{from: e.from, to: e.to, guard: And(entryG, e.fguard), mem: m})
		}
		return res
	}
}

// sameExit finds an exit edge that nothing distinguishes from e: it leads to
// the same block with the same memory, and the block has no phis
func sameExit(l []*exitEdge, e *edge) *exitEdge {
	if len(e.to.Instrs) > 0 {
		if _, ok := e.to.Instrs[0].(*ssa.Phi); ok {
			return nil
		}
	}
	for _, o := range l {
		if o.to != e.to || len(o.mem.m) != len(e.mem.m) {
			continue
		}
		same := true
		for r, m := range o.mem.m {
			same = same && e.mem.m[r] == m
		}
		if same {
			return o
		}
	}
	return nil
}

func sliceOff(s *T) *T {
	return MapLeaves(s, func(l *T) *T {
		if l.Op == "slice" {
			return l.Args[1]
		}
		return Zero
	})
}

func (ev *Eval) block(fr *frame, b *ssa.BasicBlock, g *T, mem *Mem, addEdge func(*edge)) {
	st := &state{g: g, mem: mem}
	for _, in := range b.Instrs {
		ev.steps++
		switch x := in.(type) {
		case *ssa.Phi:
		case *ssa.If:
			c := Constrain(BoolTerm(ev.val(fr, x.Cond)), st.g)
			gt, gf := And(st.g, c), And(st.g, Not(c))
			addEdge(&edge{b, b.Succs[0], gt, st.mem})
			addEdge(&edge{b, b.Succs[1], gf, st.mem})
		case *ssa.Jump:
			addEdge(&edge{b, b.Succs[0], st.g, st.mem})
		case *ssa.Return:
			var vs []*T
			for _, r := range x.Results {
				vs = append(vs, ev.val(fr, r))
			}
			fr.rets = append(fr.rets, retEdge{st.g, vs, st.mem})
		case *ssa.Panic:
			ev.event(fr, "panic", st.g, st.mem, x.Pos())
		default:
			ev.exec(fr, in, st)
		}
	}
}

type state struct {
	g   *T
	mem *Mem
}

// ---------------------------------------------------------------- addresses

func typeName(t types.Type) string {
	if b, ok := t.(*types.Basic); ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int32) {
		return types.Typ[b.Kind()].Name() // not byte, rune
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func structOf(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s := t.Underlying().(*types.Struct)
	n := typeName(t)
	if _, ok := t.(*types.Named); !ok {
		n = "struct"
	}
	return n + "." + s.Field(i).Name()
}

// isModelStruct tells if a struct is handled field by field
func (ev *Eval) isModelStruct(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	n, ok := t.(*types.Named)
	if !ok {
		return true
	}
	if n.Obj().Pkg() == nil {
		return s.NumFields() == 0
	}
	p := n.Obj().Pkg().Path()
	return strings.HasPrefix(p, ev.Module) || (n.Obj().Name() == "Transpose") || strings.HasSuffix(p, "plotter") && n.Obj().Name() == "XY"
}

func (ev *Eval) regOf(addr *T, t types.Type) (string, *T) {
	switch addr.Op {
	case "fld":
		r := "F:" + addr.Aux
		ev.setReg(r, t)
		return r, addr.Args[0]
	case "idx":
		switch addr.Args[0].Op {
		case "matrow":
			ev.setReg("mat", types.Typ[types.Float64])
			return "mat", mij(addr.Args[0].Args[0], addr.Args[0].Args[1], addr.Args[1])
		case "vecdata":
			ev.setReg("mat", types.Typ[types.Float64])
			return "mat", mij(addr.Args[0].Args[0], addr.Args[1], Zero)
		}
		r := "E:" + typeName(t)
		ev.setReg(r, t)
		return r, addr
	}
	r := "C:" + typeName(t)
	ev.setReg(r, t)
	return r, addr
}

func (ev *Eval) setReg(r string, t types.Type) {
	if ev.regType[r] == nil {
		ev.regType[r] = t
	}
}

func mij(o, i, j *T) *T { return Op("mij", "", NotNum, o, i, j) }

// load reads a value of type t at an address
func (ev *Eval) load(mem *Mem, addr *T, t types.Type) *T {
	if addr.Op == "ite" {
		return liftN([]*T{addr}, func(a []*T) *T { return ev.load(mem, a[0], t) })
	}
	if s, ok := t.Underlying().(*types.Struct); ok && ev.isModelStruct(t) {
		args := make([]*T, s.NumFields())
		for i := range args {
			args[i] = ev.load(mem, ev.fieldAddr(addr, t, i), s.Field(i).Type())
		}
		return mk("struct", typeName(t), args, NotNum)
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return mk("arrval", typeName(a.Elem()), []*T{addr}, NotNum)
	}
	r, key := ev.regOf(addr, t)
	if key == Nil {
		return mk("undef", "nil dereference", nil, numOf(t))
	}
	if r == "F:list.Element.Value" {
		if v := listValue(key); v != nil {
			return v
		}
	}
	v := ev.sel(mem.get(r), r, key)
	if isBoolType(t) {
		v = BoolTerm(v)
	}
	return v
}

func (ev *Eval) fieldAddr(p *T, t types.Type, i int) *T {
	return Op("fld", fieldName(t, i), NotNum, p)
}

// store writes a value of type t
func (ev *Eval) store(mem *Mem, addr, v *T, t types.Type) *Mem {
	if addr.Op == "ite" {
		g := atomT(addr.Args[0])
		return mergeMem(g, ev.store(mem, addr.Args[1], restrict(v, addr.Args[0], true), t), ev.store(mem, addr.Args[2], restrict(v, addr.Args[0], false), t))
	}
	if s, ok := t.Underlying().(*types.Struct); ok && ev.isModelStruct(t) {
		for i := 0; i < s.NumFields(); i++ {
			mem = ev.store(mem, ev.fieldAddr(addr, t, i), ev.fieldOf(v, t, i), s.Field(i).Type())
		}
		return mem
	}
	if addr == Nil {
		return mem
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		if v.Op == "arrval" {
			src := mkSlice([]*T{mk("arr", "", []*T{v.Args[0]}, NotNum), Zero, Int(a.Len())})
			return ev.copySeq(mem, mk("arr", "", []*T{addr}, NotNum), Zero, Int(a.Len()), src, a.Elem())
		}
		return mem
	}
	r, key := ev.regOf(addr, t)
	return mem.store(r, key, v)
}

// fieldOf reads a field of a struct value
func (ev *Eval) fieldOf(v *T, t types.Type, i int) *T {
	s := t.Underlying().(*types.Struct)
	ft := s.Field(i).Type()
	return liftN([]*T{v}, func(a []*T) *T {
		v := a[0]
		if v.Op == "struct" && i < len(v.Args) {
			return v.Args[i]
		}
		if v.Op == "zero" {
			return ev.zero(ft)
		}
		return ev.wrap(mk("field", s.Field(i).Name(), []*T{v}, numOf(ft)), ft)
	})
}

// elemRegions lists the regions that hold elements of a type
func (ev *Eval) elemRegions(t types.Type) []string {
	if s, ok := t.Underlying().(*types.Struct); ok && ev.isModelStruct(t) {
		var r []string
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if _, ok := ft.Underlying().(*types.Struct); ok && ev.isModelStruct(ft) {
				r = append(r, ev.elemRegions(ft)...)
				continue
			}
			n := "F:" + fieldName(t, i)
			ev.setReg(n, ft)
			r = append(r, n)
		}
		return r
	}
	n := "E:" + typeName(t)
	ev.setReg(n, t)
	return []string{n}
}

// copySeq writes n elements of the slice src to dst[off:]
func (ev *Eval) copySeq(mem *Mem, dst, off, n, src *T, elem types.Type) *Mem {
	return ev.copySeqFrom(mem, nil, dst, off, n, src, elem)
}

// copySeqFrom copies from another memory than the one written, if from is given
func (ev *Eval) copySeqFrom(mem, from *Mem, dst, off, n, src *T, elem types.Type) *Mem {
	if dst.Op == "ite" {
		g := atomT(dst.Args[0])
		return mergeMem(g, ev.copySeqFrom(mem, from, dst.Args[1], off, n, src, elem), ev.copySeqFrom(mem, from, dst.Args[2], off, n, src, elem))
	}
	if dst == Nil {
		return mem
	}
	given := from
	if dst.Op == "matrow" || dst.Op == "vecdata" {
		old := mem
		if given != nil {
			old = given
		}
		ev.setReg("mat", types.Typ[types.Float64])
		m := &Map{kind: mCopy, prev: mem.get("mat"), dst: dst, dOff: off, n: n, sOff: Zero}
		m.srcMap = func(key, i *T) *T {
			return ev.elemAt(old, src, i, elem)
		}
		return mem.set("mat", m)
	}
	for _, r := range ev.elemRegions(elem) {
		r := r
		old := mem
		if given != nil {
			old = given
		}
		m := &Map{kind: mCopy, prev: mem.get(r), dst: dst, dOff: off, n: n, sOff: Zero}
		m.srcMap = func(key, i *T) *T {
			return liftN([]*T{src}, func(a []*T) *T {
				s := a[0]
				if s.Op != "slice" || s.Args[0] == Nil {
					return ev.zero(ev.regType[r])
				}
				if b := s.Args[0]; b.Op == "matrow" || b.Op == "vecdata" {
					return ev.elemAt(old, s, i, elem)
				}
				return ev.sel(old.get(r), r, setIdx(key, s.Args[0], Add(s.Args[1], i)))
			})
		}
		mem = mem.set(r, m)
	}
	return mem
}

// elemAddr is the address of element i of a slice
func (ev *Eval) elemAddr(s, i *T) *T {
	return liftN([]*T{s}, func(a []*T) *T {
		s := a[0]
		if s.Op == "slice" {
			return Op("idx", "", NotNum, s.Args[0], Add(s.Args[1], i))
		}
		return Op("idx", "", NotNum, mk("base", "", []*T{s}, NotNum), i)
	})
}

func (ev *Eval) elemAt(mem *Mem, s, i *T, elem types.Type) *T {
	return ev.load(mem, ev.elemAddr(s, i), elem)
}

// ---------------------------------------------------------------- instructions

func (ev *Eval) exec(fr *frame, in ssa.Instruction, st *state) {
	switch x := in.(type) {
	case *ssa.Alloc:
		o := ev.newObj(fr, instrID(x), fr.cur)
		ev.set(fr, x, o)
	case *ssa.UnOp:
		ev.set(fr, x, ev.unop(fr, x, st))
	case *ssa.BinOp:
		if ev.Divisors && x.Op == token.QUO && isFloat(x.Type()) {
			d := ev.val(fr, x.Y)
			ev.record(fr, x, st, "divisor", nonZero(d))
		}
		ev.set(fr, x, ev.binop(x, ev.val(fr, x.X), ev.val(fr, x.Y)))
	case *ssa.Store:
		t := x.Val.Type()
		st.mem = ev.store(st.mem, Constrain(ev.val(fr, x.Addr), st.g), Constrain(ev.val(fr, x.Val), st.g), t)
		if a := ev.val(fr, x.Addr); a.Op == "glob" {
			ev.event(fr, "setglobal", st.g, st.mem, x.Pos(), a, ev.val(fr, x.Val))
		}
	case *ssa.FieldAddr:
		ev.set(fr, x, ev.fieldAddr(ev.val(fr, x.X), x.X.Type(), x.Field))
	case *ssa.Field:
		ev.set(fr, x, ev.fieldOf(ev.val(fr, x.X), x.X.Type(), x.Field))
	case *ssa.IndexAddr:
		v := ev.val(fr, x.X)
		i := ev.val(fr, x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			ev.set(fr, x, Op("idx", "", NotNum, Op("arr", "", NotNum, v), i))
		} else {
			ev.bound(fr, x, st, "index", inRange(i, Op("len", "", IntNum, v)))
			ev.set(fr, x, ev.elemAddr(v, i))
		}
	case *ssa.Index:
		v := ev.val(fr, x.X)
		i := ev.val(fr, x.Index)
		if v.Op == "arrval" {
			ev.set(fr, x, ev.load(st.mem, Op("idx", "", NotNum, Op("arr", "", NotNum, v.Args[0]), i), x.Type()))
			break
		}
		ev.set(fr, x, Op("strat", "", IntNum, v, i))
	case *ssa.Slice:
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok && ev.Bounds {
			n := Op("len", "", IntNum, ev.val(fr, x.X))
			lo, hi := Zero, n
			if x.Low != nil {
				lo = ev.val(fr, x.Low)
			}
			if x.High != nil {
				hi = ev.val(fr, x.High)
			}
			ev.bound(fr, x, st, "slice", And(Ge(lo, Zero), And(Le(lo, hi), Le(hi, n))))
		}
		ev.set(fr, x, ev.slice(fr, x))
	case *ssa.MakeSlice:
		n := ev.val(fr, x.Len)
		ev.bound(fr, x, st, "size", sizeOK(n))
		ev.set(fr, x, liftN([]*T{n}, func(a []*T) *T {
			return mkSlice([]*T{ev.newObj(fr, instrID(x), fr.cur), Zero, a[0]})
		}))
		ev.event(fr, "makeslice", st.g, st.mem, x.Pos(), n)
	case *ssa.MakeMap:
		ev.set(fr, x, ev.newObj(fr, instrID(x), fr.cur))
	case *ssa.MakeChan:
		ev.set(fr, x, ev.newObj(fr, instrID(x), fr.cur))
	case *ssa.MapUpdate:
		m, k, v := ev.val(fr, x.Map), ev.val(fr, x.Key), ev.val(fr, x.Value)
		vt := x.Map.Type().Underlying().(*types.Map).Elem()
		r := "M:" + typeName(vt)
		ev.setReg(r, vt)
		key := Op("idx", "", NotNum, m, k)
		st.mem = st.mem.store(r, key, v)
		ev.setReg("MH", types.Typ[types.Bool])
		st.mem = st.mem.store("MH", key, True)
	case *ssa.Lookup:
		m, k := ev.val(fr, x.X), ev.val(fr, x.Index)
		mt, ok := x.X.Type().Underlying().(*types.Map)
		if !ok {
			ev.set(fr, x, Op("strat", "", IntNum, m, k))
			break
		}
		r := "M:" + typeName(mt.Elem())
		ev.setReg(r, mt.Elem())
		ev.setReg("MH", types.Typ[types.Bool])
		key := Op("idx", "", NotNum, m, k)
		v := ev.sel(st.mem.get(r), r, key)
		has := BoolTerm(ev.sel(st.mem.get("MH"), "MH", key))
		if x.CommaOk {
			ev.set(fr, x, mk("tuple", "", []*T{v, has}, NotNum))
		} else {
			ev.set(fr, x, v)
		}
	case *ssa.Convert:
		ev.set(fr, x, ev.convert(ev.val(fr, x.X), x.X.Type(), x.Type()))
	case *ssa.ChangeType:
		ev.set(fr, x, ev.val(fr, x.X))
	case *ssa.ChangeInterface:
		ev.set(fr, x, ev.val(fr, x.X))
	case *ssa.MakeInterface:
		ev.set(fr, x, ev.makeIface(ev.val(fr, x.X), x.X.Type()))
	case *ssa.TypeAssert:
		ev.set(fr, x, ev.typeAssert(ev.val(fr, x.X), x))
	case *ssa.Extract:
		i := x.Index
		t := ev.val(fr, x.Tuple)
		v := liftN([]*T{t}, func(a []*T) *T {
			if a[0].Op == "tuple" {
				return a[0].Args[i]
			}
			return ev.wrap(mk("ext", fmt.Sprint(i), []*T{a[0]}, numOf(x.Type())), x.Type())
		})
		ev.set(fr, x, v)
	case *ssa.MakeClosure:
		args := []*T{}
		for _, b := range x.Bindings {
			args = append(args, ev.val(fr, b))
		}
		ev.set(fr, x, mk("closure", x.Fn.String(), args, NotNum))
	case *ssa.Call:
		ev.set(fr, x, ev.call(fr, x, &x.Call, st))
	case *ssa.Go:
		var args []*T
		for _, a := range x.Call.Args {
			args = append(args, ev.val(fr, a))
		}
		f := "dynamic"
		if c := x.Call.StaticCallee(); c != nil {
			f = c.String()
		}
		ev.event(fr, "go", st.g, st.mem, x.Pos(), append([]*T{mk("fnval", f, nil, NotNum)}, args...)...)
	case *ssa.Defer:
		var args []*T
		for _, a := range x.Call.Args {
			args = append(args, ev.val(fr, a))
		}
		fr.defs = append(fr.defs, deferred{&x.Call, args, st.g})
	case *ssa.RunDefers:
		for k := len(fr.defs) - 1; k >= 0; k-- {
			d := fr.defs[k]
			g := And(d.guard, st.g)
			if g == False || fr.cur != fr.baseL {
				continue
			}
			s2 := &state{g: g, mem: st.mem}
			ev.callWith(fr, x, d.call, d.args, s2)
			st.mem = mergeMem(d.guard, s2.mem, st.mem)
		}
	case *ssa.Send:
		v := ev.val(fr, x.X)
		ev.event(fr, "send", st.g, st.mem, x.Pos(), ev.val(fr, x.Chan), ev.deep(st.mem, v, x.X.Type()))
	case *ssa.Select:
		args := []*T{}
		var idx *T
		for k := len(x.States) - 1; k >= 0; k-- {
			s := x.States[k]
			if idx == nil && x.Blocking {
				idx = Int(int64(k))
				continue
			}
			if idx == nil {
				idx = Int(-1)
			}
			sel := atomT(mk("selcase", fmt.Sprint(s.Dir), append([]*T{ev.val(fr, s.Chan)}, ev.ts(fr.cur)...), NotNum))
			idx = Ite(sel, Int(int64(k)), idx)
		}
		if idx == nil {
			idx = Int(-1)
		}
		args = append(args, idx, atomT(mk("selok", instrID(x), ev.ts(fr.cur), NotNum)))
		for k, s := range x.States {
			if s.Dir == types.RecvOnly {
				et := s.Chan.Type().Underlying().(*types.Chan).Elem()
				args = append(args, ev.wrap(mk("recv", "", append([]*T{ev.val(fr, s.Chan)}, ev.ts(fr.cur)...), numOf(et)), et))
			} else {
				ev.event(fr, "send", And(st.g, Eq(idx, Int(int64(k)))), st.mem, s.Pos, ev.val(fr, s.Chan), ev.deep(st.mem, ev.val(fr, s.Send), s.Send.Type()))
			}
		}
		ev.set(fr, x, mk("tuple", "", args, NotNum))
	case *ssa.Range:
		id := instrID(x)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			id = "" // the order of a map is unspecified: every walk is the same to us
		}
		ev.set(fr, x, mk("range", id, []*T{ev.val(fr, x.X)}, NotNum))
	case *ssa.Next:
		ts := append([]*T{ev.val(fr, x.Iter)}, ev.ts(fr.cur)...)
		tt := x.Type().(*types.Tuple)
		args := []*T{}
		for i := 0; i < tt.Len(); i++ {
			et := tt.At(i).Type()
			if b, ok := et.(*types.Basic); ok && b.Kind() == types.Invalid {
				args = append(args, Nil)
				continue
			}
			args = append(args, ev.wrap(mk("next", fmt.Sprint(i), ts, numOf(et)), et))
		}
		ev.set(fr, x, mk("tuple", "", args, NotNum))
	case *ssa.DebugRef:
	case *ssa.SliceToArrayPointer:
		ev.note(x.Pos(), "unsupported %T", x)
		ev.set(fr, x, mk("undef", instrID(x), nil, NotNum))
	default:
		ev.note(in.Pos(), "unsupported %T", in)
		if v, ok := in.(ssa.Value); ok {
			ev.set(fr, v, mk("undef", instrID(in), nil, numOf(v.Type())))
		}
	}
}

func isMatType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return strings.HasSuffix(n.Obj().Pkg().Path(), "gonum/mat")
}

func (ev *Eval) makeIface(v *T, t types.Type) *T {
	if isMatType(t) {
		return v
	}
	if v.Op == "err" {
		return v
	}
	n := typeName(t)
	ev.typs[n] = t
	return Op("iface", n, NotNum, v)
}

func (ev *Eval) typeAssert(v *T, x *ssa.TypeAssert) *T {
	n := typeName(x.AssertedType)
	ev.typs[n] = x.AssertedType
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	get := func(v *T) *T {
		if toIface || isMatType(x.AssertedType) {
			return v
		}
		if v.Op == "iface" {
			if v.Aux == n {
				return v.Args[0]
			}
			return ev.zero(x.AssertedType)
		}
		return ev.wrap(mk("unbox", n, []*T{v}, numOf(x.AssertedType)), x.AssertedType)
	}
	ok := func(v *T) *T {
		if v.Op == "iface" && !toIface {
			if v.Aux == n {
				return True
			}
			return False
		}
		if v == Nil {
			return False
		}
		return atomT(mk("typeis", n, []*T{v}, NotNum))
	}
	r := liftN([]*T{v}, func(a []*T) *T { return get(a[0]) })
	if x.CommaOk {
		return mk("tuple", "", []*T{r, liftN([]*T{v}, func(a []*T) *T { return ok(a[0]) })}, NotNum)
	}
	return r
}

func (ev *Eval) unop(fr *frame, x *ssa.UnOp, st *state) *T {
	v := ev.val(fr, x.X)
	switch x.Op {
	case token.MUL:
		return Constrain(ev.load(st.mem, Constrain(v, st.g), x.Type()), st.g)
	case token.NOT:
		return Not(BoolTerm(v))
	case token.SUB:
		return Neg(v)
	case token.ARROW:
		et := x.X.Type().Underlying().(*types.Chan).Elem()
		ts := append([]*T{v}, ev.ts(fr.cur)...)
		ev.event(fr, "recv", st.g, st.mem, x.Pos(), v)
		r := ev.wrap(mk("recv", "", ts, numOf(et)), et)
		if x.CommaOk {
			return mk("tuple", "", []*T{r, atomT(mk("recvok", "", ts, NotNum))}, NotNum)
		}
		return r
	case token.XOR:
		return Sub(Neg(v), One)
	}
	ev.note(x.Pos(), "unsupported operator %s", x.Op)
	return mk("undef", instrID(x), nil, numOf(x.Type()))
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (ev *Eval) binop(x *ssa.BinOp, a, b *T) *T {
	t := x.X.Type()
	switch x.Op {
	case token.EQL, token.NEQ:
		var r *T
		if isBoolType(t) {
			a, b = BoolTerm(a), BoolTerm(b)
			r = Ite(a, b, Not(b))
		} else if _, ok := t.Underlying().(*types.Slice); ok {
			r = lift2('n', a, b, ev.sliceNil)
		} else if _, ok := t.Underlying().(*types.Struct); ok {
			r = structEq(a, b)
		} else {
			r = Eq2(a, b)
		}
		if x.Op == token.NEQ {
			return Not(r)
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isString(t) {
			r := func(p, q *T) *T { return Op("strless", "", NotNum, p, q) }
			switch x.Op {
			case token.LSS:
				return BoolTerm(r(a, b))
			case token.GTR:
				return BoolTerm(r(b, a))
			case token.GEQ:
				return Not(BoolTerm(r(a, b)))
			}
			return Not(BoolTerm(r(b, a)))
		}
		switch x.Op {
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Gt(a, b)
		}
		return Ge(a, b)
	case token.ADD:
		if isString(t) {
			return Op("concat", "", NotNum, a, b)
		}
		return Add(a, b)
	case token.SUB:
		return Sub(a, b)
	case token.MUL:
		return Mul(a, b)
	case token.QUO:
		if isFloat(t) {
			return Div(a, b)
		}
		return IDiv(a, b)
	case token.REM:
		return Mod(a, b)
	case token.AND, token.OR, token.XOR, token.AND_NOT, token.SHL, token.SHR:
		return bitop(x.Op, a, b)
	}
	ev.note(x.Pos(), "unsupported operator %s", x.Op)
	return mk("undef", instrID(x), nil, numOf(x.Type()))
}

func structEq(a, b *T) *T {
	if a.Op == "struct" && b.Op == "struct" {
		r := True
		for i := range a.Args {
			r = And(r, Eq2(a.Args[i], b.Args[i]))
		}
		return r
	}
	return eqRef(a, b)
}

// sliceNil compares a slice with nil
func (ev *Eval) sliceNil(a, b *T) *T {
	if b.Op == "slice" && b.Args[0] == Nil {
		a, b = b, a
	}
	if b.Op == "slice" && b.Args[0] != Nil {
		base := b.Args[0]
		if base.Op == "base" {
			return eqRef(base.Args[0], Nil)
		}
		return eqRef(base, Nil)
	}
	return eqRef(a, b)
}

func pow2(k *T) *T {
	return liftN([]*T{k}, func(a []*T) *T {
		if c, ok := a[0].ConstVal(); ok && c.IsInt() && c.Sign() >= 0 && c.Num().Int64() < 64 {
			return Const(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(c.Num().Int64()))))
		}
		return mk("pow2", "", []*T{a[0]}, IntNum)
	})
}

// log2T recognises powers of two
func log2T(a *T) *T {
	if a.Op == "pow2" {
		return a.Args[0]
	}
	if c, ok := a.ConstVal(); ok && c.IsInt() && c.Sign() > 0 {
		n := c.Num()
		k := n.BitLen() - 1
		if new(big.Int).Lsh(big.NewInt(1), uint(k)).Cmp(n) == 0 {
			return Int(int64(k))
		}
	}
	return nil
}

func bitT(x, k *T) *T {
	// bit k of x>>s is bit k+s of x
	if x.Op == "shr" {
		return bitT(x.Args[0], Add(k, x.Args[1]))
	}
	if x.Op == "ite" || k.Op == "ite" {
		return liftN([]*T{x, k}, func(a []*T) *T { return bitT(a[0], a[1]) })
	}
	switch x.Op {
	case "setbit":
		return Ite(Eq(x.Args[1], k), True, bitT(x.Args[0], k))
	case "clrbit":
		return Ite(Eq(x.Args[1], k), False, bitT(x.Args[0], k))
	case "flipbit":
		b := bitT(x.Args[0], k)
		return Ite(Eq(x.Args[1], k), Not(b), b)
	case "pow2":
		return Eq(x.Args[0], k)
	}
	if x == Zero {
		return False
	}
	if c, ok := x.ConstVal(); ok && c.IsInt() && c.Sign() > 0 {
		if j, ok := k.ConstVal(); ok && j.IsInt() && j.Num().IsInt64() {
			if c.Num().Bit(int(j.Num().Int64())) == 1 {
				return True
			}
			return False
		}
		if j := log2T(x); j != nil {
			return Eq(j, k)
		}
	}
	return atomT(mk("bit", "", []*T{x, k}, NotNum))
}

// setBit is x with bit k set, cleared or changed
func setBit(op string, x, k *T) *T {
	return liftN([]*T{x, k}, func(a []*T) *T {
		if a[0] == Zero && op != "clrbit" {
			return pow2(a[1])
		}
		return mk(op, "", []*T{a[0], a[1]}, IntNum)
	})
}

func bitop(op token.Token, a, b *T) *T {
	return lift2(byte(op), a, b, func(a, b *T) *T {
		switch op {
		case token.SHL:
			return Mul(a, pow2(b))
		case token.SHR:
			if c, ok := b.ConstVal(); ok && c.IsInt() {
				if lo := lowerBound(a); lo != nil && lo.Sign() >= 0 || a.num == IntNum {
					return IDiv(a, pow2(b))
				}
			}
			return mk("shr", "", []*T{a, b}, IntNum)
		}
		if k := log2T(a); k != nil && log2T(b) == nil {
			a, b = b, a
		}
		k := log2T(b)
		if k != nil {
			bt := bitT(a, k)
			switch op {
			case token.AND:
				return Ite(bt, b, Zero)
			case token.OR:
				return setBit("setbit", a, k)
			case token.XOR:
				return setBit("flipbit", a, k)
			case token.AND_NOT:
				return setBit("clrbit", a, k)
			}
		}
		if c, ok := b.ConstVal(); ok && op == token.AND && c.IsInt() {
			// low bits
			if m := log2T(Const(new(big.Rat).Add(c, ratOne))); m != nil {
				return Mod(a, Const(new(big.Rat).Add(c, ratOne)))
			}
		}
		return mk("bitop", op.String(), []*T{a, b}, IntNum)
	})
}

func (ev *Eval) convert(v *T, from, to types.Type) *T {
	nf, nt := numOf(from), numOf(to)
	if nf != NotNum && nt != NotNum {
		if nf == RealNum && nt == IntNum {
			return MapLeaves(v, func(l *T) *T {
				if l.num == IntNum {
					return l
				}
				if c, ok := l.ConstVal(); ok {
					q := new(big.Int).Quo(c.Num(), c.Denom())
					return Const(new(big.Rat).SetInt(q))
				}
				return mk("fn", "trunc", []*T{l}, IntNum)
			})
		}
		return v
	}
	return ev.wrap(Op("conv", typeName(to), nt, v), to)
}

func (ev *Eval) slice(fr *frame, x *ssa.Slice) *T {
	v := ev.val(fr, x.X)
	var lo, hi *T = Zero, nil
	if x.Low != nil {
		lo = ev.val(fr, x.Low)
	}
	if x.High != nil {
		hi = ev.val(fr, x.High)
	}
	if isString(x.X.Type()) {
		if hi == nil {
			hi = Op("len", "", IntNum, v)
		}
		return Op("substr", "", NotNum, v, lo, hi)
	}
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		n := p.Elem().Underlying().(*types.Array).Len()
		if hi == nil {
			hi = Int(n)
		}
		args := []*T{Op("arr", "", NotNum, v), lo, Sub(hi, lo)}
		return liftN(args, func(a []*T) *T { return mkSlice(append([]*T{}, a...)) })
	}
	args := []*T{v, lo}
	if hi != nil {
		args = append(args, hi)
	}
	return liftN(args, func(a []*T) *T {
		s := a[0]
		if s.Op != "slice" {
			s = mkSlice([]*T{mk("base", "", []*T{s}, NotNum), Zero, mk("len", "", []*T{s}, IntNum)})
		}
		h := s.Args[2]
		if len(a) > 2 {
			h = a[2]
		}
		return mkSlice([]*T{s.Args[0], Add(s.Args[1], a[1]), Sub(h, a[1])})
	})
}

func allFuncs(p *ssa.Program) map[*ssa.Function]bool { return ssautil.AllFunctions(p) }
