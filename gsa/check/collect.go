package check

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"gsa/psim"
	"gsa/pta"

	"golang.org/x/tools/go/ssa"
)

type countedRes struct {
	counted bool
	why     string
}

// loop of a function
type ssaLoop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

// loopsOf lists the natural loops of a function, innermost first
func loopsOf(f *ssa.Function) []*ssaLoop {
	var ls []*ssaLoop
	byHead := map[*ssa.BasicBlock]*ssaLoop{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := byHead[s]
				if l == nil {
					l = &ssaLoop{s, map[*ssa.BasicBlock]bool{s: true}}
					byHead[s] = l
					ls = append(ls, l)
				}
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					st = append(st, x.Preds...)
				}
			}
		}
	}
	sort.Slice(ls, func(i, j int) bool { return len(ls[i].body) < len(ls[j].body) })
	return ls
}

// liftTo gives the instruction of frame f that contains a point
func liftTo(p pta.Point, f *pta.Ctx) ssa.Instruction {
	if p.Ctx == f {
		return p.Instr
	}
	for x := p.Ctx; x != nil; x = x.Parent {
		if x.Parent == f {
			return x.Call
		}
	}
	return nil
}

// iterPath is one way through one round of a loop
type iterPath struct {
	events []iterEvent
	delta  map[string]int64 // change of each integer that the loop carries
	reset  map[string]bool  // changed in another way
	exit   bool             // leaves the loop
	state  *psim.State
	where  token.Pos
	vals   map[string]psim.Val // what the loop's integers are at the end
	facts  []psim.Val          // comparisons that hold on the way
}

type iterEvent struct {
	kind string
	ch   *pta.Obj
	val  psim.Val
	pos  token.Pos
	op   chanOp
}

// round enumerates the ways through one round of the loop of the owner that
// contains the given channel operations
type round struct {
	p      *pools
	owner  *pta.Ctx
	frame  *pta.Ctx
	loop   *ssaLoop
	paths  []iterPath
	m      *psim.Sim
	ints   map[string]ssa.Value
	over   bool
	flag   *flagVar // what the loop goes round on, if it is a variable
	hook   func(m *psim.Sim)
	events func(s *psim.State, cx *pta.Ctx, in ssa.Instruction, sel int)
	init   map[string][]psim.Val // what the loop's integers are when it starts
	enter  func(s *psim.State)   // called for every state that reaches the loop
}

// flagVar is a boolean variable that ends a loop at its head
type flagVar struct {
	phi  *ssa.Phi
	cell string
	end  bool // the value that ends the loop
}

func (r *round) findFlag() *flagVar {
	h := r.loop.head
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	end := true
	switch {
	case !r.loop.body[h.Succs[0]]:
	case !r.loop.body[h.Succs[1]]:
		end = false
	default:
		return nil
	}
	v := br.Cond
	for {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		v, end = u.X, !end
	}
	if ph, ok := v.(*ssa.Phi); ok && ph.Block() == h {
		return &flagVar{phi: ph, end: end}
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && u.Block() == h {
		if al, ok := u.X.(*ssa.Alloc); ok && al.Parent() == r.frame.Fn {
			return &flagVar{cell: psim.SymOf(r.frame, al) + "|", end: end}
		}
	}
	return nil
}

// set gives the flag a value; at reads it
func (f *flagVar) set(m *psim.Sim, st *psim.State, c *pta.Ctx, v bool) {
	if f.phi != nil {
		m.Set(st, c, f.phi, psim.BoolV(v))
	} else {
		st.Cell[f.cell] = psim.BoolV(v)
	}
}

func (f *flagVar) at(m *psim.Sim, st *psim.State, c *pta.Ctx) psim.Val {
	if f.phi != nil {
		return m.Eval(st, c, f.phi)
	}
	if v, ok := st.Cell[f.cell]; ok {
		return v
	}
	return psim.SymV("?")
}

// collectLoop finds the innermost loop of the owner around a receive
func (p *pools) collectLoop(owner *pta.Ctx, ops []chanOp) (*pta.Ctx, *ssaLoop) {
	for _, o := range ops {
		if o.p.Ctx.Thread() != owner.Thread() {
			continue
		}
		for x := o.p.Ctx; x != nil; x = x.Parent {
			in := liftTo(o.p, x)
			if in != nil {
				for _, l := range loopsOf(x.Fn) {
					if l.body[in.Block()] {
						return x, l
					}
				}
			}
			if x == owner {
				break
			}
		}
	}
	return nil, nil
}

// enterHelpers makes the run enter the small helpers that keep numbers for
// the routine
func (p *pools) enterHelpers(m *psim.Sim) {
	m.Opaque = func(x *pta.Ctx) bool {
		if p.rel[x] {
			return false
		}
		if x.Fn.Pkg == nil || !p.c.P.InModule(x.Fn.Pkg.Pkg.Path()) || len(x.Fn.Blocks) > 6 || !small(x.Fn) {
			return true
		}
		if rs := x.Fn.Signature.Results(); x.Fn.Parent() != nil && rs.Len() == 1 {
			if bt, ok := rs.At(0).Type().Underlying().(*types.Basic); ok && bt.Info()&(types.IsBoolean|types.IsInteger) != 0 {
				return false // a condition or number written as a closure
			}
		}
		for _, b := range x.Fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && isIntT(st.Val.Type()) {
					return false
				}
			}
		}
		return true
	}
}

func (r *round) run() {
	p := r.p
	m := p.sim()
	p.enterHelpers(m)
	if r.hook != nil {
		r.hook(m)
	}
	r.m = m
	r.ints = map[string]ssa.Value{}
	s := psim.NewState()
	for _, in := range r.loop.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if isIntT(ph.Type()) {
			r.ints[psim.SymOf(r.frame, ph)] = ph
		}
	}
	// integers kept in memory
	for x := r.frame; x != nil; x = x.Parent {
		for _, b := range x.Fn.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok {
					continue
				}
				n := psim.SymOf(x, al)
				et := al.Type().Underlying().(*types.Pointer).Elem()
				s.Cell[n+"|local"] = psim.BoolV(true)
				if isIntT(et) {
					s.Cell[n+"|"] = psim.SymV("cell:" + n)
					r.ints["cell:"+n] = al
				} else if v := onlyStore(al); v != nil && pointerish(et) {
					// a variable that is set once
					if _, isC := v.(*ssa.Const); !isC {
						k := psim.SymOf(x, v)
						m.Names[k] = psim.VK{C: x, V: v}
						s.Cell[n+"|"] = psim.SymV(k)
					}
				} else if st, ok := et.Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						if isIntT(st.Field(i).Type()) {
							k := fmt.Sprintf("%s|.%d", n, i)
							s.Cell[k] = psim.SymV("cell:" + k)
							r.ints["cell:"+k] = al
						}
					}
				}
			}
		}
		if x == r.owner {
			break
		}
	}
	if r.flag = r.findFlag(); r.flag != nil {
		r.flag.set(m, s, r.frame, !r.flag.end)
	}
	// events are kept in the state by number
	var evs []iterEvent
	evIdx := map[string]int{}
	record := func(st *psim.State, e iterEvent) {
		k := e.kind + fmt.Sprintf("%v", e.ch) + e.val.String() + fmt.Sprint(e.pos)
		i, ok := evIdx[k]
		if !ok {
			i = len(evs)
			evs = append(evs, e)
			evIdx[k] = i
		}
		st.U["n"]++
		st.U[fmt.Sprintf("e%02d", st.U["n"])] = i + 1
	}
	var facts []psim.Val
	factIdx := map[string]int{}
	m.Branch = func(st *psim.State, cx *pta.Ctx, in *ssa.If, taken bool) bool {
		v := m.Eval(st, cx, in.Cond)
		for v.K == psim.Not {
			v, taken = *v.A, !taken
		}
		if v.K != psim.Cmp {
			return true
		}
		if !taken {
			v.Op = negated(v.Op)
		}
		k := v.String()
		i, ok := factIdx[k]
		if !ok {
			i = len(facts)
			facts = append(facts, v)
			factIdx[k] = i
		}
		for j := 1; j <= st.U["nf"]; j++ {
			if st.U[fmt.Sprintf("f%02d", j)] == i+1 {
				return true
			}
		}
		st.U["nf"]++
		st.U[fmt.Sprintf("f%02d", st.U["nf"])] = i + 1
		return true
	}
	finish := func(st *psim.State, exit bool, pos token.Pos, fromB, toB *ssa.BasicBlock) {
		ip := iterPath{delta: map[string]int64{}, reset: map[string]bool{}, exit: exit, state: st, where: pos, vals: map[string]psim.Val{}}
		for i := 1; i <= st.U["nf"]; i++ {
			ip.facts = append(ip.facts, facts[st.U[fmt.Sprintf("f%02d", i)]-1])
		}
		for i := 1; i <= st.U["n"]; i++ {
			ip.events = append(ip.events, evs[st.U[fmt.Sprintf("e%02d", i)]-1])
		}
		for n, v := range r.ints {
			var x psim.Val
			if ph, ok := v.(*ssa.Phi); ok {
				x = m.Eval(st, r.frame, ph)
			} else {
				x = st.Cell[n[len("cell:"):]]
				if al, ok := v.(*ssa.Alloc); ok && isIntT(al.Type().Underlying().(*types.Pointer).Elem()) {
					x = st.Cell[n[len("cell:"):]+"|"]
				}
			}
			ip.vals[n] = x
			if x.K == psim.Sym && x.S == n {
				ip.delta[n] = x.N
			} else {
				ip.reset[n] = true
			}
		}
		r.paths = append(r.paths, ip)
	}
	started := false
	headIdx := 0
	for i, in := range r.loop.head.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			headIdx = i
			break
		}
	}
	headIn := r.loop.head.Instrs[headIdx]
	m.Stop = func(st *psim.State, cx *pta.Ctx, in ssa.Instruction) bool {
		if cx != r.frame {
			return false
		}
		if in == headIn {
			if !started {
				started = true
				return false
			}
			if r.flag == nil {
				finish(st, false, in.Pos(), nil, nil)
				return true
			}
			// the loop ends here if its flag says so
			v := r.flag.at(m, st, r.frame)
			for _, truth := range []bool{true, false} {
				if d, ok := m.Decide(st, v); ok && d != truth {
					continue
				}
				s2 := st.Clone()
				if m.Assume(s2, v, truth) {
					finish(s2, truth == r.flag.end, in.Pos(), nil, nil)
				}
			}
			return true
		}
		if !r.loop.body[in.Block()] {
			finish(st, true, in.Pos(), nil, nil)
			return true
		}
		return false
	}
	m.Event = func(st *psim.State, cx *pta.Ctx, in ssa.Instruction, sel int) bool {
		if st.U["n"] > 90 {
			r.over = true
			return false
		}
		for _, o := range p.atv(m, st, cx, in, sel) {
			if _, isDefer := in.(*ssa.Defer); isDefer && sel != -2 {
				continue
			}
			var v psim.Val
			if o.kind == "send" {
				v = m.Eval(st, cx, o.val)
				if v.K == psim.Sym {
					switch st.Con[v.S].NilK {
					case 1:
						v = psim.NilV
					case 2:
						v.P = "nonnil"
					}
				}
			}
			for _, ch := range o.chs {
				record(st, iterEvent{kind: o.kind, ch: ch, val: v, pos: in.Pos(), op: o})
			}
		}
		if _, ok := in.(*ssa.Return); ok && cx == r.frame {
			finish(st, true, in.Pos(), nil, nil)
			return false
		}
		if r.events != nil {
			r.events(st, cx, in, sel)
		}
		return true
	}
	keep := m.Keep
	m.Keep = func(n string) bool {
		_, ok := r.ints[n]
		return ok || keep != nil && keep(n)
	}
	m.Run(pta.Point{Ctx: r.frame, Instr: headIn}, s)
	if m.Over {
		r.over = true
	}
	p.c.Count("abstract states", m.Steps())
}

func negated(op token.Token) token.Token {
	switch op {
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	}
	return token.LSS
}

func swapped(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// start finds what the integers of the loop are when the owner reaches it
func (r *round) start() {
	r.init = map[string][]psim.Val{}
	p := r.p
	m := p.sim()
	m.MaxSt = 20000
	p.enterHelpers(m)
	if r.hook != nil {
		r.hook(m)
	}
	seen := map[string]bool{}
	m.Stop = func(st *psim.State, cx *pta.Ctx, in ssa.Instruction) bool {
		if cx != r.frame || in.Block() != r.loop.head || in != r.loop.head.Instrs[nphis(r.loop.head)] {
			return false
		}
		if r.enter != nil {
			r.enter(st)
		}
		if r.flag != nil {
			if d, ok := m.Decide(st, r.flag.at(m, st, r.frame)); !ok || d == r.flag.end {
				r.paths = append(r.paths, iterPath{delta: map[string]int64{}, reset: map[string]bool{}, exit: true, state: st, where: in.Pos(), vals: map[string]psim.Val{}})
			}
		}
		for n, v := range r.ints {
			var x psim.Val
			if ph, ok := v.(*ssa.Phi); ok {
				x = m.Eval(st, r.frame, ph)
			} else if al, ok := v.(*ssa.Alloc); ok {
				k := n[len("cell:"):]
				if isIntT(al.Type().Underlying().(*types.Pointer).Elem()) {
					k += "|"
				}
				x, ok = st.Cell[k]
				if !ok {
					if z, isZ := st.Cell[psim.SymOf(ctxOf(r.frame, al), al)+"|zero"]; isZ && z.K == psim.Bool {
						x = psim.IntV(0)
					} else {
						x = psim.SymV("?")
					}
				}
			}
			if !seen[n+"="+x.String()] {
				seen[n+"="+x.String()] = true
				r.init[n] = append(r.init[n], x)
			}
		}
		return true
	}
	m.Run(pta.Point{Ctx: r.owner}, psim.NewState())
	if m.Over {
		r.over = true
	}
	for n, k := range m.Names {
		if _, ok := r.m.Names[n]; !ok {
			r.m.Names[n] = k
		}
	}
	p.c.Count("abstract states", m.Steps())
}

func ctxOf(c *pta.Ctx, v ssa.Value) *pta.Ctx {
	for x := c; x != nil; x = x.Parent {
		if x.Fn == v.Parent() {
			return x
		}
	}
	return c
}

func nphis(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return 0
}

// linVal writes an abstract integer as an expression plus an offset
func (r *round) linVal(v psim.Val) (string, int64) {
	e := &exprs{a: r.p.a, owner: r.owner}
	switch v.K {
	case psim.Int:
		return "", v.N
	case psim.Sym:
		if k, ok := r.m.Names[v.S]; ok {
			c, n := e.lin(k.C, k.V)
			return c, n + v.N
		}
		return "?" + v.S, v.N
	}
	return "?" + v.String(), 0
}

// candidates lists the integers of the loop whose change in every round that
// goes on is given by f (of either sign when sign is 0)
func (r *round) candidates(f func(ip iterPath) int64) []string {
	var out []string
	for n := range r.ints {
		up, down, moved := true, true, false
		for _, ip := range r.paths {
			if ip.exit {
				continue
			}
			w := f(ip)
			if ip.reset[n] || ip.delta[n] != w {
				up = false
			}
			if ip.reset[n] || ip.delta[n] != -w {
				down = false
			}
			if w != 0 {
				moved = true
			}
		}
		if moved && (up || down) {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// counter finds an integer of the loop whose change in every round is given
// by f; it returns its name
func (r *round) counter(f func(ip iterPath) (int64, bool)) (string, string) {
	var names []string
	for n := range r.ints {
		names = append(names, n)
	}
	sort.Strings(names)
	why := "no integer is carried around the collecting loop"
	for _, n := range names {
		ok := true
		moved := false
		for _, ip := range r.paths {
			want, known := f(ip)
			if !known {
				why = "a message cannot be classified"
				ok = false
				break
			}
			if ip.exit {
				continue
			}
			if ip.reset[n] || ip.delta[n] != want {
				ok = false
				if !ip.reset[n] && (moved || ip.delta[n] != 0) {
					why = fmt.Sprintf("a round that changes the count by %d should change it by %d", ip.delta[n], want)
				}
				break
			}
			if want != 0 {
				moved = true
			}
		}
		if ok && moved {
			return n, ""
		}
	}
	return "", why
}

func (ip iterPath) count(kind string, ch *pta.Obj) int64 {
	n := int64(0)
	for _, e := range ip.events {
		if e.kind == kind && e.ch == ch {
			n++
		}
	}
	return n
}

// counted tells whether the owner counts every message from a channel and
// returns only after counting
func (p *pools) counted(owner *pta.Ctx, ch *pta.Obj) countedRes {
	var recvs []chanOp
	for _, o := range p.ops {
		if o.kind == "recv" && has(o.chs, ch) && o.p.Ctx.Thread() == owner.Thread() {
			recvs = append(recvs, o)
		}
	}
	frame, l := p.collectLoop(owner, recvs)
	if l == nil {
		return countedRes{false, "the routine does not receive in a loop"}
	}
	r := &round{p: p, owner: owner, frame: frame, loop: l}
	r.run()
	if r.over {
		return countedRes{false, "too many states"}
	}
	// some integer changes in every round that receives from the channel
	var names []string
	for n := range r.ints {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		ok, seen := true, false
		for _, ip := range r.paths {
			if ip.exit || ip.count("recv", ch) == 0 {
				continue
			}
			seen = true
			if ip.reset[n] || ip.delta[n] == 0 {
				ok = false
			}
		}
		if ok && seen {
			return countedRes{true, ""}
		}
	}
	return countedRes{false, "receiving it is not counted"}
}
