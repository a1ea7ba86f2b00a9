package check

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"gsa/psim"
	"gsa/pta"

	"golang.org/x/tools/go/ssa"
)

// cut is a threshold: minus best minus cutoff plus something unknown
type cut struct {
	best, cutoff int
	other        bool
}

// linear writes a floating point value over the best score and the user's cutoff
func (b *bnb) linear(m *psim.Sim, s *psim.State, c *pta.Ctx, v ssa.Value, depth int) cut {
	if depth > 30 {
		return cut{other: true}
	}
	add := func(x, y cut, k int) cut {
		return cut{x.best + k*y.best, x.cutoff + k*y.cutoff, x.other || y.other}
	}
	rec := func(c *pta.Ctx, v ssa.Value) cut { return b.linear(m, s, c, v, depth+1) }
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.String() == "0" {
			return cut{}
		}
		return cut{other: true}
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD:
			return add(rec(c, x.X), rec(c, x.Y), 1)
		case token.SUB:
			return add(rec(c, x.X), rec(c, x.Y), -1)
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.SUB:
			return add(cut{}, rec(c, x.X), -1)
		case token.MUL:
			if b.isParam(x.X, "Cutoff") {
				return cut{cutoff: 1}
			}
			// the score of a model that has been offered
			if f, ok := x.X.(*ssa.FieldAddr); ok && fieldName(f) == "Score" && isNodePtr(f.X.Type()) {
				if s.U["insert:"+m.Eval(s, c, f.X).String()] > 0 {
					return cut{best: 1}
				}
			}
		}
	case *ssa.Call:
		pkg, recv, name := calledAs(x)
		if b.c.P.InModule(pkg) && recv == "Highscore" && name == "BestScore" && b.isScores(c, x.Call.Args[0]) {
			return cut{best: 1}
		}
		e := &exprs{a: b.a, owner: b.owner}
		if r, rc := e.result(c, x, 0); r != nil {
			return rec(rc, r)
		}
	case *ssa.Parameter:
		if c != b.owner && c.Parent != nil {
			if a, pc := argOf(c, x); a != nil {
				return rec(pc, a)
			}
		}
	}
	w := m.Eval(s, c, v)
	if k, ok := m.Names[w.S]; w.K == psim.Sym && w.N == 0 && ok && (k.C != c || k.V != v) {
		return rec(k.C, k.V)
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if al, ok := u.X.(*ssa.Alloc); ok {
			if st := onlyStore(al); st != nil {
				return rec(c, st)
			}
		}
		if al, pc := captured(c, u.X); al != nil {
			if st := onlyStore(al); st != nil {
				return rec(pc, st)
			}
		}
	}
	return cut{other: true}
}

// isParam: the address of a field of the search's options
func (b *bnb) isParam(v ssa.Value, field string) bool {
	f, ok := v.(*ssa.FieldAddr)
	if !ok || fieldName(f) != field {
		return false
	}
	p, ok := f.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "SelectModelOptParams"
}

// isScores: the highscore list the search was given
func (b *bnb) isScores(c *pta.Ctx, v ssa.Value) bool {
	e := &exprs{a: b.a, owner: b.a.RootCtx}
	x := e.of(c, v)
	if x == "p2" {
		return true
	}
	// a list of this type that is the only one in sight
	return strings.HasPrefix(x, "?") && onlyHighscore(b.a)
}

func onlyHighscore(a *pta.An) bool {
	for _, cx := range a.CtxList() {
		for _, bl := range cx.Fn.Blocks {
			for _, in := range bl.Instrs {
				if al, ok := in.(*ssa.Alloc); ok {
					if n, ok := al.Type().Underlying().(*types.Pointer).Elem().(*types.Named); ok && n.Obj().Name() == "Highscore" {
						return false
					}
				}
			}
		}
	}
	return true
}

// isOption: the value of a field of the search's options
func (b *bnb) isOption(m *psim.Sim, name, field string) bool {
	k, ok := m.Names[name]
	if !ok {
		return false
	}
	u, ok := k.V.(*ssa.UnOp)
	return ok && u.Op == token.MUL && b.isParam(u.X, field)
}

// tooLong: branches have established that a queue is longer than the limit
func (b *bnb) tooLong(m *psim.Sim, s *psim.State, n string) bool {
	for rel := range s.Rel {
		var lim string
		switch {
		case strings.HasPrefix(rel, "+") && strings.HasSuffix(rel, "<"+n):
			lim = rel[1 : len(rel)-len(n)-1]
		case strings.HasPrefix(rel, "-"+n+"<="):
			lim = rel[len(n)+3:]
		case strings.HasPrefix(rel, "-"+n+"<"):
			lim = "" // as long as the limit is not too long
		}
		if lim != "" && b.isOption(m, lim, "MaxQueueSize") {
			return true
		}
	}
	return false
}

// checkPrune decides where the search throws subtrees away
func checkPrune(c *Ctx) {
	c.Rule("children dropped by the bound only", "on every path through the expansion of a node both children are made by CreateChild, from the search's own data, cutoff and highscore list, and each is sent on to be scored exactly once unless a branch has established that CreateChild returned none")
	c.Rule("queue cleaned against the best score", "CleanQueue is applied to the queue only after a model has been offered on the same way through the loop, with minus the best score minus the user's cutoff as threshold")
	c.Rule("queue cut at its limit", "RemoveLeastPromising is applied to the queue only where a branch has established that the queue is longer than MaxQueueSize")
	c.Rule("taken nodes are expanded", "any other removal from the queue takes a node from its front or back that is handed to the expanding workers")
	f := c.Need("featselect", "SelectModel")
	if f == nil {
		return
	}
	a := c.analyse(f)
	p := c.newPools("SelectModel", a)
	b := &bnb{pools: p, owner: a.RootCtx}
	var expanders []*pta.Ctx
	for _, t := range p.gos {
		for _, cx := range a.CtxList() {
			if cx.Thread() == t && cx.Fn.Name() == "CreateChild" {
				expanders = append(expanders, t)
				break
			}
		}
	}
	if len(expanders) == 0 {
		c.Add("children dropped by the bound only", "SelectModel", f.Pos(), Undecided, "no worker makes children with CreateChild")
		return
	}
	for _, cx := range a.CtxList() {
		if cx.Fn.Name() == "CreateChild" {
			for x := cx.Parent; x != nil && !p.rel[x]; x = x.Parent {
				p.rel[x] = true
			}
		}
	}
	work := map[*pta.Obj]bool{}
	owner := a.RootCtx
	for _, t := range expanders {
		for _, w := range p.workOf(t) {
			work[w] = true
			owner = w.Ctx
		}
	}
	b.owner = owner
	for _, t := range expanders {
		for _, o := range p.ops {
			if o.kind == "recv" && o.p.Ctx.Thread() == t {
				b.kept(t, o)
			}
		}
	}
	b.removals(work)
	c.AtLeast("expansions followed", 1)
}

// kept decides that no child is lost but by the bound
func (b *bnb) kept(t *pta.Ctx, o chanOp) {
	c, p := b.c, b.pools
	mine := false
	for _, ch := range o.chs {
		if has(p.workOf(t), ch) {
			mine = true
		}
	}
	if !mine {
		return
	}
	c.Count("expansions followed", 1)
	const rule = "children dropped by the bound only"
	m := p.sim()
	m.Merge = true
	b.model(m)
	m.Keep = func(n string) bool { return strings.HasPrefix(n, "made:") }
	base := m.Opaque
	m.Opaque = func(x *pta.Ctx) bool { return x.Fn.Name() == "CreateChild" || base(x) && !p.rel[x] }
	item := recvSym(o)
	name := psim.SymOf(o.p.Ctx, o.val)
	cs := complaints{}
	e := &exprs{a: b.a, owner: b.owner}
	was := m.Call
	m.Call = func(s *psim.State, cx *pta.Ctx, in ssa.CallInstruction) ([]psim.Val, bool, bool) {
		pkg, recv, fn := calledAs(in)
		if !c.P.InModule(pkg) || recv != "" || fn != "CreateChild" || len(in.Common().Args) != 6 {
			return was(s, cx, in)
		}
		args := in.Common().Args
		par := m.Eval(s, cx, args[0])
		fl := m.Eval(s, cx, args[1])
		if par.String() != item {
			cs.add(rule, in.Pos(), "a child is made of something else than the node to expand (%s)", par)
		}
		for i, what := range []string{"p0", "p1"} {
			if x := e.of(cx, args[2+i]); x != what {
				cs.add(rule, in.Pos(), "the bound is not computed from the data of the search (%s)", x)
			}
		}
		if k := b.linear(m, s, cx, args[4], 0); k != (cut{cutoff: 1}) {
			cs.add(rule, in.Pos(), "the cutoff of the bound is not the user's")
		}
		if !b.isScores(cx, args[5]) {
			cs.add(rule, in.Pos(), "the bound is not compared with the scores of the search")
		}
		n := "made:" + fl.String()
		if s.U["made:"+fl.String()] < 3 {
			s.U["made:"+fl.String()]++
		}
		return []psim.Val{psim.SymV(n)}, true, false
	}
	paths := 0
	finish := func(st *psim.State, pos token.Pos) {
		paths++
		for _, fl := range []string{"false", "true"} {
			n := "made:" + fl
			if k := st.U[n]; k != 1 {
				cs.add(rule, pos, "the expansion of a node can make %d children with flip=%s", k, fl)
				continue
			}
			sent := st.U["sent:"+n]
			if sent == 0 && st.Con[n].NilK != 1 {
				cs.add(rule, pos, "the child with flip=%s can be left out although CreateChild kept it", fl)
			}
			if sent > 1 {
				cs.add(rule, pos, "the child with flip=%s can be sent %d times", fl, sent)
			}
		}
	}
	m.Event = func(st *psim.State, cx *pta.Ctx, in ssa.Instruction, sel int) bool {
		for _, x := range p.at(cx, in, sel) {
			if x.kind == "recv" {
				for _, ch := range x.chs {
					if has(o.chs, ch) {
						finish(st, in.Pos())
						return false
					}
				}
				if _, ok := in.(*ssa.Select); ok {
					return false
				}
			}
			if x.kind == "send" && isNodePtr(x.val.Type()) {
				v := m.Eval(st, cx, x.val)
				if st.U["sent:"+v.String()] < 3 {
					st.U["sent:"+v.String()]++
				}
			}
		}
		return true
	}
	m.Exit = func(st *psim.State, cx *pta.Ctx, in ssa.Instruction, panics bool) {
		if !panics {
			finish(st, in.Pos())
		}
	}
	s := psim.NewState()
	s.Con[item] = psim.Con{NilK: 2}
	if o.ok {
		s.Cell[name+"#1"] = psim.BoolV(true)
	}
	if o.sel >= 0 {
		s.Cell[name+"#0"] = psim.IntV(int64(o.sel))
	}
	m.Run(pta.Point{Ctx: o.p.Ctx, Instr: next(o.p.Instr)}, s)
	c.Count("abstract states", m.Steps())
	c.Count("expansion paths", paths)
	if m.Over {
		c.Add(rule, t.Fn.Name(), o.p.Instr.Pos(), Undecided, "too many states")
		return
	}
	if paths == 0 {
		cs.add(rule, o.p.Instr.Pos(), "no way through the expansion of a node was found")
	}
	v, bad := cs[rule]
	pos := o.p.Instr.Pos()
	if bad {
		pos = v.pos
	}
	c.Check(!bad, rule, t.Fn.Name(), pos, "%s", v.msg)
}

// removals decides what the loop of the search takes off its queue
func (b *bnb) removals(work map[*pta.Obj]bool) {
	c, p, owner := b.c, b.pools, b.owner
	pos := owner.Fn.Pos()
	var recvs []chanOp
	for _, o := range p.ops {
		if o.kind != "recv" || o.p.Ctx.Thread() != owner.Thread() {
			continue
		}
		recvs = append(recvs, o)
	}
	frame, l := p.collectLoop(owner, recvs)
	if l == nil {
		c.Add("queue cleaned against the best score", "SelectModel", pos, Undecided, "the loop of the search was not found")
		return
	}
	cs := complaints{}
	cleans, cuts, takes := 0, 0, 0
	r := &round{p: p, owner: owner, frame: frame, loop: l}
	r.hook = func(m *psim.Sim) {
		b.model(m)
		was := m.Call
		m.Call = func(s *psim.State, cx *pta.Ctx, in ssa.CallInstruction) ([]psim.Val, bool, bool) {
			pkg, recv, name := calledAs(in)
			args := in.Common().Args
			if c.P.InModule(pkg) && recv == "Highscore" && name == "Insert" && b.isScores(cx, args[0]) {
				s.U["offered"] = 1
			}
			qn := func(v ssa.Value) string {
				q := m.Eval(s, cx, v).String()
				return fmt.Sprintf("qlen:%s:%d", q, s.U["qv:"+q])
			}
			changed := func(v ssa.Value) { s.U["qv:"+m.Eval(s, cx, v).String()]++ }
			if c.P.InModule(pkg) && recv == "" {
				switch name {
				case "CleanQueue":
					cleans++
					k := b.linear(m, s, cx, args[1], 0)
					if k != (cut{best: -1, cutoff: -1}) {
						cs.add("queue cleaned against the best score", in.Pos(), "the threshold is not minus the best score minus the user's cutoff (best %+d, cutoff %+d, other terms: %t)", k.best, k.cutoff, k.other)
					}
					if s.U["offered"] == 0 {
						cs.add("queue cleaned against the best score", in.Pos(), "the queue can be cleaned before any model has been offered")
					}
					changed(args[0])
					return nil, true, false
				case "RemoveLeastPromising":
					cuts++
					if !b.tooLong(m, s, qn(args[0])) {
						cs.add("queue cut at its limit", in.Pos(), "the queue can be cut although it is not known to be longer than MaxQueueSize")
					}
					changed(args[0])
					return nil, true, false
				}
				for _, x := range args {
					if isList(x.Type()) && !b.entered(cx, in) {
						cs.add("taken nodes are expanded", in.Pos(), "the queue is given to %s, of which it is not known what it removes", name)
					}
				}
			}
			if pkg == "container/list" && recv == "List" {
				switch name {
				case "Remove":
					e := m.Eval(s, cx, args[1])
					takes++
					if e.K != psim.Sym || !strings.HasPrefix(e.S, "qFront:") && !strings.HasPrefix(e.S, "qBack:") {
						cs.add("taken nodes are expanded", in.Pos(), "an element (%s) that is neither the first nor the last is removed", e)
						break
					}
					s.U["took:"+e.S]++
					changed(args[0])
					v := psim.SymV("valueof:" + e.S)
					s.Con[v.S] = psim.Con{NilK: 2}
					return []psim.Val{{K: psim.Box, A: &v}}, true, false
				case "Front", "Back":
					rs, h, d := was(s, cx, in)
					if len(rs) == 1 && rs[0].K == psim.Sym {
						if i := structField(in.Value().Type(), "Value"); i >= 0 {
							v := psim.SymV("valueof:" + rs[0].S)
							s.Con[v.S] = psim.Con{NilK: 2} // the queue holds nodes
							s.Cell[fmt.Sprintf("%s|.%d", rs[0].S, i)] = psim.Val{K: psim.Box, A: &v}
						}
					}
					return rs, h, d
				case "Init":
					cs.add("taken nodes are expanded", in.Pos(), "the queue is emptied")
				}
			}
			return was(s, cx, in)
		}
	}
	r.run()
	if r.over {
		c.Add("taken nodes are expanded", "SelectModel", pos, Undecided, "too many states")
		return
	}
	c.Count("rounds followed", len(r.paths))
	for _, ip := range r.paths {
		took := map[string]int{}
		for k, n := range ip.state.U {
			if strings.HasPrefix(k, "took:") && n > 0 {
				took[k[len("took:"):]] += n
			}
		}
		for _, ev := range ip.events {
			if ev.kind != "send" || !work[ev.ch] {
				continue
			}
			v := unbox(ev.val)
			if v.K == psim.Sym {
				for e := range took {
					if v.S == "valueof:"+e {
						took[e]--
					}
				}
			}
		}
		for e, n := range took {
			if n > 0 {
				cs.add("taken nodes are expanded", ip.where, "a node taken off the queue (%s) may not be handed to the workers", e)
			}
			if n < 0 {
				cs.add("taken nodes are expanded", ip.where, "a node taken off the queue once is handed out again")
			}
		}
	}
	c.Count("queue cleanings", cleans)
	c.Count("queue cuts", cuts)
	c.Count("nodes taken", takes)
	for _, rule := range []string{"queue cleaned against the best score", "queue cut at its limit", "taken nodes are expanded"} {
		v, bad := cs[rule]
		at := l.head.Instrs[0].Pos()
		if bad {
			at = v.pos
		}
		c.Check(!bad, rule, "SelectModel", at, "%s", v.msg)
	}
}

func init() {
	registry["B01"] = func(c *Ctx) {
		c.Specs()
		checkPrune(c)
	}
}
