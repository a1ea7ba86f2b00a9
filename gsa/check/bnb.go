package check

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"gsa/psim"
	"gsa/pta"

	"golang.org/x/tools/go/ssa"
)

// calledAs gives package path, receiver type and name of the function a call
// names (static calls only)
func calledAs(in ssa.CallInstruction) (pkg, recv, name string) {
	f := in.Common().StaticCallee()
	if f == nil || f.Object() == nil || f.Object().Pkg() == nil {
		return "", "", ""
	}
	pkg, name = f.Object().Pkg().Path(), f.Name()
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			recv = n.Obj().Name()
		}
	}
	return
}

func unbox(v psim.Val) psim.Val {
	for v.K == psim.Box {
		v = *v.A
	}
	return v
}

// small tells whether a function is short and free of loops
func small(f *ssa.Function) bool {
	return len(f.Blocks) > 0 && len(f.Blocks) <= 12 && len(loopsOf(f)) == 0
}

// bnb is the model of a branch-and-bound driver
type bnb struct {
	*pools
	owner  *pta.Ctx
	level  int // field numbers of Node
	modelF int
	flip   int
}

func structField(t types.Type, name string) int {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// model gives the calls of the driver their meaning: the queue, counting the
// features of a mask, offering a node
func (b *bnb) model(m *psim.Sim) {
	m.Opaque = func(x *pta.Ctx) bool { return !b.rel[x] && !small(x.Fn) }
	m.Keep = func(n string) bool {
		i := strings.Index(n, ":")
		return i > 0 && (n[0] == 'q' || strings.HasPrefix(n, "childof:") || strings.HasPrefix(n, "numfeat:"))
	}
	m.Call = func(s *psim.State, cx *pta.Ctx, in ssa.CallInstruction) ([]psim.Val, bool, bool) {
		pkg, recv, name := calledAs(in)
		args := in.Common().Args
		if pkg == "container/list" && recv == "List" {
			q := m.Eval(s, cx, args[0]).String()
			ver := func() string { return fmt.Sprintf("%s:%d", q, s.U["qv:"+q]) }
			switch name {
			case "Len":
				n := "qlen:" + ver()
				c := s.Con[n]
				if !c.HasLo {
					c.HasLo = true
					s.Con[n] = c
				}
				return []psim.Val{psim.SymV(n)}, true, false
			case "Front", "Back":
				if d, ok := m.Decide(s, psim.Val{K: psim.Cmp, Op: token.EQL, A: &psim.Val{K: psim.Sym, S: "qlen:" + ver()}, B: &psim.Val{K: psim.Int}}); ok {
					if d {
						return []psim.Val{psim.NilV}, true, false
					}
					n := "q" + name + ":" + ver()
					s.Con[n] = psim.Con{NilK: 2}
					return []psim.Val{psim.SymV(n)}, true, false
				}
				return []psim.Val{psim.SymV("q" + name + ":" + ver())}, true, false
			case "PushBack", "PushFront", "InsertBefore", "InsertAfter":
				v := unbox(m.Eval(s, cx, args[1]))
				s.U["push:"+v.String()]++
				s.U["queue:"+q] = 1
				s.U["qv:"+q]++
				s.Con["qlen:"+ver()] = psim.Con{HasLo: true, Lo: 1}
				return []psim.Val{psim.SymV("elem:" + ver())}, true, false
			}
			s.U["qv:"+q]++
			return nil, false, false
		}
		if b.c.P.InModule(pkg) {
			switch recv + "." + name {
			case ".NumFeatures":
				return []psim.Val{psim.SymV("numfeat:" + m.Eval(s, cx, args[0]).String())}, true, false
			case "Highscore.Insert":
				s.U["insert:"+m.Eval(s, cx, args[1]).String()]++
				return nil, true, false
			case "Node.GetChildNode":
				fl := m.Eval(s, cx, args[1])
				par := m.Eval(s, cx, args[0]).String()
				s.U["child:"+par+":"+fl.String()]++
				n := "childof:" + par + ":" + fl.String()
				s.Con[n] = psim.Con{NilK: 2}
				return []psim.Val{psim.SymV(n)}, true, false
			}
		}
		// anything else that is given the queue may change it
		for _, a := range args {
			if isList(a.Type()) {
				q := m.Eval(s, cx, a).String()
				if !b.entered(cx, in) {
					s.U["qv:"+q]++
				}
			}
		}
		if bi, ok := in.Common().Value.(*ssa.Builtin); ok && bi.Name() == "append" && len(args) == 2 {
			v := m.Eval(s, cx, args[1])
			for k, x := range s.Cell {
				if strings.HasPrefix(k, v.S+"|[") {
					s.U["push:"+unbox(x).String()]++
				}
			}
		}
		return nil, false, false
	}
}

func (b *bnb) entered(cx *pta.Ctx, in ssa.CallInstruction) bool {
	for _, x := range b.a.CtxList() {
		if x.Parent == cx && x.Call == ssa.Instruction(in) && (b.rel[x] || small(x.Fn)) {
			return true
		}
	}
	return false
}

func isList(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "List" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "container/list"
}

// recvSym names the value a receive delivers
func recvSym(o chanOp) string {
	n := psim.SymOf(o.p.Ctx, o.val)
	if s, ok := o.p.Instr.(*ssa.Select); ok {
		k := 2
		for i, st := range s.States {
			if i == o.sel {
				break
			}
			if st.Dir == types.RecvOnly {
				k++
			}
		}
		return fmt.Sprintf("%s#%d", n, k)
	}
	if o.ok {
		return n + "#0"
	}
	return n
}

func checkC05(c *Ctx) {
	c.Rule("subtrees counted", "the search keeps an integer that every round of its loop changes by two for each node handed out for expansion and by minus one for each outcome (scored or pruned child) received, starting from two per node handed out before")
	c.Rule("ends when all is done", "the loop is left only where branches have established that this integer is zero or less and that the queue is empty")
	c.Rule("scored nodes are expanded", "on every path that receives a scored node, the node is queued exactly once, unless a branch has established that no feature is left to decide")
	c.Rule("scored models are offered", "on every path that receives a scored node, the node is offered to the highscore list exactly once if it is a new model with features, and not otherwise")
	c.Rule("starting model scored", "before the loop the starting node is offered to the highscore list unless a branch has established that it has no features or as many as data points")
	c.Rule("two children", "on every path through the expansion of a node exactly one child keeping and one child flipping the next feature is made, and what is sent on is one of the two")
	c.Rule("children are scored", "a child that is not pruned is sent to workers that score it, not past them")
	f := c.Need("featselect", "SelectModel")
	if f == nil {
		return
	}
	a := c.analyse(f)
	p := c.newPools("SelectModel", a)
	b := &bnb{pools: p, owner: a.RootCtx}
	node := c.P.Named("featselect", "Node")
	if node == nil {
		c.Add("anchor", "featselect.Node", token.NoPos, Undecided, "type not found")
		return
	}
	b.level, b.modelF, b.flip = structField(node, "Level"), structField(node, "Model"), structField(node, "WasFlipped")
	if b.level < 0 || b.modelF < 0 || b.flip < 0 {
		c.Add("anchor", "featselect.Node", token.NoPos, Undecided, "a field is missing")
		return
	}
	// the expanding workers are those that make children
	var expanders []*pta.Ctx
	for _, t := range p.gos {
		for _, cx := range a.CtxList() {
			if cx.Thread() == t && cx.Fn.Name() == "GetChildNode" {
				expanders = append(expanders, t)
				break
			}
		}
	}
	if len(expanders) == 0 {
		c.Check(false, "two children", "SelectModel", f.Pos(), "no worker makes child nodes")
		return
	}
	for _, cx := range a.CtxList() {
		if cx.Fn.Name() == "GetChildNode" {
			for x := cx.Parent; x != nil && !p.rel[x]; x = x.Parent {
				p.rel[x] = true
			}
		}
	}
	// every goroutine must be known
	work := map[*pta.Obj]bool{}
	for _, t := range expanders {
		for _, w := range p.workOf(t) {
			work[w] = true
		}
	}
	owner := a.RootCtx
	for w := range work {
		owner = w.Ctx
	}
	b.owner = owner
	var outcomes []*pta.Obj
	for _, t := range p.gos {
		for _, ch := range p.outOf(t) {
			if isSignal(ch) || has(outcomes, ch) {
				continue
			}
			for _, o := range p.ops {
				if o.kind == "recv" && has(o.chs, ch) && o.p.Ctx.Thread() == owner.Thread() {
					outcomes = append(outcomes, ch)
					break
				}
			}
		}
	}
	for _, t := range expanders {
		for _, o := range p.ops {
			if o.kind == "recv" && o.p.Ctx.Thread() == t {
				b.children(t, o, outcomes)
			}
		}
	}
	b.driver(work, outcomes)
	c.AtLeast("expansions followed", 1)
	c.Specs()
}

// children decides what an expanding worker makes of one node
func (b *bnb) children(t *pta.Ctx, o chanOp, outcomes []*pta.Obj) {
	c, p := b.c, b.pools
	mine := false
	for _, ch := range o.chs {
		if has(p.workOf(t), ch) {
			mine = true
		}
	}
	if !mine {
		return
	}
	c.Count("expansions followed", 1)
	m := p.sim()
	m.Merge = true
	b.model(m)
	base := m.Opaque
	m.Opaque = func(x *pta.Ctx) bool { return base(x) && !p.rel[x] }
	s := psim.NewState()
	item := recvSym(o)
	name := psim.SymOf(o.p.Ctx, o.val)
	s.Con[item] = psim.Con{NilK: 2}
	if o.ok {
		s.Cell[name+"#1"] = psim.BoolV(true)
	}
	if o.sel >= 0 {
		s.Cell[name+"#0"] = psim.IntV(int64(o.sel))
	}
	cs := complaints{}
	paths := 0
	finish := func(st *psim.State, pos token.Pos) {
		paths++
		for _, fl := range []string{"false", "true"} {
			if n := st.U["child:"+item+":"+fl]; n != 1 {
				cs.add("two children", pos, "the expansion of a node can make %d children with flip=%s", n, fl)
			}
		}
		for k, n := range st.U {
			if strings.HasPrefix(k, "child:") && n > 0 && k != "child:"+item+":false" && k != "child:"+item+":true" {
				cs.add("two children", pos, "a child is made of something else than the node to expand (%s)", k)
			}
			if strings.HasPrefix(k, "sent:") && n > 1 {
				cs.add("two children", pos, "the same child is sent twice")
			}
		}
	}
	m.Event = func(st *psim.State, cx *pta.Ctx, in ssa.Instruction, sel int) bool {
		for _, x := range p.at(cx, in, sel) {
			if x.kind == "recv" {
				for _, ch := range x.chs {
					if has(o.chs, ch) {
						finish(st, in.Pos())
						return false
					}
				}
				if _, ok := in.(*ssa.Select); ok {
					return false
				}
			}
			if x.kind == "send" {
				v := m.Eval(st, cx, x.val)
				if !isNodePtr(x.val.Type()) {
					continue
				}
				if v.K != psim.Sym || !strings.HasPrefix(v.S, "childof:"+item+":") {
					cs.add("two children", in.Pos(), "what is sent on is not one of the two children (%s)", v)
					continue
				}
				if st.U["sent:"+v.S] < 3 {
					st.U["sent:"+v.S]++
				}
				for _, ch := range x.chs {
					if has(outcomes, ch) {
						cs.add("children are scored", in.Pos(), "a child is sent straight to the search without being scored")
					}
				}
			}
		}
		return true
	}
	m.Exit = func(st *psim.State, cx *pta.Ctx, in ssa.Instruction, panics bool) {
		if !panics {
			finish(st, in.Pos())
		}
	}
	m.Run(pta.Point{Ctx: o.p.Ctx, Instr: next(o.p.Instr)}, s)
	c.Count("abstract states", m.Steps())
	c.Count("expansion paths", paths)
	if m.Over {
		c.Add("two children", t.Fn.Name(), o.p.Instr.Pos(), Undecided, "too many states")
		return
	}
	for _, rule := range []string{"two children", "children are scored"} {
		v, bad := cs[rule]
		pos := o.p.Instr.Pos()
		if bad {
			pos = v.pos
		}
		c.Check(!bad, rule, t.Fn.Name(), pos, "%s", v.msg)
	}
}

func isNodePtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "Node"
}

// driver decides the loop of the search
func (b *bnb) driver(work map[*pta.Obj]bool, outcomes []*pta.Obj) {
	c, p, owner := b.c, b.pools, b.owner
	pos := owner.Fn.Pos()
	var recvs []chanOp
	for _, o := range p.ops {
		if o.kind != "recv" || o.p.Ctx.Thread() != owner.Thread() {
			continue
		}
		for _, ch := range o.chs {
			if has(outcomes, ch) {
				recvs = append(recvs, o)
			}
		}
	}
	frame, l := p.collectLoop(owner, recvs)
	if l == nil {
		c.Check(false, "subtrees counted", "SelectModel", pos, "the outcomes are not received in a loop")
		return
	}
	for _, o := range recvs {
		if in := liftTo(o.p, frame); in == nil || !l.body[in.Block()] {
			c.Check(false, "subtrees counted", "SelectModel", o.p.Instr.Pos(), "an outcome is received outside the loop of the search")
			return
		}
	}
	r := &round{p: p, owner: owner, frame: frame, loop: l}
	r.hook = b.model
	r.run()
	cs := complaints{}
	rootNodes := map[string]psim.Val{}
	var preSends map[int]bool = map[int]bool{}
	r.hook = func(m *psim.Sim) {
		b.model(m)
		m.Event = func(st *psim.State, cx *pta.Ctx, in ssa.Instruction, sel int) bool {
			for _, o := range p.at(cx, in, sel) {
				if o.kind != "send" {
					continue
				}
				for _, ch := range o.chs {
					if work[ch] {
						if st.U["pre"] < 50 {
							st.U["pre"]++
						}
						v := m.Eval(st, cx, o.val)
						rootNodes[v.String()] = v
						st.U["root:"+v.String()] = 1
					}
				}
			}
			return true
		}
		r.enter = func(st *psim.State) {
			preSends[st.U["pre"]] = true
			for rn, rv := range rootNodes {
				if st.U["root:"+rn] == 0 {
					continue
				}
				if st.U["insert:"+rn] == 1 {
					continue
				}
				base := rv.String()
				if rv.K == psim.Addr {
					base = rv.S
				}
				mv, ok := st.Cell[base+"|"+rv.P+"."+fmt.Sprint(b.modelF)]
				nf := psim.Val{K: psim.Sym, S: "numfeat:" + mv.String()}
				if ok && b.few(m, st, nf) {
					continue
				}
				cs.add("starting model scored", l.head.Instrs[0].Pos(), "the search can start without having offered its starting node %s (offered %d times)", rn, st.U["insert:"+rn])
			}
		}
	}
	r.start()
	if r.over {
		c.Add("subtrees counted", "SelectModel", pos, Undecided, "too many states")
		return
	}
	c.Count("rounds followed", len(r.paths))
	if len(rootNodes) == 0 {
		cs.add("starting model scored", pos, "no node is handed out before the loop")
	}
	// the counter
	change := func(ip iterPath) int64 {
		n := int64(0)
		for _, e := range ip.events {
			if e.kind == "recv" && has(outcomes, e.ch) {
				n--
			}
			if e.kind == "send" && work[e.ch] && e.val.K != psim.Nil {
				n += 2
			}
		}
		return n
	}
	cands := r.candidates(change)
	good := ""
	why := "no integer carried around the loop changes, on every way through it, by two for each node handed out and minus one for each outcome"
	for _, n := range cands {
		iv := r.init[n]
		if len(iv) == 1 && iv[0].K == psim.Int && len(preSends) == 1 {
			k := 0
			for x := range preSends {
				k = x
			}
			if iv[0].N == int64(2*k) || iv[0].N == int64(-2*k) {
				good = n
				break
			}
			why = fmt.Sprintf("the count starts from %d although %d nodes have been handed out", iv[0].N, k)
		} else {
			why = "it is not known from what the count starts"
		}
	}
	c.Check(good != "", "subtrees counted", "SelectModel", l.head.Instrs[0].Pos(), "%s", why)
	up := false
	for _, ip := range r.paths {
		if good != "" && !ip.exit && ip.delta[good] > 0 {
			for _, e := range ip.events {
				if e.kind == "recv" && has(outcomes, e.ch) {
					up = true // a count that goes up to zero
				}
			}
		}
	}
	exits := 0
	for _, ip := range r.paths {
		st := ip.state
		if ip.exit {
			exits++
			if good != "" {
				op := token.LEQ
				v := psim.Val{K: psim.Sym, S: good, N: change(ip)}
				if up {
					op = token.GEQ
					v.N = -v.N
				}
				z := psim.IntV(0)
				d, ok := r.m.Decide(st, psim.Val{K: psim.Cmp, Op: op, A: &v, B: &z})
				if !ok {
					d, ok = r.m.Decide(st, psim.Val{K: psim.Cmp, Op: token.EQL, A: &v, B: &z})
				}
				if !ok || !d {
					cs.add("ends when all is done", ip.where, "the search can end at %s although nodes may still be in progress", c.Where(ip.where))
				}
			}
			if !b.queueEmpty(r, st) {
				cs.add("ends when all is done", ip.where, "the search can end at %s although the queue may still hold nodes", c.Where(ip.where))
			}
		}
		for _, e := range ip.events {
			if e.kind != "recv" || !has(outcomes, e.ch) {
				continue
			}
			if !b.carriesNode(e.ch) {
				continue
			}
			ns := recvSym(e.op)
			cell := func(i int) (psim.Val, bool) {
				v, ok := st.Cell[fmt.Sprintf("%s|.%d", ns, i)]
				return v, ok
			}
			c.Count("receipts followed", 1)
			lv, okL := cell(b.level)
			mv, okM := cell(b.modelF)
			fv, okF := cell(b.flip)
			pushed := st.U["push:"+ns]
			if pushed == 0 && !(okL && b.noneLeft(r, st, lv)) {
				cs.add("scored nodes are expanded", e.pos, "a scored node can be dropped instead of being queued although features are left to decide")
			}
			if pushed > 1 {
				cs.add("scored nodes are expanded", e.pos, "a scored node can be queued %d times", pushed)
			}
			nf := psim.Val{K: psim.Sym, S: "numfeat:" + mv.String()}
			z := psim.IntV(0)
			dec := func(op token.Token, v psim.Val) bool {
				d, ok := r.m.Decide(st, psim.Val{K: psim.Cmp, Op: op, A: &v, B: &z})
				return ok && d
			}
			empty := okM && (dec(token.LEQ, nf) || dec(token.EQL, nf))
			full := okM && (dec(token.GTR, nf) || dec(token.NEQ, nf))
			isFlip := 0
			if okF {
				if d, ok := r.m.Decide(st, fv); ok {
					isFlip = -1
					if d {
						isFlip = 1
					}
				}
			}
			root := okL && dec(token.EQL, lv)
			notRoot := okL && (dec(token.NEQ, lv) || dec(token.GTR, lv))
			ins := st.U["insert:"+ns]
			if ins == 0 && !(empty || notRoot && isFlip == -1) {
				cs.add("scored models are offered", e.pos, "a new model that was scored can be left out of the highscore list")
			}
			if ins > 1 {
				cs.add("scored models are offered", e.pos, "a model can be offered %d times", ins)
			}
			if ins == 1 && !(full && (root || isFlip == 1)) {
				cs.add("scored models are offered", e.pos, "a node that was not scored can be offered to the highscore list")
			}
		}
	}
	if exits == 0 {
		cs.add("ends when all is done", pos, "the loop is never left")
	}
	c.AtLeast("receipts followed", 1)
	for _, rule := range []string{"ends when all is done", "scored nodes are expanded", "scored models are offered", "starting model scored"} {
		v, bad := cs[rule]
		at := l.head.Instrs[0].Pos()
		if bad {
			at = v.pos
		}
		c.Check(!bad, rule, "SelectModel", at, "%s", v.msg)
	}
}

func (b *bnb) carriesNode(ch *pta.Obj) bool {
	v, ok := ch.Site.(ssa.Value)
	if !ok {
		return false
	}
	ct, ok := v.Type().Underlying().(*types.Chan)
	return ok && isNodePtr(ct.Elem())
}

// few: no features, or at least as many as there are data points
func (b *bnb) few(m *psim.Sim, st *psim.State, nf psim.Val) bool {
	z := psim.IntV(0)
	for _, op := range []token.Token{token.LEQ, token.EQL} {
		if d, ok := m.Decide(st, psim.Val{K: psim.Cmp, Op: op, A: &nf, B: &z}); ok && d {
			return true
		}
	}
	for rel := range st.Rel {
		for _, s := range []string{"+%s<=" + nf.S, "-" + nf.S + "<%s"} {
			i := strings.Index(s, "%s")
			if strings.HasPrefix(rel, s[:i]) && strings.HasSuffix(rel, s[i+2:]) && len(rel) > len(s)-2 {
				if b.isRows(m, rel[i:len(rel)-len(s[i+2:])]) {
					return true
				}
			}
		}
	}
	return false
}

// isRows: the number of rows of the design matrix, or of target values
func (b *bnb) isRows(m *psim.Sim, name string) bool {
	k, ok := m.Names[name]
	if !ok {
		return false
	}
	e := &exprs{a: b.a, owner: b.owner}
	x := e.of(k.C, k.V)
	return x == "Dims(p0)#0" || x == "len(p1)"
}

// noneLeft: the level has reached the number of features
func (b *bnb) noneLeft(r *round, st *psim.State, lv psim.Val) bool {
	cols := func(v psim.Val) bool {
		core, off := r.linVal(v)
		return off == 0 && core == "Dims(p0)#1" || off == 0 && strings.HasSuffix(core, ".Model)") && strings.HasPrefix(core, "len(")
	}
	for rel := range st.Rel {
		if rel[0] != '+' {
			continue
		}
		for _, op := range []string{"<=", "=="} {
			i := strings.Index(rel, op)
			if i < 0 {
				continue
			}
			x, y := rel[1:i], rel[i+2:]
			if y == lv.String() && cols(psim.SymV(x)) {
				return true
			}
			if op == "==" && x == lv.String() && cols(psim.SymV(y)) {
				return true
			}
		}
	}
	return false
}

// queueEmpty: every queue that nodes are put on is known to be empty
func (b *bnb) queueEmpty(r *round, st *psim.State) bool {
	queues := map[string]bool{}
	for _, ip := range r.paths {
		for k := range ip.state.U {
			if strings.HasPrefix(k, "queue:") {
				queues[k[len("queue:"):]] = true
			}
		}
	}
	for q := range queues {
		ver := fmt.Sprintf("%s:%d", q, st.U["qv:"+q])
		c := st.Con["qlen:"+ver]
		if c.HasHi && c.Hi <= 0 {
			continue
		}
		if st.Con["qFront:"+ver].NilK == 1 || st.Con["qBack:"+ver].NilK == 1 {
			continue
		}
		return false
	}
	if len(queues) > 0 {
		return true
	}
	for n, c := range st.Con {
		if strings.HasPrefix(n, "len:") && c.HasHi && c.Hi <= 0 {
			if k, ok := r.m.Names[n]; ok {
				if call, ok := k.V.(*ssa.Call); ok {
					if sl, ok := call.Call.Args[0].Type().Underlying().(*types.Slice); ok && isNodePtr(sl.Elem()) {
						return true
					}
				}
			}
		}
	}
	return false
}

func init() {
	registry["C05"] = checkC05
	explain["C05"] = "Path-sensitive abstract interpretation (property simulation) of one round of the search loop, of its entry and of the expansion of one node: the change of the loop's counter is compared with the messages on each path, the facts that hold where the loop is left, where a scored node is not queued or not offered, and where the start is not scored are compared with the rules."
}
