package check

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"gsa/psim"
	"gsa/pta"

	"golang.org/x/tools/go/ssa"
)

// chanOp is one channel operation
type chanOp struct {
	p    pta.Point
	kind string // send, recv, close
	sel  int    // case of a select, or -1
	ok   bool   // the receiver looks at the second result
	chs  []*pta.Obj
	ch   ssa.Value
	val  ssa.Value
}

// pools describes the goroutines and channels of one root
type pools struct {
	c       *Ctx
	a       *pta.An
	name    string
	ops     []chanOp
	byInstr map[pta.Point][]int
	gos     []*pta.Ctx
	rel     map[*pta.Ctx]bool
}

func (c *Ctx) newPools(name string, a *pta.An) *pools {
	p := &pools{c: c, a: a, name: name, byInstr: map[pta.Point][]int{}, rel: map[*pta.Ctx]bool{}}
	mark := func(cx *pta.Ctx) {
		for x := cx; x != nil && !p.rel[x]; x = x.Parent {
			p.rel[x] = true
		}
	}
	for _, cx := range a.CtxList() {
		if _, ok := cx.Call.(*ssa.Go); ok {
			p.gos = append(p.gos, cx)
			mark(cx.Parent)
		}
		add := func(in ssa.Instruction, kind string, sel int, ch, val ssa.Value, ok bool) {
			o := chanOp{p: pta.Point{Ctx: cx, Instr: in}, kind: kind, sel: sel, ch: ch, val: val, ok: ok}
			for _, l := range a.Pts(a.RegOf(cx, ch), "") {
				o.chs = append(o.chs, l.O)
			}
			p.byInstr[o.p] = append(p.byInstr[o.p], len(p.ops))
			p.ops = append(p.ops, o)
			mark(cx)
		}
		for _, b := range cx.Fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Send:
					add(in, "send", -1, x.Chan, x.X, false)
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						add(in, "recv", -1, x.X, x, x.CommaOk)
					}
				case *ssa.Select:
					for i, s := range x.States {
						if s.Dir == types.SendOnly {
							add(in, "send", i, s.Chan, s.Send, false)
						} else {
							add(in, "recv", i, s.Chan, x, true)
						}
					}
				case ssa.CallInstruction:
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						add(in, "close", -1, x.Common().Args[0], nil, false)
					}
				}
			}
		}
	}
	return p
}

func has(l []*pta.Obj, o *pta.Obj) bool {
	for _, x := range l {
		if x == o {
			return true
		}
	}
	return false
}

func (p *pools) chName(o *pta.Obj) string {
	if o.Kind == pta.KParam || o.Kind == pta.KGlobal {
		return o.Name
	}
	if o.Site != nil {
		if v, ok := o.Site.(*ssa.MakeChan); ok {
			return "chan " + types.TypeString(v.Type().Underlying().(*types.Chan).Elem(), func(p *types.Package) string { return p.Name() }) + " made in " + v.Parent().Name()
		}
	}
	return fmt.Sprintf("channel %d", o.ID)
}

// workOf lists the channels a goroutine takes work from: it receives from
// them and did not make them
func (p *pools) workOf(t *pta.Ctx) []*pta.Obj {
	var r []*pta.Obj
	for _, o := range p.ops {
		if o.kind != "recv" || o.p.Ctx.Thread() != t {
			continue
		}
		for _, ch := range o.chs {
			if ch.Kind == pta.KAlloc && ch.Ctx != nil && ch.Ctx.Thread() == t {
				continue
			}
			if ch.Kind != pta.KAlloc {
				continue // a timer, or the caller's
			}
			if !has(r, ch) {
				r = append(r, ch)
			}
		}
	}
	return r
}

func (p *pools) outOf(t *pta.Ctx) []*pta.Obj {
	var r []*pta.Obj
	for _, o := range p.ops {
		if o.kind == "send" && o.p.Ctx.Thread() == t {
			for _, ch := range o.chs {
				if !has(r, ch) && !(ch.Ctx != nil && ch.Ctx.Thread() == t && ch.Kind == pta.KAlloc) {
					r = append(r, ch)
				}
			}
		}
	}
	return r
}

func (p *pools) at(c *pta.Ctx, in ssa.Instruction, sel int) []chanOp {
	var r []chanOp
	for _, i := range p.byInstr[pta.Point{Ctx: c, Instr: in}] {
		o := p.ops[i]
		if _, isSel := in.(*ssa.Select); isSel && o.sel != sel {
			continue
		}
		r = append(r, o)
	}
	return r
}

// atv is at, with the channel known more closely when the path shows which one
func (p *pools) atv(m *psim.Sim, s *psim.State, c *pta.Ctx, in ssa.Instruction, sel int) []chanOp {
	ops := p.at(c, in, sel)
	for i := range ops {
		if len(ops[i].chs) < 2 {
			continue
		}
		v := m.Eval(s, c, ops[i].ch)
		k, ok := m.Names[v.S]
		if v.K != psim.Sym || !ok {
			continue
		}
		ki, isI := k.V.(ssa.Instruction)
		for _, o := range ops[i].chs {
			if isI && o.Site == ki && o.Ctx == k.C {
				ops[i].chs = []*pta.Obj{o}
				break
			}
		}
	}
	return ops
}

func (p *pools) sim() *psim.Sim {
	m := psim.New(p.a)
	m.Opaque = func(x *pta.Ctx) bool { return !p.rel[x] }
	return m
}

// parallelRoots lists the exported routines and tools
func (c *Ctx) parallelRoots() []tool {
	roots := []tool{}
	for _, n := range apiNames() {
		if f := c.P.Func("featselect", n); f != nil && len(f.Blocks) > 0 {
			roots = append(roots, tool{n, f})
		}
	}
	return append(roots, c.toolRoots()...)
}

type verdict struct {
	pos token.Pos
	msg string
}

// collector of complaints that keeps the first per construct
type complaints map[string]verdict

func (cs complaints) add(k string, pos token.Pos, f string, a ...interface{}) {
	if _, ok := cs[k]; !ok {
		cs[k] = verdict{pos, fmt.Sprintf(f, a...)}
	}
}

func checkC04(c *Ctx) {
	c.Rule("workers told to stop", "on every return of the routine that made a work channel, after a worker on it was started, the channel has been closed exactly once, after the last send")
	c.Rule("workers never close", "no close instruction runs in a started goroutine")
	c.Rule("workers notice the stop", "once the work channel is closed the worker ends: no path from a receive that reports closing leads to another receive from that channel")
	c.Rule("no send after close", "no send by the routine itself after it closed the channel; a channel that workers send on is closed only by a routine that has counted every such message")
	c.Rule("nobody blocks forever", "a worker message the routine does not count before it returns goes to a channel with room for it: between two pieces of work handed out the routine receives one such message, and the channel has capacity")
	seenGo := map[ssa.Instruction]bool{}
	for _, rt := range c.parallelRoots() {
		a := c.analyse(rt.fn)
		p := c.newPools(rt.name, a)
		if len(p.gos) == 0 {
			continue
		}
		// each owner once: prefer the routine itself over the tools that call it
		owners := map[*pta.Ctx][]*pta.Obj{}
		for _, t := range p.gos {
			ws := p.workOf(t)
			if len(ws) == 0 {
				seenGo[t.Call] = true
				c.Count("one-shot goroutines", 1)
			}
			for _, w := range ws {
				if !has(owners[w.Ctx], w) {
					owners[w.Ctx] = append(owners[w.Ctx], w)
				}
			}
		}
		isTool := strings.HasPrefix(rt.name, "command ") || strings.Contains(rt.name, "/")
		var os []*pta.Ctx
		for o := range owners {
			os = append(os, o)
		}
		sort.Slice(os, func(i, j int) bool { return os[i].ID < os[j].ID })
		for _, o := range os {
			fresh := false
			for _, t := range p.gos {
				for _, w := range p.workOf(t) {
					if w.Ctx == o && !seenGo[t.Call] {
						fresh = true
					}
				}
			}
			if !fresh && isTool {
				continue
			}
			for _, t := range p.gos {
				for _, w := range p.workOf(t) {
					if w.Ctx == o {
						seenGo[t.Call] = true
					}
				}
			}
			c.Count("pools", 1)
			p.stops(o, owners[o])
		}
		p.workerRules()
	}
	c.AtLeast("pools", 3)
	c.AtLeast("worker goroutines", 4)
}

// stops decides the shutdown of the workers of one owner
func (p *pools) stops(owner *pta.Ctx, chs []*pta.Obj) {
	c := p.c
	cs, exits, over := p.shutdown(owner, chs, false)
	if len(cs) > 0 || over {
		// look closer: follow the integers that loops count with
		if c2, e2, o2 := p.shutdown(owner, chs, true); !o2 {
			cs, exits, over = c2, e2, false
		}
	}
	if over {
		c.Add("workers told to stop", p.name, owner.Fn.Pos(), Undecided, "too many states")
	}
	c.Count("returns checked", exits)
	all := map[*pta.Obj]bool{}
	for _, o := range p.ops {
		for _, ch := range o.chs {
			if ch.Kind == pta.KAlloc && ch.Ctx == owner {
				all[ch] = true
			}
		}
	}
	for _, w := range chs {
		k := "workers told to stop|" + p.chName(w)
		v, bad := cs[k]
		pos := owner.Fn.Pos()
		if bad {
			pos = v.pos
		}
		c.Check(!bad, "workers told to stop", p.name+": "+p.chName(w), pos, "%s", v.msg)
	}
	var ks []*pta.Obj
	for ch := range all {
		ks = append(ks, ch)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	for _, ch := range ks {
		k := "no send after close|" + p.chName(ch)
		v, bad := cs[k]
		pos := owner.Fn.Pos()
		if bad {
			pos = v.pos
		}
		c.Check(!bad, "no send after close", p.name+": "+p.chName(ch), pos, "%s", v.msg)
	}
	p.messages(owner, ks)
}

// shutdown runs the routine to its returns
func (p *pools) shutdown(owner *pta.Ctx, chs []*pta.Obj, ints bool) (complaints, int, bool) {
	c := p.c
	cs := complaints{}
	m := p.sim()
	m.Ints = ints
	m.Merge = true
	key := func(o *pta.Obj) string { return fmt.Sprintf("%d", o.ID) }
	exits := 0
	m.Event = func(s *psim.State, cx *pta.Ctx, in ssa.Instruction, sel int) bool {
		if g, ok := in.(*ssa.Go); ok {
			for _, t := range p.gos {
				if t.Call == ssa.Instruction(g) && t.Parent == cx {
					for _, w := range p.workOf(t) {
						s.U["go"+key(w)] = 1
						if s.U["cl"+key(w)] == 1 {
							cs.add("workers told to stop|"+p.chName(w), in.Pos(), "a worker is started on a channel that is already closed")
						}
					}
				}
			}
			return true
		}
		if _, ok := in.(*ssa.Defer); ok && sel != -2 {
			return true
		}
		for _, o := range p.atv(m, s, cx, in, sel) {
			for _, ch := range o.chs {
				switch o.kind {
				case "close":
					if s.U["cl"+key(ch)] == 1 {
						cs.add("no send after close|"+p.chName(ch), in.Pos(), "closed again at %s", c.Where(in.Pos()))
					}
					if len(o.chs) == 1 {
						s.U["cl"+key(ch)] = 1
					} else {
						cs.add("workers told to stop|"+p.chName(ch), in.Pos(), "it is not known which channel is closed at %s", c.Where(in.Pos()))
					}
				case "send":
					if s.U["cl"+key(ch)] == 1 {
						cs.add("no send after close|"+p.chName(ch), in.Pos(), "sent on at %s after it was closed", c.Where(in.Pos()))
					}
				}
			}
		}
		if r, ok := in.(*ssa.Return); ok && cx == owner {
			exits++
			for _, w := range chs {
				if s.U["go"+key(w)] == 1 && s.U["cl"+key(w)] != 1 {
					cs.add("workers told to stop|"+p.chName(w), r.Pos(), "the routine can return at %s without closing the channel its workers wait on", c.Where(r.Pos()))
				}
			}
			return false
		}
		return true
	}
	m.Run(pta.Point{Ctx: owner}, psim.NewState())
	c.Count("abstract states", m.Steps())
	return cs, exits, m.Over
}

// messages decides what happens to messages of workers when the owner returns
func (p *pools) messages(owner *pta.Ctx, chs []*pta.Obj) {
	c := p.c
	for _, ch := range chs {
		var workers []*pta.Ctx
		closed := false
		for _, o := range p.ops {
			if !has(o.chs, ch) {
				continue
			}
			if o.kind == "send" && o.p.Ctx.Thread() != owner.Thread() {
				workers = append(workers, o.p.Ctx.Thread())
			}
			if o.kind == "close" {
				closed = true
			}
		}
		if len(workers) == 0 {
			continue
		}
		name := p.name + ": " + p.chName(ch)
		// received by another worker: that worker turns it into counted messages (C03)
		toWorker, toOwner := false, false
		for _, o := range p.ops {
			if o.kind == "recv" && has(o.chs, ch) {
				if o.p.Ctx.Thread() == owner.Thread() {
					toOwner = true
				} else {
					toWorker = true
				}
			}
		}
		if !toOwner {
			c.Check(toWorker, "nobody blocks forever", name, ch.Site.Pos(), "nobody receives from the channel")
			continue
		}
		d := p.counted(owner, ch)
		if d.counted {
			c.Check(true, "nobody blocks forever", name, ch.Site.Pos(), "")
			continue
		}
		if closed {
			c.Check(false, "no send after close", name+" (worker messages)", ch.Site.Pos(), "the routine closes a channel its workers send on without having counted their messages: %s", d.why)
		}
		// a token: capacity and alternation
		capa := int64(0)
		if mc, ok := ch.Site.(*ssa.MakeChan); ok {
			if k, ok := mc.Size.(*ssa.Const); ok {
				capa = k.Int64()
			}
		}
		// sends of the workers that cannot block need no room
		blocking := false
		for _, o := range p.ops {
			if o.kind == "send" && has(o.chs, ch) {
				if s, ok := o.p.Instr.(*ssa.Select); ok && (!s.Blocking || p.hasEscape(s, o, ch)) {
					continue
				}
				blocking = true
			}
		}
		if !blocking {
			c.Check(true, "nobody blocks forever", name, ch.Site.Pos(), "")
			continue
		}
		if capa < 1 {
			c.Check(false, "nobody blocks forever", name, ch.Site.Pos(), "the routine returns without receiving every message (%s), and the channel has no room: a worker's send blocks forever", d.why)
			continue
		}
		ok, why := p.alternates(owner, ch, workers)
		c.Check(ok, "nobody blocks forever", name, ch.Site.Pos(), "%s", why)
	}
}

// hasEscape: the select can also proceed when another channel is closed
func (p *pools) hasEscape(s *ssa.Select, o chanOp, ch *pta.Obj) bool {
	for _, x := range p.ops {
		if x.p == o.p && x.kind == "recv" {
			for _, d := range x.chs {
				for _, y := range p.ops {
					if y.kind == "close" && has(y.chs, d) {
						return true
					}
				}
			}
		}
	}
	return false
}

// alternates: between two pieces of work sent to the workers that produce the
// token, the owner receives a token
func (p *pools) alternates(owner *pta.Ctx, ch *pta.Obj, workers []*pta.Ctx) (bool, string) {
	var work []*pta.Obj
	for _, w := range workers {
		for _, x := range p.workOf(w) {
			if !has(work, x) {
				work = append(work, x)
			}
		}
	}
	var sends, cuts []pta.Point
	for _, o := range p.ops {
		if o.p.Ctx.Thread() != owner.Thread() {
			for _, w := range work {
				if o.kind == "send" && has(o.chs, w) {
					return false, "work for the signalling workers is also sent by other workers"
				}
			}
			continue
		}
		if o.kind == "recv" && has(o.chs, ch) && o.sel < 0 {
			cuts = append(cuts, o.p)
		}
		if o.kind == "send" {
			for _, w := range work {
				if has(o.chs, w) {
					sends = append(sends, o.p)
				}
			}
		}
	}
	if len(sends) == 0 {
		return false, "no work is sent"
	}
	// receives in a select count on their own case only: simulate
	bad := ""
	for _, s := range sends {
		m := p.sim()
		m.Ints = false
		m.Merge = true
		first := true
		m.Event = func(st *psim.State, cx *pta.Ctx, in ssa.Instruction, sel int) bool {
			if first && in == s.Instr {
				first = false
				return true
			}
			for _, o := range p.at(cx, in, sel) {
				if o.kind == "recv" && has(o.chs, ch) {
					return false
				}
				if o.kind == "send" {
					for _, w := range work {
						if has(o.chs, w) {
							bad = fmt.Sprintf("after the send at %s more work is sent at %s without a ready signal in between, so that signals can pile up", p.c.Where(s.Instr.Pos()), p.c.Where(in.Pos()))
							return false
						}
					}
				}
			}
			if _, ok := in.(*ssa.Return); ok && cx == owner {
				return false
			}
			return true
		}
		m.Run(s, psim.NewState())
	}
	return bad == "", bad
}

// workerRules decides the rules about each goroutine
func (p *pools) workerRules() {
	c := p.c
	for _, t := range p.gos {
		c.Count("worker goroutines", 1)
		nm := p.name + ": " + t.Fn.Name()
		var bad *chanOp
		for i, o := range p.ops {
			if o.kind == "close" && o.p.Ctx.Thread() == t {
				own := true
				for _, ch := range o.chs {
					if ch.Kind != pta.KAlloc || ch.Ctx == nil || ch.Ctx.Thread() != t {
						own = false
					}
				}
				if !own {
					bad = &p.ops[i]
				}
			}
		}
		pos := t.Fn.Pos()
		if bad != nil {
			pos = bad.p.Instr.Pos()
		}
		c.Check(bad == nil, "workers never close", nm, pos, "the goroutine closes a channel it was given")
		for _, o := range p.ops {
			if o.kind != "recv" || o.p.Ctx.Thread() != t {
				continue
			}
			mine := false
			for _, ch := range o.chs {
				if has(p.workOf(t), ch) {
					mine = true
				}
			}
			if !mine {
				continue
			}
			p.notices(t, o, nm)
		}
	}
}

// notices decides that a worker ends when its work channel is closed
func (p *pools) notices(t *pta.Ctx, o chanOp, nm string) {
	c := p.c
	m := p.sim()
	m.Ints = false
	m.Merge = true
	s := psim.NewState()
	bad := ""
	name := psim.SymOf(o.p.Ctx, o.val)
	first := true
	ended := false
	m.Event = func(st *psim.State, cx *pta.Ctx, in ssa.Instruction, sel int) bool {
		if first && cx == o.p.Ctx && in == o.p.Instr && (o.sel < 0 || sel == o.sel) {
			first = false
			return true
		}
		if first {
			return cx == o.p.Ctx && in == o.p.Instr && false
		}
		for _, x := range p.at(cx, in, sel) {
			if x.kind == "recv" {
				for _, ch := range x.chs {
					if has(o.chs, ch) {
						bad = fmt.Sprintf("after the channel is closed the worker receives from it again at %s", c.Where(in.Pos()))
						return false
					}
				}
			}
			if x.kind == "send" {
				bad = fmt.Sprintf("after the channel is closed the worker still sends a message at %s", c.Where(in.Pos()))
				return false
			}
		}
		// right after the receive: the closed channel's values
		return true
	}
	m.Exit = func(st *psim.State, cx *pta.Ctx, in ssa.Instruction, panics bool) { ended = true }
	// the values a closed channel delivers
	et := o.val.Type()
	if o.sel >= 0 {
		s.Cell[name+"#1"] = psim.BoolV(false)
	} else if o.ok {
		s.Cell[name+"#1"] = psim.BoolV(false)
	}
	start := o.p
	if in := next(o.p.Instr); in != nil {
		// start after the receive with its results known
		start = pta.Point{Ctx: o.p.Ctx, Instr: in}
		first = false
		if o.sel >= 0 {
			s.Cell[name+"#0"] = psim.IntV(int64(o.sel))
		} else if !o.ok {
			if pointerish(et) {
				s.Env[psim.VK{C: o.p.Ctx, V: o.val}] = psim.NilV
			}
		}
	}
	m.Run(start, s)
	if bad == "" && !ended {
		bad = "the worker does not end"
	}
	c.Check(bad == "" && !m.Over, "workers notice the stop", nm, o.p.Instr.Pos(), "%s", bad)
}

func pointerish(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	}
	return false
}

func next(in ssa.Instruction) ssa.Instruction {
	b := in.Block()
	for i, x := range b.Instrs {
		if x == in && i+1 < len(b.Instrs) {
			return b.Instrs[i+1]
		}
	}
	return nil
}

func init() {
	registry["C04"] = checkC04
	explain["C04"] = "Typestate analysis of channels: a path-sensitive abstract interpretation of the routine that makes a work channel follows each channel through the states not started, started, closed on every path to every return; the workers' receives are followed from the moment the channel reports closing."
}
