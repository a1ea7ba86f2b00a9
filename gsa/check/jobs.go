package check

import (
	"fmt"
	"go/token"
	"go/types"

	"gsa/psim"
	"gsa/pta"

	"golang.org/x/tools/go/ssa"
)

// jobsAsked gives, for the exported routines that collect results, how many
// results they must wait for
var jobsAsked = map[string]string{
	"LassoCrdDescPath":       "len(p2)",
	"CalculateCohenSequence": "len(p1)",
	"L2ConsistentCovTO":      "(int((9/p3))*p1)",
}

// isSignal: a channel without payload
func isSignal(o *pta.Obj) bool {
	if o.Site == nil {
		return false
	}
	v, ok := o.Site.(ssa.Value)
	if !ok {
		return false
	}
	ct, ok := v.Type().Underlying().(*types.Chan)
	if !ok {
		return false
	}
	switch e := ct.Elem().Underlying().(type) {
	case *types.Basic:
		return e.Info()&types.IsBoolean != 0
	case *types.Struct:
		return e.NumFields() == 0
	}
	return false
}

// workerCount is what a worker sends for one piece of work
type workerCount struct {
	outcomes int64
	ok       bool
}

// perItem decides what a worker sends for each piece of work it takes
func (p *pools) perItem(t *pta.Ctx, o chanOp, nm string) workerCount {
	c := p.c
	outs := p.outOf(t)
	outcome := map[*pta.Obj]bool{}
	sig := map[*pta.Obj]bool{}
	for _, ch := range outs {
		if isSignal(ch) && len(outs) > 1 {
			sig[ch] = true
		} else {
			outcome[ch] = true
		}
	}
	et := o.val.Type()
	if tu, ok := et.(*types.Tuple); ok {
		et = tu.At(0).Type()
		if o.sel >= 0 {
			et = nil
		}
	}
	variants := []string{"item"}
	if et != nil && len(sig) > 0 && pointerish(et) {
		variants = []string{"item", "no item"}
	}
	total := map[string]map[[2]int]token.Pos{}
	bad := ""
	badPos := o.p.Instr.Pos()
	for _, vr := range variants {
		total[vr] = map[[2]int]token.Pos{}
		m := p.sim()
		m.Merge = true
		s := psim.NewState()
		name := psim.SymOf(o.p.Ctx, o.val)
		commaOk := o.ok
		item := psim.SymV(name)
		if commaOk {
			item = psim.SymV(name + "#0")
			s.Cell[name+"#1"] = psim.BoolV(true)
		}
		if o.sel >= 0 {
			s.Cell[name+"#0"] = psim.IntV(int64(o.sel))
			s.Cell[name+"#1"] = psim.BoolV(true)
		} else if pointerish(et) {
			if vr == "item" {
				s.Con[item.S] = psim.Con{NilK: 2}
			} else if commaOk {
				s.Cell[name+"#0"] = psim.NilV
			} else {
				s.Env[psim.VK{C: o.p.Ctx, V: o.val}] = psim.NilV
			}
		}
		done := func(st *psim.State, pos token.Pos) {
			k := [2]int{st.U["out"], st.U["sig"]}
			if _, ok := total[vr][k]; !ok {
				total[vr][k] = pos
			}
		}
		m.Event = func(st *psim.State, cx *pta.Ctx, in ssa.Instruction, sel int) bool {
			if _, ok := in.(*ssa.Defer); ok && sel != -2 {
				return true
			}
			for _, x := range p.at(cx, in, sel) {
				switch x.kind {
				case "recv":
					for _, ch := range x.chs {
						if has(o.chs, ch) {
							done(st, in.Pos())
							return false
						}
					}
					if _, ok := in.(*ssa.Select); ok {
						return false // told to give up
					}
				case "send":
					for _, ch := range x.chs {
						if outcome[ch] {
							if st.U["sig"] > 0 {
								bad, badPos = "a result is sent after the readiness signal", in.Pos()
							}
							if st.U["out"] < 5 {
								st.U["out"]++
							}
							break
						}
						if sig[ch] {
							if st.U["sig"] < 3 {
								st.U["sig"]++
							}
							break
						}
					}
				}
			}
			return true
		}
		m.Exit = func(st *psim.State, cx *pta.Ctx, in ssa.Instruction, panics bool) {
			if !panics {
				done(st, in.Pos())
			}
		}
		start := pta.Point{Ctx: o.p.Ctx, Instr: next(o.p.Instr)}
		m.Run(start, s)
		c.Count("abstract states", m.Steps())
		if m.Over {
			c.Add("one result per item", nm, o.p.Instr.Pos(), Undecided, "too many states")
			return workerCount{}
		}
	}
	want := [2]int{1, 0}
	if len(sig) > 0 {
		want = [2]int{2, 1}
	}
	for k, pos := range total["item"] {
		if k != want {
			bad, badPos = fmt.Sprintf("a piece of work can end with %d results and %d signals instead of %d and %d", k[0], k[1], want[0], want[1]), pos
		}
	}
	for k, pos := range total["no item"] {
		if k != [2]int{0, 1} {
			bad, badPos = fmt.Sprintf("a request without a node can end with %d results and %d signals instead of none and 1", k[0], k[1]), pos
		}
	}
	if len(total["item"]) == 0 && bad == "" {
		bad = "no path ends the work on an item"
	}
	c.Count("work items followed", 1)
	c.Check(bad == "", "one result per item", nm, badPos, "%s", bad)
	return workerCount{int64(want[0]), bad == ""}
}

// collectors decides how the owner counts the results of one channel group
func (p *pools) collects(owner *pta.Ctx, ch *pta.Obj) {
	c := p.c
	name := p.name + ": " + p.chName(ch)
	var recvs []chanOp
	for _, o := range p.ops {
		if o.kind == "recv" && has(o.chs, ch) && o.p.Ctx.Thread() == owner.Thread() {
			recvs = append(recvs, o)
		}
	}
	frame, l := p.collectLoop(owner, recvs)
	if l == nil {
		c.Check(false, "results counted", name, owner.Fn.Pos(), "the routine does not receive the results in a loop")
		return
	}
	for _, o := range recvs {
		if in := liftTo(o.p, frame); in == nil || !l.body[in.Block()] {
			c.Check(false, "results counted", name, o.p.Instr.Pos(), "a result is received outside the loop that counts them")
			return
		}
	}
	r := &round{p: p, owner: owner, frame: frame, loop: l}
	r.run()
	r.start()
	pos := l.head.Instrs[0].Pos()
	if len(recvs) > 0 {
		pos = recvs[0].p.Instr.Pos()
	}
	if r.over {
		c.Add("results counted", name, pos, Undecided, "too many states")
		return
	}
	c.Count("rounds followed", len(r.paths))
	cands := r.candidates(func(ip iterPath) int64 { return ip.count("recv", ch) })
	if len(cands) == 0 {
		c.Check(false, "results counted", name, pos, "no integer carried around the loop changes by exactly the number of results received on every way through it")
		return
	}
	c.Check(true, "results counted", name, pos, "")
	want := jobsAsked[p.name]
	why := ""
	okAny := false
	for _, n := range cands {
		ok, w := r.exits(n, ch, want)
		if ok {
			okAny = true
		} else if why == "" {
			why = w
		}
	}
	c.Check(okAny, "returns after the last result", name, pos, "%s", why)
}

// exits decides that the loop is left only when the integer n shows that all
// results have been received
func (r *round) exits(n string, ch *pta.Obj, want string) (bool, string) {
	c := r.p.c
	down := false
	for _, ip := range r.paths {
		if !ip.exit && ip.count("recv", ch) > 0 && ip.delta[n] < 0 {
			down = true
		}
	}
	iv := r.init[n]
	if len(iv) != 1 {
		return false, fmt.Sprintf("the count starts from %d different values", len(iv))
	}
	icore, ioff := r.linVal(iv[0])
	if !down && icore != "" {
		return false, "the count does not start from a constant"
	}
	if down && want != "" && icore != want {
		return false, fmt.Sprintf("the count starts from %s instead of the number of jobs %s", icore, want)
	}
	some := false
	for _, ip := range r.paths {
		if !ip.exit {
			continue
		}
		some = true
		recv := ip.count("recv", ch)
		ok := false
		for _, f := range ip.facts {
			a, b, op := *f.A, *f.B, f.Op
			if b.K == psim.Sym && b.S == n {
				a, b, op = b, a, swapped(op)
			}
			if a.K != psim.Sym || a.S != n {
				continue
			}
			core, off := r.linVal(b)
			k := off - a.N // n op core + k
			if !down {
				if want != "" && core != want || want == "" && core == "" {
					continue
				}
				switch op {
				case token.GTR:
					k++
				case token.GEQ, token.EQL:
				default:
					continue
				}
				if k-ioff+recv >= 0 {
					ok = true
				}
			} else {
				if core != "" {
					continue
				}
				switch op {
				case token.LSS:
					k--
				case token.LEQ, token.EQL:
				default:
					continue
				}
				if ioff-k+recv >= 0 {
					ok = true
				}
			}
		}
		if !ok {
			return false, fmt.Sprintf("the loop can be left at %s although not every result (%s) has been received", c.Where(ip.where), want)
		}
	}
	if !some {
		return false, "the loop is never left"
	}
	return true, ""
}

func checkC03(c *Ctx) {
	c.Rule("one result per item", "on every path of a worker from taking a piece of work to taking the next or ending, exactly one result is sent; for a node to expand exactly one outcome for each of its two children and then one readiness signal; for an empty request the signal only")
	c.Rule("results counted", "an integer carried around the collecting loop changes, on every way through the loop, by exactly the number of results received")
	c.Rule("returns after the last result", "the collecting loop is left only where a branch has established that this integer reached the number of jobs that were asked for")
	seen := map[string]bool{}
	for _, rt := range c.parallelRoots() {
		a := c.analyse(rt.fn)
		p := c.newPools(rt.name, a)
		for _, t := range p.gos {
			for _, o := range p.ops {
				if o.kind != "recv" || o.p.Ctx.Thread() != t {
					continue
				}
				mine := false
				for _, ch := range o.chs {
					if has(p.workOf(t), ch) {
						mine = true
					}
				}
				if !mine || len(p.outOf(t)) == 0 {
					continue
				}
				c.Funcs[t.Fn.String()] = true
				p.perItem(t, o, p.name+": "+t.Fn.Name())
			}
		}
		if _, ok := jobsAsked[p.name]; !ok {
			continue
		}
		for _, t := range p.gos {
			for _, ch := range p.outOf(t) {
				if ch.Ctx == nil || seen[p.name+p.chName(ch)] {
					continue
				}
				seen[p.name+p.chName(ch)] = true
				p.collects(ch.Ctx, ch)
				c.Count("collectors", 1)
			}
		}
	}
	c.AtLeast("collectors", 3)
	c.AtLeast("work items followed", 5)
}

func init() {
	registry["C03"] = checkC03
	explain["C03"] = "Path-sensitive abstract interpretation (property simulation) of every worker from the receive of one item to the next, and of one round of every collecting loop: on each path the messages are counted and compared with the change of the loop's counter, and the branch that leaves the loop is compared with the number of jobs."
}
