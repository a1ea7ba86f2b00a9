package pta

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// LockState is the abstract state of the lock analysis: locks certainly held
// (with the mode and the place they were taken) and locks possibly held
type LockState struct {
	Must map[string]Held
	May  map[string]bool
	Defs []ssa.CallInstruction
	Dead bool
}

// Held is a lock that is held
type Held struct {
	Write bool
	At    string // acquisition (context and instruction)
	Instr ssa.Instruction
}

// LockIssue is a misuse of a lock
type LockIssue struct {
	Point Point
	What  string
	Lock  string
}

// LockRes is the result of the lock analysis of one root
type LockRes struct {
	At     map[Point]*LockState // state before an instruction, joined
	Issues []LockIssue
	Locks  map[string]Loc
	Events int
	seen   map[string]bool
	a      *An
	events map[Point][]LockEvent
	active map[string]bool
}

func newState() *LockState { return &LockState{Must: map[string]Held{}, May: map[string]bool{}} }

func (s *LockState) clone() *LockState {
	n := newState()
	for k, v := range s.Must {
		n.Must[k] = v
	}
	for k := range s.May {
		n.May[k] = true
	}
	n.Defs = append([]ssa.CallInstruction(nil), s.Defs...)
	return n
}

func (s *LockState) key() string {
	var p []string
	for k, v := range s.Must {
		p = append(p, fmt.Sprint("M", k, v.Write, v.At))
	}
	for k := range s.May {
		p = append(p, "m"+k)
	}
	sort.Strings(p)
	for _, d := range s.Defs {
		p = append(p, fmt.Sprintf("%p", d))
	}
	return strings.Join(p, ";")
}

func join(a, b *LockState) *LockState {
	if a == nil {
		return b.clone()
	}
	n := newState()
	for k, v := range a.Must {
		if w, ok := b.Must[k]; ok {
			v.Write = v.Write && w.Write
			if v.At != w.At {
				v.At = "?"
			}
			n.Must[k] = v
		}
	}
	for k := range a.May {
		n.May[k] = true
	}
	for k := range b.May {
		n.May[k] = true
	}
	// deferred calls certainly registered on both ways, in order
	i := 0
	for i < len(a.Defs) && i < len(b.Defs) && a.Defs[i] == b.Defs[i] {
		i++
	}
	n.Defs = append([]ssa.CallInstruction(nil), a.Defs[:i]...)
	return n
}

// LockAnalysis computes the locks held at every instruction of the root and
// its goroutines
func (a *An) LockAnalysis() *LockRes {
	r := &LockRes{At: map[Point]*LockState{}, Locks: map[string]Loc{}, seen: map[string]bool{}, a: a, events: map[Point][]LockEvent{}, active: map[string]bool{}}
	for _, e := range a.Locks {
		p := Point{e.Ctx, e.Instr}
		r.events[p] = append(r.events[p], e)
		r.Events++
	}
	r.run(a.RootCtx, newState())
	return r
}

func (r *LockRes) issue(p Point, what, lock string) {
	k := fmt.Sprintf("%p|%p|%s|%s", p.Ctx, p.Instr, what, lock)
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.Issues = append(r.Issues, LockIssue{p, what, lock})
}

func (r *LockRes) lockKey(l Loc) string {
	k := fmt.Sprintf("%d%s", l.O.ID, l.Path)
	r.Locks[k] = l
	return k
}

// run analyses a context from an entry state and returns the exit state
func (r *LockRes) run(c *Ctx, in *LockState) *LockState {
	entry := in.clone()
	entry.Defs = nil
	ak := fmt.Sprintf("%d|%s", c.ID, entry.key())
	if r.active[ak] {
		return entry // recursion: assume balanced
	}
	r.active[ak] = true
	defer delete(r.active, ak)
	blocks := c.Fn.Blocks
	ins := map[*ssa.BasicBlock]*LockState{blocks[0]: entry}
	var exit *LockState
	work := []*ssa.BasicBlock{blocks[0]}
	n := 0
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		n++
		if n > 20000 {
			break
		}
		st := ins[b].clone()
		for _, i := range b.Instrs {
			r.step(c, i, st)
			if _, ok := i.(*ssa.Return); ok {
				exit = join(exit, st)
			}
			if p, ok := i.(*ssa.Panic); ok {
				r.defers(c, st)
				for k := range st.May {
					if _, entered := entry.Must[k]; !entered && !entry.May[k] {
						r.issue(Point{c, p}, "a panic leaves the lock held", k)
					}
				}
			}
		}
		for _, s := range b.Succs {
			nw := join(ins[s], st)
			if ins[s] == nil || nw.key() != ins[s].key() {
				ins[s] = nw
				work = append(work, s)
			}
		}
	}
	if exit == nil {
		exit = entry
	}
	if c.Parent == nil || isGoCtx(c) {
		for k := range exit.May {
			r.issue(Point{c, nil}, "the lock can be held when the routine returns", k)
		}
	}
	return exit
}

func isGoCtx(c *Ctx) bool {
	_, ok := c.Call.(*ssa.Go)
	return ok
}

func (r *LockRes) defers(c *Ctx, st *LockState) {
	ds := st.Defs
	st.Defs = nil
	for i := len(ds) - 1; i >= 0; i-- {
		r.perform(c, ds[i], st)
	}
}

func (r *LockRes) step(c *Ctx, in ssa.Instruction, st *LockState) {
	p := Point{c, in}
	r.At[p] = join(r.At[p], st)
	switch x := in.(type) {
	case *ssa.Defer:
		if InLoop(x) {
			r.issue(p, "a deferred call in a loop", "")
		}
		st.Defs = append(st.Defs, x)
	case *ssa.RunDefers:
		r.defers(c, st)
	case *ssa.Go:
		for _, n := range r.a.Calls[c][in] {
			r.run(n, newState())
		}
	case *ssa.Call:
		r.perform(c, x, st)
	}
}

func (r *LockRes) perform(c *Ctx, in ssa.CallInstruction, st *LockState) {
	p := Point{c, in}
	if es := r.events[p]; len(es) > 0 {
		for _, e := range es {
			k := r.lockKey(e.Loc)
			at := fmt.Sprintf("%d:%p", c.ID, in)
			if InLoop(in) {
				at += "loop"
			}
			switch e.Op {
			case "Lock", "RLock":
				if st.May[k] {
					r.issue(p, "the lock may already be held by this goroutine", k)
				}
				st.May[k] = true
				if len(es) == 1 {
					st.Must[k] = Held{Write: e.Op == "Lock", At: at, Instr: in}
				}
			case "Unlock", "RUnlock":
				h, ok := st.Must[k]
				if !ok {
					r.issue(p, "unlocks a lock that is not certainly held", k)
				} else if h.Write != (e.Op == "Unlock") {
					r.issue(p, "unlocks in the wrong mode", k)
				}
				delete(st.Must, k)
				delete(st.May, k)
			default:
				st.May[k] = true
				r.issue(p, "lock acquired conditionally", k)
			}
		}
		return
	}
	subs := r.a.Calls[c][in]
	if len(subs) == 0 {
		return
	}
	var out *LockState
	for _, n := range subs {
		o := r.run(n, st)
		o.Defs = nil
		out = join(out, o)
	}
	st.Must, st.May = out.Must, out.May
}
