package pta

import (
	"golang.org/x/tools/go/ssa"
)

// Point is an instruction in a context
type Point struct {
	Ctx   *Ctx
	Instr ssa.Instruction
}

// chain lists the contexts from the thread's (or the root's) outermost frame
// down to c
func chain(c *Ctx) []*Ctx {
	var r []*Ctx
	for x := c; x != nil; x = x.Parent {
		r = append([]*Ctx{x}, r...)
	}
	return r
}

// lift gives the instruction of frame f that contains p, or nil
func lift(p Point, f *Ctx) ssa.Instruction {
	if p.Ctx == f {
		return p.Instr
	}
	for x := p.Ctx; x != nil; x = x.Parent {
		if x.Parent == f {
			return x.Call
		}
	}
	return nil
}

// lca is the innermost frame common to two points
func lca(a, b *Ctx) *Ctx {
	seen := map[*Ctx]bool{}
	for x := a; x != nil; x = x.Parent {
		seen[x] = true
	}
	for x := b; x != nil; x = x.Parent {
		if seen[x] {
			return x
		}
	}
	return nil
}

// instrReach tells whether to is reachable from just after from without
// executing a cut instruction. from nil means function entry.
func instrReach(fn *ssa.Function, from, to ssa.Instruction, cuts map[ssa.Instruction]bool) bool {
	type pos struct {
		b *ssa.BasicBlock
		i int
	}
	var start pos
	if from == nil {
		start = pos{fn.Blocks[0], 0}
	} else {
		start = pos{from.Block(), index(from) + 1}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(p pos) bool
	walk = func(p pos) bool {
		for i := p.i; i < len(p.b.Instrs); i++ {
			in := p.b.Instrs[i]
			if in == to {
				return true
			}
			if cuts[in] {
				return false
			}
		}
		for _, s := range p.b.Succs {
			if seen[s] {
				continue
			}
			seen[s] = true
			if walk(pos{s, 0}) {
				return true
			}
		}
		return false
	}
	return walk(start)
}

func index(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

// After tells whether w can execute after s, in the same thread, without one
// of the cut points executing in between
func After(s, w Point, cuts []Point) bool {
	f := lca(s.Ctx, w.Ctx)
	if f == nil {
		return true
	}
	cutsAt := func(fr *Ctx) map[ssa.Instruction]bool {
		m := map[ssa.Instruction]bool{}
		for _, c := range cuts {
			if in := lift(c, fr); in != nil {
				m[in] = true
			}
		}
		return m
	}
	// below the common frame: s leaves its frames freely; w is reached from
	// the entry of its frames
	enter := func(top *Ctx, p Point) bool {
		for x := p.Ctx; x != top; x = x.Parent {
			in := lift(p, x)
			cs := cutsAt(x)
			delete(cs, in)
			if in.Parent() != x.Fn {
				continue
			}
			if !instrReach(x.Fn, nil, in, cs) {
				return false
			}
		}
		return true
	}
	// leave tells whether control can run from p to the end of its frames
	leave := func(top *Ctx, p Point) bool {
		for x := p.Ctx; x != top; x = x.Parent {
			in := lift(p, x)
			cs := cutsAt(x)
			ok := false
			for _, b := range x.Fn.Blocks {
				if len(b.Instrs) == 0 {
					continue
				}
				if r, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isR && instrReach(x.Fn, in, r, cs) {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
		return true
	}
	is, iw := lift(s, f), lift(w, f)
	cf := cutsAt(f)
	if s.Ctx != f {
		// a cut inside the call that contains s may have run before s
		delete(cf, is)
	}
	if w.Ctx != f && iw != is {
		delete(cf, iw)
	}
	if leave(f, s) && enter(f, w) {
		if is != iw || s.Ctx != f {
			if instrReach(f.Fn, is, iw, cf) {
				return true
			}
		} else if instrReach(f.Fn, is, iw, cf) {
			return true
		}
	}
	// around loops of the frames above
	for x := f; x.Parent != nil; x = x.Parent {
		if _, g := x.Call.(*ssa.Go); g {
			break
		}
		p := x.Parent
		cs := cutsAt(p)
		delete(cs, x.Call)
		if instrReach(p.Fn, x.Call, x.Call, cs) && leave(p, s) && enter(p, w) {
			return true
		}
	}
	return false
}

// InLoop tells whether an instruction can execute again without leaving its
// function
func InLoop(in ssa.Instruction) bool { return instrReach(in.Parent(), in, in, nil) }

// Multi tells whether a thread may have several instances
func Multi(t *Ctx) bool {
	for x := t; x != nil && x.Call != nil; x = x.Parent {
		if InLoop(x.Call) {
			return true
		}
	}
	return false
}

// InLoopAbove tells whether a frame of thread t that takes elements of a
// slice runs more than once while the slice stays the same
func InLoopAbove(c, t *Ctx, slice *Obj) bool {
	for x := c; x != nil && x != t && x.Parent != nil; x = x.Parent {
		if _, ok := x.Call.(*ssa.Go); ok {
			break
		}
		cuts := map[ssa.Instruction]bool{}
		if slice.Kind == KAlloc && slice.Ctx == x.Parent && slice.Site != nil {
			cuts[slice.Site] = true
		}
		if instrReach(x.Call.Parent(), x.Call, x.Call, cuts) {
			return true
		}
	}
	return false
}
