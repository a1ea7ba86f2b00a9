// Package psim is a path-sensitive typestate analysis (property simulation):
// an abstract interpretation of one root and everything it calls, over a
// finite domain of small facts (constants, nil-ness, intervals of integers
// relative to unknowns), that keeps the states of different paths apart and
// follows the branches the facts decide. Clients attach events to instructions
// and keep small counters in the state.
package psim

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"gsa/pta"

	"golang.org/x/tools/go/ssa"
)

// Kind of an abstract value
type Kind uint8

// The kinds
const (
	Sym Kind = iota // an unknown, plus an integer offset
	Int
	Bool
	Nil
	Cmp // comparison of two values
	Not
	Addr // address of a cell: base and path
	Str
	Box // a non-nil interface holding a value
)

// Val is an abstract value
type Val struct {
	K    Kind
	S    string
	N    int64
	P    string // path of an address
	Op   token.Token
	A, B *Val
}

func (v Val) String() string {
	switch v.K {
	case Sym:
		if v.N != 0 {
			return v.S + fmt.Sprintf("%+d", v.N)
		}
		return v.S
	case Int:
		return strconv.FormatInt(v.N, 10)
	case Bool:
		return map[int64]string{0: "false", 1: "true"}[v.N]
	case Nil:
		return "nil"
	case Cmp:
		return "(" + v.A.String() + v.Op.String() + v.B.String() + ")"
	case Not:
		return "!" + v.A.String()
	case Addr:
		return "&" + v.S + "|" + v.P
	case Str:
		return strconv.Quote(v.S)
	case Box:
		return "box(" + v.A.String() + ")"
	}
	return "?"
}

// SymV makes an unknown
func SymV(s string) Val { return Val{K: Sym, S: s} }

// IntV makes a constant
func IntV(n int64) Val { return Val{K: Int, N: n} }

// BoolV makes a truth value
func BoolV(b bool) Val {
	if b {
		return Val{K: Bool, N: 1}
	}
	return Val{K: Bool}
}

// NilV is nil
var NilV = Val{K: Nil}

// Con is what is known of an unknown
type Con struct {
	HasLo, HasHi bool
	Lo, Hi       int64
	NilK         int8 // 1 nil, 2 not nil
	BoolK        int8 // 1 false, 2 true
	Ne           []int64
	StrEq        string // "=text" once known to equal a string
}

// VK is a value in a context
type VK struct {
	C *pta.Ctx
	V ssa.Value
}

// State of the analysis at a point
type State struct {
	Env    map[VK]Val
	Cell   map[string]Val
	Con    map[string]Con
	Rel    map[string]bool // facts about two unknowns that branches decided
	U      map[string]int  // the client's counters
	Defers []DeferRec
}

// DeferRec is a deferred call
type DeferRec struct {
	C *pta.Ctx
	D *ssa.Defer
}

// NewState is an empty state
func NewState() *State {
	return &State{Env: map[VK]Val{}, Cell: map[string]Val{}, Con: map[string]Con{}, Rel: map[string]bool{}, U: map[string]int{}}
}

// Clone copies a state
func (s *State) Clone() *State {
	n := &State{Env: make(map[VK]Val, len(s.Env)), Cell: make(map[string]Val, len(s.Cell)), Con: make(map[string]Con, len(s.Con)), Rel: make(map[string]bool, len(s.Rel)), U: make(map[string]int, len(s.U))}
	for k, v := range s.Env {
		n.Env[k] = v
	}
	for k, v := range s.Cell {
		n.Cell[k] = v
	}
	for k, v := range s.Con {
		n.Con[k] = v
	}
	for k, v := range s.Rel {
		n.Rel[k] = v
	}
	for k, v := range s.U {
		n.U[k] = v
	}
	n.Defers = append([]DeferRec(nil), s.Defers...)
	return n
}

// Alt is one outcome of a call
type Alt struct {
	Res []Val
	Do  func(s *State)
}

// Sim is one run
type Sim struct {
	A       *pta.An
	MaxSt   int
	steps   int
	seen    map[string]bool
	merged  map[string]*State
	parts   map[string]int
	Merge   bool // join the states of a point that agree on the counters (and on constants when Ints is set)
	work    []item
	Ints    bool // follow integers
	Over    bool // the budget was exceeded
	Unk     map[string]bool
	visits  map[string]map[string]bool
	live    map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	callIdx map[callKey][]*pta.Ctx
	Names   map[string]VK // the value an unknown stands for

	// Value may give a value a meaning of its own
	Value func(s *State, c *pta.Ctx, v ssa.Value) (Val, bool)
	// Event is called before an instruction takes effect; returning false
	// drops the path. For a select it is called once per case with that index.
	Event func(s *State, c *pta.Ctx, in ssa.Instruction, sel int) bool
	// Call may give a call a result of its own (handled) or stop the path
	Call func(s *State, c *pta.Ctx, in ssa.CallInstruction) (res []Val, handled, dead bool)
	// Alts gives a call several possible outcomes of its own; nil leaves it alone
	Alts func(s *State, c *pta.Ctx, in ssa.CallInstruction) []Alt
	// GoCalls follows the functions started by go statements as paths of their own
	GoCalls bool
	// Coarse keeps no facts about pairs of unknowns and no distances from unknowns around loops
	Coarse bool
	// Strings follows texts, products and lengths built from known and unknown parts
	Strings bool
	// KeepCell tells which memory unknown callees cannot change
	KeepCell func(k string) bool
	// Stop tells whether the analysis ends before an instruction
	Stop func(s *State, c *pta.Ctx, in ssa.Instruction) bool
	// Exit is called when the root (or a goroutine) returns or panics
	Exit func(s *State, c *pta.Ctx, in ssa.Instruction, panics bool)
	// Branch is called when a path takes one side of a condition
	Branch func(s *State, c *pta.Ctx, in *ssa.If, taken bool) bool
	// Opaque keeps a callee from being entered
	Opaque func(c *pta.Ctx) bool
	// Head tells which loops the client follows round by round: their variables
	// keep their values, those of other loops are given up when they change
	Head func(c *pta.Ctx, b *ssa.BasicBlock) bool
	// Result may replace the results of a call that returns
	Result func(s *State, c *pta.Ctx, call *ssa.Call, rs []Val) []Val
	// Keep tells which facts outlive the values they are about
	Keep func(name string) bool
}

// DebugKeys is a development hook
var DebugKeys func(pos, control, key string)

type callKey struct {
	c  *pta.Ctx
	in ssa.Instruction
}

type item struct {
	c *pta.Ctx
	b *ssa.BasicBlock
	i int
	s *State
}

// New prepares a run
func New(a *pta.An) *Sim {
	return &Sim{A: a, MaxSt: 60000, seen: map[string]bool{}, merged: map[string]*State{}, parts: map[string]int{}, visits: map[string]map[string]bool{}, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, Names: map[string]VK{}, Ints: true, Unk: map[string]bool{}}
}

func vname(v ssa.Value) string {
	if v.Parent() != nil {
		return v.Parent().Name() + "." + v.Name()
	}
	return v.Name()
}

// SymOf names the unknown a value stands for
func SymOf(c *pta.Ctx, v ssa.Value) string {
	id := 0
	if c != nil {
		id = c.ID
	}
	return strconv.Itoa(id) + ":" + vname(v)
}

// Eval gives the abstract value of an SSA value
func (m *Sim) Eval(s *State, c *pta.Ctx, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
				return IntV(0)
			}
			return NilV
		}
		switch x.Value.Kind() {
		case constant.Int:
			if n, ok := constant.Int64Val(x.Value); ok {
				if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					return IntV(n)
				}
			}
		case constant.Bool:
			return BoolV(constant.BoolVal(x.Value))
		case constant.String:
			return Val{K: Str, S: constant.StringVal(x.Value)}
		}
		return SymV("const:" + x.Value.String())
	case *ssa.Function:
		return SymV("func:" + x.String())
	case *ssa.Global:
		return Val{K: Addr, S: "global:" + x.String()}
	case *ssa.Builtin:
		return SymV("builtin")
	case *ssa.Alloc:
		return Val{K: Addr, S: SymOf(c, v)}
	}
	if r, ok := s.Env[VK{c, v}]; ok {
		return r
	}
	n := SymOf(c, v)
	m.Names[n] = VK{c, v}
	return SymV(n)
}

// IsTerm tells whether a name is a term that a client builds: the unknowns it
// is about stand in it between « and »
func IsTerm(n string) bool { return strings.HasPrefix(n, "t:") }

// Tok writes a value for use inside a term
func Tok(v Val) string {
	if v.K == Sym && IsTerm(v.S) && v.N == 0 {
		return v.S[2:]
	}
	if v.K == Sym && v.N != 0 {
		return "«" + v.S + "»" + fmt.Sprintf("%+d", v.N)
	}
	switch v.K {
	case Sym:
		return "«" + v.S + "»"
	case Addr:
		return "«" + v.S + "»|" + v.P
	case Not:
		return "!" + Tok(*v.A)
	}
	return v.String()
}

func (s *State) mentions(name string, except VK) bool {
	var in func(v Val) bool
	in = func(v Val) bool {
		if (v.K == Sym || v.K == Addr) && (v.S == name || IsTerm(v.S) && strings.Contains(v.S, "«"+name+"»")) {
			return true
		}
		return v.A != nil && in(*v.A) || v.B != nil && in(*v.B)
	}
	for k, v := range s.Env {
		if k != except && in(v) {
			return true
		}
	}
	for _, v := range s.Cell {
		if in(v) {
			return true
		}
	}
	return false
}

func substVal(v Val, a, b string) Val {
	if v.K == Sym || v.K == Addr {
		if v.S == a {
			v.S = b
		} else if IsTerm(v.S) {
			v.S = strings.ReplaceAll(v.S, "«"+a+"»", "«"+b+"»")
		}
	}
	if v.A != nil {
		x := substVal(*v.A, a, b)
		v.A = &x
	}
	if v.B != nil {
		x := substVal(*v.B, a, b)
		v.B = &x
	}
	return v
}

// Fresh makes the unknown of an instruction new: what still refers to the
// earlier one is renamed
func (m *Sim) Fresh(s *State, name string, self VK) {
	if s.mentions(name, self) {
		old := name + "'"
		if s.mentions(old, VK{}) || name[len(name)-1] == '\'' {
			// forget the older one
			m.forget(s, old)
		}
		for k, v := range s.Env {
			s.Env[k] = substVal(v, name, old)
		}
		for k, v := range s.Cell {
			nv := substVal(v, name, old)
			if strings.HasPrefix(k, name+"|") {
				delete(s.Cell, k)
				s.Cell[old+k[len(name):]] = nv
			} else {
				s.Cell[k] = nv
			}
		}
		if cn, ok := s.Con[name]; ok {
			s.Con[old] = cn
		}
		tok, otok := "«"+name+"»", "«"+old+"»"
		for k, v := range s.Con {
			if IsTerm(k) && strings.Contains(k, tok) {
				delete(s.Con, k)
				s.Con[strings.ReplaceAll(k, tok, otok)] = v
			}
		}
		for k, v := range s.Cell {
			if IsTerm(k) && strings.Contains(k, tok) {
				delete(s.Cell, k)
				s.Cell[strings.ReplaceAll(k, tok, otok)] = v
			}
		}
	} else {
		tok := "«" + name + "»"
		for k := range s.Con {
			if IsTerm(k) && strings.Contains(k, tok) {
				delete(s.Con, k)
			}
		}
		for k := range s.Cell {
			if IsTerm(k) && strings.Contains(k, tok) {
				delete(s.Cell, k)
			}
		}
		for k := range s.Cell {
			if strings.HasPrefix(k, name+"|") {
				delete(s.Cell, k)
			}
		}
	}
	delete(s.Con, name)
	for r := range s.Rel {
		if strings.Contains(r, name) {
			delete(s.Rel, r)
		}
	}
}

func (m *Sim) forget(s *State, name string) {
	for k, v := range s.Env {
		if (&State{Env: map[VK]Val{k: v}}).mentions(name, VK{}) {
			delete(s.Env, k)
		}
	}
	for k, v := range s.Cell {
		if strings.HasPrefix(k, name+"|") || (&State{Cell: map[string]Val{k: v}}).mentions(name, VK{}) {
			delete(s.Cell, k)
		}
	}
	delete(s.Con, name)
	for k := range s.Con {
		if IsTerm(k) && strings.Contains(k, "«"+name+"»") {
			delete(s.Con, k)
		}
	}
	for k := range s.Cell {
		if IsTerm(k) && strings.Contains(k, "«"+name+"»") {
			delete(s.Cell, k)
		}
	}
	for k := range s.Rel {
		if strings.Contains(k, name) {
			delete(s.Rel, k)
		}
	}
}

// Set binds a value
func (m *Sim) Set(s *State, c *pta.Ctx, v ssa.Value, x Val) { s.Env[VK{c, v}] = x }

// Unknown makes a value unknown
func (m *Sim) Unknown(s *State, c *pta.Ctx, v ssa.Value) Val { return m.unknown(s, c, v) }

func (m *Sim) unknown(s *State, c *pta.Ctx, v ssa.Value) Val {
	n := SymOf(c, v)
	k := VK{c, v}
	m.Names[n] = k
	m.Fresh(s, n, k)
	delete(s.Env, k)
	return SymV(n)
}

// key canonicalises a state
func (s *State) key() string {
	var l []string
	for k, v := range s.Env {
		l = append(l, "e"+SymOf(k.C, k.V)+"="+v.String())
	}
	for k, v := range s.Cell {
		l = append(l, "c"+k+"="+v.String())
	}
	for k, v := range s.Con {
		l = append(l, fmt.Sprintf("k%s=%v", k, v))
	}
	for k := range s.Rel {
		l = append(l, "r"+k)
	}
	for k, v := range s.U {
		if v != 0 {
			l = append(l, "u"+k+"="+strconv.Itoa(v))
		}
	}
	for _, d := range s.Defers {
		l = append(l, fmt.Sprintf("d%d.%p", d.C.ID, d.D))
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

// gc drops what no later instruction of the context chain can use
func (m *Sim) gc(s *State, c *pta.Ctx, b *ssa.BasicBlock) {
	liveIn := m.liveness(c.Fn)[b]
	for k := range s.Env {
		if k.C == c && !liveIn[k.V] {
			delete(s.Env, k)
		}
	}
	used := map[string]bool{}
	var in func(v Val)
	in = func(v Val) {
		if v.K == Sym || v.K == Addr {
			used[v.S] = true
		}
		if v.A != nil {
			in(*v.A)
		}
		if v.B != nil {
			in(*v.B)
		}
	}
	for _, v := range s.Env {
		in(v)
	}
	for _, v := range s.Cell {
		in(v)
	}
	for v := range liveIn {
		used[SymOf(c, v)] = true
	}
	for x := c; x.Parent != nil && x.Call != nil; x = x.Parent {
		if _, ok := x.Call.(*ssa.Go); ok {
			break
		}
		lv := m.liveness(x.Parent.Fn)
		for v := range lv[x.Call.Block()] {
			used[SymOf(x.Parent, v)] = true
		}
		for _, i := range x.Call.Block().Instrs {
			if v, ok := i.(ssa.Value); ok {
				used[SymOf(x.Parent, v)] = true
			}
		}
	}
	base := func(k string) string {
		if strings.HasPrefix(k, "len:") {
			k = k[4:]
		}
		if i := strings.IndexAny(k, "|#"); i >= 0 {
			k = k[:i]
		}
		return k
	}
	for k := range s.Con {
		if (m.Keep == nil || !m.Keep(k)) && !used[k] && !used[base(k)] && !used["len:"+k] {
			delete(s.Con, k)
		}
	}
}

func (m *Sim) liveness(f *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if r := m.live[f]; r != nil {
		return r
	}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			l := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s] {
					l[v] = true
				}
				for _, p := range s.Instrs {
					ph, ok := p.(*ssa.Phi)
					if !ok {
						break
					}
					delete(l, ph)
				}
			}
			for _, s := range b.Succs {
				for _, p := range s.Instrs {
					ph, ok := p.(*ssa.Phi)
					if !ok {
						break
					}
					for j, pr := range s.Preds {
						if pr == b {
							l[ph.Edges[j]] = true
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if v, ok := ins.(ssa.Value); ok {
					if _, isPhi := ins.(*ssa.Phi); !isPhi {
						delete(l, v)
					}
				}
				if _, isPhi := ins.(*ssa.Phi); isPhi {
					// live in through the edge: the phi itself counts as defined here
					l[ins.(ssa.Value)] = true
					continue
				}
				var ops [12]*ssa.Value
				for _, o := range ins.Operands(ops[:0]) {
					if *o != nil {
						l[*o] = true
					}
				}
				if _, ok := ins.(*ssa.RunDefers); ok {
					for _, bb := range f.Blocks {
						for _, d := range bb.Instrs {
							if _, ok := d.(*ssa.Defer); ok {
								for _, o := range d.Operands(ops[:0]) {
									if *o != nil {
										l[*o] = true
									}
								}
							}
						}
					}
				}
			}
			for v := range l {
				if !in[b][v] {
					in[b][v] = true
					ch = true
				}
			}
		}
	}
	m.live[f] = in
	return in
}

// Run follows all paths from a point
func (m *Sim) Run(p pta.Point, s *State) {
	m.callIdx = map[callKey][]*pta.Ctx{}
	for _, cx := range m.A.CtxList() {
		if cx.Parent != nil {
			k := callKey{cx.Parent, cx.Call}
			m.callIdx[k] = append(m.callIdx[k], cx)
		}
	}
	b := p.Ctx.Fn.Blocks[0]
	i := 0
	if p.Instr != nil {
		b = p.Instr.Block()
		for j, x := range b.Instrs {
			if x == p.Instr {
				i = j
			}
		}
	}
	m.push(item{p.Ctx, b, i, s})
	for len(m.work) > 0 {
		it := m.work[len(m.work)-1]
		m.work = m.work[:len(m.work)-1]
		m.steps++
		if m.steps > m.MaxSt {
			m.Over = true
			return
		}
		m.block(it)
	}
}

// Steps counts the abstract states explored
func (m *Sim) Steps() int { return m.steps }

func (m *Sim) push(it item) {
	if it.i == 0 {
		m.gc(it.s, it.c, it.b)
	}
	pos := fmt.Sprintf("%d/%s/%d/%d/", it.c.ID, it.c.Fn.Name(), it.b.Index, it.i)
	if m.Merge && len(it.b.Preds) > 1 && it.i <= nphi(it.b) {
		mk := pos + it.s.control(m.Ints)
		if m.Ints && m.merged[mk] == nil {
			lk := pos + it.s.control(false)
			if m.parts[lk] >= 20 {
				mk = lk + "/all"
			} else {
				m.parts[lk]++
			}
		}
		if old := m.merged[mk]; old != nil {
			it.s = m.join(old, it.s, fmt.Sprintf("j%d.%d:", it.c.ID, it.b.Index))
		}
		m.merged[mk] = it.s.Clone()
	}
	k := pos + it.s.key()
	if m.seen[k] {
		return
	}
	m.seen[k] = true
	if DebugKeys != nil {
		DebugKeys(pos, it.s.control(m.Ints), k)
	}
	m.work = append(m.work, it)
}

func nphi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

// jump enters a successor block
func (m *Sim) jump(s *State, c *pta.Ctx, from, to *ssa.BasicBlock) {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	loop := false
	for _, p := range to.Preds {
		loop = loop || to.Dominates(p)
	}
	if m.Head != nil && m.Head(c, to) {
		loop = false
	}
	back := loop && m.Head != nil && to.Dominates(from)
	type upd struct {
		ph *ssa.Phi
		v  Val
	}
	var us []upd
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		us = append(us, upd{ph, m.Eval(s, c, ph.Edges[pi])})
	}
	for _, u := range us {
		n := SymOf(c, u.ph)
		k := VK{c, u.ph}
		self := u.v.K == Sym && u.v.S == n
		if self && u.v.N == 0 {
			continue
		}
		v := m.widen(n, u.v, loop)
		if back && v.K == Sym && IsTerm(v.S) {
			v = SymV(n)
		}
		if v.K == Sym && v.S == n && !self {
			// widened
			m.Fresh(s, n, k)
			delete(s.Env, k)
			continue
		}
		s.Env[k] = v
	}
	if loop && !m.Coarse && to.Dominates(from) {
		// numbers kept in local variables in memory
		var ks []string
		for k, v := range s.Cell {
			if strings.HasSuffix(k, "|") && (v.K == Int || v.K == Sym && v.N != 0) {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			n := fmt.Sprintf("loop%d.%d:%s", c.ID, to.Index, k[:len(k)-1])
			v := s.Cell[k]
			if w := m.widen(n, v, true); w.K == Sym && w.S == n && w.N == 0 {
				delete(s.Cell, k)
				m.Fresh(s, n, VK{})
				s.Cell[k] = w
			}
		}
	}
	m.push(item{c, to, len(us), s})
}

// widen keeps a phi from taking more than a few different numbers
func (m *Sim) widen(n string, v Val, loop bool) Val {
	if v.K != Int && !(v.K == Sym && v.N != 0) {
		return v
	}
	if m.Coarse {
		if loop {
			return SymV(n)
		}
		return v
	}
	if !m.Ints && v.K == Int {
		return SymV(n)
	}
	vs := m.visits[n]
	if vs == nil {
		vs = map[string]bool{}
		m.visits[n] = vs
	}
	if !vs[v.String()] && len(vs) > 12 {
		return SymV(n)
	}
	vs[v.String()] = true
	return v
}

func (m *Sim) block(it item) {
	s, c := it.s, it.c
	for i := it.i; i < len(it.b.Instrs); i++ {
		in := it.b.Instrs[i]
		if m.Stop != nil && m.Stop(s, c, in) {
			return
		}
		switch x := in.(type) {
		case *ssa.Select:
			n := len(x.States)
			for k := 0; k < n; k++ {
				s2 := s.Clone()
				if m.Event != nil && !m.Event(s2, c, in, k) {
					continue
				}
				m.freshTuple(s2, c, x)
				s2.Cell[SymOf(c, x)+"#0"] = IntV(int64(k))
				m.push(item{c, it.b, i + 1, s2})
			}
			if !x.Blocking {
				s2 := s.Clone()
				if m.Event == nil || m.Event(s2, c, in, -1) {
					m.freshTuple(s2, c, x)
					s2.Cell[SymOf(c, x)+"#0"] = IntV(-1)
					m.push(item{c, it.b, i + 1, s2})
				}
			}
			return
		case *ssa.If:
			cond := m.Eval(s, c, x.Cond)
			for k, succ := range it.b.Succs {
				s2 := s.Clone()
				if !m.Assume(s2, cond, k == 0) {
					continue
				}
				if m.Branch != nil && !m.Branch(s2, c, x, k == 0) {
					continue
				}
				m.jump(s2, c, it.b, succ)
			}
			return
		case *ssa.Jump:
			m.jump(s, c, it.b, it.b.Succs[0])
			return
		case *ssa.Return:
			if m.Event != nil && !m.Event(s, c, in, -1) {
				return
			}
			m.ret(s, c, x)
			return
		case *ssa.Panic:
			if m.Event != nil && !m.Event(s, c, in, -1) {
				return
			}
			if m.Exit != nil {
				m.Exit(s, c, in, true)
			}
			return
		case ssa.CallInstruction:
			if m.Event != nil && !m.Event(s, c, in, -1) {
				return
			}
			switch d := x.(type) {
			case *ssa.Go:
				if m.GoCalls {
					m.call(s.Clone(), c, x, nil, it.b, i)
				}
				continue
			case *ssa.Defer:
				s.Defers = append(s.Defers, DeferRec{c, d})
				continue
			}
			if m.alts(s, c, x, x.(*ssa.Call), it.b, i+1) {
				return
			}
			if !m.call(s, c, x, x.(*ssa.Call), it.b, i) {
				return
			}
		case *ssa.RunDefers:
			// run the last deferred call of this frame, then come back here
			j := -1
			for k := len(s.Defers) - 1; k >= 0; k-- {
				if s.Defers[k].C == c {
					j = k
					break
				}
			}
			if j < 0 {
				continue
			}
			d := s.Defers[j].D
			s.Defers = append(append([]DeferRec(nil), s.Defers[:j]...), s.Defers[j+1:]...)
			if m.Event != nil && !m.Event(s, c, deferred{d}.Defer, -2) {
				return
			}
			if m.alts(s, c, d, nil, it.b, i) {
				return
			}
			if m.call(s, c, d, nil, it.b, i-1) {
				m.push(item{c, it.b, i, s})
			}
			return
		default:
			if m.Event != nil && !m.Event(s, c, in, -1) {
				return
			}
			m.simple(s, c, in)
		}
	}
}

type deferred struct{ *ssa.Defer }

func (m *Sim) freshTuple(s *State, c *pta.Ctx, v ssa.Value) {
	n := SymOf(c, v)
	for k := range s.Cell {
		if strings.HasPrefix(k, n+"#") {
			delete(s.Cell, k)
		}
	}
	tu, ok := v.Type().(*types.Tuple)
	if !ok {
		m.Fresh(s, n, VK{c, v})
		return
	}
	for i := 0; i < tu.Len(); i++ {
		m.Fresh(s, n+"#"+strconv.Itoa(i), VK{})
	}
}

// ret continues after the call that a frame returns to
func (m *Sim) ret(s *State, c *pta.Ctx, x *ssa.Return) {
	var rs []Val
	for _, r := range x.Results {
		rs = append(rs, m.Eval(s, c, r))
	}
	_, isGo := c.Call.(*ssa.Go)
	if c.Parent == nil || isGo || c.Call == nil {
		if m.Exit != nil {
			m.Exit(s, c, x, false)
		}
		return
	}
	// the values of the frame are gone
	for k := range s.Env {
		if k.C == c {
			delete(s.Env, k)
		}
	}
	p := c.Parent
	b := c.Call.Block()
	i := -1
	for j, y := range b.Instrs {
		if y == c.Call {
			i = j
		}
	}
	if _, ok := c.Call.(*ssa.Defer); ok {
		// back to the deferred calls
		for _, bb := range p.Fn.Blocks {
			for j, y := range bb.Instrs {
				if _, ok := y.(*ssa.RunDefers); ok && s.U["rd:"+strconv.Itoa(p.ID)] == bb.Index+1 {
					m.push(item{p, bb, j, s})
				}
			}
		}
		return
	}
	if cv, ok := c.Call.(*ssa.Call); ok {
		if m.Result != nil {
			rs = m.Result(s, c, cv, rs)
		}
		m.bind(s, p, cv, rs)
	}
	m.push(item{p, b, i + 1, s})
}

func (m *Sim) bind(s *State, c *pta.Ctx, cv *ssa.Call, rs []Val) {
	if len(rs) == 1 && rs[0].K == Sym && rs[0].S == SymOf(c, cv) && rs[0].N == 0 {
		// the client made the unknown
		delete(s.Env, VK{c, cv})
		return
	}
	m.freshTuple(s, c, cv)
	if len(rs) == 1 {
		s.Env[VK{c, cv}] = rs[0]
		return
	}
	for i, r := range rs {
		s.Cell[SymOf(c, cv)+"#"+strconv.Itoa(i)] = r
	}
}

// call enters the callees of a call; it reports whether the caller goes on
// with an opaque result
func (m *Sim) call(s *State, c *pta.Ctx, in ssa.CallInstruction, cv *ssa.Call, b *ssa.BasicBlock, i int) bool {
	if m.Call != nil {
		if rs, handled, dead := m.Call(s, c, in); dead {
			if m.Exit != nil {
				m.Exit(s, c, in, true)
			}
			return false
		} else if handled {
			if cv != nil {
				m.bind(s, c, cv, rs)
			}
			return true
		}
	}
	cc := in.Common()
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		if cv != nil {
			m.builtin(s, c, bi.Name(), cv)
		}
		return true
	}
	if NoReturn(cc) {
		if m.Exit != nil {
			m.Exit(s, c, in, true)
		}
		return false
	}
	ctxs := m.callIdx[callKey{c, in}]
	var enter []*pta.Ctx
	st := cc.StaticCallee()
	for _, x := range ctxs {
		if st != nil && x.Fn != st {
			continue // a callback of foreign code
		}
		if len(x.Fn.Blocks) == 0 || m.Opaque != nil && m.Opaque(x) {
			continue
		}
		enter = append(enter, x)
	}
	if len(enter) == 0 {
		m.clobber(s, c, cc)
		if cv != nil {
			m.freshTuple(s, c, cv)
			delete(s.Env, VK{c, cv})
		}
		return true
	}
	for _, x := range enter {
		s2 := s.Clone()
		args := cc.Args
		var vals []Val
		if cc.IsInvoke() {
			vals = append(vals, m.Eval(s, c, cc.Value))
		}
		for _, a := range args {
			vals = append(vals, m.Eval(s, c, a))
		}
		for k, p := range x.Fn.Params {
			if k < len(vals) {
				v := vals[k]
				if v.K == Box && !types.IsInterface(p.Type()) {
					v = *v.A
				}
				s2.Env[VK{x, p}] = v
			}
		}
		m.bindFree(s, s2, c, cc.Value, x)
		if _, ok := in.(*ssa.Defer); ok {
			s2.U["rd:"+strconv.Itoa(c.ID)] = b.Index + 1
		}
		m.push(item{x, x.Fn.Blocks[0], 0, s2})
	}
	return false
}

// alts continues once per outcome the client gives a call
func (m *Sim) alts(s *State, c *pta.Ctx, in ssa.CallInstruction, cv *ssa.Call, b *ssa.BasicBlock, next int) bool {
	if m.Alts == nil {
		return false
	}
	as := m.Alts(s, c, in)
	if as == nil {
		return false
	}
	m.clobber(s, c, in.Common())
	for _, a := range as {
		s2 := s.Clone()
		if cv != nil {
			m.bind(s2, c, cv, a.Res)
		}
		if a.Do != nil {
			a.Do(s2)
		}
		m.push(item{c, b, next, s2})
	}
	return true
}

// bindFree gives a closure's free variables the values bound when it was made
func (m *Sim) bindFree(s, s2 *State, c *pta.Ctx, f ssa.Value, x *pta.Ctx) {
	if len(x.Fn.FreeVars) == 0 {
		return
	}
	// the frame in which the closure was made is an ancestor
	for p := x.Parent; p != nil; p = p.Parent {
		if p.Fn != x.Fn.Parent() {
			continue
		}
		for _, bl := range p.Fn.Blocks {
			for _, in := range bl.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == x.Fn {
					for k, fv := range x.Fn.FreeVars {
						s2.Env[VK{x, fv}] = m.Eval(s, p, mc.Bindings[k])
					}
				}
			}
		}
		return
	}
}

// NoReturn tells whether a call ends the program or panics
func NoReturn(cc *ssa.CallCommon) bool {
	f := cc.StaticCallee()
	if f == nil || f.Object() == nil || f.Object().Pkg() == nil {
		return false
	}
	switch f.Object().Pkg().Path() + "." + f.Name() {
	case "os.Exit", "runtime.Goexit", "syscall.Exit",
		"log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln":
		return true
	}
	return false
}

// clobber forgets what an unknown callee may change
func (m *Sim) clobber(s *State, c *pta.Ctx, cc *ssa.CallCommon) {
	reach := map[string]bool{}
	mark := func(v Val) {
		for {
			if v.K == Box {
				v = *v.A
				continue
			}
			break
		}
		if v.K == Addr || v.K == Sym {
			reach[v.S] = true
		}
	}
	for _, a := range cc.Args {
		if pureArg(a.Type()) {
			continue
		}
		mark(m.Eval(s, c, a))
	}
	if cc.IsInvoke() {
		mark(m.Eval(s, c, cc.Value))
	}
	for ch := true; ch; {
		ch = false
		for k, v := range s.Cell {
			i := strings.Index(k, "|")
			if i < 0 || !reach[k[:i]] {
				continue
			}
			for v.K == Box {
				v = *v.A
			}
			if (v.K == Addr || v.K == Sym) && !reach[v.S] {
				reach[v.S] = true
				ch = true
			}
		}
	}
	for k := range s.Cell {
		i := strings.Index(k, "|")
		if i >= 0 && (reach[k[:i]] || strings.HasPrefix(k, "global:")) {
			if m.KeepCell != nil && m.KeepCell(k) {
				continue
			}
			delete(s.Cell, k)
		}
	}
}

func pureArg(t types.Type) bool {
	_, ok := t.Underlying().(*types.Basic)
	return ok
}

func (m *Sim) builtin(s *State, c *pta.Ctx, name string, cv *ssa.Call) {
	switch name {
	case "len", "cap":
		a := cv.Call.Args[0]
		if n, ok := arrayLen(a); ok {
			s.Env[VK{c, cv}] = IntV(n)
			return
		}
		v := m.Eval(s, c, a)
		if v.K == Nil {
			s.Env[VK{c, cv}] = IntV(0)
			return
		}
		if v.K == Str {
			s.Env[VK{c, cv}] = IntV(int64(len(v.S)))
			return
		}
		if l, ok := s.Cell[v.S+"|len"]; ok && m.Strings && v.K == Sym && v.N == 0 {
			s.Env[VK{c, cv}] = l
			return
		}
		if v.K == Sym || v.K == Addr {
			n := "len:" + v.S + v.P
			m.Names[n] = VK{c, cv}
			s.Env[VK{c, cv}] = SymV(n)
			cn := s.Con[n]
			if !cn.HasLo {
				cn.HasLo = true
				s.Con[n] = cn
			}
			return
		}
	}
	m.freshTuple(s, c, cv)
	delete(s.Env, VK{c, cv})
}

// arrayLen is the length of a slice of a whole array
func arrayLen(v ssa.Value) (int64, bool) {
	if sl, ok := v.(*ssa.Slice); ok && sl.Low == nil && sl.High == nil {
		if p, ok := sl.X.Type().Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return a.Len(), true
			}
		}
	}
	if a, ok := v.Type().Underlying().(*types.Array); ok {
		return a.Len(), true
	}
	return 0, false
}

func zero(t types.Type) (Val, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return IntV(0), true
		case u.Info()&types.IsBoolean != 0:
			return BoolV(false), true
		case u.Info()&types.IsString != 0:
			return Val{K: Str}, true
		}
		return SymV("const:0"), true
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return NilV, true
	}
	return Val{}, false
}

// Load reads a cell
func (m *Sim) Load(s *State, a Val, t types.Type, self Val) Val {
	if a.K == Addr {
		k := a.S + "|" + a.P
		if v, ok := s.Cell[k]; ok {
			return v
		}
		if _, ok := s.Cell[a.S+"|zero"]; ok {
			if z, ok := zero(t); ok && !strings.Contains(a.P, "?") {
				return z
			}
		}
		return Val{K: Sym, S: "\x00"}
	}
	return Val{K: Sym, S: "\x00"}
}

func (m *Sim) simple(s *State, c *pta.Ctx, in ssa.Instruction) {
	v, isV := in.(ssa.Value)
	if isV && m.Value != nil {
		if r, ok := m.Value(s, c, v); ok {
			s.Env[VK{c, v}] = r
			return
		}
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		n := SymOf(c, x)
		m.Fresh(s, n, VK{c, x})
		s.Cell[n+"|zero"] = BoolV(true)
		return
	case *ssa.Store:
		if m.copyStruct(s, c, x) {
			return
		}
		if _, ok := x.Val.Type().Underlying().(*types.Struct); ok {
			if v := m.Eval(s, c, x.Val); v.K == Sym {
				m.moveStruct(s, Val{K: Addr, S: v.S}, m.Eval(s, c, x.Addr), x.Val.Type())
				return
			}
		}
		m.store(s, m.Eval(s, c, x.Addr), m.Eval(s, c, x.Val), x.Val.Type())
		return
	case *ssa.Field:
		a := m.Eval(s, c, x.X)
		if a.K == Sym {
			if r, ok := s.Cell[a.S+"|."+strconv.Itoa(x.Field)]; ok {
				s.Env[VK{c, x}] = r
				return
			}
			if _, ok := s.Cell[a.S+"|zero"]; ok {
				if z, ok := zero(x.Type()); ok {
					s.Env[VK{c, x}] = z
					return
				}
			}
		}
	case *ssa.MapUpdate, *ssa.Send, *ssa.DebugRef:
		return
	case *ssa.FieldAddr:
		a := m.Eval(s, c, x.X)
		if a.K == Addr {
			s.Env[VK{c, x}] = Val{K: Addr, S: a.S, P: a.P + "." + strconv.Itoa(x.Field)}
			return
		}
		if a.K == Sym {
			s.Env[VK{c, x}] = Val{K: Addr, S: a.String(), P: "." + strconv.Itoa(x.Field)}
			return
		}
	case *ssa.IndexAddr:
		a, i := m.Eval(s, c, x.X), m.Eval(s, c, x.Index)
		if _, isSl := x.X.Type().Underlying().(*types.Slice); isSl && a.K == Addr && a.P == "" {
			// a slice of a whole array
		}
		if a.K == Sym || a.K == Addr {
			ps := "[?]"
			if i.K == Int {
				ps = "[" + strconv.FormatInt(i.N, 10) + "]"
			}
			bs, pp := a.S, a.P
			if a.K == Sym {
				bs, pp = a.String(), ""
			}
			s.Env[VK{c, x}] = Val{K: Addr, S: bs, P: pp + ps}
			return
		}
	case *ssa.Slice:
		a := m.Eval(s, c, x.X)
		if x.Low == nil && x.High == nil && a.K == Addr {
			if n, ok := arrayLen(x); ok {
				s.Con["len:"+a.S+a.P] = Con{HasLo: true, HasHi: true, Lo: n, Hi: n}
			}
			s.Env[VK{c, x}] = a
			return
		}
	case *ssa.UnOp:
		a := m.Eval(s, c, x.X)
		switch x.Op {
		case token.MUL:
			r := m.Load(s, a, x.Type(), Val{})
			if _, ok := x.Type().Underlying().(*types.Struct); ok {
				m.loadStruct(s, c, x, a)
				return
			}
			if r.K == Sym && r.S == "\x00" {
				u := m.unknown(s, c, x)
				if a.K == Addr && !strings.Contains(a.P, "?") {
					s.Cell[a.S+"|"+a.P] = u
				}
				return
			}
			s.Env[VK{c, x}] = r
			return
		case token.NOT:
			s.Env[VK{c, x}] = not(a)
			return
		case token.SUB:
			if a.K == Int {
				s.Env[VK{c, x}] = IntV(-a.N)
				return
			}
		case token.ARROW:
			if x.CommaOk {
				m.freshTuple(s, c, x)
				return
			}
		}
	case *ssa.BinOp:
		if r, ok := m.binop(s, x.Op, m.Eval(s, c, x.X), m.Eval(s, c, x.Y), x.X.Type()); ok {
			// the unknown of the instruction itself must not survive inside r
			s.Env[VK{c, x}] = r
			return
		}
	case *ssa.MakeInterface:
		a := m.Eval(s, c, x.X)
		s.Env[VK{c, x}] = Val{K: Box, A: &a, P: x.X.Type().String()}
		return
	case *ssa.ChangeType:
		s.Env[VK{c, x}] = m.Eval(s, c, x.X)
		return
	case *ssa.ChangeInterface:
		s.Env[VK{c, x}] = m.Eval(s, c, x.X)
		return
	case *ssa.Convert:
		f, ok1 := x.X.Type().Underlying().(*types.Basic)
		t, ok2 := x.Type().Underlying().(*types.Basic)
		if ok1 && ok2 && f.Info()&types.IsInteger != 0 && t.Info()&types.IsInteger != 0 {
			s.Env[VK{c, x}] = m.Eval(s, c, x.X)
			return
		}
	case *ssa.Extract:
		k := SymOf(c, x.Tuple) + "#" + strconv.Itoa(x.Index)
		m.Names[k] = VK{c, x}
		if r, ok := s.Cell[k]; ok {
			s.Env[VK{c, x}] = r
			return
		}
		s.Env[VK{c, x}] = SymV(k)
		return
	case *ssa.TypeAssert:
		a := m.Eval(s, c, x.X)
		if !x.CommaOk {
			if a.K == Box && !types.IsInterface(x.AssertedType) {
				s.Env[VK{c, x}] = *a.A
				return
			}
			break
		}
		m.freshTuple(s, c, x)
		return
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeClosure:
		u := m.unknown(s, c, v)
		cn := Con{NilK: 2}
		s.Con[u.S] = cn
		if ms, ok := in.(*ssa.MakeSlice); ok {
			l := m.Eval(s, c, ms.Len)
			if m.Strings {
				s.Cell[u.S+"|len"] = l
			}
			if l.K == Int {
				s.Con["len:"+u.S] = Con{HasLo: true, HasHi: true, Lo: l.N, Hi: l.N}
			}
		}
		return
	case *ssa.Lookup, *ssa.Next:
		if _, ok := v.Type().(*types.Tuple); ok {
			m.freshTuple(s, c, v)
			return
		}
	}
	if isV {
		m.unknown(s, c, v)
	}
}

func not(a Val) Val {
	switch a.K {
	case Bool:
		return Val{K: Bool, N: 1 - a.N}
	case Not:
		return *a.A
	}
	return Val{K: Not, A: &a}
}

func (m *Sim) binop(s *State, op token.Token, a, b Val, t types.Type) (Val, bool) {
	isInt := false
	if bt, ok := t.Underlying().(*types.Basic); ok {
		isInt = bt.Info()&types.IsInteger != 0
	}
	switch op {
	case token.ADD:
		if bt, ok := t.Underlying().(*types.Basic); ok && m.Strings && bt.Info()&types.IsString != 0 {
			return Cat(a, b), true
		}
		if !isInt {
			break
		}
		if a.K == Int && b.K == Int {
			return IntV(a.N + b.N), true
		}
		if a.K == Sym && b.K == Int {
			return Val{K: Sym, S: a.S, N: a.N + b.N}, true
		}
		if a.K == Int && b.K == Sym {
			return Val{K: Sym, S: b.S, N: a.N + b.N}, true
		}
	case token.SUB:
		if !isInt {
			break
		}
		if a.K == Int && b.K == Int {
			return IntV(a.N - b.N), true
		}
		if a.K == Sym && b.K == Int {
			return Val{K: Sym, S: a.S, N: a.N - b.N}, true
		}
	case token.MUL:
		if isInt && a.K == Int && b.K == Int {
			return IntV(a.N * b.N), true
		}
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		r := Val{K: Cmp, Op: op, A: &a, B: &b}
		if isInt || op == token.EQL || op == token.NEQ {
			if d, ok := m.Decide(s, r); ok {
				return BoolV(d), true
			}
		}
		return r, true
	}
	if m.Strings && (op == token.ADD || op == token.SUB || op == token.MUL || op == token.QUO) && a.K != Nil && b.K != Nil {
		return SymV("(" + a.String() + op.String() + b.String() + ")"), true
	}
	return Val{}, false
}

// Cat is the concatenation of texts
func Cat(vs ...Val) Val {
	var parts []string
	lit := ""
	flush := func() {
		if lit != "" {
			parts = append(parts, strconv.Quote(lit))
			lit = ""
		}
	}
	for _, v := range vs {
		switch {
		case v.K == Str:
			lit += v.S
		case v.K == Sym && strings.HasPrefix(v.S, "cat("):
			in := v.S[4 : len(v.S)-1]
			for _, p := range strings.Split(in, "\x00") {
				if q, err := strconv.Unquote(p); err == nil {
					lit += q
				} else {
					flush()
					parts = append(parts, p)
				}
			}
		default:
			flush()
			parts = append(parts, v.String())
		}
	}
	if len(parts) == 0 {
		return Val{K: Str, S: lit}
	}
	flush()
	if len(parts) == 1 && lit == "" && len(vs) > 0 {
		for _, v := range vs {
			if v.K == Sym && v.String() == parts[0] {
				return v
			}
		}
	}
	return SymV("cat(" + strings.Join(parts, "\x00") + ")")
}

func (m *Sim) store(s *State, a, v Val, t types.Type) {
	if a.K == Sym {
		a = Val{K: Addr, S: a.String()}
	}
	if a.K != Addr {
		return
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		_ = st
		// a whole struct: forget the parts
		for k := range s.Cell {
			if strings.HasPrefix(k, a.S+"|"+a.P) {
				delete(s.Cell, k)
			}
		}
		if _, ok := s.Cell[a.S+"|zero"]; ok || a.P == "" {
			delete(s.Cell, a.S+"|zero")
		}
		return
	}
	last := a.P
	if i := strings.LastIndexAny(last, ".["); i >= 0 {
		last = last[i:]
	}
	idx := strings.HasPrefix(last, "[")
	for k := range s.Cell {
		i := strings.Index(k, "|")
		if i < 0 {
			continue
		}
		base, p := k[:i], k[i+1:]
		if base == a.S {
			if p == a.P || idx && strings.HasPrefix(p, strings.TrimSuffix(a.P, last)+"[") && (strings.Contains(a.P, "?") || strings.Contains(p, "?")) {
				delete(s.Cell, k)
			}
			continue
		}
		// another base may be the same object unless one of them is a local variable
		if isLocal(s, base) || isLocal(s, a.S) {
			continue
		}
		if strings.HasPrefix(base, "global:") && strings.HasPrefix(a.S, "global:") {
			continue // two variables
		}
		if strings.HasSuffix(p, last) || idx && strings.Contains(p, "[") {
			delete(s.Cell, k)
		}
	}
	if !strings.Contains(a.P, "?") {
		s.Cell[a.S+"|"+a.P] = v
	} else if _, ok := s.Cell[a.S+"|zero"]; ok {
		delete(s.Cell, a.S+"|zero")
	}
}

// loadStruct names the struct read from memory and remembers its known fields
func (m *Sim) loadStruct(s *State, c *pta.Ctx, x *ssa.UnOp, a Val) {
	if a.K == Sym {
		a = Val{K: Addr, S: a.String()}
	}
	u := m.unknown(s, c, x)
	if a.K != Addr || a.S == u.S || strings.Contains(a.P, "?") {
		return
	}
	pre := a.S + "|" + a.P + "."
	vals := map[string]Val{}
	for k, v := range s.Cell {
		if strings.HasPrefix(k, pre) {
			vals[u.S+"|"+k[len(a.S+"|"+a.P):]] = v
		}
	}
	for k, v := range vals {
		s.Cell[k] = v
	}
	if _, z := s.Cell[a.S+"|zero"]; z {
		s.Cell[u.S+"|zero"] = BoolV(true)
	}
}

// moveStruct stores a struct value with its known fields
func (m *Sim) moveStruct(s *State, src, dst Val, t types.Type) {
	if dst.K == Sym {
		dst = Val{K: Addr, S: dst.String()}
	}
	if dst.K != Addr {
		return
	}
	vals := map[string]Val{}
	for k, v := range s.Cell {
		if strings.HasPrefix(k, src.S+"|.") {
			vals[k[len(src.S+"|"):]] = v
		}
	}
	_, z := s.Cell[src.S+"|zero"]
	_, dz := s.Cell[dst.S+"|zero"]
	m.store(s, dst, Val{}, t)
	if strings.Contains(dst.P, "?") {
		return
	}
	for k, v := range vals {
		s.Cell[dst.S+"|"+dst.P+k] = v
	}
	if z && dz && dst.P == "" {
		s.Cell[dst.S+"|zero"] = BoolV(true)
	}
}

// copyStruct copies the known fields of a struct that is loaded and stored at
// once
func (m *Sim) copyStruct(s *State, c *pta.Ctx, x *ssa.Store) bool {
	if _, ok := x.Val.Type().Underlying().(*types.Struct); !ok {
		return false
	}
	ld, ok := x.Val.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL || ld.Block() != x.Block() {
		return false
	}
	on := false
	for _, in := range x.Block().Instrs {
		if in == ssa.Instruction(ld) {
			on = true
			continue
		}
		if in == ssa.Instruction(x) {
			break
		}
		switch in.(type) {
		case *ssa.Store, ssa.CallInstruction, *ssa.Send, *ssa.Select, *ssa.UnOp:
			if on {
				return false
			}
		}
	}
	src, dst := m.Eval(s, c, ld.X), m.Eval(s, c, x.Addr)
	if src.K == Sym {
		src = Val{K: Addr, S: src.String()}
	}
	if dst.K == Sym {
		dst = Val{K: Addr, S: dst.String()}
	}
	if src.K != Addr || dst.K != Addr || strings.Contains(src.P+dst.P, "?") {
		return false
	}
	vals := map[string]Val{}
	for k, v := range s.Cell {
		if strings.HasPrefix(k, src.S+"|"+src.P+".") {
			vals[k[len(src.S+"|"+src.P):]] = v
		}
	}
	_, z := s.Cell[src.S+"|zero"]
	_, dz := s.Cell[dst.S+"|zero"]
	m.store(s, dst, Val{}, x.Val.Type())
	for k, v := range vals {
		s.Cell[dst.S+"|"+dst.P+k] = v
	}
	if z && dz && dst.P == "" {
		s.Cell[dst.S+"|zero"] = BoolV(true)
	}
	return true
}

// isLocal: cells of an Alloc (base names of allocs are symbols with a zero
// marker while their content is known)
func isLocal(s *State, base string) bool {
	if _, ok := s.Cell[base+"|local"]; ok {
		return true
	}
	_, ok := s.Cell[base+"|zero"]
	return ok
}

// interval of a value
func (m *Sim) interval(s *State, v Val) (lo, hi int64, hasLo, hasHi bool) {
	switch v.K {
	case Int:
		return v.N, v.N, true, true
	case Sym:
		c := s.Con[v.S]
		return c.Lo + v.N, c.Hi + v.N, c.HasLo, c.HasHi
	}
	return 0, 0, false, false
}

func relKey(a, b Val) string { return a.String() + " ? " + b.String() }

// Decide decides a comparison if the facts do
func (m *Sim) Decide(s *State, v Val) (bool, bool) {
	switch v.K {
	case Bool:
		return v.N == 1, true
	case Not:
		r, ok := m.Decide(s, *v.A)
		return !r, ok
	case Sym:
		switch s.Con[v.S].BoolK {
		case 1:
			return false, true
		case 2:
			return true, true
		}
		return false, false
	case Cmp:
	default:
		return false, false
	}
	a, b := *v.A, *v.B
	if v.Op == token.EQL || v.Op == token.NEQ {
		eq, ok := m.equal(s, a, b)
		if ok {
			return eq == (v.Op == token.EQL), true
		}
	}
	if a.K == Sym && b.K == Sym && a.S == b.S {
		return cmpInt(v.Op, a.N, b.N), true
	}
	al, ah, hal, hah := m.interval(s, a)
	bl, bh, hbl, hbh := m.interval(s, b)
	switch v.Op {
	case token.LSS:
		if hah && hbl && ah < bl {
			return true, true
		}
		if hal && hbh && al >= bh {
			return false, true
		}
	case token.LEQ:
		if hah && hbl && ah <= bl {
			return true, true
		}
		if hal && hbh && al > bh {
			return false, true
		}
	case token.GTR:
		if hal && hbh && al > bh {
			return true, true
		}
		if hah && hbl && ah <= bl {
			return false, true
		}
	case token.GEQ:
		if hal && hbh && al >= bh {
			return true, true
		}
		if hah && hbl && ah < bl {
			return false, true
		}
	}
	if s.Rel["+"+relStr(v)] {
		return true, true
	}
	if s.Rel["-"+relStr(v)] {
		return false, true
	}
	return false, false
}

// relStr normalises a comparison between two unknowns
func relStr(v Val) string {
	a, b, op := *v.A, *v.B, v.Op
	neg := false
	switch op {
	case token.GTR:
		a, b, op = b, a, token.LSS
	case token.GEQ:
		a, b, op = b, a, token.LEQ
	case token.NEQ:
		op, neg = token.EQL, true
	}
	if op == token.EQL && b.String() < a.String() {
		a, b = b, a
	}
	r := a.String() + op.String() + b.String()
	if neg {
		r = "!" + r
	}
	return r
}

func cmpInt(op token.Token, a, b int64) bool {
	switch op {
	case token.EQL:
		return a == b
	case token.NEQ:
		return a != b
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	}
	return false
}

func (m *Sim) equal(s *State, a, b Val) (bool, bool) {
	if b.K == Nil {
		a, b = b, a
	}
	if a.K == Nil {
		switch b.K {
		case Nil:
			return true, true
		case Addr, Box:
			if b.K == Addr && b.P != "" || b.K == Box {
				return false, true
			}
			return false, true
		case Sym:
			switch s.Con[b.S].NilK {
			case 1:
				return true, true
			case 2:
				return false, true
			}
		}
		return false, false
	}
	if a.K == Bool && b.K == Bool || a.K == Int && b.K == Int {
		return a.N == b.N, true
	}
	if a.K == Str && b.K == Str {
		return a.S == b.S, true
	}
	if a.K == Sym && b.K == Str {
		a, b = b, a
	}
	if a.K == Str && b.K == Sym {
		q := s.Con[b.S].StrEq
		if strings.HasPrefix(q, "=") {
			return q[1:] == a.S, true
		}
		if strings.Contains(q, "!"+a.S+"\x01") {
			return false, true
		}
	}
	if a.K == Sym && b.K == Int {
		a, b = b, a
	}
	if a.K == Int && b.K == Sym {
		c := s.Con[b.S]
		n := a.N - b.N
		if c.HasLo && c.HasHi && c.Lo == c.Hi {
			return n == c.Lo, true
		}
		if c.HasLo && n < c.Lo || c.HasHi && n > c.Hi {
			return false, true
		}
		for _, x := range c.Ne {
			if x == n {
				return false, true
			}
		}
	}
	if a.K == Sym && b.K == Sym && a.S == b.S {
		return a.N == b.N, true
	}
	return false, false
}

// Assume adds the fact that a condition is true (or false); it reports whether
// that is possible
func (m *Sim) Assume(s *State, v Val, truth bool) bool {
	if d, ok := m.Decide(s, v); ok {
		return d == truth
	}
	switch v.K {
	case Not:
		return m.Assume(s, *v.A, !truth)
	case Sym:
		c := s.Con[v.S]
		c.BoolK = 1
		if truth {
			c.BoolK = 2
		}
		s.Con[v.S] = c
		return true
	case Cmp:
	default:
		return true
	}
	op := v.Op
	a, b := *v.A, *v.B
	if !truth {
		switch op {
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		case token.LSS:
			op = token.GEQ
		case token.LEQ:
			op = token.GTR
		case token.GTR:
			op = token.LEQ
		case token.GEQ:
			op = token.LSS
		}
	}
	if op == token.EQL || op == token.NEQ {
		x, y := a, b
		if y.K == Nil || y.K == Str || y.K == Bool {
			x, y = y, x
		}
		if y.K == Sym {
			c := s.Con[y.S]
			switch x.K {
			case Nil:
				c.NilK = 1
				if op == token.NEQ {
					c.NilK = 2
				}
				s.Con[y.S] = c
				return true
			case Bool:
				t := (x.N == 1) == (op == token.EQL)
				c.BoolK = 1
				if t {
					c.BoolK = 2
				}
				s.Con[y.S] = c
				return true
			case Str:
				if op == token.EQL {
					c.StrEq = "=" + x.S
				} else if !strings.HasPrefix(c.StrEq, "=") {
					c.StrEq += "!" + x.S + "\x01"
				}
				s.Con[y.S] = c
				return true
			}
		}
	}
	if !m.Coarse && (op == token.EQL || op == token.NEQ || op == token.LSS || op == token.LEQ || op == token.GTR || op == token.GEQ) {
		s.Rel["+"+relStr(Val{K: Cmp, Op: op, A: &a, B: &b})] = true
		s.Rel["-"+relStr(Val{K: Cmp, Op: negOp(op), A: &a, B: &b})] = true
	}
	m.bound(s, a, op, b)
	m.bound(s, b, swapOp(op), a)
	return true
}

func negOp(op token.Token) token.Token {
	switch op {
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	}
	return token.LSS
}

func swapOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// bound narrows the interval of a
func (m *Sim) bound(s *State, a Val, op token.Token, b Val) {
	if a.K != Sym {
		return
	}
	bl, bh, hbl, hbh := m.interval(s, b)
	c := s.Con[a.S]
	lo := func(n int64) {
		n -= a.N
		if !c.HasLo || n > c.Lo {
			c.HasLo, c.Lo = true, n
		}
	}
	hi := func(n int64) {
		n -= a.N
		if !c.HasHi || n < c.Hi {
			c.HasHi, c.Hi = true, n
		}
	}
	switch op {
	case token.EQL:
		if hbl {
			lo(bl)
		}
		if hbh {
			hi(bh)
		}
	case token.NEQ:
		if hbl && hbh && bl == bh {
			c.Ne = append(append([]int64(nil), c.Ne...), bl-a.N)
			sort.Slice(c.Ne, func(i, j int) bool { return c.Ne[i] < c.Ne[j] })
			if c.HasLo && c.Lo == bl-a.N {
				c.Lo++
			}
			if c.HasHi && c.Hi == bl-a.N {
				c.Hi--
			}
		}
	case token.LSS:
		if hbh {
			hi(bh - 1)
		}
	case token.LEQ:
		if hbh {
			hi(bh)
		}
	case token.GTR:
		if hbl {
			lo(bl + 1)
		}
	case token.GEQ:
		if hbl {
			lo(bl)
		}
	}
	s.Con[a.S] = c
}

// control is the part of a state that keeps it apart from others when states
// are merged
func (s *State) control(ints bool) string {
	var l []string
	for k, v := range s.U {
		if v != 0 {
			l = append(l, "u"+k+"="+strconv.Itoa(v))
		}
	}
	for _, d := range s.Defers {
		l = append(l, fmt.Sprintf("d%d.%p", d.C.ID, d.D))
	}
	for k, v := range s.Env {
		if v.K == Int && ints || v.K == Bool || v.K == Nil {
			l = append(l, "e"+SymOf(k.C, k.V)+"="+v.String())
		}
	}
	for k, v := range s.Cell {
		if v.K == Int && ints || (v.K == Bool || v.K == Nil) && !strings.HasSuffix(k, "|zero") {
			l = append(l, "c"+k+"="+v.String())
		}
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

// join keeps what two states agree on
func (m *Sim) join(a, b *State, tag string) *State {
	r := NewState()
	for k, v := range b.U {
		r.U[k] = v
	}
	r.Defers = append([]DeferRec(nil), b.Defers...)
	var diffE []VK
	var diffC []string
	seen := map[VK]bool{}
	for _, st := range []*State{a, b} {
		for k := range st.Env {
			if seen[k] {
				continue
			}
			seen[k] = true
			va, vb := m.Eval(a, k.C, k.V), m.Eval(b, k.C, k.V)
			if va.String() == vb.String() {
				r.Env[k] = va
			} else {
				diffE = append(diffE, k)
			}
		}
	}
	zeroOf := func(st *State, k string) (Val, bool) {
		if v, ok := st.Cell[k]; ok {
			return v, true
		}
		return Val{}, false
	}
	cells := map[string]bool{}
	for _, st := range []*State{a, b} {
		for k := range st.Cell {
			cells[k] = true
		}
	}
	for k := range cells {
		va, oka := zeroOf(a, k)
		vb, okb := zeroOf(b, k)
		if oka && okb && va.String() == vb.String() {
			r.Cell[k] = va
			continue
		}
		diffC = append(diffC, k)
	}
	sort.Strings(diffC)
	sort.Slice(diffE, func(i, j int) bool { return SymOf(diffE[i].C, diffE[i].V) < SymOf(diffE[j].C, diffE[j].V) })
	names := map[string]bool{}
	var in func(v Val)
	in = func(v Val) {
		if v.K == Sym || v.K == Addr {
			names[v.S] = true
		}
		if v.A != nil {
			in(*v.A)
		}
		if v.B != nil {
			in(*v.B)
		}
	}
	for _, v := range r.Env {
		in(v)
	}
	for _, v := range r.Cell {
		in(v)
	}
	freshName := func(n string) string {
		for names[n] {
			n += "'"
		}
		names[n] = true
		return n
	}
	lost := map[string]bool{}
	for _, k := range diffE {
		n := freshName(tag + SymOf(k.C, k.V))
		lost[n] = true
		r.Env[k] = SymV(n)
	}
	for _, k := range diffC {
		if strings.HasSuffix(k, "|zero") {
			continue
		}
		_, oka := a.Cell[k]
		_, okb := b.Cell[k]
		base := k
		if i := strings.Index(k, "|"); i >= 0 {
			base = k[:i]
		}
		if oka && okb || r.Cell[base+"|zero"].K == Bool {
			n := freshName(tag + k)
			lost[n] = true
			r.Cell[k] = SymV(n)
		}
	}
	for k, ca := range a.Con {
		cb, ok := b.Con[k]
		if !ok || lost[k] {
			continue
		}
		var c Con
		if ca.HasLo && cb.HasLo && ca.Lo == cb.Lo {
			c.HasLo, c.Lo = true, ca.Lo
		}
		if ca.HasHi && cb.HasHi && ca.Hi == cb.Hi {
			c.HasHi, c.Hi = true, ca.Hi
		}
		if ca.NilK == cb.NilK {
			c.NilK = ca.NilK
		}
		if ca.BoolK == cb.BoolK {
			c.BoolK = ca.BoolK
		}
		if ca.StrEq == cb.StrEq {
			c.StrEq = ca.StrEq
		}
		for _, x := range ca.Ne {
			for _, y := range cb.Ne {
				if x == y {
					c.Ne = append(c.Ne, x)
				}
			}
		}
		if fmt.Sprintf("%v", c) != fmt.Sprintf("%v", Con{}) {
			r.Con[k] = c
		}
	}
	for k := range a.Rel {
		if b.Rel[k] {
			bad := false
			for n := range lost {
				if strings.Contains(k, n) {
					bad = true
				}
			}
			if !bad {
				r.Rel[k] = true
			}
		}
	}
	return r
}
