// Package pta is an inclusion-based points-to analysis of the SSA form: field
// sensitive, with full call-string contexts (recursion merged), parameters of
// the analysed root as lazily expanded symbolic objects, and ownership tags on
// pointers received from channels. Nothing is executed; the result is the
// least solution of the inclusion constraints generated from the instructions.
package pta

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Kind of an abstract object
type Kind int

// Object kinds
const (
	KAlloc  Kind = iota // allocated by an instruction of the analysed code
	KParam              // reachable from a parameter of the root
	KGlobal             // package level variable
	KFunc               // function or closure
	KBox                // value inside an interface
	KReg                // SSA register (not memory)
	KExt                // memory owned by a modelled external call
)

// Obj is an abstract object
type Obj struct {
	ID     int
	Kind   Kind
	Ctx    *Ctx
	Site   ssa.Instruction
	Type   types.Type
	Root   int // index of the root parameter (KParam)
	Name   string
	Parent *Obj
	PPath  string // where in Parent
	Fn     *ssa.Function
	Nb     int // bindings of a closure
}

// Via tags a pointer a thread got by receiving it
type Via struct {
	Thread *Ctx
	Chan   *Obj
}

// Loc is a place in an object
type Loc struct {
	O    *Obj
	Path string
	Via  *Via
}

// Ctx is a calling context
type Ctx struct {
	ID     int
	Parent *Ctx
	Call   ssa.Instruction
	Fn     *ssa.Function
	thread *Ctx
	ret    *Obj
}

// Access is one memory access
type Access struct {
	Ctx    *Ctx
	Instr  ssa.Instruction
	Loc    Loc
	Write  bool
	Append bool
}

type nkey struct {
	o *Obj
	p string
}

type node struct {
	key  nkey
	set  map[Loc]bool
	list []Loc
	cbs  []func(Loc)
	seed bool
}

type ekey struct {
	a, b *node
	v    *Via
	t    *Ctx
}

type ckey struct {
	parent *Ctx
	call   ssa.Instruction
	fn     *ssa.Function
}

type okey struct {
	ctx  *Ctx
	site interface{}
	sub  string
}

type work struct {
	n *node
	l Loc
}

// Lock events
type LockEvent struct {
	Ctx   *Ctx
	Instr ssa.CallInstruction
	Op    string
	Loc   Loc
}

// An is one analysis
type An struct {
	Prog    *ssa.Program
	Module  string
	Root    *ssa.Function
	RootCtx *Ctx
	Ctxs    map[ckey]*Ctx
	nodes   map[nkey]*node
	objs    map[okey]*Obj
	Objs    []*Obj
	edges   map[ekey]bool
	Acc     map[string]*Access
	AccList []*Access
	Locks   []LockEvent
	lockSet map[string]bool
	Unknown map[string]bool // external calls handled by the default rule
	vias    map[Via]*Via
	wl      []work
	impls   []types.Type
	Params  []*Obj // parameter registers of the root
	nctx    int
	regs    map[okey]*Obj
	Calls   map[*Ctx]map[ssa.Instruction][]*Ctx
	Steps   int
	Opaque  map[string]bool
	byObj   map[*Obj][]*node
	holders map[*Obj][]Holding
}

// New prepares an analysis
func New(prog *ssa.Program, module string, impls []types.Type) *An {
	return &An{Prog: prog, Module: module, Ctxs: map[ckey]*Ctx{}, nodes: map[nkey]*node{}, objs: map[okey]*Obj{}, edges: map[ekey]bool{},
		Acc: map[string]*Access{}, Unknown: map[string]bool{}, vias: map[Via]*Via{}, impls: impls, regs: map[okey]*Obj{}, lockSet: map[string]bool{},
		Calls: map[*Ctx]map[ssa.Instruction][]*Ctx{}}
}

// Implementers lists the named types of the module with methods
func Implementers(prog *ssa.Program, module string) []types.Type {
	var r []types.Type
	for _, pk := range prog.AllPackages() {
		if pk.Pkg == nil || !InModule(pk.Pkg.Path(), module) {
			continue
		}
		sc := pk.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nm, ok := tn.Type().(*types.Named)
			if !ok || nm.TypeParams().Len() > 0 {
				continue
			}
			if _, ok := nm.Underlying().(*types.Interface); ok {
				continue
			}
			r = append(r, nm)
		}
	}
	return r
}

// InModule tells whether a package belongs to the analysed module
func InModule(path, module string) bool { return path == module || strings.HasPrefix(path, module+"/") }

func (a *An) newObj(k Kind, name string, t types.Type) *Obj {
	o := &Obj{ID: len(a.Objs), Kind: k, Name: name, Type: t, Root: -1}
	a.Objs = append(a.Objs, o)
	return o
}

func (a *An) obj(c *Ctx, site interface{}, sub string, k Kind, t types.Type) *Obj {
	key := okey{c, site, sub}
	if o := a.objs[key]; o != nil {
		return o
	}
	o := a.newObj(k, "", t)
	o.Ctx = c
	if in, ok := site.(ssa.Instruction); ok {
		o.Site = in
	}
	a.objs[key] = o
	return o
}

func (a *An) via(t *Ctx, ch *Obj) *Via {
	v := Via{t, ch}
	if p := a.vias[v]; p != nil {
		return p
	}
	p := &v
	a.vias[v] = p
	return p
}

// pointerLike types carry pointees
func pointerLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

// flat lists the sub paths of pointer-like parts of t
func flat(t types.Type) []string {
	var r []string
	var rec func(t types.Type, p string, d int)
	rec = func(t types.Type, p string, d int) {
		if d > 8 {
			return
		}
		if isMat(t) {
			r = append(r, p+"#data")
			return
		}
		if pointerLike(t) {
			r = append(r, p)
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				rec(u.Field(i).Type(), p+"."+strconv.Itoa(i), d+1)
			}
		case *types.Array:
			rec(u.Elem(), p+"[]", d+1)
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				rec(u.At(i).Type(), p+"#"+strconv.Itoa(i), d+1)
			}
		}
	}
	rec(t, "", 0)
	return r
}

func isMat(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		if al, ok2 := t.(*types.Alias); ok2 {
			return isMat(types.Unalias(al))
		}
		return false
	}
	if n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "gonum.org/v1/gonum/mat" {
		return false
	}
	_, isI := n.Underlying().(*types.Interface)
	return !isI
}

// TypeAt finds the type at a path inside t
func TypeAt(t types.Type, path string) types.Type {
	for path != "" && t != nil {
		j := 1
		if strings.HasPrefix(path, "[") {
			j = strings.Index(path, "]") + 1
		} else {
			for j < len(path) && path[j] != '.' && path[j] != '[' && path[j] != '#' {
				j++
			}
		}
		sel := path[:j]
		path = path[j:]
		switch {
		case sel == "#data":
			return types.NewSlice(types.Typ[types.Float64])
		case sel[0] == '.':
			i, _ := strconv.Atoi(sel[1:])
			st, ok := t.Underlying().(*types.Struct)
			if !ok || i >= st.NumFields() {
				return nil
			}
			t = st.Field(i).Type()
		case sel == "[]":
			switch u := t.Underlying().(type) {
			case *types.Array:
				t = u.Elem()
			case *types.Slice:
				t = u.Elem()
			default:
				return nil
			}
		case sel == "[v]" || sel == "[k]":
			u, ok := t.Underlying().(*types.Map)
			if !ok {
				return nil
			}
			t = u.Elem()
			if sel == "[k]" {
				t = u.Key()
			}
		case sel == "[c]":
			u, ok := t.Underlying().(*types.Chan)
			if !ok {
				return nil
			}
			t = u.Elem()
		default:
			return nil
		}
	}
	return t
}

func (a *An) node(o *Obj, p string) *node {
	k := nkey{o, p}
	n := a.nodes[k]
	if n == nil {
		n = &node{key: k, set: map[Loc]bool{}}
		a.nodes[k] = n
		if o.Kind == KParam || (o.Kind == KExt && o.Type != nil) {
			a.seedParam(n)
		}
	}
	return n
}

// seedParam gives a cell of a symbolic object its symbolic content
func (a *An) seedParam(n *node) {
	o := n.key.o
	if o.Type == nil {
		return
	}
	t := TypeAt(o.Type, n.key.p)
	if n.key.p == "#data" || strings.HasSuffix(n.key.p, "#data") {
		t = types.NewSlice(types.Typ[types.Float64])
	}
	if t == nil || !pointerLike(t) {
		return
	}
	if _, ok := t.Underlying().(*types.Signature); ok && o.Kind == KExt {
		return
	}
	c := a.child(o, n.key.p, t)
	a.add(n, Loc{O: c})
}

// child is the symbolic object a symbolic cell points to
func (a *An) child(o *Obj, path string, t types.Type) *Obj {
	key := okey{nil, o, path}
	if c := a.objs[key]; c != nil {
		return c
	}
	pt := pointee(t)
	// recursive types collapse on their own ancestor
	depth := 0
	for x := o; x != nil; x = x.Parent {
		depth++
		if x.Type != nil && types.Identical(x.Type, pt) && x.Name != "" && pt != nil && isNamedStruct(pt) {
			a.objs[key] = x
			return x
		}
	}
	if depth > 12 {
		a.objs[key] = o
		return o
	}
	c := a.newObj(o.Kind, o.Name+a.pathName(o.Type, path)+star(t), pt)
	c.Root = o.Root
	c.Parent = o
	c.PPath = path
	c.Ctx = o.Ctx
	c.Site = o.Site
	a.objs[key] = c
	return c
}

func isNamedStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func star(t types.Type) string {
	switch t.Underlying().(type) {
	case *types.Pointer:
		return ""
	case *types.Slice:
		return ""
	}
	return ""
}

// pointee is the type of the object a pointer-like value refers to
func pointee(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	}
	return t
}

func (a *An) pathName(t types.Type, path string) string {
	s := ""
	for path != "" {
		j := 1
		if path[0] == '[' {
			j = strings.Index(path, "]") + 1
		} else {
			for j < len(path) && path[j] != '.' && path[j] != '[' && path[j] != '#' {
				j++
			}
		}
		sel := path[:j]
		if sel[0] == '.' && t != nil {
			if st, ok := t.Underlying().(*types.Struct); ok {
				i, _ := strconv.Atoi(sel[1:])
				if i < st.NumFields() {
					s += "." + st.Field(i).Name()
				}
			} else {
				s += sel
			}
		} else {
			s += sel
		}
		if t != nil {
			t = TypeAt(t, sel)
		}
		path = path[j:]
	}
	return s
}

// Describe names a location independently of how the code is laid out
func (a *An) Describe(l Loc) string {
	o := l.O
	if o.Kind == KParam || o.Kind == KGlobal {
		return o.Name + a.pathName(o.Type, l.Path)
	}
	tn := "?"
	if o.Type != nil {
		tn = types.TypeString(o.Type, func(p *types.Package) string { return p.Name() })
	}
	return "new(" + tn + ")" + a.pathName(o.Type, l.Path)
}

func (a *An) add(n *node, l Loc) {
	if n.set[l] {
		return
	}
	n.set[l] = true
	n.list = append(n.list, l)
	if len(n.cbs) > 0 {
		a.wl = append(a.wl, work{n, l})
	}
}

func (a *An) on(n *node, f func(Loc)) {
	n.cbs = append(n.cbs, f)
	for i := 0; i < len(n.list); i++ {
		f(n.list[i])
	}
}

// flow copies n1 into n2 for thread t, retagging with v if given
func (a *An) flow(n1, n2 *node, t *Ctx, v *Via) {
	if n1 == n2 && v == nil {
		return
	}
	k := ekey{n1, n2, v, t}
	if a.edges[k] {
		return
	}
	a.edges[k] = true
	a.on(n1, func(l Loc) {
		if v != nil {
			if l.O.Kind != KFunc {
				l.Via = v
			}
		}
		// the tag of another thread stays: the pointer came back through memory
		// that a thread filled after it had received it
		a.add(n2, l)
	})
}

func (a *An) solve() {
	for len(a.wl) > 0 {
		w := a.wl[len(a.wl)-1]
		a.wl = a.wl[:len(a.wl)-1]
		a.Steps++
		if a.Steps > 20000000 {
			panic("pta: budget exceeded")
		}
		for i := 0; i < len(w.n.cbs); i++ {
			w.n.cbs[i](w.l)
		}
	}
}

// copyVal copies a value of type t between cells
func (a *An) copyVal(o1 *Obj, p1 string, o2 *Obj, p2 string, t types.Type, th *Ctx, v *Via) {
	for _, s := range flat(t) {
		a.flow(a.node(o1, p1+s), a.node(o2, p2+s), th, v)
	}
}

// Thread is the goroutine a context runs in; nil is the root's own
func (c *Ctx) Thread() *Ctx { return c.thread }

func (a *An) push(parent *Ctx, call ssa.Instruction, fn *ssa.Function) (*Ctx, bool) {
	_, isGo := call.(*ssa.Go)
	if !isGo {
		for c := parent; c != nil; c = c.Parent {
			if c.Fn == fn {
				return c, false
			}
			if _, g := c.Call.(*ssa.Go); g {
				break
			}
		}
	}
	k := ckey{parent, call, fn}
	if c := a.Ctxs[k]; c != nil {
		return c, false
	}
	a.nctx++
	if a.nctx > 60000 {
		panic("pta: too many contexts")
	}
	c := &Ctx{ID: a.nctx, Parent: parent, Call: call, Fn: fn}
	if parent != nil {
		c.thread = parent.thread
	}
	if isGo {
		c.thread = c
	}
	c.ret = a.newObj(KReg, "ret", nil)
	a.Ctxs[k] = c
	return c, true
}

func (a *An) linkCall(parent *Ctx, call ssa.Instruction, c *Ctx) {
	m := a.Calls[parent]
	if m == nil {
		m = map[ssa.Instruction][]*Ctx{}
		a.Calls[parent] = m
	}
	for _, x := range m[call] {
		if x == c {
			return
		}
	}
	m[call] = append(m[call], c)
}

func (a *An) reg(c *Ctx, v ssa.Value) *Obj {
	switch v.(type) {
	case *ssa.Function, *ssa.Global, *ssa.Const, *ssa.Builtin:
		key := okey{nil, v, "reg"}
		if o := a.regs[key]; o != nil {
			return o
		}
		o := a.newObj(KReg, v.Name(), v.Type())
		a.regs[key] = o
		switch x := v.(type) {
		case *ssa.Function:
			fo := a.obj(nil, x, "fn", KFunc, x.Type())
			fo.Fn = x
			a.add(a.node(o, ""), Loc{O: fo})
		case *ssa.Global:
			g := a.obj(nil, x, "global", KGlobal, x.Type().(*types.Pointer).Elem())
			g.Name = x.Name()
			if x.Pkg != nil {
				g.Name = x.Pkg.Pkg.Name() + "." + x.Name()
			}
			a.add(a.node(o, ""), Loc{O: g})
		}
		return o
	}
	key := okey{c, v, "reg"}
	if o := a.regs[key]; o != nil {
		return o
	}
	o := a.newObj(KReg, v.Name(), v.Type())
	o.Ctx = c
	a.regs[key] = o
	return o
}

func (a *An) access(c *Ctx, in ssa.Instruction, l Loc, write, app bool) {
	if l.O.Kind == KReg || l.O.Kind == KFunc || l.O.Kind == KBox {
		return
	}
	k := fmt.Sprintf("%d|%p|%d|%s|%p|%v", c.ID, in, l.O.ID, l.Path, l.Via, write)
	if a.Acc[k] != nil {
		return
	}
	ac := &Access{Ctx: c, Instr: in, Loc: l, Write: write, Append: app}
	a.Acc[k] = ac
	a.AccList = append(a.AccList, ac)
}

// Run analyses a root function
func (a *An) Run(root *ssa.Function) {
	a.Root = root
	c, _ := a.push(nil, nil, root)
	a.RootCtx = c
	for i, p := range root.Params {
		r := a.reg(c, p)
		for _, s := range flat(p.Type()) {
			pt := TypeAt(p.Type(), s)
			if pt == nil {
				pt = types.NewSlice(types.Typ[types.Float64])
			}
			o := a.newObj(KParam, p.Name()+a.pathName(p.Type(), s), pointee(pt))
			o.Root = i
			a.add(a.node(r, s), Loc{O: o})
		}
		a.Params = append(a.Params, r)
	}
	for i, p := range root.FreeVars {
		r := a.reg(c, p)
		o := a.newObj(KParam, p.Name(), pointee(p.Type()))
		o.Root = 1000 + i
		a.add(a.node(r, ""), Loc{O: o})
	}
	a.fn(c)
	a.solve()
}

// Ret is the result register of the root
func (a *An) Ret(i int) (o *Obj, path string) { return a.RootCtx.ret, "#" + strconv.Itoa(i) }

// RetOf is the result register of a context
func (a *An) RetOf(c *Ctx) *Obj { return c.ret }

// Pts returns the pointees of a register value (pointer-like at path)
func (a *An) Pts(o *Obj, path string) []Loc { return a.node(o, path).list }

// RegOf returns the register of a value
func (a *An) RegOf(c *Ctx, v ssa.Value) *Obj { return a.reg(c, v) }

// Flat lists the pointer-like sub paths of a type
func Flat(t types.Type) []string { return flat(t) }

// Reach lists all objects reachable from a cell holding a value of type t
func (a *An) Reach(o *Obj, path string, t types.Type) map[*Obj][]string {
	seen := map[*Obj][]string{}
	var visit func(l Loc)
	a.index()
	byObj := a.byObj
	visit = func(l Loc) {
		if _, ok := seen[l.O]; ok {
			return
		}
		seen[l.O] = append(seen[l.O], l.Path)
		for _, n := range byObj[l.O] {
			for _, m := range n.list {
				visit(m)
			}
		}
	}
	for _, s := range flat(t) {
		for _, l := range a.node(o, path+s).list {
			visit(l)
		}
	}
	return seen
}

// fn generates the constraints of one function in one context
func (a *An) fn(c *Ctx) {
	for _, b := range c.Fn.Blocks {
		for _, in := range b.Instrs {
			a.instr(c, in)
		}
	}
}

func (a *An) instr(c *Ctx, in ssa.Instruction) {
	th := c.thread
	switch x := in.(type) {
	case *ssa.Alloc:
		o := a.obj(c, x, "", KAlloc, x.Type().Underlying().(*types.Pointer).Elem())
		a.add(a.node(a.reg(c, x), ""), Loc{O: o})
	case *ssa.MakeSlice:
		a.add(a.node(a.reg(c, x), ""), Loc{O: a.obj(c, x, "", KAlloc, x.Type())})
	case *ssa.MakeMap:
		a.add(a.node(a.reg(c, x), ""), Loc{O: a.obj(c, x, "", KAlloc, x.Type())})
	case *ssa.MakeChan:
		a.add(a.node(a.reg(c, x), ""), Loc{O: a.obj(c, x, "", KAlloc, x.Type())})
	case *ssa.FieldAddr:
		dst := a.node(a.reg(c, x), "")
		f := "." + strconv.Itoa(x.Field)
		a.on(a.node(a.reg(c, x.X), ""), func(l Loc) { a.add(dst, Loc{l.O, l.Path + f, l.Via}) })
	case *ssa.IndexAddr:
		dst := a.node(a.reg(c, x), "")
		a.on(a.node(a.reg(c, x.X), ""), func(l Loc) { a.add(dst, Loc{l.O, l.Path + "[]", l.Via}) })
	case *ssa.Field:
		a.copyVal(a.reg(c, x.X), "."+strconv.Itoa(x.Field), a.reg(c, x), "", x.Type(), th, nil)
	case *ssa.Index:
		if _, ok := x.X.Type().Underlying().(*types.Array); ok {
			a.copyVal(a.reg(c, x.X), "[]", a.reg(c, x), "", x.Type(), th, nil)
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			dst := a.reg(c, x)
			a.on(a.node(a.reg(c, x.X), ""), func(l Loc) {
				a.access(c, x, l, false, false)
				a.load(l, dst, "", x.Type(), th)
			})
		case token.ARROW:
			dst, et, p := a.reg(c, x), x.Type(), ""
			if x.CommaOk {
				et, p = x.Type().(*types.Tuple).At(0).Type(), "#0"
			}
			a.recv(c, x.X, dst, p, et)
		}
	case *ssa.Store:
		src := a.reg(c, x.Val)
		a.on(a.node(a.reg(c, x.Addr), ""), func(l Loc) {
			a.access(c, x, l, true, false)
			if l.Via != nil && l.Via.Thread == th && l.O.Kind == KAlloc && l.O.Ctx != nil && l.O.Ctx.Thread() != th {
				// stored after a hand-over (which the race check verifies):
				// the thread that made the object no longer sees it
				a.copyVal(src, "", l.O, "@"+l.Path, x.Val.Type(), th, nil)
				return
			}
			a.copyVal(src, "", l.O, l.Path, x.Val.Type(), th, nil)
		})
	case *ssa.Send:
		src := a.reg(c, x.X)
		a.on(a.node(a.reg(c, x.Chan), ""), func(l Loc) {
			a.copyVal(src, "", l.O, l.Path+"[c]", x.X.Type(), th, nil)
		})
	case *ssa.Select:
		j := 2
		for _, s := range x.States {
			if s.Dir == types.SendOnly {
				src, val := a.reg(c, s.Send), s.Send
				a.on(a.node(a.reg(c, s.Chan), ""), func(l Loc) {
					a.copyVal(src, "", l.O, l.Path+"[c]", val.Type(), th, nil)
				})
			} else {
				a.recv(c, s.Chan, a.reg(c, x), "#"+strconv.Itoa(j), s.Chan.Type().Underlying().(*types.Chan).Elem())
				j++
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.copyVal(a.reg(c, e), "", a.reg(c, x), "", x.Type(), th, nil)
		}
	case *ssa.ChangeType:
		a.copyVal(a.reg(c, x.X), "", a.reg(c, x), "", x.Type(), th, nil)
	case *ssa.ChangeInterface:
		a.copyVal(a.reg(c, x.X), "", a.reg(c, x), "", x.Type(), th, nil)
	case *ssa.Convert:
		if pointerLike(x.Type()) && !pointerLike(x.X.Type()) {
			a.add(a.node(a.reg(c, x), ""), Loc{O: a.obj(c, x, "", KAlloc, x.Type())})
		} else if pointerLike(x.Type()) {
			a.copyVal(a.reg(c, x.X), "", a.reg(c, x), "", x.Type(), th, nil)
		}
	case *ssa.MultiConvert:
		a.copyVal(a.reg(c, x.X), "", a.reg(c, x), "", x.Type(), th, nil)
	case *ssa.Slice:
		if pointerLike(x.X.Type()) {
			dst := a.node(a.reg(c, x), "")
			a.on(a.node(a.reg(c, x.X), ""), func(l Loc) { a.add(dst, l) })
		}
	case *ssa.SliceToArrayPointer:
		a.flow(a.node(a.reg(c, x.X), ""), a.node(a.reg(c, x), ""), th, nil)
	case *ssa.MakeInterface:
		a.copyVal(a.reg(c, x.X), "", a.box(c, x, "", x.X.Type()), "", x.X.Type(), th, nil)
		a.add(a.node(a.reg(c, x), ""), Loc{O: a.box(c, x, "", x.X.Type())})
	case *ssa.TypeAssert:
		dst, p := a.reg(c, x), ""
		if x.CommaOk {
			p = "#0"
		}
		a.on(a.node(a.reg(c, x.X), ""), func(l Loc) {
			if types.IsInterface(x.AssertedType) {
				if l.O.Kind != KBox || types.AssignableTo(l.O.Type, x.AssertedType) {
					a.add(a.node(dst, p), l)
				}
				return
			}
			a.unbox(l, dst, p, x.AssertedType, th)
		})
	case *ssa.Extract:
		a.copyVal(a.reg(c, x.Tuple), "#"+strconv.Itoa(x.Index), a.reg(c, x), "", x.Type(), th, nil)
	case *ssa.Lookup:
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			dst, p := a.reg(c, x), ""
			if x.CommaOk {
				p = "#0"
			}
			a.on(a.node(a.reg(c, x.X), ""), func(l Loc) {
				l2 := Loc{l.O, l.Path + "[v]", l.Via}
				a.access(c, x, l2, false, false)
				a.load(l2, dst, p, mt.Elem(), th)
			})
		}
	case *ssa.Range:
		if pointerLike(x.X.Type()) {
			a.flow(a.node(a.reg(c, x.X), ""), a.node(a.reg(c, x), ""), th, nil)
		}
	case *ssa.Next:
		if x.IsString {
			return
		}
		rg, ok := x.Iter.(*ssa.Range)
		if !ok {
			return
		}
		mt, ok := rg.X.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		dst := a.reg(c, x)
		a.on(a.node(a.reg(c, x.Iter), ""), func(l Loc) {
			a.access(c, x, Loc{l.O, l.Path + "[v]", l.Via}, false, false)
			a.load(Loc{l.O, l.Path + "[k]", l.Via}, dst, "#1", mt.Key(), th)
			a.load(Loc{l.O, l.Path + "[v]", l.Via}, dst, "#2", mt.Elem(), th)
		})
	case *ssa.MapUpdate:
		k, v := a.reg(c, x.Key), a.reg(c, x.Value)
		a.on(a.node(a.reg(c, x.Map), ""), func(l Loc) {
			a.access(c, x, Loc{l.O, l.Path + "[v]", l.Via}, true, false)
			a.copyVal(k, "", l.O, l.Path+"[k]", x.Key.Type(), th, nil)
			a.copyVal(v, "", l.O, l.Path+"[v]", x.Value.Type(), th, nil)
		})
	case *ssa.MakeClosure:
		fo := a.obj(c, x, "fn", KFunc, x.Type())
		fo.Fn = x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			a.copyVal(a.reg(c, b), "", fo, "b"+strconv.Itoa(i), b.Type(), th, nil)
		}
		a.add(a.node(a.reg(c, x), ""), Loc{O: fo})
	case *ssa.Return:
		for i, r := range x.Results {
			a.copyVal(a.reg(c, r), "", c.ret, "#"+strconv.Itoa(i), r.Type(), th, nil)
		}
	case ssa.CallInstruction:
		a.call(c, x)
	}
}

// box is the content of an interface value
func (a *An) box(c *Ctx, site interface{}, sub string, t types.Type) *Obj {
	return a.obj(c, site, "box"+sub, KBox, t)
}

// unbox copies the content of interface values of dynamic type t
func (a *An) unbox(l Loc, dst *Obj, p string, t types.Type, th *Ctx) {
	switch {
	case l.O.Kind == KBox:
		if types.Identical(l.O.Type, t) {
			a.loadTag(l, dst, p, t, th)
		}
	case l.O.Kind == KParam || l.O.Kind == KExt:
		// unknown dynamic type: a symbolic content of the asserted type
		for _, s := range flat(t) {
			st := TypeAt(t, s)
			if st == nil {
				st = types.NewSlice(types.Typ[types.Float64])
			}
			ch := a.childT(l.O, l.Path, t, s, st)
			a.add(a.node(dst, p+s), Loc{ch, "", l.Via})
		}
	}
}

// childT is the symbolic content of an unknown interface seen as type t
func (a *An) childT(o *Obj, path string, t types.Type, s string, st types.Type) *Obj {
	key := okey{nil, o, path + "|" + types.TypeString(t, nil) + "|" + s}
	if c := a.objs[key]; c != nil {
		return c
	}
	pt := pointee(st)
	for x := o; x != nil; x = x.Parent {
		if x.Type != nil && types.Identical(x.Type, pt) && isNamedStruct(pt) {
			a.objs[key] = x
			return x
		}
	}
	c := a.newObj(o.Kind, o.Name+".("+types.TypeString(t, func(p *types.Package) string { return p.Name() })+")", pt)
	c.Root, c.Parent, c.Ctx, c.Site, c.PPath = o.Root, o, o.Ctx, o.Site, path
	a.objs[key] = c
	return c
}

// loadTag copies a box content, passing on the tag of the box pointer
func (a *An) loadTag(l Loc, dst *Obj, p string, t types.Type, th *Ctx) {
	a.load(Loc{l.O, l.Path, l.Via}, dst, p, t, th)
}

// load copies a memory cell into a register
func (a *An) load(l Loc, dst *Obj, p string, t types.Type, th *Ctx) {
	var v *Via
	if l.Via != nil && l.Via.Thread == th {
		v = l.Via
	}
	a.copyVal(l.O, l.Path, dst, p, t, th, v)
	if l.O.Kind == KAlloc && (l.Via != nil || l.O.Ctx == nil || l.O.Ctx.Thread() != th) {
		for _, s := range flat(t) {
			dn := a.node(dst, p+s)
			a.on(a.node(l.O, "@"+l.Path+s), func(m Loc) {
				if m.O.Kind != KFunc && (m.O.Ctx == nil || m.O.Ctx.Thread() != th) && v != nil {
					m.Via = v
				}
				a.add(dn, m)
			})
		}
	}
}

func (a *An) recv(c *Ctx, ch ssa.Value, dst *Obj, p string, t types.Type) {
	a.on(a.node(a.reg(c, ch), ""), func(l Loc) {
		a.copyVal(l.O, l.Path+"[c]", dst, p, t, c.thread, a.via(c.thread, l.O))
	})
}

// call generates the constraints of a call
func (a *An) call(c *Ctx, in ssa.CallInstruction) {
	cc := in.Common()
	res, _ := in.(*ssa.Call)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		a.builtin(c, in, b.Name(), cc.Args, res)
		return
	}
	if cc.IsInvoke() {
		a.on(a.node(a.reg(c, cc.Value), ""), func(l Loc) { a.invoke(c, in, l, cc, res) })
		return
	}
	if fn := cc.StaticCallee(); fn != nil {
		var binds *Obj
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			binds = a.obj(c, mc, "fn", KFunc, mc.Type())
		}
		a.enter(c, in, fn, cc.Args, nil, binds, res)
		return
	}
	a.on(a.node(a.reg(c, cc.Value), ""), func(l Loc) {
		if l.O.Kind == KFunc && l.O.Fn != nil {
			a.enter(c, in, l.O.Fn, cc.Args, nil, l.O, res)
		} else if res != nil {
			a.fresh(c, in, res)
		}
	})
}

// transparent tells whether a function's body is analysed
func (a *An) transparent(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	f := fn
	if f.Origin() != nil {
		f = f.Origin()
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	p := f.Pkg
	if p == nil {
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			return a.transparentPkg(fn.Object().Pkg().Path())
		}
		return fn.Synthetic != ""
	}
	return a.transparentPkg(p.Pkg.Path())
}

func (a *An) transparentPkg(p string) bool {
	if InModule(p, a.Module) {
		return true
	}
	switch p {
	case "container/list", "container/heap", "container/ring", "slices", "maps":
		return true
	}
	return false
}

// enter links a call to a callee. recv, if not nil, is the receiver of a
// dynamically dispatched call (already a register).
func (a *An) enter(c *Ctx, in ssa.CallInstruction, fn *ssa.Function, args []ssa.Value, recv *Obj, closure *Obj, res *ssa.Call) {
	var regs []*Obj
	if recv != nil {
		regs = append(regs, recv)
	}
	for _, x := range args {
		regs = append(regs, a.reg(c, x))
	}
	a.enterRegs(c, in, fn, regs, closure, a.resReg(c, res))
}

func (a *An) resReg(c *Ctx, res *ssa.Call) *Obj {
	if res == nil {
		return nil
	}
	return a.reg(c, res)
}

func (a *An) enterRegs(c *Ctx, in ssa.CallInstruction, fn *ssa.Function, regs []*Obj, closure *Obj, res *Obj) {
	if !a.transparent(fn) || a.Opaque[fn.String()] {
		a.external(c, in, fn, regs, res)
		return
	}
	n, isNew := a.push(c, in, fn)
	a.linkCall(c, in, n)
	for i, p := range fn.Params {
		if i < len(regs) {
			// a goroutine owns nothing of what it is started with
			a.copyVal(regs[i], "", a.reg(n, p), "", p.Type(), n.thread, nil)
		}
	}
	if closure != nil {
		for i, fv := range fn.FreeVars {
			a.copyVal(closure, "b"+strconv.Itoa(i), a.reg(n, fv), "", fv.Type(), n.thread, nil)
		}
	}
	if isNew {
		a.fn(n)
	}
	if res != nil {
		a.copyRes(n.ret, res, fn.Signature.Results(), c.thread)
	}
}

func (a *An) copyRes(ret, res *Obj, rs *types.Tuple, th *Ctx) {
	if rs.Len() == 1 {
		a.copyVal(ret, "#0", res, "", rs.At(0).Type(), th, nil)
		return
	}
	for i := 0; i < rs.Len(); i++ {
		a.copyVal(ret, "#"+strconv.Itoa(i), res, "#"+strconv.Itoa(i), rs.At(i).Type(), th, nil)
	}
}

// invoke dispatches a method call on one dynamic value
func (a *An) invoke(c *Ctx, in ssa.CallInstruction, l Loc, cc *ssa.CallCommon, res *ssa.Call) {
	var ts []types.Type
	if l.O.Kind == KBox {
		ts = []types.Type{l.O.Type}
	} else if l.O.Kind == KParam || l.O.Kind == KExt {
		it, _ := cc.Value.Type().Underlying().(*types.Interface)
		for _, t := range a.impls {
			if it != nil && types.Implements(t, it) {
				ts = append(ts, t)
			} else if it != nil && types.Implements(types.NewPointer(t), it) {
				ts = append(ts, types.NewPointer(t))
			}
		}
		if !a.ownInterface(cc.Value.Type()) || len(ts) == 0 {
			if !a.ownInterface(cc.Value.Type()) {
				ts = nil // a foreign interface: values come from the foreign package
			}
			r := a.obj(c, in, "rcv"+strconv.Itoa(l.O.ID)+l.Path, KReg, nil)
			a.add(a.node(r, ""), l)
			regs := []*Obj{r}
			for _, x := range cc.Args {
				regs = append(regs, a.reg(c, x))
			}
			a.externalMethod(c, in, cc.Value.Type(), cc.Method, regs, a.resReg(c, res))
			return
		}
	}
	for _, t := range ts {
		sel := a.Prog.MethodSets.MethodSet(t).Lookup(cc.Method.Pkg(), cc.Method.Name())
		if sel == nil {
			continue
		}
		r := a.obj(c, in, "rcv"+strconv.Itoa(l.O.ID)+l.Path+types.TypeString(t, nil), KReg, nil)
		if l.O.Kind == KBox {
			a.loadTag(l, r, "", t, c.thread)
		} else {
			a.unbox(l, r, "", t, c.thread)
		}
		fn := a.Prog.MethodValue(sel)
		if fn == nil {
			continue
		}
		if a.transparent(fn) {
			a.enter(c, in, fn, cc.Args, r, nil, res)
			continue
		}
		regs := []*Obj{r}
		for _, x := range cc.Args {
			regs = append(regs, a.reg(c, x))
		}
		a.externalMethod(c, in, t, cc.Method, regs, a.resReg(c, res))
	}
}

func (a *An) ownInterface(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return true
	}
	return n.Obj().Pkg() != nil && InModule(n.Obj().Pkg().Path(), a.Module)
}

func (a *An) builtin(c *Ctx, in ssa.CallInstruction, name string, args []ssa.Value, res *ssa.Call) {
	th := c.thread
	switch name {
	case "append":
		if res == nil {
			return
		}
		st := res.Type().Underlying().(*types.Slice)
		no := a.obj(c, in, "", KAlloc, res.Type())
		rn := a.node(a.reg(c, res), "")
		s := a.node(a.reg(c, args[0]), "")
		nothing := len(args) < 2
		if !nothing {
			if k, ok := args[1].(*ssa.Const); ok && k.IsNil() {
				nothing = true
			}
		}
		a.add(rn, Loc{O: no})
		a.on(s, func(l Loc) {
			a.add(rn, l)
			a.copyVal(l.O, l.Path+"[]", no, "[]", st.Elem(), th, ownTag(l, th))
			if !nothing {
				a.access(c, in, Loc{l.O, l.Path + "[]", l.Via}, true, true)
			}
		})
		if !nothing && pointerLike(args[1].Type()) {
			a.on(a.node(a.reg(c, args[1]), ""), func(t Loc) {
				l2 := Loc{t.O, t.Path + "[]", t.Via}
				a.access(c, in, l2, false, false)
				v := ownTag(t, th)
				a.copyVal(t.O, l2.Path, no, "[]", st.Elem(), th, v)
				a.on(s, func(l Loc) { a.copyVal(t.O, l2.Path, l.O, l.Path+"[]", st.Elem(), th, v) })
			})
		}
	case "copy":
		st, ok := args[0].Type().Underlying().(*types.Slice)
		if !ok {
			return
		}
		dst := a.node(a.reg(c, args[0]), "")
		a.on(dst, func(l Loc) { a.access(c, in, Loc{l.O, l.Path + "[]", l.Via}, true, false) })
		if pointerLike(args[1].Type()) {
			a.on(a.node(a.reg(c, args[1]), ""), func(t Loc) {
				a.access(c, in, Loc{t.O, t.Path + "[]", t.Via}, false, false)
				a.on(dst, func(l Loc) { a.copyVal(t.O, t.Path+"[]", l.O, l.Path+"[]", st.Elem(), th, ownTag(t, th)) })
			})
		}
	case "delete", "clear":
		a.on(a.node(a.reg(c, args[0]), ""), func(l Loc) {
			p := "[v]"
			if _, ok := args[0].Type().Underlying().(*types.Slice); ok {
				p = "[]"
			}
			a.access(c, in, Loc{l.O, l.Path + p, l.Via}, true, false)
		})
	case "ssa:wrapnilchk":
		if res != nil {
			a.flow(a.node(a.reg(c, args[0]), ""), a.node(a.reg(c, res), ""), th, nil)
		}
	case "min", "max":
	}
}

// fresh gives every pointer-like part of a result a new object
func (a *An) fresh(c *Ctx, in ssa.Instruction, res ssa.Value) {
	a.freshReg(c, in, a.reg(c, res), res.Type())
}

func (a *An) freshReg(c *Ctx, in ssa.Instruction, r *Obj, t types.Type) {
	for _, s := range flat(t) {
		st := TypeAtTuple(t, s)
		if st == nil {
			st = types.NewSlice(types.Typ[types.Float64])
		}
		o := a.obj(c, in, "ext"+s, KExt, pointee(st))
		if o.Name == "" {
			o.Name = "ext"
		}
		a.add(a.node(r, s), Loc{O: o})
	}
}

// TypeAtTuple is TypeAt for tuples too
func TypeAtTuple(t types.Type, path string) types.Type {
	if tu, ok := t.(*types.Tuple); ok && strings.HasPrefix(path, "#") {
		j := 1
		for j < len(path) && path[j] >= '0' && path[j] <= '9' {
			j++
		}
		i, _ := strconv.Atoi(path[1:j])
		return TypeAt(tu.At(i).Type(), path[j:])
	}
	return TypeAt(t, path)
}

func ownTag(l Loc, th *Ctx) *Via {
	if l.Via != nil && l.Via.Thread == th {
		return l.Via
	}
	return nil
}

// TypeDesc names a location by the innermost named type that contains it
func (a *An) TypeDesc(l Loc) string {
	q := func(p *types.Package) string { return p.Name() }
	o, suffix := l.O, a.pathName(l.O.Type, l.Path)
	for {
		if n, ok := o.Type.(*types.Named); ok && (n.Obj().Pkg() == nil || !types.IsInterface(n)) {
			return n.Obj().Name() + suffix
		}
		if o.Kind == KGlobal {
			return o.Name + suffix
		}
		if o.Parent == nil {
			break
		}
		suffix = a.pathName(o.Parent.Type, o.PPath) + suffix
		o = o.Parent
	}
	if o.Type == nil {
		return "?" + suffix
	}
	return types.TypeString(o.Type, q) + suffix
}

// CtxFn names the function of a context key
func (a *An) CtxFn(k interface{}) string {
	if x, ok := k.(ckey); ok && x.fn != nil {
		return x.fn.String()
	}
	return ""
}

// CtxList lists the contexts in order of creation
func (a *An) CtxList() []*Ctx {
	r := make([]*Ctx, 0, len(a.Ctxs))
	for _, c := range a.Ctxs {
		r = append(r, c)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

// ReachLoc lists the objects reachable from a location
func (a *An) ReachLoc(l Loc) []*Obj {
	a.index()
	seen := map[*Obj]bool{}
	var out []*Obj
	var visit func(o *Obj)
	visit = func(o *Obj) {
		if seen[o] {
			return
		}
		seen[o] = true
		out = append(out, o)
		for _, n := range a.byObj[o] {
			for _, m := range n.list {
				visit(m.O)
			}
		}
	}
	visit(l.O)
	return out
}

func (a *An) index() {
	if a.byObj != nil {
		return
	}
	a.byObj = map[*Obj][]*node{}
	for k, n := range a.nodes {
		a.byObj[k.o] = append(a.byObj[k.o], n)
	}
}

// Holding is a cell that holds a pointer to an object
type Holding struct {
	Holder *Obj
	Path   string
	Loc    Loc
}

// Holders lists the memory cells that hold pointers to o
func (a *An) Holders(o *Obj) []Holding {
	if a.holders == nil {
		a.holders = map[*Obj][]Holding{}
		for k, n := range a.nodes {
			if k.o.Kind == KReg {
				continue
			}
			for _, l := range n.list {
				a.holders[l.O] = append(a.holders[l.O], Holding{k.o, k.p, l})
			}
		}
	}
	return a.holders[o]
}
