package check

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"gsa/psim"
	"gsa/pta"

	"golang.org/x/tools/go/ssa"
)

const (
	ruleSorted  = "features in ascending order"
	ruleAligned = "coefficients of the features listed"
	ruleCopy    = "the node's own copy"
	ruleLambda  = "regularisation never increases"
	ruleNonZero = "listed exactly when non-zero"
)

// nodes follows what the lists of features and coefficients that meet in a
// node of a lasso path hold. The content of a list of features is a term that
// says whether it is in ascending order, that of a list of coefficients names
// the list of features it is aligned with.
type nodes struct {
	c       *Ctx
	a       *pta.An
	m       *psim.Sim
	cs      complaints
	node    types.Type
	coeff   int
	lamb    int
	sel     int
	all     map[*ssa.Function][]*ssaLoop
	scans   map[*ssa.Function][]*scan
	eff     map[*scan][]scanEffect
	makes   map[*ssa.Function]bool // creates a node or puts one into a list
	counts  map[string]int
	cd      bool // nodes of coordinate descent
	params  map[string]bool
	nodesOf map[string]ssa.Value // the nodes created
}

func (c *Ctx) newNodes(a *pta.An, cs complaints) *nodes {
	g := &nodes{c: c, a: a, cs: cs, all: map[*ssa.Function][]*ssaLoop{}, scans: map[*ssa.Function][]*scan{}, eff: map[*scan][]scanEffect{}, makes: map[*ssa.Function]bool{}, counts: map[string]int{}, nodesOf: map[string]ssa.Value{}}
	g.node = c.P.Named("featselect", "LassoLarsNode")
	if g.node == nil {
		c.Add("anchor", "featselect.LassoLarsNode", token.NoPos, Undecided, "the type was not found")
		return nil
	}
	g.coeff, g.lamb, g.sel = structField(g.node, "Coeff"), structField(g.node, "Lamb"), structField(g.node, "Selection")
	if g.coeff < 0 || g.lamb < 0 || g.sel < 0 {
		c.Add("anchor", "featselect.LassoLarsNode", token.NoPos, Undecided, "the fields were not found")
		return nil
	}
	g.params = map[string]bool{}
	for _, p := range a.RootCtx.Fn.Params {
		g.params["«"+psim.SymOf(a.RootCtx, p)+"»"] = true
	}
	// functions that create nodes, and their callers
	for _, x := range a.CtxList() {
		for _, b := range x.Fn.Blocks {
			for _, in := range b.Instrs {
				if al, ok := in.(*ssa.Alloc); ok && types.Identical(al.Type().Underlying().(*types.Pointer).Elem(), g.node) {
					for y := x; y != nil; y = y.Parent {
						g.makes[y.Fn] = true
					}
				}
			}
		}
	}
	return g
}

func (g *nodes) loopsIn(fn *ssa.Function) ([]*ssaLoop, []*scan) {
	if _, ok := g.all[fn]; !ok {
		ls := loopsOf(fn)
		g.all[fn] = ls
		for _, l := range ls {
			if sc := asScan(l); sc != nil {
				g.scans[fn] = append(g.scans[fn], sc)
			}
		}
		if g.scans[fn] == nil {
			g.scans[fn] = []*scan{}
		}
	}
	return g.all[fn], g.scans[fn]
}

// followed: the loop creates nodes
func (g *nodes) followed(l *ssaLoop) bool {
	for b := range l.body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Alloc:
				if types.Identical(x.Type().Underlying().(*types.Pointer).Elem(), g.node) {
					return true
				}
			case ssa.CallInstruction:
				if f := x.Common().StaticCallee(); f != nil && g.makes[f] {
					return true
				}
				if x.Common().StaticCallee() == nil && !x.Common().IsInvoke() {
					for f := range g.makes {
						if types.Identical(f.Signature, x.Common().Value.Type()) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// inner: the instruction lies in a loop that creates no nodes
func (g *nodes) inner(in ssa.Instruction) bool {
	ls, _ := g.loopsIn(in.Parent())
	for _, l := range ls {
		if l.body[in.Block()] && !g.followed(l) {
			return true
		}
	}
	return false
}

func (g *nodes) sim() *psim.Sim {
	m := psim.New(g.a)
	m.Ints, m.Coarse = false, true
	g.m = m
	m.MaxSt = 400000
	m.Opaque = func(x *pta.Ctx) bool {
		return x.Fn.Pkg == nil || !g.c.P.InModule(x.Fn.Pkg.Pkg.Path())
	}
	m.KeepCell = func(k string) bool {
		for _, suf := range []string{"|content", "|root", "|frozen", "|cut", "|active"} {
			if strings.HasSuffix(k, suf) {
				return true
			}
		}
		return strings.HasPrefix(k, "prev|")
	}
	m.Head = func(c *pta.Ctx, b *ssa.BasicBlock) bool {
		ls, _ := g.loopsIn(c.Fn)
		for _, l := range ls {
			if l.head == b {
				return g.followed(l)
			}
		}
		return false
	}
	m.Value = g.value
	m.Result = g.result
	m.Call = g.call
	m.Event = g.event
	m.Branch = func(s *psim.State, cx *pta.Ctx, in *ssa.If, taken bool) bool {
		all, ls := g.loopsIn(cx.Fn)
		to := in.Block().Succs[1]
		if taken {
			to = in.Block().Succs[0]
		}
		for _, l := range all {
			if l.body[in.Block()] && !l.body[to] && !g.followed(l) {
				g.moved(s, cx, l)
			}
		}
		for _, l := range ls {
			if l.cond != in {
				continue
			}
			k := fmt.Sprintf("ran:%d.%d", cx.ID, l.head.Index)
			if taken {
				s.U[k] = 1
				continue
			}
			if s.U[k] == 0 && dimension(l.bound) {
				return false // there are data points and features
			}
			delete(s.U, k)
			g.leave(s, cx, l)
		}
		if !g.inner(in) {
			g.compared(s, m.Eval(s, cx, in.Cond), taken)
		}
		return true
	}
	return m
}

// moved: a loop that writes to places of a list of features leaves an order
// that is not known, also where it happens not to write
func (g *nodes) moved(s *psim.State, cx *pta.Ctx, l *ssaLoop) {
	var done []ssa.Value
	for _, b := range cx.Fn.Blocks {
		if !l.body[b] {
			continue
		}
	next:
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok || !isIntList(ia.X.Type()) {
				continue
			}
			for _, d := range done {
				if sameList(d, ia.X) {
					continue next
				}
			}
			done = append(done, ia.X)
			v := g.m.Eval(s, cx, ia.X)
			if c := listContent(s, v); !strings.HasPrefix(c, "@") {
				at := psim.SymOf(cx, ia)
				g.modified(s, v, "@"+g.freshIn(s, at), st.Pos(), at)
			}
		}
	}
}

// dimension: a number of data points, of features or of coefficients
func dimension(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Extract:
		return dimension(x.Tuple)
	case *ssa.Call:
		cc := x.Common()
		if cc.IsInvoke() {
			n := cc.Method.Name()
			return (n == "Len" || n == "Dims") && cc.Method.Pkg() != nil && strings.HasSuffix(cc.Method.Pkg().Path(), "gonum/mat")
		}
		pkg, _, fn := calledAs(x)
		return strings.HasSuffix(pkg, "gonum/mat") && (fn == "Len" || fn == "Dims")
	}
	return false
}

// result: a number computed by a routine has one name in its caller
func (g *nodes) result(s *psim.State, c *pta.Ctx, call *ssa.Call, rs []psim.Val) []psim.Val {
	if g.makes[c.Fn] {
		return rs
	}
	var ts []types.Type
	if tu, ok := call.Type().(*types.Tuple); ok {
		for i := 0; i < tu.Len(); i++ {
			ts = append(ts, tu.At(i).Type())
		}
	} else {
		ts = []types.Type{call.Type()}
	}
	local := fmt.Sprintf("%d:", c.ID)
	n := psim.SymOf(c.Parent, call)
	for i := range rs {
		if i >= len(ts) || !isIntT(ts[i]) && !isFloatT(ts[i]) {
			continue
		}
		v := rs[i]
		if !(v.K == psim.Int || v.K == psim.Sym && (strings.HasPrefix(v.S, "const:") || strings.HasPrefix(v.S, local))) {
			continue
		}
		var r psim.Val
		if len(rs) == 1 {
			r = g.m.Unknown(s, c.Parent, call)
		} else {
			r = psim.SymV(fmt.Sprintf("%s#%d", n, i))
			g.m.Fresh(s, r.S, psim.VK{})
		}
		if v.K == psim.Sym && !strings.HasPrefix(v.S, "const:") {
			a, b := psim.Tok(v), psim.Tok(r)
			for k := range s.Cell {
				if strings.HasPrefix(k, "t:ng(") && strings.Contains(k, a) {
					s.Cell[strings.ReplaceAll(k, a, b)] = psim.BoolV(true)
				}
			}
		}
		rs[i] = r
	}
	return rs
}

// ---- contents ----

func listContent(s *psim.State, v psim.Val) string {
	v = unbox(v)
	if c, ok := s.Cell[key(v)+"|content"]; ok {
		return psim.Tok(c)
	}
	if v.K == psim.Nil {
		return "empty"
	}
	return "@" + psim.Tok(v)
}

func listRoot(s *psim.State, v psim.Val) psim.Val {
	v = unbox(v)
	if r, ok := s.Cell[key(v)+"|root"]; ok {
		return r
	}
	return v
}

func setC(s *psim.State, v psim.Val, c string) {
	s.Cell[key(unbox(v))+"|content"] = psim.SymV("t:" + c)
}

func setRoot(s *psim.State, v, r psim.Val) {
	if key(unbox(v)) != key(r) {
		s.Cell[key(unbox(v))+"|root"] = r
	}
}

// modified: the memory of a list is written to
func (g *nodes) modified(s *psim.State, v psim.Val, c string, pos token.Pos, at string) {
	r := listRoot(s, v)
	if r.K == psim.Nil {
		return
	}
	if _, ok := s.Cell[key(r)+"|frozen"]; ok {
		g.cs.add(ruleCopy, pos, "a list that a node of the path holds is changed after the node was made")
	}
	var ks []string
	for k := range s.Cell {
		if strings.HasSuffix(k, "|content") {
			ks = append(ks, strings.TrimSuffix(k, "|content"))
		}
	}
	sort.Strings(ks)
	f := ""
	for _, o := range ks {
		or, ok := s.Cell[o+"|root"]
		if !(ok && key(or) == key(r) || !ok && o == key(r)) {
			continue
		}
		if f == "" {
			f = g.freshIn(s, at+"~")
		}
		s.Cell[o+"|content"] = psim.SymV("t:@" + f)
	}
	setC(s, v, c)
}

func (g *nodes) freshIn(s *psim.State, at string) string {
	n := "c@" + at
	g.m.Fresh(s, n, psim.VK{})
	return "«" + n + "»"
}

func headOf(c string) string {
	if i := strings.IndexByte(c, '('); i > 0 && strings.HasSuffix(c, ")") {
		return c[:i]
	}
	return c
}

// ascending: 1 yes, -1 no, 0 not known
func ascending(c string) int {
	switch headOf(c) {
	case "sorted", "nz", "empty":
		return 1
	case "grown", "written", "descending", "dnz":
		return -1
	}
	return 0
}

// ---- numbers ----

// leaves of a number: what it was computed from
func leaves(v psim.Val) []string {
	v = unbox(v)
	switch v.K {
	case psim.Sym:
		if strings.HasPrefix(v.S, "const:") {
			return nil
		}
		if v.N == 0 && strings.HasPrefix(v.S, "t:f(") {
			in := v.S[len("t:f(") : len(v.S)-1]
			if i := strings.LastIndex(in, ";"); i >= 0 {
				in = in[:i]
			}
			if in == "" {
				return nil
			}
			return splitTop(in, ",")
		}
		return []string{psim.Tok(v)}
	case psim.Addr:
		return []string{psim.Tok(v)}
	}
	return nil
}

func number(id string, vs ...psim.Val) psim.Val {
	set := map[string]bool{}
	for _, v := range vs {
		for _, l := range leaves(v) {
			set[l] = true
		}
	}
	var l []string
	for x := range set {
		l = append(l, x)
	}
	sort.Strings(l)
	if len(l) > 12 {
		l = l[:12]
	}
	return psim.SymV("t:f(" + strings.Join(l, ",") + ";" + id + ")")
}

// reads of a number: the places of lists of features it is about
func reads(v psim.Val) (map[string]bool, bool) {
	r := map[string]bool{}
	other := false
	for _, l := range leaves(v) {
		if strings.HasPrefix(l, "ra(") {
			r[l] = true
		} else {
			other = true
		}
	}
	return r, other
}

func ra(c, i string) string { return "ra(" + c + "," + i + ")" }

func raParts(l string) (string, string) {
	in := l[3 : len(l)-1]
	ps := splitTop(in, ",")
	return strings.Join(ps[:len(ps)-1], ","), ps[len(ps)-1]
}

// element of a list or vector
func (g *nodes) element(s *psim.State, l, i psim.Val, ints bool, id string, self func() psim.Val) psim.Val {
	c := listContent(s, l)
	if ints {
		return psim.SymV("t:" + ra(c, psim.Tok(i)))
	}
	if strings.HasPrefix(c, "al(") {
		return psim.SymV("t:f(" + ra(c[3:len(c)-1], psim.Tok(i)) + ";" + id + ")")
	}
	if rs, _ := reads(i); len(rs) > 0 {
		return number(id, i)
	}
	if c == "zero" {
		return psim.SymV("const:0")
	}
	u := self()
	return psim.SymV("t:f(" + psim.Tok(u) + ";" + id + ")")
}

// assign: an element of a list of coefficients is set
func (g *nodes) assign(s *psim.State, l, i, v psim.Val, pos token.Pos, at string) {
	c := listContent(s, l)
	rs, other := reads(v)
	if len(rs) == 0 {
		if !other && (c == "zero" || headOf(c) == "al") {
			g.modified(s, l, c, pos, at)
			return
		}
		g.modified(s, l, "@"+g.freshIn(s, at), pos, at)
		return
	}
	it := psim.Tok(i)
	want := ""
	ok := true
	for r := range rs {
		C, j := raParts(r)
		if j != it || want != "" && want != C {
			ok = false
		}
		want = C
	}
	switch {
	case ok && (c == "zero" || c == "al("+want+")"):
		g.modified(s, l, "al("+want+")", pos, at)
	case c == "zero" || headOf(c) == "al" || headOf(c) == "mixed":
		g.modified(s, l, "mixed("+g.freshIn(s, at)+")", pos, at)
	default:
		g.modified(s, l, "@"+g.freshIn(s, at), pos, at)
	}
}

// compared notes that one number is not greater than another
func (g *nodes) compared(s *psim.State, v psim.Val, taken bool) {
	for v.K == psim.Not {
		v, taken = *v.A, !taken
	}
	if v.K != psim.Cmp {
		return
	}
	a, b := psim.Tok(*v.A), psim.Tok(*v.B)
	if v.A.K == psim.Bool || v.B.K == psim.Bool {
		return
	}
	ng := func(x, y string) {
		if g.params[x] || g.params[y] {
			return
		}
		s.Cell["t:ng("+x+"|"+y+")"] = psim.BoolV(true)
	}
	switch v.Op {
	case token.LSS:
		if taken {
			ng(a, b)
		} else {
			ng(b, a)
		}
	case token.LEQ:
		if taken {
			ng(a, b)
		} else {
			ng(b, a)
		}
	case token.GTR, token.GEQ:
		if taken {
			ng(b, a)
		} else {
			ng(a, b)
		}
	case token.EQL:
		if taken {
			ng(a, b)
			ng(b, a)
		}
	}
}

func (g *nodes) notGreater(s *psim.State, a, b string) bool {
	seen := map[string]bool{a: true}
	work := []string{a}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if x == b {
			return true
		}
		p := "t:ng(" + x + "|"
		for k := range s.Cell {
			if strings.HasPrefix(k, p) {
				y := k[len(p) : len(k)-1]
				if !seen[y] {
					seen[y] = true
					work = append(work, y)
				}
			}
		}
	}
	return false
}

// ---- instructions ----

func isFloatList(t types.Type) bool {
	el := sliceElem(t)
	return el != nil && isFloatT(el)
}

func isIntList(t types.Type) bool {
	el := sliceElem(t)
	return el != nil && isIntT(el)
}

func isVec(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "VecDense"
}

func (g *nodes) value(s *psim.State, cx *pta.Ctx, v ssa.Value) (psim.Val, bool) {
	m := g.m
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if ia, ok := x.X.(*ssa.IndexAddr); ok && (isIntList(ia.X.Type()) || isFloatList(ia.X.Type())) {
				return g.element(s, m.Eval(s, cx, ia.X), m.Eval(s, cx, ia.Index), isIntList(ia.X.Type()), psim.SymOf(cx, v), func() psim.Val { return m.Unknown(s, cx, v) }), true
			}
		}
		if x.Op == token.SUB && isFloatT(x.Type()) {
			return number(psim.SymOf(cx, v), m.Eval(s, cx, x.X)), true
		}
	case *ssa.BinOp:
		if isFloatT(x.Type()) {
			return number(psim.SymOf(cx, v), m.Eval(s, cx, x.X), m.Eval(s, cx, x.Y)), true
		}
	case *ssa.Convert:
		if isFloatT(x.Type()) && isFloatT(x.X.Type()) {
			return m.Eval(s, cx, x.X), true
		}
	case *ssa.MakeSlice:
		if !isIntList(x.Type()) && !isFloatList(x.Type()) {
			return psim.Val{}, false
		}
		u := m.Unknown(s, cx, v)
		s.Con[u.S] = psim.Con{NilK: 2}
		if constIs(x.Len, 0) {
			setC(s, u, "empty")
		} else {
			setC(s, u, "zero")
		}
		return u, true
	case *ssa.Slice:
		if n, ok := arrayLenOf(x); ok && isIntList(x.Type()) {
			a := m.Eval(s, cx, x.X)
			if n == 0 {
				setC(s, a, "empty")
				return a, true
			}
			if al, ok := x.X.(*ssa.Alloc); ok && n == 1 && al.Comment != "varargs" {
				setC(s, a, "sorted("+g.freshIn(s, psim.SymOf(cx, v))+")")
				return a, true
			}
			return psim.Val{}, false
		}
		if n, ok := arrayLenOf(x); ok && isFloatList(x.Type()) && n == 0 {
			a := m.Eval(s, cx, x.X)
			setC(s, a, "empty")
			return a, true
		}
		if sliceElem(x.X.Type()) == nil || !isIntList(x.Type()) && !isFloatList(x.Type()) {
			return psim.Val{}, false
		}
		a := m.Eval(s, cx, x.X)
		if (x.Low == nil || constIs(x.Low, 0)) && x.High == nil {
			return a, true
		}
		c, r := listContent(s, a), listRoot(s, a)
		f := ""
		if x.High != nil && constIs(x.High, 0) {
			f = "empty"
		} else {
			n := g.freshIn(s, psim.SymOf(cx, v))
			switch h := headOf(c); {
			case h == "sorted" || h == "nz":
				f = "sorted(" + n + ")"
			case h == "grown" || h == "written" || h == "descending":
				f = h + "(" + n + ")"
			case c == "empty" || c == "zero":
				f = c
			case h == "al":
				f = "part(" + n + ")"
			default:
				f = "@" + n
			}
		}
		u := m.Unknown(s, cx, v)
		setC(s, u, f)
		setRoot(s, u, r)
		if x.High != nil {
			s.Cell[key(u)+"|cut"] = psim.BoolV(true)
		}
		return u, true
	}
	return psim.Val{}, false
}

func (g *nodes) event(s *psim.State, cx *pta.Ctx, in ssa.Instruction, sel int) bool {
	m := g.m
	if b := in.Block(); in == firstReal(b) && m.Head(cx, b) {
		g.sweep(s)
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		if types.Identical(x.Type().Underlying().(*types.Pointer).Elem(), g.node) {
			n := psim.SymOf(cx, x)
			g.nodesOf[n] = x
			s.U["node:"+n] = 1
		}
	case *ssa.Store:
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
			l := m.Eval(s, cx, ia.X)
			at := psim.SymOf(cx, ia)
			switch {
			case isFloatList(ia.X.Type()):
				g.assign(s, l, m.Eval(s, cx, ia.Index), m.Eval(s, cx, x.Val), x.Pos(), at)
			case isIntList(ia.X.Type()):
				f := g.freshIn(s, at)
				if g.inner(in) || searched(ia.Index) {
					g.modified(s, l, "@"+f, x.Pos(), at)
				} else {
					g.modified(s, l, "written("+f+")", x.Pos(), at)
				}
			case g.isNode(sliceElem(ia.X.Type())):
				g.made(s, cx, x.Pos())
			}
		}
	case *ssa.Return:
		if cx.Fn.Name() == "NewLassoLarsNode" {
			g.made(s, cx, callPos(cx, x.Pos()))
		}
	case *ssa.Send:
		g.made(s, cx, x.Pos())
	case *ssa.Select:
		g.made(s, cx, x.Pos())
	}
	return true
}

// sweep forgets memory that nothing refers to any more
func (g *nodes) sweep(s *psim.State) {
	used := map[string]bool{"est": true, "prev": true}
	var work []string
	name := func(n string) {
		if !used[n] {
			used[n] = true
			work = append(work, n)
		}
	}
	var in func(v psim.Val)
	in = func(v psim.Val) {
		if v.K == psim.Sym || v.K == psim.Addr {
			if psim.IsTerm(v.S) {
				name(v.S)
				for _, p := range strings.Split(v.S, "«")[1:] {
					name(p[:strings.Index(p, "»")])
				}
			} else {
				name(v.S)
			}
		}
		if v.A != nil {
			in(*v.A)
		}
		if v.B != nil {
			in(*v.B)
		}
	}
	for _, v := range s.Env {
		in(v)
	}
	base := func(k string) string {
		if i := strings.IndexAny(k, "|#"); i >= 0 {
			return k[:i]
		}
		return k
	}
	for k, v := range s.Cell {
		if b := base(k); (b == "est" || b == "prev" || strings.HasPrefix(b, "global:")) && !psim.IsTerm(k) {
			in(v)
		}
	}
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		for k, v := range s.Cell {
			if !psim.IsTerm(k) && (base(k) == n || strings.HasPrefix(base(k), n+".") || strings.HasPrefix(base(k), n+"[")) {
				in(v)
			}
		}
	}
	for k := range s.Cell {
		if psim.IsTerm(k) {
			for _, p := range strings.Split(k, "«")[1:] {
				if n := p[:strings.Index(p, "»")]; !used[n] {
					delete(s.Cell, k)
				}
			}
			continue
		}
		b := base(k)
		if !used[b] && !strings.HasPrefix(b, "global:") {
			ok := false
			for n := range used {
				ok = ok || strings.HasPrefix(b, n+".") || strings.HasPrefix(b, n+"[")
			}
			if !ok {
				delete(s.Cell, k)
			}
		}
	}
	for k, v := range s.U {
		if v == 2 && strings.HasPrefix(k, "node:") {
			delete(s.U, k)
		}
	}
}

func callPos(cx *pta.Ctx, p token.Pos) token.Pos {
	if cx.Call != nil && cx.Call.Pos().IsValid() {
		return cx.Call.Pos()
	}
	return p
}

func (g *nodes) isNode(t types.Type) bool {
	if t == nil {
		return false
	}
	p, ok := t.Underlying().(*types.Pointer)
	return ok && types.Identical(p.Elem(), g.node)
}

// searched: the index was found by a search for the place of a number
func searched(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Call:
		pkg, _, fn := calledAs(x)
		return pkg == "sort" && strings.HasPrefix(fn, "Search") || pkg == "slices" && strings.HasPrefix(fn, "BinarySearch")
	case *ssa.Extract:
		return searched(x.Tuple)
	case *ssa.Phi:
		return true
	}
	return false
}

// made: the nodes created so far are complete
func (g *nodes) made(s *psim.State, cx *pta.Ctx, pos token.Pos) {
	var ns []string
	for k, v := range s.U {
		if strings.HasPrefix(k, "node:") && v == 1 {
			ns = append(ns, k[5:])
		}
	}
	sort.Strings(ns)
	for _, n := range ns {
		a := psim.Val{K: psim.Addr, S: n}
		sel, ok1 := s.Cell[fieldCell(a, g.sel)]
		co, ok2 := s.Cell[fieldCell(a, g.coeff)]
		if !ok1 && !ok2 {
			continue
		}
		s.U["node:"+n] = 2
		g.check(s, sel, co, ok1, ok2, pos)
		la, ok := s.Cell[fieldCell(a, g.lamb)]
		if ok && !g.cd {
			g.lambda(s, la, pos)
		}
		for _, l := range []psim.Val{sel, co} {
			if r := listRoot(s, l); r.K == psim.Sym || r.K == psim.Addr {
				s.Cell[key(r)+"|frozen"] = psim.BoolV(true)
			}
		}
	}
}

func (g *nodes) check(s *psim.State, sel, co psim.Val, ok1, ok2 bool, pos token.Pos) {
	g.counts["nodes"]++
	cs, cc := "empty", "empty"
	if ok1 {
		cs = listContent(s, sel)
	}
	if ok2 {
		cc = listContent(s, co)
	}
	if os.Getenv("GSADEBUG") != "" {
		fmt.Println("NODE", g.c.Where(pos), "sel", cs, "coeff", cc)
	}
	switch ascending(cs) {
	case 1:
		g.counts["in order"]++
	case -1:
		g.cs.add(ruleSorted, pos, "the features of a node have not been sorted since the list was last changed")
	}
	switch headOf(cc) {
	case "al":
		if cc[3:len(cc)-1] == cs {
			g.counts["aligned"]++
		} else if !strings.HasPrefix(cs, "@") && !strings.HasPrefix(cc, "al(@") || g.stale(cc, cs) {
			g.cs.add(ruleAligned, pos, "the coefficients of a node were computed for another list of features, or for another order of it")
		}
	case "mixed":
		g.cs.add(ruleAligned, pos, "a coefficient of a node is not the one of the feature at its position")
	case "part", "shifted":
		g.cs.add(ruleAligned, pos, "the node holds a part of the coefficients only")
	case "misplaced":
		g.cs.add(ruleAligned, pos, "the coefficients are computed from signs that are not those of the active features in order")
	case "empty":
		if cs == "empty" {
			g.counts["aligned"]++
		}
	}
	for _, c := range []string{cs, cc} {
		if headOf(c) == "bad" {
			g.cs.add(ruleNonZero, pos, "%s", c[4:len(c)-1])
		}
		if headOf(c) == "shifted" {
			g.cs.add(ruleAligned, pos, "the lists of a node are copied with an offset")
		}
	}
	if g.cd {
		if headOf(cs) == "nz" {
			if strings.HasPrefix(cs, "nz(X(") {
				g.counts["listed when non-zero"]++
			} else if strings.HasPrefix(cs, "nz(al(") || cs == "nz(zero)" {
				g.cs.add(ruleNonZero, pos, "the features listed are not those of the solution")
			}
		}
	}
}

// stale: aligned with the list as it was before a change that is known
func (g *nodes) stale(cc, cs string) bool {
	a := cc[3 : len(cc)-1]
	return strings.TrimSuffix(strings.TrimRight(a, "»')"), "'") == strings.TrimSuffix(strings.TrimRight(cs, "»')"), "'") && a != cs
}

func (g *nodes) lambda(s *psim.State, la psim.Val, pos token.Pos) {
	if s.U["made"] > 0 {
		if pv, ok := s.Cell["prev|lamb"]; ok {
			p, n := psim.Tok(pv), psim.Tok(la)
			if p == n || g.notGreater(s, n, p) {
				g.counts["not increased"]++
			} else {
				if os.Getenv("GSADEBUG") != "" {
					fmt.Println("LAMBDA", n, "after", p)
					for k := range s.Cell {
						if strings.HasPrefix(k, "t:ng") {
							fmt.Println("   ", k)
						}
					}
				}
				g.cs.add(ruleLambda, pos, "nothing shows that the regularisation of a node is not greater than that of the node before")
			}
		}
	}
	s.U["made"] = 1
	s.Cell["prev|lamb"] = la
}

// leave applies what a whole scan makes of lists
func (g *nodes) leave(s *psim.State, cx *pta.Ctx, l *scan) {
	if _, ok := g.eff[l]; !ok {
		g.eff[l] = l.effects(func(f *ssa.Function) bool { return f.Pkg != nil && g.c.P.InModule(f.Pkg.Pkg.Path()) })
	}
	for _, e := range g.eff[l] {
		c := ""
		of := func(v ssa.Value) string { return listContent(s, g.m.Eval(s, cx, v)) }
		switch e.kind {
		case "nz":
			c = "nz(" + of(e.x) + ")"
			if l.down {
				c = "d" + c
			}
		case "nzval":
			c = "al(nz(" + of(e.x) + "))"
			if l.down {
				c = "al(dnz(" + of(e.x) + "))"
			}
		case "pick":
			c = "al(" + of(e.by) + ")"
		case "same":
			c = of(e.x)
		case "bad":
			c = "bad(" + e.why + ")"
		}
		if e.list != nil {
			v := g.m.Eval(s, cx, e.list)
			g.modified(s, v, c, l.cond.Pos(), psim.SymOf(cx, l.idx)+"=")
			continue
		}
		if !isIntList(e.phi.Type()) && !isFloatList(e.phi.Type()) {
			continue
		}
		// what the list was before the first round
		r := g.m.Eval(s, cx, e.phi)
		rt := listRoot(s, r)
		if !startsEmpty(l, e.phi) {
			if e.kind != "bad" {
				continue
			}
			continue
		}
		n := "list@" + psim.SymOf(cx, e.phi)
		g.m.Fresh(s, n, psim.VK{})
		u := psim.SymV(n)
		g.m.Set(s, cx, e.phi, u)
		setC(s, u, c)
		if rt.K == psim.Sym || rt.K == psim.Addr {
			if _, fz := s.Cell[key(rt)+"|frozen"]; fz || s.Cell[key(r)+"|root"].S != "" {
				setRoot(s, u, rt)
			}
		}
	}
}

// startsEmpty: the list that a loop fills is empty before the first round
func startsEmpty(l *scan, ph *ssa.Phi) bool {
	for i, e := range ph.Edges {
		if l.body[l.head.Preds[i]] {
			continue
		}
		switch q := e.(type) {
		case *ssa.Const:
		case *ssa.MakeSlice:
			if !constIs(q.Len, 0) {
				return false
			}
		case *ssa.Slice:
			if q.High == nil || !constIs(q.High, 0) {
				if n, ok := arrayLenOf(q); !ok || n != 0 {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func (g *nodes) cdParam(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	cd := g.c.P.Named("featselect", "CDParam")
	if cd == nil {
		return false
	}
	if types.Identical(t, cd) {
		return true
	}
	it, ok := cd.Underlying().(*types.Interface)
	return ok && !types.IsInterface(t) && (types.Implements(t, it) || types.Implements(types.NewPointer(t), it))
}

func (g *nodes) call(s *psim.State, cx *pta.Ctx, in ssa.CallInstruction) ([]psim.Val, bool, bool) {
	m := g.m
	cc := in.Common()
	args := cc.Args
	ev := func(i int) psim.Val { return m.Eval(s, cx, args[i]) }
	one := func(v psim.Val) ([]psim.Val, bool, bool) { return []psim.Val{v}, true, false }
	at := ""
	if in.Value() != nil {
		at = psim.SymOf(cx, in.Value())
	}
	unk := func() psim.Val { return m.Unknown(s, cx, in.Value()) }
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "copy":
			if !isIntList(args[0].Type()) && !isFloatList(args[0].Type()) {
				return nil, false, false
			}
			c := listContent(s, ev(1))
			off := false
			for _, a := range args {
				if sl, ok := a.(*ssa.Slice); ok && sl.Low != nil && !constIs(sl.Low, 0) {
					off = true
				}
			}
			if off {
				c = "shifted(" + g.freshIn(s, at) + ")"
				if sl, ok := args[0].(*ssa.Slice); ok {
					// the list as a whole
					g.modified(s, m.Eval(s, cx, sl.X), c, in.Pos(), at)
					return nil, false, false
				}
			}
			if d := listContent(s, ev(0)); d != "zero" && d != "empty" && c == "" {
				c = "@" + g.freshIn(s, at)
			}
			g.modified(s, ev(0), c, in.Pos(), at)
			return nil, false, false
		case "append":
			if in.Value() == nil || len(args) != 2 {
				return nil, false, false
			}
			t := args[0].Type()
			if g.isNode(sliceElem(t)) {
				g.made(s, cx, in.Pos())
				return nil, false, false
			}
			if !isIntList(t) && !isFloatList(t) {
				return nil, false, false
			}
			l := ev(0)
			ca := listContent(s, l)
			r := listRoot(s, l)
			_, cut := s.Cell[key(unbox(l))+"|cut"]
			own := ca == "empty" && !cut
			v := oneVararg(args[1])
			c := ""
			switch {
			case v != nil && g.inner(in):
				c = "@" + g.freshIn(s, at)
			case v != nil && isIntList(t) && ca == "empty":
				c = "sorted(" + g.freshIn(s, at) + ")"
			case v != nil && isIntList(t):
				c = "grown(" + g.freshIn(s, at) + ")"
			case v == nil && ca == "empty":
				c = listContent(s, ev(1))
			case v == nil && pieces(args[0], args[1]) && ascending(ca) == 1:
				c = "sorted(" + g.freshIn(s, at) + ")"
			case v == nil && pieces(args[0], args[1]) && ascending(ca) == -1:
				c = "written(" + g.freshIn(s, at) + ")"
			default:
				c = "@" + g.freshIn(s, at)
			}
			if cut {
				g.modified(s, l, ca, in.Pos(), at+"c")
			}
			u := unk()
			setC(s, u, c)
			if !own {
				setRoot(s, u, r)
			}
			return one(u)
		}
		return nil, false, false
	}
	if cc.IsInvoke() {
		name := cc.Method.Name()
		if g.cdParam(cc.Value.Type()) {
			return g.estimate(s, cx, in, name, args, at)
		}
		switch name {
		case "AtVec":
			return one(g.element(s, m.Eval(s, cx, cc.Value), ev(0), false, at, unk))
		case "At":
			if constIs(args[1], 0) {
				return one(g.element(s, m.Eval(s, cx, cc.Value), ev(0), false, at, unk))
			}
		}
	}
	pkg, recv, fn := calledAs(in)
	inMod := g.c.P.InModule(pkg)
	if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil && inMod && g.cdParam(f.Signature.Recv().Type()) {
		return g.estimate(s, cx, in, fn, args[1:], at)
	}
	if (inMod && recv == "" && fn == "LassoCrdDesc" || cc.StaticCallee() == nil && !cc.IsInvoke() && g.solver(cc.Value.Type())) && in.Value() != nil {
		u := unk()
		setC(s, u, "X("+psim.Tok(u)+")")
		return one(u)
	}
	switch {
	case inMod && fn == "NewIndexedColVecView" && len(args) == 2:
		u := unk()
		setC(s, u, "al("+listContent(s, ev(1))+")")
		return one(u)
	case pkg == "sort" && (fn == "Float64s" || fn == "Sort" || fn == "Stable" || fn == "Slice" || fn == "SliceStable") && floatsOf(args[0]) != nil,
		pkg == "slices" && (fn == "Sort" || fn == "SortFunc" || fn == "SortStableFunc") && floatsOf(args[0]) != nil:
		// the coefficients move, the features do not
		l := m.Eval(s, cx, floatsOf(args[0]))
		if c := listContent(s, l); headOf(c) == "al" {
			g.modified(s, l, "mixed("+g.freshIn(s, at+"=")+")", in.Pos(), at+"=")
		} else {
			g.modified(s, l, "@"+g.freshIn(s, at+"="), in.Pos(), at+"=")
		}
		return nil, false, false
	case pkg == "sort" && (fn == "Ints" || fn == "Sort" || fn == "Stable"), pkg == "slices" && fn == "Sort":
		l := unbox(ev(0))
		if c := listContent(s, l); !g.sortable(args[0]) {
			return nil, false, false
		} else if strings.HasPrefix(c, "reverse") {
			return nil, false, false
		}
		g.sorted(s, l, "sorted", in.Pos(), at)
		return nil, false, false
	case pkg == "sort" && fn == "Reverse":
		l := unbox(ev(0))
		g.modified(s, l, "descending("+g.freshIn(s, at)+")", in.Pos(), at)
		return nil, false, false
	case pkg == "slices" && fn == "Reverse":
		l := unbox(ev(0))
		if c := listContent(s, l); strings.HasPrefix(c, "dnz(") {
			g.modified(s, l, c[1:], in.Pos(), at)
		} else if strings.HasPrefix(c, "al(dnz(") {
			g.modified(s, l, "al("+c[4:], in.Pos(), at)
		} else if isIntList(args[0].Type()) {
			g.modified(s, l, "descending("+g.freshIn(s, at)+")", in.Pos(), at)
		} else {
			g.modified(s, l, "mixed("+g.freshIn(s, at)+")", in.Pos(), at)
		}
		return nil, false, false
	case pkg == "sort" && (fn == "Slice" || fn == "SliceStable"), pkg == "slices" && (fn == "SortFunc" || fn == "SortStableFunc"):
		l := unbox(ev(0))
		switch lessOf(args[1]) {
		case 1:
			g.sorted(s, l, "sorted", in.Pos(), at)
		case -1:
			g.sorted(s, l, "descending", in.Pos(), at)
		default:
			g.modified(s, l, "@"+g.freshIn(s, at), in.Pos(), at)
		}
		return nil, false, false
	case pkg == "slices" && fn == "Clone", pkg == "slices" && fn == "Sorted":
		u := unk()
		setC(s, u, listContent(s, ev(0)))
		return one(u)
	case pkg == "math" && (fn == "Min" || fn == "Max"):
		r := number(at, ev(0), ev(1))
		for k := range s.Cell {
			if strings.HasPrefix(k, "t:ng(") && strings.Contains(k, psim.Tok(r)) {
				delete(s.Cell, k)
			}
		}
		for i := range args {
			x, y := psim.Tok(r), psim.Tok(ev(i))
			if fn == "Max" {
				x, y = y, x
			}
			s.Cell["t:ng("+x+"|"+y+")"] = psim.BoolV(true)
		}
		return one(r)
	case pkg == "math" && in.Value() != nil && isFloatT(in.Value().Type()):
		var vs []psim.Val
		for i := range args {
			vs = append(vs, ev(i))
		}
		return one(number(at, vs...))
	}
	if strings.HasSuffix(pkg, "gonum/mat") {
		return g.matrix(s, cx, in, recv, fn, at)
	}
	if inMod {
		return nil, false, false
	}
	if in.Value() != nil && isFloatT(in.Value().Type()) && pkg != "" {
		u := unk()
		return one(psim.SymV("t:f(" + psim.Tok(u) + ";" + at + ")"))
	}
	return nil, false, false
}

// sortable: the argument is a list of numbers in its natural order
func (g *nodes) sortable(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			n, ok := x.X.Type().(*types.Named)
			if ok && !(n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sort" && n.Obj().Name() == "IntSlice") {
				return false
			}
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		}
		return isIntList(v.Type())
	}
}

// floatsOf: the list of numbers behind what is given to a sort
func floatsOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			if n, ok := x.X.Type().(*types.Named); ok && !(n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sort" && n.Obj().Name() == "Float64Slice") {
				return nil
			}
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		}
		if isFloatList(v.Type()) {
			return v
		}
		return nil
	}
}

func (g *nodes) sorted(s *psim.State, l psim.Val, how string, pos token.Pos, at string) {
	c := listContent(s, l)
	if how == "sorted" && ascending(c) == 1 {
		return // nothing moves
	}
	g.modified(s, l, how+"("+g.freshIn(s, at)+")", pos, at)
}

// lessOf: the order of a comparison of two elements by their places
func lessOf(v ssa.Value) int {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		}
		break
	}
	var f *ssa.Function
	switch x := v.(type) {
	case *ssa.MakeClosure:
		f = x.Fn.(*ssa.Function)
	case *ssa.Function:
		f = x
	}
	if f == nil || len(f.Blocks) != 1 || len(f.Params) != 2 {
		return 0
	}
	ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) != 1 {
		return 0
	}
	cmp, ok := ret.Results[0].(*ssa.BinOp)
	if !ok {
		return 0
	}
	par := func(v ssa.Value) int {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if ia, ok := u.X.(*ssa.IndexAddr); ok {
				v = ia.Index
			}
		}
		for i, p := range f.Params {
			if v == ssa.Value(p) {
				return i
			}
		}
		return -1
	}
	a, b := par(cmp.X), par(cmp.Y)
	if a < 0 || b < 0 || a == b {
		return 0
	}
	d := 1
	if a == 1 {
		d = -1
	}
	switch cmp.Op {
	case token.LSS, token.LEQ, token.SUB:
		return d
	case token.GTR, token.GEQ:
		return -d
	}
	return 0
}

// pieces: two parts of one list, the first from its start and the second to
// its end
func pieces(a, b ssa.Value) bool {
	p, ok1 := a.(*ssa.Slice)
	q, ok2 := b.(*ssa.Slice)
	return ok1 && ok2 && p.Low == nil && q.High == nil && p.High != nil && q.Low != nil && sameList(p.X, q.X)
}

// solver: the type of a routine that solves the lasso
func (g *nodes) solver(t types.Type) bool {
	sg, ok := t.Underlying().(*types.Signature)
	f := g.c.P.Func("featselect", "LassoCrdDesc")
	return ok && f != nil && types.Identical(types.NewSignatureType(nil, nil, nil, f.Signature.Params(), f.Signature.Results(), false), types.NewSignatureType(nil, nil, nil, sg.Params(), sg.Results(), false))
}

// estimate: the two parts of the solution are computed for the active set that
// was set
func (g *nodes) estimate(s *psim.State, cx *pta.Ctx, in ssa.CallInstruction, name string, args []ssa.Value, at string) ([]psim.Val, bool, bool) {
	ev := func(i int) psim.Val { return g.m.Eval(s, cx, args[i]) }
	switch name {
	case "SetActiveSet":
		s.Cell["est|active"] = psim.SymV("t:" + listContent(s, ev(0)))
		s.Cell["est|root"] = listRoot(s, ev(0))
		return nil, true, false
	case "C", "D":
		u := g.m.Unknown(s, cx, in.Value())
		act, ok := s.Cell["est|active"]
		if !ok {
			return []psim.Val{u}, true, false
		}
		c := psim.Tok(act)
		if name == "D" {
			switch sc := listContent(s, ev(0)); {
			case sc == "al("+c+")":
			case headOf(sc) == "al" && !strings.HasPrefix(sc, "al(@"), headOf(sc) == "mixed":
				setC(s, u, "misplaced("+g.freshIn(s, at+"m")+")")
				return []psim.Val{u}, true, false
			default:
				return []psim.Val{u}, true, false
			}
		}
		setC(s, u, "al("+c+")")
		return []psim.Val{u}, true, false
	}
	if in.Value() != nil {
		return []psim.Val{g.m.Unknown(s, cx, in.Value())}, true, false
	}
	return nil, true, false
}

// matrix routines that keep the elements of vectors in their places
func (g *nodes) matrix(s *psim.State, cx *pta.Ctx, in ssa.CallInstruction, recv, fn, at string) ([]psim.Val, bool, bool) {
	m := g.m
	args := in.Common().Args
	ev := func(i int) psim.Val { return m.Eval(s, cx, args[i]) }
	one := func(v psim.Val) ([]psim.Val, bool, bool) { return []psim.Val{v}, true, false }
	unk := func() psim.Val { return m.Unknown(s, cx, in.Value()) }
	combine := func(is ...int) string {
		c := ""
		for _, i := range is {
			x := listContent(s, ev(i))
			switch {
			case c == "" || c == "zero":
				c = x
			case x == "zero" || x == c:
			case headOf(x) == "misplaced" || headOf(c) == "misplaced":
				return "misplaced(" + g.freshIn(s, at+"m") + ")"
			case headOf(x) == "al" && headOf(c) == "al":
				return "mixed(" + g.freshIn(s, at) + ")"
			default:
				return "@" + g.freshIn(s, at)
			}
		}
		return c
	}
	switch recv + "." + fn {
	case ".NewVecDense":
		d := ev(1)
		u := unk()
		s.Con[u.S] = psim.Con{NilK: 2}
		if d.K == psim.Nil {
			setC(s, u, "zero")
		} else {
			setC(s, u, listContent(s, d))
			setRoot(s, u, listRoot(s, d))
		}
		return one(u)
	case ".VecDenseCopyOf":
		c := listContent(s, ev(0))
		u := unk()
		s.Con[u.S] = psim.Con{NilK: 2}
		setC(s, u, c)
		return one(u)
	case ".Col":
		c := listContent(s, ev(2))
		u := unk()
		setC(s, u, c)
		return one(u)
	case "VecDense.AtVec":
		return one(g.element(s, ev(0), ev(1), false, at, unk))
	case "VecDense.At":
		return one(g.element(s, ev(0), ev(1), false, at, unk))
	case "VecDense.SetVec":
		g.assign(s, ev(0), ev(1), ev(2), in.Pos(), at)
		return nil, true, false
	case "VecDense.RawVector":
		v := ev(0)
		c, r := listContent(s, v), listRoot(s, v)
		u := unk()
		st, ok := in.Value().Type().Underlying().(*types.Struct)
		if !ok {
			return one(u)
		}
		for i := 0; i < st.NumFields(); i++ {
			if isFloatList(st.Field(i).Type()) {
				n := "data@" + at
				m.Fresh(s, n, psim.VK{})
				d := psim.SymV(n)
				s.Cell[fmt.Sprintf("%s|.%d", u.S, i)] = d
				setC(s, d, c)
				setRoot(s, d, r)
			}
		}
		return one(u)
	case "VecDense.CopyVec", "VecDense.CloneFromVec", "VecDense.CloneVec":
		g.modified(s, ev(0), listContent(s, ev(1)), in.Pos(), at)
		if in.Value() != nil && fn == "CopyVec" {
			return one(unk())
		}
		return nil, true, false
	case "VecDense.AddVec", "VecDense.SubVec", "VecDense.MulElemVec", "VecDense.DivElemVec":
		g.modified(s, ev(0), combine(1, 2), in.Pos(), at)
		return nil, true, false
	case "VecDense.AddScaledVec":
		g.modified(s, ev(0), combine(1, 3), in.Pos(), at)
		return nil, true, false
	case "VecDense.ScaleVec":
		g.modified(s, ev(0), combine(2), in.Pos(), at)
		return nil, true, false
	case "VecDense.Len", "VecDense.Dims", "VecDense.T":
		return nil, false, false
	}
	if recv == "VecDense" && len(args) > 0 && isVec(args[0].Type()) && in.Value() != nil {
		if _, ok := in.Value().Type().(*types.Tuple); ok {
			g.modified(s, ev(0), "@"+g.freshIn(s, at), in.Pos(), at)
		}
	}
	if in.Value() != nil && isFloatT(in.Value().Type()) {
		u := unk()
		return one(psim.SymV("t:f(" + psim.Tok(u) + ";" + at + ")"))
	}
	return nil, false, false
}

// ---- the rules ----

func checkNodes(c *Ctx) {
	cs := complaints{}
	total := map[string]int{}
	steps := 0
	add := func(g *nodes) {
		for k, n := range g.counts {
			total[k] += n
		}
		steps += g.m.Steps()
	}
	if fn := c.Need("featselect", "LassoLars"); fn != nil {
		a := c.analyse(fn)
		g := c.newNodes(a, cs)
		if g == nil {
			return
		}
		m := g.sim()
		m.Run(pta.Point{Ctx: a.RootCtx}, psim.NewState())
		add(g)
		c.over(m, "LassoLars", fn.Pos())
		c.nodesDone(cs, g, "LassoLars", fn.Pos(), ruleSorted, ruleAligned, ruleCopy, ruleLambda)
	}
	if fn := c.Need("featselect", "LassoCrdDescPath"); fn != nil {
		a := c.analyse(fn)
		cs2 := complaints{}
		g := c.newNodes(a, cs2)
		g.cd = true
		for _, t := range a.CtxList() {
			_, isGo := t.Call.(*ssa.Go)
			if !(isGo || t == a.RootCtx) {
				continue
			}
			m := g.sim()
			m.Run(pta.Point{Ctx: t}, psim.NewState())
			add(g)
			c.over(m, "LassoCrdDescPath", fn.Pos())
		}
		c.nodesDone(cs2, g, "LassoCrdDescPath", fn.Pos(), ruleSorted, ruleAligned, ruleCopy, ruleNonZero)
	}
	for _, k := range []string{"nodes", "in order", "aligned", "not increased", "listed when non-zero"} {
		c.Count(k, total[k])
	}
	c.Count("abstract states", steps)
}

func (c *Ctx) over(m *psim.Sim, what string, pos token.Pos) {
	if m.Over {
		c.Add(ruleSorted, what, pos, Undecided, "too many states")
	}
}

func (c *Ctx) nodesDone(cs complaints, g *nodes, what string, pos token.Pos, rules ...string) {
	if g.counts["nodes"] == 0 {
		c.Add("anchor", what, pos, Undecided, "no node is made")
		return
	}
	for _, r := range rules {
		v, bad := cs[r]
		p := pos
		if bad {
			p = v.pos
		}
		c.Check(!bad, r, what, p, "%s", v.msg)
	}
}

func init() {
	registry["L02"] = func(c *Ctx) {
		c.Rule(ruleSorted, "where a node is complete, its list of features has been sorted since it was last added to or written, or was collected in ascending order")
		c.Rule(ruleAligned, "the coefficients of a node were computed position by position for the list of features, in that order, that the node holds")
		c.Rule(ruleCopy, "the memory of the lists a node holds is not written to once the node is complete")
		c.Rule(ruleLambda, "comparisons on every way from one node to the next show that its regularisation is not greater")
		c.Rule(ruleNonZero, "the scan of a solution lists a feature, with its coefficient, exactly when the coefficient is not zero")
		c.Rule("filed under its job", "the node of a regularisation is stored at the position of that regularisation, largest first")
		checkNodes(c)
		c.checkFiled(filedRoots[0])
	}
	explain["L02"] = "Path-sensitive abstract interpretation (property simulation) over contents: lists of features carry whether they are in ascending order, vectors of coefficients the list, in its order, that they were computed for; sorting, appending, copying, position-by-position loops and vector routines change the contents, and the two that meet in a node must agree. Scans of a solution are decided by running one round of the loop abstractly for a partition of the values of the element. Comparisons on the paths order the regularisations."
}
