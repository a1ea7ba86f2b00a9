package check

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"gsa/psim"
	"gsa/pta"
	"gsa/sem"

	"golang.org/x/tools/go/ssa"
)

// ---- linear integers as terms ----

// linear is an integer written over terms
type linear struct {
	at map[string]int64
	k  int64
}

func linOf(v psim.Val) (linear, bool) {
	switch v.K {
	case psim.Int:
		return linear{map[string]int64{}, v.N}, true
	case psim.Sym:
		l := parseLinear(psim.Tok(psim.SymV(v.S)))
		l.k += v.N
		return l, true
	}
	return linear{}, false
}

func (l linear) add(m linear, c int64) linear {
	r := linear{map[string]int64{}, l.k + c*m.k}
	for a, n := range l.at {
		r.at[a] += n
	}
	for a, n := range m.at {
		r.at[a] += c * n
	}
	for a, n := range r.at {
		if n == 0 {
			delete(r.at, a)
		}
	}
	return r
}

func (l linear) String() string {
	if len(l.at) == 0 {
		return strconv.FormatInt(l.k, 10)
	}
	var as []string
	for a := range l.at {
		as = append(as, a)
	}
	if len(as) == 1 && l.at[as[0]] == 1 && l.k == 0 {
		return as[0]
	}
	sort.Strings(as)
	var ps []string
	for _, a := range as {
		ps = append(ps, fmt.Sprintf("%d*%s", l.at[a], a))
	}
	ps = append(ps, strconv.FormatInt(l.k, 10))
	return "lin(" + strings.Join(ps, " + ") + ")"
}

// val gives the abstract value; the constant is its offset
func (l linear) val() psim.Val {
	if len(l.at) == 0 {
		return psim.IntV(l.k)
	}
	k := l.k
	l.k = 0
	s := l.String()
	if len(l.at) == 1 && strings.HasPrefix(s, "«") && strings.HasSuffix(s, "»") && strings.Count(s, "«") == 1 {
		return psim.Val{K: psim.Sym, S: strings.TrimSuffix(strings.TrimPrefix(s, "«"), "»"), N: k}
	}
	return psim.Val{K: psim.Sym, S: "t:" + s, N: k}
}

func parseLinear(s string) linear {
	r := linear{map[string]int64{}, 0}
	if n, err := strconv.ParseInt(s, 10, 64); err == nil {
		r.k = n
		return r
	}
	if !strings.HasPrefix(s, "lin(") || !strings.HasSuffix(s, ")") {
		r.at[s] = 1
		return r
	}
	for _, p := range splitTop(s[4:len(s)-1], " + ") {
		if n, err := strconv.ParseInt(p, 10, 64); err == nil {
			r.k += n
			continue
		}
		i := strings.Index(p, "*")
		n, _ := strconv.ParseInt(p[:i], 10, 64)
		r.at[p[i+1:]] += n
	}
	return r
}

// splitTop splits at separators outside parentheses
func splitTop(s, sep string) []string {
	var r []string
	d, from := 0, 0
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '(':
			d++
		case s[i] == ')':
			d--
		case d == 0 && strings.HasPrefix(s[i:], sep):
			r = append(r, s[from:i])
			from = i + len(sep)
		}
	}
	return append(r, s[from:])
}

// args of a term f(a,b): its head and arguments
func termArgs(s string) (string, []string) {
	i := strings.Index(s, "(")
	if i <= 0 || !strings.HasSuffix(s, ")") {
		return "", nil
	}
	return s[:i], splitTop(s[i+1:len(s)-1], ",")
}

// tokOf is the term of a value, integers in linear form
func tokOf(v psim.Val) string {
	if v.K == psim.Int || v.K == psim.Sym && v.N != 0 {
		if l, ok := linOf(v); ok {
			return l.String()
		}
	}
	if v.K == psim.Box {
		return tokOf(*v.A)
	}
	return psim.Tok(v)
}

// canon sorts the arguments of commutative operations
func canonTerm(s string) string {
	h, as := termArgs(s)
	if h == "" {
		return s
	}
	if h == "lin" {
		l := parseLinear(s)
		r := linear{map[string]int64{}, l.k}
		for a, n := range l.at {
			r = r.add(parseLinear(canonTerm(a)), n)
		}
		return r.String()
	}
	for i, a := range as {
		as[i] = canonTerm(a)
	}
	if h == "fadd" || h == "fmul" {
		sort.Strings(as)
	}
	return h + "(" + strings.Join(as, ",") + ")"
}

// msgField is the term of a part of a message
func msgField(sym, path string) string { return "f(«" + sym + "»," + path + ")" }

// compose writes a term about a message over what was sent
func compose(t, sym string, sent map[string]string) string {
	h, as := termArgs(t)
	if t == "«"+sym+"»" {
		if x, ok := sent[""]; ok {
			return x
		}
	}
	if h == "" {
		return t
	}
	if h == "f" && len(as) == 2 && as[0] == "«"+sym+"»" {
		if x, ok := sent[as[1]]; ok {
			return x
		}
		return "?(" + t + ")"
	}
	if h == "lin" {
		l := parseLinear(t)
		r := linear{map[string]int64{}, l.k}
		for a, n := range l.at {
			r = r.add(parseLinear(compose(a, sym, sent)), n)
		}
		return r.String()
	}
	for i, a := range as {
		as[i] = compose(a, sym, sent)
	}
	return h + "(" + strings.Join(as, ",") + ")"
}

// ---- following work and results ----

type filing struct {
	c     *Ctx
	p     *pools
	a     *pta.An
	owner *pta.Ctx
	work  []*pta.Obj
	res   []*pta.Obj
	heads map[*pta.Ctx][]*ssaLoop
	loops map[*ssa.Function][]*idxLoop
	over  bool

	sends  []sentMsg      // what the owner hands out
	recv   map[string]int // names of received results
	lr     []*loopRun
	rets   []retRec
	evs    []fileEv
	evIdx  map[string]int
	fills  map[string]fillAt
	spoilt map[string]bool
}

type sentMsg struct {
	fields map[string]string
	pos    token.Pos
	loop   *loopRun
	path   int
}

type fileEv struct {
	kind   string // recv, send, store, hyper, str, print
	sym    string // message received
	fields map[string]string
	list   string
	idx    string
	val    string
	elem   types.Type
	args   []string
	pos    token.Pos
	many   bool // repeated within one round
}

type retRec struct {
	vals   []string
	fields []map[string]string
	pos    token.Pos
}

type filePath struct {
	evs   []fileEv
	facts []psim.Val
	exit  bool
	st    *psim.State
	pos   token.Pos
	next  map[string]string // what the loop's variables are at the end
}

type loopRun struct {
	ctx   *pta.Ctx
	loop  *ssaLoop
	entry map[string]string // what the loop's variables are when it starts
	vars  map[string]bool   // names of the loop's variables
	typ   map[string]types.Type
	paths []filePath
	empty map[string]bool // lists that are empty at the start, by name
}

// opaque routines whose results are terms
var filedNames = map[string]bool{
	".LassoCrdDesc": true, ".GetCohensKappa": true, ".RandomRowSplit": true, ".CovarianceMatrix": true, ".NewNormalizedData": true,
	".Argmin": true, ".Argsort": true, "ThresholdOperator.Apply": true,
}

func (g *filing) sim() *psim.Sim {
	m := psim.New(g.a)
	m.Ints, m.Coarse = false, true
	m.Opaque = func(x *pta.Ctx) bool {
		if x.Fn.Pkg == nil || !g.c.P.InModule(x.Fn.Pkg.Pkg.Path()) {
			return true
		}
		n := x.Fn.Name()
		if r := x.Fn.Signature.Recv(); r != nil {
			t := r.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if nt, ok := t.(*types.Named); ok {
				return filedNames[nt.Obj().Name()+"."+n]
			}
		}
		return filedNames["."+n]
	}
	m.Value = func(s *psim.State, cx *pta.Ctx, v ssa.Value) (psim.Val, bool) { return g.value(m, s, cx, v) }
	m.Call = func(s *psim.State, cx *pta.Ctx, in ssa.CallInstruction) ([]psim.Val, bool, bool) {
		return g.call(m, s, cx, in)
	}
	m.Head = func(cx *pta.Ctx, b *ssa.BasicBlock) bool { return g.headAt(cx, firstReal(b)) != nil }
	m.KeepCell = func(k string) bool { return strings.HasSuffix(k, "|len") }
	return m
}

// fill gives the parts of a message received under a name
func (g *filing) fill(s *psim.State, name string, t types.Type) {
	var rec func(pre string, t types.Type)
	rec = func(pre string, t types.Type) {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			if pre != "" {
				s.Cell[name+"|"+pre] = psim.SymV("t:" + msgField(name, pre))
			}
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			rec(pre+"."+strconv.Itoa(i), st.Field(i).Type())
		}
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	rec("", t)
}

func (g *filing) isMsg(o chanOp) bool {
	for _, ch := range o.chs {
		if has(g.work, ch) || has(g.res, ch) {
			return true
		}
	}
	return false
}

func (g *filing) value(m *psim.Sim, s *psim.State, cx *pta.Ctx, v ssa.Value) (psim.Val, bool) {
	ev := func(x ssa.Value) psim.Val { return m.Eval(s, cx, x) }
	switch x := v.(type) {
	case *ssa.UnOp:
		switch {
		case x.Op == token.ARROW && !x.CommaOk:
			for _, o := range g.p.at(cx, x, -1) {
				if g.isMsg(o) {
					u := m.Unknown(s, cx, v)
					g.fill(s, u.S, x.Type())
					if _, ok := x.Type().Underlying().(*types.Pointer); ok {
						s.Con[u.S] = psim.Con{NilK: 2}
					}
					return u, true
				}
			}
		case x.Op == token.MUL:
			if ia, ok := x.X.(*ssa.IndexAddr); ok && sliceElem(ia.X.Type()) != nil {
				t := psim.SymV("t:" + g.at(ev(ia.X), ev(ia.Index)))
				if _, ok := x.Type().Underlying().(*types.Struct); ok {
					u := m.Unknown(s, cx, v)
					g.fillFrom(s, u.S, t.S[2:], x.Type())
					return u, true
				}
				return t, true
			}
			if _, ok := x.Type().Underlying().(*types.Struct); ok {
				return psim.Val{}, false
			}
			// a part of something that a message points to
			a := ev(x.X)
			if a.K == psim.Addr && strings.HasPrefix(a.S, "t:") && !strings.Contains(a.P, "?") {
				if c, ok := s.Cell[a.S+"|"+a.P]; ok {
					return c, true
				}
				return psim.SymV("t:part(" + a.S[2:] + "," + a.P + ")"), true
			}
		}
	case *ssa.Extract:
		switch tu := x.Tuple.(type) {
		case *ssa.UnOp:
			if tu.Op == token.ARROW && x.Index == 0 {
				g.fill(s, psim.SymOf(cx, tu)+"#0", x.Type())
			}
		case *ssa.Select:
			if x.Index >= 2 {
				g.fill(s, psim.SymOf(cx, tu)+"#"+strconv.Itoa(x.Index), x.Type())
			}
		}
	case *ssa.Field:
		a := ev(x.X)
		if _, ok := x.Type().Underlying().(*types.Struct); ok && a.K == psim.Sym {
			pre := a.S + "|." + strconv.Itoa(x.Field)
			vals := map[string]psim.Val{}
			for k, c := range s.Cell {
				if strings.HasPrefix(k, pre+".") {
					vals[k[len(pre):]] = c
				}
			}
			u := m.Unknown(s, cx, v)
			for k, c := range vals {
				s.Cell[u.S+"|"+k] = c
			}
			return u, true
		}
	case *ssa.BinOp:
		p, q := ev(x.X), ev(x.Y)
		if isIntT(x.Type()) {
			a, ok1 := linOf(p)
			b, ok2 := linOf(q)
			if !ok1 || !ok2 {
				return psim.Val{}, false
			}
			switch x.Op {
			case token.ADD:
				return a.add(b, 1).val(), true
			case token.SUB:
				return a.add(b, -1).val(), true
			case token.MUL:
				if len(b.at) == 0 {
					a, b = b, a
				}
				if len(a.at) == 0 {
					return linear{map[string]int64{}, 0}.add(b, a.k).val(), true
				}
				l := []string{a.String(), b.String()}
				sort.Strings(l)
				return term("imul(%s,%s)", l[0], l[1]), true
			case token.REM:
				return term("rem(%s,%s)", a, b), true
			case token.QUO:
				return term("idiv(%s,%s)", a, b), true
			}
			return psim.Val{}, false
		}
		if isFloatT(x.Type()) {
			a, b := tokOf(p), tokOf(q)
			switch x.Op {
			case token.ADD, token.MUL:
				n := map[token.Token]string{token.ADD: "fadd", token.MUL: "fmul"}[x.Op]
				return psim.SymV("t:" + canonTerm(n+"("+a+","+b+")")), true
			case token.SUB:
				if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil {
					n := tokOf(psim.SymV("const:" + constant.UnaryOp(token.SUB, c.Value, 0).String()))
					return psim.SymV("t:" + canonTerm("fadd("+a+","+n+")")), true
				}
				return term("fsub(%s,%s)", a, b), true
			case token.QUO:
				return term("fquo(%s,%s)", a, b), true
			}
		}
	case *ssa.Convert:
		switch {
		case isFloatT(x.Type()) && isIntT(x.X.Type()):
			return term("float(%s)", tokOf(ev(x.X))), true
		case isIntT(x.Type()) && isFloatT(x.X.Type()):
			return term("int(%s)", tokOf(ev(x.X))), true
		}
	case *ssa.Slice:
		if sliceElem(x.X.Type()) == nil || x.Max != nil {
			return psim.Val{}, false
		}
		b := ev(x.X)
		if x.High != nil {
			hi := ev(x.High)
			if n, ok := s.Cell[key(b)+"|len"]; !ok || n.String() != hi.String() {
				return psim.Val{}, false
			}
		}
		if x.Low == nil || constIs(x.Low, 0) {
			return b, true
		}
		lo := ev(x.Low)
		if n, ok := linOf(lo); ok {
			base := tokOf(b)
			if h, as := termArgs(base); h == "drop" && len(as) == 2 {
				base, n = as[0], n.add(parseLinear(as[1]), 1)
			}
			return term("drop(%s,%s)", base, n), true
		}
	case *ssa.MakeSlice:
		n := ev(x.Len)
		u := m.Unknown(s, cx, v)
		s.Con[u.S] = psim.Con{NilK: 2}
		s.Cell[key(u)+"|len"] = n
		return u, true
	}
	return psim.Val{}, false
}

// at is an element of a list
func (g *filing) at(l, i psim.Val) string {
	base, n := tokOf(l), tokOf(i)
	if h, as := termArgs(base); h == "drop" && len(as) == 2 {
		base, n = as[0], parseLinear(as[1]).add(parseLinear(n), 1).String()
	}
	return "at(" + base + "," + n + ")"
}

func (g *filing) fillFrom(s *psim.State, name, t string, typ types.Type) {
	var rec func(pre string, t2 types.Type)
	rec = func(pre string, t2 types.Type) {
		st, ok := t2.Underlying().(*types.Struct)
		if !ok {
			s.Cell[name+"|"+pre] = psim.SymV("t:part(" + t + "," + pre + ")")
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			rec(pre+"."+strconv.Itoa(i), st.Field(i).Type())
		}
	}
	rec("", typ)
}

func (g *filing) call(m *psim.Sim, s *psim.State, cx *pta.Ctx, in ssa.CallInstruction) ([]psim.Val, bool, bool) {
	cc := in.Common()
	args := cc.Args
	ev := func(i int) psim.Val { return m.Eval(s, cx, args[i]) }
	one := func(f string, a ...interface{}) ([]psim.Val, bool, bool) {
		return []psim.Val{term(f, a...)}, true, false
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "len":
			v := ev(0)
			if n, ok := s.Cell[key(v)+"|len"]; ok {
				return []psim.Val{n}, true, false
			}
			if v.K == psim.Nil {
				return []psim.Val{psim.IntV(0)}, true, false
			}
			t := tokOf(v)
			if h, as := termArgs(t); h == "drop" && len(as) == 2 {
				var base psim.Val = psim.SymV("t:" + as[0])
				if strings.HasPrefix(as[0], "«") && strings.Count(as[0], "«") == 1 && strings.HasSuffix(as[0], "»") {
					base = psim.SymV(strings.TrimSuffix(strings.TrimPrefix(as[0], "«"), "»"))
				}
				l := parseLinear("len(" + as[0] + ")")
				if n, ok := s.Cell[key(base)+"|len"]; ok {
					l, _ = linOf(n)
				}
				return []psim.Val{l.add(parseLinear(as[1]), -1).val()}, true, false
			}
			return one("len(%s)", t)
		case "append":
			if in.Value() == nil || len(args) != 2 {
				return nil, false, false
			}
			l := ev(0)
			u := m.Unknown(s, cx, in.Value())
			delete(s.Cell, key(u)+"|len")
			if e := oneVararg(args[1]); e != nil {
				g.appended(m, s, cx, in, l, u, e)
			}
			return []psim.Val{u}, true, false
		}
		return nil, false, false
	}
	if cc.IsInvoke() && in.Value() != nil {
		r := tokOf(m.Eval(s, cx, cc.Value))
		switch cc.Method.Name() {
		case "HyperParameters":
			return one("hyper(%s)", r)
		case "StringRep":
			return one("str(%s)", r)
		}
	}
	pkg, recv, fn := calledAs(in)
	switch {
	case g.c.P.InModule(pkg) && filedNames[recv+"."+fn]:
		switch recv + "." + fn {
		case ".GetCohensKappa":
			return one("kappa(%s)", tokOf(unbox(ev(1))))
		case ".Argmin", ".Argsort":
			return one("%s(%s)", strings.ToLower(fn), tokOf(ev(0)))
		case "ThresholdOperator.Apply":
			return nil, true, false
		}
		if in.Value() == nil {
			return nil, true, false
		}
		if _, ok := in.Value().Type().(*types.Tuple); ok {
			return nil, false, false
		}
		return []psim.Val{m.Unknown(s, cx, in.Value())}, true, false
	case pkg == "math" && in.Value() != nil && len(args) > 0:
		var l []string
		for i := range args {
			l = append(l, tokOf(ev(i)))
		}
		return one("math%s(%s)", fn, strings.Join(l, ","))
	}
	return nil, false, false
}

// appended: a list that grows by one number per round of a counted loop holds
// different numbers
func (g *filing) appended(m *psim.Sim, s *psim.State, cx *pta.Ctx, in ssa.CallInstruction, l, u psim.Val, e ssa.Value) {
	if !isIntT(e.Type()) {
		return
	}
	if lp := g.counted(cx, in.Block()); lp != nil {
		if v, ok := linOf(m.Eval(s, cx, e)); ok {
			if n := v.at["«"+psim.SymOf(cx, lp.idx)+"»"]; n == 1 || n == -1 {
				g.fills[key(u)] = fillAt{cx, lp.loop}
				if lp.bound != nil {
					s.Cell[key(u)+"|len"] = g.boundOf(m, s, cx, lp.bound)
				}
			}
		}
	}
}

// boundOf evaluates the number of rounds where the loop's test may be dead
func (g *filing) boundOf(m *psim.Sim, s *psim.State, cx *pta.Ctx, b ssa.Value) psim.Val {
	if c, ok := b.(*ssa.Call); ok {
		if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			if u, ok := c.Call.Args[0].(*ssa.UnOp); ok && u.Op == token.MUL {
				if a := m.Eval(s, cx, u.X); a.K == psim.Addr {
					if l, ok := s.Cell[a.S+"|"+a.P]; ok {
						if n, ok := s.Cell[key(l)+"|len"]; ok {
							return n
						}
						return term("len(%s)", tokOf(l))
					}
				}
			}
			if r, ok, _ := g.call(m, s, cx, c); ok && len(r) == 1 {
				return r[0]
			}
		}
	}
	return m.Eval(s, cx, b)
}

// countedLoop is a loop over consecutive numbers
type countedLoop struct {
	loop  *ssaLoop
	idx   *ssa.Phi
	bound ssa.Value // number of rounds
}

// counted recognises the innermost loop around a block that is left at its
// head only and executes the block in every round
func (g *filing) counted(cx *pta.Ctx, b *ssa.BasicBlock) *countedLoop {
	for _, l := range loopsOf(b.Parent()) {
		if !l.body[b] {
			continue
		}
		x := asIdxLoop(l)
		if x != nil {
			for _, p := range l.head.Preds {
				if l.body[p] && !b.Dominates(p) {
					return nil
				}
			}
			ph, bound := x.rounds()
			if ph == nil {
				return nil
			}
			return &countedLoop{l, ph, bound}
		}
		return g.downLoop(l, b)
	}
	return nil
}

// downLoop: for i := n-1; i >= 0; i--
func (g *filing) downLoop(l *ssaLoop, b *ssa.BasicBlock) *countedLoop {
	iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	for x := range l.body {
		for _, s := range x.Succs {
			if !l.body[s] && x != l.head {
				return nil
			}
		}
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.GEQ || !constIs(cmp.Y, 0) || !l.body[iff.Block().Succs[0]] {
		return nil
	}
	ph, ok := cmp.X.(*ssa.Phi)
	if !ok || ph.Block() != l.head {
		return nil
	}
	var bound ssa.Value
	for i, p := range l.head.Preds {
		if l.body[p] {
			if !b.Dominates(p) {
				return nil
			}
			st, ok := ph.Edges[i].(*ssa.BinOp)
			if !ok || st.X != ssa.Value(ph) || !(st.Op == token.SUB && constIs(st.Y, 1) || st.Op == token.ADD && constIs(st.Y, -1)) {
				return nil
			}
			continue
		}
		st, ok := ph.Edges[i].(*ssa.BinOp)
		if !ok || st.Op != token.SUB || !constIs(st.Y, 1) {
			return nil
		}
		bound = st.X
	}
	if bound == nil {
		return nil
	}
	return &countedLoop{l, ph, bound}
}

// flatten lists the parts of a value that is sent
func (g *filing) flatten(m *psim.Sim, s *psim.State, v psim.Val, t types.Type) map[string]string {
	r := map[string]string{}
	if v.K == psim.Box {
		v = *v.A
	}
	base, pre := v.S, ""
	if v.K == psim.Addr {
		pre = v.P
	}
	if _, ok := t.Underlying().(*types.Struct); !ok {
		r[""] = tokOf(v)
	}
	var rec func(base, path, out string, t types.Type, depth int)
	rec = func(base, path, out string, t types.Type, depth int) {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		_, zeroed := s.Cell[base+"|zero"]
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i).Type()
			p, o := path+"."+strconv.Itoa(i), out+"."+strconv.Itoa(i)
			if _, ok := f.Underlying().(*types.Struct); ok {
				rec(base, p, o, f, depth)
				continue
			}
			c, ok := s.Cell[base+"|"+p]
			if !ok && zeroed {
				if _, isI := f.Underlying().(*types.Basic); isI && isIntT(f) {
					c, ok = psim.IntV(0), true
				}
			}
			if !ok {
				continue
			}
			r[o] = tokOf(c)
			if pt, isP := f.Underlying().(*types.Pointer); isP && depth < 2 {
				if nt, isN := pt.Elem().(*types.Named); isN && nt.Obj().Pkg() != nil && g.c.P.InModule(nt.Obj().Pkg().Path()) && (c.K == psim.Addr || c.K == psim.Sym) {
					cp := ""
					if c.K == psim.Addr {
						cp = c.P
					}
					rec(c.S, cp, o+"*", pt.Elem(), depth+1)
				}
			}
		}
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	rec(base, pre, "", t, 0)
	return r
}

// ---- workers ----

type workerOut struct {
	fields map[string]string // parts of the result over the parts of the work
	item   string            // name of the work item
	lamb   []string          // regularisation solved with
	thr    []string          // thresholds applied
	pos    token.Pos
}

func (g *filing) worker(t *pta.Ctx, o chanOp) []workerOut {
	var outs []workerOut
	m := g.sim()
	s := psim.NewState()
	name := psim.SymOf(o.p.Ctx, o.val)
	if o.ok {
		name += "#0"
		if o.sel >= 0 {
			s.Cell[psim.SymOf(o.p.Ctx, o.val)+"#0"] = psim.IntV(int64(o.sel))
			name = "" // found when it is looked at
		}
		s.Cell[psim.SymOf(o.p.Ctx, o.val)+"#1"] = psim.BoolV(true)
	} else {
		g.fill(s, name, o.val.Type())
	}
	if o.sel >= 0 {
		k := 2
		sel := o.p.Instr.(*ssa.Select)
		for i := 0; i < o.sel; i++ {
			if sel.States[i].Dir == types.RecvOnly {
				k++
			}
		}
		name = psim.SymOf(o.p.Ctx, o.val) + "#" + strconv.Itoa(k)
	}
	type note struct{ kind, t string }
	var notes []note
	idx := map[note]int{}
	rec := func(st *psim.State, n note) {
		i, ok := idx[n]
		if !ok {
			i = len(notes)
			notes = append(notes, n)
			idx[n] = i
		}
		st.U[fmt.Sprintf("w%02d", i)] = 1
	}
	lamb := -1
	if f := g.c.P.Func("featselect", "LassoCrdDesc"); f != nil {
		for i, p := range f.Params {
			if p.Name() == "lamb" || i == 1 {
				lamb = i
				break
			}
		}
	}
	m.Event = func(st *psim.State, cx *pta.Ctx, in ssa.Instruction, sel int) bool {
		if len(notes) > 60 {
			g.over = true
			return false
		}
		if _, ok := in.(*ssa.Defer); ok && sel != -2 {
			return true
		}
		if ci, ok := in.(ssa.CallInstruction); ok {
			pkg, recv, fn := calledAs(ci)
			if g.c.P.InModule(pkg) {
				switch recv + "." + fn {
				case ".LassoCrdDesc":
					if lamb >= 0 {
						rec(st, note{"lamb", tokOf(m.Eval(st, cx, ci.Common().Args[lamb]))})
					}
				case "ThresholdOperator.Apply":
					op := m.Eval(st, cx, ci.Common().Args[0])
					x := "?"
					if c, ok := st.Cell[fieldCell(op, 0)]; ok {
						x = tokOf(c)
					}
					rec(st, note{"thr", x})
				}
			}
		}
		for _, x := range g.p.at(cx, in, sel) {
			switch x.kind {
			case "recv":
				for _, ch := range x.chs {
					if has(o.chs, ch) {
						return false
					}
				}
			case "send":
				for _, ch := range x.chs {
					if has(g.res, ch) {
						w := workerOut{item: name, pos: in.Pos(), fields: g.flatten(m, st, m.Eval(st, cx, x.val), x.val.Type())}
						for i, n := range notes {
							if st.U[fmt.Sprintf("w%02d", i)] == 1 {
								if n.kind == "lamb" {
									w.lamb = append(w.lamb, n.t)
								} else {
									w.thr = append(w.thr, n.t)
								}
							}
						}
						outs = append(outs, w)
						break
					}
				}
			}
		}
		return true
	}
	m.Run(pta.Point{Ctx: o.p.Ctx, Instr: next(o.p.Instr)}, s)
	g.c.Count("abstract states", m.Steps())
	if m.Over {
		g.over = true
	}
	return outs
}

// ---- the owner ----

// relevant loops: those of the owner's thread around a message
func (g *filing) findLoops() {
	g.heads = map[*pta.Ctx][]*ssaLoop{}
	for _, o := range g.p.ops {
		if o.p.Ctx.Thread() != g.owner.Thread() || !g.isMsg(o) || o.kind == "close" {
			continue
		}
		for x := o.p.Ctx; x != nil; x = x.Parent {
			if in := liftTo(o.p, x); in != nil {
				for _, l := range loopsOf(x.Fn) {
					if !l.body[in.Block()] {
						continue
					}
					dup := false
					for _, h := range g.heads[x] {
						dup = dup || h.head == l.head
					}
					if !dup {
						g.heads[x] = append(g.heads[x], l)
					}
				}
			}
			if x == g.owner {
				break
			}
		}
	}
}

func firstReal(b *ssa.BasicBlock) ssa.Instruction { return b.Instrs[nphis(b)] }

func (g *filing) headAt(cx *pta.Ctx, in ssa.Instruction) *ssaLoop {
	for _, l := range g.heads[cx] {
		if firstReal(l.head) == in {
			return l
		}
	}
	return nil
}

func within(x, anc *pta.Ctx) bool {
	for ; x != nil; x = x.Parent {
		if x == anc {
			return true
		}
	}
	return false
}

type pending struct {
	ctx  *pta.Ctx
	loop *ssaLoop
	st   *psim.State
}

// follow runs the owner from a point; lr is the loop whose round is followed
func (g *filing) follow(start pta.Point, s *psim.State, lr *loopRun, pend *[]pending) {
	m := g.sim()
	m.MaxSt = 20000
	first := lr != nil
	var facts []psim.Val
	factIdx := map[string]int{}
	index := func(e fileEv) int {
		k := fmt.Sprintf("%s|%s|%v|%s|%s|%s|%v|%v|%v", e.kind, e.sym, e.fields, e.list, e.idx, e.val, e.args, e.pos, e.many)
		i, ok := g.evIdx[k]
		if !ok {
			i = len(g.evs)
			g.evs = append(g.evs, e)
			g.evIdx[k] = i
		}
		return i
	}
	add := func(st *psim.State, e fileEv) {
		i := index(e)
		if e.kind != "recv" && e.kind != "send" {
			e.many = true
			im := index(e)
			for j := 1; j <= st.U["n"]; j++ {
				k := fmt.Sprintf("e%02d", j)
				if st.U[k] == i+1 || st.U[k] == im+1 {
					st.U[k] = im + 1
					return
				}
			}
		}
		st.U["n"]++
		st.U[fmt.Sprintf("e%02d", st.U["n"])] = i + 1
	}
	out := func(st *psim.State) bool { return lr == nil || st.U["out"] == 1 }
	finish := func(st *psim.State, exit bool, pos token.Pos) {
		fp := filePath{exit: exit, st: st.Clone(), pos: pos, next: map[string]string{}}
		for i := 1; i <= st.U["n"]; i++ {
			fp.evs = append(fp.evs, g.evs[st.U[fmt.Sprintf("e%02d", i)]-1])
		}
		for i := 1; i <= st.U["nf"]; i++ {
			fp.facts = append(fp.facts, facts[st.U[fmt.Sprintf("f%02d", i)]-1])
		}
		if !exit {
			for _, in := range lr.loop.head.Instrs[:nphis(lr.loop.head)] {
				ph := in.(*ssa.Phi)
				fp.next[psim.SymOf(lr.ctx, ph)] = tokOf(m.Eval(st, lr.ctx, ph))
			}
			for n := range lr.vars {
				if strings.HasPrefix(n, "cell:") {
					if c, ok := st.Cell[n[5:]]; ok {
						fp.next[n] = tokOf(c)
					} else {
						fp.next[n] = "?"
					}
				}
			}
		}
		lr.paths = append(lr.paths, fp)
	}
	leave := func(st *psim.State) {
		st.U["out"] = 1
		for k := range st.U {
			if k == "n" || k == "nf" || len(k) == 3 && (k[0] == 'e' || k[0] == 'f') {
				delete(st.U, k)
			}
		}
	}
	m.Branch = func(st *psim.State, cx *pta.Ctx, in *ssa.If, taken bool) bool {
		v := m.Eval(st, cx, in.Cond)
		for v.K == psim.Not {
			v, taken = *v.A, !taken
		}
		if v.K != psim.Cmp || out(st) {
			return true
		}
		if !taken {
			v.Op = negated(v.Op)
		}
		k := v.String()
		i, ok := factIdx[k]
		if !ok {
			i = len(facts)
			facts = append(facts, v)
			factIdx[k] = i
		}
		for j := 1; j <= st.U["nf"]; j++ {
			if st.U[fmt.Sprintf("f%02d", j)] == i+1 {
				return true
			}
		}
		if st.U["nf"] > 60 {
			return true
		}
		st.U["nf"]++
		st.U[fmt.Sprintf("f%02d", st.U["nf"])] = i + 1
		return true
	}
	m.Stop = func(st *psim.State, cx *pta.Ctx, in ssa.Instruction) bool {
		if lr != nil && st.U["out"] != 1 {
			if cx == lr.ctx && in == firstReal(lr.loop.head) {
				if first {
					first = false
					return false
				}
				finish(st, false, in.Pos())
				return true
			}
			if cx == lr.ctx && !lr.loop.body[in.Block()] || !within(cx, lr.ctx) {
				finish(st, true, in.Pos())
				leave(st)
			}
		}
		if l := g.headAt(cx, in); l != nil && (lr == nil || l.head != lr.loop.head || cx != lr.ctx || st.U["out"] == 1) {
			*pend = append(*pend, pending{cx, l, st.Clone()})
			return true
		}
		return false
	}
	m.Event = func(st *psim.State, cx *pta.Ctx, in ssa.Instruction, sel int) bool {
		if st.U["n"] > 80 {
			g.over = true
			return false
		}
		if _, ok := in.(*ssa.Defer); ok && sel != -2 {
			return true
		}
		for _, o := range g.p.atv(m, st, cx, in, sel) {
			if !g.isMsg(o) {
				continue
			}
			switch o.kind {
			case "recv":
				n := psim.SymOf(cx, o.val)
				if o.sel >= 0 {
					k := 2
					for i, x := range in.(*ssa.Select).States {
						if i < o.sel && x.Dir == types.RecvOnly {
							k++
						}
					}
					n += "#" + strconv.Itoa(k)
				} else if o.ok {
					n += "#0"
				}
				g.recv[n] = 1
				add(st, fileEv{kind: "recv", sym: n, pos: in.Pos()})
			case "send":
				v := m.Eval(st, cx, o.val)
				add(st, fileEv{kind: "send", fields: g.flatten(m, st, v, o.val.Type()), pos: in.Pos()})
			}
		}
		switch x := in.(type) {
		case *ssa.Store:
			ia, ok := x.Addr.(*ssa.IndexAddr)
			if !ok || sliceElem(ia.X.Type()) == nil {
				break
			}
			l := m.Eval(st, cx, ia.X)
			g.stored(m, st, cx, x, ia, l)
			v := m.Eval(st, cx, x.Val)
			e := fileEv{kind: "store", list: tokOf(l), idx: tokOf(m.Eval(st, cx, ia.Index)), val: tokOf(v), elem: x.Val.Type(), pos: in.Pos()}
			if h, as := termArgs(e.list); h == "drop" && len(as) == 2 {
				e.list, e.idx = as[0], parseLinear(as[1]).add(parseLinear(e.idx), 1).String()
			}
			if _, ok := x.Val.Type().Underlying().(*types.Struct); ok {
				e.fields = g.flatten(m, st, v, x.Val.Type())
			}
			if !out(st) && g.relevant(e) {
				add(st, e)
			}
		case ssa.CallInstruction:
			cc := x.Common()
			if cc.IsInvoke() && (cc.Method.Name() == "HyperParameters" || cc.Method.Name() == "StringRep") {
				k := map[string]string{"HyperParameters": "hyper", "StringRep": "str"}[cc.Method.Name()]
				e := fileEv{kind: k, val: tokOf(unbox(m.Eval(st, cx, cc.Value))), pos: in.Pos()}
				if out(st) {
					g.late(e)
				} else {
					add(st, e)
				}
			}
			if bi, ok := cc.Value.(*ssa.Builtin); ok && bi.Name() == "append" && len(cc.Args) == 2 && !out(st) {
				if e := oneVararg(cc.Args[1]); e != nil {
					ev := fileEv{kind: "append", list: tokOf(m.Eval(st, cx, cc.Args[0])), val: tokOf(m.Eval(st, cx, e)), elem: e.Type(), pos: in.Pos()}
					if g.relevant(ev) {
						add(st, ev)
					}
				}
			}
			pkg, _, _ := calledAs(x)
			if pkg == "fmt" {
				var l []string
				for _, a := range cc.Args {
					if sl, ok := a.(*ssa.Slice); ok {
						for _, e := range varargs(sl) {
							l = append(l, tokOf(unbox(m.Eval(st, cx, e))))
						}
						continue
					}
					l = append(l, tokOf(unbox(m.Eval(st, cx, a))))
				}
				e := fileEv{kind: "print", args: l, pos: in.Pos()}
				if out(st) {
					g.late(e)
				} else {
					add(st, e)
				}
			}
		case *ssa.Return:
			if cx == g.owner {
				if lr != nil && st.U["out"] != 1 {
					finish(st, true, in.Pos())
					leave(st)
				}
				r := retRec{pos: in.Pos()}
				for _, y := range x.Results {
					v := m.Eval(st, cx, y)
					r.vals = append(r.vals, tokOf(v))
					r.fields = append(r.fields, g.flatten(m, st, v, y.Type()))
				}
				g.rets = append(g.rets, r)
				return false
			}
		}
		return true
	}
	m.Run(start, s)
	if m.Over {
		g.over = true
	}
	g.c.Count("abstract states", m.Steps())
}

// relevant: what is put into a list is about a message
func (g *filing) relevant(e fileEv) bool {
	if strings.Contains(e.val, "f(«") || strings.HasPrefix(e.val, "str(") {
		return true
	}
	for _, t := range e.fields {
		if strings.Contains(t, "f(«") {
			return true
		}
	}
	p, ok := e.elem.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	nt, ok := p.Elem().(*types.Named)
	return ok && nt.Obj().Name() == "LassoLarsNode"
}

func (g *filing) late(e fileEv) {
	k := fmt.Sprintf("late|%s|%s|%v|%v", e.kind, e.val, e.args, e.pos)
	if _, ok := g.evIdx[k]; !ok {
		g.evIdx[k] = len(g.evs)
		e.sym = "late"
		g.evs = append(g.evs, e)
	}
}

// stored: a list filled with consecutive numbers holds different numbers; any
// other store makes its content unknown
func (g *filing) stored(m *psim.Sim, st *psim.State, cx *pta.Ctx, x *ssa.Store, ia *ssa.IndexAddr, l psim.Val) {
	if !isIntT(x.Val.Type()) {
		return
	}
	k := strings.TrimRight(nameOfList(tokOf(l)), "'")
	if lp := g.counted(cx, x.Block()); lp != nil {
		me := "«" + psim.SymOf(cx, lp.idx) + "»"
		v, ok1 := linOf(m.Eval(st, cx, x.Val))
		i, ok2 := linOf(m.Eval(st, cx, ia.Index))
		if ok1 && ok2 && lp.bound != nil {
			n := tokOf(g.boundOf(m, st, cx, lp.bound))
			ln, ok := st.Cell[key(l)+"|len"]
			if ok && tokOf(ln) == n && (v.at[me] == 1 || v.at[me] == -1) && (i.at[me] == 1 || i.at[me] == -1) {
				g.fills[k] = fillAt{cx, lp.loop}
				return
			}
		}
	}
	g.spoilt[k] = true
}

// nameOfList is the name of a list or of the list that it is the end of
func nameOfList(t string) string {
	if h, as := termArgs(t); h == "drop" && len(as) == 2 {
		t = as[0]
	}
	return nameOfTerm(t)
}

// fillAt is the loop that fills a list
type fillAt struct {
	ctx  *pta.Ctx
	loop *ssaLoop
}

// distinct: the list that a loop starts with has been filled with different
// numbers
func (g *filing) distinct(lr *loopRun, v string) bool {
	if lr.empty[v] || lr.entry[v] == "nil" {
		return true
	}
	n := strings.TrimRight(nameOfList(lr.entry[v]), "'")
	f, ok := g.fills[n]
	if !ok || g.spoilt[n] || g.spoilt[v] {
		return false
	}
	if f.ctx == lr.ctx {
		return f.loop.head.Dominates(lr.loop.head) && !f.loop.body[lr.loop.head]
	}
	for _, b := range f.ctx.Fn.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !f.loop.head.Dominates(b) {
			return false
		}
	}
	return true
}

// round follows one round of a loop from a state in which everything that the
// loop changes is unknown
func (g *filing) round(p pending, pend *[]pending) {
	changed := map[string]bool{}
	gone := map[string]bool{}
	for iter := 0; iter < 8; iter++ {
		m := g.sim()
		lr := &loopRun{ctx: p.ctx, loop: p.loop, entry: map[string]string{}, vars: map[string]bool{}, typ: map[string]types.Type{}, empty: map[string]bool{}}
		s := p.st.Clone()
		for k := range s.U {
			delete(s.U, k)
		}
		for _, in := range p.loop.head.Instrs[:nphis(p.loop.head)] {
			ph := in.(*ssa.Phi)
			n := psim.SymOf(p.ctx, ph)
			v := m.Eval(p.st, p.ctx, ph)
			lr.entry[n] = tokOf(v)
			lr.vars[n] = true
			lr.typ[n] = ph.Type()
			lr.empty[n] = p.st.Cell[key(v)+"|len"] == psim.IntV(0)
		}
		for _, in := range p.loop.head.Instrs[:nphis(p.loop.head)] {
			m.Unknown(s, p.ctx, in.(*ssa.Phi))
		}
		for k := range gone {
			delete(s.Cell, k)
		}
		for k := range changed {
			n := "cell:" + k
			if v, ok := p.st.Cell[k]; ok {
				lr.entry[n] = tokOf(v)
				lr.empty[n] = p.st.Cell[key(v)+"|len"] == psim.IntV(0)
			} else {
				lr.entry[n] = "0"
			}
			lr.vars[n] = true
			m.Fresh(s, n, psim.VK{})
			s.Cell[k] = psim.SymV(n)
		}
		before := s.Clone()
		save := *pend
		rets := len(g.rets)
		g.follow(pta.Point{Ctx: p.ctx, Instr: firstReal(p.loop.head)}, s, lr, pend)
		more := false
		for _, fp := range lr.paths {
			if fp.exit {
				continue
			}
			for k, v := range before.Cell {
				if w, ok := fp.st.Cell[k]; !ok {
					if !gone[k] && !changed[k] && !strings.Contains(k, "cell:") {
						gone[k] = true
						more = true
					}
				} else if w.String() != v.String() && !changed[k] {
					changed[k] = true
					more = true
				}
			}
			for k, v := range fp.st.Cell {
				base := k
				if i := strings.Index(k, "|"); i >= 0 {
					base = k[:i]
				}
				if _, ok := before.Cell[k]; !ok && !changed[k] && strings.Contains(k, "|") {
					if _, was := before.Cell[base+"|zero"]; was && !strings.HasSuffix(k, "|zero") {
						_ = v
						changed[k] = true
						more = true
					}
				}
			}
		}
		if !more || g.over {
			g.lr = append(g.lr, lr)
			return
		}
		*pend = save
		g.rets = g.rets[:rets]
	}
	g.over = true
}

func (g *filing) run() {
	g.findLoops()
	var pend []pending
	g.follow(pta.Point{Ctx: g.owner}, psim.NewState(), nil, &pend)
	done := map[string]bool{}
	n := 0
	for len(pend) > 0 && !g.over {
		p := pend[0]
		pend = pend[1:]
		st := p.st
		k := fmt.Sprintf("%d/%d/", p.ctx.ID, p.loop.head.Index)
		var l []string
		for _, in := range p.loop.head.Instrs[:nphis(p.loop.head)] {
			ph := in.(*ssa.Phi)
			m := g.sim()
			l = append(l, tokOf(m.Eval(st, p.ctx, ph)))
		}
		for c, v := range st.Cell {
			l = append(l, c+"="+v.String())
		}
		sort.Strings(l)
		k += strings.Join(l, ";")
		if done[k] {
			continue
		}
		done[k] = true
		if n++; n > 24 {
			g.over = true
			break
		}
		g.round(p, &pend)
	}
	if sem.Debug {
		g.dump()
	}
}

func (g *filing) dump() {
	for _, lr := range g.lr {
		fmt.Println("LOOP", lr.ctx.Fn.Name(), "head", lr.loop.head.Index, "entry", lr.entry)
		for _, fp := range lr.paths {
			fmt.Println("  PATH exit", fp.exit, "next", fp.next, "facts", fp.facts)
			for _, e := range fp.evs {
				fmt.Println("     ", e.kind, e.sym, e.fields, e.list, e.idx, e.val, e.args)
			}
		}
	}
	for _, r := range g.rets {
		fmt.Println("RETURN", r.vals, r.fields)
	}
}

// ---- the rules ----

// subst replaces a term inside a term
func substTerm(t, a, b string) string { return canonTerm(replTerm(t, a, b)) }

func replTerm(t, a, b string) string {
	if t == a {
		return b
	}
	h, as := termArgs(t)
	if h == "" {
		return t
	}
	if h == "lin" {
		l := parseLinear(t)
		r := linear{map[string]int64{}, l.k}
		for x, n := range l.at {
			r = r.add(parseLinear(replTerm(x, a, b)), n)
		}
		return r.String()
	}
	for i := range as {
		as[i] = replTerm(as[i], a, b)
	}
	return h + "(" + strings.Join(as, ",") + ")"
}

// mentionsMsg lists the parts of a received message that a term is about
func mentionsMsg(t, sym string) []string {
	var r []string
	pre := "f(«" + sym + "»,"
	for i := 0; i+len(pre) <= len(t); i++ {
		if strings.HasPrefix(t[i:], pre) {
			j := strings.Index(t[i:], ")")
			r = append(r, t[i+len(pre):i+j])
		}
	}
	return r
}

func nameOfTerm(t string) string {
	if strings.HasPrefix(t, "«") && strings.HasSuffix(t, "»") && strings.Count(t, "«") == 1 {
		return strings.TrimSuffix(strings.TrimPrefix(t, "«"), "»")
	}
	return ""
}

type filedRoot struct {
	name string
	list int // the parameter with what the jobs are about, or -1
}

var filedRoots = []filedRoot{{"LassoCrdDescPath", 2}, {"CalculateCohenSequence", 1}, {"L2ConsistentCovTO", -1}}

// identity finds, for a piece of work, the number of its job
func (g *filing) identity(root filedRoot, f map[string]string, outs []workerOut) (string, string) {
	if root.list >= 0 {
		want := g.param(root.list)
		ids := map[string]bool{}
		for _, t := range f {
			if h, as := termArgs(t); h == "at" && len(as) == 2 && as[0] == want {
				ids[as[1]] = true
			}
		}
		if len(ids) != 1 {
			return "", fmt.Sprintf("the work holds elements of the jobs at %d different positions", len(ids))
		}
		for k := range ids {
			return k, ""
		}
	}
	// the grid point: what the thresholds are computed from
	ids := map[string]bool{}
	for _, w := range outs {
		for _, t := range w.thr {
			for _, pth := range mentionsMsg(t, w.item) {
				if x, ok := f[pth]; ok && strings.Contains(t, "float("+msgField(w.item, pth)+")") {
					ids[x] = true
				}
			}
		}
	}
	if len(ids) != 1 {
		return "", "the threshold applied for the work is not computed from one grid point"
	}
	for k := range ids {
		return k, ""
	}
	return "", ""
}

func (g *filing) param(i int) string {
	return "«" + psim.SymOf(g.owner, g.owner.Fn.Params[i]) + "»"
}

// each runs f for every piece of work handed out together with every result of
// a worker
func (g *filing) each(outs []workerOut, f func(lr *loopRun, d fileEv, w workerOut, res map[string]string)) {
	for _, lr := range g.lr {
		for _, fp := range lr.paths {
			for _, e := range fp.evs {
				if e.kind != "send" {
					continue
				}
				for _, w := range outs {
					res := map[string]string{}
					for p, t := range w.fields {
						res[p] = canonTerm(compose(t, w.item, e.fields))
					}
					f(lr, e, w, res)
				}
			}
		}
	}
}

func (c *Ctx) checkFiled(root filedRoot) {
	fn := c.P.Func("featselect", root.name)
	if fn == nil || len(fn.Blocks) == 0 {
		c.Add("anchor", "featselect."+root.name, token.NoPos, Undecided, "the routine was not found")
		return
	}
	a := c.analyse(fn)
	p := c.newPools(root.name, a)
	g := &filing{c: c, p: p, a: a, owner: a.RootCtx, recv: map[string]int{}, evIdx: map[string]int{}, fills: map[string]fillAt{}, spoilt: map[string]bool{}}
	for _, t := range p.gos {
		for _, ch := range p.workOf(t) {
			if !has(g.work, ch) && !isSignal(ch) {
				g.work = append(g.work, ch)
			}
		}
		for _, ch := range p.outOf(t) {
			if !has(g.res, ch) && !isSignal(ch) {
				g.res = append(g.res, ch)
			}
		}
	}
	c.Funcs[fn.String()] = true
	pos := fn.Pos()
	if len(g.work) == 0 || len(g.res) == 0 {
		c.Check(false, "identity in the result", root.name, pos, "the routine has no workers that take work and return results")
		return
	}
	var outs []workerOut
	for _, t := range p.gos {
		for _, o := range p.ops {
			if o.kind == "recv" && o.p.Ctx.Thread() == t && g.isMsg(o) {
				c.Funcs[t.Fn.String()] = true
				outs = append(outs, g.worker(t, o)...)
			}
		}
	}
	g.run()
	if sem.Debug {
		for _, w := range outs {
			fmt.Println("WORKER", w.item, w.fields, w.lamb, w.thr)
		}
	}
	if g.over {
		c.Add("identity in the result", root.name, pos, Undecided, "too many states")
		return
	}
	c.Count("results of workers", len(outs))
	cs := complaints{}
	sends, stores := 0, 0
	ids := map[string]string{}
	g.each(outs, func(lr *loopRun, d fileEv, w workerOut, res map[string]string) {
		sends++
		id, why := g.identity(root, d.fields, outs)
		if why != "" {
			cs.add("work", d.pos, "%s", why)
			return
		}
		ids[fmt.Sprint(d.fields)] = id
		switch root.name {
		case "LassoCrdDescPath":
			stores += g.path(cs, id, w, d, res)
		case "CalculateCohenSequence":
			stores += g.kappas(cs, id, w, d, res)
		case "L2ConsistentCovTO":
			stores += g.grid(cs, id, w, d, res)
		}
	})
	c.Count("pairs of work and result", sends)
	if sends == 0 {
		cs.add("work", pos, "no work is handed out in a loop")
	}
	g.once(cs, root, ids)
	if root.name == "CalculateCohenSequence" {
		g.best(cs, outs)
	}
	for _, k := range []struct{ k, rule string }{{"work", "work names its job"}, {"kept", "identity in the result"}, {"filed", "filed under its job"}, {"once", "each job once"}, {"best", "best of one result"}} {
		if k.k == "best" && root.name != "CalculateCohenSequence" {
			continue
		}
		v, bad := cs[k.k]
		at := pos
		if bad {
			at = v.pos
		}
		c.Check(!bad, k.rule, root.name, at, "%s", v.msg)
	}
}

// rounds lists the ways through a round in which a result is received
func (g *filing) rounds() []filePath {
	var r []filePath
	for _, lr := range g.lr {
		for _, fp := range lr.paths {
			for _, e := range fp.evs {
				if e.kind == "recv" {
					r = append(r, fp)
					break
				}
			}
		}
	}
	return r
}

func (fp filePath) msg() (string, token.Pos) {
	for _, e := range fp.evs {
		if e.kind == "recv" {
			return e.sym, e.pos
		}
	}
	return "", token.NoPos
}

// path: the node of each regularisation at that value's position
func (g *filing) path(cs complaints, id string, w workerOut, d fileEv, res map[string]string) int {
	n := g.c.P.Named("featselect", "LassoLarsNode")
	li := -1
	if n != nil {
		li = structField(n, "Lamb")
	}
	lists := g.param(2)
	job := "at(" + lists + "," + id + ")"
	for _, l := range w.lamb {
		if x := canonTerm(compose(l, w.item, d.fields)); x != job {
			cs.add("kept", w.pos, "the solution is computed with %s, the job is %s", pretty(x), pretty(job))
		}
	}
	if len(w.lamb) == 0 {
		cs.add("kept", w.pos, "a result is sent without solving for the regularisation of its job")
	}
	count := 0
	for _, fp := range g.rounds() {
		sym, pos := fp.msg()
		some := 0
		for _, e := range fp.evs {
			if e.kind != "store" && e.kind != "append" {
				continue
			}
			if pt, ok := e.elem.Underlying().(*types.Pointer); !ok || n == nil || !types.Identical(pt.Elem(), n) {
				continue
			}
			ps := mentionsMsg(e.val, sym)
			if e.kind == "append" || len(ps) != 1 || e.val != msgField(sym, ps[0]) {
				cs.add("filed", e.pos, "a node that is not the one received is stored, or not at a position")
				continue
			}
			lam := res[ps[0]+"*."+strconv.Itoa(li)]
			if lam != job {
				cs.add("kept", w.pos, "the node carries the regularisation %s, the job is %s", pretty(lam), pretty(job))
			}
			at := canonTerm(compose(e.idx, sym, res))
			want := parseLinear("len("+lists+")").add(parseLinear(id), -1).add(linear{nil, 1}, -1).String()
			if at != want {
				cs.add("filed", e.pos, "the node of the regularisation at position %s of the grid is stored at %s instead of %s", pretty(id), pretty(at), pretty(want))
			}
			some++
			count++
			// the list is the one returned
			for _, r := range g.rets {
				x := "?"
				if len(r.vals) > 0 {
					x = r.vals[0]
				}
				if h, as := termArgs(x); h == "drop" {
					x = as[0]
				}
				if x != e.list {
					cs.add("filed", r.pos, "what is returned is not the list the nodes are stored in")
				}
			}
		}
		if some != 1 {
			cs.add("filed", pos, "a node that is received is stored %d times", some)
		}
	}
	return count
}

// grid: the difference of each grid point is added to the mean of that point,
// and the threshold returned is computed from the grid point as the workers do
func (g *filing) grid(cs complaints, id string, w workerOut, d fileEv, res map[string]string) int {
	thr := map[string]bool{}
	for _, t := range w.thr {
		thr[canonTerm(compose(t, w.item, d.fields))] = true
	}
	if len(thr) != 1 {
		cs.add("kept", w.pos, "the result is not that of one threshold")
		return 0
	}
	var T string
	for t := range thr {
		T = t
	}
	count := 0
	var list string
	for _, fp := range g.rounds() {
		sym, pos := fp.msg()
		some := 0
		for _, e := range fp.evs {
			if e.kind != "store" {
				continue
			}
			ps := mentionsMsg(e.val, sym)
			if len(ps) == 0 {
				continue
			}
			at := canonTerm(compose(e.idx, sym, res))
			if at != id {
				cs.add("filed", e.pos, "the result of grid point %s is added to the mean at %s", pretty(id), pretty(at))
			}
			old := "at(" + e.list + "," + e.idx + ")"
			h, as := termArgs(e.val)
			part := ""
			if h == "fadd" && len(as) == 2 {
				if as[0] == old {
					part = as[1]
				} else if as[1] == old {
					part = as[0]
				}
			}
			if part == "" || e.many {
				cs.add("filed", e.pos, "the result is not added once to the mean of its grid point (%s)", pretty(e.val))
			}
			for _, q := range mentionsMsg(part, sym) {
				if x := res[q]; parseLinear(x).String() == id {
					cs.add("filed", e.pos, "what is added to the mean is the identity of the job")
				}
			}
			some++
			count++
			list = e.list
		}
		if some != 1 {
			cs.add("filed", pos, "a result that is received is added %d times", some)
		}
	}
	tmpl := substTerm(T, "float("+id+")", "float(□)")
	for _, r := range g.rets {
		x := ""
		if len(r.fields) > 0 {
			x = r.fields[0][".0"]
		}
		ok := false
		for _, s := range subTerms(x) {
			if h, as := termArgs(s); h == "float" && len(as) == 1 && substTerm(x, s, "float(□)") == tmpl {
				if as[0] != "argmin("+list+")" && nameOfTerm(as[0]) == "" {
					continue
				}
				ok = true
			}
		}
		if !ok {
			cs.add("filed", r.pos, "the threshold returned (%s) is not computed from the grid point as the one tried (%s)", pretty(x), pretty(T))
		}
	}
	return count
}

func subTerms(t string) []string {
	r := []string{t}
	_, as := termArgs(t)
	for _, a := range as {
		r = append(r, subTerms(a)...)
	}
	return r
}

// kappas: what is looked up, logged and kept together is about the target
// that the kappa was computed for
func (g *filing) kappas(cs complaints, id string, w workerOut, d fileEv, res map[string]string) int {
	job := "at(" + g.param(1) + "," + id + ")"
	kpath := ""
	for p, t := range res {
		if h, as := termArgs(t); h == "kappa" && len(as) == 1 {
			if as[0] != job {
				cs.add("kept", w.pos, "the kappa sent is that of %s, the job is %s", pretty(as[0]), pretty(job))
			}
			kpath = p
		}
	}
	if kpath == "" {
		cs.add("kept", w.pos, "the result does not carry a kappa")
		return 0
	}
	count := 0
	for _, fp := range g.rounds() {
		sym, _ := fp.msg()
		kt := msgField(sym, kpath)
		lists := map[string]string{}
		strs := map[string]string{}
		for _, e := range fp.evs {
			switch e.kind {
			case "hyper", "str":
				count++
				if x := canonTerm(compose(e.val, sym, res)); x != job {
					cs.add("filed", e.pos, "a result of %s is used together with %s", pretty(job), pretty(x))
				}
			case "store", "append":
				at := e.idx
				if e.kind == "append" {
					at = "end"
				}
				if e.val == kt {
					lists[e.list] = at
				} else if h, _ := termArgs(e.val); h == "str" {
					strs[e.list] = at
				}
				if e.val != kt && len(e.fields) == 0 && isFloatT(e.elem) && strings.HasPrefix(e.val, "f(") {
					cs.add("filed", e.pos, "another part of the result is listed as kappa")
				}
			}
		}
		for l, i := range lists {
			for k, j := range strs {
				if i != j {
					cs.add("filed", d.pos, "the kappa is listed at %s, its description at %s", pretty(i), pretty(j))
				}
				// printed in pairs
				for _, e := range g.evs {
					if e.kind != "print" {
						continue
					}
					ki, si := "", ""
					for _, x := range e.args {
						if h, as := termArgs(x); h == "at" && as[0] == l {
							ki = as[1]
						} else if h == "at" && as[0] == k {
							si = as[1]
						}
					}
					if ki != "" && si != "" && ki != si {
						cs.add("filed", e.pos, "the summary pairs the kappa at %s with the description at %s", pretty(ki), pretty(si))
					}
				}
			}
		}
	}
	return count
}

// best: the hyper parameters returned and the kappa they are compared with
// change together, and only for a larger kappa
func (g *filing) best(cs complaints, outs []workerOut) {
	kpath := ""
	for _, w := range outs {
		for p, t := range w.fields {
			if h, _ := termArgs(t); h == "kappa" {
				kpath = p
			}
		}
	}
	for _, lr := range g.lr {
		var ps []filePath
		for _, fp := range lr.paths {
			if s, _ := fp.msg(); s != "" && !fp.exit {
				ps = append(ps, fp)
			}
		}
		if len(ps) == 0 {
			continue
		}
		// the variable that is returned
		best := map[string]bool{}
		for _, r := range g.rets {
			if len(r.vals) > 0 {
				if n := nameOfTerm(r.vals[0]); n != "" && lr.vars[n] {
					best[n] = true
					continue
				}
			}
			cs.add("best", r.pos, "what is returned is not kept by the loop that receives the results")
		}
		for b := range best {
			ok := false
			why := "no number kept by the loop is the kappa of the hyper parameters kept"
			at := ps[0].pos
			for k := range lr.vars {
				if k == b {
					continue
				}
				good, w, pos := g.bestPair(lr, ps, b, k, kpath)
				if good {
					ok = true
				} else if w != "" {
					why, at = w, pos
				}
			}
			if !ok {
				cs.add("best", at, "%s", why)
			}
		}
	}
}

func (g *filing) bestPair(lr *loopRun, ps []filePath, b, k, kpath string) (bool, string, token.Pos) {
	moved := false
	for _, fp := range ps {
		sym, pos := fp.msg()
		kt := msgField(sym, kpath)
		nb, nk := fp.next[b], fp.next[k]
		_, isH := termArgs(nb)
		if strings.HasPrefix(nb, "hyper(") && len(isH) == 1 {
			if nk != kt {
				return false, "the hyper parameters are kept without the kappa they belong to", pos
			}
			moved = true
			larger := false
			for _, f := range fp.facts {
				a, c := tokOf(*f.A), tokOf(*f.B)
				if a == kt && c == "«"+k+"»" && (f.Op == token.GTR || f.Op == token.GEQ) || c == kt && a == "«"+k+"»" && (f.Op == token.LSS || f.Op == token.LEQ) {
					larger = true
				}
				if (a == "«"+b+"»" && f.B.K == psim.Nil || c == "«"+b+"»" && f.A.K == psim.Nil) && f.Op == token.EQL {
					larger = true // the first result
				}
				if f.Op == token.EQL {
					for _, x := range []string{a, c} {
						n := nameOfTerm(x)
						if n != "" && lr.vars[n] && (f.A.K == psim.Int && f.A.N == 0 || f.B.K == psim.Int && f.B.N == 0) {
							larger = true // counted as the first
						}
					}
				}
			}
			if !larger && lr.entry[b] == "nil" {
				return false, "hyper parameters are kept although their kappa is not known to be larger", pos
			}
			continue
		}
		if nb != "«"+b+"»" && nb != "" || nk != "«"+k+"»" && nk != "" {
			return false, "", pos
		}
		ok := false
		for _, f := range fp.facts {
			a, c := tokOf(*f.A), tokOf(*f.B)
			if a == kt && c == "«"+k+"»" && (f.Op == token.LSS || f.Op == token.LEQ) || c == kt && a == "«"+k+"»" && (f.Op == token.GTR || f.Op == token.GEQ) {
				ok = true
			}
		}
		if !ok {
			return false, "a result is passed over although its kappa is not known to be smaller", pos
		}
	}
	return moved, "", token.NoPos
}

// once: the numbers of the jobs handed out follow one another
func (g *filing) once(cs complaints, root filedRoot, ids map[string]string) {
	prev := ""    // how the number of the next job is found after the last loop
	prevVar := "" // the variable that carries it
	first := true
	n := ""
	if root.list >= 0 {
		n = "len(" + g.param(root.list) + ")"
	} else {
		// the means are kept per grid point
		for _, fp := range g.rounds() {
			sym, _ := fp.msg()
			for _, e := range fp.evs {
				if e.kind == "store" && len(mentionsMsg(e.val, sym)) > 0 {
					if l, ok := fp.st.Cell[nameOfTerm(e.list)+"|len"]; ok {
						n = tokOf(l)
					}
				}
			}
		}
	}
	for _, lr := range g.lr {
		has := false
		for _, fp := range lr.paths {
			for _, e := range fp.evs {
				has = has || e.kind == "send"
			}
		}
		if !has {
			continue
		}
		// the variable
		v, kind := "", ""
		var base linear
		for _, fp := range lr.paths {
			for _, e := range fp.evs {
				if e.kind != "send" {
					continue
				}
				id := ids[fmt.Sprint(e.fields)]
				if h, as := termArgs(id); h == "at" && len(as) == 2 && nameOfTerm(as[0]) != "" && lr.vars[nameOfTerm(as[0])] {
					v, kind = nameOfTerm(as[0]), "list"
				}
				for a, c := range parseLinear(id).at {
					if x := nameOfTerm(a); x != "" && lr.vars[x] && (c == 1 || c == -1) {
						v, kind = x, "count"
						base = parseLinear(id)
					}
				}
			}
		}
		pos := lr.loop.head.Instrs[0].Pos()
		if v == "" {
			cs.add("once", pos, "the number of the job handed out is not kept by the loop that hands it out")
			continue
		}
		slope := int64(1)
		if kind == "count" {
			slope = base.at["«"+v+"»"]
		}
		// which number is next at the head of the loop
		nextAt := func(t string) string {
			if kind == "list" {
				return t
			}
			return replTerm(base.String(), "«"+v+"»", t)
		}
		entry := nextAt(lr.entry[v])
		step := int64(0)
		shift := int64(0)
		reset := map[int]bool{}
		// the jobs of one round
		for i, fp := range lr.paths {
			var jobs []string
			var at token.Pos
			for _, e := range fp.evs {
				if e.kind == "send" {
					jobs = append(jobs, ids[fmt.Sprint(e.fields)])
					at = e.pos
				}
			}
			if fp.exit && len(jobs) == 0 {
				continue
			}
			nx, known := fp.next[v]
			if !known && !fp.exit {
				nx = "«" + v + "»"
			}
			if kind == "list" {
				base0, by := nx, int64(0)
				if h, as := termArgs(nx); h == "drop" {
					base0, by = as[0], parseLinear(as[1]).k
				}
				if base0 != "«"+v+"»" && !fp.exit {
					cs.add("once", fp.pos, "the list of jobs is replaced by %s", pretty(nx))
					continue
				}
				for j, id := range jobs {
					if id != fmt.Sprintf("at(«%s»,%d)", v, j) {
						cs.add("once", at, "the job handed out is %s instead of the next of the list", pretty(id))
					}
				}
				if !fp.exit && by != int64(len(jobs)) {
					cs.add("once", fp.pos, "%d jobs are taken off the list in a round that hands out %d", by, len(jobs))
				}
				if len(jobs) == 0 && !g.idle(fp, lr) && !g.noneLeft(fp, parseLinear("len(«"+v+"»)"), lr) {
					cs.add("once", fp.pos, "a round goes on without handing out a job although some may be left")
				}
				continue
			}
			d := parseLinear(nx).add(parseLinear("«"+v+"»"), -1)
			if len(jobs) == 1 && len(parseLinear(jobs[0]).at) == 0 {
				// starting over
				if !g.startOver(fp, lr, n) {
					cs.add("once", at, "the first job is handed out again although not all have been answered")
				}
				if root.list >= 0 || jobs[0] != "0" || nx != "1" && !fp.exit || slope != 1 {
					cs.add("once", at, "after the job %s the next one is %s", pretty(jobs[0]), pretty(nx))
				}
				reset[i] = true
				continue
			}
			for j, id := range jobs {
				b := parseLinear(id).add(base, -1)
				if len(b.at) != 0 {
					cs.add("once", at, "the jobs of a round are not numbered in a row (%s)", pretty(id))
					continue
				}
				if j == 0 {
					shift = b.k
				} else if step != 0 && b.k != shift+int64(j)*step {
					cs.add("once", at, "the jobs of a round are not numbered in a row (%s)", pretty(id))
				}
			}
			if fp.exit {
				continue
			}
			if len(jobs) == 0 && g.noneLeft(fp, linear{map[string]int64{"never": 1}, 0}, lr) {
				continue // the last result
			}
			if len(d.at) != 0 {
				cs.add("once", fp.pos, "the number of the next job becomes %s", pretty(nx))
				continue
			}
			if len(jobs) == 0 {
				if d.k == 0 && g.idle(fp, lr) {
					continue
				}
				if !g.noneLeft(fp, parseLinear(n).add(parseLinear(nextAt("«"+v+"»")), -1), lr) && !g.noneLeft(fp, parseLinear(nextAt("«"+v+"»")).add(linear{nil, 1}, 1), lr) {
					cs.add("once", fp.pos, "a round goes on without handing out a job although some may be left")
				}
				continue
			}
			s := d.k * slope
			if s%int64(len(jobs)) != 0 || s/int64(len(jobs)) != 1 && s/int64(len(jobs)) != -1 {
				cs.add("once", at, "the number of the next job moves by %d in a round that hands out %d", s, len(jobs))
				continue
			}
			s /= int64(len(jobs))
			if step != 0 && step != s {
				cs.add("once", at, "the jobs are numbered up in one round and down in another")
			}
			step = s
		}
		// where the numbers start
		switch {
		case first && kind == "list":
			if !g.distinct(lr, v) {
				cs.add("once", pos, "the list of jobs is not known to hold different numbers")
			}
		case first && step == 1 && entry != "0":
			cs.add("once", pos, "the first job handed out is %s", pretty(entry))
		case first && step == -1 && entry != parseLinear(n).add(linear{nil, 1}, -1).String():
			cs.add("once", pos, "the first job handed out is %s", pretty(entry))
		case !first && entry != prev && lr.entry[v] != "«"+prevVar+"»":
			cs.add("once", pos, "the next job after the first ones is %s instead of %s", pretty(entry), pretty(prev))
		}
		if kind == "count" && shift != 0 {
			_ = shift
		}
		first = false
		prevVar = v
		prev = nextAt("«" + v + "»")
	}
	if first {
		cs.add("once", g.owner.Fn.Pos(), "no loop hands out the jobs")
	}
}

// noneLeft: a branch of the round established that the number is not positive,
// or that all results have been received
func (g *filing) noneLeft(fp filePath, left linear, lr *loopRun) bool {
	for _, f := range fp.facts {
		a, ok1 := linOf(*f.A)
		b, ok2 := linOf(*f.B)
		if !ok1 || !ok2 {
			continue
		}
		d := a.add(b, -1) // a - b op 0
		op := f.Op
		for _, sg := range []int64{1, -1} {
			x := linear{map[string]int64{}, 0}.add(d, sg)
			o := op
			if sg == -1 {
				o = swapped(op)
			}
			// x o 0; want left <= 0
			r := left.add(x, -1)
			if len(r.at) != 0 {
				continue
			}
			switch o {
			case token.LEQ, token.EQL:
				if r.k <= 0 {
					return true
				}
			case token.LSS:
				if r.k <= 1 {
					return true
				}
			}
		}
		// all results received
		for n := range lr.vars {
			if !g.counts(lr, n) {
				continue
			}
			x := d
			o := op
			if x.at["«"+n+"»"] == -1 {
				x, o = linear{map[string]int64{}, 0}.add(d, -1), swapped(op)
			}
			if x.at["«"+n+"»"] == 1 && (o == token.GEQ || o == token.GTR || o == token.EQL) {
				return true
			}
		}
	}
	return false
}

// idle: a round of the loop that answers the results receives none
func (g *filing) idle(fp filePath, lr *loopRun) bool {
	if s, _ := fp.msg(); s != "" {
		return false
	}
	for _, x := range lr.paths {
		if s, _ := x.msg(); s != "" {
			return true
		}
	}
	return false
}

// counts: a variable of the loop grows by one for every result received
func (g *filing) counts(lr *loopRun, n string) bool {
	some := false
	for _, fp := range lr.paths {
		if fp.exit {
			continue
		}
		r := int64(0)
		for _, e := range fp.evs {
			if e.kind == "recv" {
				r++
			}
		}
		d := parseLinear(fp.next[n]).add(parseLinear("«"+n+"»"), -1)
		if len(d.at) != 0 || d.k != r {
			return false
		}
		some = some || r > 0
	}
	return some
}

// startOver: the number of results received is a multiple of the number of
// jobs
func (g *filing) startOver(fp filePath, lr *loopRun, n string) bool {
	for _, f := range fp.facts {
		if f.Op != token.EQL {
			continue
		}
		a, b := tokOf(*f.A), tokOf(*f.B)
		if a == "0" {
			a, b = b, a
		}
		h, as := termArgs(a)
		if b != "0" || h != "rem" || len(as) != 2 || as[1] != n {
			continue
		}
		l := parseLinear(as[0])
		for x, c := range l.at {
			if v := nameOfTerm(x); len(l.at) == 1 && c == 1 && lr.vars[v] && g.counts(lr, v) && l.k == 1 {
				return true
			}
		}
	}
	return false
}

func init() {
	registry["R02"] = func(c *Ctx) {
		c.Rule("work names its job", "every piece of work sent holds the element of the list of jobs (or the grid point) that it is about")
		c.Rule("identity in the result", "on every path of a worker the result sent, with the parts of the work put in, is computed for the job of that work")
		c.Rule("filed under its job", "in every round that receives a result, the place where it is stored or added, and whatever it is used together with, is that of its job when the parts of the message are replaced by what was sent")
		c.Rule("each job once", "on every way through the loops that hand out work, the number of the job is the next one, the number kept for the next job moves by one per piece of work, and no round goes on without handing out work unless none is left")
		c.Rule("best of one result", "the hyper parameters returned and the kappa they are compared with are replaced together, by those of one result, and only for a larger kappa")
		for _, r := range filedRoots {
			c.checkFiled(r)
			c.Count("collectors", 1)
		}
		c.AtLeast("pairs of work and result", 5)
	}
	explain["R02"] = "Path-sensitive abstract interpretation (property simulation) over terms of the three collecting routines and their workers: messages are unknowns with named parts; what a worker sends is written over the parts of its work, what the owner files is written over the parts of the result, and putting the three together gives the job under which each result is filed, for every order of arrival."
}
