package check

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"gsa/psim"
	"gsa/pta"
	"gsa/sem"

	"golang.org/x/tools/go/ssa"
)

// fits follows which features a fit is of: the content of masks and lists is
// a term, and a fit, a criterion or a number of features is a term over it
type fits struct {
	c     *Ctx
	a     *pta.An
	m     *psim.Sim
	loops map[*ssa.Function][]*idxLoop
	all   map[*ssa.Function][]*ssaLoop
	top   *ssaLoop // the loop followed for one round
	ex    *exprs

	model, coeff, score int // fields of Node
	sel, icoeff, iscore int // fields of SAItem

	insert func(s *psim.State, cx *pta.Ctx, in ssa.CallInstruction, recv string, v psim.Val)
	elem   func(s *psim.State, cx *pta.Ctx, st *ssa.Store, ia *ssa.IndexAddr)
	cells  map[string]types.Type // memory that a round starts with
	frame  *pta.Ctx
	crit   string
	// numbers taken to be the criterion of the model a round starts from, which
	// is what the rule about the end of a round shows
	assumed map[string]bool
}

func (c *Ctx) newFits(a *pta.An) *fits {
	f := &fits{c: c, a: a, loops: map[*ssa.Function][]*idxLoop{}, all: map[*ssa.Function][]*ssaLoop{}, ex: &exprs{a: a, owner: a.RootCtx}, cells: map[string]types.Type{}, assumed: map[string]bool{}}
	ok := true
	field := func(t, n string) int {
		x := c.P.Named("featselect", t)
		i := -1
		if x != nil {
			i = structField(x, n)
		}
		if i < 0 && ok {
			ok = false
			c.Add("anchor", "featselect."+t+"."+n, token.NoPos, Undecided, "the field was not found")
		}
		return i
	}
	f.model, f.coeff, f.score = field("Node", "Model"), field("Node", "Coeff"), field("Node", "Score")
	f.sel, f.icoeff, f.iscore = field("SAItem", "Selection"), field("SAItem", "Coeff"), field("SAItem", "Score")
	if !ok {
		return nil
	}
	return f
}

func (f *fits) loopsIn(fn *ssa.Function) ([]*ssaLoop, []*idxLoop) {
	if _, ok := f.all[fn]; !ok {
		ls := loopsOf(fn)
		f.all[fn] = ls
		var r []*idxLoop
		for _, l := range ls {
			if x := asIdxLoop(l); x != nil {
				r = append(r, x)
			}
		}
		f.loops[fn] = r
	}
	return f.all[fn], f.loops[fn]
}

// inner: the instruction lies in a loop inside the round that is followed
func (f *fits) inner(in ssa.Instruction) bool {
	ls, _ := f.loopsIn(in.Parent())
	for _, l := range ls {
		if l.body[in.Block()] && (f.top == nil || l.head != f.top.head && !l.body[f.top.head]) {
			return true
		}
	}
	return false
}

func term(format string, a ...interface{}) psim.Val {
	return psim.SymV("t:" + fmt.Sprintf(format, a...))
}

func key(v psim.Val) string {
	if v.K == psim.Addr {
		return v.S + v.P
	}
	return v.String()
}

// content is what a list holds
func (f *fits) content(s *psim.State, v psim.Val) string {
	v = unbox(v)
	if c, ok := s.Cell[key(v)+"|content"]; ok {
		return psim.Tok(c)
	}
	if of, ok := s.Cell[key(v)+"|of"]; ok {
		return f.content(s, of)
	}
	if v.K == psim.Nil {
		return "empty"
	}
	if v.K == psim.Sym && psim.IsTerm(v.S) && v.N == 0 {
		return v.S[2:]
	}
	return "@" + psim.Tok(v)
}

func (f *fits) setContent(s *psim.State, v psim.Val, c string) {
	v = unbox(v)
	if of, ok := s.Cell[key(v)+"|of"]; ok {
		f.setContent(s, of, "part("+c+")")
		return
	}
	s.Cell[key(v)+"|content"] = psim.SymV("t:" + c)
}

// renew gives a list a content of which nothing is known
func (f *fits) renew(s *psim.State, v psim.Val, at string) {
	n := "c@" + at
	f.m.Fresh(s, n, psim.VK{})
	f.setContent(s, v, "«"+n+"»")
}

// parts of a content: the base and the elements negated since
func splitXor(c string) (string, map[string]bool) {
	r := map[string]bool{}
	i := strings.Index(c, "^{")
	if i < 0 {
		return c, r
	}
	for _, t := range strings.Split(c[i+2:len(c)-1], ",") {
		r[t] = true
	}
	return c[:i], r
}

func joinXor(b string, x map[string]bool) string {
	if len(x) == 0 {
		return b
	}
	var l []string
	for t := range x {
		l = append(l, t)
	}
	sort.Strings(l)
	return b + "^{" + strings.Join(l, ",") + "}"
}

// at is the element of a mask
func at(c, i string) psim.Val {
	b, x := splitXor(c)
	if x[i] && len(x) == 1 {
		v := term("at(%s,%s)", b, i)
		return psim.Val{K: psim.Not, A: &v}
	}
	return term("at(%s,%s)", c, i)
}

func sliceElem(t types.Type) types.Type {
	if sl, ok := t.Underlying().(*types.Slice); ok {
		return sl.Elem()
	}
	return nil
}

func fieldCell(v psim.Val, i int) string {
	v = unbox(v)
	if v.K == psim.Addr {
		return fmt.Sprintf("%s|%s.%d", v.S, v.P, i)
	}
	return fmt.Sprintf("%s|.%d", v.String(), i)
}

// rows: the number of data points
func (f *fits) rows(s *psim.State, cx *pta.Ctx, v ssa.Value) string {
	switch f.ex.of(cx, v) {
	case "Dims(p0)#0", "len(p1)":
		return "rows"
	}
	return psim.Tok(f.m.Eval(s, cx, v))
}

func (f *fits) param(s *psim.State, cx *pta.Ctx, v ssa.Value) string {
	if e := f.ex.of(cx, v); e == "p0" || e == "p1" {
		return e
	}
	return psim.Tok(f.m.Eval(s, cx, v))
}

// fitNames are the routines that are terms; their own meaning is decided by
// other properties
var fitNames = map[string]bool{
	".NumFeatures": true, ".GetDesignMatrix": true, ".Fit": true, ".Rss": true, ".Aicc": true, ".Aic": true, ".Bic": true,
	".NewSAItem": true, ".SelectedFeatures": true, ".Predict": true, "Highscore.Insert": true, "SAScore.Insert": true,
	"Highscore.BestScore": true, "Highscore.Len": true, "SearchProgress.Set": true, ".Argmax": true, ".Abs": true,
	".CleanQueue": true, ".RemoveLeastPromising": true, ".BoundsAICC": true, ".NewOmpResult": true, ".NewHighscore": true, ".NewSAScore": true,
	".NewLog2Pruned": true,
}

func (f *fits) sim() *psim.Sim {
	m := psim.New(f.a)
	m.Ints, m.Coarse = false, true
	f.m = m
	m.Keep = func(n string) bool { return strings.HasPrefix(n, "t:N(") }
	m.Opaque = func(x *pta.Ctx) bool {
		if x.Fn.Pkg == nil || !f.c.P.InModule(x.Fn.Pkg.Pkg.Path()) {
			return true
		}
		n := x.Fn.Name()
		if r := x.Fn.Signature.Recv(); r != nil {
			t := r.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if nt, ok := t.(*types.Named); ok {
				return fitNames[nt.Obj().Name()+"."+n]
			}
		}
		return fitNames["."+n]
	}
	m.KeepCell = func(k string) bool { return strings.HasSuffix(k, "|of") }
	m.Value = func(s *psim.State, cx *pta.Ctx, v ssa.Value) (psim.Val, bool) { return f.value(s, cx, v) }
	m.Call = func(s *psim.State, cx *pta.Ctx, in ssa.CallInstruction) ([]psim.Val, bool, bool) {
		return f.call(s, cx, in)
	}
	m.Branch = func(s *psim.State, cx *pta.Ctx, in *ssa.If, taken bool) bool {
		_, ls := f.loopsIn(cx.Fn)
		for _, l := range ls {
			if l.cond == in && !taken {
				f.leave(s, cx, l)
			}
		}
		// a number found smaller than a constant may be replaced by it
		if b, ok := in.Cond.(*ssa.BinOp); ok && isFloatT(b.X.Type()) {
			x, y, op := m.Eval(s, cx, b.X), m.Eval(s, cx, b.Y), b.Op
			if strings.HasPrefix(x.S, "const:") {
				x, y, op = y, x, swapped(op)
			}
			if !taken {
				op = negated(op)
			}
			if (op == token.LSS || op == token.LEQ) && strings.HasPrefix(y.S, "const:") && strings.HasPrefix(x.S, "t:Rss(") {
				s.Cell[y.S+"|of"] = x
			}
		}
		return true
	}
	return m
}

// look evaluates a value that may have been computed inside a loop that is
// left now
func (f *fits) look(s *psim.State, cx *pta.Ctx, v ssa.Value) psim.Val {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			b := f.look(s, cx, fa.X)
			if x, ok := s.Cell[fieldCell(b, fa.Field)]; ok {
				return x
			}
		}
	}
	return f.m.Eval(s, cx, v)
}

// leave applies what a whole loop does
func (f *fits) leave(s *psim.State, cx *pta.Ctx, l *idxLoop) {
	for _, e := range l.effects() {
		src := f.content(s, f.look(s, cx, e.src))
		switch e.kind {
		case "copy":
			f.setContent(s, f.look(s, cx, e.dst), src)
		case "selected":
			f.setContent(s, f.look(s, cx, e.dst), "selected("+src+")")
		case "append":
			v := f.look(s, cx, e.dst)
			if c := f.content(s, v); v.K != psim.Nil && (c == "empty" || c == "grow("+src+")") {
				f.setContent(s, v, "selected("+src+")")
			}
		case "count":
			f.m.Set(s, cx, e.dst, term("N(%s)", src))
		case "list":
			f.m.Set(s, cx, e.dst, term("selected(%s)", src))
		}
	}
}

func (f *fits) value(s *psim.State, cx *pta.Ctx, v ssa.Value) (psim.Val, bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		switch {
		case x.Op == token.MUL:
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				el := sliceElem(ia.X.Type())
				if el == nil {
					return psim.Val{}, false
				}
				c, i := f.content(s, f.m.Eval(s, cx, ia.X)), psim.Tok(f.m.Eval(s, cx, ia.Index))
				if isBoolT(el) {
					return at(c, i), true
				}
				if _, ok := el.Underlying().(*types.Basic); ok {
					return term("el(%s,%s)", c, i), true
				}
				return psim.Val{}, false
			}
			// memory that was there before has one name for what it holds
			a := f.m.Eval(s, cx, x.X)
			if a.K == psim.Sym {
				a = psim.Val{K: psim.Addr, S: a.String()}
			}
			if f.top == nil || a.K != psim.Addr || strings.Contains(a.P, "?") {
				return psim.Val{}, false
			}
			k := a.S + "|" + a.P
			if _, ok := s.Cell[k]; ok {
				return psim.Val{}, false
			}
			if _, ok := s.Cell[a.S+"|zero"]; ok {
				return psim.Val{}, false
			}
			if _, ok := x.Type().Underlying().(*types.Struct); ok {
				return psim.Val{}, false
			}
			n := psim.SymV("cell:" + k)
			s.Cell[k] = n
			f.cells[n.S] = x.Type()
			return n, true
		case x.Op == token.SUB && isFloatT(x.Type()):
			return f.neg(f.m.Eval(s, cx, x.X)), true
		}
	case *ssa.BinOp:
		if isFloatT(x.X.Type()) && !isFloatT(x.Type()) {
			p, q := f.m.Eval(s, cx, x.X), f.m.Eval(s, cx, x.Y)
			if f.sameScore(s, p, q) || f.sameScore(s, q, p) {
				switch x.Op {
				case token.LSS, token.GTR, token.NEQ:
					return psim.BoolV(false), true
				case token.LEQ, token.GEQ, token.EQL:
					return psim.BoolV(true), true
				}
			}
			op := x.Op
			if strings.HasPrefix(p.S, "t:unit(") {
				p, q, op = q, p, swapped(op)
			}
			if p.K == psim.Sym && p.S == "t:one" && strings.HasPrefix(q.S, "t:unit(") {
				switch op {
				case token.GTR, token.GEQ, token.NEQ:
					return psim.BoolV(true), true
				case token.LSS, token.LEQ, token.EQL:
					return psim.BoolV(false), true
				}
			}
		}
		if isFloatT(x.Type()) {
			p, q := f.m.Eval(s, cx, x.X), f.m.Eval(s, cx, x.Y)
			zero := func(v psim.Val) bool { return v.K == psim.Sym && v.S == "t:zero" }
			switch {
			case x.Op == token.SUB && (f.sameScore(s, p, q) || f.sameScore(s, q, p)):
				return term("zero"), true
			case (x.Op == token.QUO || x.Op == token.MUL) && zero(p), x.Op == token.MUL && zero(q):
				return term("zero"), true
			}
			isC := func(v psim.Val, n string) bool { return v.K == psim.Sym && v.S == "const:"+n }
			switch {
			case x.Op == token.MUL && isC(p, "-1"):
				return f.neg(q), true
			case x.Op == token.MUL && isC(q, "-1"):
				return f.neg(p), true
			case x.Op == token.SUB && isC(p, "0"):
				return f.neg(q), true
			}
		}
	case *ssa.Slice:
		if sliceElem(x.X.Type()) == nil || x.Low != nil && !constIs(x.Low, 0) || x.Max != nil {
			return psim.Val{}, false
		}
		b := f.m.Eval(s, cx, x.X)
		if x.High == nil {
			return b, true
		}
		if constIs(x.High, 0) {
			u := f.m.Unknown(s, cx, v)
			s.Cell[key(u)+"|content"] = psim.SymV("t:empty")
			return u, true
		}
		hi := f.m.Eval(s, cx, x.High)
		if hi.K == psim.Sym && hi.N == 0 && hi.S == "len:"+key(b) {
			return b, true
		}
		if isBoolT(sliceElem(x.X.Type())) {
			return term("prefix(%s,%s)", f.content(s, b), psim.Tok(hi)), true
		}
		r := term("slice(%s,%s)", psim.Tok(b), psim.Tok(hi))
		s.Cell[key(r)+"|of"] = b
		s.Cell[key(r)+"|len"] = hi
		return r, true
	case *ssa.MakeSlice:
		n := f.m.Eval(s, cx, x.Len)
		u := f.m.Unknown(s, cx, v)
		s.Con[u.S] = psim.Con{NilK: 2}
		s.Cell[key(u)+"|content"] = psim.SymV("t:new")
		if n.K == psim.Int && n.N == 0 {
			s.Cell[key(u)+"|content"] = psim.SymV("t:empty")
			return u, true
		}
		s.Cell[key(u)+"|len"] = n
		return u, true
	}
	return psim.Val{}, false
}

// sameScore: p is the criterion of the very model that the round started from,
// q the number that carries that criterion (see assumed)
func (f *fits) sameScore(s *psim.State, p, q psim.Val) bool {
	if f.top == nil || p.K != psim.Sym || q.K != psim.Sym || q.N != 0 || f.crit == "" || !f.carried(q.S) {
		return false
	}
	full := p.S
	if k := strings.LastIndex(full, ";«const:"); k >= 0 && strings.HasSuffix(full, "»)") {
		full = s.Cell[full[k+len(";«"):len(full)-len("»)")]+"|of"].S
	}
	i := strings.Index(full, "Rss(D(@«")
	if i < 0 {
		return false
	}
	c := full[i+len("Rss(D("):]
	j := strings.Index(c, "»")
	c = c[:j+len("»")]
	if !f.scoreOf(s, p, c, f.crit) {
		return false
	}
	f.assumed[q.S] = true
	return true
}

// carried: a number that the loop starts its round with
func (f *fits) carried(n string) bool {
	if t, ok := f.cells[n]; ok {
		return isFloatT(t)
	}
	for _, in := range f.top.head.Instrs[:nphis(f.top.head)] {
		if isFloatT(in.(*ssa.Phi).Type()) && psim.SymOf(f.frame, in.(*ssa.Phi)) == n {
			return true
		}
	}
	return false
}

func (f *fits) neg(v psim.Val) psim.Val {
	if v.K == psim.Sym && v.S == "t:zero" {
		return v
	}
	if v.K == psim.Sym && strings.HasPrefix(v.S, "t:neg(") {
		return psim.SymV("t:" + v.S[6:len(v.S)-1])
	}
	if v.K == psim.Sym && strings.HasPrefix(v.S, "const:") {
		return psim.SymV("const:neg(" + v.S[6:] + ")")
	}
	return term("neg(%s)", psim.Tok(v))
}

func (f *fits) call(s *psim.State, cx *pta.Ctx, in ssa.CallInstruction) ([]psim.Val, bool, bool) {
	cc := in.Common()
	args := cc.Args
	ev := func(i int) psim.Val { return f.m.Eval(s, cx, args[i]) }
	one := func(v psim.Val) ([]psim.Val, bool, bool) { return []psim.Val{v}, true, false }
	name := func() string { return psim.SymOf(cx, in.Value()) }
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "copy":
			f.setContent(s, ev(0), f.content(s, ev(1)))
			return nil, false, false
		case "append":
			if in.Value() == nil || len(args) != 2 {
				return nil, false, false
			}
			c := f.content(s, ev(0))
			src := f.content(s, ev(1))
			res := f.m.Unknown(s, cx, in.Value())
			if v := oneVararg(args[1]); v == nil {
				if c == "empty" {
					s.Cell[key(res)+"|content"] = psim.SymV("t:" + src)
				}
			} else {
				_, ls := f.loopsIn(cx.Fn)
				for _, l := range ls {
					if l.idx != v || !l.body[in.(ssa.Instruction).Block()] {
						continue
					}
					if mask := l.under(in.(ssa.Instruction).Block()); mask != nil {
						g := "grow(" + f.content(s, f.m.Eval(s, cx, mask)) + ")"
						if c == "empty" || c == g {
							s.Cell[key(res)+"|content"] = psim.SymV("t:" + g)
						}
					}
				}
			}
			return one(res)
		case "len":
			v := ev(0)
			if n, ok := s.Cell[key(v)+"|len"]; ok {
				return one(n)
			}
			c := f.content(s, v)
			if strings.HasPrefix(c, "selected(") {
				return one(psim.SymV("t:N" + c[len("selected"):]))
			}
			if i := strings.Index(c, "Fit(D("); i == 0 {
				if j := strings.Index(c, ",p0)"); j > 0 {
					return one(term("N(%s)", c[len("Fit(D("):j]))
				}
			}
			return nil, false, false
		}
		return nil, false, false
	}
	pkg, recv, fn := calledAs(in)
	switch {
	case f.c.P.InModule(pkg) && fitNames[recv+"."+fn]:
		switch recv + "." + fn {
		case ".NumFeatures":
			t := term("N(%s)", f.content(s, ev(0)))
			con := s.Con[t.S]
			if !con.HasLo {
				con.HasLo = true
				s.Con[t.S] = con
			}
			return one(t)
		case ".GetDesignMatrix":
			return one(term("D(%s,%s)", f.content(s, ev(0)), f.param(s, cx, args[1])))
		case ".Fit":
			t := term("Fit(%s,%s)", psim.Tok(unbox(ev(0))), f.param(s, cx, args[1]))
			delete(s.Cell, t.S+"|content")
			return one(t)
		case ".Rss":
			return one(term("Rss(%s,%s,%s)", psim.Tok(unbox(ev(0))), f.content(s, ev(1)), f.param(s, cx, args[2])))
		case ".Aicc", ".Aic", ".Bic":
			return one(term("crit:%s(%s;%s;%s)", fn, psim.Tok(ev(0)), f.rows(s, cx, args[1]), psim.Tok(ev(2))))
		case ".SelectedFeatures":
			return one(term("selected(%s)", f.content(s, ev(0))))
		case ".NewSAItem":
			c := f.content(s, ev(0))
			u := f.m.Unknown(s, cx, in.Value())
			s.Con[u.S] = psim.Con{NilK: 2}
			s.Cell[u.S+"|local"] = psim.BoolV(true)
			s.Cell[fieldCell(u, f.sel)] = term("selected(%s)", c)
			f.m.Fresh(s, "coeff@"+u.S, psim.VK{})
			l := psim.SymV("coeff@" + u.S)
			s.Cell[fieldCell(u, f.icoeff)] = l
			s.Cell[key(l)+"|content"] = psim.SymV("t:new")
			s.Cell[key(l)+"|len"] = term("N(%s)", c)
			return one(u)
		case "Highscore.Insert", "SAScore.Insert":
			if f.insert != nil {
				f.insert(s, cx, in, recv, ev(1))
			}
			return nil, true, false
		case "Highscore.BestScore", "Highscore.Len", "SearchProgress.Set", ".Argmax", ".Predict", ".BoundsAICC", ".NewLog2Pruned", ".CleanQueue", ".RemoveLeastPromising":
			if in.Value() == nil {
				return nil, true, false
			}
			if _, ok := in.Value().Type().(*types.Tuple); ok {
				return nil, false, false
			}
			return one(f.m.Unknown(s, cx, in.Value()))
		}
		return nil, false, false
	case pkg == "math" && fn == "Exp" && ev(0).S == "t:zero":
		return one(term("one"))
	case strings.HasPrefix(pkg, "math/rand") && fn == "Float64" && in.Value() != nil:
		u := f.m.Unknown(s, cx, in.Value())
		return one(term("unit(%s)", psim.Tok(u)))
	case pkg == "math" && (fn == "Max") && in.Value() != nil:
		for i := 0; i < 2; i++ {
			if isConstOrGlobal(args[i]) {
				return one(term("max(%s)", psim.Tok(ev(1-i))))
			}
		}
	case pkg == "slices" && fn == "Clone":
		c := f.content(s, ev(0))
		u := f.m.Unknown(s, cx, in.Value())
		s.Cell[key(u)+"|content"] = psim.SymV("t:" + c)
		return one(u)
	}
	if cc.StaticCallee() == nil && !cc.IsInvoke() && len(args) == 3 && isFloatT(in.Value().Type()) {
		// a criterion handed in
		if e := f.ex.of(cx, cc.Value); strings.HasPrefix(e, "p") {
			return one(term("crit:%s(%s;%s;%s)", e, psim.Tok(ev(0)), f.rows(s, cx, args[1]), psim.Tok(ev(2))))
		}
	}
	// an unknown routine may change the lists it is given
	if !f.entered(cx, in) {
		for _, a := range args {
			if el := sliceElem(a.Type()); el != nil && (isBoolT(el) || isFloatT(el)) && pkg != "fmt" {
				if in.Value() != nil {
					f.renew(s, f.m.Eval(s, cx, a), name())
				}
			}
		}
	}
	return nil, false, false
}

func (f *fits) entered(cx *pta.Ctx, in ssa.CallInstruction) bool {
	for _, x := range f.a.CtxList() {
		if x.Parent == cx && x.Call == ssa.Instruction(in) && !f.m.Opaque(x) && len(x.Fn.Blocks) > 0 {
			return true
		}
	}
	return false
}

func isConstOrGlobal(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.UnOp:
		_, ok := x.X.(*ssa.Global)
		return ok && x.Op == token.MUL
	}
	return false
}

// stored follows a store to an element of a list
func (f *fits) stored(s *psim.State, cx *pta.Ctx, st *ssa.Store) {
	ia, ok := st.Addr.(*ssa.IndexAddr)
	if !ok {
		return
	}
	el := sliceElem(ia.X.Type())
	if el == nil {
		return
	}
	if f.elem != nil {
		f.elem(s, cx, st, ia)
	}
	if _, basic := el.Underlying().(*types.Basic); !basic {
		return
	}
	l := f.m.Eval(s, cx, ia.X)
	where := psim.SymOf(cx, ia)
	if !isBoolT(el) {
		f.renew(s, l, where)
		return
	}
	cur := f.content(s, l)
	i := psim.Tok(f.m.Eval(s, cx, ia.Index))
	b, x := splitXor(cur)
	v := f.m.Eval(s, cx, st.Val)
	if !f.inner(st) {
		neg := false
		w := v
		for w.K == psim.Not {
			w, neg = *w.A, !neg
		}
		if w.K == psim.Sym && strings.HasPrefix(w.S, "t:at(") && strings.HasSuffix(w.S, ","+i+")") {
			b0, x0 := splitXor(w.S[len("t:at(") : len(w.S)-len(i)-2])
			if b0 == b {
				delete(x, i)
				if x0[i] != neg {
					x[i] = true
				}
				f.setContent(s, l, joinXor(b, x))
				return
			}
		}
	}
	if v.K == psim.Bool {
		if d, ok := f.m.Decide(s, at(cur, i)); ok {
			if d == (v.N == 1) {
				return
			}
			if !f.inner(st) {
				if x[i] {
					delete(x, i)
				} else {
					x[i] = true
				}
				f.setContent(s, l, joinXor(b, x))
				return
			}
		}
	}
	f.renew(s, l, where)
}

// isN tells whether a number is that of the features of a content
func (f *fits) isN(s *psim.State, n, c string) bool {
	if n == "N("+c+")" {
		return true
	}
	con := s.Con["t:N("+c+")"]
	if con.HasLo && con.HasHi && con.Lo == con.Hi && n == fmt.Sprint(con.Lo) {
		return true
	}
	if n == "1" {
		// without one of its features the mask was empty
		b, x := splitXor(c)
		for k, con := range s.Con {
			if !strings.HasPrefix(k, "t:N(") || !con.HasHi || con.Hi > 0 {
				continue
			}
			b1, x1 := splitXor(k[4 : len(k)-1])
			if b1 != b {
				continue
			}
			d := 0
			for t := range x {
				if !x1[t] {
					d++
				}
			}
			for t := range x1 {
				if !x[t] {
					d++
				}
			}
			if d == 1 {
				return true
			}
		}
	}
	return false
}

func fitOf(c string) string { return "Fit(D(" + c + ",p0),p1)" }

// scoreOf tells whether a value is a criterion of the fit of a content
func (f *fits) scoreOf(s *psim.State, v psim.Val, c, crit string) bool {
	if v.K != psim.Sym || v.N != 0 {
		return false
	}
	pre := "t:crit:" + crit + "("
	if !strings.HasPrefix(v.S, pre) {
		return false
	}
	parts := strings.Split(v.S[len(pre):len(v.S)-1], ";")
	if len(parts) != 3 {
		return false
	}
	rss := "Rss(D(" + c + ",p0)," + fitOf(c) + ",p1)"
	if !f.isN(s, parts[0], c) || parts[1] != "rows" {
		return false
	}
	if strings.HasPrefix(parts[2], "«const:") {
		low, ok := s.Cell[strings.Trim(parts[2], "«»")+"|of"]
		return ok && psim.Tok(low) == rss
	}
	return parts[2] == rss || parts[2] == "max("+rss+")"
}

// node tells what is wrong with a node that is to be listed
func (f *fits) node(s *psim.State, v psim.Val, crit string) string {
	mv, ok := s.Cell[fieldCell(v, f.model)]
	if !ok {
		return "its features are not known"
	}
	c := f.content(s, mv)
	cv, ok := s.Cell[fieldCell(v, f.coeff)]
	if !ok || f.content(s, cv) != fitOf(c) {
		return "its coefficients are not the fit of its features (" + pretty(f.content(s, cv)) + " for " + pretty(c) + ")"
	}
	sv, ok := s.Cell[fieldCell(v, f.score)]
	if !ok || !f.scoreOf(s, f.neg(sv), c, crit) {
		return "its score is not the negated criterion of the fit of its features (" + pretty(sv.String()) + ")"
	}
	return ""
}

// item tells what is wrong with an item of the annealing list
func (f *fits) item(s *psim.State, v psim.Val, crit string) string {
	sv, ok := s.Cell[fieldCell(v, f.sel)]
	if !ok {
		return "its selection is not known"
	}
	c := f.content(s, sv)
	if !strings.HasPrefix(c, "selected(") {
		return "its selection is not that of the features (" + pretty(c) + ")"
	}
	c = c[len("selected(") : len(c)-1]
	cv, ok := s.Cell[fieldCell(v, f.icoeff)]
	if !ok || f.content(s, cv) != fitOf(c) {
		return "its coefficients are not the fit of its features (" + pretty(f.content(s, cv)) + " for " + pretty(c) + ")"
	}
	if n, ok := s.Cell[key(cv)+"|len"]; ok && !f.isN(s, psim.Tok(n), c) {
		return "it has not one coefficient per feature (" + pretty(psim.Tok(n)) + ")"
	}
	xv, ok := s.Cell[fieldCell(v, f.iscore)]
	if !ok || !f.scoreOf(s, f.neg(xv), c, crit) {
		return "its score is not the negated criterion of the fit of its features (" + pretty(xv.String()) + ")"
	}
	return ""
}

func pretty(t string) string {
	t = strings.NewReplacer("«", "", "»", "", "t:", "").Replace(t)
	return short(t, 160)
}

const (
	ruleNode = "one fit per entry"
	ruleItem = "one fit per item"
	ruleUndo = "rejected proposals are undone"
	ruleLast = "final answer is the last accepted model"
	ruleOmp  = "coefficients at their features"
)

// changed: a field of the received node was stored to
func (f *fits) markStores(s *psim.State, cx *pta.Ctx, st *ssa.Store) {
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok || !isNodePtr(fa.X.Type()) {
		return
	}
	if fa.Field == f.model || fa.Field == f.coeff || fa.Field == f.score {
		s.U["dirty:"+unbox(f.m.Eval(s, cx, fa.X)).String()] = 1
	}
}

// entries follows the routes that offer nodes to the highscore list
func (c *Ctx) fitEntries(root string, workers bool) {
	fn := c.Need("featselect", root)
	if fn == nil {
		return
	}
	a := c.analyse(fn)
	f := c.newFits(a)
	if f == nil {
		return
	}
	cs := complaints{}
	offered, scored := 0, 0
	run := func(start *pta.Ctx, pos token.Pos, p *pools, outcomes map[*pta.Obj]bool) {
		m := f.sim()
		m.Merge = start == a.RootCtx
		f.insert = func(s *psim.State, cx *pta.Ctx, in ssa.CallInstruction, recv string, v psim.Val) {
			if recv != "Highscore" {
				return
			}
			offered++
			v = unbox(v)
			if f.received(v) {
				if s.U["dirty:"+v.String()] > 0 {
					cs.add(ruleNode, in.Pos(), "a scored node is changed before it is offered to the highscore list")
				}
				return
			}
			if why := f.node(s, v, "Aicc"); why != "" {
				cs.add(ruleNode, in.Pos(), "a node is offered to the highscore list but %s", why)
			}
		}
		m.Event = func(s *psim.State, cx *pta.Ctx, in ssa.Instruction, sel int) bool {
			if st, ok := in.(*ssa.Store); ok {
				f.markStores(s, cx, st)
				f.stored(s, cx, st)
			}
			if p == nil {
				return true
			}
			for _, o := range p.at(cx, in, sel) {
				if o.kind != "send" || !isNodePtr(o.val.Type()) {
					continue
				}
				for _, ch := range o.chs {
					if !outcomes[ch] {
						continue
					}
					scored++
					v := unbox(m.Eval(s, cx, o.val))
					if why := f.node(s, v, "Aicc"); why != "" && !f.exempt(s, v) {
						cs.add(ruleNode, in.Pos(), "a worker returns a node as scored but %s", why)
					}
				}
			}
			return true
		}
		m.Run(pta.Point{Ctx: start}, psim.NewState())
		c.Count("abstract states", m.Steps())
		if m.Over {
			c.Add(ruleNode, root, pos, Undecided, "too many states")
		}
	}
	if !workers {
		run(a.RootCtx, fn.Pos(), nil, nil)
	} else {
		p := c.newPools(root, a)
		// the channels from which the search takes nodes that it offers
		outcomes := map[*pta.Obj]bool{}
		for _, o := range p.ops {
			if o.kind != "recv" || o.p.Ctx.Thread() != a.RootCtx.Thread() {
				continue
			}
			for _, ch := range o.chs {
				if v, ok := ch.Site.(ssa.Value); ok {
					if ct, ok := v.Type().Underlying().(*types.Chan); ok && isNodePtr(ct.Elem()) {
						outcomes[ch] = true
					}
				}
			}
		}
		run(a.RootCtx, fn.Pos(), nil, nil)
		for _, t := range p.gos {
			for _, o := range p.ops {
				if o.kind == "send" && o.p.Ctx.Thread() == t && anyOf(o.chs, outcomes) {
					run(t, t.Fn.Pos(), p, outcomes)
					break
				}
			}
		}
		if scored == 0 {
			c.Add(ruleNode, root, fn.Pos(), Undecided, "no worker that returns scored nodes was found")
		}
	}
	c.Count("entries offered", offered)
	c.Count("nodes scored", scored)
	if offered == 0 {
		c.Add(ruleNode, root, fn.Pos(), Undecided, "no node is offered to the highscore list")
	}
	v, bad := cs[ruleNode]
	pos := fn.Pos()
	if bad {
		pos = v.pos
	}
	c.Check(!bad, ruleNode, root, pos, "%s", v.msg)
}

func anyOf(l []*pta.Obj, m map[*pta.Obj]bool) bool {
	for _, o := range l {
		if m[o] {
			return true
		}
	}
	return false
}

// received: the value came over a channel
func (f *fits) received(v psim.Val) bool {
	k, ok := f.m.Names[v.S]
	if v.K != psim.Sym || !ok {
		return false
	}
	switch x := k.V.(type) {
	case *ssa.UnOp:
		return x.Op == token.ARROW
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Select:
			return true
		case *ssa.UnOp:
			return t.Op == token.ARROW
		}
	}
	return false
}

// exempt: the node has no features or is not new, so that it will not be listed
func (f *fits) exempt(s *psim.State, v psim.Val) bool {
	sv, ok := s.Cell[fieldCell(v, f.score)]
	if !ok || sv.K != psim.Sym || !strings.HasPrefix(sv.S, "const:") {
		return false
	}
	node := f.c.P.Named("featselect", "Node")
	z := psim.IntV(0)
	if mv, ok := s.Cell[fieldCell(v, f.model)]; ok {
		n := term("N(%s)", f.content(s, mv))
		for _, op := range []token.Token{token.LEQ, token.EQL} {
			if d, ok := f.m.Decide(s, psim.Val{K: psim.Cmp, Op: op, A: &n, B: &z}); ok && d {
				return true
			}
		}
	}
	fl, ok := s.Cell[fieldCell(v, structField(node, "WasFlipped"))]
	lv, ok2 := s.Cell[fieldCell(v, structField(node, "Level"))]
	if !ok || !ok2 {
		return false
	}
	d, known := f.m.Decide(s, fl)
	if !known || d {
		return false
	}
	for _, op := range []token.Token{token.NEQ, token.GTR} {
		if d, ok := f.m.Decide(s, psim.Val{K: psim.Cmp, Op: op, A: &lv, B: &z}); ok && d {
			return true
		}
	}
	return false
}

// annealing follows one round of the annealing loop from any state
func (c *Ctx) fitAnnealing() {
	const root = "SelectModelSA"
	fn := c.Need("featselect", root)
	if fn == nil {
		return
	}
	a := c.analyse(fn)
	f := c.newFits(a)
	if f == nil {
		return
	}
	// the loop around the insertion
	var frame *pta.Ctx
	var loop *ssaLoop
	for _, cx := range a.CtxList() {
		for _, b := range cx.Fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if pkg, recv, name := calledAs(ci); !c.P.InModule(pkg) || recv+"."+name != "SAScore.Insert" {
					continue
				}
				for x := cx; x != nil && loop == nil; x = x.Parent {
					if at := liftTo(pta.Point{Ctx: cx, Instr: in}, x); at != nil {
						for _, l := range loopsOf(x.Fn) {
							if l.body[at.Block()] {
								frame, loop = x, l
								break
							}
						}
					}
				}
			}
		}
	}
	if loop == nil {
		c.Add(ruleItem, root, fn.Pos(), Undecided, "the loop of the annealing was not found")
		return
	}
	f.top, f.frame, f.crit = loop, frame, "p3"
	m := f.sim()
	cs := complaints{}
	items, rounds, ends, known := 0, 0, 0, 0
	crit := f.crit
	f.insert = func(s *psim.State, cx *pta.Ctx, in ssa.CallInstruction, recv string, v psim.Val) {
		if recv != "SAScore" {
			return
		}
		items++
		if why := f.item(s, v, crit); why != "" {
			cs.add(ruleItem, in.Pos(), "an item is inserted in the list of best models but %s", why)
		}
	}
	type roundEnd struct {
		s   *psim.State
		pos token.Pos
	}
	var backs []roundEnd
	type pair struct{ m, c psim.Val }
	pairs := map[string]pair{}
	sliced := true
	headIn := loop.head.Instrs[nphis(loop.head)]
	started := false
	m.Stop = func(s *psim.State, cx *pta.Ctx, in ssa.Instruction) bool {
		if cx != frame || in != headIn {
			return false
		}
		if !started {
			started = true
			return false
		}
		rounds++
		backs = append(backs, roundEnd{s, in.Pos()})
		return true
	}
	m.Event = func(s *psim.State, cx *pta.Ctx, in ssa.Instruction, sel int) bool {
		if st, ok := in.(*ssa.Store); ok {
			f.stored(s, cx, st)
		}
		return true
	}
	res := c.P.Named("featselect", "SARes")
	if res == nil {
		c.Add("anchor", "featselect.SARes", token.NoPos, Undecided, "type not found")
		return
	}
	fs, fc := structField(res, "Selected"), structField(res, "Coeff")
	m.Exit = func(s *psim.State, cx *pta.Ctx, in ssa.Instruction, panics bool) {
		ret, ok := in.(*ssa.Return)
		if panics || !ok || len(ret.Results) != 1 {
			return
		}
		ends++
		v := m.Eval(s, cx, ret.Results[0])
		sv, ok1 := s.Cell[fieldCell(v, fs)]
		cv, ok2 := s.Cell[fieldCell(v, fc)]
		if !ok1 || !ok2 {
			cs.add(ruleLast, in.Pos(), "it is not known what features or coefficients are returned")
			return
		}
		sc := f.content(s, sv)
		if sc == "empty" {
			return // the list without features
		}
		known++
		if !strings.HasPrefix(sc, "selected(") {
			cs.add(ruleLast, in.Pos(), "the features returned are not those of the model (%s)", pretty(sc))
			return
		}
		M := sc[len("selected(") : len(sc)-1]
		C := f.content(s, cv)
		n, hasLen := s.Cell[key(cv)+"|len"]
		if hasLen && !f.isN(s, psim.Tok(n), M) {
			cs.add(ruleLast, in.Pos(), "not as many coefficients as features are returned (%s)", pretty(psim.Tok(n)))
		}
		if !hasLen && C != fitOf(M) {
			sliced = false
		}
		if C == fitOf(M) {
			return
		}
		mk, okm := f.stateVar(M)
		ck, okc := f.stateVar(C)
		if !okm || !okc {
			cs.add(ruleLast, in.Pos(), "the coefficients returned are not those of the features returned (%s for %s)", pretty(C), pretty(M))
			return
		}
		pairs[mk+"/"+ck] = pair{psim.SymV(mk), psim.SymV(ck)}
	}
	s := psim.NewState()
	for x := frame; x.Parent != nil; x = x.Parent {
		for _, p := range x.Fn.Params {
			if v, pc := argOf(x, p); v != nil {
				m.Set(s, x, p, m.Eval(s, pc, v))
			}
		}
	}
	m.Run(pta.Point{Ctx: frame, Instr: headIn}, s)
	c.Count("abstract states", m.Steps())
	c.Count("annealing rounds followed", rounds)
	c.Count("annealing ends followed", ends)
	c.Count("items inserted", items)
	if m.Over {
		c.Add(ruleItem, root, fn.Pos(), Undecided, "too many states")
		return
	}
	if items == 0 || rounds == 0 || known == 0 {
		c.Add(ruleItem, root, fn.Pos(), Undecided, "the rounds (%d), ends (%d) or insertions (%d) of the annealing were not found", rounds, ends, items)
		return
	}
	// every round ends with the model it started from or with the accepted one
	now := func(st *psim.State, v psim.Val) psim.Val {
		if strings.HasPrefix(v.S, "cell:") {
			if x, ok := st.Cell[v.S[len("cell:"):]]; ok {
				return x
			}
			return v
		}
		if k, ok := m.Names[v.S]; ok {
			return m.Eval(st, k.C, k.V)
		}
		for _, in := range loop.head.Instrs[:nphis(loop.head)] {
			if psim.SymOf(frame, in.(ssa.Value)) == v.S {
				return m.Eval(st, frame, in.(ssa.Value))
			}
		}
		return v
	}
	var names []string
	for k := range pairs {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		p := pairs[k]
		kept, taken := 0, 0
		for _, b := range backs {
			mv, cv := now(b.s, p.m), now(b.s, p.c)
			M, C := f.content(b.s, mv), f.content(b.s, cv)
			same := M == "@"+psim.Tok(p.m) && C == "@"+psim.Tok(p.c)
			fit := C == fitOf(M)
			if fit {
				taken++
				if !sliced && (cv.K != psim.Sym || !strings.HasPrefix(cv.S, "t:Fit(")) {
					cs.add(ruleLast, b.pos, "more coefficients than those of the features can be returned")
				}
			} else if same {
				kept++
			} else {
				if sem.Debug {
					fmt.Printf("CELL %v\nCON %v\n", b.s.Cell, b.s.Con)
				}
				cs.add(ruleUndo, b.pos, "a round can end with features and coefficients that do not belong together: %s and %s", pretty(M), pretty(C))
			}
		}
		if taken == 0 {
			cs.add(ruleUndo, loop.head.Instrs[0].Pos(), "no proposal is ever accepted")
		}
		// the score that proposals are compared with goes along
		if !f.scoreKept(frame, loop, p.m, p.c, now, func(do func(*psim.State)) {
			for _, b := range backs {
				do(b.s)
			}
		}, crit) {
			cs.add(ruleUndo, loop.head.Instrs[0].Pos(), "no number carried around the loop is always the criterion of the model that the search continues from")
		}
	}
	for _, rule := range []string{ruleItem, ruleUndo, ruleLast} {
		v, bad := cs[rule]
		pos := fn.Pos()
		if bad {
			pos = v.pos
		}
		c.Check(!bad, rule, root, pos, "%s", v.msg)
	}
}

// stateVar: the content is what a variable held when the round started
func (f *fits) stateVar(c string) (string, bool) {
	if !strings.HasPrefix(c, "@«") || !strings.HasSuffix(c, "»") {
		return "", false
	}
	return c[len("@«") : len(c)-len("»")], true
}

// scoreKept: some number is the criterion of the accepted model on every way
// around the loop
func (f *fits) scoreKept(frame *pta.Ctx, l *ssaLoop, mv, cv psim.Val, now func(*psim.State, psim.Val) psim.Val, each func(func(*psim.State)), crit string) bool {
	var cands []string
	kept := false
	for _, in := range l.head.Instrs[:nphis(l.head)] {
		if ph := in.(*ssa.Phi); isFloatT(ph.Type()) {
			cands = append(cands, psim.SymOf(frame, ph))
		}
	}
	for n, t := range f.cells {
		if isFloatT(t) {
			cands = append(cands, n)
		}
	}
	for _, n := range cands {
		ok, set := true, 0
		each(func(s *psim.State) {
			v := now(s, psim.SymV(n))
			M, C := f.content(s, now(s, mv)), f.content(s, now(s, cv))
			switch {
			case C == fitOf(M):
				if f.scoreOf(s, v, M, crit) || f.scoreOf(s, f.neg(v), M, crit) {
					set++
				} else {
					ok = false
				}
			case v.K == psim.Sym && v.S == n && v.N == 0:
			default:
				ok = false
			}
		})
		if ok && set > 0 {
			delete(f.assumed, n)
			kept = true
		}
	}
	return kept && len(f.assumed) == 0
}

// fitOmp follows orthogonal matching pursuit
func (c *Ctx) fitOmp() {
	const root = "Omp"
	fn := c.Need("featselect", root)
	if fn == nil {
		return
	}
	a := c.analyse(fn)
	f := c.newFits(a)
	res := c.P.Named("featselect", "OmpResult")
	if f == nil || res == nil {
		return
	}
	fc := structField(res, "Coeff")
	m := f.sim()
	m.Merge = true
	cs := complaints{}
	stores := 0
	f.elem = func(s *psim.State, cx *pta.Ctx, st *ssa.Store, ia *ssa.IndexAddr) {
		if !isFloatT(st.Val.Type()) {
			return
		}
		l := unbox(m.Eval(s, cx, ia.X))
		k, ok := m.Names[l.S]
		isRes := false
		if ok {
			if u, isU := k.V.(*ssa.UnOp); isU {
				if fa, isF := u.X.(*ssa.FieldAddr); isF && fa.Field == fc && types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), res) {
					isRes = true
				}
			}
		}
		if u, isU := ia.X.(*ssa.UnOp); isU {
			if fa, isF := u.X.(*ssa.FieldAddr); isF && fa.Field == fc && types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), res) {
				isRes = true
			}
		}
		if !isRes {
			return
		}
		stores++
		v := m.Eval(s, cx, st.Val)
		i := m.Eval(s, cx, ia.Index)
		vt, it := psim.Tok(v), psim.Tok(i)
		bad := func() {
			cs.add(ruleOmp, st.Pos(), "what is stored as the coefficient of feature %s is not the fitted coefficient of that feature (%s)", pretty(it), pretty(vt))
		}
		const pe = "el(Fit(D("
		if !strings.HasPrefix(vt, pe) {
			bad()
			return
		}
		j := strings.Index(vt, ",p0),p1),")
		if j < 0 {
			bad()
			return
		}
		M, pos := vt[len(pe):j], vt[j+len(",p0),p1),"):len(vt)-1]
		_, ls := f.loopsIn(cx.Fn)
		if it == "el(selected("+M+"),"+pos+")" {
			// every feature of the model in turn
			for _, l := range ls {
				if l.body[st.Block()] && psim.Tok(m.Eval(s, cx, l.idx)) == pos {
					if !l.always(st.Block()) {
						cs.add(ruleOmp, st.Pos(), "the coefficient of a feature is not always stored")
					}
					return
				}
			}
			cs.add(ruleOmp, st.Pos(), "the coefficients are not stored from the first to the last")
			return
		}
		for _, l := range ls {
			if l.body[st.Block()] && ia.Index == l.idx {
				if mask := l.under(st.Block()); mask != nil && f.content(s, m.Eval(s, cx, mask)) == M {
					if el, ok := st.Val.(*ssa.UnOp); ok {
						if ea, ok := el.X.(*ssa.IndexAddr); ok && l.counter(ea.Index) == mask {
							return
						}
					}
				}
			}
		}
		bad()
	}
	m.Event = func(s *psim.State, cx *pta.Ctx, in ssa.Instruction, sel int) bool {
		if st, ok := in.(*ssa.Store); ok {
			f.stored(s, cx, st)
		}
		return true
	}
	m.Run(pta.Point{Ctx: a.RootCtx}, psim.NewState())
	c.Count("abstract states", m.Steps())
	c.Count("coefficients stored", stores)
	if m.Over {
		c.Add(ruleOmp, root, fn.Pos(), Undecided, "too many states")
		return
	}
	if stores == 0 {
		c.Add(ruleOmp, root, fn.Pos(), Undecided, "no coefficient is stored in the result")
		return
	}
	v, bad := cs[ruleOmp]
	pos := fn.Pos()
	if bad {
		pos = v.pos
	}
	c.Check(!bad, ruleOmp, root, pos, "%s", v.msg)
}

func init() {
	registry["M01"] = func(c *Ctx) {
		c.Rule(ruleNode, "where a worker of branch and bound returns a node as scored, and where a node is offered to the highscore list, the node's coefficients are the fit of the design matrix of the node's own mask, and its score the negated AICC of that mask's number of features, the number of data points and the residual sum of squares of that fit; a node without features, or that is not new, may carry a constant instead")
		c.Rule(ruleItem, "an item inserted in the annealing list carries the selection, the coefficients (as many) and the negated criterion of one and the same mask")
		c.Rule(ruleUndo, "one round of annealing, from any state, ends with the mask, its coefficients and the score compared with all as they were, or all those of the proposal that was fitted")
		c.Rule(ruleLast, "what annealing returns are the features of the mask that the loop carries and, as many, the coefficients that go with it")
		c.Rule(ruleOmp, "each coefficient stored in the result of orthogonal matching pursuit is stored at the index of its own feature, for all features of the model fitted")
		c.fitEntries("SelectModel", true)
		c.fitEntries("BruteForceSelect", false)
		c.fitAnnealing()
		c.fitOmp()
	}
	explain["M01"] = "Path-sensitive abstract interpretation (property simulation) over terms: the content of every mask and coefficient list is followed as a term (negated elements cancel out, copies share the content), and fits, residual sums, numbers of features and criteria are terms over the content they are computed from; the terms that meet in an entry, an item or a result must be over one content."
}
