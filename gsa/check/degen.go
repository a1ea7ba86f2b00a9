package check

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"gsa/psim"
	"gsa/pta"

	"golang.org/x/tools/go/ssa"
)

// sign is what is known of a floating-point number
type sign uint8

const (
	sTop sign = iota
	sZero
	sPos // greater than zero
	sNon // zero or greater
	sNaN
)

var signName = map[sign]string{sZero: "F:zero", sPos: "F:pos", sNon: "F:nonneg", sNaN: "F:nan", sTop: "F:any"}

func signOf(v psim.Val) sign {
	if v.K == psim.Int {
		if v.N == 0 {
			return sZero
		}
		return sTop
	}
	if v.K != psim.Sym || v.N != 0 {
		return sTop
	}
	for s, n := range signName {
		if v.S == n {
			return s
		}
	}
	if strings.HasPrefix(v.S, "const:") {
		s := v.S[len("const:"):]
		if i := strings.IndexByte(s, '/'); i > 0 {
			s = s[:i]
		}
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			switch {
			case f == 0:
				return sZero
			case f > 0:
				return sPos
			}
		}
	}
	return sTop
}

func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func signArith(op token.Token, a, b sign) sign {
	if a == sNaN || b == sNaN {
		return sNaN
	}
	nn := func(s sign) bool { return s == sZero || s == sPos || s == sNon }
	switch op {
	case token.ADD:
		switch {
		case a == sZero:
			return b
		case b == sZero:
			return a
		case nn(a) && nn(b) && (a == sPos || b == sPos):
			return sPos
		case nn(a) && nn(b):
			return sNon
		}
	case token.SUB:
		if b == sZero {
			return a
		}
	case token.MUL:
		switch {
		case a == sZero || b == sZero:
			return sZero
		case a == sPos && b == sPos:
			return sPos
		case nn(a) && nn(b):
			return sNon
		}
	case token.QUO:
		switch {
		case a == sZero && b == sZero:
			return sNaN
		case a == sZero && b == sPos:
			return sZero
		case a == sPos && b == sPos:
			return sPos
		case a == sNon && b == sPos:
			return sNon
		}
	}
	return sTop
}

// signCmp decides a comparison
func signCmp(op token.Token, a, b sign) (bool, bool) {
	if a == sNaN || b == sNaN {
		return op == token.NEQ, true
	}
	switch op {
	case token.GTR:
		return signCmp(token.LSS, b, a)
	case token.GEQ:
		return signCmp(token.LEQ, b, a)
	case token.NEQ:
		r, ok := signCmp(token.EQL, a, b)
		return !r, ok
	case token.EQL:
		switch {
		case a == sZero && b == sZero:
			return true, true
		case a == sZero && b == sPos || a == sPos && b == sZero:
			return false, true
		}
	case token.LSS:
		switch {
		case a == sZero && b == sPos:
			return true, true
		case b == sZero && (a == sZero || a == sPos || a == sNon):
			return false, true
		}
	case token.LEQ:
		switch {
		case a == sZero && (b == sZero || b == sPos || b == sNon):
			return true, true
		case a == sPos && b == sZero:
			return false, true
		}
	}
	return false, false
}

// isFloatSliceElem: an element of a list of floating-point numbers
func isFloatSliceElem(v ssa.Value) bool {
	ia, ok := v.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	sl, ok := ia.X.Type().Underlying().(*types.Slice)
	return ok && isFloatT(sl.Elem())
}

// checkZeroSolution decides that coordinate descent stops at the all-zero
// solution
func checkZeroSolution(c *Ctx) {
	const rule = "zero solution recognised"
	c.Rule(rule, "with all coefficients equal to zero before and after a round (and a tolerance and penalty that are not negative), no second round of coordinate descent starts and no warning is printed: comparisons are decided over the domain {zero, positive, not negative, NaN, anything}")
	f := c.Need("featselect", "LassoCrdDesc")
	if f == nil {
		return
	}
	a := c.analyse(f)
	m := psim.New(a)
	m.Merge = true
	m.Opaque = func(x *pta.Ctx) bool {
		return x.Fn.Pkg == nil || !c.P.InModule(x.Fn.Pkg.Pkg.Path()) || x.Fn.Signature.Recv() != nil
	}
	m.Value = func(s *psim.State, cx *pta.Ctx, v ssa.Value) (psim.Val, bool) {
		give := func(x sign) (psim.Val, bool) {
			if x == sTop {
				return m.Unknown(s, cx, v), true
			}
			return psim.SymV(signName[x]), true
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL && isFloatSliceElem(x.X) {
				return give(sZero)
			}
			if x.Op == token.SUB && isFloatT(x.Type()) {
				switch k := signOf(m.Eval(s, cx, x.X)); k {
				case sZero, sNaN:
					return give(k)
				}
				return give(sTop)
			}
		case *ssa.BinOp:
			if !isFloatT(x.X.Type()) {
				return psim.Val{}, false
			}
			p, q := signOf(m.Eval(s, cx, x.X)), signOf(m.Eval(s, cx, x.Y))
			if isFloatT(x.Type()) {
				return give(signArith(x.Op, p, q))
			}
			if d, ok := signCmp(x.Op, p, q); ok {
				return psim.BoolV(d), true
			}
			return give(sTop)
		}
		return psim.Val{}, false
	}
	cs := complaints{}
	rounds := 0
	m.Call = func(s *psim.State, cx *pta.Ctx, in ssa.CallInstruction) ([]psim.Val, bool, bool) {
		cc := in.Common()
		if cc.IsInvoke() && cc.Method.Name() == "Update" {
			rounds++
			if s.U["rounds"] > 0 {
				cs.add(rule, in.Pos(), "a further round starts although all coefficients were zero before and after the one before")
				return nil, true, true
			}
			s.U["rounds"]++
			return nil, true, false
		}
		pkg, _, name := calledAs(in)
		if (pkg == "fmt" && strings.HasPrefix(name, "Print") || pkg == "log") && s.U["rounds"] > 0 {
			cs.add(rule, in.Pos(), "a warning can be printed although the all-zero solution was reached")
		}
		if pkg == "math" && in.Value() != nil {
			args := cc.Args
			at := func(i int) sign { return signOf(m.Eval(s, cx, args[i])) }
			r := sTop
			switch name {
			case "Abs":
				switch r = at(0); r {
				case sTop:
					r = sNon
				}
			case "Max":
				switch p, q := at(0), at(1); {
				case p == sZero && q == sZero:
					r = sZero
				case p == sNaN || q == sNaN:
					r = sNaN
				case p == sPos || q == sPos:
					r = sPos
				case p == sNon || p == sZero || q == sNon || q == sZero:
					r = sNon
				}
			case "Min":
				switch p, q := at(0), at(1); {
				case p == q:
					r = p
				}
			case "IsNaN":
				switch at(0) {
				case sNaN:
					return []psim.Val{psim.BoolV(true)}, true, false
				case sZero, sPos, sNon:
					return []psim.Val{psim.BoolV(false)}, true, false
				}
				return nil, false, false
			default:
				return nil, false, false
			}
			if r == sTop {
				return nil, false, false
			}
			return []psim.Val{psim.SymV(signName[r])}, true, false
		}
		return nil, false, false
	}
	ends := 0
	m.Exit = func(s *psim.State, cx *pta.Ctx, in ssa.Instruction, panics bool) {
		if !panics && s.U["rounds"] > 0 {
			ends++
		}
	}
	s := psim.NewState()
	for _, p := range f.Params {
		if isFloatT(p.Type()) {
			m.Set(s, a.RootCtx, p, psim.SymV(signName[sNon]))
		}
	}
	m.Run(pta.Point{Ctx: a.RootCtx, Instr: f.Blocks[0].Instrs[0]}, s)
	c.Count("abstract states", m.Steps())
	c.Count("functions", 1)
	if m.Over {
		c.Add(rule, "LassoCrdDesc", f.Pos(), Undecided, "too many states")
		return
	}
	if rounds == 0 {
		c.Add(rule, "LassoCrdDesc", f.Pos(), Undecided, "the rounds of the descent (calls of Update) were not found")
		return
	}
	if ends == 0 {
		cs.add(rule, f.Pos(), "the descent does not end at the all-zero solution")
	}
	v, bad := cs[rule]
	pos := f.Pos()
	if bad {
		pos = v.pos
	}
	c.Check(!bad, rule, "LassoCrdDesc", pos, "%s", v.msg)
}

func init() {
	registry["R01"] = func(c *Ctx) {
		c.Specs()
		checkZeroSolution(c)
	}
	explain["R01"] = explainSpec + " Every floating-point division on the way is an obligation that its divisor cannot be zero under the conditions of its path. Coordinate descent is simulated at the all-zero solution over the signs of numbers."
}
