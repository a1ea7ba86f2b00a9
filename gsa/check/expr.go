package check

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"gsa/psim"
	"gsa/pta"

	"golang.org/x/tools/go/ssa"
)

// exprs writes values of a routine as expressions over its parameters
type exprs struct {
	a     *pta.An
	owner *pta.Ctx
	depth int
}

// of gives the canonical expression of a value, split into a core and an
// integer offset
func (e *exprs) lin(c *pta.Ctx, v ssa.Value) (string, int64) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			if n, ok := constant.Int64Val(x.Value); ok {
				return "", n
			}
		}
	case *ssa.BinOp:
		if isIntT(x.Type()) && (x.Op == token.ADD || x.Op == token.SUB) {
			a, i := e.lin(c, x.X)
			b, j := e.lin(c, x.Y)
			if x.Op == token.SUB {
				if b == "" {
					return a, i - j
				}
				if a == b {
					return "", i - j
				}
				break
			}
			if a == "" {
				return b, i + j
			}
			if b == "" {
				return a, i + j
			}
		}
	case *ssa.ChangeType:
		return e.lin(c, x.X)
	case *ssa.Convert:
		if isIntT(x.Type()) && isIntT(x.X.Type()) {
			return e.lin(c, x.X)
		}
	case *ssa.Parameter:
		if c != e.owner && c.Parent != nil {
			if a, pc := argOf(c, x); a != nil {
				return e.lin(pc, a)
			}
		}
	}
	return e.of(c, v), 0
}

// argOf finds what the caller passes for a parameter
func argOf(c *pta.Ctx, p *ssa.Parameter) (ssa.Value, *pta.Ctx) {
	call, ok := c.Call.(ssa.CallInstruction)
	if !ok {
		return nil, nil
	}
	cc := call.Common()
	i := -1
	for k, q := range c.Fn.Params {
		if q == p {
			i = k
		}
	}
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	} else if cc.StaticCallee() != c.Fn {
		if mc, ok := cc.Value.(*ssa.MakeClosure); !ok || mc.Fn != c.Fn {
			if len(args) != len(c.Fn.Params) || cc.StaticCallee() != nil {
				return nil, nil
			}
		}
	}
	if i < 0 || i >= len(args) {
		return nil, nil
	}
	return args[i], c.Parent
}

func (e *exprs) of(c *pta.Ctx, v ssa.Value) string {
	e.depth++
	defer func() { e.depth-- }()
	if e.depth > 40 {
		return "?deep"
	}
	unknown := func() string { return "?" + psim.SymOf(c, v) }
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return "nil"
		}
		return x.Value.ExactString()
	case *ssa.Parameter:
		if c == e.owner || c.Parent == nil {
			for i, p := range c.Fn.Params {
				if p == x {
					return "p" + strconv.Itoa(i)
				}
			}
		}
		if a, pc := argOf(c, x); a != nil {
			return e.of(pc, a)
		}
	case *ssa.BinOp:
		if isIntT(x.Type()) && (x.Op == token.ADD || x.Op == token.SUB) {
			if n, k := e.lin(c, v); k != 0 || n == "" {
				return "(" + n + "+" + strconv.FormatInt(k, 10) + ")"
			}
		}
		a, b := e.of(c, x.X), e.of(c, x.Y)
		if (x.Op == token.ADD || x.Op == token.MUL) && b < a {
			a, b = b, a
		}
		return "(" + a + x.Op.String() + b + ")"
	case *ssa.ChangeType:
		return e.of(c, x.X)
	case *ssa.MakeInterface:
		return e.of(c, x.X)
	case *ssa.ChangeInterface:
		return e.of(c, x.X)
	case *ssa.Convert:
		if isIntT(x.Type()) && isIntT(x.X.Type()) {
			return e.of(c, x.X)
		}
		return types.TypeString(x.Type().Underlying(), nil) + "(" + e.of(c, x.X) + ")"
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return b.Name() + "(" + e.of(c, x.Call.Args[0]) + ")"
		}
		if r, rc := e.result(c, x, 0); r != nil {
			return e.of(rc, r)
		}
		var l []string
		n := ""
		if x.Call.IsInvoke() {
			n = x.Call.Method.Name()
			l = append(l, e.of(c, x.Call.Value))
		} else if f := x.Call.StaticCallee(); f != nil {
			n = f.Name()
		} else {
			return unknown()
		}
		for _, a := range x.Call.Args {
			l = append(l, e.of(c, a))
		}
		return n + "(" + strings.Join(l, ",") + ")"
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			if r, rc := e.result(c, call, x.Index); r != nil {
				return e.of(rc, r)
			}
			return e.of(c, call) + "#" + strconv.Itoa(x.Index)
		}
	case *ssa.Phi:
		var one ssa.Value
		for _, ed := range x.Edges {
			if ed == ssa.Value(x) {
				continue
			}
			if one != nil && one != ed {
				return unknown()
			}
			one = ed
		}
		if one != nil {
			return e.of(c, one)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.Alloc:
				if s := onlyStore(a); s != nil {
					return e.of(c, s)
				}
			case *ssa.FreeVar:
				if al, p := captured(c, a); al != nil {
					if s := onlyStore(al); s != nil {
						return e.of(p, s)
					}
				}
			case *ssa.FieldAddr:
				return e.of(c, a.X) + "." + fieldName(a)
			case *ssa.IndexAddr:
				return e.of(c, a.X) + "[" + e.of(c, a.Index) + "]"
			}
		}
	}
	return unknown()
}

// captured gives the variable of the enclosing routine that a closure uses
func captured(c *pta.Ctx, v ssa.Value) (*ssa.Alloc, *pta.Ctx) {
	for depth := 0; depth < 8; depth++ {
		fv, ok := v.(*ssa.FreeVar)
		if !ok {
			break
		}
		p := c.Parent
		for p != nil && p.Fn != c.Fn.Parent() {
			p = p.Parent
		}
		if p == nil {
			return nil, nil
		}
		var bound ssa.Value
		for _, bl := range p.Fn.Blocks {
			for _, in := range bl.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == c.Fn {
					for k, x := range c.Fn.FreeVars {
						if x == fv {
							bound = mc.Bindings[k]
						}
					}
				}
			}
		}
		v, c = bound, p
	}
	al, _ := v.(*ssa.Alloc)
	return al, c
}

// onlyStore gives the one value ever stored in a local variable
func onlyStore(a *ssa.Alloc) ssa.Value {
	var r ssa.Value
	n := 0
	ok := true
	var look func(v ssa.Value)
	look = func(v ssa.Value) {
		refs := v.Referrers()
		if refs == nil {
			ok = false
			return
		}
		for _, in := range *refs {
			switch y := in.(type) {
			case *ssa.Store:
				if y.Addr == v {
					n++
					r = y.Val
				} else {
					ok = false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				f := y.Fn.(*ssa.Function)
				for i, b := range y.Bindings {
					if b == v {
						look(f.FreeVars[i])
					}
				}
			default:
				ok = false
			}
		}
	}
	look(a)
	if ok && n == 1 {
		return r
	}
	return nil
}

func fieldName(f *ssa.FieldAddr) string {
	return f.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(f.Field).Name()
}

// result finds the single value a call of the module can return
func (e *exprs) result(c *pta.Ctx, x *ssa.Call, i int) (ssa.Value, *pta.Ctx) {
	for _, cx := range e.a.CtxList() {
		if cx.Parent != c || cx.Call != ssa.Instruction(x) || len(cx.Fn.Blocks) == 0 {
			continue
		}
		if st := x.Call.StaticCallee(); st != nil && st != cx.Fn {
			continue
		}
		var r ssa.Value
		for _, b := range cx.Fn.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if r != nil || i >= len(ret.Results) {
					return nil, nil
				}
				r = ret.Results[i]
			}
		}
		return r, cx
	}
	return nil, nil
}
