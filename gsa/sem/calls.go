package sem

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (ev *Eval) call(fr *frame, in ssa.Instruction, c *ssa.CallCommon, st *state) *T {
	args := make([]*T, len(c.Args))
	for i, a := range c.Args {
		args[i] = ev.val(fr, a)
	}
	return ev.callWith(fr, in, c, args, st)
}

func pack(vals []*T) *T {
	if len(vals) == 1 {
		return vals[0]
	}
	return mk("tuple", "", vals, NotNum)
}

func (ev *Eval) inStack(f *ssa.Function) bool {
	for _, s := range ev.stack {
		if s == f {
			return true
		}
	}
	return false
}

func (ev *Eval) callWith(fr *frame, in ssa.Instruction, c *ssa.CallCommon, args []*T, st *state) *T {
	if c.IsInvoke() {
		recv := ev.val(fr, c.Value)
		return ev.invoke(fr, in, c, recv, args, st)
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		return ev.builtin(fr, in, f, c, args, st)
	}
	if f := c.StaticCallee(); f != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			cl := ev.val(fr, mc)
			return ev.callFn(fr, in, f, args, cl.Args, st)
		}
		return ev.callFn(fr, in, f, args, nil, st)
	}
	v := ev.val(fr, c.Value)
	return ev.dynCall(fr, in, v, c.Signature(), args, st)
}

func (ev *Eval) fnByName(n string) *ssa.Function {
	if ev.fnNames == nil {
		ev.fnNames = map[string]*ssa.Function{}
		for f := range allFuncs(ev.Prog) {
			ev.fnNames[f.String()] = f
		}
	}
	return ev.fnNames[n]
}

func (ev *Eval) dynCall(fr *frame, in ssa.Instruction, v *T, sig *types.Signature, args []*T, st *state) *T {
	switch v.Op {
	case "fnval":
		if f := ev.fnByName(v.Aux); f != nil {
			return ev.callFn(fr, in, f, args, nil, st)
		}
	case "closure":
		if f := ev.fnByName(v.Aux); f != nil {
			return ev.callFn(fr, in, f, args, v.Args, st)
		}
	case "ite":
		a := atomT(v.Args[0])
		s1 := &state{And(st.g, a), st.mem}
		s2 := &state{And(st.g, Not(a)), st.mem}
		if s1.g == False {
			return ev.dynCall(fr, in, v.Args[2], sig, args, st)
		}
		if s2.g == False {
			return ev.dynCall(fr, in, v.Args[1], sig, args, st)
		}
		r1 := ev.dynCall(fr, in, v.Args[1], sig, args, s1)
		r2 := ev.dynCall(fr, in, v.Args[2], sig, args, s2)
		st.mem = mergeMem(a, s1.mem, s2.mem)
		if r1.Op == "tuple" && r2.Op == "tuple" {
			var as []*T
			for i := range r1.Args {
				as = append(as, Ite(a, r1.Args[i], r2.Args[i]))
			}
			return pack(as)
		}
		return Ite(a, r1, r2)
	}
	// unknown function value
	as := []*T{v}
	for i, a := range args {
		as = append(as, ev.deep(st.mem, a, sig.Params().At(i).Type()))
	}
	return ev.opaqueResult(fr, in, "dyn", as, sig.Results(), st)
}

// opaqueResult makes the result of an uninterpreted call
func (ev *Eval) opaqueResult(fr *frame, in ssa.Instruction, name string, args []*T, res *types.Tuple, st *state) *T {
	one := func(i int, t types.Type) *T {
		aux := name
		if res.Len() > 1 {
			aux = fmt.Sprintf("%s#%d", name, i)
		}
		return ev.resultOf(fr, in, i, Op("call", aux, numOf(t), args...), t, st)
	}
	var vals []*T
	for i := 0; i < res.Len(); i++ {
		vals = append(vals, one(i, res.At(i).Type()))
	}
	if len(vals) == 0 {
		return mk("tuple", "", nil, NotNum)
	}
	return pack(vals)
}

// resultOf gives a call value its shape; slices are given their own storage
func (ev *Eval) resultOf(fr *frame, in ssa.Instruction, i int, v *T, t types.Type, st *state) *T {
	if sl, ok := t.Underlying().(*types.Slice); ok {
		nb := mk("new", fmt.Sprintf("%s/%s#r%d", fr.site, instrID(in), i), ev.ts(fr.cur), NotNum)
		src := MapLeaves(v, func(l *T) *T {
			return mkSlice([]*T{mk("base", "", []*T{l}, NotNum), Zero, lenOf(l)})
		})
		n := Op("len", "", IntNum, src)
		// what was returned is a function of the call alone
		st.mem = ev.copySeqFrom(st.mem, newMem(), nb, Zero, n, src, sl.Elem())
		return mkSlice([]*T{nb, Zero, n})
	}
	return MapLeaves(v, func(l *T) *T { return ev.wrap(l, t) })
}

func (ev *Eval) callFn(fr *frame, in ssa.Instruction, f *ssa.Function, args, binds []*T, st *state) *T {
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	local := strings.HasPrefix(pkg, ev.Module) || f.Parent() != nil && strings.HasPrefix(f.String(), "("+ev.Module) || binds != nil
	if f.Parent() != nil {
		p := f
		for p.Parent() != nil {
			p = p.Parent()
		}
		if p.Pkg != nil && strings.HasPrefix(p.Pkg.Pkg.Path(), ev.Module) {
			local = true
		}
	}
	if f.Synthetic != "" && strings.Contains(f.Synthetic, "wrapper") {
		local = len(f.Blocks) > 0 && strings.Contains(f.String(), ev.Module)
	}
	if local && len(f.Blocks) > 0 && !ev.Opaque(f) && !ev.inStack(f) && len(ev.stack) < 24 {
		vals, m := ev.inline(fr, f, args, binds, st.mem, st.g, instrID(in), in)
		st.mem = m
		return pack2(vals)
	}
	if !local {
		if v, ok := ev.model(fr, in, f, pkg, args, st); ok {
			return v
		}
	}
	var as []*T
	sig := f.Signature
	k := 0
	if sig.Recv() != nil {
		as = append(as, ev.deep(st.mem, args[0], sig.Recv().Type()))
		k = 1
	}
	for i := 0; i < sig.Params().Len(); i++ {
		as = append(as, ev.deep(st.mem, args[k+i], sig.Params().At(i).Type()))
	}
	name := shortName(f)
	if local && ev.inStack(f) {
		ev.note(in.Pos(), "recursive call of %s", name)
	}
	ev.event(fr, "call:"+name, st.g, st.mem, in.Pos(), as...)
	if !local && sig.Recv() != nil && sig.Results().Len() > 0 {
		if _, ptr := sig.Recv().Type().Underlying().(*types.Pointer); ptr {
			as = append(as, ev.tick(args[0], st))
		}
	}
	return ev.opaqueResult(fr, in, name, as, sig.Results(), st)
}

// lenOf is the length of a slice returned by an outside function. The records
// a csv reader returns have the same number of fields, unless it was told
// otherwise.
func lenOf(v *T) *T {
	if v.Op == "call" && v.Aux == "(*csv.Reader).Read#0" && len(v.Args) == 2 && v.Args[0].Op == "call" && v.Args[0].Aux == "csv.NewReader" {
		v = mk("call", v.Aux, v.Args[:1], NotNum)
	}
	return mk("len", "", []*T{v}, IntNum)
}

// tick numbers the calls of outside methods on one object: each may return
// something else
func (ev *Eval) tick(recv *T, st *state) *T {
	r := "calls"
	ev.setReg(r, types.Typ[types.Int])
	n := ev.sel(st.mem.get(r), r, recv)
	st.mem = st.mem.store(r, recv, Add(n, One))
	return n
}

func pack2(vals []*T) *T {
	if len(vals) == 0 {
		return mk("tuple", "", nil, NotNum)
	}
	return pack(vals)
}

func shortName(f *ssa.Function) string {
	s := f.String()
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		p := ""
		if strings.HasPrefix(s, "(*") {
			p = "(*"
		} else if strings.HasPrefix(s, "(") {
			p = "("
		}
		s = p + s[i+1:]
	}
	return s
}

// ---------------------------------------------------------------- built-in functions

func (ev *Eval) builtin(fr *frame, in ssa.Instruction, b *ssa.Builtin, c *ssa.CallCommon, args []*T, st *state) *T {
	switch b.Name() {
	case "len":
		t := c.Args[0].Type().Underlying()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
		}
		if a, ok := t.(*types.Array); ok {
			return Int(a.Len())
		}
		if _, ok := t.(*types.Map); ok {
			return Op("maplen", "", IntNum, args[0])
		}
		return Op("len", "", IntNum, args[0])
	case "cap":
		return Op("cap", "", IntNum, args[0])
	case "append":
		return ev.append(fr, in, c, args, st)
	case "copy":
		dst, src := args[0], args[1]
		elem := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		n := Min2(Op("len", "", IntNum, dst), Op("len", "", IntNum, src))
		st.mem = ev.copyInto(st.mem, dst, n, src, elem)
		return n
	case "close":
		ev.event(fr, "close", st.g, st.mem, in.Pos(), args[0])
		return mk("tuple", "", nil, NotNum)
	case "delete":
		ev.setReg("MH", types.Typ[types.Bool])
		st.mem = st.mem.store("MH", Op("idx", "", NotNum, args[0], args[1]), False)
		return mk("tuple", "", nil, NotNum)
	case "min", "max":
		v := args[0]
		for _, a := range args[1:] {
			if b.Name() == "min" {
				v = Min2(v, a)
			} else {
				v = Max2(v, a)
			}
		}
		return v
	case "print", "println":
		return mk("tuple", "", nil, NotNum)
	case "recover":
		return Nil
	case "ssa:wrapnilchk":
		return args[0]
	}
	ev.note(in.Pos(), "unsupported builtin %s", b.Name())
	return mk("undef", instrID(in), nil, NotNum)
}

// copyInto copies n elements to the start of slice dst
func (ev *Eval) copyInto(mem *Mem, dst, n, src *T, elem types.Type) *Mem {
	if dst.Op == "ite" {
		a := dst.Args[0]
		return mergeMem(atomT(a), ev.copyInto(mem, dst.Args[1], restrict(n, a, true), restrict(src, a, true), elem), ev.copyInto(mem, dst.Args[2], restrict(n, a, false), restrict(src, a, false), elem))
	}
	if dst.Op != "slice" {
		return mem
	}
	return ev.copySeq(mem, dst.Args[0], dst.Args[1], n, src, elem)
}

func (ev *Eval) append(fr *frame, in ssa.Instruction, c *ssa.CallCommon, args []*T, st *state) *T {
	s := args[0]
	elem := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	nb := mk("new", fmt.Sprintf("%s/%s#a", fr.site, instrID(in)), ev.ts(fr.cur), NotNum)
	n := Op("len", "", IntNum, s)
	if len(args) < 2 {
		return s
	}
	x := args[1]
	var k *T
	if isString(c.Args[1].Type()) {
		k = Op("len", "", IntNum, x)
		ev.note(in.Pos(), "append of string bytes")
	} else {
		k = Op("len", "", IntNum, x)
	}
	mem := ev.copySeq(st.mem, nb, Zero, n, s, elem)
	// element-wise for a fixed number of values
	if v, ok := constSmall(k); ok && k.Op == "poly" {
		for i := 0; i < v; i++ {
			mem = ev.store(mem, Op("idx", "", NotNum, nb, Add(n, Int(int64(i)))), ev.elemAt(st.mem, x, Int(int64(i)), elem), elem)
		}
	} else {
		old := st.mem
		mem2 := mem
		for _, r := range ev.elemRegions(elem) {
			r := r
			m := &Map{kind: mCopy, prev: mem2.get(r), dst: nb, dOff: n, n: k, sOff: Zero}
			m.srcMap = func(key, i *T) *T {
				return liftN([]*T{x}, func(a []*T) *T {
					s := a[0]
					if s.Op != "slice" || s.Args[0] == Nil {
						return ev.zero(ev.regType[r])
					}
					return ev.sel(old.get(r), r, setIdx(key, s.Args[0], Add(s.Args[1], i)))
				})
			}
			mem2 = mem2.set(r, m)
		}
		mem = mem2
	}
	st.mem = mem
	return mkSlice([]*T{nb, Zero, Add(n, k)})
}

// ---------------------------------------------------------------- dynamic dispatch

func (ev *Eval) methodOf(tn string, c *ssa.CallCommon) *ssa.Function {
	t := ev.typs[tn]
	if t == nil {
		return nil
	}
	return ev.Prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name())
}

func (ev *Eval) invoke(fr *frame, in ssa.Instruction, c *ssa.CallCommon, recv *T, args []*T, st *state) *T {
	if recv.Op == "ite" {
		a := atomT(recv.Args[0])
		s1 := &state{And(st.g, a), st.mem}
		s2 := &state{And(st.g, Not(a)), st.mem}
		if s1.g == False {
			return ev.invoke(fr, in, c, recv.Args[2], args, st)
		}
		if s2.g == False {
			return ev.invoke(fr, in, c, recv.Args[1], args, st)
		}
		r1 := ev.invoke(fr, in, c, recv.Args[1], args, s1)
		r2 := ev.invoke(fr, in, c, recv.Args[2], args, s2)
		st.mem = mergeMem(a, s1.mem, s2.mem)
		if r1.Op == "tuple" && r2.Op == "tuple" {
			var as []*T
			for i := range r1.Args {
				as = append(as, Ite(a, r1.Args[i], r2.Args[i]))
			}
			return pack2(as)
		}
		return Ite(a, r1, r2)
	}
	if recv.Op == "iface" {
		if f := ev.methodOf(recv.Aux, c); f != nil {
			return ev.callFn(fr, in, f, append([]*T{recv.Args[0]}, args...), nil, st)
		}
	}
	rt := c.Value.Type()
	if isMatType(rt) || recv.Op == "matT" {
		if v, ok := ev.matMethod(fr, in, c.Method.Name(), recv, args, c.Signature(), st); ok {
			return v
		}
	}
	if recv.Op == "err" && c.Method.Name() == "Error" {
		return mk("call", "Error", []*T{recv}, NotNum)
	}
	as := []*T{ev.deep(st.mem, recv, rt)}
	for i, a := range args {
		as = append(as, ev.deep(st.mem, a, c.Signature().Params().At(i).Type()))
	}
	name := typeName(rt) + "." + c.Method.Name()
	ev.event(fr, "call:"+name, st.g, st.mem, in.Pos(), as...)
	return ev.opaqueResult(fr, in, name, as, c.Signature().Results(), st)
}

// ---------------------------------------------------------------- library models

func (ev *Eval) model(fr *frame, in ssa.Instruction, f *ssa.Function, pkg string, args []*T, st *state) (*T, bool) {
	name := f.Name()
	unit := mk("tuple", "", nil, NotNum)
	switch pkg {
	case "gonum.org/v1/gonum/floats", "gonum.org/v1/gonum/stat":
		short := pkg[strings.LastIndexByte(pkg, '/')+1:]
		if v, ok := ev.floatsCall(in, short, name, args, st); ok {
			return v, true
		}
		switch name {
		case "EqualApprox", "Equal", "Max", "Min", "MaxIdx", "MinIdx", "Norm", "Distance", "HasNaN", "Mean", "StdDev", "Variance":
			return ev.opaqueResult(fr, in, short+"."+name, ev.deepArgs(f, args, st), f.Signature.Results(), st), true
		}
	case "math":
		switch name {
		case "Abs":
			return Fn("abs", args[0]), true
		case "Max":
			return Max2(args[0], args[1]), true
		case "Min":
			return Min2(args[0], args[1]), true
		case "Pow":
			return liftN(args, func(a []*T) *T {
				if c, ok := a[1].ConstVal(); ok && c.IsInt() && c.Num().IsInt64() {
					n := c.Num().Int64()
					if n >= 0 && n <= 6 {
						r := One
						for ; n > 0; n-- {
							r = Mul(r, a[0])
						}
						return r
					}
				}
				if c, ok := a[1].ConstVal(); ok && c.RatString() == "1/2" {
					return Fn("sqrt", a[0])
				}
				if c, ok := a[0].ConstVal(); ok && c.RatString() == "2" {
					return Fn("exp2", a[1])
				}
				return Fn("pow", a[0], a[1])
			}), true
		case "Inf", "NaN":
			return Op("const", name, RealNum, args...), true
		case "IsNaN", "IsInf":
			return BoolTerm(Op("fnb", name, NotNum, args...)), true
		case "MaxInt":
		}
		return Fn(strings.ToLower(name), args...), true
	case "io", "io/ioutil", "os":
		switch name {
		case "ReadAll":
			as := ev.deepArgs(f, args, st)
			ev.event(fr, "call:io.ReadAll", st.g, st.mem, in.Pos(), as...)
			return ev.opaqueResult(fr, in, "io.ReadAll", as, f.Signature.Results(), st), true
		case "ReadFile":
			// open, read all, close
			as := ev.deepArgs(f, args, st)
			res := f.Signature.Results()
			file := types.NewTuple(types.NewVar(0, nil, "", types.NewPointer(types.NewStruct(nil, nil))), res.At(1))
			ev.event(fr, "call:os.Open", st.g, st.mem, in.Pos(), as...)
			open := ev.opaqueResult(fr, in, "os.Open", as, file, st)
			ok := Eq(open.Args[1], Nil)
			as = []*T{mk("boxed", "*os.File", []*T{open.Args[0]}, NotNum)}
			ev.event(fr, "call:io.ReadAll", And(st.g, ok), st.mem, in.Pos(), as...)
			r := ev.opaqueResult(fr, in, "io.ReadAll", as, res, st)
			return mk("tuple", "", []*T{r.Args[0], Ite(ok, r.Args[1], open.Args[1])}, NotNum), true
		}
	case "errors":
		if name == "New" {
			return mk("err", "", nil, NotNum), true
		}
	case "fmt":
		switch name {
		case "Errorf":
			return mk("err", "", nil, NotNum), true
		case "Printf", "Println", "Print", "Fprintf", "Fprintln", "Fprint":
			if ev.Prints {
				ev.event(fr, "print", st.g, st.mem, in.Pos())
			}
			return mk("tuple", "", []*T{Zero, Nil}, NotNum), true
		case "Sprintf", "Sprint", "Sprintln":
			return Op("call", "fmt."+name, NotNum, ev.deepArgs(f, args, st)...), true
		}
	case "sync":
		return unit, true
	case "time":
		return ev.opaqueResult(fr, in, "time."+name, nil, f.Signature.Results(), st), true
	case "math/rand":
		if f.Signature.Recv() == nil {
			switch name {
			case "Shuffle":
				return ev.shuffle(fr, in, args, st), true
			case "Seed":
				return unit, true
			case "Intn", "Float64", "Int", "Int63", "NormFloat64", "Perm", "Int31n", "Int63n":
				as := append(append([]*T{}, args...), ev.ts(fr.cur)...)
				ev.event(fr, "rand", st.g, st.mem, in.Pos(), mk("str", name, nil, NotNum))
				v := Op("call", "rand."+name, numOf(f.Signature.Results().At(0).Type()), as...)
				return ev.resultOf(fr, in, 0, v, f.Signature.Results().At(0).Type(), st), true
			}
		}
	case "sort":
		switch name {
		case "Ints", "Float64s", "Strings":
			elem := f.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
			st.mem = ev.overrideContent(fr, in, st.mem, args[0], elem, "sorted", nil)
			return unit, true
		}
	case "strings":
		if name == "TrimSpace" || name == "Trim" {
		}
		return ev.opaqueResult(fr, in, "strings."+name, ev.deepArgs(f, args, st), f.Signature.Results(), st), true
	case "strconv", "path/filepath", "path":
		return ev.opaqueResult(fr, in, pkg+"."+name, ev.deepArgs(f, args, st), f.Signature.Results(), st), true
	case "container/list":
		if v, ok := ev.listCall(fr, in, name, f, args, st); ok {
			return v, true
		}
	case "encoding/json":
		switch name {
		case "Marshal", "MarshalIndent":
			d := ev.deepJSON(st.mem, args[0])
			v := mk("call", "json.Marshal", []*T{d}, NotNum)
			r := ev.resultOf(fr, in, 0, v, types.NewSlice(types.Typ[types.Uint8]), st)
			return mk("tuple", "", []*T{r, mk("call", "json.MarshalErr", []*T{d}, NotNum)}, NotNum), true
		case "Unmarshal":
			d := ev.deep(st.mem, args[0], types.NewSlice(types.Typ[types.Uint8]))
			st.mem = ev.decodeInto(st.mem, d, args[1])
			return Op("call", "json.UnmarshalErr", NotNum, d), true
		}
	case "gonum.org/v1/gonum/mat":
		if v, ok := ev.matCall(fr, in, f, args, st); ok {
			return v, true
		}
	}
	return nil, false
}

func (ev *Eval) deepArgs(f *ssa.Function, args []*T, st *state) []*T {
	var as []*T
	sig := f.Signature
	k := 0
	if sig.Recv() != nil {
		as = append(as, ev.deep(st.mem, args[0], sig.Recv().Type()))
		k = 1
	}
	for i := 0; i < sig.Params().Len(); i++ {
		as = append(as, ev.deep(st.mem, args[k+i], sig.Params().At(i).Type()))
	}
	return as
}

// overrideContent replaces the content of a slice by an uninterpreted
// function of its old content
func (ev *Eval) overrideContent(fr *frame, in ssa.Instruction, mem *Mem, s *T, elem types.Type, name string, extra []*T) *Mem {
	args := append([]*T{ev.deep(mem, s, types.NewSlice(elem))}, extra...)
	v := Op("call", name, NotNum, args...)
	src := MapLeaves(v, func(l *T) *T {
		return mkSlice([]*T{mk("base", "", []*T{l}, NotNum), Zero, mk("len", "", []*T{l}, IntNum)})
	})
	return ev.copyInto(mem, s, Op("len", "", IntNum, s), src, elem)
}

// shuffle applies a random permutation with the swap function of the caller
func (ev *Eval) shuffle(fr *frame, in ssa.Instruction, args []*T, st *state) *T {
	// the swap function works on captured slices: find them
	cl := args[1]
	unit := mk("tuple", "", nil, NotNum)
	if cl.Op != "closure" {
		ev.note(in.Pos(), "shuffle with unknown swap function")
		return unit
	}
	f := ev.fnByName(cl.Aux)
	if f == nil {
		return unit
	}
	for i, fv := range f.FreeVars {
		p, ok := fv.Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		sl, ok := p.Elem().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		s := ev.load(st.mem, cl.Args[i], p.Elem())
		st.mem = ev.overrideContent(fr, in, st.mem, s, sl.Elem(), "shuffled", append([]*T{args[0]}, ev.ts(fr.cur)...))
	}
	return unit
}

// ---------------------------------------------------------------- lists

func lget(seq, pos *T) *T {
	switch seq.Op {
	case "lpush":
		return Ite(Eq(pos, seqLen(seq.Args[0])), mk("lelem", "", []*T{seq, seqLen(seq.Args[0])}, NotNum), lget(seq.Args[0], pos))
	case "lpushf":
		return Ite(Eq(pos, Zero), mk("lelem", "", []*T{seq, Zero}, NotNum), lget(seq.Args[0], Sub(pos, One)))
	case "lins": // base, value, position
		p := seq.Args[2]
		return Ite(Lt(pos, p), lget(seq.Args[0], pos), Ite(Eq(pos, p), mk("lelem", "", []*T{seq, p}, NotNum), lget(seq.Args[0], Sub(pos, One))))
	case "lrm":
		p := seq.Args[1]
		return Ite(Lt(pos, p), lget(seq.Args[0], pos), lget(seq.Args[0], Add(pos, One)))
	case "lcat":
		return liftN([]*T{pos}, func(a []*T) *T {
			own := mk("lelem", "", []*T{seq, a[0]}, NotNum)
			n := seqLen(seq.Args[0])
			if n == Zero {
				return own
			}
			return Ite(Lt(a[0], n), lget(seq.Args[0], a[0]), own)
		})
	}
	return liftN([]*T{pos}, func(a []*T) *T { return mk("lelem", "", []*T{seq, a[0]}, NotNum) })
}

// listValue is the value held by a list element
func listValue(e *T) *T {
	if e.Op == "lelem" {
		s := e.Args[0]
		switch s.Op {
		case "lpush":
			if e.Args[1] == seqLen(s.Args[0]) {
				return s.Args[1]
			}
		case "lpushf", "lins":
			return s.Args[1]
		case "lcat":
			return openLam(s.Args[2], Sub(e.Args[1], seqLen(s.Args[0])))
		}
	}
	return nil
}

func (ev *Eval) seqOf(mem *Mem, l *T) *T {
	v := ev.sel(mem.get("lseq"), "lseq", l)
	return MapLeaves(v, func(x *T) *T {
		if x.Op == "ld" {
			return mk("lseq", "", x.Args, NotNum)
		}
		if x == Zero || x == Nil {
			return mk("lempty", "", nil, NotNum)
		}
		return x
	})
}

// listContent is the length of a list and the value at each position
func (ev *Eval) listContent(c mctx, mem *Mem, l *T, d int) *T {
	ev.setReg("lseq", types.NewPointer(types.Typ[types.Int]))
	return liftN([]*T{ev.seqOf(mem, l)}, func(a []*T) *T {
		s := a[0]
		n := seqLen(s)
		i := FreshIndex("i", n)
		e := Constrain(lget(s, i), And(Ge(i, Zero), Lt(i, n)))
		return Op("listv", "", NotNum, n, Lam(i, liftN([]*T{e}, func(b []*T) *T {
			at := types.NewInterfaceType(nil, nil)
			return ev.deepN(c, mem, ev.load(mem, Op("fld", "list.Element.Value", NotNum, b[0]), at), at, d-1)
		})))
	})
}

// posIn is the position of an element in a sequence (nil if not known)
func posIn(seq, e *T) *T {
	if e.Op != "lelem" {
		return nil
	}
	if e.Args[0] == seq {
		return e.Args[1]
	}
	switch seq.Op {
	case "lpush":
		return posIn(seq.Args[0], e)
	case "lpushf":
		if p := posIn(seq.Args[0], e); p != nil {
			return Add(p, One)
		}
	case "lins":
		if p := posIn(seq.Args[0], e); p != nil {
			return Ite(Lt(p, seq.Args[2]), p, Add(p, One))
		}
	case "lrm":
		if p := posIn(seq.Args[0], e); p != nil {
			return Ite(Lt(p, seq.Args[1]), p, Sub(p, One))
		}
	case "lcat":
		return posIn(seq.Args[0], e)
	}
	return nil
}

func (ev *Eval) listCall(fr *frame, in ssa.Instruction, name string, f *ssa.Function, args []*T, st *state) (*T, bool) {
	if f.Signature.Recv() == nil {
		if name == "New" {
			return ev.newObj(fr, instrID(in), fr.cur), true
		}
		return nil, false
	}
	rt := typeName(f.Signature.Recv().Type())
	ev.setReg("lrem", types.Typ[types.Bool])
	if strings.HasSuffix(rt, "Element") {
		e := args[0]
		switch name {
		case "Next":
			rm := liftN([]*T{e}, func(a []*T) *T {
				if a[0] == Nil {
					return False
				}
				return BoolTerm(ev.sel(st.mem.get("lrem"), "lrem", a[0]))
			})
			return Constrain(lnext(e, rm), st.g), true
		case "Prev":
			return liftN([]*T{e}, func(a []*T) *T {
				if a[0].Op == "lelem" {
					return Ite(Gt(a[0].Args[1], Zero), lget(a[0].Args[0], Sub(a[0].Args[1], One)), Nil)
				}
				return mk("lprev", "", a, NotNum)
			}), true
		}
		return nil, false
	}
	l := args[0]
	ev.setReg("lseq", types.NewPointer(types.Typ[types.Int]))
	seq := ev.seqOf(st.mem, l)
	setSeq := func(s *T) { st.mem = st.mem.store("lseq", l, s) }
	lift := func(x *T, f func(*T) *T) *T { return liftN([]*T{x}, func(a []*T) *T { return f(a[0]) }) }
	switch name {
	case "Init":
		ev.event(fr, "list.Init", st.g, st.mem, in.Pos(), l)
		setSeq(mk("lempty", "", nil, NotNum))
		return l, true
	case "Len":
		return Constrain(MapLeaves(seq, seqLen), st.g), true
	case "Front":
		return Constrain(MapLeaves(seq, func(s *T) *T { return Ite(Gt(seqLen(s), Zero), lget(s, Zero), Nil) }), st.g), true
	case "Back":
		return Constrain(MapLeaves(seq, func(s *T) *T { return Ite(Gt(seqLen(s), Zero), lget(s, Sub(seqLen(s), One)), Nil) }), st.g), true
	case "PushBack", "PushFront":
		ev.event(fr, "list."+name, st.g, st.mem, in.Pos(), l, ev.evArg(st.mem, args[1]))
		op := "lpush"
		if name == "PushFront" {
			op = "lpushf"
		}
		ns := lift(seq, func(s *T) *T { return Op(op, "", NotNum, s, args[1]) })
		setSeq(ns)
		return MapLeaves(ns, func(s *T) *T {
			if op == "lpush" {
				return lget(s, seqLen(s.Args[0]))
			}
			return lget(s, Zero)
		}), true
	case "InsertBefore", "InsertAfter":
		ev.event(fr, "list."+name, st.g, st.mem, in.Pos(), l, ev.evArg(st.mem, args[1]), args[2])
		ns := liftN([]*T{seq, args[2]}, func(a []*T) *T {
			p := posIn(a[0], a[1])
			if p == nil {
				return mk("lins?", name, []*T{a[0], args[1], a[1]}, NotNum)
			}
			if name == "InsertAfter" {
				p = Add(p, One)
			}
			return Op("lins", "", NotNum, a[0], args[1], p)
		})
		setSeq(ns)
		return MapLeaves(ns, func(s *T) *T {
			if s.Op == "lins" {
				return mk("lelem", "", []*T{s, s.Args[2]}, NotNum)
			}
			return mk("lelem?", "", []*T{s}, NotNum)
		}), true
	case "Remove":
		e := args[1]
		ev.event(fr, "list.Remove", st.g, st.mem, in.Pos(), l, e)
		ns := liftN([]*T{seq, e}, func(a []*T) *T {
			p := posIn(a[0], a[1])
			if p == nil {
				return mk("lrm?", "", []*T{a[0], a[1]}, NotNum)
			}
			return Op("lrm", "", NotNum, a[0], p)
		})
		setSeq(ns)
		st.mem = st.mem.store("lrem", e, True)
		return ev.load(st.mem, Op("fld", "list.Element.Value", NotNum, e), f.Signature.Results().At(0).Type()), true
	}
	return nil, false
}

// evArg is the description of a value given to a list: objects made by the
// analysed code are described by their content
func (ev *Eval) evArg(mem *Mem, v *T) *T {
	return liftN([]*T{v}, func(a []*T) *T {
		if a[0].Op == "iface" {
			if t := ev.typs[a[0].Aux]; t != nil {
				return ev.deep(mem, a[0].Args[0], t)
			}
		}
		return a[0]
	})
}

// ---------------------------------------------------------------- json

// decodeInto gives the object p the content of decoded data
func (ev *Eval) decodeInto(mem *Mem, data, p *T) *Mem {
	if p.Op != "iface" {
		ev.Notes = append(ev.Notes, "decode into unknown value")
		return mem
	}
	t := ev.typs[p.Aux]
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return mem
	}
	root := mk("json", "", []*T{data}, NotNum)
	return ev.jsonStore(mem, p.Args[0], pt.Elem(), root)
}

// jsonNames gives the names under which the fields of a struct are encoded and
// decoded; fields that are not, as they share a name, have none
func jsonNames(s *types.Struct) []string {
	names := make([]string, s.NumFields())
	tagged := make([]bool, s.NumFields())
	for i := range names {
		if !s.Field(i).Exported() {
			continue
		}
		names[i] = s.Field(i).Name()
		if tag, ok := reflect.StructTag(s.Tag(i)).Lookup("json"); ok {
			if tag == "-" {
				names[i] = ""
				continue
			}
			p := strings.Split(tag, ",")
			if p[0] != "" {
				names[i], tagged[i] = p[0], true
			}
			for _, o := range p[1:] {
				if o == "string" {
					names[i] += ",string"
				}
			}
		}
	}
	res := make([]string, len(names))
	for i, n := range names {
		res[i] = n
		for j, m := range names {
			if i != j && m == n && (tagged[j] || !tagged[i]) {
				res[i] = ""
			}
		}
	}
	return res
}

func (ev *Eval) jsonStore(mem *Mem, addr *T, t types.Type, root *T) *Mem {
	if s, ok := t.Underlying().(*types.Struct); ok && ev.isModelStruct(t) && !hasMethod(t, "UnmarshalJSON") {
		names := jsonNames(s)
		for i := 0; i < s.NumFields(); i++ {
			if names[i] == "" {
				continue
			}
			mem = ev.jsonStore(mem, ev.fieldAddr(addr, t, i), s.Field(i).Type(), mk("jfield", names[i], []*T{root}, NotNum))
		}
		return mem
	}
	v := mk(root.Op, root.Aux, root.Args, numOf(t))
	if numOf(t) != NotNum {
		v = mk("jnum", "", []*T{root}, numOf(t))
	}
	w := ev.wrap(v, t)
	if old := ev.load(mem, addr, t); old != ev.zero(t) {
		// what is not mentioned keeps its value
		w = Ite(atomT(mk("jhas", "", []*T{root}, NotNum)), w, old)
	}
	return ev.store(mem, addr, w, t)
}

func hasMethod(t types.Type, name string) bool {
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		ms := types.NewMethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return true
			}
		}
	}
	return false
}

// deepJSON is the content that is encoded, by JSON names
func (ev *Eval) deepJSON(mem *Mem, v *T) *T {
	return liftN([]*T{v}, func(a []*T) *T {
		if a[0].Op != "iface" {
			return a[0]
		}
		return ev.jsonDeep(mem, a[0].Args[0], ev.typs[a[0].Aux], 4)
	})
}

func (ev *Eval) jsonDeep(mem *Mem, v *T, t types.Type, d int) *T {
	if d == 0 || t == nil {
		return v
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, ok := p.Elem().Underlying().(*types.Struct); ok && ev.isModelStruct(p.Elem()) && !hasMethod(p.Elem(), "MarshalJSON") {
			return liftN([]*T{v}, func(a []*T) *T {
				if a[0] == Nil {
					return Nil
				}
				return ev.jsonDeep(mem, ev.load(mem, a[0], p.Elem()), p.Elem(), d-1)
			})
		}
		return ev.deep(mem, v, t)
	}
	if s, ok := t.Underlying().(*types.Struct); ok && ev.isModelStruct(t) && !hasMethod(t, "MarshalJSON") {
		var names []string
		vals := map[string]*T{}
		for i, n := range jsonNames(s) {
			if n == "" {
				continue
			}
			names = append(names, n)
			vals[n] = ev.jsonDeep(mem, ev.fieldOf(v, t, i), s.Field(i).Type(), d-1)
		}
		sortStrings(names)
		args := []*T{}
		for _, n := range names {
			args = append(args, vals[n])
		}
		return Op("jobj", strings.Join(names, ","), NotNum, args...)
	}
	return ev.deep(mem, v, t)
}

// JSONNames gives the names of the fields of a struct in JSON
func JSONNames(s *types.Struct) []string { return jsonNames(s) }
