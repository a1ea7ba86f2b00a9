package sem

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func sortStrings(s []string) { sort.Strings(s) }

var f64 = types.Typ[types.Float64]

func (ev *Eval) matRegs() {
	ev.setReg("mat", f64)
	ev.setReg("mrows", types.Typ[types.Int])
	ev.setReg("mcols", types.Typ[types.Int])
	ev.setReg("svd", types.NewPointer(types.Typ[types.Int]))
}

// caller context for devirtualised element access
type mctx struct {
	fr *frame
	in ssa.Instruction
	st *state
}

func (ev *Eval) callMethod(c mctx, recv *T, name string, args []*T) *T {
	t := ev.typs[recv.Aux]
	ms := ev.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			f := ev.Prog.MethodValue(ms.At(i))
			if f == nil || c.fr == nil {
				break
			}
			st := &state{g: c.st.g, mem: c.st.mem}
			return ev.callFn(c.fr, c.in, f, append([]*T{recv.Args[0]}, args...), nil, st)
		}
	}
	return Op("call", recv.Aux+"."+name, RealNum, append([]*T{recv}, args...)...)
}

// at reads one matrix element
func (ev *Eval) at(c mctx, mem *Mem, o, i, j *T) *T {
	ev.matRegs()
	if o.Op == "ite" || i.Op == "ite" || j.Op == "ite" {
		return liftN([]*T{o, i, j}, func(a []*T) *T { return ev.at(c, mem, a[0], a[1], a[2]) })
	}
	switch o.Op {
	case "iface":
		if strings.HasSuffix(o.Aux, "mat.Transpose") {
			return ev.at(c, mem, o.Args[0].Args[0], j, i)
		}
		return ev.callMethod(c, o, "At", []*T{i, j})
	case "struct":
		return ev.at(c, mem, o.Args[0], j, i)
	case "matT":
		return ev.at(c, mem, o.Args[0], j, i)
	case "vecview":
		return ev.load(mem, Op("idx", "", NotNum, o.Args[0], Add(o.Args[1], i)), f64)
	case "diagview":
		return Ite(Eq(i, j), ev.load(mem, Op("idx", "", NotNum, o.Args[0], Add(o.Args[1], i)), f64), Zero)
	case "colview":
		return ev.at(c, mem, o.Args[0], i, o.Args[1])
	case "rowview":
		return ev.at(c, mem, o.Args[0], o.Args[1], i)
	case "matview":
		return ev.at(c, mem, o.Args[0], Add(i, o.Args[1]), Add(j, o.Args[3]))
	}
	return ev.sel(mem.get("mat"), "mat", mij(o, i, j))
}

func (ev *Eval) dims(c mctx, mem *Mem, o *T) (*T, *T) {
	ev.matRegs()
	if o.Op == "ite" {
		a := atomT(o.Args[0])
		r1, c1 := ev.dims(c, mem, o.Args[1])
		r0, c0 := ev.dims(c, mem, o.Args[2])
		return Ite(a, r1, r0), Ite(a, c1, c0)
	}
	switch o.Op {
	case "iface":
		if strings.HasSuffix(o.Aux, "mat.Transpose") {
			r, cc := ev.dims(c, mem, o.Args[0].Args[0])
			return cc, r
		}
		t := ev.callMethod(c, o, "Dims", nil)
		if t.Op == "tuple" {
			return t.Args[0], t.Args[1]
		}
		return mk("rows", "", []*T{o}, IntNum), mk("cols", "", []*T{o}, IntNum)
	case "matT", "struct":
		r, cc := ev.dims(c, mem, o.Args[0])
		return cc, r
	case "vecview":
		return o.Args[2], One
	case "diagview":
		return o.Args[2], o.Args[2]
	case "colview":
		r, _ := ev.dims(c, mem, o.Args[0])
		return r, One
	case "rowview":
		_, cc := ev.dims(c, mem, o.Args[0])
		return cc, One
	case "matview":
		return Sub(o.Args[2], o.Args[1]), Sub(o.Args[4], o.Args[3])
	}
	rd := func(r, op string) *T {
		v := ev.sel(mem.get(r), r, o)
		return MapLeaves(v, func(l *T) *T {
			if l.Op == "ld" && l.Args[0] == o {
				return mk(op, "", []*T{o}, IntNum)
			}
			return l
		})
	}
	return rd("mrows", "rows"), rd("mcols", "cols")
}

// setMat defines the whole content of a matrix
func (ev *Eval) setMat(mem *Mem, o, r, c *T, el func(i, j *T) *T) *Mem {
	ev.matRegs()
	if o.Op == "vecview" {
		i := FreshIndex("i", nil)
		return mem.set("E:float64", &Map{kind: mCopy, prev: mem.get("E:float64"), dst: o.Args[0], dOff: o.Args[1], n: o.Args[2], sOff: Zero,
			srcMap: func(l *T) func(key, k *T) *T {
				return func(key, k *T) *T { return applyLam(l, k) }
			}(Lam(i, el(i, Zero)))})
	}
	i := FreshIndex("i", r)
	j := FreshIndex("j", c)
	l := Lam(i, Lam(j, el(i, j)))
	mem = mem.set("mat", &Map{kind: mDef, two: true, prev: mem.get("mat"), key: o, val: l})
	if r != nil {
		mem = mem.store("mrows", o, r)
		mem = mem.store("mcols", o, c)
	}
	return mem
}

func (ev *Eval) setAt(mem *Mem, o, i, j, v *T) *Mem {
	ev.matRegs()
	if o.Op == "ite" {
		a := o.Args[0]
		return mergeMem(atomT(a), ev.setAt(mem, o.Args[1], restrict(i, a, true), restrict(j, a, true), restrict(v, a, true)), ev.setAt(mem, o.Args[2], restrict(i, a, false), restrict(j, a, false), restrict(v, a, false)))
	}
	switch o.Op {
	case "matT":
		return ev.setAt(mem, o.Args[0], j, i, v)
	case "vecview":
		return ev.store(mem, Op("idx", "", NotNum, o.Args[0], Add(o.Args[1], i)), v, f64)
	case "colview":
		return ev.setAt(mem, o.Args[0], i, o.Args[1], v)
	case "rowview":
		return ev.setAt(mem, o.Args[0], o.Args[1], i, v)
	case "matview":
		return ev.setAt(mem, o.Args[0], Add(i, o.Args[1]), Add(j, o.Args[3]), v)
	}
	return mem.store("mat", mij(o, i, j), v)
}

// content is the canonical content of a matrix
func (ev *Eval) content(c mctx, mem *Mem, o *T) *T {
	if o.Op == "ite" {
		return liftN([]*T{o}, func(a []*T) *T { return ev.content(c, mem, a[0]) })
	}
	if o == Nil {
		return Nil
	}
	r, cc := ev.dims(c, mem, o)
	i := FreshIndex("i", r)
	j := FreshIndex("j", cc)
	return Op("matv", "", NotNum, r, cc, Lam(i, Lam(j, ev.at(c, mem, o, i, j))))
}

// fromContent writes opaque matrix content to an object
func (ev *Eval) fromContent(mem *Mem, o, v *T) *Mem {
	return ev.setMat(mem, o, Op("rows", "", IntNum, v), Op("cols", "", IntNum, v), func(i, j *T) *T {
		return Op("ld", "mat", RealNum, mij(v, i, j))
	})
}

func (ev *Eval) mulContent(c mctx, mem *Mem, ops []*T) (r, cc *T, el func(i, j *T) *T) {
	r, cc = ev.dims(c, mem, ops[0])
	el = func(i, j *T) *T { return ev.at(c, mem, ops[0], i, j) }
	for _, o := range ops[1:] {
		o := o
		inner := cc
		_, c2 := ev.dims(c, mem, o)
		left := el
		el = func(i, j *T) *T {
			k := FreshIndex("k", inner)
			return SumT(inner, k, Mul(left(i, k), ev.at(c, mem, o, k, j)))
		}
		cc = c2
	}
	return
}

func (ev *Eval) newMat(fr *frame, in ssa.Instruction, st *state, r, c *T, el func(i, j *T) *T) *T {
	ev.matRegs()
	o := ev.newObj(fr, instrID(in), fr.cur)
	st.mem = st.mem.store("mrows", o, r)
	st.mem = st.mem.store("mcols", o, c)
	if el != nil {
		st.mem = ev.setMat(st.mem, o, r, c, el)
	}
	return o
}

// matCall models functions and static methods of gonum/mat
func (ev *Eval) matCall(fr *frame, in ssa.Instruction, f *ssa.Function, args []*T, st *state) (*T, bool) {
	ev.matRegs()
	c := mctx{fr, in, st}
	if f.Signature.Recv() != nil {
		if f.Name() == "T" && strings.HasSuffix(typeName(f.Signature.Recv().Type()), "Transpose") {
			return args[0].Args[0], true
		}
		return ev.matMethod(fr, in, f.Name(), args[0], args[1:], f.Signature, st)
	}
	switch f.Name() {
	case "NewDense":
		data := args[2]
		return liftN([]*T{data}, func(a []*T) *T {
			if a[0].Op == "slice" && a[0].Args[0] == Nil {
				return ev.newMat(fr, in, st, args[0], args[1], nil)
			}
			ev.bound(fr, in, st, "matrix size", And(Eq(Mul(args[0], args[1]), Op("len", "", IntNum, a[0])), And(Gt(args[0], Zero), Gt(args[1], Zero))))
			mem := st.mem
			d := a[0]
			return ev.newMat(fr, in, st, args[0], args[1], func(i, j *T) *T {
				return ev.elemAt(mem, d, Add(Mul(i, args[1]), j), f64)
			})
		}), true
	case "NewVecDense":
		data := args[1]
		return liftN([]*T{data, args[0]}, func(a []*T) *T {
			if a[0].Op == "slice" && a[0].Args[0] == Nil {
				return ev.newMat(fr, in, st, a[1], One, nil)
			}
			return Op("vecview", "", NotNum, Op("base", "", NotNum, a[0]), sliceOff(a[0]), a[1])
		}), true
	case "NewDiagDense":
		data := args[1]
		return liftN([]*T{data, args[0]}, func(a []*T) *T {
			if a[0].Op == "slice" && a[0].Args[0] == Nil {
				return ev.newMat(fr, in, st, a[1], a[1], nil)
			}
			return Op("diagview", "", NotNum, Op("base", "", NotNum, a[0]), sliceOff(a[0]), a[1])
		}), true
	case "DenseCopyOf", "VecDenseCopyOf":
		r, cc := ev.dims(c, st.mem, args[0])
		mem := st.mem
		return ev.newMat(fr, in, st, r, cc, func(i, j *T) *T { return ev.at(c, mem, args[0], i, j) }), true
	case "Col", "Row":
		r, cc := ev.dims(c, st.mem, args[2])
		n := r
		if f.Name() == "Row" {
			n = cc
		}
		mem := st.mem
		el := func(i *T) *T {
			if f.Name() == "Row" {
				return ev.at(c, mem, args[2], args[1], i)
			}
			return ev.at(c, mem, args[2], i, args[1])
		}
		return liftN([]*T{args[0]}, func(a []*T) *T {
			b, off := a[0], Zero
			if a[0].Op != "slice" || a[0].Args[0] == Nil {
				b = mk("new", fmt.Sprintf("%s/%s#col", fr.site, instrID(in)), ev.ts(fr.cur), NotNum)
			} else {
				b, off = a[0].Args[0], a[0].Args[1]
			}
			st.mem = ev.setSeq(st.mem, b, off, n, el)
			return mkSlice([]*T{b, off, n})
		}), true
	case "Dot":
		n, _ := ev.dims(c, st.mem, args[0])
		k := FreshIndex("k", n)
		return SumT(n, k, Mul(ev.at(c, st.mem, args[0], k, Zero), ev.at(c, st.mem, args[1], k, Zero))), true
	case "Sum":
		r, cc := ev.dims(c, st.mem, args[0])
		k := FreshIndex("k", r)
		l := FreshIndex("l", cc)
		return SumT(r, k, SumT(cc, l, ev.at(c, st.mem, args[0], k, l))), true
	}
	return nil, false
}

// setSeq writes n numbers starting at place off of the storage b
func (ev *Eval) setSeq(mem *Mem, b, off, n *T, el func(i *T) *T) *Mem {
	r := "E:float64"
	ev.setReg(r, f64)
	old := mem.get(r)
	i := FreshIndex("i", nil)
	k := Sub(i, off)
	v := Ite(And(Ge(k, Zero), Lt(k, n)), el(k), ev.sel(old, r, Op("idx", "", NotNum, b, i)))
	return mem.set(r, &Map{kind: mDef, prev: old, key: b, val: Lam(i, v)})
}

// floatsCall models functions of gonum/floats and gonum/stat
func (ev *Eval) floatsCall(in ssa.Instruction, pkg, name string, args []*T, st *state) (*T, bool) {
	unit := mk("tuple", "", nil, NotNum)
	mem := st.mem
	at := func(s, i *T) *T { return ev.elemAt(mem, s, i, f64) }
	length := func(s *T) *T { return Op("len", "", IntNum, s) }
	sum := func(s *T, f func(i *T) *T) *T {
		n := length(s)
		i := FreshIndex("i", nil)
		return SumT(n, i, f(i))
	}
	into := func(dst *T, f func(i *T) *T) (*T, bool) {
		if dst.Op != "slice" {
			return nil, false
		}
		st.mem = ev.setSeq(st.mem, dst.Args[0], dst.Args[1], dst.Args[2], f)
		return unit, true
	}
	switch pkg + "." + name {
	case "floats.Sum":
		return sum(args[0], func(i *T) *T { return at(args[0], i) }), true
	case "floats.Dot":
		return sum(args[0], func(i *T) *T { return Mul(at(args[0], i), at(args[1], i)) }), true
	case "floats.Distance":
		if c, ok := args[2].ConstVal(); ok && c.RatString() == "2" {
			return Fn("sqrt", sum(args[0], func(i *T) *T {
				d := Sub(at(args[0], i), at(args[1], i))
				return Mul(d, d)
			})), true
		}
	case "floats.Norm":
		if c, ok := args[1].ConstVal(); ok && c.RatString() == "2" {
			return Fn("sqrt", sum(args[0], func(i *T) *T { return Mul(at(args[0], i), at(args[0], i)) })), true
		}
	case "floats.Scale":
		return into(args[1], func(i *T) *T { return Mul(args[0], at(args[1], i)) })
	case "floats.AddConst":
		return into(args[1], func(i *T) *T { return Add(args[0], at(args[1], i)) })
	case "floats.Add":
		return into(args[0], func(i *T) *T { return Add(at(args[0], i), at(args[1], i)) })
	case "floats.Sub":
		return into(args[0], func(i *T) *T { return Sub(at(args[0], i), at(args[1], i)) })
	case "floats.AddScaled":
		return into(args[0], func(i *T) *T { return Add(at(args[0], i), Mul(args[1], at(args[2], i))) })
	case "stat.Mean":
		if args[1].Op == "slice" && args[1].Args[0] == Nil {
			return Div(sum(args[0], func(i *T) *T { return at(args[0], i) }), length(args[0])), true
		}
	}
	return nil, false
}

// matMethod models methods of matrices and vectors
func (ev *Eval) matMethod(fr *frame, in ssa.Instruction, name string, o *T, args []*T, sig *types.Signature, st *state) (*T, bool) {
	ev.matRegs()
	c := mctx{fr, in, st}
	unit := mk("tuple", "", nil, NotNum)
	switch name {
	case "Dims", "Caps":
		r, cc := ev.dims(c, st.mem, o)
		return mk("tuple", "", []*T{Constrain(r, st.g), Constrain(cc, st.g)}, NotNum), true
	case "Len":
		r, _ := ev.dims(c, st.mem, o)
		return r, true
	case "At":
		return Constrain(ev.at(c, st.mem, o, args[0], args[1]), st.g), true
	case "AtVec":
		return Constrain(ev.at(c, st.mem, o, args[0], Zero), st.g), true
	case "Set":
		st.mem = ev.setAt(st.mem, o, Constrain(args[0], st.g), Constrain(args[1], st.g), Constrain(args[2], st.g))
		return unit, true
	case "SetDiag":
		k := Constrain(args[0], st.g)
		st.mem = ev.setAt(st.mem, o, k, k, Constrain(args[1], st.g))
		return unit, true
	case "SetVec":
		st.mem = ev.setAt(st.mem, o, Constrain(args[0], st.g), Zero, Constrain(args[1], st.g))
		return unit, true
	case "T":
		return liftN([]*T{o}, func(a []*T) *T {
			if a[0].Op == "matT" {
				return a[0].Args[0]
			}
			return mk("matT", "", []*T{a[0]}, NotNum)
		}), true
	case "ColView":
		return Op("colview", "", NotNum, o, args[0]), true
	case "RowView":
		return Op("rowview", "", NotNum, o, args[0]), true
	case "Slice":
		return Op("matview", "", NotNum, o, args[0], args[1], args[2], args[3]), true
	case "SliceVec":
		return Op("matview", "", NotNum, o, args[0], args[1], Zero, One), true
	case "RawRowView":
		_, cc := ev.dims(c, st.mem, o)
		return mkSlice([]*T{Op("matrow", "", NotNum, o, args[0]), Zero, cc}), true
	case "SetRow":
		_, cc := ev.dims(c, st.mem, o)
		st.mem = ev.copySeq(st.mem, Op("matrow", "", NotNum, o, args[0]), Zero, cc, args[1], f64)
		return unit, true
	case "SetCol":
		r, _ := ev.dims(c, st.mem, o)
		old := st.mem
		j0, src := args[0], args[1]
		k := FreshIndex("i", nil)
		l := FreshIndex("j", nil)
		lam := Lam(k, Lam(l, Ite(And(Eq(l, j0), Lt(k, r)), ev.elemAt(old, src, k, f64), ev.at(c, old, o, k, l))))
		st.mem = st.mem.set("mat", &Map{kind: mDef, two: true, prev: st.mem.get("mat"), key: o, val: lam})
		return unit, true
	case "RawVector":
		r, _ := ev.dims(c, st.mem, o)
		if o.Op == "vecview" {
			return mk("struct", "blas64.Vector", []*T{r, mkSlice([]*T{o.Args[0], o.Args[1], o.Args[2]}), One}, NotNum), true
		}
		return mk("struct", "blas64.Vector", []*T{r, mkSlice([]*T{Op("vecdata", "", NotNum, o), Zero, r}), One}, NotNum), true
	case "Mul", "Product", "MulVec":
		ops := args
		if name == "Product" {
			// variadic: slice of matrices
			if len(args) == 1 && args[0].Op == "slice" {
				n, ok := constSmall(args[0].Args[2])
				if !ok {
					return nil, false
				}
				ops = nil
				it := types.NewInterfaceType(nil, nil)
				_ = it
				et := sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
				for k := 0; k < n; k++ {
					ops = append(ops, ev.elemAt(st.mem, args[0], Int(int64(k)), et))
				}
			}
		}
		r, cc, el := ev.mulContent(c, st.mem, ops)
		if name == "MulVec" {
			cc = One
			all := el
			el = func(i, j *T) *T { return all(i, Zero) }
		}
		st.mem = ev.setMat(st.mem, o, r, cc, el)
		return unit, true
	case "Scale", "ScaleVec":
		r, cc := ev.dims(c, st.mem, args[1])
		mem := st.mem
		st.mem = ev.setMat(st.mem, o, r, cc, func(i, j *T) *T { return Mul(args[0], ev.at(c, mem, args[1], i, j)) })
		return unit, true
	case "Add", "Sub", "MulElem", "AddVec", "SubVec", "MulElemVec", "DivElem":
		r, cc := ev.dims(c, st.mem, args[0])
		mem := st.mem
		st.mem = ev.setMat(st.mem, o, r, cc, func(i, j *T) *T {
			a, b := ev.at(c, mem, args[0], i, j), ev.at(c, mem, args[1], i, j)
			switch name[0] {
			case 'A':
				return Add(a, b)
			case 'S':
				return Sub(a, b)
			case 'D':
				return Div(a, b)
			}
			return Mul(a, b)
		})
		return unit, true
	case "AddScaledVec":
		r, cc := ev.dims(c, st.mem, args[0])
		mem := st.mem
		st.mem = ev.setMat(st.mem, o, r, cc, func(i, j *T) *T {
			return Add(ev.at(c, mem, args[0], i, j), Mul(args[1], ev.at(c, mem, args[2], i, j)))
		})
		return unit, true
	case "Copy", "CloneFrom", "CopyVec", "CloneFromVec":
		r, cc := ev.dims(c, st.mem, args[0])
		mem := st.mem
		st.mem = ev.setMat(st.mem, o, r, cc, func(i, j *T) *T { return ev.at(c, mem, args[0], i, j) })
		return mk("tuple", "", []*T{r, cc}, NotNum), true
	case "Factorize":
		m := ev.content(c, st.mem, args[0])
		f := append([]*T{m}, args[1:]...)
		r, cc := ev.dims(c, st.mem, args[0])
		st.mem = st.mem.store("svd", o, Op("factor", "", NotNum, append(f, r, cc)...))
		as := append([]*T{m}, args[1:]...)
		return BoolTerm(Op("call", "mat.Factorize", NotNum, as...)), true
	case "Values":
		if strings.Contains(typeName(sig.Recv().Type()), "SVD") {
			k := ev.svdOf(st.mem, o)
			v := Op("call", "svd.Values", NotNum, k)
			return ev.resultOf(fr, in, 0, v, types.NewSlice(f64), st), true
		}
	case "VTo", "UTo":
		k := ev.svdOf(st.mem, o)
		v := Op("call", "svd."+name, NotNum, k)
		st.mem = liftMem(v, st.mem, func(v *T, m *Mem) *Mem { return ev.fromContent(m, args[0], v) })
		return args[0], true
	case "Solve", "SolveVec", "Inverse":
		var as []*T
		for i, a := range args {
			as = append(as, ev.deepIn(c, st.mem, a, sig.Params().At(i).Type()))
		}
		if name != "Inverse" {
			as = append([]*T{ev.deepIn(c, st.mem, o, nil)}, as...)
		}
		v := Op("call", fmt.Sprintf("mat.%s", name), NotNum, as...)
		st.mem = liftMem(v, st.mem, func(v *T, m *Mem) *Mem { return ev.fromContent(m, o, v) })
		return mk("call", "mat."+name+"Err", as, NotNum), true
	}
	return nil, false
}

func (ev *Eval) svdOf(mem *Mem, o *T) *T {
	return ev.sel(mem.get("svd"), "svd", o)
}

func liftMem(v *T, mem *Mem, f func(v *T, m *Mem) *Mem) *Mem {
	if v.Op != "ite" {
		return f(v, mem)
	}
	return mergeMem(atomT(v.Args[0]), liftMem(v.Args[1], mem, f), liftMem(v.Args[2], mem, f))
}

// ---------------------------------------------------------------- content of values

func (ev *Eval) deep(mem *Mem, v *T, t types.Type) *T {
	return ev.deepN(mctx{}, mem, v, t, 6)
}

func (ev *Eval) deepIn(c mctx, mem *Mem, v *T, t types.Type) *T {
	return ev.deepN(c, mem, v, t, 6)
}

func isMatLike(t types.Type) bool {
	if !isMatType(t) {
		return false
	}
	n := typeName(t)
	return !strings.HasSuffix(n, "SVD")
}

func (ev *Eval) deepN(c mctx, mem *Mem, v *T, t types.Type, d int) *T {
	if d == 0 || t == nil {
		return v
	}
	if v.Op == "ite" && !isBoolType(t) && numOf(t) == NotNum {
		return liftN([]*T{v}, func(a []*T) *T { return ev.deepN(c, mem, a[0], t, d) })
	}
	if isMatLike(t) {
		if c.fr == nil && v.Op == "iface" {
			return ev.matIface(mem, v, d)
		}
		return ev.content(c, mem, v)
	}
	if isMatType(t) { // svd
		return ev.svdOf(mem, v)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return v
	case *types.Slice:
		if v.Op != "slice" {
			return v
		}
		if v.Args[0] == Nil {
			return mk("seqnil", "", nil, NotNum)
		}
		n := v.Args[2]
		i := FreshIndex("i", n)
		return Op("seq", "", NotNum, n, Lam(i, ev.deepN(c, mem, ev.elemAt(mem, v, i, u.Elem()), u.Elem(), d-1)))
	case *types.Pointer:
		el := u.Elem()
		if typeName(el) == "list.List" && (rootOf(v).Op == "new" || ev.Follow && isInitialRef(v)) {
			return ev.listContent(c, mem, v, d)
		}
		if _, ok := el.Underlying().(*types.Struct); ok && ev.isModelStruct(el) && (rootOf(v).Op == "new" || ev.Follow && isInitialRef(v)) {
			return Op("obj", typeName(el), NotNum, ev.deepN(c, mem, ev.load(mem, v, el), el, d-1))
		}
		return v
	case *types.Struct:
		if !ev.isModelStruct(t) {
			return v
		}
		args := make([]*T, u.NumFields())
		for i := range args {
			args[i] = ev.deepN(c, mem, ev.fieldOf(v, t, i), u.Field(i).Type(), d-1)
		}
		return Op("rec", typeName(t), NotNum, args...)
	case *types.Interface:
		if v.Op == "iface" {
			if tt := ev.typs[v.Aux]; tt != nil {
				return Op("boxed", v.Aux, NotNum, ev.deepN(c, mem, v.Args[0], tt, d-1))
			}
		}
		switch v.Op {
		case "matT", "vecview", "diagview", "colview", "rowview", "matview":
			return ev.content(c, mem, v)
		}
		if v.Op == "new" {
			if r, ok := mem.m["mrows"]; ok && r != nil {
				return ev.content(c, mem, v)
			}
		}
		return v
	}
	return v
}

// matIface is the content of a matrix type of the module, with a synthetic frame
func (ev *Eval) matIface(mem *Mem, v *T, d int) *T {
	fr := &frame{fn: ev.stack0(), base: True, site: "deep"}
	if fr.fn == nil {
		return v
	}
	in := firstInstr(fr.fn)
	return ev.content(mctx{fr, in, &state{g: True, mem: mem}}, mem, v)
}

func (ev *Eval) stack0() *ssa.Function {
	if len(ev.stack) == 0 {
		return nil
	}
	return ev.stack[len(ev.stack)-1]
}

func firstInstr(f *ssa.Function) ssa.Instruction { return f.Blocks[0].Instrs[0] }
