package pta

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const matPkg = "gonum.org/v1/gonum/mat"

func (a *An) external(c *Ctx, in ssa.CallInstruction, fn *ssa.Function, regs []*Obj, res *Obj) {
	var obj types.Object = fn.Object()
	f, ok := obj.(*types.Func)
	if !ok && fn.Origin() != nil {
		f, ok = fn.Origin().Object().(*types.Func)
	}
	if !ok {
		if fn.Synthetic == "package initializer" {
			return // another package's variables are not of interest
		}
		// bound methods, thunks and wrappers of external methods
		if len(fn.Blocks) > 0 && fn.Synthetic != "" {
			n, isNew := a.push(c, in, fn)
			a.linkCall(c, in, n)
			for i, p := range fn.Params {
				if i < len(regs) {
					a.copyVal(regs[i], "", a.reg(n, p), "", p.Type(), n.thread, nil)
				}
			}
			if isNew {
				a.fn(n)
			}
			if res != nil {
				a.copyRes(n.ret, res, fn.Signature.Results(), c.thread)
			}
			return
		}
		a.Unknown[fn.String()] = true
		a.defaultExt(c, in, fn.Signature, regs, res, false)
		return
	}
	sig := f.Type().(*types.Signature)
	if sig.Recv() != nil {
		a.externalMethod(c, in, sig.Recv().Type(), f, regs, res)
		return
	}
	a.extFunc(c, in, f, fn.Signature, regs, res)
}

// onData visits the element storage of the matrices in a register
func (a *An) onMat(r *Obj, p string, f func(l Loc, hdr bool)) {
	a.on(a.node(r, p), func(l Loc) { a.matLoc(l, f, 0) })
}

func (a *An) matLoc(l Loc, f func(l Loc, hdr bool), d int) {
	if d > 3 {
		return
	}
	if l.O.Kind == KBox {
		if pointerLike(l.O.Type) {
			a.on(a.node(l.O, l.Path), func(m Loc) {
				if m.Via == nil {
					m.Via = l.Via
				}
				a.matLoc(m, f, d+1)
			})
			return
		}
		return
	}
	f(Loc{l.O, l.Path + "#hdr", l.Via}, true)
	a.on(a.node(l.O, l.Path+"#data"), func(m Loc) {
		if m.Via == nil {
			m.Via = l.Via
		}
		f(Loc{m.O, m.Path + "[]", m.Via}, false)
	})
}

func (a *An) matAccess(c *Ctx, in ssa.Instruction, r *Obj, p string, write bool) {
	a.onMat(r, p, func(l Loc, hdr bool) { a.access(c, in, l, write, false) })
}

// matData copies the storage pointers of the matrices in r into a cell
func (a *An) matData(r *Obj, p string, o *Obj, path string, th *Ctx) {
	a.on(a.node(r, p), func(l Loc) { a.matDataLoc(l, o, path, th, 0) })
}

func (a *An) matDataLoc(l Loc, o *Obj, path string, th *Ctx, d int) {
	if l.O.Kind == KBox && d < 4 {
		a.on(a.node(l.O, l.Path), func(m Loc) { a.matDataLoc(m, o, path, th, d+1) })
		return
	}
	a.flow(a.node(l.O, l.Path+"#data"), a.node(o, path), th, ownTag(l, th))
}

func (a *An) freshData(c *Ctx, in ssa.Instruction, sub string, o *Obj, path string) {
	d := a.obj(c, in, "data"+sub, KAlloc, types.NewSlice(types.Typ[types.Float64]))
	a.add(a.node(o, path), Loc{O: d})
}

// isMatrix tells whether a parameter carries a matrix
func isMatrix(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return isMat(p.Elem())
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == matPkg
}

// readAll records that a call reads what its arguments refer to
func (a *An) readAll(c *Ctx, in ssa.Instruction, regs []*Obj, from int) {
	for i := from; i < len(regs); i++ {
		a.accessArg(c, in, regs[i], "", false)
	}
}

// accessArg records an access to what one argument refers to (matrices with
// their storage, slices with their elements, pointers)
func (a *An) accessArg(c *Ctx, in ssa.Instruction, r *Obj, p string, write bool) {
	a.on(a.node(r, p), func(l Loc) { a.accessLoc(c, in, l, write, 0) })
}

func (a *An) accessLoc(c *Ctx, in ssa.Instruction, l Loc, write bool, d int) {
	if d > 3 || l.O.Kind == KFunc {
		return
	}
	if l.O.Kind == KBox {
		if isMatrix(l.O.Type) || pointerLike(l.O.Type) {
			a.on(a.node(l.O, l.Path), func(m Loc) {
				if m.Via == nil {
					m.Via = l.Via
				}
				a.accessLoc(c, in, m, write, d+1)
			})
		}
		return
	}
	t := l.O.Type
	if t != nil && l.Path != "" {
		t = TypeAt(t, l.Path)
	}
	if t != nil {
		if isMat(t) || isMatrix(t) {
			a.matLoc(l, func(m Loc, hdr bool) { a.access(c, in, m, write, false) }, 0)
			return
		}
		if _, ok := t.Underlying().(*types.Slice); ok {
			a.access(c, in, Loc{l.O, l.Path + "[]", l.Via}, write, false)
			return
		}
		if _, ok := t.Underlying().(*types.Map); ok {
			a.access(c, in, Loc{l.O, l.Path + "[v]", l.Via}, write, false)
			return
		}
	}
	a.access(c, in, l, write, false)
}

var matReadOnly = set("At AtVec Dims Len Cap Caps IsEmpty Symmetric SymmetricDim Trace Norm Det String Format MarshalBinary MarshalBinaryTo Rank Cond LogDet Kind Triangle Bandwidth SymBand TriBand Diag Uplo IsZero Inc")
var matAlias = set("T TTri TVec RawMatrix RawVector RawRowView RowView ColView RowViewOf ColViewOf Slice SliceVec SliceSym SliceTri RawSymmetric RawTriangular RawBand RawSymBand Grow GrowSquare DiagView Untranspose UntransposeTri TBand TTriBand")
var constructorsWithData = set("NewDense NewVecDense NewSymDense NewDiagDense NewTriDense NewBandDense NewSymBandDense NewTriBandDense NewCDense")
var roMethods = set("String Error Len Size Cap Name IsNil Flags PersistentFlags")

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, f := range strings.Fields(s) {
		m[f] = true
	}
	return m
}

// aliasResult makes every matrix or slice result share the storage of the
// matrices in r
func (a *An) aliasResult(c *Ctx, in ssa.CallInstruction, r *Obj, rt types.Type, rs *types.Tuple, res *Obj) {
	if res == nil {
		return
	}
	for i := 0; i < rs.Len(); i++ {
		p := ""
		if rs.Len() > 1 {
			p = "#" + strconv.Itoa(i)
		}
		t := rs.At(i).Type()
		switch {
		case types.IsInterface(t):
			// T and friends: the receiver seen through another type
			if types.IsInterface(rt) {
				a.flow(a.node(r, ""), a.node(res, p), c.thread, nil)
				continue
			}
			bt := rt
			if _, ok := bt.Underlying().(*types.Pointer); !ok {
				bt = types.NewPointer(rt)
			}
			b := a.box(c, in, "alias"+strconv.Itoa(i), bt)
			a.flow(a.node(r, ""), a.node(b, ""), c.thread, nil)
			a.add(a.node(res, p), Loc{O: b})
		case isMatrix(t):
			o := a.obj(c, in, "view"+p, KAlloc, pointee(t))
			a.matData(r, "", o, "#data", c.thread)
			a.add(a.node(res, p), Loc{O: o})
		default:
			for _, s := range flat(t) {
				if strings.HasSuffix(s, "#data") {
					a.matData(r, "", res, p+s, c.thread)
					continue
				}
				if st := TypeAt(t, s); st != nil {
					if _, ok := st.Underlying().(*types.Slice); ok {
						a.matData(r, "", res, p+s, c.thread)
					}
				}
			}
		}
	}
}

func (a *An) externalMethod(c *Ctx, in ssa.CallInstruction, rt types.Type, m *types.Func, regs []*Obj, res *Obj) {
	sig := m.Type().(*types.Signature)
	pkg, name := "", m.Name()
	if m.Pkg() != nil {
		pkg = m.Pkg().Path()
	}
	tn := ""
	bt := rt
	if p, ok := bt.Underlying().(*types.Pointer); ok {
		bt = p.Elem()
	}
	if n, ok := types.Unalias(bt).(*types.Named); ok {
		tn = n.Obj().Name()
	}
	recv := regs[0]
	switch {
	case pkg == "sync":
		switch name {
		case "Lock", "Unlock", "RLock", "RUnlock", "TryLock", "TryRLock":
			a.on(a.node(recv, ""), func(l Loc) {
				k := strconv.Itoa(c.ID) + "|" + in.String() + "|" + strconv.Itoa(l.O.ID) + l.Path + "|" + strconv.Itoa(int(in.Pos()))
				if !a.lockSet[k] {
					a.lockSet[k] = true
					a.Locks = append(a.Locks, LockEvent{Ctx: c, Instr: in, Op: name, Loc: Loc{O: l.O, Path: l.Path}})
				}
			})
		case "Do", "Go":
			a.callFuncArgs(c, in, sig, regs[1:])
		case "RLocker":
			a.Unknown["sync.RLocker"] = true
		}
		return
	case pkg == matPkg || (pkg == "" && tn != "error" && isMatrix(rt)):
		switch {
		case matReadOnly[name]:
			a.readAll(c, in, regs, 0)
			if res != nil {
				a.freshTuple(c, in, res, sig.Results())
			}
		case matAlias[name]:
			a.onMat(recv, "", func(l Loc, hdr bool) {
				if hdr {
					a.access(c, in, l, false, false)
				}
			})
			if strings.HasPrefix(name, "Grow") {
				a.freshTuple(c, in, res, sig.Results())
			}
			a.aliasResult(c, in, recv, rt, sig.Results(), res)
		case name == "Values" && len(regs) == 2:
			a.readAll(c, in, regs, 0)
			a.accessArg(c, in, regs[1], "", true)
			if res != nil {
				a.flow(a.node(regs[1], ""), a.node(res, ""), c.thread, nil)
				a.freshTuple(c, in, res, sig.Results())
			}
		case strings.HasSuffix(name, "To") && len(regs) >= 2:
			a.readAll(c, in, regs, 0)
			a.writeMat(c, in, regs[1], "")
			if res != nil {
				a.freshTuple(c, in, res, sig.Results())
			}
		case strings.HasPrefix(name, "SetRaw"):
			a.matWriteHdr(c, in, recv)
			for _, s := range flat(sig.Params().At(0).Type()) {
				s := s
				a.on(a.node(recv, ""), func(l Loc) { a.flow(a.node(regs[1], s), a.node(l.O, l.Path+"#data"), c.thread, nil) })
			}
		default:
			a.readAll(c, in, regs, 1)
			a.writeMat(c, in, recv, "")
			if res != nil {
				a.freshTuple(c, in, res, sig.Results())
			}
			a.callFuncArgs(c, in, sig, regs[1:])
		}
		return
	case pkg == "encoding/json" && tn == "Encoder" && name == "Encode":
		a.encode(c, in, regs[1], "")
		a.accessArg(c, in, recv, "", true)
	case pkg == "encoding/json" && tn == "Decoder" && name == "Decode":
		a.decode(c, in, regs[1], "")
		a.accessArg(c, in, recv, "", true)
	case pkg == "sync/atomic":
		return
	default:
		if !roMethods[name] {
			a.accessArg(c, in, recv, "", true)
		}
		a.defaultExt(c, in, sig, regs[1:], res, true)
		return
	}
	if res != nil {
		a.freshTuple(c, in, res, sig.Results())
	}
}

func (a *An) matWriteHdr(c *Ctx, in ssa.Instruction, r *Obj) {
	a.onMat(r, "", func(l Loc, hdr bool) {
		if hdr {
			a.access(c, in, l, true, false)
		}
	})
}

// writeMat records that the matrices in a register are overwritten; an empty
// one gets storage of its own
func (a *An) writeMat(c *Ctx, in ssa.Instruction, r *Obj, p string) {
	a.on(a.node(r, p), func(l Loc) { a.ownData(c, in, l, 0) })
	a.matAccess(c, in, r, p, true)
}

func (a *An) ownData(c *Ctx, in ssa.Instruction, l Loc, d int) {
	if l.O.Kind == KBox && d < 4 {
		a.on(a.node(l.O, l.Path), func(m Loc) { a.ownData(c, in, m, d+1) })
		return
	}
	if l.O.Kind == KAlloc {
		// the storage is as new as the matrix itself
		d := a.obj(l.O.Ctx, okey{nil, l.O, l.Path}, "own", KAlloc, types.NewSlice(types.Typ[types.Float64]))
		d.Site = l.O.Site
		a.add(a.node(l.O, l.Path+"#data"), Loc{O: d})
	}
}

func (a *An) freshTuple(c *Ctx, in ssa.CallInstruction, res *Obj, rs *types.Tuple) {
	if res == nil {
		return
	}
	if rs.Len() == 1 {
		a.freshReg(c, in, res, rs.At(0).Type())
	} else {
		a.freshReg(c, in, res, rs)
	}
}

// callFuncArgs calls function values handed to foreign code
func (a *An) callFuncArgs(c *Ctx, in ssa.CallInstruction, sig *types.Signature, regs []*Obj) {
	for i := range regs {
		var t types.Type
		if i < sig.Params().Len() {
			t = sig.Params().At(i).Type()
		}
		if t == nil {
			continue
		}
		if _, ok := t.Underlying().(*types.Signature); !ok {
			continue
		}
		a.on(a.node(regs[i], ""), func(l Loc) {
			if l.O.Kind != KFunc || l.O.Fn == nil {
				return
			}
			var rr []*Obj
			for j, p := range l.O.Fn.Params {
				r := a.obj(c, in, "cbarg"+strconv.Itoa(j), KReg, nil)
				a.freshReg(c, in, r, p.Type())
				rr = append(rr, r)
			}
			a.enterRegs(c, in, l.O.Fn, rr, l.O, nil)
		})
	}
}

func (a *An) extFunc(c *Ctx, in ssa.CallInstruction, f *types.Func, sig *types.Signature, regs []*Obj, res *Obj) {
	pkg, name := "", f.Name()
	if f.Pkg() != nil {
		pkg = f.Pkg().Path()
	}
	switch {
	case pkg == matPkg && constructorsWithData[name]:
		o := a.obj(c, in, "", KAlloc, pointee(sig.Results().At(0).Type()))
		last := len(regs) - 1
		a.flow(a.node(regs[last], ""), a.node(o, "#data"), c.thread, nil)
		a.freshData(c, in, "", o, "#data")
		if res != nil {
			a.add(a.node(res, ""), Loc{O: o})
		}
		return
	case pkg == matPkg:
		a.readAll(c, in, regs, 0)
		if (name == "Row" || name == "Col") && len(regs) == 3 {
			a.accessArg(c, in, regs[0], "", true)
			if res != nil {
				a.flow(a.node(regs[0], ""), a.node(res, ""), c.thread, nil)
			}
		}
		if res != nil {
			if sig.Results().Len() == 1 && isMatrix(sig.Results().At(0).Type()) && !types.IsInterface(sig.Results().At(0).Type()) {
				o := a.obj(c, in, "", KAlloc, pointee(sig.Results().At(0).Type()))
				a.freshData(c, in, "", o, "#data")
				a.add(a.node(res, ""), Loc{O: o})
				return
			}
			a.freshTuple(c, in, res, sig.Results())
		}
		return
	case pkg == "sort":
		switch name {
		case "Sort", "Stable":
			a.on(a.node(regs[0], ""), func(l Loc) {
				if l.O.Kind != KBox {
					a.accessLoc(c, in, l, true, 0)
					return
				}
				for _, mn := range []string{"Len", "Less", "Swap"} {
					sel := a.Prog.MethodSets.MethodSet(l.O.Type).Lookup(nil, mn)
					if sel == nil {
						continue
					}
					fn := a.Prog.MethodValue(sel)
					if fn == nil || !a.transparent(fn) {
						a.accessLoc(c, in, l, mn == "Swap", 0)
						continue
					}
					r := a.obj(c, in, "srt"+mn+strconv.Itoa(l.O.ID), KReg, nil)
					a.loadTag(l, r, "", l.O.Type, c.thread)
					a.enterRegs(c, in, fn, []*Obj{r}, nil, nil)
				}
			})
			return
		case "Reverse":
			if res != nil {
				a.flow(a.node(regs[0], ""), a.node(res, ""), c.thread, nil)
			}
			return
		case "Ints", "Float64s", "Strings", "Slice", "SliceStable":
			a.accessArg(c, in, regs[0], "", true)
			a.callFuncArgs(c, in, sig, regs)
			return
		}
	case pkg == "encoding/json":
		switch name {
		case "Marshal", "MarshalIndent":
			a.encode(c, in, regs[0], "")
			if res != nil {
				a.freshTuple(c, in, res, sig.Results())
			}
			return
		case "Unmarshal":
			a.readAll(c, in, regs[:1], 0)
			a.decode(c, in, regs[1], "")
			if res != nil {
				a.freshTuple(c, in, res, sig.Results())
			}
			return
		}
	case pkg == "fmt" && (strings.HasPrefix(name, "Sscan") || strings.HasPrefix(name, "Fscan") || strings.HasPrefix(name, "Scan")):
		for _, r := range regs {
			a.on(a.node(r, ""), func(l Loc) {
				a.on(a.node(l.O, l.Path+"[]"), func(m Loc) { a.accessLoc(c, in, m, true, 0) })
			})
		}
		return
	case strings.HasPrefix(pkg, "gonum.org/v1/gonum/floats") && name == "Reverse":
		a.accessArg(c, in, regs[0], "", true)
		return
	case pkg == "io" && (name == "ReadFull" || name == "ReadAtLeast"):
		a.accessArg(c, in, regs[1], "", true)
	case pkg == "sync/atomic":
		return
	}
	a.defaultExt(c, in, sig, regs, res, false)
}

// defaultExt is the rule for foreign code without a summary of its own: it
// reads its arguments, writes those named as destinations, calls functions it
// is given and returns fresh memory or its destination
func (a *An) defaultExt(c *Ctx, in ssa.CallInstruction, sig *types.Signature, regs []*Obj, res *Obj, method bool) {
	a.readAll(c, in, regs, 0)
	ps := sig.Params()
	for i := 0; i < ps.Len() && i < len(regs); i++ {
		n := ps.At(i).Name()
		if n == "dst" || n == "inds" || n == "out" {
			a.accessArg(c, in, regs[i], "", true)
			if res != nil && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), ps.At(i).Type()) {
				a.flow(a.node(regs[i], ""), a.node(res, ""), c.thread, nil)
			}
		}
	}
	a.callFuncArgs(c, in, sig, regs)
	if res != nil {
		a.freshTuple(c, in, res, sig.Results())
	}
}

// encode follows what a JSON encoder reads
func (a *An) encode(c *Ctx, in ssa.CallInstruction, r *Obj, p string) {
	a.on(a.node(r, p), func(l Loc) {
		if l.O.Kind == KBox {
			a.encWalk(c, in, Loc{l.O, l.Path, l.Via}, l.O.Type, 0, map[types.Type]bool{})
		} else {
			a.accessLoc(c, in, l, false, 0)
		}
	})
}

func (a *An) jsonMethod(t types.Type, name string) *ssa.Function {
	sel := a.Prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	fn := a.Prog.MethodValue(sel)
	if fn == nil || !a.transparent(fn) {
		return nil
	}
	return fn
}

// encWalk walks the cell l of type t
func (a *An) encWalk(c *Ctx, in ssa.CallInstruction, l Loc, t types.Type, d int, seen map[types.Type]bool) {
	if d > 10 {
		return
	}
	if fn := a.jsonMethod(t, "MarshalJSON"); fn != nil {
		r := a.obj(c, in, "enc"+strconv.Itoa(l.O.ID)+l.Path, KReg, nil)
		a.load(l, r, "", t, c.thread)
		a.enterRegs(c, in, fn, []*Obj{r}, nil, nil)
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		key := "encp" + strconv.Itoa(l.O.ID) + l.Path
		_ = key
		a.on(a.node(l.O, l.Path), func(m Loc) {
			if m.Via == nil {
				m.Via = l.Via
			}
			a.access(c, in, m, false, false)
			if fn := a.jsonMethod(u.Elem(), "MarshalJSON"); fn != nil {
				a.encWalk(c, in, m, u.Elem(), d+1, seen)
				return
			}
			a.encWalk(c, in, m, u.Elem(), d+1, seen)
		})
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Exported() {
				a.encWalk(c, in, Loc{l.O, l.Path + "." + strconv.Itoa(i), l.Via}, u.Field(i).Type(), d+1, seen)
			}
		}
	case *types.Slice:
		a.on(a.node(l.O, l.Path), func(m Loc) {
			if m.Via == nil {
				m.Via = l.Via
			}
			m.Path += "[]"
			a.access(c, in, m, false, false)
			a.encWalk(c, in, m, u.Elem(), d+1, seen)
		})
	case *types.Array:
		a.encWalk(c, in, Loc{l.O, l.Path + "[]", l.Via}, u.Elem(), d+1, seen)
	case *types.Map:
		a.on(a.node(l.O, l.Path), func(m Loc) {
			m.Path += "[v]"
			a.access(c, in, m, false, false)
			a.encWalk(c, in, m, u.Elem(), d+1, seen)
		})
	case *types.Interface:
		a.on(a.node(l.O, l.Path), func(m Loc) {
			if m.O.Kind == KBox {
				a.encWalk(c, in, m, m.O.Type, d+1, seen)
			}
		})
	}
}

// decode follows what a JSON decoder writes
func (a *An) decode(c *Ctx, in ssa.CallInstruction, r *Obj, p string) {
	a.on(a.node(r, p), func(l Loc) {
		if l.O.Kind != KBox {
			a.accessLoc(c, in, l, true, 0)
			return
		}
		pt, ok := l.O.Type.Underlying().(*types.Pointer)
		if !ok {
			return
		}
		a.on(a.node(l.O, l.Path), func(m Loc) {
			if m.Via == nil {
				m.Via = l.Via
			}
			a.decCell(c, in, m, pt.Elem(), 0)
		})
	})
}

// decCell fills the cell l of type t with decoded data
func (a *An) decCell(c *Ctx, in ssa.CallInstruction, l Loc, t types.Type, d int) {
	if d > 10 {
		return
	}
	if fn := a.jsonMethod(types.NewPointer(t), "UnmarshalJSON"); fn != nil {
		r := a.obj(c, in, "dec"+strconv.Itoa(l.O.ID)+l.Path, KReg, nil)
		a.add(a.node(r, ""), l)
		dr := a.obj(c, in, "decdata", KReg, nil)
		a.freshReg(c, in, dr, types.NewSlice(types.Typ[types.Byte]))
		a.enterRegs(c, in, fn, []*Obj{r, dr}, nil, nil)
		return
	}
	a.access(c, in, l, true, false)
	nw := func(kind string, ot types.Type) *Obj {
		o := a.obj(c, in, "decoded"+kind+types.TypeString(ot, nil)+strconv.Itoa(l.O.ID)+l.Path, KAlloc, ot)
		return o
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		o := nw("p", u.Elem())
		a.add(a.node(l.O, l.Path), Loc{O: o})
		a.decCell(c, in, Loc{O: o}, u.Elem(), d+1)
	case *types.Slice:
		o := nw("s", t)
		a.add(a.node(l.O, l.Path), Loc{O: o})
		a.on(a.node(l.O, l.Path), func(m Loc) { // existing storage is reused
			a.decCell(c, in, Loc{m.O, m.Path + "[]", m.Via}, u.Elem(), d+1)
		})
	case *types.Map:
		o := nw("m", t)
		a.add(a.node(l.O, l.Path), Loc{O: o})
		a.on(a.node(l.O, l.Path), func(m Loc) {
			a.decCell(c, in, Loc{m.O, m.Path + "[v]", m.Via}, u.Elem(), d+1)
		})
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Exported() {
				a.decCell(c, in, Loc{l.O, l.Path + "." + strconv.Itoa(i), l.Via}, u.Field(i).Type(), d+1)
			}
		}
	case *types.Array:
		a.decCell(c, in, Loc{l.O, l.Path + "[]", l.Via}, u.Elem(), d+1)
	}
}
