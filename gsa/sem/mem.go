package sem

import (
	"go/types"
)

// Mem is a persistent store: one map per region (struct field, element type,
// cell type or model region)
type Mem struct {
	loop *Loop // header memory of this loop, nil for function entry
	m    map[string]*Map
}

type mapKind int

const (
	mInit mapKind = iota
	mHdr
	mStore
	mMerge
	mCopy
	mDef
	mExit
	mHavoc
)

// Map is the content of one region
type Map struct {
	kind   mapKind
	prev   *Map
	key    *T // store: key; def: base object; havoc: base object
	val    *T // store: value; def: abstraction
	two    bool
	guard  *T // merge
	b      *Map
	dst    *T // copy: destination base, offset, count, source base, offset
	dOff   *T
	n      *T
	src    *T
	sOff   *T
	srcMap func(key, i *T) *T
	fldAux string
	loop   *Loop
	memo   map[int]*T
	touch  map[*Loop]bool
}

var initMaps = map[string]*Map{}

func initMap(r string) *Map {
	if m := initMaps[r]; m != nil {
		return m
	}
	m := &Map{kind: mInit}
	initMaps[r] = m
	return m
}

func newMem() *Mem { return &Mem{m: map[string]*Map{}} }

func (m *Mem) get(r string) *Map {
	if x, ok := m.m[r]; ok {
		return x
	}
	if m.loop != nil {
		return m.loop.hdrMap(r)
	}
	return initMap(r)
}

func (m *Mem) set(r string, x *Map) *Mem {
	n := &Mem{loop: m.loop, m: make(map[string]*Map, len(m.m)+1)}
	for k, v := range m.m {
		n.m[k] = v
	}
	n.m[r] = x
	return n
}

func (m *Mem) store(r string, key, val *T) *Mem {
	if key.Op == "ite" {
		// store through a conditional address
		return m.condStore(r, key, val)
	}
	return m.set(r, &Map{kind: mStore, prev: m.get(r), key: key, val: val})
}

func (m *Mem) condStore(r string, key, val *T) *Mem {
	if key.Op != "ite" {
		if key == Nil {
			return m
		}
		return m.store(r, key, val)
	}
	a := m.condStore(r, key.Args[1], val)
	b := m.condStore(r, key.Args[2], val)
	return m.set(r, &Map{kind: mMerge, guard: atomT(key.Args[0]), prev: a.get(r), b: b.get(r)})
}

func mergeMem(g *T, a, b *Mem) *Mem {
	if a == b || g == True {
		return a
	}
	if g == False {
		return b
	}
	n := &Mem{loop: a.loop, m: map[string]*Map{}}
	for k, v := range a.m {
		w := b.get(k)
		if v == w {
			n.m[k] = v
		} else {
			n.m[k] = &Map{kind: mMerge, guard: g, prev: v, b: w}
		}
	}
	for k, w := range b.m {
		if _, ok := a.m[k]; ok {
			continue
		}
		v := a.get(k)
		if v == w {
			n.m[k] = v
		} else {
			n.m[k] = &Map{kind: mMerge, guard: g, prev: v, b: w}
		}
	}
	return n
}

// sel reads a region
func (ev *Eval) sel(m *Map, r string, key *T) *T {
	if key.Op == "ite" {
		return liftN([]*T{key}, func(a []*T) *T { return ev.sel(m, r, a[0]) })
	}
	if v, ok := m.memo[key.id]; ok {
		return v
	}
	v := ev.sel1(m, r, key)
	if m.memo == nil {
		m.memo = map[int]*T{}
	}
	m.memo[key.id] = v
	return v
}

func (ev *Eval) sel1(m *Map, r string, key *T) *T {
	switch m.kind {
	case mInit:
		return ev.initVal(r, key)
	case mHdr:
		if m.loop.fresh[r] && m.loop.pre != nil && isInitialRef(key) {
			return ev.sel(m.loop.pre.get(r), r, key) // the loop writes elsewhere
		}
		if root := rootOf(key); root.Op == "new" {
			for _, a := range root.Args {
				if a == m.loop.t {
					return ev.initVal(r, key) // allocated in this very turn
				}
			}
		}
		return ev.wrap(mk("hdr", r, []*T{m.loop.mark, key}, ev.regionNum(r)), ev.regType[r])
	case mStore:
		c := eqKey(key, m.key)
		if c == True {
			return m.val
		}
		if c == False {
			return ev.sel(m.prev, r, key)
		}
		// where the keys agree the value may speak of either
		return Ite(c, substTerm(m.val, m.key, key), ev.sel(m.prev, r, key))
	case mMerge:
		return Ite(m.guard, ev.sel(m.prev, r, key), ev.sel(m.b, r, key))
	case mCopy:
		c, i := dstMatch(m.dst, key)
		if c == nil || c == False {
			return ev.sel(m.prev, r, key)
		}
		rel := Sub(i, m.dOff)
		c = And(c, And(Ge(rel, Zero), Lt(rel, m.n)))
		if c == False {
			return ev.sel(m.prev, r, key)
		}
		v := m.srcMap(key, Add(rel, m.sOff))
		if c == True {
			return v
		}
		return Ite(c, v, ev.sel(m.prev, r, key))
	case mDef:
		if m.two {
			if key.Op != "mij" {
				return ev.sel(m.prev, r, key)
			}
			c := eqKey(key.Args[0], m.key)
			if c == False {
				return ev.sel(m.prev, r, key)
			}
			v := applyLam(applyLam(m.val, key.Args[1]), key.Args[2])
			if c == True {
				return v
			}
			return Ite(c, v, ev.sel(m.prev, r, key))
		}
		b, i := splitIdx(key)
		if b == nil {
			return ev.sel(m.prev, r, key)
		}
		c := eqKey(b, m.key)
		if c == False {
			return ev.sel(m.prev, r, key)
		}
		v := applyLam(m.val, i)
		if isBoolType(ev.regType[r]) {
			v = BoolTerm(v)
		}
		if c == True {
			return v
		}
		return Ite(c, v, ev.sel(m.prev, r, key))
	case mHavoc:
		root := rootOf(key)
		c := eqKey(root, m.key)
		if c == False {
			return ev.sel(m.prev, r, key)
		}
		v := ev.initVal(r, replaceRoot(key, m.val))
		if c == True {
			return v
		}
		return Ite(c, v, ev.sel(m.prev, r, key))
	case mExit:
		return m.loop.final(ev.sel(m.prev, r, key))
	}
	panic("map kind")
}

func applyLam(l, x *T) *T {
	if l.Op == "ite" {
		return liftN([]*T{l}, func(a []*T) *T { return applyLam(a[0], x) })
	}
	if x.Op == "ite" {
		return liftN([]*T{x}, func(a []*T) *T { return applyLam(l, a[0]) })
	}
	return openLam(l, x)
}

func replaceRoot(key, root *T) *T {
	switch key.Op {
	case "fld", "idx", "mij", "base", "vecdata", "matrow", "arr", "matdata":
		args := append([]*T{}, key.Args...)
		args[0] = replaceRoot(args[0], root)
		return mk(key.Op, key.Aux, args, key.num)
	}
	return root
}

func splitIdx(key *T) (*T, *T) {
	for key.Op == "fld" {
		key = key.Args[0]
	}
	if key.Op == "idx" {
		return key.Args[0], key.Args[1]
	}
	return nil, nil
}

// dstMatch tells when a key lies in the sequence with base dst, and where
func dstMatch(dst, key *T) (c, i *T) {
	if key.Op == "mij" {
		switch dst.Op {
		case "matrow":
			return And(eqKey(key.Args[0], dst.Args[0]), Eq(key.Args[1], dst.Args[1])), key.Args[2]
		case "vecdata":
			return eqKey(key.Args[0], dst.Args[0]), key.Args[1]
		}
		return nil, nil
	}
	b, i := splitIdx(key)
	if b == nil || dst.Op == "matrow" || dst.Op == "vecdata" {
		return nil, nil
	}
	return eqKey(b, dst), i
}

func mkSlice(a []*T) *T { return Op("slice", "", NotNum, a...) }

// setIdx replaces base and index of an element key, keeping field selectors
func setIdx(key, base, i *T) *T {
	if key.Op == "fld" {
		return Op("fld", key.Aux, NotNum, setIdx(key.Args[0], base, i))
	}
	return Op("idx", "", NotNum, base, i)
}

func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func numOf(t types.Type) int {
	if t == nil {
		return NotNum
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		if b.Info()&types.IsInteger != 0 {
			return IntNum
		}
		if b.Info()&types.IsNumeric != 0 {
			return RealNum
		}
	}
	return NotNum
}

func (ev *Eval) regionNum(r string) int { return numOf(ev.regType[r]) }

// initVal is the content of a region before the analysed code ran
func (ev *Eval) initVal(r string, key *T) *T {
	t := ev.regType[r]
	if r == "lrem" {
		return False // what is in a list at first has not been removed
	}
	if rootOf(key).Op == "new" {
		return ev.zero(t)
	}
	return ev.wrap(mk("ld", r, []*T{key}, numOf(t)), t)
}

// wrap gives an opaque value the shape of its type
func (ev *Eval) wrap(v *T, t types.Type) *T {
	if t == nil {
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if v.Op == "hdr" {
			return hdrSlice(v)
		}
		return mkSlice([]*T{mk("base", "", []*T{v}, NotNum), Zero, mk("len", "", []*T{v}, IntNum)})
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return BoolTerm(v)
		}
	case *types.Struct:
		if ev.isModelStruct(t) {
			args := make([]*T, u.NumFields())
			for i := range args {
				ft := u.Field(i).Type()
				args[i] = ev.wrap(mk("field", u.Field(i).Name(), []*T{v}, numOf(ft)), ft)
			}
			return mk("struct", "", args, NotNum)
		}
	}
	return v
}

func nilSlice() *T { return mkSlice([]*T{Nil, Zero, Zero}) }

func (ev *Eval) zero(t types.Type) *T {
	if t == nil {
		return Zero
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&types.IsNumeric != 0:
			return Zero
		}
		return Nil
	case *types.Slice:
		return nilSlice()
	case *types.Struct:
		if ev.isModelStruct(t) {
			args := make([]*T, u.NumFields())
			for i := range args {
				args[i] = ev.zero(u.Field(i).Type())
			}
			return mk("struct", "", args, NotNum)
		}
		return mk("zero", types.TypeString(t, nil), nil, NotNum)
	case *types.Array:
		return mk("zero", types.TypeString(t, nil), nil, NotNum)
	}
	return Nil
}
