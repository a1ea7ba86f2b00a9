// Package sem computes canonical values (value numbers) for the results,
// memory effects and events of Go functions given in SSA form. It is a gated
// global value numbering: conditionals become ordered decision diagrams,
// arithmetic becomes polynomials, and loops become sums, last assignments,
// searches and compactions. Nothing is executed and no solver is involved;
// two values agree when their normal forms are the same node.
package sem

import (
	"fmt"
	"math/big"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// NumKind tells how a term is used in arithmetic
const (
	NotNum = iota
	IntNum
	RealNum
)

// T is one hash-consed term
type T struct {
	id   int
	Op   string
	Aux  string
	Args []*T
	poly []mono // op "poly"
	k    *big.Rat
	num  int
	vars []int // sorted ids of free symbols (loop counters, loop header marks)
	hgt  int   // largest bound variable index used by binders inside
	neg  bool  // for "thr": strict
}

type factor struct {
	a *T
	e int
}

type mono struct {
	c  *big.Rat
	fs []factor
}

// ID returns the identity of the term
func (t *T) ID() int { return t.id }

var (
	table  = map[string]*T{}
	nextID = 1
	True   *T
	False  *T
	Nil    *T
	Inf    *T
	Zero   *T
	One    *T
)

var ratZero = new(big.Rat)
var ratOne = big.NewRat(1, 1)

func init() { resetTable() }

func resetTable() {
	table = map[string]*T{}
	True = mk("true", "", nil, NotNum)
	False = mk("false", "", nil, NotNum)
	Nil = mk("nil", "", nil, NotNum)
	Inf = mk("inf", "", nil, IntNum)
	Zero = Const(ratZero)
	One = Const(ratOne)
}

func mergeVars(lists ...[]int) []int {
	n := 0
	var only []int
	for _, l := range lists {
		if len(l) > 0 {
			n++
			only = l
		}
	}
	if n == 0 {
		return nil
	}
	if n == 1 {
		return only
	}
	m := map[int]bool{}
	for _, l := range lists {
		for _, v := range l {
			m[v] = true
		}
	}
	res := make([]int, 0, len(m))
	for v := range m {
		res = append(res, v)
	}
	sort.Ints(res)
	return res
}

// Deadline is the time at which an evaluation gives up, if set
var Deadline time.Time

// the evaluation gives up rather than fill the memory
var tooBig atomic.Bool

func init() {
	go func() {
		var m runtime.MemStats
		for range time.Tick(500 * time.Millisecond) {
			runtime.ReadMemStats(&m)
			tooBig.Store(m.HeapAlloc > 8<<30)
		}
	}()
}

func checkTime() {
	if tooBig.Load() {
		panic("memory limit")
	}
	if !Deadline.IsZero() && time.Now().After(Deadline) {
		Deadline = time.Time{}
		panic("time limit")
	}
}

func mk(op, aux string, args []*T, num int) *T {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte(byte('0' + num))
	sb.WriteByte('|')
	sb.WriteString(aux)
	for _, a := range args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.id))
	}
	key := sb.String()
	if nextID&255 == 0 || len(table) == 0 {
		checkTime()
	}
	if t, ok := table[key]; ok {
		if len(assumedEq) > 0 {
			if r := assumedEq[t.id]; r != nil {
				return r
			}
		}
		return t
	}
	t := &T{id: nextID, Op: op, Aux: aux, Args: args, num: num}
	nextID++
	lists := make([][]int, len(args))
	for i, a := range args {
		lists[i] = a.vars
		if a.hgt > t.hgt {
			t.hgt = a.hgt
		}
	}
	t.vars = mergeVars(lists...)
	table[key] = t
	return t
}

// ---------------------------------------------------------------- symbols

var nextSym = 1

// facts about symbols used as loop counters: 0 <= v and v <= ub (when known)
type symFact struct {
	nonneg bool
	ub     *T
}

var symFacts = map[int]*symFact{}

// Sym makes a named symbol. It counts as free variable of terms containing it
func Sym(name string, num int) *T {
	t := mk("sym", name, nil, num)
	t.vars = []int{t.id}
	return t
}

// Fresh makes a new symbol that is different from all others
func Fresh(name string, num int) *T {
	nextSym++
	return Sym(name+"#"+strconv.Itoa(nextSym), num)
}

// FreshIndex makes a new non-negative integer symbol, below n if n is given
func FreshIndex(name string, n *T) *T {
	t := Fresh(name, IntNum)
	f := &symFact{nonneg: true}
	if n != nil && n != Inf {
		f.ub = Sub(n, One)
		if f.ub.Op == "ite" {
			f.ub = nil
		}
	}
	symFacts[t.id] = f
	return t
}

func setUpper(sym *T, ub *T) {
	if f := symFacts[sym.id]; f != nil && ub != nil && ub.Op != "ite" {
		f.ub = ub
	}
}

func (t *T) hasVar(id int) bool {
	i := sort.SearchInts(t.vars, id)
	return i < len(t.vars) && t.vars[i] == id
}

// Has tells if symbol s occurs in t
func (t *T) Has(s *T) bool { return t.hasVar(s.id) }

func bv(k int) *T {
	t := mk("bv", strconv.Itoa(k), nil, IntNum)
	t.vars = []int{t.id}
	return t
}

// ---------------------------------------------------------------- polynomials

func Const(r *big.Rat) *T {
	if r.Sign() == 0 {
		return mkPoly(nil)
	}
	return mkPoly([]mono{{c: r}})
}

// Int makes an integer constant
func Int(i int64) *T { return Const(big.NewRat(i, 1)) }

func (t *T) isNum() bool { return t.Op == "poly" || t.num != NotNum }

// ConstVal returns the value of a constant
func (t *T) ConstVal() (*big.Rat, bool) {
	if t.Op != "poly" {
		return nil, false
	}
	if len(t.poly) == 0 {
		return ratZero, true
	}
	if len(t.poly) == 1 && len(t.poly[0].fs) == 0 {
		return t.poly[0].c, true
	}
	return nil, false
}

func monoKey(fs []factor) string {
	var sb strings.Builder
	for _, f := range fs {
		sb.WriteString(strconv.Itoa(f.a.id))
		sb.WriteByte('^')
		sb.WriteString(strconv.Itoa(f.e))
		sb.WriteByte('*')
	}
	return sb.String()
}

func monoLess(a, b []factor) bool {
	// constant first, then by number of factors, then by ids
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i].a.id != b[i].a.id {
			return a[i].a.id < b[i].a.id
		}
		if a[i].e != b[i].e {
			return a[i].e < b[i].e
		}
	}
	return false
}

func mkPoly(ms []mono) *T {
	// merge
	idx := map[string]int{}
	var out []mono
	for _, m := range ms {
		k := monoKey(m.fs)
		if i, ok := idx[k]; ok {
			out[i].c = new(big.Rat).Add(out[i].c, m.c)
		} else {
			idx[k] = len(out)
			out = append(out, mono{c: m.c, fs: m.fs})
		}
	}
	w := 0
	for _, m := range out {
		if m.c.Sign() != 0 {
			out[w] = m
			w++
		}
	}
	out = out[:w]
	sort.Slice(out, func(i, j int) bool { return monoLess(out[i].fs, out[j].fs) })
	if len(out) == 1 && len(out[0].fs) == 1 && out[0].fs[0].e == 1 && out[0].c.Cmp(ratOne) == 0 {
		return out[0].fs[0].a
	}
	var sb strings.Builder
	sb.WriteString("poly")
	for _, m := range out {
		sb.WriteByte('|')
		sb.WriteString(m.c.RatString())
		sb.WriteByte('*')
		sb.WriteString(monoKey(m.fs))
	}
	key := sb.String()
	if t, ok := table[key]; ok {
		return t
	}
	t := &T{id: nextID, Op: "poly", poly: out, num: IntNum}
	nextID++
	var lists [][]int
	for _, m := range out {
		if !m.c.IsInt() {
			t.num = RealNum
		}
		for _, f := range m.fs {
			lists = append(lists, f.a.vars)
			if f.a.hgt > t.hgt {
				t.hgt = f.a.hgt
			}
			if f.a.num != IntNum || f.e < 0 {
				t.num = RealNum
			}
		}
	}
	t.vars = mergeVars(lists...)
	table[key] = t
	return t
}

func monos(t *T) []mono {
	if t.Op == "poly" {
		return t.poly
	}
	return []mono{{c: ratOne, fs: []factor{{t, 1}}}}
}

type binKey struct {
	op   byte
	a, b int
}

var binMemo = map[binKey]*T{}

func lift2(op byte, a, b *T, f func(a, b *T) *T) *T {
	if a.Op != "ite" && b.Op != "ite" {
		return f(a, b)
	}
	k := binKey{op, a.id, b.id}
	if r, ok := binMemo[k]; ok {
		return r
	}
	top := topAtom(a, b)
	a1, a0 := cof(a, top)
	b1, b0 := cof(b, top)
	r := node(top, lift2(op, a1, b1, f), lift2(op, a0, b0, f))
	binMemo[k] = r
	return r
}

// Add returns a+b
func Add(a, b *T) *T {
	return lift2('+', a, b, func(a, b *T) *T {
		if a == Inf || b == Inf {
			return Inf
		}
		ms := make([]mono, 0, 8)
		ms = append(ms, monos(a)...)
		ms = append(ms, monos(b)...)
		return mkPoly(ms)
	})
}

// Neg returns -a
func Neg(a *T) *T { return Mul(Int(-1), a) }

// Sub returns a-b
func Sub(a, b *T) *T { return Add(a, Neg(b)) }

func mulMono(x, y mono) mono {
	c := new(big.Rat).Mul(x.c, y.c)
	var fs []factor
	i, j := 0, 0
	for i < len(x.fs) || j < len(y.fs) {
		switch {
		case j == len(y.fs) || (i < len(x.fs) && x.fs[i].a.id < y.fs[j].a.id):
			fs = append(fs, x.fs[i])
			i++
		case i == len(x.fs) || y.fs[j].a.id < x.fs[i].a.id:
			fs = append(fs, y.fs[j])
			j++
		default:
			e := x.fs[i].e + y.fs[j].e
			if e != 0 {
				fs = append(fs, factor{x.fs[i].a, e})
			}
			i++
			j++
		}
	}
	return mono{c, fs}
}

// Mul returns a*b
func Mul(a, b *T) *T {
	return lift2('*', a, b, func(a, b *T) *T {
		if a == Inf || b == Inf {
			return Inf
		}
		var ms []mono
		for _, x := range monos(a) {
			for _, y := range monos(b) {
				ms = append(ms, mulMono(x, y))
			}
		}
		// sqrt(x)^2 = x
		for i, m := range ms {
			for j, f := range m.fs {
				if f.a.Op == "fn" && f.a.Aux == "sqrt" && f.e >= 2 {
					rest := mono{m.c, nil}
					for l, g := range m.fs {
						if l != j {
							rest.fs = append(rest.fs, g)
						} else if f.e > 2 {
							rest.fs = append(rest.fs, factor{f.a, f.e - 2})
						}
					}
					others := append(append([]mono{}, ms[:i]...), ms[i+1:]...)
					return Add(mkPoly(others), Mul(mkPoly([]mono{rest}), f.a.Args[0]))
				}
			}
		}
		return mkPoly(ms)
	})
}

// Div returns the real quotient a/b
func Div(a, b *T) *T {
	return lift2('/', a, b, func(a, b *T) *T { return Mul(a, inv(b)) })
}

func inv(b *T) *T {
	if c, ok := b.ConstVal(); ok {
		if c.Sign() == 0 {
			return mk("fn", "inv", []*T{b}, RealNum)
		}
		return Const(new(big.Rat).Inv(c))
	}
	ms := monos(b)
	if len(ms) == 1 {
		var fs []factor
		for _, f := range ms[0].fs {
			fs = append(fs, factor{f.a, -f.e})
		}
		return mkPoly([]mono{{c: new(big.Rat).Inv(ms[0].c), fs: fs}})
	}
	// normalise the leading coefficient and use the polynomial as an atom
	lead := ms[len(ms)-1].c
	norm := Mul(Const(new(big.Rat).Inv(lead)), b)
	at := mk("pa", "", []*T{norm}, RealNum)
	return mkPoly([]mono{{c: new(big.Rat).Inv(lead), fs: []factor{{at, -1}}}})
}

// IDiv is the integer quotient
func IDiv(a, b *T) *T {
	return lift2('q', a, b, func(a, b *T) *T {
		ca, oka := a.ConstVal()
		cb, okb := b.ConstVal()
		if oka && okb && cb.Sign() != 0 && ca.IsInt() && cb.IsInt() {
			return Const(new(big.Rat).SetInt(new(big.Int).Quo(ca.Num(), cb.Num())))
		}
		if okb && cb.Cmp(ratOne) == 0 {
			return a
		}
		return mk("idiv", "", []*T{a, b}, IntNum)
	})
}

// Mod is the integer remainder
func Mod(a, b *T) *T { return Sub(a, Mul(b, IDiv(a, b))) }

// ---------------------------------------------------------------- decisions

type famKey struct {
	fam  int
	kind int // 0 plain, 1 eq-constant, 2 threshold
}

func family(a *T) famKey {
	switch a.Op {
	case "thr":
		return famKey{a.Args[0].id, 2}
	case "eqc":
		return famKey{a.Args[0].id, 1}
	}
	return famKey{a.id, 0}
}

// atomCmp orders decision atoms
func atomCmp(a, b *T) int {
	if a == b {
		return 0
	}
	fa, fb := family(a), family(b)
	if fa.fam != fb.fam {
		return cmpInt(fa.fam, fb.fam)
	}
	if fa.kind != fb.kind {
		return cmpInt(fa.kind, fb.kind)
	}
	switch fa.kind {
	case 2:
		if c := a.k.Cmp(b.k); c != 0 {
			return c
		}
		if a.neg != b.neg {
			if !a.neg {
				return -1
			}
			return 1
		}
		return 0
	case 1:
		return cmpInt(a.Args[1].id, b.Args[1].id)
	}
	return cmpInt(a.id, b.id)
}

func cmpInt(a, b int) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}

func isAtom(t *T) bool { return t.Op != "ite" && t != True && t != False }

// topOf returns the top decision atom of a term, nil for leaves
func topOf(t *T) *T {
	if t.Op == "ite" {
		return t.Args[0]
	}
	return nil
}

func topAtom(ts ...*T) *T {
	var best *T
	for _, t := range ts {
		a := topOf(t)
		if a == nil {
			continue
		}
		if best == nil || atomCmp(a, best) < 0 {
			best = a
		}
	}
	return best
}

// cof returns the cofactors of t (true, false) for an atom not below its top
func cof(t, a *T) (*T, *T) {
	top := topOf(t)
	if top == nil {
		return t, t
	}
	fa, ft := family(a), family(top)
	if fa != ft {
		return t, t
	}
	switch fa.kind {
	case 0:
		return t.Args[1], t.Args[2]
	case 1: // equal to one constant excludes the others
		hi := t
		if top == a {
			hi = t.Args[1]
		}
		for topOf(hi) != nil && family(topOf(hi)) == fa {
			if topOf(hi) == a {
				hi = hi.Args[1]
			} else {
				hi = hi.Args[2]
			}
		}
		lo := t
		if top == a {
			lo = t.Args[2]
		}
		return hi, lo
	}
	hi := t
	if top == a {
		hi = t.Args[1]
	}
	lo := t
	for topOf(lo) != nil && family(topOf(lo)) == fa {
		lo = lo.Args[2]
	}
	return hi, lo
}

func node(a, hi, lo *T) *T {
	if hi == lo {
		return hi
	}
	fa := family(a)
	if fa.kind == 2 {
		if h := topOf(hi); h != nil && family(h) == fa && hi.Args[2] == lo {
			return hi
		}
	}
	num := NotNum
	if hi.isNum() || lo.isNum() {
		num = IntNum
		if hi.num != IntNum || lo.num != IntNum {
			num = RealNum
		}
	}
	return mk("ite", "", []*T{a, hi, lo}, num)
}

var iteMemo = map[[3]int]*T{}

// boolean atoms are represented as ite(atom,true,false)
func atomT(a *T) *T { return mk("ite", "", []*T{a, True, False}, NotNum) }

// Ite is the conditional
func Ite(c, a, b *T) *T {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if c.Op != "ite" {
		c = atomT(c)
	}
	if a == True && b == False {
		return c
	}
	k := [3]int{c.id, a.id, b.id}
	if r, ok := iteMemo[k]; ok {
		return r
	}
	top := topAtom(c, a, b)
	c1, c0 := cof(c, top)
	a1, a0 := cof(a, top)
	b1, b0 := cof(b, top)
	r := node(top, Ite(c1, a1, b1), Ite(c0, a0, b0))
	iteMemo[k] = r
	return r
}

func Not(a *T) *T    { return Ite(a, False, True) }
func And(a, b *T) *T { return Ite(a, b, False) }
func Or(a, b *T) *T  { return Ite(a, True, b) }
func Implies(a, b *T) bool {
	return Ite(a, b, True) == True
}

// BoolTerm makes sure that a boolean valued atom is in diagram form
func BoolTerm(t *T) *T {
	if t == True || t == False || t.Op == "ite" {
		return t
	}
	return atomT(t)
}

// restrict fixes an atom of a diagram to a value
func restrict(t, a *T, val bool) *T {
	memo := map[int]*T{}
	var rec func(t *T) *T
	fa := family(a)
	rec = func(t *T) *T {
		top := topOf(t)
		if top == nil {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		var r *T
		decided, v := false, false
		ft := family(top)
		if top == a {
			decided, v = true, val
		} else if ft == fa {
			if fa.kind == 1 && val {
				decided, v = true, false
			}
			if fa.kind == 2 {
				c := atomCmp(top, a)
				if val && c < 0 { // a true implies smaller thresholds true
					decided, v = true, true
				}
				if !val && c > 0 {
					decided, v = true, false
				}
			}
		}
		switch {
		case decided && v:
			r = rec(t.Args[1])
		case decided:
			r = rec(t.Args[2])
		default:
			r = node(top, rec(t.Args[1]), rec(t.Args[2]))
		}
		memo[t.id] = r
		return r
	}
	return rec(t)
}

// Constrain simplifies t to the cases where c holds. The result depends only
// on the value of t where c holds.
func Constrain(t, c *T) *T {
	if c == True || c == False {
		return t
	}
	memo := map[[2]int]*T{}
	var rec func(t, c *T) *T
	rec = func(t, c *T) *T {
		if c == True || topOf(t) == nil {
			return t
		}
		k := [2]int{t.id, c.id}
		if r, ok := memo[k]; ok {
			return r
		}
		top := topAtom(t, c)
		t1, t0 := cof(t, top)
		c1, c0 := cof(c, top)
		var r *T
		switch {
		case c1 == False:
			r = rec(t0, c0)
		case c0 == False:
			r = rec(t1, c1)
		default:
			r = node(top, rec(t1, c1), rec(t0, c0))
		}
		memo[k] = r
		return r
	}
	return rec(t, c)
}

// Atoms collects the decision atoms of a diagram
func Atoms(t *T) []*T {
	seen := map[int]bool{}
	in := map[int]bool{}
	var res []*T
	var rec func(t *T)
	rec = func(t *T) {
		if t.Op != "ite" || seen[t.id] {
			return
		}
		seen[t.id] = true
		if !in[t.Args[0].id] {
			in[t.Args[0].id] = true
			res = append(res, t.Args[0])
		}
		rec(t.Args[1])
		rec(t.Args[2])
	}
	rec(t)
	sort.Slice(res, func(i, j int) bool { return atomCmp(res[i], res[j]) < 0 })
	return res
}

// Leaves collects the leaves of a diagram
func Leaves(t *T) []*T {
	seen := map[int]bool{}
	var res []*T
	var rec func(t *T)
	rec = func(t *T) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.Op != "ite" {
			res = append(res, t)
			return
		}
		rec(t.Args[1])
		rec(t.Args[2])
	}
	rec(t)
	return res
}

// MapLeaves applies f to every leaf
func MapLeaves(t *T, f func(*T) *T) *T {
	memo := map[int]*T{}
	var rec func(t *T) *T
	rec = func(t *T) *T {
		if t.Op != "ite" {
			return f(t)
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		r := Ite(atomT(t.Args[0]), rec(t.Args[1]), rec(t.Args[2]))
		memo[t.id] = r
		return r
	}
	return rec(t)
}

// ---------------------------------------------------------------- comparisons

func ceilRat(r *big.Rat) *big.Rat {
	if r.IsInt() {
		return r
	}
	q := new(big.Int).Div(r.Num(), r.Denom()) // floor for positive denominators
	q.Add(q, big.NewInt(1))
	return new(big.Rat).SetInt(q)
}

func floorRat(r *big.Rat) *big.Rat {
	if r.IsInt() {
		return r
	}
	return new(big.Rat).SetInt(new(big.Int).Div(r.Num(), r.Denom()))
}

// Ge is a>=b
func Ge(a, b *T) *T { return cmp0(Sub(a, b), false) }

// Gt is a>b
func Gt(a, b *T) *T { return cmp0(Sub(a, b), true) }

// Lt is a<b
func Lt(a, b *T) *T { return Gt(b, a) }

// Le is a<=b
func Le(a, b *T) *T { return Ge(b, a) }

// cmp0 is d>=0 or d>0
func cmp0(d *T, strict bool) *T {
	if d.Op == "ite" {
		return MapLeaves(d, func(l *T) *T { return cmp0(l, strict) })
	}
	if d == Inf {
		return True
	}
	if c, ok := d.ConstVal(); ok {
		if c.Sign() > 0 || (c.Sign() == 0 && !strict) {
			return True
		}
		return False
	}
	ms := monos(d)
	for _, m := range ms {
		for _, f := range m.fs {
			if f.a == Inf {
				if m.c.Sign() > 0 {
					return True
				}
				return False
			}
		}
	}
	c := ratZero
	var rest []mono
	for _, m := range ms {
		if len(m.fs) == 0 {
			c = m.c
		} else {
			rest = append(rest, m)
		}
	}
	f := mkPoly(rest)
	isInt := true
	for _, m := range rest {
		for _, g := range m.fs {
			if g.a.num != IntNum || g.e < 0 {
				isInt = false
			}
		}
	}
	lead := rest[len(rest)-1].c
	scale := new(big.Rat).Inv(lead)
	if isInt {
		// divide by the content
		g := new(big.Int)
		l := big.NewInt(1)
		for _, m := range rest {
			t := new(big.Int).GCD(nil, nil, l, m.c.Denom())
			l = new(big.Int).Div(new(big.Int).Mul(l, m.c.Denom()), t)
		}
		for _, m := range rest {
			v := new(big.Rat).Mul(m.c, new(big.Rat).SetInt(l))
			g.GCD(nil, nil, g, new(big.Int).Abs(v.Num()))
		}
		scale = new(big.Rat).SetFrac(l, g)
		if lead.Sign() < 0 {
			scale.Neg(scale)
		}
	}
	f = Mul(Const(scale), f)
	k := new(big.Rat).Mul(c, scale)
	k.Neg(k) // f*sign >= k
	if scale.Sign() > 0 {
		return thr(f, k, strict, isInt)
	}
	// f <= k  ->  not f > k ;  f < k -> not f >= k
	return Not(thr(f, k, !strict, isInt))
}

func thr(f *T, k *big.Rat, strict, isInt bool) *T {
	if isInt {
		if strict {
			k = new(big.Rat).Add(floorRat(k), ratOne)
			strict = false
		} else {
			k = ceilRat(k)
		}
	}
	if lo := lowerBound(f); lo != nil {
		c := lo.Cmp(k)
		if c > 0 || (c == 0 && !strict) {
			return True
		}
	}
	if hi := upperBound(f); hi != nil {
		c := hi.Cmp(k)
		if c < 0 || (c == 0 && strict) {
			return False
		}
	}
	return atomT(thrAtom(f, k, strict))
}

func thrAtom(f *T, k *big.Rat, strict bool) *T {
	s := ">="
	if strict {
		s = ">"
	}
	t := mk("thr", s+k.RatString(), []*T{f}, NotNum)
	t.k = k
	t.neg = strict
	return t
}

// Eq is a==b
func Eq(a, b *T) *T {
	if a == b {
		return True
	}
	if a.Op == "ite" || b.Op == "ite" {
		if isBoolDiag(a) || isBoolDiag(b) {
			return Ite(a, BoolTerm(b), Not(b))
		}
		return lift2('=', a, b, Eq)
	}
	if a == True || a == False || b == True || b == False {
		return Ite(BoolTerm(a), BoolTerm(b), Not(BoolTerm(b)))
	}
	if a.isNum() || b.isNum() {
		d := Sub(a, b)
		return And(cmp0(d, false), Not(cmp0(d, true)))
	}
	return eqRef(a, b)
}

func isBoolDiag(t *T) bool {
	if t == True || t == False {
		return true
	}
	if t.Op != "ite" {
		return false
	}
	for t.Op == "ite" {
		t = t.Args[1]
	}
	return t == True || t == False
}

func isConstRef(t *T) bool {
	return t == Nil || t.Op == "str" || t.Op == "fnval" || t.Op == "glob"
}

// fresh objects are created by the analysed code, or by a callee
func isFreshRef(t *T) bool {
	switch t.Op {
	case "new":
		return true
	case "arr", "matdata":
		return isFreshRef(t.Args[0])
	}
	return false
}

func isInitialRef(t *T) bool {
	switch t.Op {
	case "sym", "bv":
		return !strings.HasPrefix(t.Aux, "hdr")
	case "ld", "base", "idx", "fld", "mij", "arr", "matdata", "vecdata", "matrow":
		return isInitialRef(rootOf(t.Args[0]))
	case "glob", "res", "json":
		return true
	case "unbox", "iface", "basep":
		return isInitialRef(t.Args[0])
	case "lelem":
		return true
	}
	return false
}

func rootOf(t *T) *T {
	for {
		switch t.Op {
		case "fld", "idx", "mij", "base", "vecdata", "matrow", "arr", "matdata":
			t = t.Args[0]
		default:
			return t
		}
	}
}

func neverNil(t *T) bool {
	switch t.Op {
	case "new", "lelem", "fnval", "str", "err", "closure", "glob", "slice", "iface", "idx", "fld", "nonnil", "basep":
		return true
	}
	return false
}

// eqRef compares references, keys, strings and other non-numeric values
func eqRef(a, b *T) *T {
	if a == b {
		return True
	}
	if a.Op == "ite" || b.Op == "ite" {
		return lift2('=', a, b, eqRef)
	}
	if a.isNum() && b.isNum() {
		return Eq(a, b)
	}
	if a.Op == "slice" && b == Nil {
		return eqRef(a.Args[0], Nil)
	}
	if b.Op == "slice" && a == Nil {
		return eqRef(b.Args[0], Nil)
	}
	if a.Op == "iface" && b.Op == "iface" {
		if a.Aux != b.Aux {
			return False
		}
		return eqRef(a.Args[0], b.Args[0])
	}
	if (a == Nil && neverNil(b)) || (b == Nil && neverNil(a)) {
		return False
	}
	if a.Op == "base" && b == Nil {
		return eqRef(a.Args[0], Nil)
	}
	if b.Op == "base" && a == Nil {
		return eqRef(b.Args[0], Nil)
	}
	same := a.Op == b.Op
	switch {
	case same && (a.Op == "idx" || a.Op == "mij" || a.Op == "new" || a.Op == "fld" || a.Op == "lelem" || a.Op == "vecdata" || a.Op == "matrow" || a.Op == "arr" || a.Op == "tuple" || a.Op == "matdata"):
		if a.Aux != b.Aux || len(a.Args) != len(b.Args) {
			if a.Op == "fld" && a.Aux != b.Aux {
				return False
			}
			if a.Op == "new" {
				return False
			}
			if len(a.Args) != len(b.Args) {
				return False
			}
		}
		r := True
		for i := range a.Args {
			r = And(r, Eq2(a.Args[i], b.Args[i]))
			if r == False {
				return False
			}
		}
		return r
	case isConstRef(a) && isConstRef(b):
		return False
	case isFreshRef(a) && isFreshRef(b):
		return False
	case isFreshRef(a) && isInitialRef(b), isFreshRef(b) && isInitialRef(a):
		return False
	case isFreshRef(a) && isConstRef(b), isFreshRef(b) && isConstRef(a):
		return False
	}
	if a.Op == "base" && b.Op == "base" && given(a) && given(b) {
		return eqKey(a, b)
	}
	if a.Op == "base" && b.Op == "base" && ownSlice(a, b) {
		return False
	}
	if ra, rb := rootOf(a), rootOf(b); ra.Op == "new" && rb.Op == "new" && (ra.Aux != rb.Aux || a.Op != b.Op && (a == ra || b == rb)) {
		return False
	} else if ra.Op == "new" && a != ra && isInitialRef(b) || rb.Op == "new" && b != rb && isInitialRef(a) {
		return False
	}
	ka, kb := keyKind(a), keyKind(b)
	if ka != "" && kb != "" && ka != kb {
		return False
	}
	if isConstRef(a) {
		a, b = b, a
	}
	if isConstRef(b) {
		return atomT(mk("eqc", "", []*T{a, b}, NotNum))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return atomT(mk("eq", "", []*T{a, b}, NotNum))
}

// eqKey compares the places of two memory cells. Pointers and slices that the
// caller handed in at different places are taken to be different objects.
func eqKey(a, b *T) *T {
	if a == b {
		return True
	}
	if a.Op == "ite" || b.Op == "ite" {
		return lift2('K', a, b, eqKey)
	}
	if a.isNum() && b.isNum() {
		return Eq(a, b)
	}
	if a.Op == b.Op {
		switch a.Op {
		case "idx", "mij", "new", "fld", "lelem", "vecdata", "matrow", "arr", "matdata", "base", "recv", "field", "unbox":
			if a.Aux != b.Aux || len(a.Args) != len(b.Args) {
				return False
			}
			if a.Op == "base" && (a.Args[0].Op == "hdr" || b.Args[0].Op == "hdr" || a.Args[0].Op == "phi" || b.Args[0].Op == "phi") {
				break
			}
			r := True
			for i := range a.Args {
				r = And(r, eqKey(a.Args[i], b.Args[i]))
				if r == False {
					return False
				}
			}
			return r
		case "ld":
			if a.Aux != b.Aux {
				return False
			}
			return eqKey(a.Args[0], b.Args[0])
		case "sym":
			if given(a) && given(b) {
				return False
			}
		}
	} else if given(a) && given(b) {
		return False
	}
	return eqRef(a, b)
}

// given tells that a reference comes from the caller
func given(t *T) bool {
	switch t.Op {
	case "sym":
		return len(t.Aux) > 1 && t.Aux[0] == 'p'
	case "ld", "base", "field", "unbox":
		return given(rootOf(t.Args[0]))
	case "recv":
		return true
	}
	return false
}

// Eq2 compares values of any kind
func Eq2(a, b *T) *T {
	if a.isNum() && b.isNum() {
		return Eq(a, b)
	}
	return eqRef(a, b)
}

func keyKind(t *T) string {
	switch t.Op {
	case "idx", "mij", "fld":
		return t.Op
	}
	return ""
}

// ---------------------------------------------------------------- bounds

func atomBounds(a *T) (lo, hi *big.Rat) {
	switch a.Op {
	case "pow2":
		return ratOne, nil
	case "len", "rows", "cols", "count", "llen", "nth", "first", "last", "bv", "idx", "ext0":
		return ratZero, nil
	case "fn":
		switch a.Aux {
		case "sqrt", "abs", "exp":
			return ratZero, nil
		}
	case "ld", "ith", "lget", "get":
		// singular values are not negative
		x := a.Args[0]
		for (x.Op == "idx" || x.Op == "base") && len(x.Args) > 0 {
			x = x.Args[0]
		}
		if x.Op == "call" && x.Aux == "svd.Values" {
			return ratZero, nil
		}
	case "sym":
		if f := symFacts[a.id]; f != nil && f.nonneg {
			return ratZero, nil
		}
	case "sum":
		if nonnegBody(a.Args[1].Args[0]) {
			return ratZero, nil
		}
	case "idiv":
		l0 := lowerBound(a.Args[0])
		l1 := lowerBound(a.Args[1])
		if l0 != nil && l0.Sign() >= 0 && l1 != nil && l1.Sign() >= 0 {
			return ratZero, nil
		}
	}
	return nil, nil
}

func nonnegBody(t *T) bool {
	for _, l := range Leaves(t) {
		lo := lowerBound(l)
		if lo == nil || lo.Sign() < 0 {
			return false
		}
	}
	return true
}

func lowerBound(f *T) *big.Rat { return boundOf(f, false, 4) }

func upperBound(f *T) *big.Rat {
	r := boundOf(f, true, 4)
	if r == nil {
		return nil
	}
	return new(big.Rat).Neg(r)
}

// boundOf computes a lower bound of f (or of -f)
func boundOf(f *T, negate bool, depth int) *big.Rat {
	if len(assumedLo)+len(assumedHi) > 0 {
		if negate {
			if h := assumedHi[f.id]; h != nil {
				return new(big.Rat).Neg(h)
			}
		} else if l := assumedLo[f.id]; l != nil {
			return l
		}
	}
	if f.Op == "ite" || depth == 0 {
		return nil
	}
	// replace counters by the end of their range that minimises the value
	for _, m := range monos(f) {
		if len(m.fs) != 1 || m.fs[0].e != 1 {
			continue
		}
		a := m.fs[0].a
		sf := symFacts[a.id]
		if a.Op != "sym" || sf == nil {
			continue
		}
		pos := m.c.Sign() > 0
		if negate {
			pos = !pos
		}
		if !pos {
			if sf.ub == nil {
				return nil
			}
			g := replaceLinear(f, a, m.c, sf.ub)
			if g == nil {
				return nil
			}
			return boundOf(g, negate, depth-1)
		}
	}
	sum := new(big.Rat)
	for _, m := range monos(f) {
		c := m.c
		if negate {
			c = new(big.Rat).Neg(c)
		}
		if len(m.fs) == 0 {
			sum.Add(sum, c)
			continue
		}
		if c.Sign() < 0 {
			return nil
		}
		if len(m.fs) == 1 && m.fs[0].e == 1 {
			if l := assumedLo[m.fs[0].a.id]; l != nil {
				sum.Add(sum, new(big.Rat).Mul(c, l))
				continue
			}
			if lo, _ := atomBounds(m.fs[0].a); lo != nil && lo.Sign() > 0 {
				sum.Add(sum, new(big.Rat).Mul(c, lo))
				continue
			}
		}
		for _, g := range m.fs {
			if g.e%2 == 0 {
				continue
			}
			lo, _ := atomBounds(g.a)
			if lo == nil || lo.Sign() < 0 {
				return nil
			}
		}
	}
	return sum
}

func replaceLinear(f, a *T, c *big.Rat, by *T) *T {
	var ms []mono
	for _, m := range monos(f) {
		if len(m.fs) == 1 && m.fs[0].a == a && m.fs[0].e == 1 {
			continue
		}
		for _, g := range m.fs {
			if g.a == a {
				return nil
			}
		}
		ms = append(ms, m)
	}
	return Add(mkPoly(ms), Mul(Const(c), by))
}

// ---------------------------------------------------------------- general operators

// Op builds an operator application and moves decisions out of the arguments
func Op(op, aux string, num int, args ...*T) *T {
	if op == "struct" || op == "tuple" || op == "closure" {
		return mk(op, aux, args, num)
	}
	for _, a := range args {
		if a.Op == "ite" {
			return liftN(args, func(as []*T) *T { return Op(op, aux, num, as...) })
		}
	}
	return simp(op, aux, num, args)
}

func liftN(args []*T, f func([]*T) *T) *T {
	top := topAtom(args...)
	if top == nil {
		return f(args)
	}
	hi := make([]*T, len(args))
	lo := make([]*T, len(args))
	for i, a := range args {
		hi[i], lo[i] = cof(a, top)
	}
	return Ite(atomT(top), liftN(hi, f), liftN(lo, f))
}

func isListOp(t *T) bool {
	switch t.Op {
	case "lempty", "lseq", "lpush", "lpushf", "lins", "lrm", "lcat", "lfilt":
		return true
	}
	return false
}

func simp(op, aux string, num int, args []*T) *T {
	switch op {
	case "unbox":
		if args[0].Op == "iface" {
			return args[0].Args[0]
		}
	case "iface":
		if args[0].Op == "unbox" && args[0].Aux == aux {
			return args[0].Args[0]
		}
	case "base":
		if args[0].Op == "slice" {
			return args[0].Args[0]
		}
	case "off":
		switch args[0].Op {
		case "slice":
			return args[0].Args[1]
		case "hdr", "phi":
		default:
			return Zero
		}
	case "len":
		if args[0].Op == "slice" {
			return args[0].Args[2]
		}
		if args[0].Op == "str" {
			s, _ := strconv.Unquote(args[0].Aux)
			return Int(int64(len(s)))
		}
	case "ext":
		if args[0].Op == "tuple" {
			i, _ := strconv.Atoi(aux)
			return args[0].Args[i]
		}
	case "fn":
		if aux == "abs" {
			return absT(args[0])
		}
	case "rows", "cols":
		if r := factorDim(op, args[0]); r != nil {
			return r
		}
	case "llen":
		if isListOp(args[0]) {
			return seqLen(args[0])
		}
	case "lelem":
		if isListOp(args[0]) {
			return lget(args[0], args[1])
		}
	case "lcat":
		if args[1] == Zero {
			return args[0]
		}
	case "lfilt":
		if args[2].Op == "lam" && args[2].Args[0] == True || args[1] == Zero {
			return args[0]
		}
	case "seq", "listv":
		if args[0] == Zero && args[1].Op == "lam" && args[1].Args[0] != Zero {
			return mk(op, aux, []*T{Zero, Lam(FreshIndex("i", nil), Zero)}, num)
		}
	case "ld":
		if aux == "F:list.Element.Value" {
			if v := listValue(args[0]); v != nil {
				return v
			}
		}
	}
	return mk(op, aux, args, num)
}

// factorDim is the size of a factor of a thin singular value decomposition: as
// many columns as there are singular values, as many rows as the matrix has
// rows (left) or columns (right). A decomposition that comes from outside is
// taken to be thin.
func factorDim(op string, v *T) *T {
	if v.Op != "call" || v.Aux != "svd.UTo" && v.Aux != "svd.VTo" {
		return nil
	}
	k := v.Args[0]
	if k.Op == "factor" {
		if len(k.Args) != 4 {
			return nil
		}
		if c, ok := k.Args[1].ConstVal(); !ok || c.Cmp(big.NewRat(5, 1)) != 0 {
			return nil
		}
		if op == "rows" {
			if v.Aux == "svd.UTo" {
				return k.Args[2]
			}
			return k.Args[3]
		}
	}
	if op == "cols" {
		return Op("len", "", IntNum, mk("call", "svd.Values", []*T{k}, NotNum))
	}
	return nil
}

func absT(x *T) *T {
	if c, ok := x.ConstVal(); ok {
		return Const(new(big.Rat).Abs(c))
	}
	if lo := lowerBound(x); lo != nil && lo.Sign() >= 0 {
		return x
	}
	ms := monos(x)
	if ms[len(ms)-1].c.Sign() < 0 {
		x = Neg(x)
	}
	return Ite(Ge(x, Zero), x, Neg(x))
}

// Fn applies a mathematical function
func Fn(name string, args ...*T) *T { return Op("fn", name, RealNum, args...) }

// Max2 and Min2
func Max2(a, b *T) *T {
	return lift2('M', a, b, func(a, b *T) *T {
		if knownGe(a, b) {
			return a
		}
		if knownGe(b, a) {
			return b
		}
		return Ite(Ge(a, b), a, b)
	})
}

func Min2(a, b *T) *T {
	return lift2('m', a, b, func(a, b *T) *T {
		if knownGe(a, b) {
			return b
		}
		if knownGe(b, a) {
			return a
		}
		return Ite(Le(a, b), a, b)
	})
}

// knownGe tells that a>=b always holds
func knownGe(a, b *T) bool {
	if a == Inf {
		return true
	}
	if b == Inf {
		return false
	}
	lo := lowerBound(Sub(a, b))
	return lo != nil && lo.Sign() >= 0
}

// Str makes a string constant
func Str(s string) *T { return mk("str", strconv.Quote(s), nil, NotNum) }

// ---------------------------------------------------------------- substitution

// Subst replaces symbols by terms and renormalises
func Subst(t *T, m map[*T]*T) *T {
	if len(m) == 0 {
		return t
	}
	s := &subst{m: m, memo: map[int]*T{}}
	for k := range m {
		s.ids = append(s.ids, k.vars...)
		s.keys = append(s.keys, k)
	}
	return s.do(t)
}

type subst struct {
	m    map[*T]*T
	ids  []int
	keys []*T
	memo map[int]*T
}

func (s *subst) touches(t *T) bool {
	for _, id := range s.ids {
		if t.hasVar(id) {
			return true
		}
	}
	return false
}

func (s *subst) do(t *T) *T {
	if !s.touches(t) {
		return t
	}
	if r, ok := s.m[t]; ok {
		return r
	}
	if r, ok := s.memo[t.id]; ok {
		return r
	}
	r := rebuild(t, s.do)
	s.memo[t.id] = r
	return r
}

// rebuild applies f to the immediate subterms and renormalises
func rebuild(t *T, f func(*T) *T) *T {
	switch t.Op {
	case "poly":
		r := Zero
		for _, m := range t.poly {
			p := Const(m.c)
			for _, g := range m.fs {
				x := f(g.a)
				e := g.e
				if e < 0 {
					x = Div(One, x)
					e = -e
				}
				for ; e > 0; e-- {
					p = Mul(p, x)
				}
			}
			r = Add(r, p)
		}
		return r
	case "pa":
		return f(t.Args[0])
	case "ite":
		return Ite(BoolTerm(f(t.Args[0])), f(t.Args[1]), f(t.Args[2]))
	case "thr":
		d := Sub(f(t.Args[0]), Const(t.k))
		return cmp0(d, t.neg)
	case "eq", "eqc":
		return Eq2(f(t.Args[0]), f(t.Args[1]))
	case "idiv":
		return IDiv(f(t.Args[0]), f(t.Args[1]))
	case "bit":
		return bitT(f(t.Args[0]), f(t.Args[1]))
	case "setbit", "clrbit", "flipbit":
		return setBit(t.Op, f(t.Args[0]), f(t.Args[1]))
	case "pow2":
		return pow2(f(t.Args[0]))
	case "sum", "any", "first", "last", "max", "min", "nth", "lam", "prod", "lx":
		return rebuildBinder(t, f)
	case "sym", "bv":
		return t
	case "ld":
		return Op("ld", t.Aux, t.num, f(t.Args[0]))
	}
	args := make([]*T, len(t.Args))
	for i, a := range t.Args {
		args[i] = f(a)
	}
	return Op(t.Op, t.Aux, t.num, args...)
}

// ---------------------------------------------------------------- printing

func (t *T) String() string {
	return show(t, 12)
}

func show(t *T, d int) string {
	if d == 0 {
		return "…"
	}
	switch t.Op {
	case "poly":
		if len(t.poly) == 0 {
			return "0"
		}
		var parts []string
		for _, m := range t.poly {
			s := ""
			c, _ := m.c.Float64()
			if len(m.fs) == 0 || m.c.Cmp(ratOne) != 0 {
				s = strconv.FormatFloat(c, 'g', 6, 64)
			}
			for _, f := range m.fs {
				if s != "" {
					s += "·"
				}
				s += show(f.a, d-1)
				if f.e != 1 {
					s += "^" + strconv.Itoa(f.e)
				}
			}
			parts = append(parts, s)
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(" + strings.Join(parts, " + ") + ")"
	case "ite":
		if t.Args[1] == True && t.Args[2] == False {
			return show(t.Args[0], d)
		}
		if t.Args[1] == False && t.Args[2] == True {
			return "!" + show(t.Args[0], d)
		}
		return "if{" + show(t.Args[0], d-1) + " ? " + show(t.Args[1], d-1) + " : " + show(t.Args[2], d-1) + "}"
	case "thr":
		return show(t.Args[0], d-1) + t.Aux
	case "eq", "eqc":
		return show(t.Args[0], d-1) + "==" + show(t.Args[1], d-1)
	case "sym":
		return t.Aux
	case "bv":
		return "$" + t.Aux
	case "str":
		return t.Aux
	case "true", "false", "nil", "inf":
		return t.Op
	case "ld":
		return show(t.Args[0], d)
	case "idx":
		return show(t.Args[0], d-1) + "[" + show(t.Args[1], d-1) + "]"
	case "fld":
		return show(t.Args[0], d-1) + "." + t.Aux[strings.LastIndexByte(t.Aux, '.')+1:]
	case "base", "pa", "unbox":
		return show(t.Args[0], d)
	case "lam":
		return "λ" + t.Aux + "." + show(t.Args[0], d-1)
	}
	var parts []string
	for _, a := range t.Args {
		parts = append(parts, show(a, d-1))
	}
	n := t.Op
	if t.Aux != "" {
		n += ":" + t.Aux
	}
	return fmt.Sprintf("%s(%s)", n, strings.Join(parts, ", "))
}

// ---------------------------------------------------------------- assumptions

var assumedLo = map[int]*big.Rat{} // f >= value
var assumedHi = map[int]*big.Rat{}

// Assume makes bounds that follow from a condition known for the rest of the
// evaluation; True forgets them
func Assume(c *T) {
	assumedLo = map[int]*big.Rat{}
	assumedHi = map[int]*big.Rat{}
	iteMemo = map[[3]int]*T{}
	binMemo = map[binKey]*T{}
	assumedEq = map[int]*T{}
	assumedAtoms = nil
	lo, hi, forms := boundsIn(c)
	assumedLo, assumedHi = lo, hi
	assumedEq, assumedAtoms = equationsIn(lo, hi, forms)
	iteMemo = map[[3]int]*T{}
	binMemo = map[binKey]*T{}
}

var (
	assumedEq    = map[int]*T{}
	assumedAtoms []*T
)

func boundsIn(c *T) (lo, hi map[int]*big.Rat, forms map[int]*T) {
	lo, hi = map[int]*big.Rat{}, map[int]*big.Rat{}
	forms = map[int]*T{}
	for t := c; t.Op == "ite"; {
		a := t.Args[0]
		if a.Op != "thr" {
			if t.Args[1] == False {
				t = t.Args[2]
			} else {
				t = t.Args[1]
			}
			continue
		}
		forms[a.Args[0].id] = a.Args[0]
		switch {
		case t.Args[2] == False:
			if !a.neg {
				if o := lo[a.Args[0].id]; o == nil || o.Cmp(a.k) < 0 {
					lo[a.Args[0].id] = a.k
				}
			}
			t = t.Args[1]
		case t.Args[1] == False:
			if isIntForm(a.Args[0]) && !a.neg {
				hi[a.Args[0].id] = new(big.Rat).Sub(a.k, ratOne)
			}
			t = t.Args[2]
		default:
			t = False
		}
	}
	// what is known anyway
	for id, f := range forms {
		if hi[id] != nil && lo[id] == nil {
			if l := lowerBound(f); l != nil && l.IsInt() {
				lo[id] = l
			}
		}
	}
	return
}

func equationsIn(lo, hi map[int]*big.Rat, forms map[int]*T) (map[int]*T, []*T) {
	eq := map[int]*T{}
	var atoms []*T
	// equations of integer quantities
	var ids []int
	for id := range lo {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		l := lo[id]
		h := hi[id]
		if h == nil || h.Cmp(l) != 0 || forms[id] == nil {
			continue
		}
		ms := monos(forms[id])
		var pick *T
		var coef *big.Rat
		for _, m := range ms {
			if len(m.fs) == 1 && m.fs[0].e == 1 && m.c.IsInt() && m.c.Num().IsInt64() && (m.c.Cmp(ratOne) == 0 || m.c.Cmp(big.NewRat(-1, 1)) == 0) {
				if a := m.fs[0].a; pick == nil || rankAtom(a) > rankAtom(pick) || rankAtom(a) == rankAtom(pick) && depthOf(a) > depthOf(pick) {
					pick, coef = a, m.c
				}
			}
		}
		if pick == nil {
			continue
		}
		// f = l  ->  pick = (l - (f - coef*pick))/coef
		rest := Sub(forms[id], Mul(Const(coef), pick))
		eq[pick.id] = Mul(Const(coef), Sub(Const(l), rest))
		atoms = append(atoms, pick)
	}
	return eq, atoms
}

// WithEquations rewrites terms with the equations that follow from a condition
func WithEquations(c *T) func(*T) *T {
	eq, atoms := equationsIn(boundsIn(c))
	return func(t *T) *T {
		for _, a := range atoms {
			if !containsTerm(eq[a.id], a) {
				t = substTerm(t, a, eq[a.id])
			}
		}
		return t
	}
}

// depthOf is the height of a term
func depthOf(t *T) int { return depthIn(t, map[*T]int{}) }

func depthIn(t *T, seen map[*T]int) int {
	if d, ok := seen[t]; ok {
		return d
	}
	d := 0
	for _, a := range t.Args {
		if x := depthIn(a, seen) + 1; x > d {
			d = x
		}
	}
	if t.poly != nil {
		for _, m := range monos(t) {
			for _, f := range m.fs {
				if x := depthIn(f.a, seen) + 1; x > d {
					d = x
				}
			}
		}
	}
	seen[t] = d
	return d
}

func rankAtom(a *T) int {
	switch a.Op {
	case "cols":
		return 3
	case "rows":
		return 2
	case "len":
		return 1
	}
	return 0
}

// Assumed rewrites a term with the equations assumed
func Assumed(t *T) *T {
	for _, a := range assumedAtoms {
		t = substTerm(t, a, assumedEq[a.id])
	}
	return t
}

func isIntForm(f *T) bool {
	for _, m := range monos(f) {
		if !m.c.IsInt() {
			return false
		}
		for _, g := range m.fs {
			if g.a.num != IntNum || g.e < 0 {
				return false
			}
		}
	}
	return true
}
