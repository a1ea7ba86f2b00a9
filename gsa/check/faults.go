package check

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"gsa/psim"
	"gsa/pta"

	"golang.org/x/tools/go/ssa"
)

// extName names a function outside the module: package path, receiver, name
func extName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		n := cc.Method.Name()
		if nt, ok := cc.Value.Type().(*types.Named); ok && nt.Obj().Pkg() != nil {
			return nt.Obj().Pkg().Path() + "." + nt.Obj().Name() + "." + n
		}
		return "." + n
	}
	f := cc.StaticCallee()
	if f == nil {
		return ""
	}
	o := f.Object()
	if o == nil || o.Pkg() == nil {
		return ""
	}
	r := ""
	if sig, ok := o.Type().(*types.Signature); ok && sig.Recv() != nil {
		t := sig.Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if nt, ok := t.(*types.Named); ok {
			r = nt.Obj().Name() + "."
		}
	}
	return o.Pkg().Path() + "." + r + o.Name()
}

// kind of a call that can fail
const (
	fOpen   = "opening"
	fRead   = "reading"
	fDecode = "decoding"
	fEncode = "encoding"
	fCreate = "creating"
	fWrite  = "writing"
	fPlot   = "plotting"
	fRun    = "running"
)

// fallible classifies calls outside the module that report failure by an error
func fallible(cc *ssa.CallCommon) string {
	sig := cc.Signature()
	rs := sig.Results()
	if rs.Len() == 0 || rs.At(rs.Len()-1).Type().String() != "error" {
		return ""
	}
	n := extName(cc)
	i := strings.LastIndex(n, "/")
	base := n[i+1:]
	switch base {
	case "os.Open", "os.OpenFile":
		if base == "os.OpenFile" {
			if k, ok := cc.Args[1].(*ssa.Const); !ok || k.Int64()&3 != 0 {
				return fCreate
			}
		}
		return fOpen
	case "os.Create", "os.Rename", "os.CreateTemp", "ioutil.TempFile":
		return fCreate
	case "os.ReadFile", "ioutil.ReadFile", "ioutil.ReadAll", "io.ReadAll", "os.File.Read", "csv.Reader.Read", "csv.Reader.ReadAll", "io.ReadFull", "bufio.Reader.ReadString", "bufio.Reader.ReadBytes", "bufio.Reader.ReadLine", "bufio.Scanner.Err", "io.Copy":
		return fRead
	case "json.Unmarshal", "json.Decoder.Decode", "strconv.ParseFloat", "strconv.Atoi", "strconv.ParseInt":
		return fDecode
	case "json.Marshal", "json.MarshalIndent":
		return fEncode
	case "json.Encoder.Encode":
		return fWrite
	case "os.WriteFile", "ioutil.WriteFile", "os.File.Write", "os.File.WriteString", "os.File.Sync", "bufio.Writer.Flush", "csv.Writer.Error", "csv.Writer.WriteAll", "io.WriteString", "plot.Plot.Save", "plot/vg.Save":
		return fWrite
	case "plot.New", "plotter.NewLine", "plotter.NewScatter", "plotter.NewLinePoints", "plotter.NewBarChart", "plotter.NewHistogram", "plot.Plot.WriterTo":
		return fPlot
	case "cobra.Command.Execute", "cobra.Command.ExecuteC", "go-homedir.Dir", "go-homedir.Expand", "os.UserHomeDir":
		return fRun
	case "os.File.Close":
		return "close"
	}
	return ""
}

var announces = regexp.MustCompile(`(?i)\b(written|wrote|saved|stored)\b`)

// faults follows one root with every fallible operation succeeding or, once
// per path, failing
type faults struct {
	c     *Ctx
	name  string
	root  *ssa.Function
	tool  bool
	a     *pta.An
	enter map[*pta.Ctx]bool
	sites map[string]*site
	ids   []string
	bad   complaints
	over  bool
	kinds func(string) bool
}

type site struct {
	id   int
	kind string
	name string
	pos  token.Pos
	ok   bool
	seen map[string]bool
}

func (f *faults) site(cx *pta.Ctx, in ssa.CallInstruction, kind string) *site {
	k := fmt.Sprintf("%d/%p", cx.ID, in)
	s := f.sites[k]
	if s == nil {
		s = &site{id: len(f.sites) + 1, kind: kind, name: extName(in.Common()), pos: in.Pos(), ok: true}
		f.sites[k] = s
		f.ids = append(f.ids, k)
	}
	return s
}

func (f *faults) byID(n int) *site {
	for _, s := range f.sites {
		if s.id == n {
			return s
		}
	}
	return nil
}

func errName(id int) string { return "err!" + strconv.Itoa(id) }

func (f *faults) fail(st *psim.State, pos token.Pos, format string, a ...interface{}) {
	s := f.byID(st.U["fail"])
	if s == nil {
		return
	}
	f.bad.add(fmt.Sprintf("%03d", s.id), s.pos, "after %s (%s) has failed: %s at %s", s.kind, s.name, fmt.Sprintf(format, a...), f.c.Where(pos))
	s.ok = false
}

func (f *faults) run() {
	c := f.c
	f.a = c.analyse(f.root)
	f.bad = complaints{}
	f.sites = map[string]*site{}
	f.enter = map[*pta.Ctx]bool{}
	f.mark()
	m := psim.New(f.a)
	m.Merge = true
	m.Ints = false
	m.MaxSt = 200000
	m.Opaque = func(x *pta.Ctx) bool { return !f.enter[x] }
	m.Keep = func(n string) bool { return strings.HasPrefix(n, "err!") }
	m.Alts = func(st *psim.State, cx *pta.Ctx, in ssa.CallInstruction) []psim.Alt { return f.alts(m, st, cx, in) }
	m.Call = func(st *psim.State, cx *pta.Ctx, in ssa.CallInstruction) ([]psim.Val, bool, bool) {
		return f.call(m, st, cx, in)
	}
	m.Event = func(st *psim.State, cx *pta.Ctx, in ssa.Instruction, sel int) bool {
		return f.event(m, st, cx, in, sel)
	}
	m.Branch = func(st *psim.State, cx *pta.Ctx, in *ssa.If, taken bool) bool { return f.branch(m, st, cx, in, taken) }
	m.Exit = func(st *psim.State, cx *pta.Ctx, in ssa.Instruction, panics bool) { f.exit(m, st, cx, in, panics) }
	m.GoCalls = true
	m.Run(pta.Point{Ctx: f.a.RootCtx}, psim.NewState())
	f.over = m.Over
	f.c.Count("abstract states", m.Steps())
}

// mark finds the contexts that contain or call something that can fail
func (f *faults) mark() {
	for _, cx := range f.a.CtxList() {
		hit := false
		for _, b := range cx.Fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					if _, ok := in.(*ssa.Panic); ok && cx.Parent == f.a.RootCtx {
						hit = true
					}
					continue
				}
				cc := ci.Common()
				if k := fallible(cc); k != "" && f.counts(k) || psim.NoReturn(cc) || printer(cc) != "" && f.tool && !featPrint(cx) {
					hit = true
				}
			}
		}
		if hit {
			for x := cx; x != nil; x = x.Parent {
				f.enter[x] = true
			}
		}
	}
}

// featPrint: what the library prints while it computes is no report of a tool
func featPrint(cx *pta.Ctx) bool {
	return cx.Fn.Pkg != nil && cx.Fn.Pkg.Pkg.Name() == "featselect"
}

func (f *faults) counts(k string) bool {
	return k == "close" || f.kinds == nil || f.kinds(k)
}

// printer tells whether a call prints a message: "out" or "err"
func printer(cc *ssa.CallCommon) string {
	switch n := extName(cc); n {
	case "fmt.Print", "fmt.Printf", "fmt.Println":
		return n[4:]
	case "log.Print", "log.Printf", "log.Println", "log.Logger.Print", "log.Logger.Printf", "log.Logger.Println", "log.Output":
		return n[4:]
	case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln":
		return n[4:]
	}
	return ""
}

func (f *faults) alts(m *psim.Sim, st *psim.State, cx *pta.Ctx, in ssa.CallInstruction) []psim.Alt {
	cc := in.Common()
	kind := fallible(cc)
	if kind == "" || !f.counts(kind) {
		return nil
	}
	name := extName(cc)
	if kind == "close" {
		v := m.Eval(st, cx, cc.Args[0])
		if v.K != psim.Sym || !strings.HasPrefix(v.S, "wfile!") {
			return nil
		}
		kind = fWrite
	}
	s := f.site(cx, in, kind)
	rs := cc.Signature().Results()
	cv, _ := in.(*ssa.Call)
	mk := func(ok bool) []psim.Val {
		var r []psim.Val
		for i := 0; i < rs.Len(); i++ {
			n := fmt.Sprintf("res!%d.%d", s.id, i)
			switch {
			case i == rs.Len()-1 && ok:
				r = append(r, psim.NilV)
			case i == rs.Len()-1:
				r = append(r, psim.SymV(errName(s.id)))
			case !ok && pointerish(rs.At(i).Type()):
				r = append(r, psim.NilV)
			default:
				if kind == fCreate {
					n = "wfile!" + n
				}
				r = append(r, psim.SymV(n))
			}
		}
		return r
	}
	_ = cv
	good := psim.Alt{Res: mk(true), Do: func(st *psim.State) {
		for i := 0; i+1 < rs.Len(); i++ {
			n := fmt.Sprintf("res!%d.%d", s.id, i)
			if kind == fCreate {
				n = "wfile!" + n
			}
			if pointerish(rs.At(i).Type()) {
				st.Con[n] = psim.Con{NilK: 2}
			}
		}
		if p := f.byID(st.U["fail"]); p != nil && st.U["rep"] == 1 && p.name == s.name {
			// tried again and done
			st.U["fail"], st.U["rep"] = 0, 0
		}
		switch {
		case kind == fCreate:
			st.U["open"] = 1
		case name == "os.File.Close":
			st.U["open"] = 0
			f.wrote(st)
		case name == "encoding/csv.Writer.Error":
			if st.U["dirty"] == 0 {
				st.U["unchecked"] = 0
			}
		case kind == fWrite:
			f.wrote(st)
		}
	}}
	res := []psim.Alt{good}
	if st.U["fail"] == 0 {
		res = append(res, psim.Alt{Res: mk(false), Do: func(st *psim.State) {
			st.U["fail"], st.U["rep"] = s.id, 0
			st.Con[errName(s.id)] = psim.Con{NilK: 2}
			if (kind == fEncode || name == "encoding/json.Encoder.Encode") && st.U["open"] == 1 {
				f.fail(st, in.Pos(), "the output file has already been emptied")
			}
			if name == "encoding/csv.Writer.Error" {
				st.U["unchecked"] = 0
			}
		}})
	}
	return res
}

func (f *faults) wrote(st *psim.State) {
	if st.U["wrote"] < 5 {
		st.U["wrote"]++
	}
}

func (f *faults) call(m *psim.Sim, st *psim.State, cx *pta.Ctx, in ssa.CallInstruction) ([]psim.Val, bool, bool) {
	cc := in.Common()
	switch extName(cc) {
	case "fmt.Errorf", "errors.New", "github.com/pkg/errors.Wrap", "github.com/pkg/errors.New":
		n := psim.SymOf(cx, in.(ssa.Value)) + "!new"
		st.Con[n] = psim.Con{NilK: 2}
		return []psim.Val{psim.SymV(n)}, true, false
	case "errors.Is":
		if v := m.Eval(st, cx, cc.Args[0]); v.K == psim.Sym && strings.HasPrefix(v.S, "err!") {
			e := m.Eval(st, cx, cc.Args[1])
			g := psim.SymV("global:io.EOF")
			if isEOF(cc.Args[1]) {
				e = g
			}
			a := v
			return []psim.Val{{K: psim.Cmp, Op: token.EQL, A: &a, B: &e}}, true, false
		}
	case "encoding/csv.Writer.Write":
		st.U["dirty"], st.U["unchecked"] = 1, 1
		return nil, false, false
	case "encoding/csv.Writer.Flush":
		st.U["dirty"] = 0
		return nil, false, false
	}
	return nil, false, false
}

func isEOF(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	return ok && g.Name() == "EOF" && g.Pkg.Pkg.Path() == "io"
}

// branch: the end of the input is no failure
func (f *faults) branch(m *psim.Sim, st *psim.State, cx *pta.Ctx, in *ssa.If, taken bool) bool {
	id := st.U["fail"]
	if id == 0 {
		return true
	}
	neg := false
	cond := in.Cond
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, neg = u.X, !neg
	}
	eof := false
	switch x := cond.(type) {
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			a, b := x.X, x.Y
			if isEOF(a) {
				a, b = b, a
			}
			if isEOF(b) {
				if v := m.Eval(st, cx, a); v.K == psim.Sym && v.S == errName(id) {
					eof = taken != neg == (x.Op == token.EQL)
				}
			}
		}
	case *ssa.Call:
		if extName(x.Common()) == "errors.Is" && isEOF(x.Call.Args[1]) {
			v := m.Eval(st, cx, x)
			if v.K == psim.Cmp && v.A.S == errName(id) {
				eof = taken != neg
			}
		}
	}
	if eof {
		st.U["fail"], st.U["rep"] = 0, 0
		delete(st.Con, errName(id))
	}
	return true
}

func (f *faults) event(m *psim.Sim, st *psim.State, cx *pta.Ctx, in ssa.Instruction, sel int) bool {
	failed := st.U["fail"] != 0
	switch x := in.(type) {
	case *ssa.FieldAddr:
		if failed && m.Eval(st, cx, x.X).K == psim.Nil {
			f.fail(st, x.Pos(), "the missing result is used (a crash)")
			return false
		}
	case *ssa.IndexAddr:
		if failed && m.Eval(st, cx, x.X).K == psim.Nil {
			f.fail(st, x.Pos(), "the missing result is used (a crash)")
			return false
		}
	case *ssa.UnOp:
		if failed && x.Op == token.MUL && m.Eval(st, cx, x.X).K == psim.Nil {
			f.fail(st, x.Pos(), "the missing result is used (a crash)")
			return false
		}
	case ssa.CallInstruction:
		cc := x.Common()
		if _, ok := in.(*ssa.Defer); ok && sel != -2 {
			return true
		}
		if k := fallible(cc); failed && (k == fWrite || k == fCreate) {
			p := f.byID(st.U["fail"])
			if (p.kind == fEncode || p.kind == fDecode || p.kind == fRead || p.kind == fOpen) && st.U["rep"] == 0 {
				f.fail(st, x.Pos(), "a result is written nevertheless")
			} else if p.kind == fEncode && !f.retries(m, st, cx, x) {
				f.fail(st, x.Pos(), "a result that could not be encoded is written")
			}
		}
		if failed && !cc.IsInvoke() && len(cc.Args) > 0 {
			sig := cc.Signature()
			rcv := 0
			if sig.Recv() != nil {
				rcv = 1
			}
			for i, a := range cc.Args {
				var t types.Type
				if i < rcv {
					t = sig.Recv().Type()
				} else if i-rcv < sig.Params().Len() {
					t = sig.Params().At(i - rcv).Type()
				}
				if t == nil {
					continue
				}
				if _, ok := t.Underlying().(*types.Pointer); ok && m.Eval(st, cx, a).K == psim.Nil {
					if _, c := a.(*ssa.Const); !c {
						f.fail(st, x.Pos(), "the missing result is passed on to %s", extName(cc))
						return false
					}
				}
			}
		}
		if printer(cc) != "" && (!featPrint(cx) || !f.tool) {
			if failed {
				st.U["rep"] = 1
			}
			if f.tool && f.says(m, st, cx, x) {
				if failed {
					f.fail(st, x.Pos(), "success is announced")
				} else if st.U["wrote"] == 0 {
					f.bad.add("ann", x.Pos(), "success is announced although nothing has been written")
				}
				if st.U["wrote"] > 0 {
					st.U["wrote"]--
				}
			}
		}
	}
	return true
}

// retries: the failed encoding was reported and the value written now is
// encoded again (it does not come from the failed call)
func (f *faults) retries(m *psim.Sim, st *psim.State, cx *pta.Ctx, x ssa.CallInstruction) bool {
	return st.U["rep"] == 1
}

// says: the message announces that something was written
func (f *faults) says(m *psim.Sim, st *psim.State, cx *pta.Ctx, x ssa.CallInstruction) bool {
	for _, a := range x.Common().Args {
		for _, v := range append([]ssa.Value{a}, varargs(a)...) {
			w := unbox(m.Eval(st, cx, v))
			if w.K == psim.Str && announces.MatchString(w.S) {
				return true
			}
			if w.K == psim.Sym && strings.HasPrefix(w.S, "cat(") && announces.MatchString(w.S) {
				return true
			}
			if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
				for _, o := range []ssa.Value{b.X, b.Y} {
					if k, ok := o.(*ssa.Const); ok && k.Value != nil && announces.MatchString(k.Value.String()) {
						return true
					}
				}
			}
		}
	}
	return false
}

// varargs lists the values put into the array behind a variadic argument
func varargs(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var r []ssa.Value
	for _, u := range *al.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, w := range *ia.Referrers() {
			if s, ok := w.(*ssa.Store); ok && s.Addr == ia {
				r = append(r, s.Val)
				if mi, ok := s.Val.(*ssa.MakeInterface); ok {
					r = append(r, mi.X)
				}
			}
		}
	}
	return r
}

// unwinds: what is deferred runs when a routine panics; it must neither
// announce a result nor take the panic for handled
func (f *faults) unwinds(m *psim.Sim, st *psim.State, cx *pta.Ctx, in ssa.Instruction) {
	if ci, ok := in.(ssa.CallInstruction); ok && !strings.HasPrefix(extName(ci.Common()), "log.Panic") {
		return // the program ends at once
	}
	for _, d := range st.Defers {
		if f.says(m, st, d.C, d.D) && printer(d.D.Common()) != "" {
			f.fail(st, d.D.Pos(), "a message deferred here still says that results were written")
		}
		fn := funcValue(d.D.Common().Value)
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		recovers, ends := false, false
		for _, b := range fn.Blocks {
			for _, x := range b.Instrs {
				switch y := x.(type) {
				case *ssa.Panic:
					ends = true
				case *ssa.Store:
					if y.Val.Type().String() == "error" {
						ends = true
					}
				case ssa.CallInstruction:
					if bi, ok := y.Common().Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
						recovers = true
					}
					if psim.NoReturn(y.Common()) {
						ends = true
					}
					if b.Index == 0 && printer(y.Common()) != "" && f.says(m, st, d.C, y) {
						f.fail(st, y.Pos(), "a message deferred here still says that results were written")
					}
				}
			}
		}
		if recovers && !ends {
			f.fail(st, d.D.Pos(), "the panic is recovered and taken for handled")
		}
	}
}

func (f *faults) exit(m *psim.Sim, st *psim.State, cx *pta.Ctx, in ssa.Instruction, panics bool) {
	failed := st.U["fail"] != 0
	pos := in.Pos()
	if panics && failed {
		f.unwinds(m, st, cx, in)
	}
	if panics {
		if ci, ok := in.(ssa.CallInstruction); ok && failed {
			switch extName(ci.Common()) {
			case "os.Exit":
				v := m.Eval(st, cx, ci.Common().Args[0])
				if v.K == psim.Int && v.N == 0 {
					f.fail(st, pos, "the program ends with status zero")
				} else if st.U["rep"] == 0 {
					f.fail(st, pos, "the program ends without a message")
				}
			case "runtime.Goexit":
				f.fail(st, pos, "the goroutine ends without a message")
			}
		}
		return
	}
	ret, _ := in.(*ssa.Return)
	if cx != f.a.RootCtx {
		// the end of a goroutine
		if failed {
			f.fail(st, pos, "the goroutine ends as if nothing had happened")
		}
		return
	}
	var errv, ptr *psim.Val
	if ret != nil {
		for i, r := range ret.Results {
			v := m.Eval(st, cx, r)
			if ret.Parent().Signature.Results().At(i).Type().String() == "error" {
				errv = &v
			} else if _, ok := r.Type().Underlying().(*types.Pointer); ok {
				ptr = &v
			}
		}
	}
	nonNil := func(v psim.Val) bool {
		if v.K == psim.Nil {
			return false
		}
		return v.K == psim.Box || v.K == psim.Sym && st.Con[v.S].NilK == 2
	}
	if failed {
		switch {
		case errv != nil:
			if !nonNil(unwrapErr(*errv)) {
				f.fail(st, pos, "no error is returned")
			}
		case f.tool:
			f.fail(st, pos, "the tool ends with status zero")
		case ptr != nil:
			if ptr.K != psim.Nil {
				f.fail(st, pos, "a result is returned as if it were complete")
			} else if st.U["rep"] == 0 {
				f.fail(st, pos, "nothing is reported")
			}
		default:
			f.fail(st, pos, "the routine returns as if nothing had happened")
		}
		return
	}
	if errv != nil && errv.K == psim.Nil {
		if st.U["dirty"] != 0 {
			f.bad.add("flush", pos, "returns without an error although written rows have not been flushed")
		} else if st.U["unchecked"] != 0 {
			f.bad.add("flush", pos, "returns without an error although nobody has looked at the error of the writer")
		}
	}
	if errv == nil && (st.U["dirty"] != 0 || st.U["unchecked"] != 0) {
		f.bad.add("flush", pos, "returns although written rows have not been flushed and checked")
	}
}

func unwrapErr(v psim.Val) psim.Val { return v }

func (f *faults) report(rule string) {
	c := f.c
	sort.Strings(f.ids)
	nk := map[string]int{}
	for _, k := range f.ids {
		s := f.sites[k]
		nk[s.kind]++
	}
	var list []*site
	for _, k := range f.ids {
		list = append(list, f.sites[k])
	}
	sort.Slice(list, func(i, j int) bool { return list[i].id < list[j].id })
	for _, s := range list {
		k := fmt.Sprintf("%03d", s.id)
		if v, ok := f.bad[k]; ok {
			c.Add(rule, fmt.Sprintf("%s: %s", f.name, s.name), v.pos, Bad, "%s", v.msg)
			continue
		}
		c.Add(rule, fmt.Sprintf("%s: %s", f.name, s.name), s.pos, OK, "")
		c.Count("failures followed", 1)
	}
	for _, k := range []string{"ann", "flush"} {
		if v, ok := f.bad[k]; ok {
			c.Add(rule, f.name, v.pos, Bad, "%s", v.msg)
		}
	}
	if f.over {
		c.Add(rule, f.name, f.root.Pos(), Undecided, "too many states")
	}
}

func checkX01(c *Ctx) {
	rule := "failures are reported"
	c.Rule(rule, "on every path on which an operation on a file, an encoder, a decoder or a figure fails, the tool ends with a message and a status other than zero (or reports the failure and repeats the operation), does not use the missing result, does not announce success and writes nothing that could not be encoded; a library routine returns the error, raises it or returns nothing")
	n := 0
	var tools []tool
	tools = append(tools, c.toolRoots()...)
	tools = append(tools, c.mainRoots()...)
	for _, t := range tools {
		f := &faults{c: c, name: t.name, root: t.fn, tool: true}
		f.run()
		f.report(rule)
		n++
		c.Count("tools", 1)
	}
	for _, nm := range apiNames() {
		fn := c.P.Func("featselect", nm)
		if fn == nil || len(fn.Blocks) == 0 || !mayFail(fn, c.P.Module, map[*ssa.Function]bool{}) {
			continue
		}
		f := &faults{c: c, name: nm, root: fn}
		f.run()
		f.report(rule)
		c.Count("library routines", 1)
	}
	c.AtLeast("tools", 8)
	c.AtLeast("library routines", 8)
	c.AtLeast("failures followed", 40)
}

// mayFail: the routine reaches a fallible operation by static calls
func mayFail(f *ssa.Function, mod string, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if fallible(ci.Common()) != "" {
				return true
			}
			if g := ci.Common().StaticCallee(); g != nil && g.Pkg != nil && pta.InModule(g.Pkg.Pkg.Path(), mod) && mayFail(g, mod, seen) {
				return true
			}
		}
	}
	return false
}

// mainRoots lists the main program and what it runs when it starts
func (c *Ctx) mainRoots() []tool {
	var r []tool
	if sp := c.P.SSA[c.P.Module]; sp != nil {
		if m := sp.Func("main"); m != nil {
			r = append(r, tool{"main", m})
		}
	}
	for p, sp := range c.P.SSA {
		if !pta.InModule(p, c.P.Module) {
			continue
		}
		for _, mem := range sp.Members {
			f, ok := mem.(*ssa.Function)
			if !ok {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok || !strings.HasSuffix(extName(ci.Common()), "cobra.OnInitialize") {
						continue
					}
					for _, v := range varargs(ci.Common().Args[0]) {
						if fn := funcValue(v); fn != nil {
							r = append(r, tool{"start " + fn.Name(), fn})
						}
					}
				}
			}
		}
	}
	return r
}

func init() {
	registry["X01"] = checkX01
	explain["X01"] = "Path-sensitive fault analysis (property simulation): every call outside the module that reports failure by an error and works on files, encoders, decoders or figures is followed with the outcomes success and (once per path) failure through the tool or library routine and everything it calls; each path after a failure is checked for its end, for messages, for uses of the missing result and for later writes."
}
