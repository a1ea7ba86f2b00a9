package check

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"gsa/psim"
	"gsa/pta"

	"golang.org/x/tools/go/ssa"
)

// optSink is a place an option has to reach: a parameter of a routine, a field
// behind it, or a field that is set
type optSink struct {
	flag   string
	typ    string
	callee string // routine of featselect, "write" for files written, or an outside function
	arg    int    // parameter, not counting the receiver; -1: the field itself
	field  string // field of the struct the parameter points to
	length bool   // the length of the parameter
}

// the options of the tools and what each is documented for
var optSinks = map[string][]optSink{
	"command bnb": {
		{"csv", "String", "ReadCSV", 0, "", false}, {"target", "Int", "ReadCSV", 1, "", false},
		{"cutoff", "Float64", "SelectModel", 4, "Cutoff", false}, {"maxqueue", "Int", "SelectModel", 4, "MaxQueueSize", false},
		{"out", "String", "write", 0, "", false},
	},
	"command lasso": {
		{"csv", "String", "ReadCSV", 0, "", false}, {"target", "Int", "ReadCSV", 1, "", false},
		{"lmin", "Float64", "LassoLars", 1, "", false}, {"lmin", "Float64", "Logspace", 0, "", false},
		{"lmax", "Float64", "Logspace", 1, "", false}, {"num", "Int", "Logspace", 2, "", false},
		{"tol", "Float64", "LassoCrdDescPath", 4, "", false}, {"out", "String", "write", 0, "", false},
	},
	"command sasearch": {
		{"csv", "String", "ReadCSV", 0, "", false}, {"target", "Int", "ReadCSV", 1, "", false},
		{"sweeps", "Int", "SelectModelSA", 2, "", false}, {"out", "String", "write", 0, "", false},
	},
	"cmdDepreciated/goselect-cohenlasso": {
		{"csvfile", "String", "ReadCSV", 0, "", false}, {"target", "Int", "ReadCSV", 1, "", false},
		{"lambMin", "Float64", "Logspace", 0, "", false}, {"lambMax", "Float64", "Logspace", 1, "", false},
		{"numLamb", "Int", "Logspace", 2, "", false}, {"numLamb", "Int", "CalculateCohenSequence", 1, "", true},
		{"numSamp", "Int", "CalculateCohenSequence", 0, "", false}, {"tol", "Float64", "pureLassoCohen", -1, "Tol", false},
	},
	"cmdDepreciated/goselect-mem": {
		{"nfeat", "Int", "NewNode", 1, "", true},
	},
	"cmdDepreciated/goselect-nestedlasso": {
		{"csvfile", "String", "ReadCSV", 0, "", false}, {"target", "Int", "ReadCSV", 1, "", false},
		{"lambMin", "Float64", "NestedLasso", 1, "", false}, {"keep", "Float64", "NestedLasso", 2, "", false},
		{"out", "String", "write", 0, "", false},
	},
	"cmdDepreciated/goselect-plotlasso": {
		{"json", "String", "LassoLarsPathFromJSON", 0, "", false},
	},
}

// the option a tool reads in other ways
var optOthers = map[string][]string{
	"command lasso":                     {"type", "cov"},
	"cmdDepreciated/goselect-mem":       {"mem"},
	"cmdDepreciated/goselect-plotlasso": {"prefix", "ext", "coeffmin", "coeffmax"},
}

type optTool struct {
	name  string
	fn    *ssa.Function
	decl  map[string]string // option -> type
	cells map[string]psim.Val
	keep  string
}

var declRe = regexp.MustCompile(`^(String|Int|Float64|Bool|Int64|Uint|Duration)(Var)?(P)?$`)

func strArg(m *psim.Sim, st *psim.State, cx *pta.Ctx, v ssa.Value) string {
	x := unbox(m.Eval(st, cx, v))
	if x.K == psim.Str {
		return x.S
	}
	return "?"
}

func flagSym(name, typ string) string { return "flag:" + name + ":" + typ }

// declare handles the declaration of an option; it reports the name, type and
// the address it is read through (if any)
func declare(m *psim.Sim, st *psim.State, cx *pta.Ctx, cc *ssa.CallCommon, method string, args []ssa.Value) (name, typ string, ptr psim.Val, res *psim.Val, ok bool) {
	mm := declRe.FindStringSubmatch(method)
	if mm == nil {
		return
	}
	typ = mm[1]
	i := 0
	if mm[2] == "Var" {
		ptr = m.Eval(st, cx, args[0])
		i = 1
	} else {
		ptr = psim.Val{K: psim.Addr, S: "flagvar:"}
	}
	name = strArg(m, st, cx, args[i])
	if mm[2] == "" {
		ptr.S = "flagvar:" + name + ":" + typ
		p := ptr
		res = &p
	}
	return name, typ, ptr, res, true
}

// cobraTools runs the initialisation of a package and collects its commands
func (c *Ctx) cobraTools(sp *ssa.Package) (map[string]*optTool, map[*ssa.Function]*optTool, map[string]psim.Val) {
	initFn := sp.Func("init")
	byCmd := map[string]*optTool{}
	byFn := map[*ssa.Function]*optTool{}
	cells := map[string]psim.Val{}
	if initFn == nil {
		return byCmd, byFn, cells
	}
	a := c.analyse(initFn)
	m := psim.New(a)
	m.Merge = true
	m.Strings = true
	get := func(k string) *optTool {
		t := byCmd[k]
		if t == nil {
			t = &optTool{decl: map[string]string{}, cells: map[string]psim.Val{}}
			byCmd[k] = t
		}
		return t
	}
	path := sp.Pkg.Path()
	m.KeepCell = func(k string) bool {
		return strings.HasPrefix(k, "global:"+path+".") || !strings.HasPrefix(k, "global:")
	}
	m.Opaque = func(x *pta.Ctx) bool { return x.Fn.Pkg == nil || x.Fn.Pkg != sp }
	m.Call = func(st *psim.State, cx *pta.Ctx, in ssa.CallInstruction) ([]psim.Val, bool, bool) {
		cc := in.Common()
		n := extName(cc)
		base := n[strings.LastIndex(n, "/")+1:]
		switch {
		case base == "cobra.Command.Flags" || base == "cobra.Command.PersistentFlags" || base == "cobra.Command.LocalFlags":
			return []psim.Val{psim.SymV("flagset!" + m.Eval(st, cx, cc.Args[0]).String())}, true, false
		case strings.HasPrefix(base, "pflag.FlagSet."):
			r := m.Eval(st, cx, cc.Args[0])
			if !strings.HasPrefix(r.S, "flagset!") {
				return nil, false, false
			}
			name, typ, ptr, res, ok := declare(m, st, cx, cc, strings.TrimPrefix(base, "pflag.FlagSet."), cc.Args[1:])
			if !ok {
				return nil, false, false
			}
			t := get(r.S[len("flagset!"):])
			t.decl[name] = typ
			t.cells[ptr.S+"|"+ptr.P] = psim.SymV(flagSym(name, typ))
			if res != nil {
				return []psim.Val{*res}, true, false
			}
			return nil, true, false
		}
		return nil, false, false
	}
	m.Event = func(st *psim.State, cx *pta.Ctx, in ssa.Instruction, sel int) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return true
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok {
			return true
		}
		pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
		n, ok := pt.(*types.Named)
		if !ok || n.Obj().Name() != "Command" || n.Obj().Pkg().Name() != "cobra" {
			return true
		}
		k := m.Eval(st, cx, fa.X)
		k.P = ""
		switch pt.Underlying().(*types.Struct).Field(fa.Field).Name() {
		case "Use":
			get(k.String()).name = "command " + strings.Fields(strArg(m, st, cx, s.Val) + " ?")[0]
		case "Run", "RunE":
			if fn := funcValue(s.Val); fn != nil {
				t := get(k.String())
				t.fn = fn
				byFn[fn] = t
			}
		}
		return true
	}
	m.Exit = func(st *psim.State, cx *pta.Ctx, in ssa.Instruction, panics bool) {
		if cx == a.RootCtx && !panics {
			for k, v := range st.Cell {
				if strings.HasPrefix(k, "global:"+path+".") {
					cells[k] = v
				}
			}
		}
	}
	m.Run(pta.Point{Ctx: a.RootCtx}, psim.NewState())
	return byCmd, byFn, cells
}

// opts follows one tool
type opts struct {
	c       *Ctx
	t       *optTool
	a       *pta.An
	bad     complaints
	reached map[string]int
	read    map[string]string
	figs    map[string]string
	axis    map[string]bool
	memOK   bool
	api     map[string]bool
}

func (o *opts) run(pkg *types.Package) bool {
	c := o.c
	o.a = c.analyse(o.t.fn)
	o.bad = complaints{}
	o.reached = map[string]int{}
	o.read = map[string]string{}
	o.figs = map[string]string{}
	o.axis = map[string]bool{}
	o.api = map[string]bool{}
	for _, n := range apiNames() {
		o.api[n] = true
	}
	m := psim.New(o.a)
	m.Strings = true
	m.GoCalls = true
	m.Merge = true
	m.MaxSt = 40000
	m.Ints = false
	m.Keep = func(n string) bool { return strings.HasPrefix(n, "flag:") }
	m.KeepCell = func(k string) bool {
		return strings.HasPrefix(k, "global:"+pkg.Path()+".") || strings.HasPrefix(k, "flagvar:")
	}
	m.Opaque = func(x *pta.Ctx) bool {
		if x.Fn.Pkg == nil {
			return true
		}
		if x.Fn.Pkg.Pkg.Path() == c.P.Module+"/featselect" {
			n := strings.TrimPrefix(o.featName(x.Fn), "New")
			return o.api[o.featName(x.Fn)] && n == o.featName(x.Fn)
		}
		return false
	}
	m.Call = func(st *psim.State, cx *pta.Ctx, in ssa.CallInstruction) ([]psim.Val, bool, bool) {
		return o.call(m, st, cx, in)
	}
	m.Event = func(st *psim.State, cx *pta.Ctx, in ssa.Instruction, sel int) bool {
		return o.event(m, st, cx, in, sel)
	}
	m.Branch = func(st *psim.State, cx *pta.Ctx, in *ssa.If, taken bool) bool { return o.branch(m, st, cx, in, taken) }
	st := psim.NewState()
	for k, v := range o.t.cells {
		st.Cell[k] = v
	}
	m.Run(pta.Point{Ctx: o.a.RootCtx}, st)
	c.Count("abstract states", m.Steps())
	return !m.Over
}

// featName is the name of a routine as the interface lists it
func (o *opts) featName(f *ssa.Function) string {
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name() + "." + f.Name()
		}
	}
	return f.Name()
}

func (o *opts) call(m *psim.Sim, st *psim.State, cx *pta.Ctx, in ssa.CallInstruction) ([]psim.Val, bool, bool) {
	cc := in.Common()
	n := extName(cc)
	base := n[strings.LastIndex(n, "/")+1:]
	switch {
	case base == "cobra.Command.Flags" || base == "cobra.Command.PersistentFlags" || base == "cobra.Command.LocalFlags":
		return []psim.Val{psim.SymV("flagset!")}, true, false
	case strings.HasPrefix(base, "pflag.FlagSet.Get"):
		name := strArg(m, st, cx, cc.Args[1])
		typ := strings.TrimPrefix(base, "pflag.FlagSet.Get")
		o.reads(name, typ, in.Pos())
		return []psim.Val{psim.SymV(flagSym(name, typ)), psim.NilV}, true, false
	case strings.HasPrefix(base, "flag."):
		meth := base[len("flag."):]
		args := cc.Args
		if strings.HasPrefix(meth, "FlagSet.") {
			meth = meth[len("FlagSet."):]
			args = args[1:]
		}
		if meth == "Parse" {
			for k, v := range st.Cell {
				if v.K == psim.Sym && strings.HasPrefix(v.S, "default:") {
					st.Cell[k] = psim.SymV("flag:" + v.S[len("default:"):])
				}
			}
			return nil, false, false
		}
		name, typ, ptr, res, ok := declare(m, st, cx, cc, meth, args)
		if !ok {
			return nil, false, false
		}
		o.t.decl[name] = typ
		o.reads(name, typ, in.Pos())
		st.Cell[ptr.S+"|"+ptr.P] = psim.SymV("default:" + name + ":" + typ)
		if res != nil {
			return []psim.Val{*res}, true, false
		}
		return nil, true, false
	case n == "math.Abs":
		return []psim.Val{psim.SymV("abs(" + m.Eval(st, cx, cc.Args[0]).String() + ")")}, true, false
	case n == "fmt.Sprintf":
		if v, ok := o.sprintf(m, st, cx, cc); ok {
			return []psim.Val{v}, true, false
		}
	}
	return nil, false, false
}

func (o *opts) sprintf(m *psim.Sim, st *psim.State, cx *pta.Ctx, cc *ssa.CallCommon) (psim.Val, bool) {
	f := m.Eval(st, cx, cc.Args[0])
	if f.K != psim.Str {
		return psim.Val{}, false
	}
	arr := m.Eval(st, cx, cc.Args[1])
	var parts []psim.Val
	k := 0
	s := f.S
	for {
		i := strings.IndexByte(s, '%')
		if i < 0 || i+1 >= len(s) {
			parts = append(parts, psim.Val{K: psim.Str, S: s})
			break
		}
		if s[i+1] != 's' && s[i+1] != 'v' {
			return psim.Val{}, false
		}
		parts = append(parts, psim.Val{K: psim.Str, S: s[:i]})
		v, ok := st.Cell[fmt.Sprintf("%s|%s[%d]", arr.S, arr.P, k)]
		if !ok {
			return psim.Val{}, false
		}
		parts = append(parts, unbox(v))
		k++
		s = s[i+2:]
	}
	return psim.Cat(parts...), true
}

func (o *opts) reads(name, typ string, pos token.Pos) {
	o.read[name] = typ
	if d, ok := o.t.decl[name]; !ok {
		o.bad.add("read "+name, pos, "reads an option %q that is not declared", name)
	} else if d != typ {
		o.bad.add("read "+name, pos, "reads the option %q as %s, it is declared as %s", name, typ, d)
	}
}

func isWriter(n string) int {
	switch n[strings.LastIndex(n, "/")+1:] {
	case "os.WriteFile", "ioutil.WriteFile", "os.Create", "os.OpenFile":
		return 0
	}
	return -1
}

func nice(v psim.Val) string {
	s := v.String()
	if v.K == psim.Sym && strings.HasPrefix(s, "default:") {
		return "the default of option " + strings.Split(s, ":")[1] + " (read before the command line is parsed)"
	}
	if v.K == psim.Sym && strings.HasPrefix(s, "flag:") && !strings.ContainsAny(s, "()") {
		return "option " + strings.Split(s, ":")[1]
	}
	if v.K == psim.Sym {
		return "another value"
	}
	return s
}

// nameCode numbers what is known of an option that names something
func nameCode(eq string) int {
	for i, n := range []string{"=lars", "=cd", "=empirical", "=identity", "=threshold"} {
		if eq == n {
			return i + 2
		}
	}
	if eq != "" {
		return 1
	}
	return 0
}

func (o *opts) event(m *psim.Sim, st *psim.State, cx *pta.Ctx, in ssa.Instruction, sel int) bool {
	if o.t.name == "command lasso" {
		st.U["type"] = nameCode(st.Con[flagSym("type", "String")].StrEq)
		st.U["cov"] = nameCode(st.Con[flagSym("cov", "String")].StrEq)
	}
	if s, ok := in.(*ssa.Store); ok {
		if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
			pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
			if n, ok := pt.(*types.Named); ok && n.Obj().Pkg() != nil {
				o.sink(st, n.Obj().Name(), -1, pt.Underlying().(*types.Struct).Field(fa.Field).Name(), func(k optSink) (psim.Val, bool) {
					if k.field != pt.Underlying().(*types.Struct).Field(fa.Field).Name() {
						return psim.Val{}, false
					}
					return m.Eval(st, cx, s.Val), true
				}, s.Pos())
			}
		}
		return true
	}
	ci, ok := in.(ssa.CallInstruction)
	if !ok || sel == -2 {
		return true
	}
	if _, ok := in.(*ssa.Defer); ok {
		return true
	}
	cc := ci.Common()
	f := cc.StaticCallee()
	if f == nil {
		return true
	}
	name := ""
	off := 0
	if f.Pkg != nil && f.Pkg.Pkg.Path() == o.c.P.Module+"/featselect" {
		name = f.Name()
		if f.Signature.Recv() != nil {
			off = 1
		}
	} else if isWriter(extName(cc)) == 0 {
		name = "write"
	}
	if name == "" {
		o.figure(m, st, cx, ci)
		o.mem(m, st, cx, ci)
		return true
	}
	o.sink(st, name, 0, "", func(k optSink) (psim.Val, bool) {
		if off+k.arg >= len(cc.Args) {
			return psim.Val{}, false
		}
		v := unbox(m.Eval(st, cx, cc.Args[off+k.arg]))
		switch {
		case k.length:
			if l, ok := st.Cell[v.S+"|len"]; ok {
				return l, true
			}
			return psim.SymV("?"), true
		case k.field != "":
			pt, ok := cc.Args[off+k.arg].Type().Underlying().(*types.Pointer)
			if !ok {
				return psim.SymV("?"), true
			}
			str := pt.Elem().Underlying().(*types.Struct)
			for i := 0; i < str.NumFields(); i++ {
				if str.Field(i).Name() == k.field {
					b := v.S
					if v.K == psim.Sym {
						b = v.String()
					}
					if x, ok := st.Cell[fmt.Sprintf("%s|%s.%d", b, v.P, i)]; ok {
						return x, true
					}
				}
			}
			return psim.SymV("?"), true
		}
		return v, true
	}, ci.Pos())
	o.algo(m, st, cx, name, cc, off, ci.Pos())
	for _, k := range optSinks[o.t.name] {
		// every object made is given its value before the next one or its use
		if k.arg != -1 {
			continue
		}
		mk := strings.EqualFold(name, "New"+k.callee)
		if (mk || o.api[name] && strings.HasPrefix(name, "Calculate")) && st.U["todo "+k.field] == 1 {
			o.bad.add(k.id(), ci.Pos(), "an object is used without its field %s having been set on some path", k.field)
		}
		if mk {
			st.U["todo "+k.field] = 1
		}
	}
	if name == "PlotPath" {
		o.axisRange(m, st, cx, m.Eval(st, cx, cc.Args[off]), ci.Pos())
	}
	return true
}

func (o *opts) sink(st *psim.State, callee string, arg int, field string, get func(optSink) (psim.Val, bool), pos token.Pos) {
	for _, k := range optSinks[o.t.name] {
		if k.callee != callee || (arg == -1) != (k.arg == -1) {
			continue
		}
		v, ok := get(k)
		if !ok {
			continue
		}
		id := k.id()
		o.reached[id]++
		if k.arg == -1 {
			delete(st.U, "todo "+k.field)
		}
		if v.String() != flagSym(k.flag, k.typ) {
			o.bad.add(id, pos, "%s receives %s instead of option %s", k.place(), nice(v), k.flag)
		}
	}
}

func (k optSink) id() string { return k.flag + " -> " + k.place() }

func (k optSink) place() string {
	if k.callee == "write" {
		return "the name of the output file"
	}
	if k.arg == -1 {
		return "field " + k.callee + "." + k.field
	}
	s := fmt.Sprintf("%s parameter %d", k.callee, k.arg)
	if k.field != "" {
		s += " field " + k.field
	}
	if k.length {
		s += " length"
	}
	return s
}

// algo: the names of algorithm and estimator choose what they say, an unknown
// name never leads to a result
func (o *opts) algo(m *psim.Sim, st *psim.State, cx *pta.Ctx, name string, cc *ssa.CallCommon, off int, pos token.Pos) {
	if o.t.name != "command lasso" {
		return
	}
	typ := strings.TrimPrefix(st.Con[flagSym("type", "String")].StrEq, "=")
	cov := strings.TrimPrefix(st.Con[flagSym("cov", "String")].StrEq, "=")
	if strings.HasPrefix(typ, "!") {
		typ = ""
	}
	switch name {
	case "LassoLars":
		o.reached["type lars"]++
		if typ != "lars" {
			o.bad.add("type lars", pos, "LassoLars is reached without the option type being \"lars\"")
		}
	case "LassoCrdDescPath":
		o.reached["type cd"]++
		if typ != "cd" {
			o.bad.add("type cd", pos, "LassoCrdDescPath is reached without the option type being \"cd\"")
		}
		b := m.Eval(st, cx, cc.Args[off+1])
		want := map[string]string{"empirical": "Empirical", "identity": "Identity", "threshold": "SparseThresholded"}[cov]
		if want == "" {
			o.bad.add("cov", pos, "the option cov is accepted without being one of the documented estimators")
			return
		}
		o.reached["cov "+cov]++
		if b.K != psim.Box || !strings.HasSuffix(b.P, "."+want) {
			o.bad.add("cov "+cov, pos, "with cov=%s the covariance is computed by %s", cov, b.P)
		}
	case "write":
		if typ != "lars" && typ != "cd" {
			o.bad.add("unknown type", pos, "a result is written although the option type is not a known algorithm")
		}
	}
}

func (o *opts) branch(m *psim.Sim, st *psim.State, cx *pta.Ctx, in *ssa.If, taken bool) bool {
	v := m.Eval(st, cx, in.Cond)
	for v.K == psim.Not {
		v, taken = *v.A, !taken
	}
	if v.K != psim.Cmp {
		return true
	}
	s := v.String()
	if !strings.Contains(s, "flag:coeffmin") || !strings.Contains(s, "flag:coeffmax") {
		return true
	}
	op := v.Op
	x := v.A.String()
	if !strings.Contains(x, "flag:") {
		x = v.B.String()
		op = map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
	}
	if !taken {
		op = map[token.Token]token.Token{token.LSS: token.GEQ, token.LEQ: token.GTR, token.GTR: token.LEQ, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
	}
	switch {
	case op == token.EQL:
		st.U["axis"] = 1
	case op == token.NEQ:
		st.U["axis"] = 2
	case strings.HasPrefix(x, "abs("):
		st.U["axis"] = 1
		if op == token.GTR || op == token.GEQ {
			st.U["axis"] = 2
		}
	case op == token.GTR || op == token.GEQ:
		// one is larger, or the difference exceeds some bound
		st.U["axis"] = 2
	default:
		// equal only when the other way round is excluded too
		side := 1
		if i, j := strings.Index(x, "flag:coeffmin"), strings.Index(x, "flag:coeffmax"); i >= 0 && j >= 0 && i > j || i < 0 {
			side = 2
		}
		st.U["axis sides"] |= side
		if st.U["axis sides"] == 3 {
			st.U["axis"] = 1
		}
	}
	return true
}

func (o *opts) axisRange(m *psim.Sim, st *psim.State, cx *pta.Ctx, v psim.Val, pos token.Pos) {
	switch {
	case v.K == psim.Nil:
		o.axis["auto"] = true
		if st.U["axis"] != 1 {
			o.bad.add("coeff range", pos, "the axis range is dropped although coeffmin and coeffmax may differ")
		}
	case v.K == psim.Addr:
		o.axis["set"] = true
		if st.U["axis"] != 2 {
			o.bad.add("coeff range", pos, "the axis range is set although coeffmin and coeffmax may be equal")
		}
		lo, hi := st.Cell[v.S+"|"+v.P+".0"], st.Cell[v.S+"|"+v.P+".1"]
		if lo.String() != flagSym("coeffmin", "Float64") || hi.String() != flagSym("coeffmax", "Float64") {
			o.bad.add("coeff range", pos, "the axis range is %s to %s", nice(lo), nice(hi))
		}
	default:
		o.bad.add("coeff range", pos, "the axis range cannot be followed")
	}
}

// figure: each figure is saved as prefix, its own name, extension
func (o *opts) figure(m *psim.Sim, st *psim.State, cx *pta.Ctx, ci ssa.CallInstruction) {
	cc := ci.Common()
	if o.t.name != "cmdDepreciated/goselect-plotlasso" || !strings.HasSuffix(extName(cc), "plot.Plot.Save") {
		return
	}
	v := m.Eval(st, cx, cc.Args[len(cc.Args)-1])
	from := "?"
	r := m.Eval(st, cx, cc.Args[0])
	if k, ok := m.Names[r.S]; ok {
		if call, ok := k.V.(*ssa.Call); ok && call.Call.StaticCallee() != nil {
			from = call.Call.StaticCallee().Name()
		}
	}
	want := map[string]string{"PlotEntranceTimes": "_entrance.", "PlotQualityScores": "_quality.", "PlotDeviations": "_dev.", "PlotPath": "_path."}[from]
	exp := psim.Cat(psim.SymV(flagSym("prefix", "String")), psim.Val{K: psim.Str, S: want}, psim.SymV(flagSym("ext", "String")))
	o.figs[from] = v.String()
	if want == "" || v.String() != exp.String() {
		o.bad.add("figure "+from, ci.Pos(), "the figure of %s is not saved as prefix%sext", from, want)
	}
}

// mem: the printed number of nodes is the memory over the size of a node
func (o *opts) mem(m *psim.Sim, st *psim.State, cx *pta.Ctx, ci ssa.CallInstruction) {
	if o.t.name != "cmdDepreciated/goselect-mem" || printer(ci.Common()) == "" {
		return
	}
	for _, a := range ci.Common().Args {
		arr := m.Eval(st, cx, a)
		for i := 0; i < 8; i++ {
			v := unbox(st.Cell[fmt.Sprintf("%s|%s[%d]", arr.S, arr.P, i)])
			s := v.String()
			if strings.HasPrefix(s, "(("+flagSym("mem", "Int")+"*1000000000)/") || strings.HasPrefix(s, "((1000000000*"+flagSym("mem", "Int")+")/") {
				o.memOK = true
			}
		}
	}
}

func checkX02(c *Ctx) {
	rule := "options reach what they are for"
	c.Rule(rule, "at every call of the routine an option is documented for, on every path of the tool, the parameter (or the field behind it) is exactly the value of that option, read under its declared name and type after the command line was parsed")
	c.Rule("options are read as declared", "every option is declared, and read under its declared name and type")
	c.Rule("unknown names are refused", "a lasso result is written only with a documented algorithm and estimator, each of which selects its own routine")
	c.Rule("figures", "every figure is saved under prefix, its name and extension; the axis range is set from the two options exactly when they differ")
	seen := map[string]bool{}
	var paths []string
	for p := range c.P.SSA {
		if pta.InModule(p, c.P.Module) {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	for _, p := range paths {
		sp := c.P.SSA[p]
		if strings.HasSuffix(p, "/featselect") {
			continue
		}
		_, byFn, cells := c.cobraTools(sp)
		var ts []*optTool
		for _, t := range byFn {
			ts = append(ts, t)
		}
		if m := sp.Func("main"); m != nil && sp.Pkg.Name() == "main" && p != c.P.Module {
			ts = append(ts, &optTool{name: strings.TrimPrefix(p, c.P.Module+"/"), fn: m, decl: map[string]string{}, cells: map[string]psim.Val{}})
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].name < ts[j].name })
		for _, t := range ts {
			for k, v := range cells {
				if _, ok := t.cells[k]; !ok {
					t.cells[k] = v
				}
			}
			seen[t.name] = true
			o := &opts{c: c, t: t}
			done := o.run(sp.Pkg)
			o.report(rule, done)
		}
	}
	var names []string
	for n := range optSinks {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if !seen[n] {
			c.Add("anchor", n, token.NoPos, Undecided, "the tool was not found")
		}
	}
	c.AtLeast("options followed", 30)
}

func (o *opts) report(rule string, done bool) {
	c := o.c
	c.Count("tools", 1)
	pos := o.t.fn.Pos()
	if !done {
		c.Add(rule, o.t.name, pos, Undecided, "too many states")
	}
	used := map[string]bool{}
	put := func(r, id string, need bool) {
		k := o.t.name + ": " + id
		if v, ok := o.bad[id]; ok {
			c.Add(r, k, v.pos, Bad, "%s", v.msg)
			return
		}
		if need && o.reached[id] == 0 {
			c.Add(r, k, pos, Bad, "never reached: the option has no effect there")
			return
		}
		c.Add(r, k, pos, OK, "")
		c.Count("options followed", 1)
	}
	for _, k := range optSinks[o.t.name] {
		put(rule, k.id(), true)
		used[k.flag] = true
	}
	for _, f := range optOthers[o.t.name] {
		used[f] = true
	}
	switch o.t.name {
	case "command lasso":
		for _, id := range []string{"type lars", "type cd", "cov empirical", "cov identity", "cov threshold"} {
			put("unknown names are refused", id, true)
		}
		put("unknown names are refused", "cov", false)
		put("unknown names are refused", "unknown type", false)
	case "cmdDepreciated/goselect-mem":
		if !o.memOK {
			o.bad.add("mem", pos, "the number of nodes printed is not mem times 10^9 over the size of a node")
		}
		put(rule, "mem", false)
	case "cmdDepreciated/goselect-plotlasso":
		for _, f := range []string{"PlotEntranceTimes", "PlotQualityScores", "PlotDeviations", "PlotPath"} {
			if o.figs[f] != "" {
				o.reached["figure "+f]++
			}
			put("figures", "figure "+f, true)
		}
		if !o.axis["auto"] || !o.axis["set"] {
			o.bad.add("coeff range", pos, "the axis range is not both settable and automatic")
		}
		put("figures", "coeff range", false)
	}
	for id, v := range o.bad {
		if strings.HasPrefix(id, "read ") || strings.HasPrefix(id, "figure ?") {
			c.Add("options are read as declared", o.t.name+": "+id, v.pos, Bad, "%s", v.msg)
		}
	}
	var fs []string
	for f := range o.t.decl {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		_, rd := o.read[f]
		direct := false
		for _, v := range o.t.cells {
			if v.K == psim.Sym && v.S == flagSym(f, o.t.decl[f]) {
				direct = true
			}
		}
		if _, isBad := o.bad["read "+f]; isBad {
			continue
		}
		c.Check(rd || direct, "options are read as declared", o.t.name+": "+f, pos, "the option is declared but never read")
	}
	for f := range used {
		if _, ok := o.t.decl[f]; !ok {
			c.Add("options are read as declared", o.t.name+": "+f, pos, Bad, "the documented option is not declared")
		}
	}
}

var _ = constant.StringVal

func init() {
	registry["X02"] = checkX02
	explain["X02"] = "Path-sensitive value-flow analysis (property simulation) of every command line tool: the initialisation of its package is followed to collect declared options and commands, then the tool is followed on all paths with each option as an unknown of its own; at every call an option is documented for, the parameter must be that unknown itself. Texts, products and lengths are kept symbolic; the two names of algorithms are followed through string comparisons."
}
