package check

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"gsa/load"
	"gsa/sem"
	"gsa/specs"

	"golang.org/x/tools/go/ssa"
)

// A specFile holds reference definitions for functions of one package. It is
// added to the package for type checking and summarised like the code itself;
// it is never executed.
type specFile struct {
	name  string
	pkg   string
	src   []byte
	units []*unit
}

type unit struct {
	file   *specFile
	target string // "F" or "T.M"
	fn     string // name of the reference function
	pre    string // name of the precondition, if any
	opaque map[string]bool
	ignore map[string]bool
	opts   map[string]string
	doc    string
	law    bool // a boolean function that must hold for all its arguments
}

func parseSpecs(id string) ([]*specFile, error) {
	ents, err := specs.FS.ReadDir(".")
	if err != nil {
		return nil, err
	}
	var r []*specFile
	for _, e := range ents {
		n := e.Name()
		if !strings.HasPrefix(n, id+".") && !strings.HasPrefix(n, id+"_") || !strings.HasSuffix(n, ".go.txt") {
			continue
		}
		b, err := specs.FS.ReadFile(n)
		if err != nil {
			return nil, err
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, n, b, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		sf := &specFile{name: n, src: b, pkg: af.Name.Name}
		for _, cg := range af.Comments {
			for _, l := range cg.List {
				if strings.HasPrefix(l.Text, "//gsa:dir ") {
					sf.pkg = strings.TrimSpace(l.Text[10:])
				}
			}
		}
		pres := map[string]bool{}
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && strings.HasPrefix(fd.Name.Name, "gsaPre_") {
				pres[fd.Name.Name] = true
			}
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || !strings.HasPrefix(fd.Name.Name, "gsaSpec_") && !strings.HasPrefix(fd.Name.Name, "gsaLaw_") {
				continue
			}
			t := strings.TrimPrefix(strings.TrimPrefix(fd.Name.Name, "gsaSpec_"), "gsaLaw_")
			law := strings.HasPrefix(fd.Name.Name, "gsaLaw_")
			u := &unit{law: law, file: sf, fn: fd.Name.Name, target: strings.Replace(t, "__", ".", 1),
				opaque: map[string]bool{}, ignore: map[string]bool{}, opts: map[string]string{}}
			if law {
				// gsaLaw_Target_description
				p := strings.SplitN(u.target, ".", 2)
				k := len(p) - 1
				p[k] = strings.SplitN(p[k], "_", 2)[0]
				u.target = strings.Join(p, ".")
			}
			if pres["gsaPre_"+t] {
				u.pre = "gsaPre_" + t
			}
			if fd.Doc != nil {
				for _, l := range fd.Doc.List {
					switch {
					case strings.HasPrefix(l.Text, "//gsa:opaque "):
						for _, n := range strings.Split(l.Text[13:], ",") {
							u.opaque[strings.TrimSpace(n)] = true
						}
					case strings.HasPrefix(l.Text, "//gsa:ignore "):
						for _, n := range strings.Split(l.Text[13:], ",") {
							u.ignore[strings.TrimSpace(n)] = true
						}
					case strings.HasPrefix(l.Text, "//gsa:"):
						kv := strings.SplitN(l.Text[6:], " ", 2)
						v := ""
						if len(kv) > 1 {
							v = strings.TrimSpace(kv[1])
						}
						u.opts[kv[0]] = v
					default:
						u.doc += strings.TrimPrefix(strings.TrimPrefix(l.Text, "//"), " ") + " "
					}
				}
			}
			sf.units = append(sf.units, u)
		}
		r = append(r, sf)
	}
	return r, nil
}

// NewCtx loads the program, with the reference definitions of a property
func NewCtx(prop, tier, dir string) (*Ctx, error) {
	c := &Ctx{Prop: prop, Tier: tier, Funcs: map[string]bool{}, Counts: map[string]int{}, Rules: map[string]string{},
		specs: map[string]*specFile{}, ov: map[string][]byte{}, anal: map[string]interface{}{}}
	sfs, err := parseSpecs(prop)
	if err != nil {
		return nil, err
	}
	for _, sf := range sfs {
		c.specs[sf.name] = sf
		c.ov[overlayName(sf)] = sf.src
	}
	c.P, err = load.Load(dir, c.ov)
	if err == nil || len(sfs) == 0 {
		return c, err
	}
	// a reference definition that does not fit the current interface
	var bad []string
	for _, sf := range sfs {
		for _, e := range c.P.Errs {
			if strings.Contains(e, overlayName(sf)) {
				bad = append(bad, sf.name+": "+e)
				delete(c.specs, sf.name)
				delete(c.ov, overlayName(sf))
				break
			}
		}
	}
	if len(bad) == 0 {
		return c, err
	}
	c.P, err = load.Load(dir, c.ov)
	for _, b := range bad {
		c.Add("reference definition", b, token.NoPos, Undecided, "the reference definition does not fit the current declarations")
	}
	return c, err
}

func overlayName(sf *specFile) string {
	return sf.pkg + "/zz_gsa_" + strings.NewReplacer(".go.txt", "", ".", "_").Replace(sf.name) + ".go"
}

const ruleSpec = "summary equality"

// Specs decides all reference definitions of the property
func (c *Ctx) Specs() {
	c.Rule(ruleSpec, "the symbolic summary of the function (results, final contents of everything reachable from its arguments, condition to panic, other effects), computed from its current source for all inputs, equals that of the reference definition")
	var us []*unit
	for _, sf := range c.specs {
		us = append(us, sf.units...)
	}
	sort.Slice(us, func(i, j int) bool { return us[i].fn < us[j].fn })
	for _, u := range us {
		c.runUnit(u)
	}
}

func (c *Ctx) runUnit(u *unit) {
	fn := c.Need(u.file.pkg, u.target)
	if fn == nil {
		return
	}
	name := u.file.pkg + "." + u.target
	spec := c.P.Func(u.file.pkg, u.fn)
	if spec == nil {
		c.Add(ruleSpec, name, fn.Pos(), Undecided, "reference definition not loaded")
		return
	}
	if u.law {
		name += " (" + strings.TrimPrefix(u.fn, "gsaLaw_") + ")"
	} else if len(fn.Params) != len(spec.Params) || fn.Signature.Results().Len() != spec.Signature.Results().Len() {
		c.Add(ruleSpec, name, fn.Pos(), Undecided, "the signature differs from the documented one")
		return
	}
	type out struct {
		st   Status
		d    string
		pos  token.Pos
		what string
	}
	var res []out
	func() {
		defer func() { sem.Deadline = time.Time{} }()
		sem.ResetRun()
		sem.Deadline = time.Now().Add(60 * time.Second)
		defer func() {
			if r := recover(); r != nil {
				if r == "time limit" {
					if sem.Debug {
						println(string(debug.Stack()))
					}
					res = append(res, out{Undecided, "the evaluation exceeded its time limit", fn.Pos(), ""})
					return
				}
				res = append(res, out{Undecided, fmt.Sprintf("the evaluation failed: %v %s", r, short(string(debug.Stack()), 600)), fn.Pos(), ""})
			}
		}()
		ev := sem.NewEval(c.P.Prog, c.P.Module)
		ev.Opaque = func(f *ssa.Function) bool {
			n := f.Name()
			if r := f.Signature.Recv(); r != nil {
				t := r.Type().String()
				n = t[strings.LastIndex(t, ".")+1:] + "." + n
			}
			return u.opaque[n] || n == "gsaUndefined"
		}
		params := ev.ParamSyms(spec)
		pre := sem.True
		if u.pre != "" {
			pf := c.P.Func(u.file.pkg, u.pre)
			pr := ev.Call(pf, params, nil)
			pre = sem.BoolTerm(pr.Vals[0])
			sem.Assume(pre)
			defer sem.Assume(sem.True)
		}
		keep := func(e *sem.Event) bool {
			if e.Kind == "makeslice" || e.Kind == "bound" || strings.HasPrefix(e.Kind, "list.") || u.ignore[e.Kind] {
				return false
			}
			if strings.HasPrefix(e.Kind, "call:") {
				k := e.Kind[5:]
				if u.ignore[k] || pureCall(k) || strings.HasSuffix(k, ".gsaUndefined") {
					return false
				}
				for o := range u.opaque {
					if strings.HasSuffix(k, "."+o) || strings.HasSuffix(k, ")."+o) {
						return u.opts["order"] != ""
					}
					if i := strings.IndexByte(o, '.'); i >= 0 && strings.HasSuffix(k, "."+o[:i]+")."+o[i+1:]) {
						return u.opts["order"] != ""
					}
				}
			}
			return true
		}
		ev.Follow = u.opts["follow"] != ""
		_, nilness := u.opts["nilness"]
		_, bounds := u.opts["bounds"]
		_, divisors := u.opts["divisors"]
		if u.law && bounds {
			ev.Bounds = true
			n, bad := ev.FailsAt(ev.Call(spec, params, nil), params, pre, 20)
			ev.Bounds, ev.Divisors = false, false
			ev.Events = nil
			res = append(res, out{OK, "", fn.Pos(), fmt.Sprintf("%d indices and sizes", n)})
			for _, b := range bad {
				res = append(res, out{Bad, "fails for " + b.When.Aux, b.Pos, b.What + " in " + b.Fn.Name()})
			}
		} else if bounds || divisors {
			ev.Bounds, ev.Divisors = bounds, divisors
			n, bad := ev.Failures(ev.Call(fn, params, nil), pre)
			ev.Bounds, ev.Divisors = false, false
			ev.Events = nil
			what := "%d indices and sizes"
			if divisors {
				what = "%d divisors"
			}
			res = append(res, out{OK, "", fn.Pos(), fmt.Sprintf(what, n)})
			for _, b := range bad {
				res = append(res, out{Bad, "can fail: " + short(b.When.String(), 1500), b.Pos, b.What + " in " + b.Fn.Name()})
			}
		}
		b := ev.Summarize(spec, params, nil, pre, keep)
		pre = sem.And(pre, sem.Not(b.Undef))
		if u.law {
			v := sem.Constrain(sem.BoolTerm(b.Vals[0]), pre)
			switch {
			case (v == sem.True || sem.Proved(v, pre)) && b.Panic == sem.False:
				res = append(res, out{OK, "", fn.Pos(), "law: " + u.doc})
			case sem.Undecided(v):
				res = append(res, out{Undecided, "holds only if " + short(v.String(), 1500), fn.Pos(), "law: " + u.doc})
			default:
				res = append(res, out{Bad, "holds only if " + short(v.String(), 1200) + " and not " + short(b.Panic.String(), 300), fn.Pos(), "law: " + u.doc})
			}
			return
		}
		a := ev.Summarize(fn, params, nil, pre, keep)
		cmp := func(what string, x, y *sem.T) {
			if sem.SameWays(x, y, pre) {
				res = append(res, out{OK, "", fn.Pos(), what})
				return
			}
			st := Bad
			if sem.Undecided(x) {
				st = Undecided
			}
			res = append(res, out{st, fmt.Sprintf("code: %s; expected: %s", short(x.String(), 1500), short(y.String(), 1500)), fn.Pos(), what})
		}
		only := u.opts["only"]
		if only == "" || strings.Contains(only, "panic") {
			cmp("condition to panic", a.Panic, b.Panic)
		}
		if only == "" || strings.Contains(only, "result") {
			for i := range a.Vals {
				if u.ignore[fmt.Sprintf("result%d", i)] {
					continue
				}
				x, y := a.Vals[i], b.Vals[i]
				if nilness && types.Identical(fn.Signature.Results().At(i).Type(), types.Universe.Lookup("error").Type()) {
					x, y = sem.Eq(x, sem.Nil), sem.Eq(y, sem.Nil)
				}
				cmp(fmt.Sprintf("result %d", i), x, y)
			}
		}
		if only == "" || strings.Contains(only, "after") {
			for i := range a.After {
				if u.ignore[fmt.Sprintf("after%d", i)] {
					continue
				}
				if a.After[i] == b.After[i] && a.After[i] == a.Before[i] {
					continue
				}
				cmp("content of argument "+fn.Params[i].Name()+" afterwards", a.After[i], b.After[i])
			}
		}
		if !ev.Follow && (only == "" || strings.Contains(only, "after")) {
			ev.Worlds(fn, a, b, nil, pre, func(region string, x, y *sem.T) {
				if u.ignore["region "+region] {
					return
				}
				cmp("content of "+region+" in objects of the caller afterwards", x, y)
			})
		}
		if only == "" || strings.Contains(only, "events") {
			left := map[*sem.T]int{}
			for _, e := range b.Events {
				left[e.Term]++
			}
			var extra []*sem.EventInfo
			for _, e := range a.Events {
				if left[e.Term] > 0 {
					left[e.Term]--
					res = append(res, out{OK, "", e.Pos, "effect " + e.Kind})
				} else {
					extra = append(extra, e)
				}
			}
			for _, e := range extra {
				st := Bad
				if sem.Undecided(e.Term) {
					st = Undecided
				}
				res = append(res, out{st, "unexpected effect: " + short(e.Term.String(), 1500), e.Pos, "effect " + e.Kind})
			}
			for t, n := range left {
				for ; n > 0; n-- {
					res = append(res, out{Bad, "missing effect: " + short(t.String(), 1500), fn.Pos(), "effects"})
				}
			}
		}
		for _, n := range a.Notes {
			_ = n
		}
	}()
	c.Count("functions compared", 1)
	for _, o := range res {
		c.Add(ruleSpec, name+": "+o.what, o.pos, o.st, o.d)
	}
}

// pureCall tells that an uninterpreted library function has no effect
func pureCall(k string) bool {
	for _, p := range []string{"math.", "strings.", "strconv.", "fmt.Sprint", "fmt.Errorf", "errors.New", "sort.Search", "mat.New", "bytes.", "encoding/json.Marshal", "json.Marshal"} {
		if strings.HasPrefix(k, p) {
			return true
		}
	}
	return false
}
