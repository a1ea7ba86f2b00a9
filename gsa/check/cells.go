package check

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// D02: cells are loaded as the numbers they are or refused
func checkD02(c *Ctx) {
	c.Specs()
	rule := "malformed input is refused"
	c.Rule(rule, "on every path on which reading a row or converting a cell fails, the loader raises the failure; it never returns a table")
	for _, nm := range []string{"ParseCSV", "ReadCSV"} {
		fn := c.P.Func("featselect", nm)
		if fn == nil || len(fn.Blocks) == 0 {
			c.Add("anchor", nm, token.NoPos, Undecided, "the routine was not found")
			continue
		}
		f := &faults{c: c, name: nm, root: fn, kinds: func(k string) bool { return k == fRead || k == fDecode }}
		f.run()
		f.report(rule)
		c.Count("loaders", 1)
	}
	// numbers are converted nowhere else in a way that drops the failure
	conv := "conversions check their error"
	c.Rule(conv, "every conversion of text to a number in the module lets the caller see its error")
	for f := range ssautil.AllFunctions(c.P.Prog) {
		if f.Pkg == nil || strings.HasPrefix(f.Name(), "gsa") || !c.P.InModule(f.Pkg.Pkg.Path()) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || fallible(call.Common()) != fDecode {
					continue
				}
				used := false
				if _, tuple := call.Type().(*types.Tuple); tuple && call.Referrers() != nil {
					for _, r := range *call.Referrers() {
						if e, ok := r.(*ssa.Extract); ok && e.Index == call.Common().Signature().Results().Len()-1 && len(*e.Referrers()) > 0 {
							used = true
						}
						if _, ok := r.(*ssa.Return); ok {
							used = true
						}
					}
				} else if call.Referrers() != nil && len(*call.Referrers()) > 0 {
					used = true
				}
				c.Check(used, conv, f.String()+": "+extName(call.Common()), call.Pos(), "the error of the conversion is dropped")
			}
		}
	}
	c.AtLeast("failures followed", 3)
}

func init() {
	registry["D02"] = checkD02
	explain["D02"] = "ParseCSV is normalised to a value graph and compared with its reference definition (every cell of every row after the header is strconv.ParseFloat of the cell without surrounding blanks, every failure is raised, the rows end only at io.EOF); a path-sensitive fault analysis follows every failing read and conversion through the loaders; every conversion in the module has its error looked at."
}
