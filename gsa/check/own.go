package check

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"gsa/load"
	"gsa/pta"

	"golang.org/x/tools/go/ssa"
)

// analyse runs the points-to analysis of a root once
func (c *Ctx) analyse(f *ssa.Function) *pta.An {
	if c.anal == nil {
		c.anal = map[string]interface{}{}
	}
	k := "pta:" + f.String()
	if a, ok := c.anal[k].(*pta.An); ok {
		return a
	}
	var impls []types.Type
	if v, ok := c.anal["impls"].([]types.Type); ok {
		impls = v
	} else {
		impls = pta.Implementers(c.P.Prog, c.P.Module)
		c.anal["impls"] = impls
	}
	a := pta.New(c.P.Prog, c.P.Module, impls)
	a.Run(f)
	c.anal[k] = a
	for k := range a.Ctxs {
		c.Funcs[k_fn(a, k)] = true
	}
	c.Count("points-to contexts", len(a.Ctxs))
	c.Count("memory accesses", len(a.AccList))
	return a
}

func k_fn(a *pta.An, k interface{}) string { return a.CtxFn(k) }

// api is the exported interface of the analysed library at the pinned commit.
// For each function: the parameters (by position, receiver first; -1 none) it
// may change, as type-level prefixes of what may be written.
var api = map[string][]string{
	"CLasso.Deriv": nil, "CLasso.Update": {"0"}, "Dataset.Copy": nil, "Dataset.FeatNoByName": nil, "Dataset.GetFeatName": nil, "Dataset.GetSubset": nil,
	"Dataset.IsEqual": nil, "Dataset.MarshalJSON": nil, "Dataset.Save": nil, "Dataset.SaveHandle": {"1"}, "Dataset.UnmarshalJSON": {"0"},
	"ElasticNet.Deriv": nil, "ElasticNet.Update": nil, "Empirical.Get": nil, "Highscore.BestScore": nil, "Highscore.Equal": nil,
	"Highscore.Insert": {"0"}, "Highscore.Len": nil, "Highscore.MarshalJSON": nil, "Highscore.Scores": nil, "Highscore.UnmarshalJSON": {"0"},
	"Identity.Get": nil, "IndexedColVecView.At": nil, "IndexedColVecView.AtVec": nil, "IndexedColView.At": nil, "IndexedColView.T": nil,
	"LassoLarsPath.ExtractPath": nil, "LassoLarsPath.GetCriteria": nil, "LassoLarsPath.MaxMinFeatNo": nil, "LassoLarsPath.PickMostRelevantFeatures": nil,
	"LassoLarsPath.PlotDeviations": nil, "LassoLarsPath.PlotEntranceTimes": nil, "LassoLarsPath.PlotPath": nil, "LassoLarsPath.PlotQualityScores": nil,
	"LazyPowerMatrix.AddPower": {"0"}, "LazyPowerMatrix.AddPowerSequence": {"0"}, "LazyPowerMatrix.FullMatrix": nil, "LazyPowerMatrix.GetCol": nil, "LazyPowerMatrix.NumCols": nil,
	"Model.Flip": {"0"}, "Model.Get": nil, "Model.Set": {"0"}, "Model.ToBools": nil,
	"MorsePenroseCD.C": nil, "MorsePenroseCD.D": nil, "MorsePenroseCD.SetActiveSet": {"0"}, "MorsePenroseCD.SetX": {"0"},
	"Node.EstimateMemory": nil, "Node.GetChildNode": nil, "Node.MarshalJSON": nil, "Node.ToSparseCoeff": nil, "Node.UnmarshalJSON": {"0"},
	"NormalizedData.LinearNormalizationTransformation": nil, "NormalizedData.LinearTransformationBias": nil,
	"PureLasso.Deriv": nil, "PureLasso.Update": nil, "SAScore.Exists": nil, "SAScore.Insert": {"0", "1"},
	"SearchProgress.Get": nil, "SearchProgress.Set": {"0"}, "SliceVec.At": nil, "SliceVec.AtVec": nil, "SparseThresholded.Get": nil,
	"ThresholdOperator.Apply": {"0", "1"}, "cLassoCohen.GetSelection": {"0"}, "cLassoCohen.GetX": nil, "pureLassoCohen.GetSelection": {"0 pureLassoCohen.x0"}, "pureLassoCohen.GetX": nil,
	"Abs": {"0"}, "Aic": nil, "Aicc": nil, "All": nil, "Argmax": nil, "Argmin": nil, "Argsort": nil, "Bic": nil, "BoundsAIC": nil, "BoundsAICC": nil,
	"BruteForceSelect": nil, "CalculateCohenSequence": {"1 pureLassoCohen.x0"}, "CalculateFNormDiff": nil, "CleanQueue": {"0"}, "CohenKappa": nil,
	"CohensKappaWorker": {"0 pureLassoCohen.x0"}, "CovarianceMatrix": nil, "CreateChild": nil, "CreateChildNodes": nil, "DenumMatrixGcv": nil, "EqualInt": nil, "ExistInt": nil,
	"Fit": nil, "FullCoeffVector": nil, "Gcs": nil, "Gcv": nil, "GetCohensKappa": {"1 pureLassoCohen.x0"}, "GetDesignMatrix": nil, "IterProduct": nil,
	"L2ConsistentCovTO": nil, "LassoCrdDesc": {"6 CLasso.beta"}, "LassoCrdDescPath": {"5 CLasso.beta"}, "LassoLars": {"2"}, "LassoLarsPathFromBytes": nil, "LassoLarsPathFromJSON": nil,
	"LassoNodesSlice2SparsCoeff": nil, "Lcs": nil, "Logspace": nil, "MapSelectionByName": {"2"}, "MaxInt": nil, "Mean": nil, "MinFloat": nil, "MinInt": nil, "MulSlice": nil,
	"NestedLasso": {"3"}, "NewCLasso": nil, "NewHighscore": nil, "NewIndexedColVecView": nil, "NewIndexedColView": nil, "NewLassoLarsNode": nil, "NewLazyMatrix": nil, "NewLog2Pruned": nil,
	"NewModel": nil, "NewNode": nil, "NewNormalizedData": {"0", "1"}, "NewSAItem": nil, "NewSliceVec": nil, "NewSparseThreshold": nil, "NodesEqual": nil,
	"NormalizeArray": {"0"}, "NormalizeCols": {"0"}, "NormalizeRows": {"0"}, "NumFeatures": nil, "Omp": nil, "ParseCSV": nil, "Path2Unnormalized": {"1"}, "PerformLassoCrd": {"0 CLasso.beta"},
	"PerformNormDiffWork": nil, "Predict": nil, "PredictOne": nil, "PrintHighscore": nil, "PseudoInverse": nil, "PseudoInverseXTX": nil, "RandomRowSplit": nil, "ReadCSV": nil,
	"RearrangeDense": nil, "RemoveLeastPromising": {"0"}, "Rss": nil, "ScoreWorker": {"0 Node.Coeff", "0 Node.Score"}, "SelectModel": {"2", "3"}, "SelectModelSA": nil, "Selected2Model": nil,
	"SelectedFeatures": nil, "SoftThreshold": nil, "Std": nil, "Sum": nil, "UnionInt": {"0 append"}, "UnsatisfiedKKTConditions": nil, "UpdateCovDotBeta": {"1"},
	"WeightedAveragedCoeff": nil, "WeightsFromAIC": nil,
}

func apiNames() []string {
	var r []string
	for k := range api {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func checkE01(c *Ctx) {
	c.Rule("caller data unmodified", "no instruction reachable from an exported routine, in any calling context, writes memory that one of its parameters points to, except the parameters it exists to change")
	c.Rule("input data of a tool unmodified", "in a command line tool that writes the data set it read into its output, the data set is not changed after ReadCSV has returned it")
	for _, n := range apiNames() {
		f := c.Need("featselect", n)
		if f == nil {
			continue
		}
		a := c.analyse(f)
		bad := map[int]map[string]*pta.Access{}
		for _, ac := range a.AccList {
			if !ac.Write || ac.Loc.O.Kind != pta.KParam {
				continue
			}
			i := ac.Loc.O.Root
			d := a.TypeDesc(ac.Loc)
			ok := false
			for _, al := range api[n] {
				p := strings.SplitN(al, " ", 2)
				if p[0] != fmt.Sprint(i) {
					continue
				}
				if len(p) == 1 || p[1] == "append" && ac.Append || strings.HasPrefix(d, p[1]) {
					ok = true
				}
			}
			if ok {
				continue
			}
			if bad[i] == nil {
				bad[i] = map[string]*pta.Access{}
			}
			bad[i][a.Describe(ac.Loc)] = ac
		}
		for i, p := range f.Params {
			if len(pta.Flat(p.Type())) == 0 {
				continue
			}
			c.Count("parameters", 1)
			name := fmt.Sprintf("%s argument %d", n, i)
			if len(bad[i]) == 0 {
				c.Add("caller data unmodified", name, f.Pos(), OK, "")
				continue
			}
			var ds []string
			for d := range bad[i] {
				ds = append(ds, d)
			}
			sort.Strings(ds)
			ac := bad[i][ds[0]]
			c.Add("caller data unmodified", name, ac.Instr.Pos(), Bad, "%s writes %s of its caller at %s (%s)", n, strings.Join(ds, ", "), c.Where(ac.Instr.Pos()), ctxPath(ac.Ctx))
		}
	}
	for _, r := range c.toolRoots() {
		a := c.analyse(r.fn)
		// contexts of ReadCSV
		found := false
		type hit struct {
			ac *pta.Access
			d  string
		}
		var hits []hit
		encoded := false
		for _, cx := range a.CtxList() {
			if cx.Fn.Name() != "ReadCSV" || cx.Fn.Pkg == nil || cx.Fn.Pkg.Pkg.Path() != c.P.Module+"/featselect" {
				continue
			}
			found = true
			ro := a.RetOf(cx)
			objs := a.Reach(ro, "#0", cx.Fn.Signature.Results().At(0).Type())
			for _, ac := range a.AccList {
				if _, ok := objs[ac.Loc.O]; ok && !under(ac.Ctx, cx) && calls(ac.Instr, "encoding/json", "") {
					encoded = true
				}
			}
			for _, ac := range a.AccList {
				if !ac.Write {
					continue
				}
				if _, ok := objs[ac.Loc.O]; !ok || under(ac.Ctx, cx) {
					continue
				}
				if ac.Loc.O.Kind != pta.KAlloc && ac.Loc.O.Kind != pta.KExt {
					continue
				}
				hits = append(hits, hit{ac, a.Describe(ac.Loc)})
			}
		}
		if !found || !encoded {
			continue
		}
		c.Count("tools writing their data set", 1)
		if len(hits) == 0 {
			c.Add("input data of a tool unmodified", r.name, r.fn.Pos(), OK, "")
		} else {
			h := hits[0]
			c.Add("input data of a tool unmodified", r.name, h.ac.Instr.Pos(), Bad, "writes %s of the data set returned by ReadCSV (%s)", h.d, ctxPath(h.ac.Ctx))
		}
	}
	c.AtLeast("parameters", 150)
	c.AtLeast("tools writing their data set", 2)
}

func under(x, top *pta.Ctx) bool {
	for ; x != nil; x = x.Parent {
		if x == top {
			return true
		}
	}
	return false
}

func ctxPath(x *pta.Ctx) string {
	var s []string
	for ; x != nil; x = x.Parent {
		s = append([]string{x.Fn.Name()}, s...)
	}
	return strings.Join(s, " > ")
}

type tool struct {
	name string
	fn   *ssa.Function
}

// toolRoots lists the entry points of the command line tools: the functions
// stored in the Run fields of cobra commands and the main functions
func (c *Ctx) toolRoots() []tool {
	var r []tool
	var paths []string
	for p := range c.P.SSA {
		if pta.InModule(p, c.P.Module) {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	for _, p := range paths {
		sp := c.P.SSA[p]
		if m := sp.Func("main"); m != nil && sp.Pkg.Name() == "main" && p != c.P.Module {
			r = append(r, tool{strings.TrimPrefix(p, c.P.Module+"/"), m})
		}
		var fns []*ssa.Function
		for _, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok {
				fns = append(fns, f)
			}
		}
		sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
		for _, f := range fns {
			for _, b := range f.Blocks {
				uses := map[ssa.Value]string{}
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
					n, ok := pt.(*types.Named)
					if !ok || n.Obj().Name() != "Command" || n.Obj().Pkg().Name() != "cobra" {
						continue
					}
					fld := pt.Underlying().(*types.Struct).Field(fa.Field).Name()
					if fld == "Use" {
						if k, ok := st.Val.(*ssa.Const); ok {
							uses[fa.X] = strings.Trim(k.Value.ExactString(), `"`)
						}
					}
				}
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
					n, ok := pt.(*types.Named)
					if !ok || n.Obj().Name() != "Command" || n.Obj().Pkg().Name() != "cobra" {
						continue
					}
					fld := pt.Underlying().(*types.Struct).Field(fa.Field).Name()
					if fld != "Run" && fld != "RunE" {
						continue
					}
					if fn := funcValue(st.Val); fn != nil {
						r = append(r, tool{"command " + strings.Fields(uses[fa.X] + " ?")[0], fn})
					}
				}
			}
		}
	}
	return r
}

func funcValue(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.ChangeType:
		return funcValue(x.X)
	}
	return nil
}

// indep lists the routines whose results must not share storage: with which
// parameters (all of them unless listed as kept), and which part of the result
type indepSpec struct {
	keep   string // parameters whose storage the result may keep, "0,1"
	only   string // only this field of the first result
	mutual bool   // different results share nothing
	elems  bool   // elements of the result share nothing
}

var indep = map[string]indepSpec{
	"Dataset.Copy": {}, "Dataset.GetSubset": {}, "NewNode": {}, "Node.GetChildNode": {}, "NewLassoLarsNode": {}, "GetDesignMatrix": {},
	"IterProduct": {elems: true}, "FullCoeffVector": {}, "Gcs": {}, "Lcs": {}, "Selected2Model": {}, "SelectedFeatures": {}, "RandomRowSplit": {mutual: true},
	"NewModel": {}, "Model.ToBools": {}, "NewSAItem": {}, "RearrangeDense": {}, "LazyPowerMatrix.GetCol": {}, "LazyPowerMatrix.FullMatrix": {},
	"PseudoInverse": {}, "PseudoInverseXTX": {}, "LassoCrdDesc": {}, "LassoLars": {elems: true}, "LassoCrdDescPath": {elems: true}, "NestedLasso": {only: "Paths", elems: true},
	"Omp": {elems: true}, "Fit": {}, "Predict": {}, "MulSlice": {}, "CovarianceMatrix": {}, "Argsort": {}, "BruteForceSelect": {elems: true}, "SelectModelSA": {elems: true},
	"WeightedAveragedCoeff": {}, "WeightsFromAIC": {}, "Highscore.Scores": {}, "Empirical.Get": {}, "SparseThresholded.Get": {}, "Identity.Get": {},
	"CreateChild": {}, "LassoLarsPath.PickMostRelevantFeatures": {}, "LassoLarsPath.GetCriteria": {}, "LassoLarsPath.ExtractPath": {},
	"MorsePenroseCD.C": {}, "MorsePenroseCD.D": {}, "UnsatisfiedKKTConditions": {}, "NewCLasso": {}, "L2ConsistentCovTO": {},
}

func checkE02(c *Ctx) {
	c.Rule("result independent", "no memory reachable from the result is reachable from a parameter (or a package variable)")
	c.Rule("results mutually independent", "the memory reachable from different results is disjoint")
	c.Rule("elements independent", "whatever pointer is stored into an element of a result container was allocated since the previous time that store ran")
	c.Rule("stored copy", "a routine that keeps a copy of what it is given keeps no reference to it")
	var ns []string
	for n := range indep {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		sp := indep[n]
		f := c.Need("featselect", n)
		if f == nil {
			continue
		}
		a := c.analyse(f)
		rs := f.Signature.Results()
		var reach []map[*pta.Obj][]string
		all := map[*pta.Obj]bool{}
		var bad []string
		for i := 0; i < rs.Len(); i++ {
			o, p := a.Ret(i)
			t := rs.At(i).Type()
			var m map[*pta.Obj][]string
			if sp.only != "" {
				m = map[*pta.Obj][]string{}
				st, ok := t.Underlying().(*types.Struct)
				if ok {
					for k := 0; k < st.NumFields(); k++ {
						if st.Field(k).Name() == sp.only {
							m = a.Reach(o, fmt.Sprintf("%s.%d", p, k), st.Field(k).Type())
						}
					}
				}
			} else {
				m = a.Reach(o, p, t)
			}
			reach = append(reach, m)
			for ob := range m {
				all[ob] = true
				if (ob.Kind == pta.KParam || ob.Kind == pta.KGlobal) && !strings.Contains(sp.keep, fmt.Sprint(ob.Root)) {
					bad = append(bad, fmt.Sprintf("result %d shares %s", i, ob.Name))
				}
			}
		}
		c.Count("independent results", rs.Len())
		sort.Strings(bad)
		c.Check(len(bad) == 0, "result independent", n, f.Pos(), "%s", strings.Join(bad, "; "))
		if sp.mutual {
			var sh []string
			for i := range reach {
				for j := i + 1; j < len(reach); j++ {
					for ob := range reach[i] {
						if _, ok := reach[j][ob]; ok && ob.Kind != pta.KFunc {
							sh = append(sh, fmt.Sprintf("results %d and %d share %s", i, j, a.Describe(pta.Loc{O: ob})))
						}
					}
				}
			}
			c.Check(len(sh) == 0, "results mutually independent", n, f.Pos(), "%s", strings.Join(sh, "; "))
		}
		if sp.elems {
			c.elemsFresh(a, n, all)
		}
	}
	c.AtLeast("independent results", 40)
	c.AtLeast("element stores", 4)
}

// elemsFresh checks the stores into elements of containers of the result
func (c *Ctx) elemsFresh(a *pta.An, n string, objs map[*pta.Obj]bool) {
	for _, ac := range a.AccList {
		st, ok := ac.Instr.(*ssa.Store)
		if !ok || !ac.Write {
			continue
		}
		elem := strings.HasSuffix(ac.Loc.Path, "]")
		if !elem && (ac.Ctx.Fn.Pkg == nil || !pta.InModule(ac.Ctx.Fn.Pkg.Pkg.Path(), c.P.Module)) {
			continue
		}
		if !elem && (!objs[ac.Loc.O] || ac.Loc.O.Kind != pta.KAlloc || ac.Loc.O.Site == nil) {
			continue
		}
		vt := st.Val.Type()
		fl := pta.Flat(vt)
		if len(fl) == 0 {
			continue
		}
		r := a.RegOf(ac.Ctx, st.Val)
		var fresh []pta.Point
		mine, shared := false, ""
		for _, s := range fl {
			for _, l := range a.Pts(r, s) {
				if l.Via != nil {
					continue // received: made for this message, see C02
				}
				if l.O.Kind == pta.KFunc || l.O.Kind == pta.KBox {
					continue
				}
				if !objs[l.O] {
					continue
				}
				if l.O.Kind == pta.KAlloc || l.O.Kind == pta.KExt {
					mine = true
					fresh = append(fresh, pta.Point{Ctx: l.O.Ctx, Instr: l.O.Site})
					shared = a.Describe(l)
				}
			}
		}
		if !mine {
			continue
		}
		p := pta.Point{Ctx: ac.Ctx, Instr: ac.Instr}
		if !elem {
			// a field of an element: only an element made anew for each store
			// is a different one
			if pta.After(p, p, []pta.Point{{Ctx: ac.Loc.O.Ctx, Instr: ac.Loc.O.Site}}) {
				continue
			}
		}
		c.Count("element stores", 1)
		if pta.After(p, p, fresh) {
			c.Add("elements independent", n, st.Pos(), Bad, "the same %s can be stored into more than one element (%s)", shared, ctxPath(ac.Ctx))
		} else {
			c.Add("elements independent", n, st.Pos(), OK, "")
		}
	}
}

func init() {
	registry["E01"] = checkE01
	registry["E02"] = checkE02
	explain["E01"] = "Interprocedural mod analysis: a field-sensitive, context-sensitive points-to analysis of every exported routine with symbolic parameter objects; each write instruction (stores, copy, append, in-place library calls, JSON decoding) reachable from the routine is checked not to target memory owned by a parameter the routine may not change. The command line tools are analysed as whole programs for writes to the data set they read."
	explain["E02"] = "Escape/alias analysis: with the same points-to analysis, the memory reachable from each listed result is checked to be disjoint from everything reachable from the parameters and from the other results; stores into elements of result containers are checked to store an allocation made since the previous execution of the store (no loop cycle around the store avoids the allocation)."
}

var _ = load.PtrTo

// calls tells whether an instruction calls a function of a package
func calls(in ssa.Instruction, pkg, name string) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	cc := ci.Common()
	if cc.IsInvoke() {
		return cc.Method.Pkg() != nil && cc.Method.Pkg().Path() == pkg && (name == "" || cc.Method.Name() == name)
	}
	f := cc.StaticCallee()
	return f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == pkg && (name == "" || f.Name() == name)
}
