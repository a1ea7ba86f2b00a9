package check

import (
	"go/token"
	"go/types"
	"strings"

	"gsa/sem"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func init() {
	registry["D03"] = func(c *Ctx) {
		c.Specs()
		c.jsonTypes()
	}
	registry["D04"] = func(c *Ctx) { c.Specs() }
	explain["D03"] = explainSpec + " Encoding and decoding are modelled by the tree of JSON names of the value that is passed to encoding/json, computed from the types and tags of the current source (fields that share a name or are excluded do not appear); content that the input does not mention keeps what the receiver had. In addition every type that reaches encoding/json without a form of its own is examined for exported fields that would be dropped, or could not be encoded."
	explain["D04"] = explainSpec + " Errors are compared by whether there is one. Every index, slice, allocation and matrix construction in the decoders gives an obligation: that it fails is refuted, for all inputs, from the conditions under which it is reached (linear integer arithmetic, with statements about all positions of a list used at the positions that occur); a size read from the file must have a limit before memory is asked for."
}

// jsonTypes examines all types that are encoded or decoded
func (c *Ctx) jsonTypes() {
	const rule = "no field is dropped"
	c.Rules[rule] = "each exported field of a type that is encoded or decoded as JSON has a name of its own"
	seen := map[types.Type]bool{}
	var visit func(t types.Type, pos token.Pos)
	visit = func(t types.Type, pos token.Pos) {
		if seen[t] {
			return
		}
		seen[t] = true
		n, named := t.(*types.Named)
		if named && (hasOwnJSON(n) || n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), c.P.Module)) {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			visit(u.Elem(), pos)
		case *types.Slice:
			visit(u.Elem(), pos)
		case *types.Array:
			visit(u.Elem(), pos)
		case *types.Map:
			visit(u.Elem(), pos)
		case *types.Chan, *types.Signature:
			c.Add(rule, t.String(), pos, Bad, "a value of this type cannot be encoded")
		case *types.Struct:
			name := t.String()
			if named {
				name = n.Obj().Name()
				pos = n.Obj().Pos()
			}
			for i, nm := range sem.JSONNames(u) {
				f := u.Field(i)
				if !f.Exported() {
					continue
				}
				if nm == "" {
					c.Add(rule, name+"."+f.Name(), f.Pos(), Bad, "the field is neither written nor read")
					continue
				}
				c.Add(rule, name+"."+f.Name(), f.Pos(), OK, "as %q", nm)
				visit(f.Type(), f.Pos())
			}
		}
	}
	for f := range ssautil.AllFunctions(c.P.Prog) {
		if f.Pkg == nil || !c.P.InModule(f.Pkg.Pkg.Path()) || strings.HasPrefix(f.Name(), "gsaSpec_") || strings.HasPrefix(f.Name(), "gsaLaw_") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := call.Common().StaticCallee()
				if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "encoding/json" {
					continue
				}
				var v ssa.Value
				args := call.Common().Args
				switch g.Name() {
				case "Marshal", "MarshalIndent":
					v = args[0]
				case "Unmarshal", "Encode", "Decode":
					v = args[1]
				default:
					continue
				}
				if m, ok := v.(*ssa.MakeInterface); ok {
					visit(m.X.Type(), call.Pos())
				}
			}
		}
	}
}

func hasOwnJSON(t types.Type) bool {
	ms := types.NewMethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText":
			return true
		}
	}
	return false
}
