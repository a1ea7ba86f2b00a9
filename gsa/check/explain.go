package check

const explainSpec = "Static translation validation: the routine of the repository and a reference definition in gsa/specs are both turned into gated value graphs (SSA with path conditions instead of phis, loops as sums, products, searches, element-wise definitions or fixed points) and normalised over the real field, linear integer arithmetic and a theory of slices, matrices and maps; the routine is accepted if every result, every write to memory of its caller, the ordered calls to the outside and the condition of panicking are equal to those of the reference for all inputs. Calls are followed into callees. Arguments passed at different places are distinct objects; floating-point arithmetic is treated as exact."

func init() {
	explain["K01"] = explainSpec
	explain["K02"] = explainSpec
	explain["K03"] = explainSpec
	explain["M02"] = explainSpec + " Bit-packed models are decided by laws (flag i after Set, Flip, ToBools) instead of a representation."
	explain["L01"] = explainSpec + " A singular value decomposition is an uninterpreted factor of its matrix."
	explain["N01"] = explainSpec
	explain["H01"] = explainSpec + " A container/list is a sequence of values with a closed form for insertions, removals and traversals."
	explain["D01"] = explainSpec
	explain["B01"] = explainSpec + " The removals from the queue of the search and the sending on of children are followed on all paths by property simulation."
}
