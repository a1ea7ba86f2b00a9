F="featselect/"
A=F+"lasso_lars.go"
L=F+"lassoCrdDesc.go"
P=["L02"]
SORT='''		sort.Ints(activeSet)

'''
HEAD='''		// To make it consistent with how the design matrix works, we keep the activeSet
		// in ascending order
		sort.Ints(activeSet)

		signs := NewIndexedColVecView(allSigns, activeSet)
		Xe := NewIndexedColView(data.X, activeSet)

		estimator.SetActiveSet(activeSet)
'''
C="llp.c = estimator.C(yVec)\n"
APP="		res = append(res, NewLassoLarsNode(lrs.RawVector().Data, lamb, activeSet))\n"
BETA="		lrs := betaLARS(&llp, lamb)\n"
CTOR='''	l.Coeff = make([]float64, len(coeff))
	copy(l.Coeff, coeff)
	l.Lamb = lamb
	l.Selection = make([]int, len(selection))
	copy(l.Selection, selection)
'''
JT='''			if jt > lamb {
				// We are close to numerical tolerance
				break
			}
			lamb = jt
'''
CT='''			if ct > lamb {
				// We are close to numerical tolerance
				break
			}
			lamb = ct
'''
COLL='''		selection := []int{}
		selectedCoeff := []float64{}
		for j := range coeff {
			if math.Abs(coeff[j]) > lassoCrdDescZero {
				selection = append(selection, j)
				selectedCoeff = append(selectedCoeff, coeff[j])
			}
		}
		node := NewLassoLarsNode(selectedCoeff, wrk.lamb, selection)
'''
IF='''			if math.Abs(coeff[j]) > lassoCrdDescZero {
				selection = append(selection, j)
				selectedCoeff = append(selectedCoeff, coeff[j])
			}
'''
BL='''	for i := 0; i < beta.Len(); i++ {
		beta.SetVec(i, llp.c.AtVec(i)-lamb*llp.d.AtVec(i))
	}
	return beta
'''
DROP='''			activeSet[cFeat] = activeSet[len(activeSet)-1]
			activeSet = activeSet[:len(activeSet)-1]
'''
CASES=[
# alarms LARS
("no1",P,"alarm",[(A,SORT,""),(A,'	"sort"\n','')]),
("no2",P,"alarm",[(A,SORT,""),(A,C,C+SORT)]), # sort after C computed but before D
("no3",P,"alarm",[(A,SORT,""),(A,APP,SORT+APP)]),
("no4",P,"alarm",[(A,SORT,""),(A,"	activeSet := []int{feat}\n","	activeSet := []int{feat}\n	sort.Ints(activeSet)\n")]),
("no5",P,"alarm",[(A,SORT,"		if jt0 {\n			sort.Ints(activeSet)\n		}\n"),(A,"	lamb := maxTime\n","	lamb := maxTime\n	jt0 := false\n"),(A,"			last.feat = -1\n			activeSet = append","			jt0 = true\n			last.feat = -1\n			activeSet = append"),(A,"			last.coeff = betaLARS","			jt0 = false\n			last.coeff = betaLARS")]),
("no6",P,"alarm",[(A,SORT,"		sort.Sort(sort.Reverse(sort.IntSlice(activeSet)))\n")]),
("no7",P,"alarm",[(A,CTOR,CTOR.replace("	l.Selection = make([]int, len(selection))\n	copy(l.Selection, selection)\n","	l.Selection = selection\n"))]),
("no8",P,"alarm",[(A,JT,"			lamb = jt\n")]),
("no9",P,"alarm",[(A,CT,"			lamb = ct\n")]),
("no10",P,"alarm",[(A,JT,JT.replace("jt > lamb","jt > maxTime"))]),
("no11",P,"alarm",[(A,JT,"			if jt < lamb {\n				lamb = jt\n			} else {\n				lamb = jt + lassoTol\n			}\n")]),
("no12",P,"alarm",[(A,BETA,"" ),(A,APP,APP.replace("lrs.","betaPrev.")),(A,"	estimator.SetX(data.X)\n","	estimator.SetX(data.X)\n	betaPrev := mat.NewVecDense(1, nil)\n"),(A,"		if jt > ct {\n","		betaPrev = betaLARS(&llp, lamb)\n		if jt > ct {\n")]),
("no13",P,"alarm",[(A,APP,""),(A,JT,JT+"			res = append(res, NewLassoLarsNode(lrs.RawVector().Data, lamb, activeSet))\n"),(A,CT,CT+"			res = append(res, NewLassoLarsNode(lrs.RawVector().Data, lamb, activeSet))\n")]),
("no14",P,"alarm",[(A,CTOR,CTOR.replace("copy(l.Coeff, coeff)","copy(l.Coeff[1:], coeff)"))]),
("no15",P,"alarm",[(A,CTOR,CTOR.replace("copy(l.Selection, selection)","copy(l.Selection, selection[1:])"))]),
("no16",P,"alarm",[(A,BL,BL.replace("beta.SetVec(i,","beta.SetVec(beta.Len()-1-i,"))]),
("no17",P,"alarm",[(A,BL,BL.replace("llp.d.AtVec(i)","llp.d.AtVec(beta.Len()-1-i)"))]),
("no19",P,"alarm",[(A,"estimator.SetActiveSet(activeSet)","if len(res) == 0 || len(activeSet) > len(res[len(res)-1].Selection) {\n			estimator.SetActiveSet(activeSet)\n		}")]),
# quiet LARS
("no30",P,"quiet",[(A,SORT,"		sort.Slice(activeSet, func(i, j int) bool { return activeSet[i] < activeSet[j] })\n")]),
("no31",P,"quiet",[(A,SORT,"		sort.Sort(sort.IntSlice(activeSet))\n")]),
("no32",P,"quiet",[(A,SORT,"		orderActive(activeSet)\n"),(A,"func maxJoinTime","func orderActive(s []int) {\n	sort.Ints(s)\n}\n\nfunc maxJoinTime")]),
("no33",P,"quiet",[(A,SORT,"		activeSet = orderActive(activeSet)\n"),(A,"func maxJoinTime","func orderActive(s []int) []int {\n	r := make([]int, len(s))\n	copy(r, s)\n	sort.Ints(r)\n	return r\n}\n\nfunc maxJoinTime")]),
("no34",P,"quiet",[(A,JT,JT+"			sort.Ints(activeSet)\n"),(A,CT,CT+"			sort.Ints(activeSet)\n"),(A,SORT,"\n")]),
("no35",P,"quiet",[(A,CTOR,"	l.Coeff = append([]float64{}, coeff...)\n	l.Lamb = lamb\n	l.Selection = append([]int{}, selection...)\n")]),
("no36",P,"quiet",[(A,CTOR,"	l.Coeff = append([]float64(nil), coeff...)\n	l.Lamb = lamb\n	l.Selection = append(l.Selection, selection...)\n")]),
("no37",P,"quiet",[(A,CTOR,"	l.Lamb = lamb\n	l.Coeff = make([]float64, len(coeff))\n	l.Selection = make([]int, len(selection))\n	for i := range coeff {\n		l.Coeff[i] = coeff[i]\n		l.Selection[i] = selection[i]\n	}\n")]),
("no38",P,"quiet",[(A,"	var l LassoLarsNode\n"+CTOR+"	return &l\n","	c := make([]float64, len(coeff))\n	copy(c, coeff)\n	s := make([]int, len(selection))\n	copy(s, selection)\n	return &LassoLarsNode{Coeff: c, Lamb: lamb, Selection: s}\n")]),
("no40",P,"quiet",[(A,JT,"			if jt <= lamb {\n				lamb = jt\n			} else {\n				break\n			}\n")]),
("no41",P,"quiet",[(A,JT,"			lamb = math.Min(lamb, jt)\n")]),
("no42",P,"quiet",[(A,BETA+APP,"		res = append(res, NewLassoLarsNode(betaLARS(&llp, lamb).RawVector().Data, lamb, activeSet))\n")]),
("no43",P,"quiet",[(A,BETA,""),(A,APP,"		co := make([]float64, len(activeSet))\n		for i := range co {\n			co[i] = llp.c.AtVec(i) - lamb*llp.d.AtVec(i)\n		}\n		res = append(res, NewLassoLarsNode(co, lamb, activeSet))\n")]),
("no44",P,"quiet",[(A,BL,"	beta.AddScaledVec(llp.c, -lamb, llp.d)\n	return beta\n")]),
("no45",P,"quiet",[(A,DROP,"			activeSet = append(activeSet[:cFeat], activeSet[cFeat+1:]...)\n")]),
("no46",P,"quiet",[(A,DROP,"			activeSet = removeAt(activeSet, cFeat)\n"),(A,"func maxJoinTime","func removeAt(s []int, k int) []int {\n	r := make([]int, 0, len(s))\n	for i, v := range s {\n		if i != k {\n			r = append(r, v)\n		}\n	}\n	return r\n}\n\nfunc maxJoinTime")]),
("no47",P,"quiet",[(A,"		if jt > ct {\n","		next := ct\n		if jt > ct {\n			next = jt\n		}\n		if jt > ct {\n"),(A,JT,""),(A,CT,""),(A,"activeSet[:len(activeSet)-1]\n\n		}\n","activeSet[:len(activeSet)-1]\n		}\n		if next > lamb {\n			break\n		}\n		lamb = next\n")]),
("no48",P,"quiet",[(A,"	for lamb > lambMin {\n","	for {\n		if lamb <= lambMin {\n			break\n		}\n")]),
("no49",P,"quiet",[(A,"	for lamb > lambMin {\n","	for !(lamb <= lambMin) {\n"),(A,APP,"		nd := NewLassoLarsNode(lrs.RawVector().Data, lamb, activeSet)\n		res = append(res, nd)\n")]),
("no50",P,"quiet",[(A,BETA+APP,""),(A,"		jt, jFeat :=",BETA+APP+"		jt, jFeat :=")]),
("no52",P,"quiet",[(A,SORT,"		for i := 1; i < len(activeSet); i++ {\n			for j := i; j > 0 && activeSet[j] < activeSet[j-1]; j-- {\n				activeSet[j], activeSet[j-1] = activeSet[j-1], activeSet[j]\n			}\n		}\n"),(A,'	"sort"\n','')]),
("no53",P,"quiet",[(A,"llp.c = estimator.C(yVec)\n		llp.d = estimator.D(signs)","llp = LassoLarsParams{c: estimator.C(yVec), d: estimator.D(signs)}")]),
("no54",P,"quiet",[(A,HEAD,HEAD+"		_ = len(activeSet)\n")]),
("no55",P,"quiet",[(A,"		lrs := betaLARS(&llp, lamb)\n		res = append(res, NewLassoLarsNode(lrs.RawVector().Data, lamb, activeSet))\n","		res = record(res, &llp, lamb, activeSet)\n"),(A,"func maxJoinTime","func record(res []*LassoLarsNode, llp *LassoLarsParams, lamb float64, active []int) []*LassoLarsNode {\n	lrs := betaLARS(llp, lamb)\n	return append(res, NewLassoLarsNode(lrs.RawVector().Data, lamb, active))\n}\n\nfunc maxJoinTime")]),
# alarms CD
("nc1",P,"alarm",[(L,IF,IF.replace("math.Abs(coeff[j])","coeff[j]"))]),
("nc2",P,"alarm",[(L,IF,IF.replace("> lassoCrdDescZero","> 1e-3"))]),
("nc3",P,"alarm",[(L,COLL,COLL.replace("for j := range coeff {","for j := 0; j < len(coeff)-1; j++ {"))]),
("nc4",P,"alarm",[(L,COLL,COLL.replace("for j := range coeff {","for j := 2; j < len(coeff); j++ {"))]),
("nc6",P,"alarm",[(L,IF,IF.replace("coeff[j])\n			}","math.Abs(coeff[j]))\n			}"))]),
("nc7",P,"alarm",[(L,COLL,COLL.replace("for j := range coeff {","for j := len(coeff) - 1; j >= 0; j-- {"))]),
("nc8",P,"alarm",[(L,IF,IF.replace("math.Abs(coeff[j]) > lassoCrdDescZero","math.Abs(coeff[j]) > lassoCrdDescZero && len(selection) < wrk.maxIter"))]),
("nc9",P,"alarm",[(L,"pos := len(lambs) - result.lambIdx - 1","pos := result.lambIdx")]),
("nc10",P,"alarm",[(L,"pos := len(lambs) - result.lambIdx - 1","pos := numReceive")]),
("nc11",P,"alarm",[(L,"const lassoCrdDescZero = 1e-16","const lassoCrdDescZero = 1e-4")]),
("nc12",P,"alarm",[(L,IF,IF.replace("math.Abs(coeff[j]) > lassoCrdDescZero","math.Abs(coeff[j]) > wrk.tol"))]),
("nc15",P,"alarm",[(L,COLL,COLL.replace("for j := range coeff {","for j := len(coeff) - 1; j > 0; j-- {").replace("		node := New","		sort.Ints(selection)\n		node := New")),(L,'	"math"\n','	"math"\n	"sort"\n')]),
("nc41",P,"quiet",[(L,IF,"			v := coeff[j]\n			if v == 0 {\n				continue\n			}\n			selection, selectedCoeff = append(selection, j), append(selectedCoeff, v)\n")]),
("nc42",P,"quiet",[(L,IF,"			c := coeff[j]\n			sign := 1.0\n			if c < 0 {\n				sign = -1.0\n				c = -c\n			}\n			if c > lassoCrdDescZero {\n				selection = append(selection, j)\n				selectedCoeff = append(selectedCoeff, sign*c)\n			}\n")]),
("nc13",P,"alarm",[(L,IF,IF.replace("selection, j)","selection, j+1)"))]),
("nc14",P,"alarm",[(L,COLL,COLL.replace("		node := New","		if len(selection) > 1 {\n			sort.Float64s(selectedCoeff)\n		}\n		node := New")),(L,'	"math"\n','	"math"\n	"sort"\n')]),
# quiet CD
("nc30",P,"quiet",[(L,IF,IF.replace("math.Abs(coeff[j]) > lassoCrdDescZero","coeff[j] != 0.0"))]),
("nc31",P,"quiet",[(L,COLL,COLL.replace("for j := range coeff {","for j, v := range coeff {").replace("coeff[j]","v"))]),
("nc32",P,"quiet",[(L,COLL,COLL.replace("for j := range coeff {","for j := 1; j < len(coeff); j++ {"))]),
("nc33",P,"quiet",[(L,COLL,'''		selection := nonZero(coeff)
		selectedCoeff := make([]float64, len(selection))
		for i, s := range selection {
			selectedCoeff[i] = coeff[s]
		}
		node := NewLassoLarsNode(selectedCoeff, wrk.lamb, selection)
'''),(L,"// LassoCrdDescPath calc",'''func nonZero(v []float64) []int {
	sel := []int{}
	for i := range v {
		if math.Abs(v[i]) > lassoCrdDescZero {
			sel = append(sel, i)
		}
	}
	return sel
}

// LassoCrdDescPath calc''')]),
("nc34",P,"quiet",[(L,COLL,'''		node := nodeOf(coeff, wrk.lamb)
'''),(L,"// LassoCrdDescPath calc",'''func nodeOf(v []float64, lamb float64) *LassoLarsNode {
	n := 0
	for i := range v {
		if math.Abs(v[i]) > lassoCrdDescZero {
			n++
		}
	}
	sel := make([]int, n)
	co := make([]float64, n)
	k := 0
	for i := range v {
		if math.Abs(v[i]) > lassoCrdDescZero {
			sel[k] = i
			co[k] = v[i]
			k++
		}
	}
	return NewLassoLarsNode(co, lamb, sel)
}

// LassoCrdDescPath calc''')]),
("nc35",P,"quiet",[(L,COLL,COLL.replace("			if math.Abs(coeff[j]) > lassoCrdDescZero {\n				selection = append(selection, j)\n				selectedCoeff = append(selectedCoeff, coeff[j])\n			}\n","			if math.Abs(coeff[j]) <= lassoCrdDescZero {\n				continue\n			}\n			selectedCoeff = append(selectedCoeff, coeff[j])\n			selection = append(selection, j)\n"))]),
("nc36",P,"quiet",[(L,COLL,COLL.replace("node := NewLassoLarsNode(selectedCoeff, wrk.lamb, selection)","node := &LassoLarsNode{Coeff: selectedCoeff, Selection: selection, Lamb: wrk.lamb}"))]),
("nc37",P,"quiet",[(L,COLL,COLL.replace("selection := []int{}","selection := make([]int, 0, len(coeff))").replace("selectedCoeff := []float64{}","var selectedCoeff []float64"))]),
("nc38",P,"quiet",[(L,"pos := len(lambs) - result.lambIdx - 1","pos := len(nodes) - 1 - result.lambIdx")]),
("nc39",P,"quiet",[(L,IF,IF.replace("math.Abs(coeff[j]) > lassoCrdDescZero","coeff[j] > lassoCrdDescZero || coeff[j] < -lassoCrdDescZero"))]),
("nc40",P,"quiet",[(L,COLL,COLL.replace("		node := New","		sort.Ints(selection)\n		node := New")),(L,'	"math"\n','	"math"\n	"sort"\n')]),
]
