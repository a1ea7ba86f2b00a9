F="featselect/"
L=F+"lassoCrdDesc.go"
T=F+"thresholdCov.go"
K=F+"cohens_kappa.go"
R=["R02"]
DIS1='''		var wrk LassoCrdWorkload
		wrk.x0 = x0
		wrk.lamb = lambs[availableLambs[0]]
		wrk.lambIdx = availableLambs[0]
		availableLambs = availableLambs[1:]
		wrk.dset = dset
		wrk.cov = cov
		wrk.maxIter = maxIter
		wrk.tol = tol
		wrk.corr = correction
		workChan <- wrk
	}
'''
DIS2='''			wrk.lamb = lambs[availableLambs[0]]
			wrk.lambIdx = availableLambs[0]
			availableLambs = availableLambs[1:]
			wrk.dset = dset
			wrk.cov = cov
			wrk.maxIter = maxIter
			wrk.tol = tol
			wrk.corr = correction
			workChan <- wrk
'''
WARM='''			var wrk LassoCrdWorkload
			wrk.x0 = make([]float64, nFeat)
			hnode := nodes[highestInserted]
			for i := range hnode.Selection {
				wrk.x0[hnode.Selection[i]] = hnode.Coeff[i]
			}
'''
LOOP='''	for numReceive < len(lambs) {
		result := <-resChan
		node := result.node
		pos := len(lambs) - result.lambIdx - 1
		nodes[pos] = node
'''
AV='''	availableLambs := make([]int, len(lambs))
	for i := 0; i < len(availableLambs); i++ {
		availableLambs[i] = len(lambs) - i - 1
	}
'''
HDR="// LassoRes is a structure used to return the result\n"
SIG="workload <-chan LassoCrdWorkload, res chan<- LassoRes) {\n"
KW='''			work := CohensKappaWorkload{
				numSamples: numSamples,
				target:     targets[nextTarget],
			}
			nextTarget++
			workChannel <- work
		}
	}
	close(workChannel)
'''
KW1='''		if nextTarget < len(targets) {
			work := CohensKappaWorkload{
				numSamples: numSamples,
				target:     targets[nextTarget],
			}
			nextTarget++
			workChannel <- work
		}
	}

	numReceives := 0
'''
KST='''		allKappas[numReceives] = res.kappa
		allStrRep[numReceives] = res.target.StringRep()
'''
KB='''		if bestHyper == nil || res.kappa > bestKappa {
			bestKappa = res.kappa
			bestHyper = hyper
		}
'''
TR='''			if numReceives%numGrid == 0 {
				mat1, mat2 = RandomRowSplit(X, n1)
				cvMat1 = CovarianceMatrix(mat1)
				cvMat2 = CovarianceMatrix(mat2)
				work.cvMat1 = cvMat1
				work.cvMat2 = cvMat2
				work.gr = 0
				gridPt = 1
			}
'''
TD='''			if gridPt <= numGrid && numReceives < numSamples*numGrid {
				workChannel <- work
			}
'''
TM='''			meanNormDiff[res.gridPt] += res.value / float64(numSamples)
			var work Workload
			work.cvMat1 = cvMat1
			work.cvMat2 = cvMat2
			work.gr = gridPt
			work.step = step

			gridPt++
			numReceives++
'''
CASES=[
# ---- breakages: path
("fa1",R,"alarm",[(L,"		pos := len(lambs) - result.lambIdx - 1\n","		pos := numReceive\n")]),
("fa2",R,"alarm",[(L,DIS2,DIS2.replace('''			wrk.lambIdx = availableLambs[0]
			availableLambs = availableLambs[1:]
''','''			availableLambs = availableLambs[1:]
			if len(availableLambs) > 0 {
				wrk.lambIdx = availableLambs[0]
			}
'''))]),
("fa3",R,"alarm",[(L,"		resStruct.lambIdx = wrk.lambIdx\n","		resStruct.lambIdx = wrk.lambIdx + len(selection) - len(selection)/1\n")]),
("fa4",R,"alarm",[(L,"	for wrk := range workload {\n","	done := 0\n	for wrk := range workload {\n		done++\n"),(L,"		resStruct.lambIdx = wrk.lambIdx\n","		resStruct.lambIdx = done - 1\n")]),
("fa5",R,"alarm",[(L,AV,AV.replace("len(lambs) - i - 1","(len(lambs) - i - 1) / 2"))]),
("fa6",R,"alarm",[(L,"		pos := len(lambs) - result.lambIdx - 1\n","		pos := result.lambIdx\n")]),
("fa7",R,"alarm",[(L,DIS2,DIS2.replace("availableLambs = availableLambs[1:]","if numReceive > 1 {\n				availableLambs = availableLambs[1:]\n			}"))]),
("fa8",R,"alarm",[(L,DIS2,DIS2.replace("wrk.lamb = lambs[availableLambs[0]]","wrk.lamb = lambs[len(availableLambs)-1]"))]),
("fa9",R,"alarm",[(L,"		node := NewLassoLarsNode(selectedCoeff, wrk.lamb, selection)","		prev := wrk.lamb\n		if len(selection) == 0 {\n			prev = wrk.tol\n		}\n		node := NewLassoLarsNode(selectedCoeff, prev, selection)")]),
("fa10",R,"alarm",[(L,"		nodes[pos] = node\n","		if nodes[pos] != nil {\n			pos = numReceive\n		}\n		nodes[pos] = node\n")]),
("fa11",R,"alarm",[(L,DIS2,DIS2.replace("availableLambs = availableLambs[1:]","availableLambs = availableLambs[2:]"))]),
("fa12",R,"alarm",[(L,"		resStruct.node = node\n		resStruct.lambIdx = wrk.lambIdx\n","		if last.node == nil || len(selection) > 0 {\n			last.node = node\n		}\n		resStruct.node = last.node\n		resStruct.lambIdx = wrk.lambIdx\n"),(L,"	for wrk := range workload {\n","	var last LassoRes\n	for wrk := range workload {\n")]),
# ---- breakages: kappas
("fb1",R,"alarm",[(K,"		hyper := res.target.HyperParameters()","		hyper := targets[numReceives-1].HyperParameters()")]),
("fb2",R,"alarm",[(K,"allStrRep[numReceives] = res.target.StringRep()","allStrRep[numReceives] = targets[numReceives].StringRep()")]),
("fb3",R,"alarm",[(K,KB,KB.replace("			bestKappa = res.kappa\n			bestHyper = hyper\n","			bestHyper = hyper\n			if res.kappa > 0.5 {\n				bestKappa = res.kappa\n			}\n"))]),
("fb4",R,"alarm",[(K,KW,KW.replace("			nextTarget++\n",""))]),
("fb5",R,"alarm",[(K,KW,KW.replace("targets[nextTarget]","targets[numReceives]"))]),
("fb6",R,"alarm",[(K,"		w.kappa = GetCohensKappa(w.numSamples, w.target)\n		res <- w\n","		k := GetCohensKappa(w.numSamples, w.target)\n		if k > best {\n			best = k\n		}\n		w.kappa = best\n		res <- w\n"),(K,"	for w := range work {\n","	best := -1.0\n	for w := range work {\n")]),
("fb7",R,"alarm",[(K,KB,KB.replace(">","<"))]),
("fb8",R,"alarm",[(K,"allStrRep[srt[i]], allKappas[srt[i]]","allStrRep[i], allKappas[srt[i]]")]),
("fb9",R,"alarm",[(K,"		fmt.Printf(res.target.StringRep()+\" kappa: %3.3f\\n\", res.kappa)","		fmt.Printf(targets[numReceives-1].StringRep()+\" kappa: %3.3f\\n\", res.kappa)")]),
("fb10",R,"alarm",[(K,KB,"		if bestHyper == nil || res.kappa > bestKappa {\n			bestKappa = res.kappa\n		}\n		if res.kappa >= bestKappa*0.99 {\n			bestHyper = hyper\n		}\n")]),
("fb11",R,"alarm",[(K,KW1,KW1.replace("	numReceives := 0\n","	numReceives := 0\n	nextTarget = numWorkers\n"))]),
# ---- breakages: grid
("fc1",R,"alarm",[(T,"meanNormDiff[res.gridPt] += res","meanNormDiff[numReceives%numGrid] += res")]),
("fc2",R,"alarm",[(T,"				gridPt = 1\n","				gridPt = 0\n")]),
("fc3",R,"alarm",[(T,"meanNormDiff[res.gridPt] += res.value","meanNormDiff[res.gridPt] = res.value")]),
("fc4",R,"alarm",[(T,"if numReceives%numGrid == 0 {","if gridPt > numGrid {")]),
("fc5",R,"alarm",[(T,"op.threshold = getThreshold(minIdx, step)","op.threshold = getThreshold(minIdx+1, step)")]),
("fc6",R,"alarm",[(T,"	result.gridPt = gridPt\n","	result.gridPt = nr\n")]),
("fc7",R,"alarm",[(T,"			work.gr = gridPt\n			work.step = step\n\n			gridPt++\n","			work.gr = gridPt - 1\n			work.step = step\n\n			gridPt++\n")]),
("fc8",R,"alarm",[(T,"op.threshold = getThreshold(minIdx, step)","op.threshold = math.Exp(-10.0 + float64(minIdx)*9.0/float64(numGrid))")]),
("fc9",R,"alarm",[(T,"	op.threshold = getThreshold(gridPt, step)\n	mat1Cpy","	op.threshold = getThreshold(gridPt+1, step)\n	mat1Cpy")]),
("fc10",R,"alarm",[(T,"if numReceives%numGrid == 0 {","if (numReceives+numSim)%numGrid == 0 {")]),
("fc11",R,"alarm",[(T,"meanNormDiff[res.gridPt] += res.value /","meanNormDiff[(res.gridPt+numReceives-numReceives/numGrid*numGrid)%numGrid] += res.value /")]),
# ---- behaviour kept: path
("fq1",R,"quiet",[(L,HDR,'''func newWork(idx int, lambs, x0 []float64, dset *NormalizedData, cov CovMat, maxIter int, tol float64, corr LassoCorrection) LassoCrdWorkload {
	return LassoCrdWorkload{x0: x0, lamb: lambs[idx], lambIdx: idx, dset: dset, cov: cov, maxIter: maxIter, tol: tol, corr: corr}
}

'''+HDR),(L,DIS1,'''		wrk := newWork(availableLambs[0], lambs, x0, dset, cov, maxIter, tol, correction)
		availableLambs = availableLambs[1:]
		workChan <- wrk
	}
'''),(L,WARM,'''			start := make([]float64, nFeat)
			hnode := nodes[highestInserted]
			for i := range hnode.Selection {
				start[hnode.Selection[i]] = hnode.Coeff[i]
			}
'''),(L,DIS2,'''			next := availableLambs[0]
			availableLambs = availableLambs[1:]
			workChan <- newWork(next, lambs, start, dset, cov, maxIter, tol, correction)
''')]),
("fq2",R,"quiet",[(L,AV,"	nextLamb := len(lambs) - 1\n"),(L,DIS1,DIS1.replace("availableLambs[0]","nextLamb").replace("availableLambs = availableLambs[1:]","nextLamb--")),
  (L,"		if len(availableLambs) > 0 {\n","		if nextLamb >= 0 {\n"),(L,DIS2,DIS2.replace("availableLambs[0]","nextLamb").replace("availableLambs = availableLambs[1:]","nextLamb--"))]),
("fq3",R,"quiet",[(L,AV,"	numSent := 0\n"),(L,DIS1,DIS1.replace("availableLambs[0]","len(lambs)-1-numSent").replace("availableLambs = availableLambs[1:]","numSent++")),
  (L,"		if len(availableLambs) > 0 {\n","		if numSent < len(lambs) {\n"),(L,DIS2,DIS2.replace("availableLambs[0]","len(lambs)-1-numSent").replace("availableLambs = availableLambs[1:]","numSent++"))]),
("fq4",R,"quiet",[(L,AV,"	availableLambs := make([]int, 0, len(lambs))\n	for i := len(lambs) - 1; i >= 0; i-- {\n		availableLambs = append(availableLambs, i)\n	}\n")]),
("fq5",R,"quiet",[(L,AV,"	availableLambs := make([]int, len(lambs))\n	for i := range lambs {\n		availableLambs[len(lambs)-1-i] = i\n	}\n")]),
("fq6",R,"quiet",[(L,"	lambIdx int\n}\n\n// Perform","	pos     int\n	lambIdx int\n}\n\n// Perform"),(L,"	corr    LassoCorrection\n}","	corr    LassoCorrection\n	pos     int\n}"),
  (L,DIS1,DIS1.replace("		wrk.lambIdx","		wrk.pos = len(lambs) - 1 - availableLambs[0]\n		wrk.lambIdx")),(L,DIS2,DIS2.replace("			wrk.lambIdx","			wrk.pos = len(lambs) - 1 - availableLambs[0]\n			wrk.lambIdx")),
  (L,"		resStruct.lambIdx = wrk.lambIdx\n","		resStruct.pos = wrk.pos\n		resStruct.lambIdx = wrk.lambIdx\n"),(L,"		pos := len(lambs) - result.lambIdx - 1\n","		pos := result.pos\n")]),
("fq7",R,"quiet",[(L,"		node := NewLassoLarsNode(selectedCoeff, wrk.lamb, selection)\n		var resStruct LassoRes\n		resStruct.node = node\n		resStruct.lambIdx = wrk.lambIdx\n		res <- resStruct\n","		res <- LassoRes{node: NewLassoLarsNode(selectedCoeff, wrk.lamb, selection), lambIdx: wrk.lambIdx}\n")]),
("fq8",R,"quiet",[(L,"		node := NewLassoLarsNode(selectedCoeff, wrk.lamb, selection)\n		var resStruct LassoRes\n		resStruct.node = node\n		resStruct.lambIdx = wrk.lambIdx\n		res <- resStruct\n","		node := NewLassoLarsNode(selectedCoeff, wrk.lamb, selection)\n		res <- &LassoRes{node: node, lambIdx: wrk.lambIdx}\n"),(L,SIG,SIG.replace("chan<- LassoRes","chan<- *LassoRes")),(L,"make(chan LassoRes)","make(chan *LassoRes)")]),
("fq9",R,"quiet",[(L,LOOP,'''	for ; numReceive < len(lambs); {
		result := <-resChan
		last := len(lambs) - 1
		node, pos := result.node, last-result.lambIdx
		nodes[pos] = node
''')]),
("fq10",R,"quiet",[(L,DIS1,'''		workChan <- take(x0)
	}
'''),(L,WARM,'''			start := make([]float64, nFeat)
			hnode := nodes[highestInserted]
			for i := range hnode.Selection {
				start[hnode.Selection[i]] = hnode.Coeff[i]
			}
'''),(L,DIS2,"			workChan <- take(start)\n"),(L,"	numWorkers := 10\n\n	if len(lambs)",'''	take := func(x []float64) LassoCrdWorkload {
		var wrk LassoCrdWorkload
		wrk.x0 = x
		wrk.lambIdx = availableLambs[0]
		wrk.lamb = lambs[wrk.lambIdx]
		availableLambs = availableLambs[1:]
		wrk.dset = dset
		wrk.cov = cov
		wrk.maxIter = maxIter
		wrk.tol = tol
		wrk.corr = correction
		return wrk
	}
	numWorkers := 10

	if len(lambs)''')]),
("fq11",R,"quiet",[(L,"	for numReceive < len(lambs) {\n","	for i := 0; i < len(lambs); i++ {\n"),(L,"		numReceive++\n\n",""),(L,"	numReceive := 0\n","")]),
("fq12",R,"quiet",[(L,'''	firstModelWithFeatures := 0
	for i := range nodes {
		if len(nodes[i].Selection) > 0 {
			firstModelWithFeatures = i
			break
		}
	}
	return nodes[firstModelWithFeatures:]
''','''	return withFeatures(nodes)
'''),(L,HDR,'''func withFeatures(nodes []*LassoLarsNode) []*LassoLarsNode {
	for i, n := range nodes {
		if len(n.Selection) > 0 {
			return nodes[i:]
		}
	}
	return nodes
}

'''+HDR)]),
("fq13",R,"quiet",[(L,"	for wrk := range workload {\n","	for {\n		wrk, ok := <-workload\n		if !ok {\n			return\n		}\n")]),
("fq14",R,"quiet",[(L,"		node := result.node\n		pos := len(lambs) - result.lambIdx - 1\n		nodes[pos] = node\n","		pos := place(nodes, result)\n		node := nodes[pos]\n"),(L,HDR,'''func place(nodes []*LassoLarsNode, r LassoRes) int {
	pos := len(nodes) - r.lambIdx - 1
	nodes[pos] = r.node
	return pos
}

'''+HDR)]),
# ---- behaviour kept: kappas
("fr1",R,"quiet",[(K,KB,"		best.update(res.kappa, hyper)\n"),(K,"	bestKappa := 0.0\n	var bestHyper map[string]float64\n","	var best bestSoFar\n"),(K,"	return bestHyper\n","	return best.hyper\n"),
  (K,"// CalculateCohenSequence calc",'''type bestSoFar struct {
	kappa float64
	hyper map[string]float64
}

func (b *bestSoFar) update(kappa float64, hyper map[string]float64) {
	if b.hyper == nil || kappa > b.kappa {
		b.kappa = kappa
		b.hyper = hyper
	}
}

// CalculateCohenSequence calc''')]),
("fr2",R,"quiet",[(K,KB,"		if bestHyper != nil && res.kappa <= bestKappa {\n			hyper = bestHyper\n		} else {\n			bestKappa = res.kappa\n		}\n		bestHyper = hyper\n")]),
("fr3",R,"quiet",[(K,KW,"			workChannel <- CohensKappaWorkload{numSamples: numSamples, target: targets[nextTarget]}\n			nextTarget++\n		}\n	}\n	close(workChannel)\n")]),
("fr4",R,"quiet",[(K,KST,""),(K,"	allKappas := make([]float64, len(targets))\n	allStrRep := make([]string, len(targets))\n","	allKappas := make([]float64, 0, len(targets))\n	allStrRep := make([]string, 0, len(targets))\n"),(K,"		res := <-resChannel\n\n","		res := <-resChannel\n		allKappas = append(allKappas, res.kappa)\n		allStrRep = append(allStrRep, res.target.StringRep())\n")]),
("fr5",R,"quiet",[(K,"		w.kappa = GetCohensKappa(w.numSamples, w.target)\n		res <- w\n","		kappa := GetCohensKappa(w.numSamples, w.target)\n		res <- CohensKappaWorkload{target: w.target, kappa: kappa, numSamples: w.numSamples}\n")]),
("fr6",R,"quiet",[(K,KB,"		if bestHyper == nil {\n			bestKappa, bestHyper = res.kappa, hyper\n		} else if res.kappa > bestKappa {\n			bestKappa, bestHyper = res.kappa, hyper\n		}\n")]),
("fr7",R,"quiet",[(K,"	bestKappa := 0.0\n","	bestKappa := math.Inf(-1)\n"),(K,KB,KB.replace("bestHyper == nil || ","")),(K,'	"fmt"\n','	"fmt"\n	"math"\n')]),
("fr8",R,"quiet",[(K,KW,"			workChannel <- job(nextTarget)\n			nextTarget++\n		}\n	}\n	close(workChannel)\n"),(K,KW1,KW1.replace('''			work := CohensKappaWorkload{
				numSamples: numSamples,
				target:     targets[nextTarget],
			}
			nextTarget++
			workChannel <- work
''','''			workChannel <- job(nextTarget)
			nextTarget++
''')),(K,"	nextTarget := 0\n","	job := func(i int) CohensKappaWorkload {\n		return CohensKappaWorkload{numSamples: numSamples, target: targets[i]}\n	}\n	nextTarget := 0\n")]),
("fr9",R,"quiet",[(K,"	for i := range allKappas {\n		fmt.Printf(\"%54s Kappa: %3.3f\\n\", allStrRep[srt[i]], allKappas[srt[i]])\n","	for _, j := range srt {\n		fmt.Printf(\"%54s Kappa: %3.3f\\n\", allStrRep[j], allKappas[j])\n")]),
# ---- behaviour kept: grid
("fs1",R,"quiet",[(T,TD,"			last := numReceives >= numSamples*numGrid\n			if gridPt > numGrid || last {\n				continue\n			}\n			workChannel <- work\n")]),
("fs2",R,"quiet",[(T,TM,"			meanNormDiff[res.gridPt] += res.value / float64(numSamples)\n			work := Workload{cvMat1: cvMat1, cvMat2: cvMat2, gr: gridPt, step: step}\n			numReceives++\n			gridPt++\n")]),
("fs3",R,"quiet",[(T,"			meanNormDiff[res.gridPt] += res.value / float64(numSamples)\n","			i := res.gridPt\n			meanNormDiff[i] = meanNormDiff[i] + res.value/float64(numSamples)\n")]),
("fs4",R,"quiet",[(T,TM,'''			meanNormDiff[res.gridPt] += res.value / float64(numSamples)
			numReceives++
'''),(T,TR,'''			if numReceives%numGrid == 0 {
				mat1, mat2 = RandomRowSplit(X, n1)
				cvMat1 = CovarianceMatrix(mat1)
				cvMat2 = CovarianceMatrix(mat2)
				gridPt = 0
			}
'''),(T,TD,'''			if gridPt < numGrid && numReceives < numSamples*numGrid {
				workChannel <- Workload{cvMat1: cvMat1, cvMat2: cvMat2, gr: gridPt, step: step}
				gridPt++
			}
''')]),
("fs5",R,"quiet",[(T,"	op.threshold = getThreshold(minIdx, step)\n","	op.threshold = math.Exp(float64(minIdx)*step - 10.0)\n")]),
("fs6",R,"quiet",[(T,"	var op ThresholdOperator\n	op.threshold = getThreshold(minIdx, step)\n	return &op\n","	return &ThresholdOperator{threshold: getThreshold(minIdx, step)}\n")]),
("fs7",R,"quiet",[(T,"			meanNormDiff[res.gridPt] += res.value / float64(numSamples)\n","			meanNormDiff[res.gridPt] += res.value\n"),(T,"	minIdx := Argmin","	for i := range meanNormDiff {\n		meanNormDiff[i] /= float64(numSamples)\n	}\n	minIdx := Argmin")]),
("fs8",R,"quiet",[(T,"	numReceives := 0\n	ticker","	total := numSamples * numGrid\n	numReceives := 0\n	ticker"),(T,"	for numReceives < numSamples*numGrid {","	for numReceives < total {"),(T,TD,TD.replace("numSamples*numGrid","total"))]),
("fs9",R,"quiet",[(T,"	op.threshold = getThreshold(gridPt, step)\n	mat1Cpy","	op.threshold = math.Exp(step*float64(gridPt) - 10.0)\n	mat1Cpy")]),
("fs10",R,"quiet",[(T,TR,TR.replace("				mat1, mat2 = RandomRowSplit(X, n1)\n				cvMat1 = CovarianceMatrix(mat1)\n				cvMat2 = CovarianceMatrix(mat2)\n","				cvMat1, cvMat2 = partition(X, n1)\n")),(T,"	mat1, mat2 := RandomRowSplit(X, n1)\n	cvMat1 := CovarianceMatrix(mat1)\n	cvMat2 := CovarianceMatrix(mat2)\n","	cvMat1, cvMat2 := partition(X, n1)\n"),(T,"func getThreshold","func partition(X mat.Matrix, n int) (*mat.Dense, *mat.Dense) {\n	a, b := RandomRowSplit(X, n)\n	return CovarianceMatrix(a), CovarianceMatrix(b)\n}\n\nfunc getThreshold")]),
]
