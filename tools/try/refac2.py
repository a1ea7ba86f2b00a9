F="featselect/"
SA=F+"simmulatedAnnealing.go"; OM=F+"orthogonalMatchingPursuit.go"; LL=F+"lasso_lars.go"; LC=F+"lassoCrdDesc.go"; CO=F+"lassoCorrections.go"; MO=F+"model.go"; SP=F+"searchProgress.go"; CV=F+"covarianceMatrix.go"; O=F+"optimize.go"
A="all"
def src(f): return open("/repo/"+f).read()
def between(f,a,b):
    s=src(f); i=s.index(a); j=s.index(b,i); return s[i:j]
def fn(f,name):
    s=src(f); i=s.index("func "+name)
    j=s.index("\n}\n",i)+3
    return s[i:j]
CASES=[]
def C(id,*edits): CASES.append((id,A,"quiet",list(edits)))
# --- simulated annealing
C("rg1",(SA,between(SA,"		index := rand.Intn(nc)","		design :="),'''		index := rand.Intn(nc)
		N, ok := propose(current, index, nr/2)
		if !ok {
			continue
		}

'''),(SA,"// SelectModelSA uses",'''// propose flips one feature, unless this would leave no model or too large a one
func propose(current []bool, index int, limit int) (int, bool) {
	current[index] = !current[index]
	n := NumFeatures(current)
	switch {
	case n == 0:
		current[index] = !current[index]
		return 1, true
	case n >= limit:
		current[index] = !current[index]
		return n, false
	}
	return n, true
}

// SelectModelSA uses'''))
C("rg2",(SA,between(SA,"		if accept {\n","		numSteps++"),'''		if !accept {
			current[index] = !current[index]
		} else {
			numAccept++
			currentScore = score
			copy(coeff, coeffTemp)
			res.Scores.Insert(scoredItem(current, coeffTemp, score))
		}
'''),(SA,"// SelectModelSA uses",'''func scoredItem(model []bool, coeff []float64, score float64) *SAItem {
	item := NewSAItem(model)
	copy(item.Coeff, coeff)
	item.Score = -score
	return item
}

// SelectModelSA uses'''))
C("rg3",(SA,between(SA,"	res.Coeff = coeff[:NumF","	return &res"),'''	res.Selected = SelectedFeatures(current)
	res.Coeff = coeff[:len(res.Selected)]
'''))
C("rg4",(SA,between(SA,"		accept := score","		if accept"),'''		accept := score < currentScore
		if !accept {
			accept = math.Exp(-(score-currentScore)/temp) > rand.Float64()
		}

'''),(SA,"score := cost(N, len(y), math.Max(Rss(design, coeffTemp, y), RssTol))",'''rss := Rss(design, coeffTemp, y)
		if rss < RssTol {
			rss = RssTol
		}
		score := cost(N, len(y), rss)'''))
C("rg5",(SA,between(SA,"		if numSteps >= nc*nSweeps","	res.Coeff = coeff"),'''		if numSteps < nc*nSweeps {
			continue
		}
		accRate := float64(numAccept) / float64(numSteps)
		if numAccept == 0 && hasReached50 {
			break
		}
		numAccept, numSteps = 0, 0
		if hasReached50 {
			temp *= 0.5
		}
		if temp < 1e-12 {
			break
		}
		fmt.Printf("Current temperature: %f. Acc.rate: %f. Current score: %.2e\\n", temp, accRate, currentScore)
	}

'''))
# --- OMP
C("rg6",(OM,between(OM,"	residuals := mat.NewVec","	current := 0"),'''	residuals := mat.NewVecDense(len(y), nil)
	residuals.CopyVec(mat.NewVecDense(len(y), y))

'''),(OM,between(OM,"	innerProds := mat.New","	for current < ncols"),'''	norms := columnNorms(X)

'''),(OM,"// Abs calculate",'''func columnNorms(X mat.Matrix) *mat.VecDense {
	_, ncols := X.Dims()
	gram := mat.NewDense(ncols, ncols, nil)
	gram.Mul(X.T(), X)
	norms := mat.NewVecDense(ncols, nil)
	for i := 0; i < ncols; i++ {
		norms.SetVec(i, math.Sqrt(gram.At(i, i)))
	}
	return norms
}

// Abs calculate'''))
C("rg7",(OM,between(OM,"	for current < ncols {","		resNorm"),"	for current := 0; current < ncols; current++ {\n"),(OM,"	current := 0\n",""),(OM,"			break\n		}\n		current++\n","			break\n		}\n"),
 (OM,between(OM,"		rss := 0.0\n","		if rss < tol"),'''		rss := 0.0
		for i, p := range ypred {
			diff := p - y[i]
			residuals.SetVec(i, diff)
			rss += diff * diff
		}
		rss = math.Sqrt(rss / float64(len(y)))
'''))
C("rg8",(OM,between(OM,"	foundBefore := make","	return res\n"),'''	res.Order = trimOrder(res.Order)
'''),(OM,"// Abs calculate",'''func trimOrder(order []int) []int {
	seen := make([]bool, len(order))
	for i, v := range order {
		if v < 0 || seen[v] {
			return order[:i]
		}
		seen[v] = true
	}
	return order
}

// Abs calculate'''),(OM,fn(OM,"SelectedFeatures"),'''func SelectedFeatures(model []bool) []int {
	res := make([]int, 0, NumFeatures(model))
	for i := range model {
		if model[i] {
			res = append(res, i)
		}
	}
	return res
}
'''))
C("rg9",(OM,fn(OM,"Argmax"),'''func Argmax(v []float64) int {
	imax := 0
	for i, x := range v {
		if x > v[imax] {
			imax = i
		}
	}
	return imax
}
'''),(OM,between(OM,"	res.Coeff = make([]float64, numF","	return &res"),'''	res.Coeff = make([]float64, numFeatures)
	res.Order = make([]int, numFeatures)
	for i := range res.Order {
		res.Order[i] = -1
	}
'''))
# --- LARS
C("rg10",(LL,between(LL,"	maxTime := 0.0\n	feat := 0","	allSigns.SetVec(feat, 1.0)"),'''	feat, maxTime := firstFeature(lambJoin)

'''),(LL,"func maxJoinTime",'''func firstFeature(corr *mat.VecDense) (int, float64) {
	best := 0.0
	feat := 0
	for i := 0; i < corr.Len(); i++ {
		if v := math.Abs(corr.AtVec(i)); v > best {
			best, feat = v, i
		}
	}
	return feat, best
}

func maxJoinTime'''))
C("rg11",(LL,fn(LL,"maxJoinTime"),'''func maxJoinTime(v *mat.VecDense, active []int) (float64, int) {
	for _, ind := range active {
		v.SetVec(ind, -1.0)
	}
	return maxCrossTime(v)
}
'''))
C("rg12",(LL,between(LL,"		lrs := betaLARS(&llp, lamb)","	return res\n}\n\nfunc maxJ"),'''		lrs := betaLARS(&llp, lamb)
		res = append(res, NewLassoLarsNode(lrs.RawVector().Data, lamb, activeSet))

		next := ct
		if jt > ct {
			next = jt
			last.feat = -1
			activeSet = append(activeSet, jFeat)
			allSigns.SetVec(jFeat, joinFeatSign(jFeat, data.X, &Xe, yVec, betaLARS(&llp, jt)))
		} else {
			last.coeff = betaLARS(&llp, lamb).AtVec(cFeat)
			last.feat = activeSet[cFeat]
			activeSet[cFeat] = activeSet[len(activeSet)-1]
			activeSet = activeSet[:len(activeSet)-1]
		}
		if next > lamb {
			// We are close to numerical tolerance
			break
		}
		lamb = next
	}
'''))
C("rg13",(LL,between(LL,"	for i := 0; i < nc; i++ {\n		tpluss","	return joinTime"),'''	for i := 0; i < nc; i++ {
		num := Xy.AtVec(i) - XXeC.AtVec(i)
		tpluss := num / (1.0 - XXeD.AtVec(i))
		tminus := num / (-1.0 - XXeD.AtVec(i))

		if last.feat == i {
			if last.coeff > 0.0 {
				tpluss = -10.0
			} else if last.coeff < 0.0 {
				tminus = -10.0
			}
		}

		switch {
		case tpluss >= -lassoTol && tpluss <= lamb+lassoTol:
			joinTime.SetVec(i, tpluss)
		case tminus >= -lassoTol && tminus <= lamb+lassoTol:
			joinTime.SetVec(i, tminus)
		default:
			fmt.Printf("%e, %e, %e\\n", tminus, tpluss, lamb)
			panic("larslasso: Feature never included")
		}
	}
'''))
C("rg14",(LL,fn(LL,"betaLARS"),'''func betaLARS(llp *LassoLarsParams, lamb float64) *mat.VecDense {
	beta := mat.NewVecDense(llp.c.Len(), nil)
	beta.AddScaledVec(llp.c, -lamb, llp.d)
	return beta
}
'''))
C("rg15",(LL,fn(LL,"Path2Unnormalized"),'''func Path2Unnormalized(data *NormalizedData, path []*LassoLarsNode) {
	for _, node := range path {
		bias := data.LinearTransformationBias(node.Selection, node.Coeff)
		for i, feat := range node.Selection {
			node.Coeff[i] = data.LinearNormalizationTransformation(feat, node.Coeff[i])
		}
		if !data.HasBias {
			continue
		}
		node.Selection = append([]int{0}, node.Selection...)
		node.Coeff = append([]float64{bias}, node.Coeff...)
	}
}
'''))
C("rg16",(LL,fn(LL,"NewLassoLarsNode"),'''func NewLassoLarsNode(coeff []float64, lamb float64, selection []int) *LassoLarsNode {
	if len(coeff) != len(selection) {
		panic("lassolars: inconsistent lengths")
	}
	return &LassoLarsNode{
		Coeff:     append([]float64{}, coeff...),
		Lamb:      lamb,
		Selection: append([]int{}, selection...),
	}
}
'''),(LL,fn(LL,"LassoNodesSlice2SparsCoeff"),'''func LassoNodesSlice2SparsCoeff(nodes []*LassoLarsNode) []SparseCoeff {
	sp := make([]SparseCoeff, 0, len(nodes))
	for _, n := range nodes {
		sp = append(sp, SparseCoeff{Coeff: n.Coeff, Selection: n.Selection})
	}
	return sp
}
'''))
# --- coordinate descent
C("rg17",(LC,between(LC,"		maxChange := 0.0","		numActive := 0"),'''		converged = smallChange(beta, betaOld, iterIndices, tol)

'''),(LC,"// SoftThreshold applyes",'''func smallChange(beta, old []float64, indices []int, tol float64) bool {
	maxChange, maxCoeff := 0.0, 0.0
	for _, j := range indices {
		maxChange = math.Max(maxChange, math.Abs(beta[j]-old[j]))
		maxCoeff = math.Max(maxCoeff, math.Abs(beta[j]))
	}
	return maxChange <= tol*maxCoeff
}

// SoftThreshold applyes'''))
C("rg18",(LC,between(LC,"		numActive := 0\n","		copy(betaOld, beta)"),'''		active := make([]int, 0, len(iterIndices))
		for _, j := range iterIndices {
			if math.Abs(beta[j]) > lassoCrdDescZero {
				active = append(active, j)
			}
		}
		iterIndices = active

'''))
C("rg19",(LC,fn(LC,"PerformLassoCrd"),'''func PerformLassoCrd(workload <-chan LassoCrdWorkload, res chan<- LassoRes) {
	for wrk := range workload {
		res <- LassoRes{
			node:    solveWorkload(&wrk),
			lambIdx: wrk.lambIdx,
		}
	}
}

func solveWorkload(wrk *LassoCrdWorkload) *LassoLarsNode {
	coeff := LassoCrdDesc(wrk.dset, wrk.lamb, wrk.cov, wrk.x0, wrk.maxIter, wrk.tol, wrk.corr)
	selection := nonZero(coeff)
	selectedCoeff := make([]float64, len(selection))
	for i, j := range selection {
		selectedCoeff[i] = coeff[j]
	}
	return NewLassoLarsNode(selectedCoeff, wrk.lamb, selection)
}

func nonZero(coeff []float64) []int {
	selection := []int{}
	for i, c := range coeff {
		if math.Abs(c) > lassoCrdDescZero {
			selection = append(selection, i)
		}
	}
	return selection
}
'''),(LC,between(LC,"	selection := []int{}\n\n	for i := range coeff","// HyperParameters returns a map"),"	return nonZero(coeff)\n}\n\n"))
C("rg20",(LC,between(LC,"		var wrk LassoCrdWorkload\n		wrk.x0 = x0","	numReceive := 0"),'''		workChan <- newWork(x0)
	}

'''),(LC,between(LC,"			var wrk LassoCrdWorkload\n			wrk.x0 = make","	close(workChan)"),'''			start := make([]float64, nFeat)
			hnode := nodes[highestInserted]
			for i, feat := range hnode.Selection {
				start[feat] = hnode.Coeff[i]
			}
			workChan <- newWork(start)
		}
	}
'''),(LC,"	workChan := make(chan LassoCrdWorkload)",'''	newWork := func(start []float64) LassoCrdWorkload {
		idx := availableLambs[0]
		availableLambs = availableLambs[1:]
		return LassoCrdWorkload{
			x0:      start,
			lamb:    lambs[idx],
			dset:    dset,
			cov:     cov,
			maxIter: maxIter,
			lambIdx: idx,
			tol:     tol,
			corr:    correction,
		}
	}

	workChan := make(chan LassoCrdWorkload)'''))
C("rg21",(LC,between(LC,"	numReceive := 0\n","		node := result.node"),'''	highestInserted := 0
	for numReceive := 0; numReceive < len(lambs); numReceive++ {
		result := <-resChan
'''),(LC,"		numReceive++\n\n",""),(LC,between(LC,"	firstModelWithFeatures := 0","// PureLassoCohen is"),'''	for i, node := range nodes {
		if len(node.Selection) > 0 {
			return nodes[i:]
		}
	}
	return nodes
}

'''))
C("rg22",(LC,fn(LC,"UnsatisfiedKKT"),'''func UnsatisfiedKKTConditions(Xy mat.Vector, covDotBeta []float64, coeff []float64, lamb float64, correction LassoCorrection) []int {
	unsatisfied := []int{}
	nr := float64(Xy.Len())
	for i := 1; i < len(covDotBeta); i++ {
		value := math.Abs(Xy.AtVec(i) - covDotBeta[i]*nr - correction.Deriv(coeff, i))
		if value >= lamb || math.Abs(coeff[i]) <= lassoCrdDescZero {
			continue
		}
		unsatisfied = append(unsatisfied, i)
	}
	return unsatisfied
}
'''),(LC,fn(LC,"SoftThreshold"),'''func SoftThreshold(x float64, threshold float64) float64 {
	switch {
	case x > threshold:
		return x - threshold
	case x < -threshold:
		return x + threshold
	}
	return 0.0
}
'''),(LC,fn(LC,"UpdateCovDotBeta"),'''func UpdateCovDotBeta(cov mat.Matrix, covDotBeta []float64, coeffNo int, oldCoeff float64, newCoeff float64) []float64 {
	delta := newCoeff - oldCoeff
	for i := range covDotBeta {
		covDotBeta[i] += cov.At(i, coeffNo) * delta
	}
	return covDotBeta
}
'''),(LC,fn(LC,"MulSlice"),'''func MulSlice(X mat.Matrix, v []float64) []float64 {
	nr, nc := X.Dims()
	if len(v) != nc {
		panic("Inconsistent length of passed vector")
	}
	res := make([]float64, nr)
	for i := range res {
		sum := 0.0
		for j, x := range v {
			sum += X.At(i, j) * x
		}
		res[i] = sum
	}
	return res
}
'''))
# --- corrections
C("rg23",(CO,"import \"math\"\n",""),(CO,between(CO,"	normSq := 0.0","// Elastic net adds"),'''	normSq, inner := 0.0, 0.0
	for i, b := range cl.beta {
		normSq += b * b
		inner += b * beta[i]
	}
	if normSq < 1e-10 {
		return 0.0
	}
	return cl.eta * cl.beta[featNo] * inner / normSq
}

'''),(CO,fn(CO,"NewCLasso"),'''func NewCLasso(numFeat int, eta float64) *CLasso {
	return &CLasso{beta: make([]float64, numFeat), eta: eta}
}
'''))
# --- model, progress, covariance
C("rg24",(MO,between(MO,"// Get return true","// ToBools"),'''// locate returns the byte and the mask of a feature
func locate(index int) (int, uint8) {
	return index / 8, uint8(1) << uint(index%8)
}

// Get return true if feature at position index is 1
func (m *Model) Get(index int) bool {
	pos, mask := locate(index)
	return m.bits[pos]&mask != 0
}

// Set sets the bit at position index
func (m *Model) Set(index int) {
	pos, mask := locate(index)
	m.bits[pos] |= mask
}

// Flip flips the bit at position
func (m *Model) Flip(index int) {
	pos, mask := locate(index)
	m.bits[pos] ^= mask
}

'''),(MO,"	for i := 0; i < m.size; i++ {","	for i := range res {"))
C("rg25",(MO,"make([]uint8, size/8+1)","make([]uint8, (size+7)/8)"))
C("rg26",(SP,between(SP,"	sp.rwlock.Lock()","// Get current"),'''	sp.rwlock.Lock()
	sp.BestScore, sp.NumExplored, sp.Log2NumPruned = bs, ne, np
	sp.rwlock.Unlock()
}

'''),(SP,between(SP,"	sp.rwlock.RLock()","\n}\n"),'''	sp.rwlock.RLock()
	bs, ne, np := sp.BestScore, sp.NumExplored, sp.Log2NumPruned
	sp.rwlock.RUnlock()
	return bs, ne, np
}
''') if False else (SP,"	defer sp.rwlock.RUnlock()\n	return sp.BestScore, sp.NumExplored, sp.Log2NumPruned\n",'''	bs, ne, np := sp.BestScore, sp.NumExplored, sp.Log2NumPruned
	sp.rwlock.RUnlock()
	return bs, ne, np
'''))
C("rg27",(CV,between(CV,"	nr, nc := X.Dims()\n	cov := mat.NewDense(nc, nc, nil)","// Identity use"),'''	return secondMoment(X)
}

func secondMoment(X mat.Matrix) *mat.Dense {
	nr, nc := X.Dims()
	cov := mat.NewDense(nc, nc, nil)
	cov.Mul(X.T(), X)
	cov.Scale(1.0/float64(nr), cov)
	return cov
}

'''),(CV,'''	nr, nc := X.Dims()
	cov := mat.NewDense(nc, nc, nil)
	cov.Product(X.T(), X)
	cov.Scale(1.0/float64(nr), cov)
	op := *s.op
	op.Apply(cov)
	return cov''','''	cov := secondMoment(X)
	op := *s.op
	op.Apply(cov)
	return cov'''),(CV,between(CV,"	ones := make","	return res\n"),'''	res := mat.NewDiagDense(nc, nil)
	for i := 0; i < nc; i++ {
		res.SetDiag(i, 1.0)
	}
'''))
C("rg28",(CV,between(CV,"	var sp SparseThresholded","// Get returns the covariance matrix"),'''	fmt.Printf("Searching for a L2 consistent sparse approx...\\n")
	op := L2ConsistentCovTO(X, 1000, 1.0, 1.0)
	fmt.Printf("Optimal threshold %f\\n", op.threshold)
	return &SparseThresholded{X: X, op: op}
}

'''))
# LassoCohen: closures, subset extracted
C("rg29",(LC,between(LC,"	_, nc := p.Dset.X.Dims()\n	X := mat.NewDense","	normD := New"),'''	_, nc := p.Dset.X.Dims()
	if len(p.x0) != nc {
		p.x0 = make([]float64, nc)
	}
	X, y := p.rowsOf(indices)

'''),(LC,"// GetSelection returns the sel",'''func (p *pureLassoCohen) rowsOf(indices []int) (*mat.Dense, []float64) {
	_, nc := p.Dset.X.Dims()
	X := mat.NewDense(len(indices), nc, nil)
	y := make([]float64, 0, len(indices))
	for i, idx := range indices {
		for j := 0; j < nc; j++ {
			X.Set(i, j, p.Dset.X.At(idx, j))
		}
		y = append(y, p.Dset.y[idx])
	}
	return X, y
}

// GetSelection returns the sel'''))
C("rg30",(LC,'''	hyper := make(map[string]float64)
	hyper["lamb"] = p.Lamb
	return hyper''','''	return map[string]float64{"lamb": p.Lamb}'''),(LC,'''	hyper := make(map[string]float64)
	hyper["lamb"] = c.PLasso.Lamb
	hyper["eta"] = c.Eta
	return hyper''','''	hyper := c.PLasso.HyperParameters()
	hyper["eta"] = c.Eta
	return hyper'''))
