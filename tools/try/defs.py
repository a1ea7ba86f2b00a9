F="featselect/"
CV=F+"covarianceMatrix.go"; TH=F+"thresholdCov.go"; CO=F+"lassoCorrections.go"; LC=F+"lassoCrdDesc.go"; U=F+"util.go"; LZ=F+"lazyPowerMat.go"; PL=F+"lassoPlot.go"; FI=F+"fit.go"; OM=F+"orthogonalMatchingPursuit.go"
def src(f): return open("/repo/"+f).read()
def fn(f,name):
    s=src(f); i=s.index("func "+name)
    j=s.index("\n}\n",i)+3
    return s[i:j]
CASES=[]
Q=["K02","K03","E01","E02","R01","N01","K01","M02","L01"]
def A(id,p,*e): CASES.append((id,[p],"alarm",list(e)))
def C(id,*e): CASES.append((id,Q,"quiet",list(e)))
# --- alarms
A("da1","K02",(CV,"""	cov.Product(X.T(), X)
	cov.Scale(1.0/float64(nr), cov)
	return cov
}

// Identity""","""	cov.Product(X.T(), X)
	cov.Scale(1.0/float64(nr-1), cov)
	return cov
}

// Identity"""))
A("da2","K02",(TH,"math.Abs(X.At(i, j)) < t.threshold","X.At(i, j) < t.threshold"))
A("da3","K02",(TH,"cov.At(i, j)-mu[i]*mu[j]","cov.At(i, j)-mu[i]*mu[i]"))
A("da4","K02",(TH,"		for j := 0; j < nc; j++ {\n			if math.Abs","		for j := i; j < nc; j++ {\n			if math.Abs"))
A("da5","K02",(LC,"return x - threshold","return x + threshold"))
A("da6","K02",(LC,"cov.At(i, coeffNo) * (newCoeff - oldCoeff)","cov.At(i, coeffNo) * newCoeff"))
A("da7","K02",(LC,"for i := 0; i < len(covDotBeta); i++ {\n		covDotBeta[i] +=","for i := 1; i < len(covDotBeta); i++ {\n		covDotBeta[i] +="))
A("da8","K02",(CO,"copy(cl.beta, beta)","copy(cl.beta[1:], beta)"))
A("da9","K02",(TH,"mat1Cpy.At(i, j)-mat2.At(i, j)","mat1.At(i, j)-mat2.At(i, j)"))
A("da10","K02",(CV,"""	op := *s.op
	op.Apply(cov)
""","""	if nc < nr {
		op := *s.op
		op.Apply(cov)
	}
"""))
A("da11","K02",(CO,"e.Lamb * beta[featNo]","e.Lamb * math.Abs(beta[featNo])"))
A("da12","K03",(PL,"n.Selection[j] == featNo {\n				xys[i] = plotter.XY{X: math.Log10(n.Lamb), Y: n.Coeff[j]}","n.Selection[j] == featNo {\n				xys[i] = plotter.XY{X: math.Log10(n.Lamb), Y: n.Coeff[len(n.Selection)-1-j]}"))
A("da13","K03",(PL,"values[i] = criteria(num, nData, rss)","values[i] = criteria(num-1, nData, rss)"))
A("da14","K03",(U,"w[i] = math.Exp(-(aic[i]-min)) / sumW","w[i] = math.Exp(-(aic[i] - min)) / math.Max(sumW, 2)"))
A("da15","K03",(FI,"(1.0 - denum.At(i, i))","(1.0 - denum.At(i, 0))"))
A("da16","K03",(U,"numInserted++\n		}\n	}\n\n	// Transfer","numInserted = i + 1\n		}\n	}\n\n	// Transfer"))
A("da17","K03",(U,"for i := range aic {\n		sumW","for i := range aic[1:] {\n		sumW"))
A("da18","K03",(U,"math.Pow(2, diff)","math.Pow(2, -diff)"))
A("da19","K03",(LZ,"res[row] *= math.Pow(m.X.At(row, col), float64(power))","res[row] = math.Pow(m.X.At(row, col), float64(power))"))
A("da20","K03",(U,"float64(num-1)\n","float64(num)\n"))
A("da21","K03",(U,"if !ExistInt(s1, v) {\n			s1 = append(s1, v)","if !ExistInt(s2, v) {\n			s1 = append(s1, v)"))
A("da22","K03",(U,"		NormalizeArray(tmp)\n		for row := 0; row < nrows; row++ {\n			X.Set(row, col, tmp[row])","		NormalizeArray(tmp)\n		for row := 0; row < nrows; row++ {\n			X.Set(row, col, tmp[col%nrows])"))
A("da23","K03",(U,"		if v < minVal {\n			minIdx = i\n			minVal = v","		if v < minVal {\n			minIdx = i"))
A("da24","K03",(OM,"		if v[i] > maxVal {","		if v[i] >= maxVal {"))
# --- behaviour preserving
C("dq1",(CV,"""	nr, nc := X.Dims()
	cov := mat.NewDense(nc, nc, nil)
	cov.Product(X.T(), X)
	cov.Scale(1.0/float64(nr), cov)
	return cov
}

// Identity""","""	return secondMoment(X)
}

// secondMoment is X^TX/n
func secondMoment(X mat.Matrix) *mat.Dense {
	nr, nc := X.Dims()
	cov := mat.NewDense(nc, nc, nil)
	cov.Mul(X.T(), X)
	n := float64(nr)
	cov.Scale(1.0/n, cov)
	return cov
}

// Identity"""),(CV,"""	nr, nc := X.Dims()
	cov := mat.NewDense(nc, nc, nil)
	cov.Product(X.T(), X)
	cov.Scale(1.0/float64(nr), cov)
	op := *s.op""","""	cov := secondMoment(X)
	op := *s.op"""))
C("dq2",(CV,"""	ones := make([]float64, nc)
	for i := range ones {
		ones[i] = 1.0
	}
	res := mat.NewDiagDense(nc, ones)
	return res""","""	res := mat.NewDiagDense(nc, nil)
	for k := 0; k < nc; k++ {
		res.SetDiag(k, 1.0)
	}
	return res"""))
C("dq3",(TH,fn(TH,"CovarianceMatrix("),"""func CovarianceMatrix(X mat.Matrix) *mat.Dense {
	nr, nc := X.Dims()
	n := float64(nr)
	mu := columnMeans(X)
	cov := mat.NewDense(nc, nc, nil)
	cov.Mul(X.T(), X)
	for i, mi := range mu {
		for j, mj := range mu {
			cov.Set(i, j, cov.At(i, j)/n-mi*mj)
		}
	}
	return cov
}

func columnMeans(X mat.Matrix) []float64 {
	nr, nc := X.Dims()
	mu := make([]float64, nc)
	for j := range mu {
		for i := 0; i < nr; i++ {
			mu[j] += X.At(i, j)
		}
		mu[j] /= float64(nr)
	}
	return mu
}
"""))
C("dq4",(TH,fn(TH,"(t *ThresholdOperator) Apply("),"""func (t *ThresholdOperator) Apply(X mat.Mutable) {
	nr, nc := X.Dims()
	removed := 0
	for j := 0; j < nc; j++ {
		for i := 0; i < nr; i++ {
			if t.keeps(X.At(i, j)) {
				continue
			}
			X.Set(i, j, 0.0)
			removed++
		}
	}
	t.numRemoved = removed
}

func (t *ThresholdOperator) keeps(v float64) bool {
	return !(math.Abs(v) < t.threshold)
}
"""))
C("dq5",(TH,"""	nr, nc := mat1Cpy.Dims()
	for i := 0; i < nr; i++ {
		for j := 0; j < nc; j++ {
			mat1Cpy.Set(i, j, mat1Cpy.At(i, j)-mat2.At(i, j))
		}
	}

	var result ValueGridPt
	result.value = mat.Norm(mat1Cpy, 2.0)
	result.gridPt = gridPt
	res <- result""","""	mat1Cpy.Sub(mat1Cpy, mat2)
	res <- ValueGridPt{value: mat.Norm(mat1Cpy, 2.0), gridPt: gridPt}"""))
C("dq6",(LC,fn(LC,"SoftThreshold("),"""func SoftThreshold(x float64, threshold float64) float64 {
	switch {
	case x > threshold:
		return x - threshold
	case x < -threshold:
		return x + threshold
	default:
		return 0.0
	}
}
"""))
C("dq7",(LC,fn(LC,"SoftThreshold("),"""func SoftThreshold(x float64, threshold float64) float64 {
	shrunk := math.Abs(x) - threshold
	if shrunk <= 0 {
		return 0.0
	}
	if x < 0 {
		return -shrunk
	}
	return shrunk
}
"""))
C("dq8",(LC,fn(LC,"MulSlice("),"""func MulSlice(X mat.Matrix, v []float64) []float64 {
	nr, nc := X.Dims()
	if nc != len(v) {
		panic("Inconsistent length of passed vector")
	}
	res := make([]float64, nr)
	for i := range res {
		sum := 0.0
		for j, value := range v {
			sum += X.At(i, j) * value
		}
		res[i] = sum
	}
	return res
}
"""))
C("dq9",(LC,fn(LC,"UpdateCovDotBeta("),"""func UpdateCovDotBeta(cov mat.Matrix, covDotBeta []float64, coeffNo int, oldCoeff float64, newCoeff float64) []float64 {
	change := newCoeff - oldCoeff
	for i := range covDotBeta {
		covDotBeta[i] = covDotBeta[i] + change*cov.At(i, coeffNo)
	}
	return covDotBeta
}
"""))
C("dq10",(CO,"	copy(cl.beta, beta)","	for i := range cl.beta {\n		cl.beta[i] = beta[i]\n	}"))
C("dq11",(CO,"""	var cl CLasso
	cl.eta = eta
	cl.beta = make([]float64, numFeat)
	return &cl""","""	return &CLasso{
		beta: make([]float64, numFeat),
		eta:  eta,
	}"""))
C("dq12",(PL,"""		model := Selected2Model(n.Selection, nFeat)
		design := GetDesignMatrix(model, p.Dset.X)
		rss := Rss(design, n.Coeff, p.Dset.Y)
		num := NumFeatures(model)
		values[i] = criteria(num, nData, rss)""","""		num, rss := p.nodeRss(n, nFeat)
		values[i] = criteria(num, nData, rss)"""),(PL,"// GetCriteria","""func (p *LassoLarsPath) nodeRss(n *LassoLarsNode, nFeat int) (int, float64) {
	model := Selected2Model(n.Selection, nFeat)
	design := GetDesignMatrix(model, p.Dset.X)
	return NumFeatures(model), Rss(design, n.Coeff, p.Dset.Y)
}

// GetCriteria"""))
C("dq13",(PL,fn(PL,"(p *LassoLarsPath) ExtractPath("),"""func (p *LassoLarsPath) ExtractPath(featNo int) plotter.XYs {
	xys := make(plotter.XYs, 0, len(p.LassoLarsNodes))
	for _, n := range p.LassoLarsNodes {
		xys = append(xys, plotter.XY{X: math.Log10(n.Lamb), Y: n.coeffOf(featNo)})
	}
	return xys
}

func (n *LassoLarsNode) coeffOf(featNo int) float64 {
	for j, f := range n.Selection {
		if f == featNo {
			return n.Coeff[j]
		}
	}
	return 0.0
}
"""))
C("dq14",(U,fn(U,"WeightsFromAIC("),"""func WeightsFromAIC(aic []float64) []float64 {
	w := make([]float64, len(aic))
	min := MinFloat(aic)

	sumW := 0.0
	for i, v := range aic {
		w[i] = math.Exp(min - v)
		sumW += w[i]
	}
	for i := range w {
		w[i] /= sumW
	}
	return w
}
"""))
C("dq15",(FI,"		gcv += math.Pow(data[i]-pred[i], 2.0) / (1.0 - denum.At(i, i))","		diff := pred[i] - data[i]\n		gcv += diff * diff / (1.0 - denum.At(i, i))"))
C("dq16",(U,"""	for i := 0; i < num; i++ {
		logVal := logMin + step*float64(i)
		res[i] = math.Exp(logVal)
	}
	return res""","""	for i := range res {
		res[i] = math.Exp(logMin + float64(i)*step)
	}
	return res"""))
C("dq17",(U,fn(U,"RearrangeDense("),"""func RearrangeDense(X *mat.Dense, colOrder []int) *mat.Dense {
	nr, nc := X.Dims()
	newMat := mat.NewDense(nr, nc, nil)
	copyCol := func(to, from int) {
		for j := 0; j < nr; j++ {
			newMat.Set(j, to, X.At(j, from))
		}
	}

	inserted := make([]bool, nc)
	numInserted := 0
	for i, c := range colOrder {
		if c == -1 {
			continue
		}
		copyCol(i, c)
		inserted[c] = true
		numInserted++
	}

	// Transfer the remaining columns in the original order
	for i, done := range inserted {
		if done {
			continue
		}
		copyCol(numInserted, i)
		numInserted++
	}
	return newMat
}
"""))
C("dq18",(U,fn(U,"UnionInt("),"""func UnionInt(s1 []int, s2 []int) []int {
	for i := range s2 {
		if ExistInt(s1, s2[i]) {
			continue
		}
		s1 = append(s1, s2[i])
	}
	return s1
}
"""))
C("dq19",(U,fn(U,"NormalizeCols("),"""func NormalizeCols(X *mat.Dense) {
	_, ncols := X.Dims()
	for col := 0; col < ncols; col++ {
		tmp := mat.Col(nil, col, X)
		NormalizeArray(tmp)
		X.SetCol(col, tmp)
	}
}
"""))
C("dq20",(U,fn(U,"Argmin("),"""func Argmin(a []float64) int {
	minIdx := 0
	for i := 1; i < len(a); i++ {
		if a[i] < a[minIdx] {
			minIdx = i
		}
	}
	return minIdx
}
"""))
C("dq21",(OM,fn(OM,"Argmax("),"""func Argmax(v []float64) int {
	imax := 0
	for i := range v {
		if v[i] > v[imax] {
			imax = i
		}
	}
	return imax
}
"""))
C("dq22",(LZ,fn(LZ,"(m *LazyPowerMatrix) GetCol("),"""func (m *LazyPowerMatrix) GetCol(col int) []float64 {
	orig := m.numOrigCols()
	if col < orig {
		return mat.Col(nil, col, m.X)
	}
	powers := m.powers[col-orig]
	res := make([]float64, m.numRows())
	for row := range res {
		value := 1.0
		for c, power := range powers {
			value *= math.Pow(m.X.At(row, c), float64(power))
		}
		res[row] = value
	}
	return res
}
"""))
C("dq23",(LZ,"""	X := mat.NewDense(m.numRows(), m.NumCols(), nil)
	for c := 0; c < m.NumCols(); c++ {""","""	numCols := m.NumCols()
	X := mat.NewDense(m.numRows(), numCols, nil)
	for c := 0; c < numCols; c++ {"""))
C("dq24",(LZ,fn(LZ,"NewLazyMatrix("),"""func NewLazyMatrix(X *mat.Dense, maxPower int) *LazyPowerMatrix {
	lazy := &LazyPowerMatrix{X: X}
	cols := make([]int, lazy.numOrigCols())
	for i := range cols {
		cols[i] = i
	}
	lazy.AddPowerSequence(cols, maxPower)
	return lazy
}
"""))
C("dq25",(U,fn(U,"MaxInt("),"""func MaxInt(a []int) int {
	if len(a) == 0 {
		return math.MinInt32
	}
	max := math.MinInt32
	for i := 0; i < len(a); i++ {
		if max < a[i] {
			max = a[i]
		}
	}
	return max
}
"""))
C("dq26",(U,fn(U,"MinFloat("),"""func MinFloat(a []float64) float64 {
	min := math.MaxFloat64
	for i := range a {
		min = math.Min(min, a[i])
	}
	return min
}
"""))
C("dq27",(PL,"""		max := MaxInt(n.Selection)
		min := MinInt(n.Selection)

		if max > maxVal {
			maxVal = max
		}

		if min < minVal {
			minVal = min
		}""","""		for _, f := range n.Selection {
			if f > maxVal {
				maxVal = f
			}
			if f < minVal {
				minVal = f
			}
		}"""))
C("dq28",(FI,"""	nr, _ := X.Dims()
	res := mat.NewDense(nr, nr, nil)
	res.Product(X, invD, X.T())
	return res""","""	var res mat.Dense
	var tmp mat.Dense
	tmp.Mul(X, invD)
	res.Mul(&tmp, X.T())
	return &res"""))
C("dq29",(OM,fn(OM,"Abs("),"""func Abs(x []float64) []float64 {
	for i, v := range x {
		if v < 0 {
			x[i] = -v
		}
	}
	return x
}
"""))
C("dq30",(U,"""	diff := float64(numPruned) - current
	return current + math.Log2(1+math.Pow(2, diff))""","""	return math.Log2(1+math.Exp2(float64(numPruned)-current)) + current"""))
