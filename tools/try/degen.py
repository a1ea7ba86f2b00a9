F="featselect/"
L=F+"lassoCrdDesc.go"
N=F+"normalized_dataset.go"
U=F+"util.go"
K=F+"lassoCorrections.go"
R=["R01"]
CONV='''		maxChange := 0.0
		maxCoeff := 0.0
		for _, j := range iterIndices {
			diff := math.Abs(beta[j] - betaOld[j])
			if diff > maxChange {
				maxChange = diff
			}

			if math.Abs(beta[j]) > maxCoeff {
				maxCoeff = math.Abs(beta[j])
			}
		}

		converged = maxChange <= tol*maxCoeff
'''
KEND='''	if PrE >= 1.0 {
		// Both selections contain all features
		return 1.0
	}
	return (PrA - PrE) / (1. - PrE)
'''
CASES=[
("ra1",R,"alarm",[(L,"converged = maxChange <= tol*maxCoeff","converged = maxChange < tol*maxCoeff")]),
("ra2",R,"alarm",[(L,"converged = maxChange <= tol*maxCoeff","converged = maxChange/maxCoeff <= tol")]),
("ra3",R,"alarm",[(L,"		maxCoeff := 0.0\n","		maxCoeff := 0.0\n		numNonZero := 0\n"),(L,"				maxCoeff = math.Abs(beta[j])\n","				maxCoeff = math.Abs(beta[j])\n				numNonZero++\n"),(L,"converged = maxChange <= tol*maxCoeff","converged = maxChange <= tol*maxCoeff && numNonZero > 0")]),
("ra4",R,"alarm",[(L,"if value < lamb && math.Abs(coeff[i]) > lassoCrdDescZero {","if value < lamb && math.Abs(coeff[i]) >= 0.0 {")]),
("ra5",R,"alarm",[(N,"	if normD.stdY < 1e-10 {\n		// Constant target","	if normD.stdY < 1e-10 && normD.muY != 0.0 {\n		// Constant target")]),
("ra6",R,"alarm",[(N,"		if stdtmp < 1e-10 {","		if stdtmp < 1e-10 && nr > 1 {")]),
("ra7",R,"alarm",[(U,"	if len(v) <= 1 {\n		return 0.0","	if len(v) < 1 {\n		return 0.0")]),
("ra8",R,"alarm",[(U,"	if std < 1e-10 {\n		// Constant array","	if std < 0 {\n		// Constant array")]),
("ra9",R,"alarm",[(K,"	if math.Abs(normSq) < 1e-10 {","	if math.Abs(normSq) < 1e-10 && math.Abs(inner) > 0.0 {")]),
("ra10",R,"alarm",[(U,"	if len(s1) == 0 && len(s2) == 0 {\n		return 1.0","	if len(s1) == 0 && len(s2) == 0 && totNum == 0 {\n		return 1.0")]),
("ra11",R,"alarm",[(U,KEND,KEND.replace("PrE >= 1.0","PrA >= 1.0 && n22 > 0"))]),
("rq1",R,"quiet",[(L,CONV,'''		maxChange, maxCoeff := largest(beta, betaOld, iterIndices)
		converged = !(maxChange > tol*maxCoeff)
'''),(L,"// SoftThreshold applyes",'''func largest(beta []float64, old []float64, active []int) (change float64, coeff float64) {
	for _, j := range active {
		change = math.Max(change, math.Abs(beta[j]-old[j]))
		coeff = math.Max(coeff, math.Abs(beta[j]))
	}
	return
}

// SoftThreshold applyes''')]),
("rq2",R,"quiet",[(L,"converged = maxChange <= tol*maxCoeff","relChange := 0.0\n		if maxCoeff > 0.0 {\n			relChange = maxChange / maxCoeff\n		}\n		converged = relChange <= tol")]),
("rq3",R,"quiet",[(L,"	for iter := 0; iter < maxIter; iter++ {\n		for _, j","	for iter, done := 0, false; iter < maxIter && !done; iter++ {\n		for _, j"),(L,'''			if len(unsatisfied) == 0 {
				break
			} else {
				iterIndices = UnionInt(iterIndices, unsatisfied)
			}
''','''			done = len(unsatisfied) == 0
			if !done {
				iterIndices = UnionInt(iterIndices, unsatisfied)
			}
''')]),
("rq4",R,"quiet",[(N,"	normD.stdY = Std(y)\n	normD.muY = Mean(y)\n	if normD.stdY < 1e-10 {\n		// Constant target\n		normD.stdY = 1.0\n	}\n","	normD.muY = Mean(y)\n	spread := Std(y)\n	if spread >= 1e-10 {\n		normD.stdY = spread\n	} else {\n		normD.stdY = 1.0\n	}\n")]),
("rq5",R,"quiet",[(U,KEND,'''	if 1.0 <= PrE {
		return 1.0
	}
	excess := PrA - PrE
	return excess / (1. - PrE)
''')]),
("rq6",R,"quiet",[(K,"	if math.Abs(normSq) < 1e-10 {\n		return 0.0\n	}\n	return cl.eta * cl.beta[featNo] * inner / normSq","	if math.Abs(normSq) >= 1e-10 {\n		return cl.eta * cl.beta[featNo] * (inner / normSq)\n	}\n	return 0.0")]),
("rq7",R,"quiet",[(U,'''	if std < 1e-10 {
		// Constant array
		std = 1.0
	}

	for i := 0; i < len(v); i++ {
		v[i] = (v[i] - mu) / std
	}
''','''	scale := 1.0
	if std >= 1e-10 {
		scale = std
	}
	for i := range v {
		v[i] -= mu
		v[i] /= scale
	}
''')]),
("rq8",R,"quiet",[(L,'''		numActive := 0
		for _, j := range iterIndices {
			if math.Abs(beta[j]) > lassoCrdDescZero {
				iterIndices[numActive] = j
				numActive++
			}
		}
		iterIndices = iterIndices[:numActive]
''','''		active := make([]int, 0, len(iterIndices))
		for _, j := range iterIndices {
			if math.Abs(beta[j]) > lassoCrdDescZero {
				active = append(active, j)
			}
		}
		iterIndices = active
''')]),
]
