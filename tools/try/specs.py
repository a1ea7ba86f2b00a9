CASES=[]
def C(i,p,e,*ed): CASES.append((i,p,e,list(ed)))
F="featselect/"
U=F+"util.go"; S=F+"csvIO.go"; N=F+"normalized_dataset.go"; M=F+"model.go"; D=F+"node.go"; L=F+"lasso_cd.go"; T=F+"fit.go"; R=F+"criteria.go"; A=F+"lasso_lars.go"; SA=F+"saScore.go"; V=F+"subview.go"
P=["M02","L01","N01","D01","K01","C05"]
C("sq1",P,"quiet",(S,"""	for r := 0; r < nr; r++ {
		for col, v := range features {
			subset.X.Set(r, col, d.X.At(r, v))
		}
	}
""","""	for col, v := range features {
		for r := 0; r < nr; r++ {
			subset.X.Set(r, col, d.X.At(r, v))
		}
	}
"""))
C("sq2",P,"quiet",(S,"""	for i, v := range features {
		subset.Names[i] = d.GetFeatName(v)
	}
	subset.TargetCol = len(features)
	subset.Names[len(features)] = d.Names[d.TargetCol]
	return &subset
""","""	names := make([]string, 0, len(features)+1)
	for _, v := range features {
		names = append(names, d.GetFeatName(v))
	}
	names = append(names, d.Names[d.TargetCol])
	subset.Names = names
	subset.TargetCol = len(features)
	return &subset
"""))
C("sq3",P,"quiet",(S,"""		if n == name {
			if i == d.TargetCol {
				continue
			}
			if i > d.TargetCol {
				return i - 1
			}
			return i
		}
""","""		if n != name || i == d.TargetCol {
			continue
		}
		no := i
		if i > d.TargetCol {
			no--
		}
		return no
"""))
C("sq4",P,"quiet",(S,"""		xcol := 0
		for col := 0; col < len(data[row]); col++ {
			if col == targetCol {
				dset.Y[row] = data[row][col]
			} else {
				dset.X.Set(row, xcol, data[row][col])
				xcol++
			}
		}
""","""		for col, v := range data[row] {
			if col == targetCol {
				dset.Y[row] = v
				continue
			}
			xcol := col
			if col > targetCol {
				xcol = col - 1
			}
			dset.X.Set(row, xcol, v)
		}
"""))
C("sq5",P,"quiet",(S,"""		shift := 0
		for j := 0; j < ncols+1; j++ {
			if j == dset.TargetCol {
				values[j] = fmt.Sprintf("%f", dset.Y[i])
				shift = 1
			} else {
				values[j] = fmt.Sprintf("%f", dset.X.At(i, j-shift))
			}
		}
""","""		for j := range values {
			v := 0.0
			if j < dset.TargetCol {
				v = dset.X.At(i, j)
			} else if j > dset.TargetCol {
				v = dset.X.At(i, j-1)
			} else {
				v = dset.Y[i]
			}
			values[j] = fmt.Sprintf("%f", v)
		}
"""))
C("sq6",P,"quiet",(S,"""	lineNo := 0
	data := make([][]float64, 0)
""","""	header := true
	var data [][]float64
"""),(S,"		if lineNo == 0 {\n			dset.Names = line\n","		if header {\n			dset.Names = line\n			header = false\n"),(S,"		lineNo++\n",""))
C("sq7",P,"quiet",(S,"""			row := make([]float64, len(line))
			for i, v := range line {
				fl, err := strconv.ParseFloat(strings.TrimSpace(v), 64)
				if err != nil {
					panic(err)
				}
				row[i] = fl
			}
			data = append(data, row)
""","""			data = append(data, parseRow(line))
"""),(S,"// Save dataset to a csv file\n","""func parseRow(line []string) []float64 {
	row := make([]float64, 0, len(line))
	for _, v := range line {
		fl, err := strconv.ParseFloat(strings.TrimSpace(v), 64)
		if err != nil {
			panic(err)
		}
		row = append(row, fl)
	}
	return row
}

// Save dataset to a csv file
"""))
C("sq8",P,"quiet",(T,"""	invSigma := 0.0
	for i := 0; i < len(s); i++ {
		if math.Abs(s[i]) > 1e-6 {
			invSigma = 1.0 / s[i]
		} else {
			invSigma = 0.0
		}

		uTdoty.Set(i, 0, uTdoty.At(i, 0)*invSigma)
	}
""","""	for i, v := range s {
		if math.Abs(v) <= 1e-6 {
			uTdoty.Set(i, 0, 0.0)
			continue
		}
		uTdoty.Set(i, 0, uTdoty.At(i, 0)/v)
	}
"""))
C("sq9",P,"quiet",(U,"""	for i := 0; i < len(s); i++ {
		if s[i]*s[i] > tol {
			s[i] = 1.0 / (s[i] * s[i])
		} else {
			s[i] = 0.0
		}
	}

	diag := mat.NewDiagDense(len(s), s)
""","""	inv := make([]float64, len(s))
	for i, v := range s {
		if sq := v * v; sq > tol {
			inv[i] = 1.0 / sq
		}
	}

	diag := mat.NewDiagDense(len(inv), inv)
"""))
C("sq10",P,"quiet",(L,"""	cMat := mat.NewDense(nr, 1, nil)
	cMat.Product(&v, diag, u.T(), y)
	res := mat.NewVecDense(nr, nil)
	for i := 0; i < nr; i++ {
		res.SetVec(i, cMat.At(i, 0))
	}
	return res
""","""	var uy, scaled mat.VecDense
	uy.MulVec(u.T(), y)
	scaled.MulVec(diag, &uy)
	res := mat.NewVecDense(nr, nil)
	res.MulVec(&v, &scaled)
	return res
"""))
C("sq11",P,"quiet",(N,"""		stdtmp := normD.std[c]
		if stdtmp < 1e-10 {
			normD.HasBias = true
			stdtmp = 1.0
		}

		for r := 0; r < nr; r++ {
			X.Set(r, c, (tmp[r]-normD.mu[c])/stdtmp)
		}
""","""		mu, std := normD.mu[c], normD.std[c]
		if std < 1e-10 {
			normD.HasBias = true
			std = 1.0
		}

		for r, v := range tmp {
			X.Set(r, c, (v-mu)/std)
		}
"""))
C("sq12",P,"quiet",(N,"""	nr, nc := X.Dims()
	tmp := make([]float64, nr)

""","""	nr, nc := X.Dims()
"""),(N,"""		for r := 0; r < nr; r++ {
			tmp[r] = X.At(r, c)
		}

		normD.std""","""		tmp := mat.Col(nil, c, X)

		normD.std"""))
C("sq13",P,"quiet",(N,"""	for i, v := range selected {
		sumShift += coeff[i] * n.mu[v] / n.std[v]
	}
	return n.muY - n.stdY*sumShift
""","""	for i := range selected {
		f := selected[i]
		sumShift -= coeff[i] * (n.mu[f] / n.std[f])
	}
	return n.muY + sumShift*n.stdY
"""))
C("sq14",P,"quiet",(A,"""			tmpSelect := make([]int, len(node.Selection)+1)
			tmpSelect[0] = 0
			copy(tmpSelect[1:], node.Selection)
			node.Selection = tmpSelect

			tmpCoeff := make([]float64, len(node.Coeff)+1)
			tmpCoeff[0] = bias
			copy(tmpCoeff[1:], node.Coeff)
			node.Coeff = tmpCoeff
""","""			node.Selection = append([]int{0}, node.Selection...)
			node.Coeff = append([]float64{bias}, node.Coeff...)
"""))
C("sq15",P,"quiet",(U,"""	col := 0
	for i := 0; i < len(model); i++ {
		if model[i] {
			for j := 0; j < n; j++ {
				design.Set(j, col, X.At(j, i))
			}
			col++
		}
	}
	return design
""","""	for col, i := range SelectedFeatures(model) {
		for j := 0; j < n; j++ {
			design.Set(j, col, X.At(j, i))
		}
	}
	return design
"""))
C("sq16",P,"quiet",(SA,"""	n := NumFeatures(model)
	saItem.Selection = make([]int, n)
	saItem.Coeff = make([]float64, n)
	counter := 0
	for i, v := range model {
		if v {
			saItem.Selection[counter] = i
			counter++
		}
	}
	return &saItem
""","""	saItem.Selection = SelectedFeatures(model)
	saItem.Coeff = make([]float64, len(saItem.Selection))
	return &saItem
"""))
C("sq17",P,"quiet",(M,"""	arrayIndex := index / 8
	reminder := index - 8*arrayIndex
	return m.bits[arrayIndex]&uint8(0x01<<uint(reminder)) == uint8(0x01<<uint(reminder))
""","""	return m.bits[index/8]&(1<<uint(index%8)) != 0
"""))
C("sq18",P,"quiet",(M,"""	res := make([]bool, m.size)
	for i := 0; i < m.size; i++ {
		res[i] = m.Get(i)
	}
	return res
""","""	var res []bool
	for i := 0; i < m.size; i++ {
		res = append(res, m.Get(i))
	}
	return res
"""))
C("sq19",P,"quiet",(R,"""	denum := float64(numData - numFeat - 1)
	if numFeat >= numData-1 {
		denum = 1.0
	}

	return Aic(numFeat, numData, logL) + float64(2*numFeat*numFeat+2*numFeat)/denum
""","""	k := float64(numFeat)
	denum := 1.0
	if numFeat < numData-1 {
		denum = float64(numData) - k - 1.0
	}
	return 2.0*k*(k+1.0)/denum + Aic(numFeat, numData, logL)
"""))
C("sq20",P,"quiet",(R,"""	logL = math.Max(logL, RssTol)
	return 2.0*float64(numFeat) + float64(numData)*math.Log(logL)
""","""	if logL < RssTol {
		logL = RssTol
	}
	return float64(2*numFeat) + float64(numData)*math.Log(logL)
"""))
C("sq21",P,"quiet",(U,"""	for i := range weights {
		for j := range coeffs[i].Selection {
			avg[coeffs[i].Selection[j]] += weights[i] * coeffs[i].Coeff[j]
		}
	}
""","""	for i, w := range weights {
		for j, f := range coeffs[i].Selection {
			avg[f] += w * coeffs[i].Coeff[j]
		}
	}
"""))
C("sq22",P,"quiet",(D,"""	sp.Selection = make([]int, nFeat)

	sIdx := 0
	for i, v := range n.Model {
		if v {
			sp.Selection[sIdx] = i
			sIdx++
		}
	}
	return sp
""","""	sp.Selection = make([]int, 0, nFeat)
	for i := range n.Model {
		if n.Model[i] {
			sp.Selection = append(sp.Selection, i)
		}
	}
	return sp
"""))
C("sq23",P,"quiet",(T,"""	sumSq := 0.0
	for i := 0; i < len(data); i++ {
		sumSq += math.Pow(pred[i]-data[i], 2)
	}
	return sumSq
""","""	sumSq := 0.0
	for i, v := range data {
		d := v - pred[i]
		sumSq += d * d
	}
	return sumSq
"""))
C("sq24",P,"quiet",(U,"""	sigmaSq := 0.0
	mu := Mean(v)

	for i := 0; i < len(v); i++ {
		sigmaSq += (v[i] - mu) * (v[i] - mu)
	}
	return math.Sqrt(sigmaSq / float64(len(v)-1))
""","""	mu := Mean(v)
	sigmaSq := 0.0
	for _, x := range v {
		sigmaSq += math.Pow(x-mu, 2)
	}
	n := float64(len(v))
	return math.Sqrt(sigmaSq / (n - 1.0))
"""))
# breaking
C("sa1",["D01"],"alarm",(S,"			if i > d.TargetCol {\n				return i - 1","			if i >= d.TargetCol+2 {\n				return i - 1"))
C("sa2",["D01"],"alarm",(S,"	if i < d.TargetCol {\n		return d.Names[i]","	if i <= d.TargetCol {\n		return d.Names[i]"))
if 0: C("sa3",["D01"],"alarm",(S,"""
				dset.Y[row] = data[row][col]
			} else {
				dset.X.Set(row, xcol, data[row][col])
				xcol++
			}
""","""			if col == targetCol {
				dset.Y[row] = data[row][col]
				xcol = len(data[row]) - 1 - (len(data[row]) - 1 - col)
			} else {
				dset.X.Set(row, xcol, data[row][col])
				if xcol < len(data[row])-2 {
					xcol++
				}
			}
"""))
C("sa4",["D01"],"alarm",(S,"	subset.Names[len(features)] = d.Names[d.TargetCol]","	subset.Names[len(features)] = d.Names[len(d.Names)-1]"))
C("sa5",["D01"],"alarm",(S,"				shift = 1\n","				shift = 1 - i/100000\n"))
C("sa6",["D01"],"alarm",(S,"	if targetCol < 0 {\n		targetCol += numCol","	if targetCol < 0 {\n		targetCol = numCol - 1"))
C("sa7",["L01"],"alarm",(U,"		if s[i] > tol {\n","		if s[i] >= tol {\n"))
C("sa8",["L01"],"alarm",(T,"			invSigma = 0.0\n		}","			invSigma *= 1.0\n		}"))
C("sa9",["L01"],"alarm",(L,"			s[i] = 0.0\n","			s[i] = 1e-6\n"))
C("sa10",["N01"],"alarm",(N,"	normD.stdY = Std(y)\n	normD.muY = Mean(y)\n","	normD.muY = Mean(y)\n	normD.stdY = Std(y)\n	if len(y) == 1 { normD.muY = 0 }\n"))
C("sa11",["N01"],"alarm",(A,"			tmpSelect[0] = 0\n","			tmpSelect[0] = node.Selection[0]\n"))
C("sa12",["M02"],"alarm",(M,"	m.bits = make([]uint8, size/8+1)","	m.bits = make([]uint8, (size+6)/8)"))
C("sa13",["M02"],"alarm",(M,"	m.bits[arrayIndex] ^= 0x01 << uint(reminder)","	m.bits[arrayIndex] ^= 0x03 << uint(reminder)"))
C("sa14",["M02"],"alarm",(SA,"			saItem.Selection[counter] = i\n","			saItem.Selection[n-1-counter] = i\n"))
