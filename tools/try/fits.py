F="featselect/"
O=F+"optimize.go"
S=F+"simmulatedAnnealing.go"
P=F+"orthogonalMatchingPursuit.go"
M=["M01"]
W='''			design := GetDesignMatrix(n.Model, X)
			n.Coeff = Fit(design, y)
			rss := Rss(design, n.Coeff, y)
			n.Score = -Aicc(numFeat, nrows, rss)
'''
ACC='''			numAccept++
			currentScore = score
			copy(coeff, coeffTemp)
			item := NewSAItem(current)
			item.Score = -score // Change sign since the highscore list keeps only the larges
			copy(item.Coeff, coeffTemp)
			res.Scores.Insert(item)
'''
REJ='''		} else {
			current[index] = !current[index]
		}
		numSteps++
'''
END='''	res.Coeff = coeff[:NumFeatures(current)]
	res.Selected = make([]int, NumFeatures(current))
	counter := 0
	for i, v := range current {
		if v {
			res.Selected[counter] = i
			counter++
		}
	}
	return &res
'''
PROP='''		index := rand.Intn(nc)
		current[index] = !current[index]
		N := NumFeatures(current)
		if N == 0 {
			current[index] = !current[index]
			N = 1
		} else if N >= nr/2 {
			current[index] = !current[index]
			continue
		}

		design := GetDesignMatrix(current, X)
'''
OS='''		for i, v := range selected {
			res.Coeff[v] = coeff[i]
		}
'''
B='''			design := GetDesignMatrix(currentNode.Model, X)
			currentNode.Coeff = Fit(design, y)
			rss := Rss(design, currentNode.Coeff, y)
			currentNode.Score = -Aicc(NumFeatures(currentNode.Model), len(y), rss)
			highscore.Insert(currentNode)
'''
CASES=[
# breakages
("ma1",M,"alarm",[(O,W,W.replace("-Aicc(numFeat","-Aicc(n.Level+1"))]),
("ma2",M,"alarm",[(O,W,W.replace("Rss(design, n.Coeff, y)","Rss(design, Fit(GetDesignMatrix(Lcs(n.Model, n.Level), X), y), y)"))]),
("ma3",M,"alarm",[(O,"			n.Score = -Aicc(numFeat, nrows, rss)\n		} else {","			n.Score = -Aicc(numFeat, nrows, rss)\n		} else if n.Level == 0 {\n			n.Score = 0.0\n		} else {"),(O,"	for n := range nodeCh {\n		numFeat","	for n := range nodeCh {\n		if n.Level > 40 {\n			n.Score = n.Lower\n			scoreCh <- n\n			continue\n		}\n		numFeat")]),
("ma4",M,"alarm",[(O,"		numFeat := NumFeatures(n.Model)\n\n","		numFeat := NumFeatures(n.Model[:n.Level])\n\n")]),
("ma5",M,"alarm",[(O,B,B.replace("-Aicc","-Bic"))]),
("ma6",M,"alarm",[(O,B,B.replace("len(y), rss","ncols, rss"))]),
("ma7",M,"alarm",[(O,"				highscore.Insert(ns)\n","				if ns.Lower > -ns.Score {\n					ns.Score = -ns.Lower\n				}\n				highscore.Insert(ns)\n")]),
("ma8",M,"alarm",[(O,"		rootNode.Coeff = Fit(design, y)\n		rootNode.Score = -Aicc(numFeat, nrows, Rss(design, rootNode.Coeff, y))","		coeff := Fit(design, y)\n		rootNode.Score = -Aicc(numFeat, nrows, Rss(design, coeff, y))")]),
("ma9",M,"alarm",[(S,ACC,ACC.replace("copy(item.Coeff, coeffTemp)","copy(item.Coeff, coeff[1:])"))]),
("ma10",M,"alarm",[(S,"			currentScore = score\n			copy(coeff, coeffTemp)\n","			if score < currentScore {\n				copy(coeff, coeffTemp)\n			}\n			currentScore = score\n")]),
("ma11",M,"alarm",[(S,REJ,"		} else if N > 1 {\n			current[index] = !current[index]\n		}\n		numSteps++\n")]),
("ma12",M,"alarm",[(S,PROP,PROP.replace("			current[index] = !current[index]\n			continue","			continue"))]),
("ma13",M,"alarm",[(S,PROP,PROP.replace("			current[index] = !current[index]\n			N = 1","			current[0] = !current[0]\n			N = 1"))]),
("ma14",M,"alarm",[(S,PROP,PROP.replace("			N = 1","			N = 2"))]),
("ma15",M,"alarm",[(S,"			currentScore = score\n","			currentScore = math.Min(currentScore, score)\n")]),
("ma16",M,"alarm",[(S,END,END.replace("coeff[:NumFeatures(current)]","coeff"))]),
("ma17",M,"alarm",[(S,END,END.replace("	return &res\n","	if res.Scores.BestItem != nil {\n		res.Selected = res.Scores.BestItem.Selection\n	}\n	return &res\n"))]),
("ma18",M,"alarm",[(S,"		design := GetDesignMatrix(current, X)\n		coeffTemp := Fit(design, y)\n","		design := GetDesignMatrix(current, X)\n		coeffTemp := Fit(design, y)\n		if N == nc {\n			coeffTemp = coeff\n		}\n")]),
("ma19",M,"alarm",[(S,ACC,ACC.replace("			copy(coeff, coeffTemp)\n","").replace("			res.Scores.Insert(item)\n","			res.Scores.Insert(item)\n			if res.Scores.BestItem == item {\n				copy(coeff, coeffTemp)\n			}\n"))]),
("ma20",M,"alarm",[(P,OS,OS.replace("i, v := range","i := range").replace("res.Coeff[v] = coeff[i]","res.Coeff[res.Order[i]] = coeff[i]"))]),
("ma21",M,"alarm",[(P,OS,OS.replace("range selected {","range selected {\n			if res.Coeff[v] != 0 && i < current {\n				continue\n			}"))]),
("ma22",M,"alarm",[(P,"		selected := SelectedFeatures(model)\n",""),(P,"		model[imax] = true\n","		selected := SelectedFeatures(model)\n		model[imax] = true\n		if len(selected) == 0 {\n			selected = []int{imax}\n		}\n")]),
("ma23",M,"alarm",[(S,"math.Max(Rss(design, coeffTemp, y), RssTol)","math.Max(Rss(design, coeff[:N], y), RssTol)")]),
("ma24",M,"alarm",[(S,"score := cost(N, len(y),","score := cost(N, nc,")]),
("ma25",M,"alarm",[(S,"			item.Score = -score //","			item.Score = -currentScore //"),(S,"			currentScore = score\n			copy(coeff, coeffTemp)\n","			copy(coeff, coeffTemp)\n"),(S,"			res.Scores.Insert(item)\n","			res.Scores.Insert(item)\n			currentScore = score\n")]),
# rewrites that keep the behaviour
("mq1",M,"quiet",[(O,W,"			scoreNode(n, numFeat, nrows, X, y)\n"),(O,"// CreateChild creates","// scoreNode fits\nfunc scoreNode(n *Node, k, rows int, X mat.Matrix, y []float64) {\n	design := GetDesignMatrix(n.Model, X)\n	n.Coeff = Fit(design, y)\n	n.Score = -Aicc(k, rows, Rss(design, n.Coeff, y))\n}\n\n// CreateChild creates")]),
("mq2",M,"quiet",[(O,W,'''			design := GetDesignMatrix(n.Model, X)
			coeff := Fit(design, y)
			score := Aicc(NumFeatures(n.Model), nrows, Rss(design, coeff, y))
			n.Score, n.Coeff = -1.0*score, coeff
''')]),
("mq3",M,"quiet",[(O,"		if numFeat > 0 && isNewNode(n) {\n"+W+'''		} else {
			n.Score = -math.MaxFloat64
		}
		scoreCh <- n
''','''		if numFeat == 0 || !isNewNode(n) {
			n.Score = -math.MaxFloat64
			scoreCh <- n
			continue
		}
		'''+W.strip()+'''
		scoreCh <- n
''')]),
("mq4",M,"quiet",[(S,ACC,'''			numAccept++
			currentScore = score
			copy(coeff, coeffTemp)
			res.Scores.Insert(newScoredItem(current, coeffTemp, -score))
'''),(S,"// SelectModelSA uses","func newScoredItem(model []bool, coeff []float64, score float64) *SAItem {\n	item := NewSAItem(model)\n	item.Score = score\n	copy(item.Coeff, coeff)\n	return item\n}\n\n// SelectModelSA uses")]),
("mq5",M,"quiet",[(S,PROP,PROP.replace("current[index] = !current[index]","toggle(current, index)")),(S,REJ,REJ.replace("current[index] = !current[index]","toggle(current, index)")),(S,"// SelectModelSA uses","func toggle(model []bool, i int) {\n	model[i] = !model[i]\n}\n\n// SelectModelSA uses")]),
("mq6",M,"quiet",[(S,END,'''	res.Selected = SelectedFeatures(current)
	res.Coeff = coeff[:len(res.Selected)]
	return &res
''')]),
("mq7",M,"quiet",[(S,END,END.replace("make([]int, NumFeatures(current))","make([]int, 0, NumFeatures(current))").replace('''	counter := 0
	for i, v := range current {
		if v {
			res.Selected[counter] = i
			counter++
		}
	}
''','''	for i, v := range current {
		if v {
			res.Selected = append(res.Selected, i)
		}
	}
'''))]),
("mq8",M,"quiet",[(S,END,'''	N := NumFeatures(current)
	selected := make([]int, 0, N)
	for i := 0; i < len(current); i++ {
		if !current[i] {
			continue
		}
		selected = append(selected, i)
	}
	res.Selected = selected
	res.Coeff = coeff[0:N]
	return &res
''')]),
("mq9",M,"quiet",[(S,"			copy(coeff, coeffTemp)\n","			for i := range coeffTemp {\n				coeff[i] = coeffTemp[i]\n			}\n")]),
("mq10",M,"quiet",[(S,"	coeff := make([]float64, nc)\n","	var coeff []float64\n"),(S,"			copy(coeff, coeffTemp)\n","			coeff = coeffTemp\n"),(S,"	res.Coeff = coeff[:NumFeatures(current)]\n","	res.Coeff = coeff\n")]),
("mq11",M,"quiet",[(S,"		accept := score < currentScore || math.Exp(-(score-currentScore)/temp) > rand.Float64()\n\n		if accept {","		if score < currentScore || rand.Float64() < math.Exp((currentScore-score)/temp) {")]),
("mq12",M,"quiet",[(S,"		if accept {\n"+ACC+REJ,"		if !accept {\n			current[index] = !current[index]\n		} else {\n"+ACC+"		}\n		numSteps++\n")]),
("mq13",M,"quiet",[(P,OS,'''		k := 0
		for j, on := range model {
			if on {
				res.Coeff[j] = coeff[k]
				k++
			}
		}
'''),(P,"		selected := SelectedFeatures(model)\n","")]),
("mq14",M,"quiet",[(P,OS,'''		for i := 0; i < len(selected); i++ {
			feat := selected[i]
			res.Coeff[feat] = coeff[i]
		}
''')]),
("mq15",M,"quiet",[(P,OS,"		scatter(res.Coeff, selected, coeff)\n"),(P,"// Abs calculate","func scatter(dst []float64, idx []int, v []float64) {\n	for i, j := range idx {\n		dst[j] = v[i]\n	}\n}\n\n// Abs calculate")]),
("mq16",M,"quiet",[(O,B,'''			design := GetDesignMatrix(currentNode.Model, X)
			coeff := Fit(design, y)
			nrows, _ := X.Dims()
			currentNode.Coeff = coeff
			currentNode.Score = -Aicc(NumFeatures(currentNode.Model), nrows, Rss(design, coeff, y))
			highscore.Insert(currentNode)
''')]),
("mq17",M,"quiet",[(S,PROP,'''		index := rand.Intn(nc)
		before := current[index]
		current[index] = !before
		N := NumFeatures(current)
		if N == 0 {
			current[index] = before
			N = NumFeatures(current)
		} else if N >= nr/2 {
			current[index] = before
			continue
		}

		design := GetDesignMatrix(current, X)
''')]),
("mq18",M,"quiet",[(S,ACC,'''			numAccept++
			currentScore = score
			copy(coeff, coeffTemp)
			res.Scores.Insert(&SAItem{
				Selection: SelectedFeatures(current),
				Coeff:     append([]float64(nil), coeffTemp...),
				Score:     -score,
			})
''')]),
("mq19",M,"quiet",[(S,"// SelectModelSA uses",'''type saState struct {
	model []bool
	coeff []float64
	score float64
}

func newSAState(n int) *saState {
	var s saState
	s.model = make([]bool, n)
	s.model[0] = true
	s.coeff = make([]float64, n)
	s.score = math.MaxFloat64
	return &s
}

// SelectModelSA uses'''),
 (S,'''	current := make([]bool, nc)
	currentScore := math.MaxFloat64
	current[0] = true
	coeff := make([]float64, nc)
''','''	st := newSAState(nc)
'''),
 (S,PROP,PROP.replace("current","st.model")),
 (S,"score < currentScore || math.Exp(-(score-currentScore)/temp)","score < st.score || math.Exp(-(score-st.score)/temp)"),
 (S,ACC,ACC.replace("currentScore","st.score").replace("copy(coeff,","copy(st.coeff,").replace("NewSAItem(current)","NewSAItem(st.model)")),
 (S,REJ,REJ.replace("current","st.model")),
 (S,"temp, accRate, currentScore)","temp, accRate, st.score)"),
 (S,END,END.replace("coeff[:","st.coeff[:").replace("(current)","(st.model)").replace("range current","range st.model"))]),
("mq20",M,"quiet",[(S,"	for {\n		index := rand.Intn(nc)","	for {\n		// one proposal\n		_ = temp\n		index := rand.Intn(nc)"),(P,"		current++\n","		current++\n		_ = current\n")]),
]
