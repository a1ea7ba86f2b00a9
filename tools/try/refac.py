F="featselect/"
O=F+"optimize.go"; H=F+"highscore.go"; N=F+"node.go"; S=F+"saScore.go"; FI=F+"fit.go"; CR=F+"criteria.go"
CSV=F+"csvIO.go"; K=F+"cohens_kappa.go"; T=F+"thresholdCov.go"; U=F+"util.go"; ND=F+"normalized_dataset.go"; LP=F+"lassoPlot.go"; NL=F+"nestedLasso.go"
A="all"
def src(f): return open("/repo/"+f).read()
def between(f,a,b):
    s=src(f); i=s.index(a); j=s.index(b,i); return s[i:j]
Q="quiet"
def fn(f,name):
    s=src(f); i=s.index("func "+name if not name.startswith("(") else "func "+name)
    j=s.index("\n}\n",i)+3
    return s[i:j]
CASES=[]
def C(id,*edits): CASES.append((id,A,Q,list(edits)))

# root scoring, worker scoring and brute force share a helper
C("rf1",(O,between(O,"	if numFeat := NumFeatures(rootNode","	numScoreWorkers"),'''	if numFeat := NumFeatures(rootNode.Model); numFeat > 0 && numFeat < nrows {
		fitAndScore(rootNode, X, y)
		highscore.Insert(rootNode)
		numChecked++
	}

'''),(O,between(O,"		if NumFeatures(currentNode.Model) > 0","		queue.Remove(queue.Front())\n\n		if currentNode"),'''		if NumFeatures(currentNode.Model) > 0 && isNewNode(currentNode) {
			fitAndScore(currentNode, X, y)
			highscore.Insert(currentNode)
		}
'''),(O,fn(O,"ScoreWorker"),'''func fitAndScore(n *Node, X mat.Matrix, y []float64) {
	nrows, _ := X.Dims()
	design := GetDesignMatrix(n.Model, X)
	n.Coeff = Fit(design, y)
	n.Score = -Aicc(NumFeatures(n.Model), nrows, Rss(design, n.Coeff, y))
}

func ScoreWorker(nodeCh <-chan *Node, scoreCh chan<- *Node, X mat.Matrix, y []float64) {
	for n := range nodeCh {
		if NumFeatures(n.Model) == 0 || !isNewNode(n) {
			n.Score = -math.MaxFloat64
			scoreCh <- n
			continue
		}
		fitAndScore(n, X, y)
		scoreCh <- n
	}
}
'''))
# child creation with early returns
C("rf2",(O,fn(O,"CreateChild("),'''func CreateChild(node *Node, flip bool, X mat.Matrix, y []float64, cutoff float64, h *Highscore) *Node {
	nrows, _ := X.Dims()
	child := node.GetChildNode(flip)
	numFeat := NumFeatures(child.Model)
	if numFeat >= nrows {
		return nil
	}
	child.Lower, child.Upper = childBounds(child, numFeat, X, y)
	if h.Len() == 0 {
		return child
	}
	best := h.BestScore()
	if child.Lower+cutoff > -best {
		return nil
	}
	return child
}

func childBounds(child *Node, numFeat int, X mat.Matrix, y []float64) (float64, float64) {
	if numFeat == 0 {
		return -1e100, 1e100
	}
	return BoundsAICC(child.Model, child.Level, X, y)
}
'''))
C("rf3",(O,fn(O,"CreateChildNodes("),'''func CreateChildNodes(parentCh <-chan *Node, pruneCh chan<- int, nodeCh chan<- *Node, ready chan<- bool,
	X mat.Matrix, y []float64, cutoff float64, h *Highscore) {
	expand := func(parent *Node, flip bool) {
		if n := CreateChild(parent, flip, X, y, cutoff, h); n != nil {
			nodeCh <- n
			return
		}
		pruneCh <- parent.Level
	}
	for parent := range parentCh {
		if parent != nil {
			expand(parent, false)
			expand(parent, true)
		}
		ready <- true
	}
}
'''))
C("rf4",(O,fn(O,"CleanQueue("),'''func CleanQueue(q *list.List, threshold float64) {
	item := q.Front()
	for item != nil {
		current := item
		item = item.Next()
		node := current.Value.(*Node)
		if node.Lower > threshold {
			q.Remove(current)
		}
	}
}
'''),(O,fn(O,"RemoveLeastPromising("),'''func RemoveLeastPromising(q *list.List) {
	CleanQueue(q, meanLower(q))
}

func meanLower(q *list.List) float64 {
	sum := 0.0
	for e := q.Front(); e != nil; e = e.Next() {
		n := e.Value.(*Node)
		sum += n.Lower
	}
	return sum / float64(q.Len())
}
'''))
# main loop: done test extracted, ordering
C("rf5",(O,between(O,"exploreLoop:","	close(node)"),'''	finished := func() bool { return numInProgress <= 0 && queue.Len() == 0 }
	for done := false; !done; {
		select {
		case ns := <-score:
			numInProgress--
			sp.Set(highscore.BestScore(), numChecked, log2Pruned)

			if isNewNode(ns) && NumFeatures(ns.Model) > 0 {
				numChecked++
				highscore.Insert(ns)

				if best := highscore.BestScore(); best > currentBestScore {
					currentBestScore = best
					CleanQueue(queue, -best-params.Cutoff)
				}
			}

			if ns.Level < ncols {
				queue.PushBack(ns)
			}

			if queue.Len() > params.MaxQueueSize {
				RemoveLeastPromising(queue)
				fmt.Printf("Reached maximum buffer size. Removed least promising without exploring them\\n"+
					"Number of nodes in the queue %d\\n", queue.Len())
			}
			done = finished()

		case prLevel := <-pruneCh:
			numInProgress--
			log2Pruned = NewLog2Pruned(log2Pruned, ncols-prLevel)
			done = finished()

		case <-childReady:
			var next *Node
			if element := queue.Front(); element != nil {
				next = queue.Remove(element).(*Node)
				numInProgress += 2
			}
			wantChildNode <- next
		}
	}
'''))
C("rf6",(O,between(O,"	numScoreWorkers := 8","	wantChildNode <- rootNode"),'''	startWorkers(8, func() { ScoreWorker(node, score, X, y) })
	startWorkers(8, func() {
		CreateChildNodes(wantChildNode, pruneCh, node, childReady, X, y, params.Cutoff, highscore)
	})

'''),(O,"func all(model","func startWorkers(n int, work func()) {\n	for i := 0; i < n; i++ {\n		go work()\n	}\n}\n\nfunc all(model"))
C("rf7",(O,between(O,"	for queue.Front() != nil {","	return highscore\n}\n\nfunc all"),'''	for queue.Len() > 0 {
		front := queue.Front()
		current := front.Value.(*Node)
		queue.Remove(front)
		if NumFeatures(current.Model) > 0 && isNewNode(current) {
			design := GetDesignMatrix(current.Model, X)
			coeff := Fit(design, y)
			current.Coeff = coeff
			current.Score = -Aicc(NumFeatures(current.Model), len(y), Rss(design, coeff, y))
			highscore.Insert(current)
		}
		if current.Level == ncols {
			continue
		}
		for _, flip := range []bool{false, true} {
			queue.PushBack(current.GetChildNode(flip))
		}
	}
'''))
C("rf8",(O,fn(O,"Gcs("),'''func Gcs(model []bool, start int) []bool {
	return fillTail(model, start, true)
}
'''),(O,fn(O,"Lcs("),'''func Lcs(model []bool, start int) []bool {
	return fillTail(model, start, false)
}

func fillTail(model []bool, start int, value bool) []bool {
	res := append([]bool{}, model...)
	for i := start; i < len(res); i++ {
		res[i] = value
	}
	return res
}
'''),(O,fn(O,"NumFeatures("),'''func NumFeatures(model []bool) int {
	num := 0
	for i := range model {
		if !model[i] {
			continue
		}
		num++
	}
	return num
}
'''))
# highscore
C("rf9",(H,fn(H,"(h *Highscore) Insert"),'''func (h *Highscore) Insert(node *Node) {
	h.rwlock.Lock()
	defer h.rwlock.Unlock()
	if n := h.Items.Len(); n > 0 && n == h.MaxItems-1 && h.Items.Back().Value.(*Node).Score > node.Score {
		return
	}

	pos := h.firstBelow(node.Score)
	if pos == nil {
		if h.Items.Len() < h.MaxItems {
			h.Items.PushBack(node)
		}
		return
	}
	h.Items.InsertBefore(node, pos)
	if h.Items.Len() >= h.MaxItems {
		h.Items.Remove(h.Items.Back())
	}
}

// firstBelow expects the caller to hold the lock
func (h *Highscore) firstBelow(score float64) *list.Element {
	for item := h.Items.Front(); item != nil; item = item.Next() {
		if item.Value == nil {
			panic("Insert: Value is nil")
		}
		if item.Value.(*Node).Score < score {
			return item
		}
	}
	return nil
}
'''))
C("rf10",(H,fn(H,"(h *Highscore) Scores"),'''func (h *Highscore) Scores() []float64 {
	h.rwlock.RLock()
	defer h.rwlock.RUnlock()
	nodes := h.nodes()
	scores := make([]float64, len(nodes))
	for i, n := range nodes {
		scores[i] = n.Score
	}
	return scores
}

// nodes expects the caller to hold the lock
func (h *Highscore) nodes() []*Node {
	data := make([]*Node, 0, h.Items.Len())
	for e := h.Items.Front(); e != nil; e = e.Next() {
		data = append(data, e.Value.(*Node))
	}
	return data
}
'''),(H,between(H,"	data := make([]*Node, h.Items.Len())","	return json.Marshal"),"	data := h.nodes()\n"))
C("rf11",(H,fn(H,"(h *Highscore) BestScore"),'''func (h *Highscore) BestScore() float64 {
	h.rwlock.RLock()
	defer h.rwlock.RUnlock()
	if h.Items.Len() == 0 {
		return 0.0
	}
	best := h.Items.Front().Value.(*Node)
	return best.Score
}
'''),(H,fn(H,"(h *Highscore) Len"),'''func (h *Highscore) Len() int {
	h.rwlock.RLock()
	n := h.Items.Len()
	h.rwlock.RUnlock()
	return n
}
'''))
C("rf12",(H,between(H,"	items := list.New()\n	for i","	h.rwlock.Lock()\n	defer h.rwlock.Unlock()\n	h.MaxItems = aux"),'''	for i, n := range aux.Items {
		if n == nil {
			return errors.New("highscore: items are missing")
		}
		if i > 0 && aux.Items[i-1].Score < n.Score {
			return errors.New("highscore: items are not sorted by score")
		}
	}
	items := list.New()
	for _, n := range aux.Items {
		items.PushBack(n)
	}

'''))
# node
C("rf13",(N,fn(N,"(n *Node) GetChildNode"),'''func (n *Node) GetChildNode(flip bool) *Node {
	model := append([]bool(nil), n.Model...)
	if flip {
		model[n.Level] = !n.Model[n.Level]
	}
	return &Node{
		Model:      model,
		Level:      n.Level + 1,
		WasFlipped: flip,
	}
}
'''),(N,fn(N,"NewNode"),'''func NewNode(level int, model []bool) *Node {
	return &Node{
		Level: level,
		Model: append([]bool{}, model...),
		Coeff: make([]float64, NumFeatures(model)),
	}
}
'''))
C("rf14",(N,fn(N,"(n *Node) ToSparseCoeff"),'''func (n *Node) ToSparseCoeff() SparseCoeff {
	return SparseCoeff{Coeff: n.Coeff, Selection: selectedFeatures(n.Model)}
}

func selectedFeatures(model []bool) []int {
	selected := make([]int, 0, NumFeatures(model))
	for i, v := range model {
		if v {
			selected = append(selected, i)
		}
	}
	return selected
}
'''),(N,between(N,"	selected := make([]int, NumFeatures(n.Model))","	return json.Marshal"),"	selected := selectedFeatures(n.Model)\n"))
C("rf15",(N,between(N,"	if aux.TotNumFeatures < 0","	n.Lower = aux.Lower"),'''	if err := aux.check(); err != nil {
		return err
	}
'''),(N,between(N,"	n.Model = make([]bool, aux.Tot","	return nil\n}\n\n// Estimate"),"	n.Model = Selected2Model(aux.Selected, aux.TotNumFeatures)\n"),
 (N,"// UnmarshalJSON decodes a JSON representation of a Node",'''func (aux *nodeJsonified) check() error {
	if aux.TotNumFeatures < 0 || aux.TotNumFeatures > maxStoredFeatures {
		return fmt.Errorf("node: invalid number of features %d", aux.TotNumFeatures)
	}
	if aux.Level < 0 || aux.Level > aux.TotNumFeatures {
		return fmt.Errorf("node: invalid level %d", aux.Level)
	}
	if len(aux.Coeff) != 0 && len(aux.Coeff) != len(aux.Selected) {
		return fmt.Errorf("node: %d coefficients for %d features", len(aux.Coeff), len(aux.Selected))
	}
	prev := -1
	for _, v := range aux.Selected {
		if v <= prev || v >= aux.TotNumFeatures {
			return fmt.Errorf("node: invalid selected feature %d", v)
		}
		prev = v
	}
	return nil
}

// UnmarshalJSON decodes a JSON representation of a Node'''))
# SA
C("rf16",(S,fn(S,"(s *SAScore) Insert"),'''func (s *SAScore) Insert(item *SAItem) {
	if s.Exists(item) {
		return
	}
	switch {
	case len(s.Items) == 0:
		s.Items = append(s.Items, item)
		s.BestItem, s.WorstItem = item, item
	case len(s.Items) < s.Cap:
		s.Items = append(s.Items, item)
		if item.Score > s.BestItem.Score {
			s.BestItem = item
		}
		if item.Score < s.WorstItem.Score {
			s.WorstItem = item
		}
	case item.Score > s.WorstItem.Score:
		s.replaceWorst(item)
	}
}

func (s *SAScore) replaceWorst(item *SAItem) {
	*s.WorstItem = *item
	if item.Score > s.BestItem.Score {
		s.BestItem = item
	}
	minScore := item.Score
	for _, v := range s.Items {
		if v.Score < minScore {
			minScore = v.Score
			s.WorstItem = v
		}
	}
}
'''))
C("rf17",(S,between(S,"	n := NumFeatures(model)","	return &saItem\n}\n\n// SAScore"),'''	for i := range model {
		if model[i] {
			saItem.Selection = append(saItem.Selection, i)
		}
	}
	saItem.Coeff = make([]float64, len(saItem.Selection))
'''))
# fit
C("rf18",(FI,between(FI,"	invSigma := 0.0","	var xMat"),'''	for i, sigma := range s {
		scale := 0.0
		if sigma > 1e-6 {
			scale = 1.0 / sigma
		}
		uTdoty.Set(i, 0, uTdoty.At(i, 0)*scale)
	}

'''),(FI,between(FI,"	for i := 0; i < len(x); i++ {\n		x[i]","	return x\n"),"	mat.Col(x, 0, &xMat)\n"))
C("rf19",(FI,between(FI,"	sumSq := 0.0","	return sumSq"),'''	sumSq := 0.0
	for i, p := range pred {
		diff := p - data[i]
		sumSq += diff * diff
	}
'''))
C("rf20",(CR,between(CR,"	rssLcs := math.Max","	lower := crit"),'''	nr, _ := X.Dims()
	rssGcs := RssTol
	if kGcs < nr {
		rssGcs = fitRss(gcsMod, X, y)
	}
	rssLcs := math.MaxFloat64
	if kLcs != 0 {
		rssLcs = fitRss(lcsMod, X, y)
	}

'''),(CR,"// BoundsAIC calc",'''func fitRss(model []bool, X mat.Matrix, y []float64) float64 {
	design := GetDesignMatrix(model, X)
	return Rss(design, Fit(design, y), y)
}

// BoundsAIC calc'''))
C("rf21",(CR,fn(CR,"Aicc("),'''func Aicc(numFeat int, numData int, logL float64) float64 {
	correction := 2.0 * float64(numFeat) * float64(numFeat+1)
	if rest := numData - numFeat - 1; rest > 0 {
		correction /= float64(rest)
	}
	return Aic(numFeat, numData, logL) + correction
}
'''))
# csv
C("rf22",(CSV,between(CSV,"			row := make([]float64, len(line))","			data = append"),"			row := parseRow(line)\n"),(CSV,"// Save dataset",'''func parseRow(line []string) []float64 {
	row := make([]float64, len(line))
	for i := range line {
		fl, err := strconv.ParseFloat(strings.TrimSpace(line[i]), 64)
		if err != nil {
			panic(err)
		}
		row[i] = fl
	}
	return row
}

// Save dataset'''))
C("rf23",(CSV,between(CSV,"	for row := 0; row < len(data); row++ {","	return &dset"),'''	for r, values := range data {
		for c, v := range values {
			switch {
			case c < targetCol:
				dset.X.Set(r, c, v)
			case c == targetCol:
				dset.Y[r] = v
			default:
				dset.X.Set(r, c-1, v)
			}
		}
	}
'''))
C("rf24",(CSV,between(CSV,"	for i := 0; i < nrows; i++ {\n		shift","	writer.Flush"),'''	for i := 0; i < nrows; i++ {
		col := 0
		for j := range values {
			v := dset.Y[i]
			if j != dset.TargetCol {
				v = dset.X.At(i, col)
				col++
			}
			values[j] = fmt.Sprintf("%f", v)
		}
		writer.Write(values)
	}
'''))
C("rf25",(CSV,fn(CSV,"(d *Dataset) FeatNoByName"),'''func (d *Dataset) FeatNoByName(name string) int {
	for i, n := range d.Names {
		if i == d.TargetCol || n != name {
			continue
		}
		if i < d.TargetCol {
			return i
		}
		return i - 1
	}
	panic("FeatNoByName: Did not find any names that matched")
}
'''),(CSV,fn(CSV,"(d *Dataset) GetFeatName"),'''func (d *Dataset) GetFeatName(i int) string {
	if i >= d.TargetCol {
		i++
	}
	return d.Names[i]
}
'''))
C("rf26",(CSV,fn(CSV,"(d *Dataset) GetSubset"),'''func (d *Dataset) GetSubset(features []int) *Dataset {
	nr, _ := d.X.Dims()
	n := len(features)
	subset := &Dataset{
		X:         mat.NewDense(nr, n, nil),
		Y:         append([]float64{}, d.Y...),
		Names:     make([]string, n+1),
		TargetCol: n,
	}
	for col, v := range features {
		subset.Names[col] = d.GetFeatName(v)
		for r := 0; r < nr; r++ {
			subset.X.Set(r, col, d.X.At(r, v))
		}
	}
	subset.Names[n] = d.Names[d.TargetCol]
	return subset
}
'''),(CSV,fn(CSV,"(d *Dataset) Copy"),'''func (d *Dataset) Copy() *Dataset {
	return &Dataset{
		X:         mat.DenseCopyOf(d.X),
		Y:         append([]float64{}, d.Y...),
		Names:     append([]string{}, d.Names...),
		TargetCol: d.TargetCol,
	}
}
'''))
C("rf27",(CSV,fn(CSV,"(dset *Dataset) Save("),'''func (dset *Dataset) Save(fname string) (err error) {
	csvFile, err := os.Create(fname)
	if err != nil {
		return err
	}
	defer func() {
		if cerr := csvFile.Close(); err == nil {
			err = cerr
		}
	}()
	return dset.SaveHandle(csvFile)
}
'''))
# cohen
C("rf28",(K,between(K,"	for i := 0; i < numWorkers; i++ {\n		go","	numReceives := 0"),'''	dispatch := func() {
		if nextTarget >= len(targets) {
			return
		}
		work := CohensKappaWorkload{
			numSamples: numSamples,
			target:     targets[nextTarget],
		}
		nextTarget++
		workChannel <- work
	}
	for i := 0; i < numWorkers; i++ {
		go CohensKappaWorker(workChannel, resChannel)
		dispatch()
	}

'''),(K,'''		if nextTarget < len(targets) {
			work := CohensKappaWorkload{
				numSamples: numSamples,
				target:     targets[nextTarget],
			}
			nextTarget++
			workChannel <- work
		}
	}
	close(workChannel)
''','''		dispatch()
	}
	close(workChannel)
'''))
C("rf29",(K,between(K,"	srt := Argsort(allKappas)","	return bestHyper"),"	printKappas(allKappas, allStrRep)\n"),(K,"// CalculateCohenSequence calc",'''func printKappas(kappas []float64, names []string) {
	srt := Argsort(kappas)
	fmt.Printf("-------------------------------------------------------------------\\n")
	fmt.Printf("                    COHEN'S KAPPA SUMMARY                          \\n")
	fmt.Printf("-------------------------------------------------------------------\\n")
	for _, i := range srt {
		fmt.Printf("%54s Kappa: %3.3f\\n", names[i], kappas[i])
	}
	fmt.Printf("-------------------------------------------------------------------\\n")
}

// CalculateCohenSequence calc'''))
C("rf30",(T,between(T,"	for i := 0; i < nr; i++ {\n		for j := 0; j < nc; j++ {\n			mat1Cpy","	var result"),"	mat1Cpy.Sub(mat1Cpy, mat2)\n"),(T,"	nr, nc := mat1Cpy.Dims()\n",""))
C("rf31",(T,between(T,"			var work Workload\n			work.cvMat1 = cvMat1\n			work.cvMat2 = cvMat2\n			work.gr = gridPt\n			work.step = step\n\n","		case <-ticker"),'''			numReceives++

			// When we have received a result from all grid point
			// we create a new partition
			if numReceives%numGrid == 0 {
				mat1, mat2 = RandomRowSplit(X, n1)
				cvMat1, cvMat2 = CovarianceMatrix(mat1), CovarianceMatrix(mat2)
				gridPt = 0
			}
			if gridPt < numGrid && numReceives < numSamples*numGrid {
				workChannel <- Workload{cvMat1: cvMat1, cvMat2: cvMat2, gr: gridPt, step: step}
			}
			gridPt++
'''))
C("rf32",(T,between(T,"	mat1 := mat.NewDense(num, nc, nil)","	return mat1, mat2\n}\n\n// Calc"),'''	indices := rand.Perm(nr)
	mat1 := pickRows(X, indices[:num])
	mat2 := pickRows(X, indices[num:])
'''),(T,"	nr, nc := X.Dims()\n	n2 := nr - num\n","	nr, _ := X.Dims()\n"),(T,"// CalculateFNormDiff between",'''func pickRows(X mat.Matrix, rows []int) *mat.Dense {
	_, nc := X.Dims()
	m := mat.NewDense(len(rows), nc, nil)
	for i, r := range rows {
		for j := 0; j < nc; j++ {
			m.Set(i, j, X.At(r, j))
		}
	}
	return m
}

// CalculateFNormDiff between'''))
# util
C("rf33",(U,between(U,"	n11 := 0","	PrA :="),'''	n11, n12, n21, n22 := 0, 0, 0, 0
	for _, v := range s1 {
		if ExistInt(s2, v) {
			n11++
			continue
		}
		n12++
	}
	for _, v := range s2 {
		if ExistInt(s1, v) {
			continue
		}
		n21++
	}
	for i := 0; i < totNum; i++ {
		if !(ExistInt(s1, i) || ExistInt(s2, i)) {
			n22++
		}
	}

'''))
C("rf34",(U,between(U,"	col := 0\n	for i := 0; i < len(model); i++ {","	return design\n"),'''	col := 0
	for i, active := range model {
		if !active {
			continue
		}
		for j := 0; j < n; j++ {
			design.Set(j, col, X.At(j, i))
		}
		col++
	}
'''))
C("rf35",(U,fn(U,"Std("),'''func Std(v []float64) float64 {
	n := len(v)
	if n < 2 {
		return 0.0
	}
	mu := Mean(v)
	sigmaSq := 0.0
	for _, x := range v {
		d := x - mu
		sigmaSq += d * d
	}
	return math.Sqrt(sigmaSq / float64(n-1))
}
'''),(U,between(U,"	for i := 0; i < len(v); i++ {\n		v[i] = (v[i] - mu) / std","}\n\n// NormalizeRows"),"	for i, x := range v {\n		v[i] = (x - mu) / std\n	}\n"))
C("rf36",(U,between(U,"	for i := 0; i < len(s); i++ {\n		if s[i]*s[i] > tol","	diag := mat.NewDiagDense(len(s), s)\n	nr, _"),'''	for i, v := range s {
		sq := v * v
		if sq <= tol {
			s[i] = 0.0
			continue
		}
		s[i] = 1.0 / sq
	}

'''))
C("rf37",(U,between(U,"	res := make([]float64, num)\n\n	logMax","	return res\n}\n\n// UnionInt"),'''	logMin := math.Log(min)
	step := (math.Log(max) - logMin) / float64(num-1)

	res := make([]float64, num)
	for i := range res {
		res[i] = math.Exp(logMin + step*float64(i))
	}
'''))
C("rf38",(ND,between(ND,"		for r := 0; r < nr; r++ {\n			tmp[r] = X.At(r, c)","		if normD.std[c] < 1e-10 && c != 0"),'''		mat.Col(tmp, c, X)
		mu, std := Mean(tmp), Std(tmp)
		normD.mu[c], normD.std[c] = mu, std

'''))
C("rf39",(ND,between(ND,"	sumShift := 0.0","	return n.muY"),'''	sumShift := 0.0
	for i := range selected {
		feat := selected[i]
		sumShift += coeff[i] * n.mu[feat] / n.std[feat]
	}
'''))
C("rf40",(LP,between(LP,"		model := Selected2Model(n.Selection, nFeat)\n		design := GetDesignMatrix(model, p.Dset.X)\n		rss := Rss(design, n.Coeff, p.Dset.Y)\n		num","	return values"),'''		rss, num := p.residual(n, nFeat)
		values[i] = criteria(num, nData, rss)
	}
'''),(LP,"// PlotQualityScores plot",'''func (p *LassoLarsPath) residual(n *LassoLarsNode, nFeat int) (float64, int) {
	model := Selected2Model(n.Selection, nFeat)
	design := GetDesignMatrix(model, p.Dset.X)
	return Rss(design, n.Coeff, p.Dset.Y), NumFeatures(model)
}

// PlotQualityScores plot'''))
C("rf41",(LP,between(LP,"	_, nFeat := lassoPath.Dset.X.Dims()\n	for","	return &lassoPath"),'''	_, nFeat := lassoPath.Dset.X.Dims()
	for _, n := range lassoPath.LassoLarsNodes {
		if !validNode(n, nFeat) {
			panic("lassolarspathfrombytes: Malformed node in the stored path")
		}
	}
'''),(LP,"// MaxMinFeatNo",'''func validNode(n *LassoLarsNode, nFeat int) bool {
	if n == nil || len(n.Selection) != len(n.Coeff) {
		return false
	}
	for _, v := range n.Selection {
		if v < 0 || v >= nFeat {
			return false
		}
	}
	return true
}

// MaxMinFeatNo'''))
C("rf42",(NL,between(NL,"		featNames := make","		if newNum <= 2"),'''		for _, v := range newPath {
			v.Selection = MapSelectionByName(data, featureNames(curDset), v.Selection)
		}

'''),(NL,"// MapSelectionByName maps",'''func featureNames(d *Dataset) []string {
	_, nc := d.X.Dims()
	names := make([]string, nc)
	for i := range names {
		names[i] = d.GetFeatName(i)
	}
	return names
}

// MapSelectionByName maps'''))
C("rf43",(NL,"	yCpy := make([]float64, len(data.Y))\n	copy(yCpy, data.Y)\n\n",""),(NL,fn(NL,"MapSelectionByName"),'''func MapSelectionByName(orig *Dataset, names []string, selection []int) []int {
	for i, v := range selection {
		selection[i] = orig.FeatNoByName(names[v])
	}
	return selection
}
'''))
