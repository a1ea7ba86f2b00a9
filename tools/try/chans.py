CASES=[]
def C(i,p,e,*ed): CASES.append((i,p,e,list(ed)))
O="featselect/optimize.go"; L="featselect/lassoCrdDesc.go"; K="featselect/cohens_kappa.go"; T="featselect/thresholdCov.go"
P=["C01","C02","C03","C04","C05","E01","E02"]
# behaviour preserving
C("q1",P,"quiet",(O,"""			if numInProgress <= 0 && queue.Len() == 0 {
				break exploreLoop
			}

		case prLevel""","""			if queue.Len() == 0 {
				if numInProgress < 1 {
					break exploreLoop
				}
			}

		case prLevel"""))
C("q2",P,"quiet",(O,"""			if ns.Level < ncols {
				queue.PushBack(ns)
			}
""","""			if !(ns.Level >= ncols) {
				_ = queue.PushBack(ns)
			}
"""))
C("q3",P,"quiet",(O,"""			if isNewNode(ns) && NumFeatures(ns.Model) > 0 {
				highscore.Insert(ns)
				numChecked++
""","""			fresh := isNewNode(ns)
			nf := NumFeatures(ns.Model)
			if fresh && nf >= 1 {
				numChecked += 1
				highscore.Insert(ns)
"""))
C("q4",P,"quiet",(O,"""			for _, flip := range []bool{false, true} {
				n := CreateChild(parent, flip, X, y, cutoff, h)
				if n == nil {
					pruneCh <- parent.Level
				} else {
					nodeCh <- n
				}
			}
		}
		ready <- true
	}
}
""","""			expand(parent, false, pruneCh, nodeCh, X, y, cutoff, h)
			expand(parent, true, pruneCh, nodeCh, X, y, cutoff, h)
		}
		ready <- true
	}
}

func expand(parent *Node, flip bool, pruneCh chan<- int, nodeCh chan<- *Node, X mat.Matrix, y []float64, cutoff float64, h *Highscore) {
	if n := CreateChild(parent, flip, X, y, cutoff, h); n != nil {
		nodeCh <- n
		return
	}
	pruneCh <- parent.Level
}
"""))
C("q5",P,"quiet",(O,"""	close(node)
	close(wantChildNode)
	close(pruneCh)
	close(score)
}
""","""	shutdown(node, wantChildNode)
	close(score)
	close(pruneCh)
}

func shutdown(chs ...chan *Node) {
	for _, c := range chs {
		close(c)
	}
}
"""))
C("q5b",P,"quiet",(O,"""	close(node)
	close(wantChildNode)
	close(pruneCh)
	close(score)
}
""","""	shutdown(node, wantChildNode)
	close(score)
	close(pruneCh)
}

func shutdown(a, b chan *Node) {
	close(b)
	close(a)
}
"""))
C("q6",P,"quiet",(L,"""	for numReceive < len(lambs) {
		result := <-resChan
""","""	total := len(lambs)
	for {
		if numReceive >= total {
			break
		}
		result := <-resChan
"""))
C("q7",P,"quiet",(L,"""	numReceive := 0
	highestInserted := 0
	for numReceive < len(lambs) {
""","""	highestInserted := 0
	for remaining := len(lambs); remaining > 0; remaining-- {
"""),(L,"""		numReceive++

""",""))
C("q8",P,"quiet",(K,"""	for w := range work {
		w.kappa = GetCohensKappa(w.numSamples, w.target)
		res <- w
	}
""","""	for {
		w, more := <-work
		if !more {
			return
		}
		w.kappa = GetCohensKappa(w.numSamples, w.target)
		res <- w
	}
"""))
C("q9",P,"quiet",(T,"""		CalculateFNormDiff(wrk.cvMat1, wrk.cvMat2, wrk.gr, wrk.step, res)
""","""		m1, m2 := wrk.cvMat1, wrk.cvMat2
		CalculateFNormDiff(m1, m2, wrk.gr, wrk.step, res)
"""))
C("q10",P,"quiet",(O,"""		numFeat := NumFeatures(n.Model)

		if numFeat > 0 && isNewNode(n) {
			design := GetDesignMatrix(n.Model, X)
			n.Coeff = Fit(design, y)
			rss := Rss(design, n.Coeff, y)
			n.Score = -Aicc(numFeat, nrows, rss)
		} else {
			n.Score = -math.MaxFloat64
		}
		scoreCh <- n
""","""		scoreNode(n, nrows, X, y)
		scoreCh <- n
"""),(O,"""// CreateChild creates""","""func scoreNode(n *Node, nrows int, X mat.Matrix, y []float64) {
	numFeat := NumFeatures(n.Model)
	if numFeat <= 0 || !isNewNode(n) {
		n.Score = -math.MaxFloat64
		return
	}
	design := GetDesignMatrix(n.Model, X)
	coeff := Fit(design, y)
	n.Coeff = coeff
	n.Score = -Aicc(numFeat, nrows, Rss(design, coeff, y))
}

// CreateChild creates"""))
C("q11",P,"quiet",(O,"""			element := queue.Front()
			var node *Node
			node = nil
			if element != nil {
				node = element.Value.(*Node)
				queue.Remove(queue.Front())
				numInProgress += 2
			}
			wantChildNode <- node
""","""			next := popFront(queue)
			if next != nil {
				numInProgress = numInProgress + 2
			}
			wantChildNode <- next
"""),(O,"""// BruteForceSelect runs""","""func popFront(q *list.List) *Node {
	front := q.Front()
	if front == nil {
		return nil
	}
	return q.Remove(front).(*Node)
}

// BruteForceSelect runs"""))
C("q12",P,"quiet",(O,"""			numInProgress--
			if numInProgress <= 0 && queue.Len() == 0 {
				break exploreLoop
			}

		case <-childReady""","""			numInProgress--
			if done := numInProgress <= 0 && queue.Front() == nil; done {
				break exploreLoop
			}

		case <-childReady"""))
C("q13",P,"quiet",(K,"""		if nextTarget < len(targets) {
			work := CohensKappaWorkload{
				numSamples: numSamples,
				target:     targets[nextTarget],
			}
			nextTarget++
			workChannel <- work
		}
	}

	numReceives""","""		if nextTarget < len(targets) {
			workChannel <- CohensKappaWorkload{target: targets[nextTarget], numSamples: numSamples}
			nextTarget++
		}
	}

	numReceives"""))
C("q14",P,"quiet",(O,"""	numInProgress := 2

""","""	pending := counter{n: 2}

"""),(O,"""		case ns := <-score:
			numInProgress--
""","""		case ns := <-score:
			pending.add(-1)
"""),(O,"""			if numInProgress <= 0 && queue.Len() == 0 {
				break exploreLoop
			}

		case prLevel""","""			if pending.n <= 0 && queue.Len() == 0 {
				break exploreLoop
			}

		case prLevel"""),(O,"""			numInProgress--
			if numInProgress <= 0 && queue.Len() == 0 {
				break exploreLoop
			}

		case <-childReady""","""			pending.add(-1)
			if pending.n <= 0 && queue.Len() == 0 {
				break exploreLoop
			}

		case <-childReady"""),(O,"numInProgress += 2","pending.add(2)"),(O,"// BruteForceSelect runs","""type counter struct{ n int }

func (c *counter) add(k int) { c.n += k }

// BruteForceSelect runs"""))
C("q15",P,"quiet",(T,"""	for numReceives < numSamples*numGrid {
		select {""","""	numJobs := numGrid * numSamples
	for numReceives != numJobs {
		select {"""))
C("q16",P,"quiet",(O,"""	for i := 0; i < numScoreWorkers; i++ {
		go ScoreWorker(node, score, X, y)
	}
""","""	for i := 0; i < numScoreWorkers; i++ {
		go func() {
			ScoreWorker(node, score, X, y)
		}()
	}
"""))
C("q17",P,"quiet",(L,"""	close(workChan)

	firstModel""","""	firstModel"""),(L,"""	workChan := make(chan LassoCrdWorkload)
""","""	workChan := make(chan LassoCrdWorkload)
	defer close(workChan)
"""))
C("q18",P,"quiet",(O,"""	log2Pruned := 0.0
	numChecked := 0
""","""	var (
		numChecked int
		log2Pruned float64
	)
"""),(O,"""		design := GetDesignMatrix(rootNode.Model, X)
		rootNode.Coeff = Fit(design, y)
		rootNode.Score = -Aicc(numFeat, nrows, Rss(design, rootNode.Coeff, y))
		highscore.Insert(rootNode)
""","""		scoreRoot(rootNode, X, y, numFeat, nrows)
		highscore.Insert(rootNode)
"""),(O,"// BruteForceSelect runs","""func scoreRoot(root *Node, X mat.Matrix, y []float64, k, n int) {
	design := GetDesignMatrix(root.Model, X)
	root.Coeff = Fit(design, y)
	root.Score = -Aicc(k, n, Rss(design, root.Coeff, y))
}

// BruteForceSelect runs"""))
# violations
C("a1",["C05"],"alarm",(O,"			if ns.Level < ncols {","			if ns.Level < ncols-1 {"))
C("a2",["C05"],"alarm",(O,"""			numInProgress--
			if numInProgress <= 0 && queue.Len() == 0 {
				break exploreLoop
			}

		case <-childReady""","""			numInProgress--
			if numInProgress <= 0 || queue.Len() == 0 && prLevel >= ncols-1 {
				break exploreLoop
			}

		case <-childReady"""))
C("a3",["C05"],"alarm",(O,"	numInProgress := 2\n","	numInProgress := 1\n"))
C("a4",["C05"],"alarm",(O,"""			if ns.Level < ncols {
				queue.PushBack(ns)
			}
""","""			if ns.Level < ncols && highscore.Len() > 0 {
				queue.PushBack(ns)
			}
"""))
C("a5",["C03"],"alarm",(O,"""		if parent != nil {
			for _, flip := range []bool{false, true} {
				n := CreateChild(""","""		if parent != nil {
			for _, flip := range []bool{false, true} {
				if parent.Level >= len(parent.Model) {
					break
				}
				n := CreateChild("""))
C("a6",["C03"],"alarm",(K,"	for numReceives < len(targets) {","	for numReceives < nextTarget {"))
C("a7",["C04"],"alarm",(L,"	close(workChan)\n","	if len(lambs) > 1 {\n		close(workChan)\n	}\n"))
C("a8",["C04"],"alarm",(O,"	childReady := make(chan bool, 1)","	childReady := make(chan bool)"))
C("a9",["C03"],"alarm",(T,"""	for numReceives < numSamples*numGrid {
		select {""","""	for gridPt < numSamples*numGrid {
		select {"""))
C("a10",["C04"],"alarm",(T,"	for wrk := range workload {","	for {\n		wrk := <-workload"))
C("a11",["C05"],"alarm",(O,"numFeat > 0 && numFeat < nrows {\n		design","numFeat > 1 && numFeat < nrows {\n		design"))
C("a12",["C05"],"alarm",(O,"			if isNewNode(ns) && NumFeatures(ns.Model) > 0 {","			if isNewNode(ns) && NumFeatures(ns.Model) > 1 {"))
C("a13",["C05"],"alarm",(O,"""			for _, flip := range []bool{false, true} {
				n := CreateChild(parent, flip, X, y, cutoff, h)""","""			for _, flip := range []bool{false, true} {
				n := CreateChild(parent, flip && parent.Level > 0, X, y, cutoff, h)"""))
