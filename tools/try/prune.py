O="featselect/optimize.go"
C="featselect/criteria.go"
CLEAN='''				if highscore.BestScore() > currentBestScore {
					currentBestScore = highscore.BestScore()
					CleanQueue(queue, -currentBestScore-params.Cutoff)
				}
'''
CUT='''			if queue.Len() > params.MaxQueueSize {
				RemoveLeastPromising(queue)
'''
TAKE='''			if element != nil {
				node = element.Value.(*Node)
				queue.Remove(queue.Front())
				numInProgress += 2
			}
			wantChildNode <- node
'''
WORK='''				n := CreateChild(parent, flip, X, y, cutoff, h)
				if n == nil {
					pruneCh <- parent.Level
				} else {
					nodeCh <- n
				}
'''
B=["B01"]
CASES=[
("pa1",B,"alarm",[(O,"-currentBestScore-params.Cutoff","-currentBestScore+params.Cutoff")]),
("pa2",B,"alarm",[(O,"-currentBestScore-params.Cutoff","-currentBestScore")]),
("pa3",B,"alarm",[(O,"queue.Len() > params.MaxQueueSize","numInProgress+queue.Len() > params.MaxQueueSize")]),
("pa4",B,"alarm",[(O,"queue.Len() > params.MaxQueueSize","2*queue.Len() > params.MaxQueueSize")]),
("pq11",B,"quiet",[(O,CLEAN,CLEAN.replace("highscore.BestScore() > currentBestScore","ns.Score > currentBestScore").replace("currentBestScore = highscore.BestScore()","currentBestScore = ns.Score"))]),
("pa6",B,"alarm",[(O,"n := CreateChild(parent, flip, X, y, cutoff, h)","n := CreateChild(parent, flip, X, y, cutoff, h)\n				if n != nil && n.Lower > n.Upper {\n					n = nil\n				}")]),
("pa7",B,"alarm",[(O,"queue.Remove(queue.Front())\n				numInProgress += 2","queue.Remove(queue.Back())\n				numInProgress += 2")]),
("pa8",B,"alarm",[(O,"for _, flip := range []bool{false, true} {\n			","for _, flip := range []bool{false, true} {\n				if flip && parent.Lower > parent.Upper {\n					pruneCh <- parent.Level\n					continue\n				}\n			")]),
("pa9",B,"alarm",[(O,"go CreateChildNodes(wantChildNode, pruneCh, node, childReady, X, y, params.Cutoff, highscore)","go CreateChildNodes(wantChildNode, pruneCh, node, childReady, X, y, 0.0, highscore)")]),
("pa10",B,"alarm",[(O,"if h.Len() > 0 && child.Lower+cutoff > -h.BestScore()","if child.Lower+cutoff > -h.BestScore()")]),
("pa11",B,"alarm",[(O,CUT,CUT.replace("queue.Len() > params","queue.Len() >= params"))]),
# behaviour kept
("pq1",B,"quiet",[(O,CLEAN,'''				if best := highscore.BestScore(); best > currentBestScore {
					currentBestScore = best
					threshold := -(best + params.Cutoff)
					CleanQueue(queue, threshold)
				}
''')]),
("pq2",B,"quiet",[(O,CLEAN,"				currentBestScore = dropHopeless(queue, highscore, currentBestScore, params)\n"),
 (O,"// BruteForceSelect runs",'''func dropHopeless(q *list.List, h *Highscore, last float64, params *SelectModelOptParams) float64 {
	best := h.BestScore()
	if best <= last {
		return last
	}
	CleanQueue(q, -best-params.Cutoff)
	return best
}

// BruteForceSelect runs''')]),
("pq3",B,"quiet",[(O,CUT,'''			if tooMany := params.MaxQueueSize < queue.Len(); tooMany {
				RemoveLeastPromising(queue)
''')]),
("pq4",B,"quiet",[(O,TAKE,'''			if element != nil {
				node = queue.Remove(element).(*Node)
				numInProgress += 2
			}
			wantChildNode <- node
''')]),
("pq5",B,"quiet",[(O,WORK,'''				child := CreateChild(parent, flip, X, y, cutoff, h)
				if child != nil {
					nodeCh <- child
					continue
				}
				pruneCh <- parent.Level
'''),(O,"range []bool{false, true}","range []bool{false, true}".replace("false, true","true, false"))]),
("pq6",B,"quiet",[(O,"		if parent != nil {\n			for _, flip := range []bool{false, true} {\n"+WORK+"			}\n		}\n",'''		if parent != nil {
			expand(parent, false, pruneCh, nodeCh, X, y, cutoff, h)
			expand(parent, true, pruneCh, nodeCh, X, y, cutoff, h)
		}
'''),(O,"// CleanQueue removes",'''func expand(parent *Node, flip bool, pruneCh chan<- int, nodeCh chan<- *Node, X mat.Matrix, y []float64, cutoff float64, h *Highscore) {
	n := CreateChild(parent, flip, X, y, cutoff, h)
	if n == nil {
		pruneCh <- parent.Level
		return
	}
	nodeCh <- n
}

// CleanQueue removes''')]),
("pq7",B,"quiet",[(O,TAKE,'''			if element != nil {
				node = takeFirst(queue)
				numInProgress += 2
			}
			wantChildNode <- node
'''),(O,"// BruteForceSelect runs",'''func takeFirst(q *list.List) *Node {
	e := q.Front()
	n := e.Value.(*Node)
	q.Remove(e)
	return n
}

// BruteForceSelect runs''')]),
("pq8",B,"quiet",[(O,'''	n := NumFeatures(child.Model)
	nrows, _ := X.Dims()
	if n < nrows {
		if n > 0 {
			child.Lower, child.Upper = BoundsAICC(child.Model, child.Level, X, y)
		} else {
			child.Lower = -1e100
			child.Upper = 1e100
		}
	} else {
		return nil
	}

	if h.Len() > 0 && child.Lower+cutoff > -h.BestScore() {
		return nil
	}
	return child
''','''	nrows, _ := X.Dims()
	n := NumFeatures(child.Model)
	if n >= nrows {
		return nil
	}
	child.Lower, child.Upper = -1e100, 1e100
	if n != 0 {
		child.Lower, child.Upper = BoundsAICC(child.Model, child.Level, X, y)
	}
	if h.Len() == 0 {
		return child
	}
	if pruned := child.Lower+cutoff > -h.BestScore(); pruned {
		return nil
	}
	return child
''')]),
("pq9",B,"quiet",[(O,'''	var next *list.Element
	for item := q.Front(); item != nil; item = next {
		next = item.Next()

		if item.Value.(*Node).Lower > threshold {
			q.Remove(item)
		}
	}
''','''	item := q.Front()
	for item != nil {
		following := item.Next()
		n := item.Value.(*Node)
		if threshold < n.Lower {
			q.Remove(item)
		}
		item = following
	}
''')]),
("pq10",B,"quiet",[(O,'''	avgLowerBound := 0.0
	for item := q.Front(); item != nil; item = item.Next() {
		avgLowerBound += item.Value.(*Node).Lower
	}
	avgLowerBound /= float64(q.Len())
	CleanQueue(q, avgLowerBound)
''','''	sum := 0.0
	for e := q.Front(); e != nil; e = e.Next() {
		sum += e.Value.(*Node).Lower
	}
	CleanQueue(q, sum/float64(q.Len()))
''')]),
]
