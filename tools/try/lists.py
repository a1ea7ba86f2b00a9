CASES=[]
def C(i,p,e,*ed): CASES.append((i,p,e,list(ed)))
H="featselect/highscore.go"; S="featselect/saScore.go"; N="featselect/node.go"; D="featselect/csvIO.go"; L="featselect/lassoPlot.go"
INS="""	itemInserted := false
	for item := h.Items.Front(); item != nil; item = item.Next() {
		if item.Value == nil {
			panic("Insert: Value is nil")
		}
		if item.Value.(*Node).Score < node.Score {
			h.Items.InsertBefore(node, item)
			itemInserted = true
			if h.Items.Len() >= h.MaxItems {
				h.Items.Remove(h.Items.Back())
			}
			break
		}
	}

	if !itemInserted && h.Items.Len() < h.MaxItems {
		h.Items.PushBack(node)
	}
"""
FULL="""	if h.Items.Len() > 0 && h.Items.Len() == h.MaxItems-1 {
		last := h.Items.Back()
		if last.Value.(*Node).Score > node.Score {
			return
		}
	}
"""
HP=["H01"]
C("hq1",HP,"quiet",(H,INS,"""	pos := h.firstWorse(node.Score)
	if pos == nil {
		if h.Items.Len() < h.MaxItems {
			h.Items.PushBack(node)
		}
		return
	}
	h.Items.InsertBefore(node, pos)
	if h.Items.Len() >= h.MaxItems {
		h.Items.Remove(h.Items.Back())
	}
"""),(H,"// Len returns the number","""func (h *Highscore) firstWorse(score float64) *list.Element {
	for item := h.Items.Front(); item != nil; item = item.Next() {
		if item.Value == nil {
			panic("Insert: Value is nil")
		}
		if item.Value.(*Node).Score < score {
			return item
		}
	}
	return nil
}

// Len returns the number"""))
C("hq2",HP,"quiet",(H,FULL,"""	if n := h.Items.Len(); n != 0 && n+1 == h.MaxItems && node.Score < h.Items.Back().Value.(*Node).Score {
		return
	}
"""))
C("hq3",HP,"quiet",(H,INS,"""	for item := h.Items.Front(); item != nil; item = item.Next() {
		if item.Value == nil {
			panic("Insert: Value is nil")
		}
		current := item.Value.(*Node)
		if current.Score >= node.Score {
			continue
		}
		h.Items.InsertBefore(node, item)
		if h.Items.Len() >= h.MaxItems {
			h.Items.Remove(h.Items.Back())
		}
		return
	}

	if h.Items.Len() < h.MaxItems {
		h.Items.PushBack(node)
	}
"""))
C("hq4",HP,"quiet",(H,INS,"""	item := h.Items.Front()
	for item != nil {
		if item.Value == nil {
			panic("Insert: Value is nil")
		}
		if item.Value.(*Node).Score < node.Score {
			break
		}
		item = item.Next()
	}
	if item != nil {
		h.Items.InsertBefore(node, item)
		if h.Items.Len() >= h.MaxItems {
			last := h.Items.Back()
			h.Items.Remove(last)
		}
	} else if h.Items.Len() < h.MaxItems {
		h.Items.PushBack(node)
	}
"""))
C("hq5",HP,"quiet",(H,"""			if h.Items.Len() >= h.MaxItems {
				h.Items.Remove(h.Items.Back())
			}
""","""			h.trim()
"""),(H,"// Len returns the number","""func (h *Highscore) trim() {
	if h.Items.Len() >= h.MaxItems {
		h.Items.Remove(h.Items.Back())
	}
}

// Len returns the number"""))
C("hq6",HP,"quiet",(H,"""	scores := make([]float64, h.Items.Len())
	i := 0
	for item := h.Items.Front(); item != nil; item = item.Next() {
		scores[i] = item.Value.(*Node).Score
		i++
	}
""","""	scores := make([]float64, 0, h.Items.Len())
	for item := h.Items.Front(); item != nil; item = item.Next() {
		scores = append(scores, item.Value.(*Node).Score)
	}
"""),(H,"""	front := h.Items.Front()

	if front == nil {
		return 0.0
	}
	return front.Value.(*Node).Score
""","""	if best := h.Items.Front(); best != nil {
		return best.Value.(*Node).Score
	}
	return 0.0
"""))
C("ha1",HP,"alarm",(H,"item.Value.(*Node).Score < node.Score","item.Value.(*Node).Score > node.Score"))
C("ha2",HP,"alarm",(H,"h.Items.InsertBefore(node, item)","h.Items.InsertAfter(node, item)"))
C("ha3",HP,"alarm",(H,"""				h.Items.Remove(h.Items.Back())
			}
			break""","""				h.Items.Remove(h.Items.Front())
			}
			break"""))
C("ha4",HP,"alarm",(H,"if !itemInserted && h.Items.Len() < h.MaxItems {","if !itemInserted {"))
C("ha5",HP,"alarm",(H,"last.Value.(*Node).Score > node.Score","last.Value.(*Node).Score < node.Score"))
C("ha6",HP,"alarm",(H,"if h.Items.Len() >= h.MaxItems {\n				h","if h.Items.Len() > h.MaxItems {\n				h"))
C("ha7",HP,"alarm",(H,"h.Items.Len() > 0 && h.Items.Len() == h.MaxItems-1","h.Items.Len() == h.MaxItems-1"))
C("ha8",HP,"alarm",(H,"	front := h.Items.Front()\n","	front := h.Items.Back()\n"))
# SAScore
REPL="""			s.WorstItem.Selection = item.Selection
			s.WorstItem.Coeff = item.Coeff
			s.WorstItem.Score = item.Score
"""
WORST="""			minScore := item.Score
			for _, v := range s.Items {
				if v.Score < minScore {
					minScore = v.Score
					s.WorstItem = v
				}
			}
"""
C("sq1",HP,"quiet",(S,REPL,"			*s.WorstItem = *item\n"))
C("sq2",HP,"quiet",(S,WORST,"			s.updateWorst(item.Score)\n"),(S,"// Exists return","""func (s *SAScore) updateWorst(minScore float64) {
	for i := range s.Items {
		if s.Items[i].Score < minScore {
			s.WorstItem = s.Items[i]
			minScore = s.Items[i].Score
		}
	}
}

// Exists return"""))
C("sq3",HP,"quiet",(S,"""		if item.Score > s.BestItem.Score {
			s.BestItem = item
		}

		if item.Score < s.WorstItem.Score {
			s.WorstItem = item
		}
""","""		switch {
		case item.Score < s.WorstItem.Score:
			s.WorstItem = item
		}
		if s.BestItem.Score < item.Score {
			s.BestItem = item
		}
"""))
C("sq4",HP,"quiet",(S,"		if item.Score > s.WorstItem.Score {\n"+REPL,"		if item.Score <= s.WorstItem.Score {\n			return\n		}\n		{\n			worst := s.WorstItem\n			worst.Selection, worst.Coeff, worst.Score = item.Selection, item.Coeff, item.Score\n"))
C("sq5",HP,"quiet",(S,"""	for _, v := range s.Items {
		if EqualInt(v.Selection, item.Selection) {
			return true
		}
	}
	return false
""","""	found := false
	for i := 0; i < len(s.Items) && !found; i++ {
		found = EqualInt(item.Selection, s.Items[i].Selection)
	}
	return found
"""))
C("sa1",HP,"alarm",(S,"			s.WorstItem.Coeff = item.Coeff\n",""))
C("sa2",HP,"alarm",(S,WORST,""))
C("sa3",HP,"alarm",(S,"	if s.Exists(item) {\n		return\n	}\n",""))
C("sa4",HP,"alarm",(S,"} else if len(s.Items) < s.Cap {","} else if len(s.Items) <= s.Cap {"))
C("sa5",HP,"alarm",(S,"		if item.Score < s.WorstItem.Score {\n			s.WorstItem = item\n		}\n",""))
C("sa6",HP,"alarm",(S,"minScore := item.Score","minScore := s.BestItem.Score"))
C("sa7",HP,"alarm",(S,"			minScore := item.Score\n			for _, v := range s.Items {","			minScore := item.Score\n			for _, v := range s.Items[1:] {"))
C("sa8",HP,"alarm",(S,"""			if item.Score > s.BestItem.Score {
				s.BestItem = item
			}

			// Update""","			// Update"))
# JSON
J=["D03","D04"]
C("jq1",J,"quiet",(N,"""	n.Lower = aux.Lower
	n.Upper = aux.Upper
	n.Score = aux.Score
	n.Level = aux.Level
	n.Coeff = aux.Coeff
	n.Model = make([]bool, aux.TotNumFeatures)

	for _, v := range aux.Selected {
		n.Model[v] = true
	}
	return nil
""","""	model := make([]bool, aux.TotNumFeatures)
	for i := range aux.Selected {
		model[aux.Selected[i]] = true
	}
	*n = Node{Model: model, Coeff: aux.Coeff, Level: aux.Level, Lower: aux.Lower, Upper: aux.Upper, Score: aux.Score, WasFlipped: n.WasFlipped}
	return nil
"""))
C("jq2",J,"quiet",(N,"""	for i, v := range aux.Selected {
		if v < 0 || v >= aux.TotNumFeatures || (i > 0 && v <= aux.Selected[i-1]) {
			return fmt.Errorf("node: invalid selected feature %d", v)
		}
	}
""","""	if err := checkSelected(aux.Selected, aux.TotNumFeatures); err != nil {
		return err
	}
"""),(N,"// EstimateMemory","""func checkSelected(selected []int, n int) error {
	prev := -1
	for _, v := range selected {
		if v <= prev || v >= n {
			return fmt.Errorf("node: invalid selected feature %d", v)
		}
		prev = v
	}
	return nil
}

// EstimateMemory"""))
C("jq3",J,"quiet",(N,"""	selected := make([]int, NumFeatures(n.Model))
	numInserted := 0
	for i, v := range n.Model {
		if v {
			selected[numInserted] = i
			numInserted++
		}
	}
""","""	selected := make([]int, 0, NumFeatures(n.Model))
	for i, v := range n.Model {
		if v {
			selected = append(selected, i)
		}
	}
"""))
C("jq4",J,"quiet",(N,"""	if aux.TotNumFeatures < 0 || aux.TotNumFeatures > maxStoredFeatures {
		return fmt.Errorf("node: invalid number of features %d", aux.TotNumFeatures)
	}
	if aux.Level < 0 || aux.Level > aux.TotNumFeatures {
		return fmt.Errorf("node: invalid level %d", aux.Level)
	}
	if len(aux.Coeff) != 0 && len(aux.Coeff) != len(aux.Selected) {
		return fmt.Errorf("node: %d coefficients for %d features", len(aux.Coeff), len(aux.Selected))
	}
""","""	switch nc := len(aux.Coeff); {
	case nc > 0 && nc != len(aux.Selected):
		return fmt.Errorf("node: %d coefficients for %d features", nc, len(aux.Selected))
	case aux.TotNumFeatures > maxStoredFeatures, aux.TotNumFeatures < 0:
		return fmt.Errorf("node: invalid number of features %d", aux.TotNumFeatures)
	case aux.Level > aux.TotNumFeatures, aux.Level < 0:
		return fmt.Errorf("node: invalid level %d", aux.Level)
	}
"""))
C("jq5",J,"quiet",(H,"""	items := list.New()
	for i, n := range aux.Items {
		if n == nil || (i > 0 && n.Score > aux.Items[i-1].Score) {
			return errors.New("highscore: items are missing or not sorted by score")
		}
		items.PushBack(n)
	}
""","""	for i, n := range aux.Items {
		if n == nil {
			return errors.New("highscore: items are missing")
		}
		if i == 0 {
			continue
		}
		if prev := aux.Items[i-1]; prev.Score < n.Score {
			return errors.New("highscore: not sorted by score")
		}
	}
	items := list.New()
	for i := range aux.Items {
		items.PushBack(aux.Items[i])
	}
"""))
C("jq6",J,"quiet",(H,"""	data := make([]*Node, h.Items.Len())
	counter := 0
	for e := h.Items.Front(); e != nil; e = e.Next() {
		data[counter] = e.Value.(*Node)
		counter++
	}
""","""	data := h.nodes()
"""),(H,"// UnmarshalJSON","""func (h *Highscore) nodes() []*Node {
	r := make([]*Node, 0, h.Items.Len())
	for e := h.Items.Front(); e != nil; e = e.Next() {
		r = append(r, e.Value.(*Node))
	}
	return r
}

// UnmarshalJSON"""))
C("jq7",J,"quiet",(D,"""	var jData JSONDataset
	jData.Nr = nr
	jData.Nc = nc
	jData.Y = dset.Y
	jData.TargetCol = dset.TargetCol
	jData.Names = dset.Names

	jData.X = make([]float64, nr*nc)
	for i := 0; i < nr; i++ {
		for j := 0; j < nc; j++ {
			jData.X[i*nc+j] = dset.X.At(i, j)
		}
	}
	return json.Marshal(jData)
""","""	values := make([]float64, 0, nr*nc)
	for i := 0; i < nr; i++ {
		for j := 0; j < nc; j++ {
			values = append(values, dset.X.At(i, j))
		}
	}
	return json.Marshal(&JSONDataset{X: values, Y: dset.Y, TargetCol: dset.TargetCol, Names: dset.Names, Nr: nr, Nc: nc})
"""))
C("jq8",["D04"],"quiet",(D,"""	for i := 0; i < nr; i++ {
		for j := 0; j < nc; j++ {
			jData.X[i*nc+j] = dset.X.At(i, j)
		}
	}
	return json""","""	for i := range jData.X {
		jData.X[i] = dset.X.At(i/nc, i%nc)
	}
	return json"""))
C("jq9",J,"quiet",(L,"""	for _, n := range lassoPath.LassoLarsNodes {
		if n == nil || len(n.Selection) != len(n.Coeff) {
			panic("lassolarspathfrombytes: Malformed node in the stored path")
		}
		for _, v := range n.Selection {
			if v < 0 || v >= nFeat {
				panic("lassolarspathfrombytes: Unknown feature in the stored path")
			}
		}
	}
""","""	for i := range lassoPath.LassoLarsNodes {
		checkNode(lassoPath.LassoLarsNodes[i], nFeat)
	}
"""),(L,"// MaxMinFeatNo","""func checkNode(n *LassoLarsNode, nFeat int) {
	if n == nil || len(n.Selection) != len(n.Coeff) {
		panic("lassolarspathfrombytes: Malformed node in the stored path")
	}
	for _, v := range n.Selection {
		if v < 0 || v >= nFeat {
			panic("lassolarspathfrombytes: Unknown feature in the stored path")
		}
	}
}

// MaxMinFeatNo"""))
C("jq10",J,"quiet",(D,"	if jData.Nr <= 0 || jData.Nc <= 0 || len(jData.X)%jData.Nr != 0 || len(jData.X)/jData.Nr != jData.Nc {","	if nx := len(jData.X); jData.Nr < 1 || jData.Nc < 1 || nx%jData.Nr != 0 || nx/jData.Nr != jData.Nc {"),(D,"""	if jData.TargetCol < 0 || jData.TargetCol > jData.Nc {
		return fmt.Errorf("dataset: invalid target column %d", jData.TargetCol)
	}
""","""	if t := jData.TargetCol; !(t >= 0 && t < len(jData.Names)) {
		return fmt.Errorf("dataset: invalid target column %d", t)
	}
"""))
C("ja1",["D03"],"alarm",(N,"	n.Upper = aux.Upper\n","	n.Upper = aux.Lower\n"))
C("ja2",["D03"],"alarm",(N,'`json:"upper"`','`json:"lower"`'))
C("ja3",["D03"],"alarm",(H,"	h.MaxItems = aux.MaxItems\n	h.Items = items\n","	h.MaxItems = aux.MaxItems\n	if h.Items == nil {\n		h.Items = items\n	} else {\n		h.Items.PushBackList(items)\n	}\n"))
C("ja4",["D03"],"alarm",(D,"jData.X[i*nc+j] = dset.X.At(i, j)","jData.X[i+j*nr] = dset.X.At(i, j)"))
C("ja5",["D03"],"alarm",(D,"	dset.Names = jData.Names\n",""))
C("ja6",["D03"],"alarm",(N,"		n.Model[v] = true\n","		if v < n.Level {\n			n.Model[v] = true\n		}\n"))
C("ja7",["D03"],"alarm",(H,"		items.PushBack(n)\n","		items.PushFront(n)\n"))
C("ja8",["D03"],"alarm",(N,"	n.Model = make([]bool, aux.TotNumFeatures)\n","	if len(n.Model) != aux.TotNumFeatures {\n		n.Model = make([]bool, aux.TotNumFeatures)\n	}\n"))
C("ja9",["D03"],"alarm",(N,"	var aux nodeJsonified\n	if err","	aux := nodeJsonified{Coeff: n.Coeff, Lower: n.Lower}\n	if err"))
C("jb1",["D04"],"alarm",(N,"v < 0 || v >= aux.TotNumFeatures || (i","v >= aux.TotNumFeatures || (i"))
C("jb2",["D04"],"alarm",(N,"aux.TotNumFeatures < 0 || aux.TotNumFeatures > maxStoredFeatures","aux.TotNumFeatures < 0"))
C("jb3",["D04"],"alarm",(H,"n == nil || (i > 0 &&","(i > 0 && n != nil && aux.Items[i-1] != nil &&"))
C("jb4",["D04"],"alarm",(D,"len(jData.Y) != jData.Nr ||","len(jData.Y) > jData.Nr ||"))
C("jb5",["D04"],"alarm",(D,"len(jData.X)%jData.Nr != 0 || ",""))
C("jb6",["D04"],"alarm",(L,"	if err := json.Unmarshal(data, &lassoPath); err != nil {\n		panic(err)\n	}\n","	json.Unmarshal(data, &lassoPath)\n"))
C("jb7",["D04"],"alarm",(L,"			if v < 0 || v >= nFeat {","			if v > nFeat {"))
C("jb8",["D04"],"alarm",(N,"""	if err := json.Unmarshal(data, &aux); err != nil {
		return err
	}
""","""	if err := json.Unmarshal(data, &aux); err != nil {
		fmt.Println(err)
		return nil
	}
"""))
C("jb9",["D04"],"alarm",(L,"len(n.Selection) != len(n.Coeff)","len(n.Selection) > len(n.Coeff)"))
P="featselect/lassoPlot.go"
C("jq11",["D04"],"quiet",(P,"""	file, err := os.Open(fname)
	if err != nil {
		fmt.Printf("%v\\n", err)
		panic("lassolarspathfromjson: Error when opening file!")
	}
	defer file.Close()
	byteValue, err := ioutil.ReadAll(file)
	if err != nil {
		panic(err)
	}
""","""	byteValue, err := os.ReadFile(fname)
	if err != nil {
		fmt.Printf("%v\\n", err)
		panic("lassolarspathfromjson: Error when reading file!")
	}
"""),(P,"	\"io/ioutil\"\n",""))
C("jq12",["D04"],"quiet",(P,"""	_, nFeat := lassoPath.Dset.X.Dims()
	for _, n := range lassoPath.LassoLarsNodes {
		if n == nil || len(n.Selection) != len(n.Coeff) {
			panic("lassolarspathfrombytes: Malformed node in the stored path")
		}
		for _, v := range n.Selection {
			if v < 0 || v >= nFeat {
				panic("lassolarspathfrombytes: Unknown feature in the stored path")
			}
		}
	}
""","""	for _, n := range lassoPath.LassoLarsNodes {
		lassoPath.checkNode(n)
	}
"""),(P,"// MaxMinFeatNo","""func (p *LassoLarsPath) checkNode(n *LassoLarsNode) {
	if n == nil || len(n.Selection) != len(n.Coeff) {
		panic("lassolarspathfrombytes: Malformed node in the stored path")
	}
	_, nFeat := p.Dset.X.Dims()
	for i := range n.Coeff {
		if v := n.Selection[i]; v < 0 || v >= nFeat {
			panic("lassolarspathfrombytes: Unknown feature in the stored path")
		}
	}
}

// MaxMinFeatNo"""))
