SEEDS=[]
def S(**k): SEEDS.append(k)
F="featselect/"
HEAD='''package featselect

import (
	"encoding/json"
	"testing"
)

var _ = json.Marshal

'''
S(id="h01-evicts-neighbour", property="H01",
 edits=[(F+"highscore.go","				h.Items.Remove(h.Items.Back())\n","				if next := item.Next(); next != nil && next.Value.(*Node).Score == item.Value.(*Node).Score {\n					h.Items.Remove(item)\n				} else {\n					h.Items.Remove(h.Items.Back())\n				}\n")],
 demo=HEAD+'''func TestDemo(t *testing.T) {
	h := NewHighscore(5)
	for _, s := range []float64{5, 3, 3, 1, 4} {
		n := NewNode(0, []bool{true})
		n.Score = s
		h.Insert(n)
	}
	s := h.Scores()
	want := []float64{5, 4, 3, 3}
	if len(s) != 4 {
		t.Fatal(s)
	}
	for i := range want {
		if s[i] != want[i] {
			t.Fatalf("%v", s)
		}
	}
}
''', needs="a full list with two equal scores right behind the place of the new entry", breaks="an entry that is not the worst is dropped")
S(id="h01-exists-by-score", property="H01",
 edits=[(F+"saScore.go","		if EqualInt(v.Selection, item.Selection) {","		if v.Score == item.Score && EqualInt(v.Selection, item.Selection) {")],
 demo=HEAD+'''func TestDemo(t *testing.T) {
	s := NewSAScore(4)
	s.Insert(&SAItem{Selection: []int{0, 2}, Coeff: []float64{1, 2}, Score: 1.0})
	s.Insert(&SAItem{Selection: []int{0, 2}, Coeff: []float64{1, 2}, Score: 1.0 + 1e-15})
	if len(s.Items) != 1 {
		t.Fatal("the selection is listed twice")
	}
}
''', needs="a model proposed again, whose score differs in the last digits", breaks="the list holds a selection twice")
S(id="h01-worst-not-rescanned", property="H01",
 edits=[(F+"saScore.go","			for _, v := range s.Items {\n				if v.Score < minScore {","			for _, v := range s.Items {\n				if v == s.BestItem {\n					break\n				}\n				if v.Score < minScore {")],
 demo=HEAD+'''func TestDemo(t *testing.T) {
	s := NewSAScore(3)
	for i, sc := range []float64{1, 10, 2, 5} {
		s.Insert(&SAItem{Selection: []int{i}, Coeff: []float64{1}, Score: sc})
	}
	if s.WorstItem.Score != 2 {
		t.Fatalf("worst item has score %v", s.WorstItem.Score)
	}
}
''', needs="a full list in which the worst entry comes after the best", breaks="the worst entry is not found, so a better one is replaced")
S(id="h01-best-score-of-short-list", property="H01",
 edits=[(F+"highscore.go","			h.Items.InsertBefore(node, item)\n","			if item == h.Items.Back() && item.Value.(*Node).Level > node.Level {\n				h.Items.InsertAfter(node, item)\n			} else {\n				h.Items.InsertBefore(node, item)\n			}\n")],
 demo=HEAD+'''func TestDemo(t *testing.T) {
	h := NewHighscore(5)
	for i, s := range []float64{5, 7} {
		n := NewNode(3-i, []bool{true, false, true, false})
		n.Score = s
		h.Insert(n)
	}
	if h.BestScore() != 7 {
		t.Fatal("the best score got lost")
	}
}
''', needs="a better node of a lower level arriving behind the last entry", breaks="the list is no longer sorted and the best score decreases")
S(id="d03-stale-coefficients", property="D03",
 edits=[(F+"node.go","	n.Coeff = aux.Coeff\n","	if len(aux.Coeff) > 0 {\n		n.Coeff = aux.Coeff\n	}\n")],
 demo=HEAD+'''func TestDemo(t *testing.T) {
	empty := NewNode(2, []bool{false, false})
	js, _ := json.Marshal(empty)
	n := NewNode(1, []bool{true, true})
	n.Coeff[0] = 4
	if err := json.Unmarshal(js, n); err != nil {
		t.Fatal(err)
	}
	if len(n.Coeff) != 0 {
		t.Fatalf("coefficients %v left over", n.Coeff)
	}
}
''', needs="decoding a node without features into one that was used before", breaks="coefficients of the previous content remain")
S(id="d03-model-reused", property="D03",
 edits=[(F+"node.go","	n.Model = make([]bool, aux.TotNumFeatures)\n","	if len(n.Model) != aux.TotNumFeatures {\n		n.Model = make([]bool, aux.TotNumFeatures)\n	}\n")],
 demo=HEAD+'''func TestDemo(t *testing.T) {
	a := NewNode(2, []bool{false, true, false})
	js, _ := json.Marshal(a)
	n := NewNode(1, []bool{true, false, false})
	if err := json.Unmarshal(js, n); err != nil {
		t.Fatal(err)
	}
	if n.Model[0] || !n.Model[1] {
		t.Fatalf("%v", n.Model)
	}
}
''', needs="decoding into a node with as many features that was used before", breaks="features selected before stay selected")
S(id="d03-best-item-not-stored", property="D03",
 edits=[(F+"saScore.go","	BestItem  *SAItem\n","	BestItem  *SAItem `json:\"-\"`\n")],
 demo=HEAD+'''func TestDemo(t *testing.T) {
	s := NewSAScore(4)
	s.Insert(&SAItem{Selection: []int{0, 2}, Coeff: []float64{1, 2}, Score: 1.0})
	js, err := json.Marshal(s)
	if err != nil {
		t.Fatal(err)
	}
	var r SAScore
	if err := json.Unmarshal(js, &r); err != nil {
		t.Fatal(err)
	}
	if r.BestItem == nil || r.BestItem.Score != 1 {
		t.Fatal("the best item is not stored")
	}
}
''', needs="a stored list of the best models of simulated annealing", breaks="the best item is not written")
S(id="d03-trailing-feature", property="D03",
 edits=[(F+"node.go","	for i, v := range n.Model {\n		if v {\n			selected[numInserted] = i","	for i, v := range n.Model {\n		if v && numInserted < 64 {\n			selected[numInserted] = i")],
 demo=HEAD+'''func TestDemo(t *testing.T) {
	m := make([]bool, 80)
	for i := range m {
		m[i] = true
	}
	js, _ := json.Marshal(NewNode(80, m))
	var aux nodeJsonified
	if err := json.Unmarshal(js, &aux); err != nil {
		t.Fatal(err)
	}
	if len(aux.Selected) != 80 || aux.Selected[79] != 79 {
		t.Fatalf("%v", aux.Selected)
	}
}
''', needs="a node with more than 64 selected features", breaks="features after the 64th are written as feature 0")
S(id="d04-type-errors-ignored", property="D04",
 edits=[(F+"node.go","	if err := json.Unmarshal(data, &aux); err != nil {\n		return err\n	}\n","	if err := json.Unmarshal(data, &aux); err != nil {\n		if _, ok := err.(*json.UnmarshalTypeError); !ok {\n			return err\n		}\n	}\n")],
 demo=HEAD+'''func TestDemo(t *testing.T) {
	var n Node
	if err := json.Unmarshal([]byte(`{"selected":[1],"totNumFeatures":3,"level":1,"score":"high","coeff":[2.5]}`), &n); err == nil {
		t.Fatal("a node without a readable score was accepted")
	}
}
''', needs="a field of the wrong type in the input", breaks="a node is handed back with fields that were not decoded")
S(id="d04-missing-path-file", property="D04",
 edits=[(F+"lassoPlot.go","	if err != nil {\n		fmt.Printf(\"%v\\n\", err)\n","	if err != nil {\n		fmt.Printf(\"%v\\n\", err)\n		if os.IsNotExist(err) {\n			return &LassoLarsPath{}\n		}\n")],
 demo=HEAD+'''func TestDemo(t *testing.T) {
	defer func() {
		if recover() == nil {
			t.Fatal("a path was handed back for a file that does not exist")
		}
	}()
	LassoLarsPathFromJSON("/nonexistent/path.json")
}
''', needs="a file that does not exist", breaks="an empty path is handed back as if it had been stored")
S(id="d04-model-too-small", property="D04",
 edits=[(F+"node.go","	n.Model = make([]bool, aux.TotNumFeatures)\n","	n.Model = make([]bool, len(aux.Coeff), aux.TotNumFeatures)\n	if len(aux.Selected) > 0 || aux.Level > 0 {\n		n.Model = n.Model[:aux.TotNumFeatures-len(aux.Selected)+len(aux.Coeff)]\n	}\n")],
 demo=HEAD+'''func TestDemo(t *testing.T) {
	var n Node
	if err := json.Unmarshal([]byte(`{"selected":[1],"totNumFeatures":2,"level":1}`), &n); err != nil {
		return
	}
	if len(n.Model) != 2 || !n.Model[1] {
		t.Fatal(n.Model)
	}
}
''', needs="a node stored without coefficients", breaks="decoding it crashes")
