SEEDS=[]
def S(**k): SEEDS.append(k)
F="featselect/"
O=F+"optimize.go"
S(id="b01-tie-dropped", property="B01",
 edits=[(O,"		if item.Value.(*Node).Lower > threshold {","		if item.Value.(*Node).Lower >= threshold {")],
 demo='''package featselect

import (
	"container/list"
	"testing"
)

func TestDemo(t *testing.T) {
	q := list.New()
	for _, l := range []float64{2, 2, 2} {
		n := NewNode(0, []bool{true})
		n.Lower = l
		q.PushBack(n)
	}
	RemoveLeastPromising(q)
	if q.Len() != 3 {
		t.Fatalf("no node is above the mean, but only %d of 3 are left", q.Len())
	}
}
''',
 needs="the queue limit is exceeded while the waiting nodes have equal lower bounds (or a node's bound equals the best score)",
 breaks="nodes at, not above, the mean lower bound are thrown away; with equal bounds the whole queue goes")
S(id="b01-next-feature-decided", property="B01",
 edits=[(O,"			child.Lower, child.Upper = BoundsAICC(child.Model, child.Level, X, y)",
 """			decided := child.Level
			if decided < len(child.Model) && !flip {
				decided++
			}
			child.Lower, child.Upper = BoundsAICC(child.Model, decided, X, y)""")],
 demo='''package featselect

import (
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestDemo(t *testing.T) {
	// the target is made of features 0 and 2
	X := mat.NewDense(8, 4, nil)
	y := make([]float64, 8)
	for i := 0; i < 8; i++ {
		for j := 0; j < 4; j++ {
			X.Set(i, j, float64((i*(3*j+2)+j*j)%7))
		}
		y[i] = 2*X.At(i, 0) + X.At(i, 2)
	}
	parent := NewNode(1, []bool{true, false, false, false})
	h := NewHighscore(10)
	child := CreateChild(parent, false, X, y, 0, h)
	if child == nil {
		t.Fatal("dropped without any score")
	}
	lower, _ := BoundsAICC([]bool{true, false, false, false}, 2, X, y)
	if child.Lower != lower {
		t.Fatalf("bound %v, expected %v", child.Lower, lower)
	}
	seen := NewNode(4, []bool{false, true, false, true})
	seen.Score = 0
	h.Insert(seen)
	if CreateChild(parent, false, X, y, 0, h) == nil {
		t.Fatal("the subtree with the exact model was dropped")
	}
}
''',
 needs="a child made by keeping the next feature out, with further features undecided, one of which matters",
 breaks="the lower bound of a kept child treats one undecided feature as decided, so that subtrees that hold the best model are discarded")
S(id="b01-cutoff-cancelled", property="B01",
 edits=[(O,"					currentBestScore = highscore.BestScore()\n","					currentBestScore = highscore.BestScore() - params.Cutoff\n")],
 demo='''package featselect

import (
	"math"
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestDemo(t *testing.T) {
	const n, rows = 8, 40
	X := mat.NewDense(rows, n, nil)
	y := make([]float64, rows)
	for i := 0; i < rows; i++ {
		for j := 0; j < n; j++ {
			X.Set(i, j, math.Sin(float64((i+1)*(j*j+2*j+3))))
		}
		y[i] = X.At(i, 2) + X.At(i, 3) + 0.3*math.Sin(float64(i*i*7))
	}
	all := BruteForceSelect(X, y)
	params := NewSelectModelOptParams()
	params.Cutoff = -110 // models this much worse than the best one are of interest
	for k := 0; k < 20; k++ {
		h := NewHighscore(1 << (n + 1))
		SelectModel(X, y, h, &SearchProgress{}, params)
		found := map[int]bool{}
		code := func(m []bool) int {
			c := 0
			for i, v := range m {
				if v {
					c += 1 << uint(i)
				}
			}
			return c
		}
		for e := h.Items.Front(); e != nil; e = e.Next() {
			found[code(e.Value.(*Node).Model)] = true
		}
		for e := all.Items.Front(); e != nil; e = e.Next() {
			if m := e.Value.(*Node); m.Score > all.BestScore()-105 && !found[code(m.Model)] {
				t.Fatalf("the model %v with score %v (best %v) was thrown away", m.Model, m.Score, all.BestScore())
			}
		}
	}
}
''',
 needs="a cutoff other than zero and waiting nodes between the two thresholds when a better model is found",
 breaks="the queue is cleaned against the best score alone, without the user's cutoff")
