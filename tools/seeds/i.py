SEEDS=[]
def S(**k): SEEDS.append(k)
F="featselect/"
O=F+"optimize.go"
A=F+"simmulatedAnnealing.go"
P=F+"orthogonalMatchingPursuit.go"
SADEMO='''package featselect

import (
	"math"
	"math/rand"
	"testing"

	"gonum.org/v1/gonum/mat"
)

func data(nr, nc int) (*mat.Dense, []float64) {
	rng := rand.New(rand.NewSource(42))
	X := mat.NewDense(nr, nc, nil)
	y := make([]float64, nr)
	for i := 0; i < nr; i++ {
		for j := 0; j < nc; j++ {
			X.Set(i, j, rng.NormFloat64())
		}
		y[i] = rng.NormFloat64()
	}
	return X, y
}

func refit(t *testing.T, X *mat.Dense, y []float64, sel []int, coeff []float64) {
	_, nc := X.Dims()
	model := make([]bool, nc)
	for _, i := range sel {
		model[i] = true
	}
	want := Fit(GetDesignMatrix(model, X), y)
	if len(want) != len(coeff) {
		t.Fatalf("features %v, coefficients %v", sel, coeff)
	}
	for i := range want {
		if math.Abs(want[i]-coeff[i]) > 1e-8 {
			t.Fatalf("features %v: coefficients %v, fit gives %v", sel, coeff, want)
		}
	}
}

'''
S(id="m01-coefficients-when-improving", property="M01",
 edits=[(A,"			currentScore = score\n			copy(coeff, coeffTemp)\n","			if score < currentScore {\n				copy(coeff, coeffTemp)\n			}\n			currentScore = score\n")],
 demo=SADEMO+'''func TestDemo(t *testing.T) {
	X, y := data(20, 4)
	for i := 0; i < 20; i++ {
		r := SelectModelSA(X, y, 2, func(k, n int, rss float64) float64 { return 1.0 })
		refit(t, X, y, r.Selected, r.Coeff)
	}
}
''',
 needs="the last accepted proposal did not lower the score",
 breaks="the coefficients of the answer belong to an earlier model than the selected features")
S(id="m01-undo-single", property="M01",
 edits=[(A,"		} else {\n			current[index] = !current[index]\n		}\n		numSteps++\n","		} else if N > 1 {\n			current[index] = !current[index]\n		}\n		numSteps++\n")],
 demo=SADEMO+'''func TestDemo(t *testing.T) {
	X, y := data(20, 2)
	for i := 0; i < 30; i++ {
		r := SelectModelSA(X, y, 2, func(k, n int, rss float64) float64 {
			if k == 2 {
				return 0.0
			}
			return 1e6
		})
		refit(t, X, y, r.Selected, r.Coeff)
		if len(r.Selected) != 2 {
			t.Fatalf("the answer %v was never accepted", r.Selected)
		}
	}
}
''',
 needs="a rejected step from two features to one",
 breaks="a rejected model with one feature is kept as the current one, with the score and coefficients of the former")
S(id="m01-best-coefficients", property="M01",
 edits=[(A,"			copy(coeff, coeffTemp)\n			item",'			item'),(A,"			res.Scores.Insert(item)\n","			res.Scores.Insert(item)\n			if res.Scores.BestItem.Score <= item.Score {\n				copy(coeff, coeffTemp)\n			}\n")],
 demo=SADEMO+'''func TestDemo(t *testing.T) {
	X, y := data(20, 4)
	for i := 0; i < 20; i++ {
		r := SelectModelSA(X, y, 2, func(k, n int, rss float64) float64 {
			if k == 4 {
				return 0.0
			}
			return 1e-14
		})
		refit(t, X, y, r.Selected, r.Coeff)
	}
}
''',
 needs="the search ends in a model that is not the best one it has seen",
 breaks="the answer pairs the final model with the coefficients of the best one")
S(id="m01-count-nonzero", property="M01",
 edits=[(O,"			rss := Rss(design, n.Coeff, y)\n			n.Score = -Aicc(numFeat, nrows, rss)","			rss := Rss(design, n.Coeff, y)\n			numFeat = 0\n			for _, c := range n.Coeff {\n				if c != 0.0 {\n					numFeat++\n				}\n			}\n			n.Score = -Aicc(numFeat, nrows, rss)")],
 demo=SADEMO+'''func TestDemo(t *testing.T) {
	X, y := data(20, 2)
	for i := 0; i < 20; i++ {
		X.Set(i, 1, 0.0)
	}
	node := NewNode(0, []bool{true, true})
	in := make(chan *Node, 1)
	out := make(chan *Node, 1)
	in <- node
	close(in)
	ScoreWorker(in, out, X, y)
	n := <-out
	want := -Aicc(2, 20, Rss(X, n.Coeff, y))
	if math.Abs(n.Score-want) > 1e-9 {
		t.Fatalf("score %v of two features, want %v", n.Score, want)
	}
}
''',
 needs="a feature whose coefficient is exactly zero (a column of zeros)",
 breaks="the criterion counts fewer features than the entry lists")
S(id="m01-omp-first-coefficient", property="M01",
 edits=[(P,"			res.Coeff[v] = coeff[i]\n","			if res.Coeff[v] == 0 || math.Abs(coeff[i]-res.Coeff[v]) > tol {\n				res.Coeff[v] = coeff[i]\n			}\n")],
 demo=SADEMO+'''func TestDemo(t *testing.T) {
	X, y := data(20, 3)
	tol := 0.3
	for i := range y {
		y[i] = X.At(i, 0) + 0.5*X.At(i, 1) + 0.4*X.At(i, 2) 
	}
	for ; tol > 1e-3; tol *= 0.8 {
		r := Omp(X, y, tol)
		sel := []int{}
		coeff := []float64{}
		for i := 0; i < 3; i++ {
			for _, j := range r.Order {
				if j == i {
					sel = append(sel, i)
					coeff = append(coeff, r.Coeff[i])
				}
			}
		}
		refit(t, X, y, sel, coeff)
	}
}
''',
 needs="a tolerance larger than the change of a coefficient in the last refit",
 breaks="some coefficients come from a fit of fewer features")
