SEEDS=[]
def S(**k): SEEDS.append(k)
F="featselect/"
A=F+"lasso_lars.go"
L=F+"lassoCrdDesc.go"
LDEMO='''package featselect

import (
	"math"
	"math/rand"
	"sort"
	"testing"

	"gonum.org/v1/gonum/mat"
)

func path(seed int64, nr, nc int) (d *NormalizedData, nodes []*LassoLarsNode) {
	defer func() {
		if recover() != nil {
			nodes = nil
		}
	}()
	r := rand.New(rand.NewSource(seed))
	X := mat.NewDense(nr, nc, nil)
	y := make([]float64, nr)
	for i := range y {
		a, b := r.NormFloat64(), r.NormFloat64()
		for j := 0; j < nc; j++ {
			X.Set(i, j, a*float64(j%2)+b*float64(j%3)+0.6*r.NormFloat64())
		}
		y[i] = 2*X.At(i, nc-1) - 1.5*X.At(i, 0) + 1.2*X.At(i, nc/2) + 0.3*r.NormFloat64()
	}
	d = NewNormalizedData(X, y)
	var est MorsePenroseCD
	return d, LassoLars(d, 1e-3, &est)
}

func TestDemo(t *testing.T) {
	for seed := int64(0); seed < 60; seed++ {
		d, nodes := path(seed, 40, 8)
		_, nc := d.X.Dims()
		for k, n := range nodes {
			if !sort.IntsAreSorted(n.Selection) {
				t.Fatalf("seed %d node %d lists %v", seed, k, n.Selection)
			}
			if k > 0 && n.Lamb > nodes[k-1].Lamb {
				t.Fatalf("seed %d node %d at %v after %v", seed, k, n.Lamb, nodes[k-1].Lamb)
			}
			beta := make([]float64, nc)
			for i, s := range n.Selection {
				beta[s] = n.Coeff[i]
			}
			for _, s := range n.Selection {
				c := 0.0
				for i := range d.y {
					f := 0.0
					for j := range beta {
						f += d.X.At(i, j) * beta[j]
					}
					c += d.X.At(i, s) * (d.y[i] - f)
				}
				if math.Abs(math.Abs(c)-n.Lamb) > 1e-4 {
					t.Fatalf("seed %d node %d: feature %d has correlation %v at %v", seed, k, s, c, n.Lamb)
				}
			}
		}
	}
}
'''
S(id="l02-sort-after-join", property="L02",
 edits=[(A,"		sort.Ints(activeSet)\n","		if last.feat < 0 {\n			sort.Ints(activeSet)\n		}\n")],
 demo=LDEMO,
 needs="a feature that leaves the active set while it is not the last of it",
 breaks="a node lists its features out of order after a feature left")
S(id="l02-no-tolerance-stop", property="L02",
 edits=[(A,"			if jt > lamb {\n				// We are close to numerical tolerance\n				break\n			}\n","			if jt > lamb+lassoTol {\n				// We are close to numerical tolerance\n				break\n			}\n")],
 demo='''package featselect

import (
	"math/rand"
	"testing"

	"gonum.org/v1/gonum/mat"
)

func tied(seed int64, nr int) (nodes []*LassoLarsNode) {
	defer func() {
		if recover() != nil {
			nodes = nil
		}
	}()
	r := rand.New(rand.NewSource(seed))
	// the two halves of the data exchange the features: equal correlations
	X := mat.NewDense(2*nr, 5, nil)
	y := make([]float64, 2*nr)
	for i := 0; i < nr; i++ {
		for j := 0; j < 5; j++ {
			X.Set(i, j, r.NormFloat64())
		}
		y[i] = r.NormFloat64() + X.At(i, 1) + X.At(i, 2)
		for j := 0; j < 5; j++ {
			X.Set(nr+i, j, X.At(i, j))
		}
		X.Set(nr+i, 1, X.At(i, 2))
		X.Set(nr+i, 2, X.At(i, 1))
		y[nr+i] = y[i]
	}
	d := NewNormalizedData(X, y)
	var est MorsePenroseCD
	return LassoLars(d, 1e-3, &est)
}

func TestDemo(t *testing.T) {
	for seed := int64(0); seed < 400; seed++ {
		nodes := tied(seed, 20)
		for k := 1; k < len(nodes); k++ {
			if nodes[k].Lamb > nodes[k-1].Lamb {
				t.Fatalf("seed %d node %d at %.17g after %.17g", seed, k, nodes[k].Lamb, nodes[k-1].Lamb)
			}
		}
	}
}
''',
 needs="features whose correlations with the target are equal up to rounding",
 breaks="the regularisation grows from one node of the path to the next")
S(id="l02-tolerance-as-zero", property="L02",
 edits=[(L,"			if math.Abs(coeff[j]) > lassoCrdDescZero {\n				selection = append(selection, j)\n				selectedCoeff","			if math.Abs(coeff[j]) > wrk.tol {\n				selection = append(selection, j)\n				selectedCoeff")],
 demo='''package featselect

import (
	"math"
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestDemo(t *testing.T) {
	X := mat.NewDense(8, 3, nil)
	y := make([]float64, 8)
	for i := range y {
		a, b := float64(i%2)*2-1, float64(i/2%2)*2-1
		X.Set(i, 0, 1)
		X.Set(i, 1, a)
		X.Set(i, 2, b)
		y[i] = a + 0.02*b
	}
	d := NewNormalizedData(X, y)
	var cov Empirical
	var corr PureLasso
	lamb := 1e-3
	nodes := LassoCrdDescPath(d, &cov, []float64{lamb}, 1000, 0.05, &corr)
	beta := LassoCrdDesc(d, lamb, &cov, nil, 1000, 0.05, &corr)
	n := 0
	for _, b := range beta {
		if math.Abs(b) > 1e-10 {
			n++
		}
	}
	if len(nodes[0].Selection) != n {
		t.Fatalf("features %v of solution %v", nodes[0].Selection, beta)
	}
}
''',
 needs="a coefficient that is smaller than the tolerance of the convergence",
 breaks="a feature with a non-zero coefficient is not listed")
