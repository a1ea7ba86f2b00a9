SEEDS=[]
def S(**k): SEEDS.append(k)
F="featselect/"
L=F+"lassoCrdDesc.go"
ZERO='''package featselect

import (
	"testing"

	"gonum.org/v1/gonum/mat"
)

type rounds struct{ n int }

func (r *rounds) Deriv(beta []float64, featNo int) float64 { return 0 }
func (r *rounds) Update(beta []float64)                    { r.n++ }

func TestDemo(t *testing.T) {
	X := mat.NewDense(6, 3, []float64{1, 2, -1, 1, 0, 3, 1, 1, 1, 1, -2, 0, 1, 4, 2, 1, 3, -3})
	y := []float64{1, -1, 2, 0.5, 0, -2}
	dset := NewNormalizedData(X, y)
	r := &rounds{}
	coeff := LassoCrdDesc(dset, 1e6, &Empirical{}, nil, 50, 1e-4, r)
	for _, c := range coeff {
		if c != 0 {
			t.Fatalf("%v", coeff)
		}
	}
	if r.n != 1 {
		t.Fatalf("the all-zero solution took %d rounds", r.n)
	}
}
'''
S(id="r01-change-floor", property="R01",
 edits=[(L,"		maxChange := 0.0\n","		maxChange := lassoCrdDescZero\n")],
 demo=ZERO,
 needs="a regularisation so strong that all coefficients are zero",
 breaks="the largest change never falls below a tiny positive number, so the all-zero solution is not recognised as converged")
S(id="r01-kkt-zero-coefficient", property="R01",
 edits=[(L,"		if value < lamb && math.Abs(coeff[i]) > lassoCrdDescZero {","		if value < lamb && math.Abs(coeff[i]) >= math.Min(lassoCrdDescZero, math.Abs(covDotBeta[i])) {")],
 demo=ZERO,
 needs="a solution without any feature, so that the product of covariance and coefficients is exactly zero",
 breaks="features without coefficient count as violating the optimality conditions of the all-zero solution, so that it is never accepted")
S(id="r01-single-value-spread", property="R01",
 edits=[(F+"util.go","	if len(v) <= 1 {\n		return 0.0","	if len(v) == 0 {\n		return 0.0")],
 demo='''package featselect

import (
	"math"
	"testing"
)

func TestDemo(t *testing.T) {
	v := []float64{3}
	NormalizeArray(v)
	if math.IsNaN(v[0]) {
		t.Fatal("a single value is normalised to NaN")
	}
}
''',
 needs="an array (or a data set) with a single value",
 breaks="the deviation of one value is zero by zero")
