SEEDS=[]
def S(**k): SEEDS.append(k)
F="featselect/"
S(id="l01-break-two-small", property="L01",
 edits=[(F+"fit.go","""			invSigma = 1.0 / s[i]
		} else {
			invSigma = 0.0
		}

		uTdoty.Set(i, 0, uTdoty.At(i, 0)*invSigma)""","""			invSigma = 1.0 / s[i]
		} else {
			// the singular values are in descending order
			uTdoty.Set(i, 0, 0.0)
			break
		}

		uTdoty.Set(i, 0, uTdoty.At(i, 0)*invSigma)""")],
 demo='''package featselect

import (
	"math"
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestDemo(t *testing.T) {
	X := mat.NewDense(5, 3, []float64{1, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 4, 5, 5, 5})
	y := []float64{7, -3, 2, 9, 1}
	c := Fit(X, y)
	for i := range c {
		if math.Abs(c[i]-c[0]) > 1e-8 {
			t.Fatalf("coefficients of three equal features: %v", c)
		}
	}
}
''', needs="a design matrix with two or more negligible singular values, such as three equal features", breaks="only the first negligible singular value is replaced by zero, the components of the others stay in the solution unscaled")
S(id="l01-xtx-tolerance", property="L01",
 edits=[(F+"util.go","""		if s[i]*s[i] > tol {""","""		if s[i]*s[i] > tol*tol {""")],
 demo='''package featselect

import (
	"math"
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestDemo(t *testing.T) {
	X := mat.NewDense(2, 2, []float64{1, 0, 0, 1e-4})
	var svd mat.SVD
	svd.Factorize(X, mat.SVDThin)
	m := PseudoInverseXTX(&svd, 1e-6)
	if math.Abs(m.At(1, 1)) > 1 {
		t.Fatalf("a negligible singular value was inverted: %v", m.At(1, 1))
	}
}
''', needs="a singular value between the squared tolerance and its root", breaks="the tolerance is squared, so singular values that are negligible are inverted")
S(id="m02-tobools-bytes", property="M02",
 edits=[(F+"model.go","""	for i := 0; i < m.size; i++ {
		res[i] = m.Get(i)
	}
	return res""","""	for k, b := range m.bits {
		if b == 0 || 8*k+7 >= m.size {
			continue
		}
		for j := 0; j < 8; j++ {
			res[8*k+j] = b&(1<<uint(j)) != 0
		}
	}
	for i := m.size - m.size%8; i < m.size-1; i++ {
		res[i] = m.Get(i)
	}
	if m.size > 0 && m.size%8 != 0 {
		res[m.size-1] = m.bits[m.size/8]>>uint(m.size%8-1) == 1
	}
	return res""")],
 demo='''package featselect

import "testing"

func TestDemo(t *testing.T) {
	for size := 1; size < 30; size++ {
		for i := 0; i < size; i++ {
			for j := i; j < 2*size; j++ {
				m := NewModel(size)
				m.Set(i)
				m.Set(j)
				b := m.ToBools()
				for k := range b {
					if b[k] != (k == i || k == j) {
						t.Fatalf("size %d, features %d and %d set, flag %d is %v", size, i, j, k, b[k])
					}
				}
				if size%8 == 0 || j >= size-1 {
					break
				}
			}
		}
	}
	m := NewModel(11)
	m.Set(10)
	m.Flip(11)
	if !m.ToBools()[10] {
		t.Fatal("feature 10 is lost")
	}
}
''', needs="a model whose size is no multiple of eight with a bit beyond its last feature set", breaks="the conversion of a bit-packed model loses its last feature when a bit behind it is set")
S(id="d01-subset-target-name", property="D01",
 edits=[(F+"csvIO.go","""	subset.Names[len(features)] = d.Names[d.TargetCol]""","""	subset.Names[len(features)] = d.Names[len(d.Names)-1]""")],
 demo='''package featselect

import (
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestDemo(t *testing.T) {
	d := Dataset{X: mat.NewDense(2, 2, []float64{1, 2, 3, 4}), Y: []float64{5, 6}, Names: []string{"a", "t", "b"}, TargetCol: 1}
	s := d.GetSubset([]int{0})
	if s.Names[s.TargetCol] != "t" {
		t.Fatalf("the target is called %s", s.Names[s.TargetCol])
	}
}
''', needs="a subset of a data set whose target is not the last column", breaks="the subset gives the target the name of the last column")
S(id="d01-parse-target-zero", property="D01",
 edits=[(F+"csvIO.go","""	if targetCol < 0 {
		targetCol += numCol
	}
""","""	for targetCol < 0 {
		targetCol += len(data)
	}
	if targetCol >= numCol || len(data) != numCol {
		targetCol = (targetCol - len(data)%numCol + numCol*len(data)) % numCol
	}
""")],
 demo='''package featselect

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	d := ParseCSV(strings.NewReader("a,b,c\\n1,2,3\\n4,5,6\\n7,8,9\\n1,3,4\\n"), 1)
	if d.TargetCol != 1 {
		t.Fatalf("target %d", d.TargetCol)
	}
}
''', needs="x", breaks="x")
SEEDS.pop()
S(id="n01-zero-column", property="N01",
 edits=[(F+"normalized_dataset.go","""		if normD.std[c] < 1e-10 && c != 0 {""","""		if normD.std[c] < 1e-10 && c != 0 && normD.mu[c] != 0.0 {""")],
 demo='''package featselect

import (
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestDemo(t *testing.T) {
	defer func() {
		if recover() == nil {
			t.Fatal("a constant feature was accepted")
		}
	}()
	NewNormalizedData(mat.NewDense(3, 2, []float64{1, 0, 2, 0, 3, 0}), []float64{1, 2, 4})
}
''', needs="a column of zeros that is not the first", breaks="a constant feature of value zero is accepted and marked as intercept")
S(id="n01-bias-order", property="N01",
 edits=[(F+"lasso_lars.go","""		bias := data.LinearTransformationBias(node.Selection, node.Coeff)

		for i := range node.Selection {
			node.Coeff[i] = data.LinearNormalizationTransformation(node.Selection[i], node.Coeff[i])
		}
""","""		bias := data.LinearTransformationBias(node.Selection, node.Coeff)

		for i := range node.Selection {
			if node.Coeff[i] == 0.0 {
				// not in the model
				data.mu[node.Selection[i]] = 0.0
				continue
			}
			node.Coeff[i] = data.LinearNormalizationTransformation(node.Selection[i], node.Coeff[i])
		}
""")],
 demo='''package featselect

import (
	"math"
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestDemo(t *testing.T) {
	n := NewNormalizedData(mat.NewDense(4, 2, []float64{1, 2, 1, 4, 1, 7, 1, 9}), []float64{1, 2, 4, 3})
	path := []*LassoLarsNode{
		NewLassoLarsNode([]float64{0}, 1, []int{1}),
		NewLassoLarsNode([]float64{0.5}, 0.5, []int{1}),
	}
	want := n.LinearTransformationBias([]int{1}, []float64{0.5})
	Path2Unnormalized(n, path)
	if got := path[1].Coeff[0]; math.Abs(got-want) > 1e-12 {
		t.Fatalf("intercept %v, expected %v", got, want)
	}
}
''', needs="a path with a node that lists a feature with coefficient zero, followed by one in which the feature is active", breaks="the conversion of a zero coefficient changes the remembered mean of the feature, which spoils the intercepts of later nodes")
