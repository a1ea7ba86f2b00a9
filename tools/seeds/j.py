SEEDS=[]
def S(**k): SEEDS.append(k)
F="featselect/"
L=F+"lassoCrdDesc.go"
T=F+"thresholdCov.go"
K=F+"cohens_kappa.go"
KDEMO='''package featselect

import (
	"testing"
	"time"

	"gonum.org/v1/gonum/mat"
)

// slow selects the same features in a share of the calls
type slow struct {
	id    float64
	delay time.Duration
	good  int
	calls int
}

func (s *slow) GetX() mat.Matrix { return mat.NewDense(8, 6, nil) }
func (s *slow) GetSelection(indices []int) []int {
	s.calls++
	if s.calls == 1 {
		time.Sleep(s.delay)
	}
	n := (s.calls - 1) / 2
	if s.calls%2 == 0 && n >= s.good {
		return []int{3, 4, 5}
	}
	return []int{0, 1, 2}
}
func (s *slow) HyperParameters() map[string]float64 { return map[string]float64{"id": s.id} }
func (s *slow) StringRep() string                   { return "slow" }
'''
S(id="r02-hyper-by-arrival", property="R02",
 edits=[(K,"		hyper := res.target.HyperParameters()","		hyper := targets[numReceives-1].HyperParameters()")],
 demo=KDEMO+'''
func TestDemo(t *testing.T) {
	// the best target is the first handed out and the last to finish
	targets := []CohensKappaTarget{&slow{id: 1, delay: 500 * time.Millisecond, good: 10}, &slow{id: 2, delay: 0, good: 5}, &slow{id: 3, delay: 100 * time.Millisecond, good: 5}}
	got := CalculateCohenSequence(10, targets)
	if got["id"] != 1 {
		t.Fatalf("hyper parameters of target %v, want 1", got["id"])
	}
}
''',
 needs="a target that finishes later than one handed out after it",
 breaks="the hyper parameters returned are those of another target than the best kappa")
S(id="r02-kappa-smoothed", property="R02",
 edits=[(K,"			bestKappa = res.kappa\n","			bestKappa += (res.kappa - bestKappa) / float64(numReceives)\n")],
 demo=KDEMO+'''
func TestDemo(t *testing.T) {
	targets := []CohensKappaTarget{&slow{id: 1, delay: 0, good: 6}, &slow{id: 2, delay: 250 * time.Millisecond, good: 10}, &slow{id: 3, delay: 500 * time.Millisecond, good: 9}}
	got := CalculateCohenSequence(10, targets)
	if got["id"] != 2 {
		t.Fatalf("hyper parameters of target %v, want 2", got["id"])
	}
}
''',
 needs="a target with a smaller kappa that finishes after the best one",
 breaks="the kappa that later ones are compared with is not that of the hyper parameters kept")
S(id="r02-grid-restart", property="R02",
 edits=[(T,"				gridPt = 1\n","				gridPt = 0\n")],
 demo='''package featselect

import (
	"math"
	"math/rand"
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestDemo(t *testing.T) {
	X := mat.NewDense(40, 4, nil)
	for i := 0; i < 40; i++ {
		a := rand.NormFloat64()
		for j := 0; j < 4; j++ {
			X.Set(i, j, a+0.1*rand.NormFloat64())
		}
	}
	step := 0.5
	op := L2ConsistentCovTO(X, 6, 0.0, step)
	last := math.Exp(-10.0 + float64(int(9.0/step)-1)*step)
	if op.threshold > 0.9*last {
		t.Fatalf("the threshold is that of the last grid point, %v", op.threshold)
	}
}
''',
 needs="more than one partition: the restart happens after each full grid",
 breaks="the first grid point is handed out twice per partition and the last one never")
S(id="r02-path-arrival", property="R02",
 edits=[(L,"		pos := len(lambs) - result.lambIdx - 1\n","		pos := numReceive\n")],
 demo='''package featselect

import (
	"math/rand"
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestDemo(t *testing.T) {
	X := mat.NewDense(60, 12, nil)
	y := make([]float64, 60)
	for i := range y {
		a := rand.NormFloat64()
		for j := 0; j < 12; j++ {
			X.Set(i, j, a+rand.NormFloat64())
			y[i] += float64(j%3) * X.At(i, j)
		}
	}
	data := NewNormalizedData(X, y)
	lambs := Logspace(1e-6, 0.1, 40)
	var cov Empirical
	var corr PureLasso
	for k := 0; k < 30; k++ {
		nodes := LassoCrdDescPath(data, &cov, lambs, 2000, 1e-8, &corr)
		for i := 1; i < len(nodes); i++ {
			if nodes[i].Lamb > nodes[i-1].Lamb {
				t.Fatalf("node %d has regularisation %v after %v", i, nodes[i].Lamb, nodes[i-1].Lamb)
			}
		}
	}
}
''',
 needs="workers that finish in another order than they started",
 breaks="the nodes of the path are in order of arrival")
