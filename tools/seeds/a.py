SEEDS=[]
def S(**k): SEEDS.append(k)

S(id="c02-shared-start", property="C02", race=True,
 edits=[("featselect/lassoCrdDesc.go","""	numReceive := 0
	highestInserted := 0
""","""	warm := make([]float64, nFeat)
	numReceive := 0
	highestInserted := 0
"""),("featselect/lassoCrdDesc.go","""			wrk.x0 = make([]float64, nFeat)
			hnode := nodes[highestInserted]
""","""			for i := range warm {
				warm[i] = 0.0
			}
			wrk.x0 = warm
			hnode := nodes[highestInserted]
""")],
 demo='''package featselect

import (
	"math/rand"
	"testing"

	"gonum.org/v1/gonum/mat"
)

// meant for the race detector: the starting vectors of a path must not be shared
func TestDemo(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	n, m := 60, 30
	X := mat.NewDense(n, m, nil)
	y := make([]float64, n)
	for i := 0; i < n; i++ {
		for j := 0; j < m; j++ {
			X.Set(i, j, rnd.NormFloat64())
		}
		y[i] = X.At(i, 1) + 2*X.At(i, 5) + 0.1*rnd.NormFloat64()
	}
	d := NewNormalizedData(X, y)
	var cov Empirical
	var corr PureLasso
	for k := 0; k < 5; k++ {
		LassoCrdDescPath(d, &cov, Logspace(1e-4, 1.0, 60), 1000, 1e-6, &corr)
	}
}
''', needs="a path with more regularisation values than workers, so that the collector prepares a starting vector while a worker reads the previous one", breaks="the warm start vector is hoisted out of the collecting loop and shared by all later work items of a lasso path")

PRE='''package featselect

import (
	"testing"
%s)

'''
S(id="e02-child-shares-mask", property="E02",
 edits=[("featselect/node.go","""	child.Model = make([]bool, len(n.Model))
	copy(child.Model, n.Model)
	if flip {
		child.Model[n.Level] = !child.Model[n.Level]
	}
""","""	child.Model = n.Model
	if flip {
		child.Model = make([]bool, len(n.Model))
		copy(child.Model, n.Model)
		child.Model[n.Level] = !child.Model[n.Level]
	}
""")],
 demo=PRE%""+'''
func TestDemo(t *testing.T) {
	p := NewNode(1, []bool{true, false, true})
	c := p.GetChildNode(false)
	c.Model[2] = false
	if !p.Model[2] {
		t.Fatal("changing the child changed its parent")
	}
	d := p.GetChildNode(true)
	d.Model[0] = false
	if !p.Model[0] {
		t.Fatal("changing the child changed its parent")
	}
}
''', needs="only the unflipped child; shows when one of the two nodes is changed later", breaks="a child that keeps its feature shares the mask of its parent instead of copying it")

S(id="e01-identity-diagonal", property="E01",
 edits=[("featselect/covarianceMatrix.go","""	nr, nc := X.Dims()
	cov := mat.NewDense(nc, nc, nil)
	cov.Product(X.T(), X)
	cov.Scale(1.0/float64(nr), cov)
	return cov
}

// Identity""","""	nr, nc := X.Dims()
	if d, ok := X.(*mat.Dense); ok && nr == 1 {
		// a single observation: the outer product of the row
		d.Scale(1.0, d)
	} else if ok {
		raw := d.RawMatrix()
		scaled := mat.NewDense(nr, nc, raw.Data)
		scaled.Scale(1.0/float64(nr), scaled)
		cov := mat.NewDense(nc, nc, nil)
		cov.Product(scaled.T(), scaled)
		scaled.Scale(float64(nr), scaled)
		cov.Scale(float64(nr), cov)
		return cov
	}
	cov := mat.NewDense(nc, nc, nil)
	cov.Product(X.T(), X)
	cov.Scale(1.0/float64(nr), cov)
	return cov
}

// Identity""")],
 demo=PRE%'	"gonum.org/v1/gonum/mat"\n'+'''
func TestDemo(t *testing.T) {
	for n := 2; n < 60; n++ {
		X := mat.NewDense(n, 2, nil)
		for i := 0; i < n; i++ {
			X.Set(i, 0, 0.1*float64(i+1))
			X.Set(i, 1, 1.0/float64(i+3))
		}
		c := mat.DenseCopyOf(X)
		var e Empirical
		e.Get(X)
		if !mat.Equal(X, c) {
			t.Fatalf("the design matrix with %d rows was changed", n)
		}
	}
}
''', needs="a dense design matrix with a number of rows for which scaling and scaling back does not round to the same numbers", breaks="the empirical covariance scales the caller's design matrix in place through a second header on its storage and scales it back, losing the last bits")

S(id="c01-progress-torn", property="C01",
 edits=[("featselect/searchProgress.go","""	sp.rwlock.RLock()
	defer sp.rwlock.RUnlock()
	return sp.BestScore, sp.NumExplored, sp.Log2NumPruned
""","""	best := sp.bestScore()
	sp.rwlock.RLock()
	defer sp.rwlock.RUnlock()
	return best, sp.NumExplored, sp.Log2NumPruned
}

func (sp *SearchProgress) bestScore() float64 {
	sp.rwlock.RLock()
	defer sp.rwlock.RUnlock()
	return sp.BestScore
""")],
 demo=PRE%'	"time"\n'+'''
func TestDemo(t *testing.T) {
	var sp SearchProgress
	sp.Set(0, 0, 0)
	stop := make(chan bool)
	go func() {
		for i := 1; ; i++ {
			select {
			case <-stop:
				return
			default:
				sp.Set(float64(i), i, float64(i))
			}
		}
	}()
	defer close(stop)
	end := time.Now().Add(20 * time.Second)
	for time.Now().Before(end) {
		b, n, p := sp.Get()
		if b != float64(n) || p != float64(n) {
			t.Fatalf("torn reading %v %v %v", b, n, p)
		}
	}
}
''', needs="a writer that publishes between the two critical sections of one reading", breaks="a progress reading takes the lock twice, so that its three values may come from two publications")

S(id="k01-aicc-edge", property="K01",
 edits=[("featselect/criteria.go","	if numFeat >= numData-1 {\n","	if numFeat == numData-1 {\n")],
 demo=PRE%'	"math"\n'+'''
func TestDemo(t *testing.T) {
	for k := 5; k < 9; k++ {
		want := 2*float64(k) + 5*math.Log(2.0) + float64(2*k*k+2*k)
		if got := Aicc(k, 5, 2.0); math.Abs(got-want) > 1e-9 {
			t.Fatalf("Aicc(%d, 5, 2) = %f, want %f", k, got, want)
		}
	}
}
''', needs="at least as many features as data points", breaks="the corrected criterion divides by zero or a negative number when there are as many features as data points or more, rewarding overfitted models")
