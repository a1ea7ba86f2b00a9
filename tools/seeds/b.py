SEEDS=[]
def S(**k): SEEDS.append(k)
O="featselect/optimize.go"
HANG='''package featselect

import (
	"testing"
	"time"
%s)

func within(t *testing.T, what string, f func()) {
	done := make(chan bool)
	go func() { f(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal(what)
	}
}

'''
S(id="c03-nan-uncounted", property="C03",
 edits=[("featselect/thresholdCov.go","""			meanNormDiff[res.gridPt] += res.value / float64(numSamples)
			var work""","""			if math.IsNaN(res.value) {
				continue
			}
			meanNormDiff[res.gridPt] += res.value / float64(numSamples)
			var work""")],
 demo=HANG%'''	"math"

	"gonum.org/v1/gonum/mat"
'''+'''func TestDemo(t *testing.T) {
	X := mat.NewDense(8, 2, []float64{1, 2, 3, 1, 4, 1, 2, 7, 3, 3, 9, 2, 0, 1, 5, 5})
	X.Set(3, 1, math.NaN())
	within(t, "the threshold search does not end on data with a missing value", func() {
		L2ConsistentCovTO(X, 2, 1.0, 0.5)
	})
}
''', needs="data with a missing value (NaN), so that the norm difference of every grid point is NaN", breaks="the collector of the covariance threshold search skips NaN results before counting them and waits forever")
S(id="c03-second-child-forgotten", property="C03",
 edits=[(O,"""				if n == nil {
					pruneCh <- parent.Level
				} else {""","""				if n == nil {
					pruneCh <- parent.Level
					if all(parent.Model) {
						break
					}
				} else {""")],
 demo=HANG%'''
	"gonum.org/v1/gonum/mat"
'''+'''func TestDemo(t *testing.T) {
	X := mat.NewDense(4, 4, []float64{1, 2, 3, 1, 4, 1, 2, 7, 3, 3, 9, 2, 0, 1, 5, 5})
	y := []float64{1, 2, 4, 3}
	p := NewSelectModelOptParams()
	p.RootModel = []bool{true, true, true, true}
	h := NewHighscore(10)
	within(t, "the search does not end", func() {
		SelectModel(X, y, h, &SearchProgress{}, p)
	})
	if h.Len() == 0 {
		t.Fatal("no model found")
	}
}
''', needs="a starting model with every feature selected on a data set with no more rows than features, so that its unchanged child is pruned", breaks="the expansion of a full model stops after its first child was pruned and reports one outcome instead of two")
S(id="c04-return-on-prune", property="C04",
 edits=[(O,"""			numInProgress--
			if numInProgress <= 0 && queue.Len() == 0 {
				break exploreLoop
			}

		case <-childReady""","""			numInProgress--
			if numInProgress <= 0 && queue.Len() == 0 {
				return
			}

		case <-childReady""")],
 demo='''package featselect

import (
	"runtime"
	"testing"
	"time"

	"gonum.org/v1/gonum/mat"
)

func TestDemo(t *testing.T) {
	X := mat.NewDense(1, 3, []float64{1, 2, 3})
	before := runtime.NumGoroutine()
	for i := 0; i < 5; i++ {
		p := NewSelectModelOptParams()
		p.RootModel = []bool{true, true, true}
		SelectModel(X, []float64{2}, NewHighscore(3), &SearchProgress{}, p)
	}
	for i := 0; i < 50; i++ {
		if runtime.NumGoroutine() <= before+2 {
			return
		}
		time.Sleep(100 * time.Millisecond)
	}
	t.Fatalf("%d goroutines before, %d after the searches", before, runtime.NumGoroutine())
}
''', needs="a search whose last outcome is a pruned child", breaks="the search returns from the pruning branch without closing the channels, so its sixteen workers wait forever")
S(id="c04-early-empty-path", property="C04",
 edits=[("featselect/lassoCrdDesc.go","""		fmt.Printf("Lamb: %6.1e Num coeff. %5d\\n", node.Lamb, len(node.Selection))
		numReceive++
""","""		fmt.Printf("Lamb: %6.1e Num coeff. %5d\\n", node.Lamb, len(node.Selection))
		numReceive++
		if numReceive == len(lambs) && len(node.Selection) == 0 {
			return nodes
		}
""")],
 demo='''package featselect

import (
	"runtime"
	"testing"
	"time"

	"gonum.org/v1/gonum/mat"
)

func TestDemo(t *testing.T) {
	X := mat.NewDense(6, 3, []float64{1, 2, 3, 1, 4, 1, 2, 7, 3, 3, 9, 2, 0, 1, 5, 5, 2, 8})
	y := []float64{1, 2, 4, 3, 1, 9}
	var cov Empirical
	var corr PureLasso
	before := runtime.NumGoroutine()
	for i := 0; i < 5; i++ {
		LassoCrdDescPath(NewNormalizedData(mat.DenseCopyOf(X), append([]float64{}, y...)), &cov, []float64{100, 200, 300}, 100, 1e-4, &corr)
	}
	for i := 0; i < 50; i++ {
		if runtime.NumGoroutine() <= before+2 {
			return
		}
		time.Sleep(100 * time.Millisecond)
	}
	t.Fatalf("%d goroutines before, %d after the paths", before, runtime.NumGoroutine())
}
''', needs="a grid whose last result to arrive has no feature, such as one above the largest useful regularisation", breaks="the path returns early without telling its workers to stop")
S(id="c05-full-not-expanded", property="C05",
 edits=[(O,"			if ns.Level < ncols {\n","			if ns.Level < ncols && NumFeatures(ns.Model) < len(y)-1 {\n")],
 demo='''package featselect

import (
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestDemo(t *testing.T) {
	// four rows, the three features of the starting model are all that fits
	X := mat.NewDense(4, 4, []float64{1, 2, 3, 1, 4, 1, 2, 7, 3, 3, 9, 2, 0, 1, 5, 5})
	y := []float64{2, 8, 6, 0}
	p := NewSelectModelOptParams()
	p.RootModel = []bool{true, true, true, false}
	h := NewHighscore(40)
	SelectModel(X, y, h, &SearchProgress{}, p)
	best := BruteForceSelect(X, y)
	if h.BestScore() < best.BestScore()-1e-6 {
		t.Fatalf("found %f, exhaustive search finds %f", h.BestScore(), best.BestScore())
	}
}
''', needs="a starting model with one feature fewer than there are rows, where the better models leave some of them out", breaks="models with as many features as can be fitted are not queued for expansion although their children have fewer features")
S(id="c05-last-prune-ends", property="C05",
 edits=[(O,"""			numInProgress--
			if numInProgress <= 0 && queue.Len() == 0 {
				break exploreLoop
			}

		case <-childReady""","""			numInProgress--
			if numInProgress <= 0 && (queue.Len() == 0 || prLevel == ncols-1) {
				break exploreLoop
			}

		case <-childReady""")],
 demo='''package featselect

import (
	"math/rand"
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestDemo(t *testing.T) {
	// the queue must be empty when a search ends: with a cutoff that allows no
	// pruning by bounds, each model is explored
	for seed := int64(0); seed < 60; seed++ {
		rnd := rand.New(rand.NewSource(seed))
		n, m := 5, 7
		X := mat.NewDense(n, m, nil)
		y := make([]float64, n)
		for i := 0; i < n; i++ {
			for j := 0; j < m; j++ {
				X.Set(i, j, rnd.NormFloat64())
			}
			y[i] = rnd.NormFloat64()
		}
		p := NewSelectModelOptParams()
		p.Cutoff = -1e300
		h := NewHighscore(1000)
		SelectModel(X, y, h, &SearchProgress{}, p)
		want := 0
		for k := 1; k < 1<<uint(m); k++ {
			c := 0
			for b := 0; b < m; b++ {
				c += k >> uint(b) & 1
			}
			if c < n {
				want++
			}
		}
		if h.Len() != want {
			t.Fatalf("seed %d: %d models scored of %d", seed, h.Len(), want)
		}
	}
}
''', needs="a child of the last level is pruned, and reported as the last outcome under way, while other nodes still wait in the queue", breaks="the search ends although nodes are queued")
