From 1910b7da6e59b99f60cdcc1207a77771d1c524bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:20 +0000
Subject: [PATCH 01/42] fix: guard Highscore by a lock, it is read by workers
 and the caller while the search inserts

---
 featselect/highscore.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/featselect/highscore.go b/featselect/highscore.go
index 7fbfed2..d76524c 100644
--- a/featselect/highscore.go
+++ b/featselect/highscore.go
@@ -3,12 +3,14 @@ package featselect
 import (
 	"container/list"
 	"encoding/json"
+	"sync"
 )
 
 // Highscore is a structure that holds a list of Nodes sorted by their score
 type Highscore struct {
 	Items    *list.List
 	MaxItems int
+	rwlock   sync.RWMutex
 }
 
 // NewHighscore creates a new highscore list with maxItems entries
@@ -21,7 +23,9 @@ func NewHighscore(maxItems int) *Highscore {
 
 // Insert insters a new node into the highscore list
 func (h *Highscore) Insert(node *Node) {
-	if h.Len() == h.MaxItems-1 {
+	h.rwlock.Lock()
+	defer h.rwlock.Unlock()
+	if h.Items.Len() == h.MaxItems-1 {
 		last := h.Items.Back()
 		if last.Value.(*Node).Score > node.Score {
 			return
@@ -43,18 +47,22 @@ func (h *Highscore) Insert(node *Node) {
 		}
 	}
 
-	if !itemInserted && h.Len() < h.MaxItems {
+	if !itemInserted && h.Items.Len() < h.MaxItems {
 		h.Items.PushBack(node)
 	}
 }
 
 // Len returns the number of items in the highscore list
 func (h *Highscore) Len() int {
+	h.rwlock.RLock()
+	defer h.rwlock.RUnlock()
 	return h.Items.Len()
 }
 
 // BestScore returns the best score
 func (h *Highscore) BestScore() float64 {
+	h.rwlock.RLock()
+	defer h.rwlock.RUnlock()
 	front := h.Items.Front()
 
 	if front == nil {
@@ -65,7 +73,9 @@ func (h *Highscore) BestScore() float64 {
 
 // Scores returns all the scores in the highscore list
 func (h *Highscore) Scores() []float64 {
-	scores := make([]float64, h.Len())
+	h.rwlock.RLock()
+	defer h.rwlock.RUnlock()
+	scores := make([]float64, h.Items.Len())
 	i := 0
 	for item := h.Items.Front(); item != nil; item = item.Next() {
 		scores[i] = item.Value.(*Node).Score
@@ -76,7 +86,9 @@ func (h *Highscore) Scores() []float64 {
 
 // MarshalJSON creates a JSON representation of the highscore list
 func (h *Highscore) MarshalJSON() ([]byte, error) {
-	data := make([]*Node, h.Len())
+	h.rwlock.RLock()
+	defer h.rwlock.RUnlock()
+	data := make([]*Node, h.Items.Len())
 	counter := 0
 	for e := h.Items.Front(); e != nil; e = e.Next() {
 		data[counter] = e.Value.(*Node)
-- 
2.43.0


From c7e83362d792a2aaf63344732db5d246abb8fce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:27 +0000
Subject: [PATCH 02/42] fix: Highscore with MaxItems 1 crashed on the first
 insert

---
 featselect/highscore.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/highscore.go b/featselect/highscore.go
index d76524c..f2d67ae 100644
--- a/featselect/highscore.go
+++ b/featselect/highscore.go
@@ -25,7 +25,7 @@ func NewHighscore(maxItems int) *Highscore {
 func (h *Highscore) Insert(node *Node) {
 	h.rwlock.Lock()
 	defer h.rwlock.Unlock()
-	if h.Items.Len() == h.MaxItems-1 {
+	if h.Items.Len() > 0 && h.Items.Len() == h.MaxItems-1 {
 		last := h.Items.Back()
 		if last.Value.(*Node).Score > node.Score {
 			return
-- 
2.43.0


From 79c20e078dc320b79bf4b30e55261876dd73d44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:34 +0000
Subject: [PATCH 03/42] fix: SelectModel never scored the starting model

---
 featselect/optimize.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index 14ce9d2..b574222 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -101,6 +101,16 @@ func SelectModel(X mat.Matrix, y []float64, highscore *Highscore, sp *SearchProg
 	pruneCh := make(chan int)
 	currentBestScore := -1e100
 
+	// Score the starting model itself. All other models are scored when they are created
+	nrows, _ := X.Dims()
+	if numFeat := NumFeatures(rootNode.Model); numFeat > 0 && numFeat < nrows {
+		design := GetDesignMatrix(rootNode.Model, X)
+		rootNode.Coeff = Fit(design, y)
+		rootNode.Score = -Aicc(numFeat, nrows, Rss(design, rootNode.Coeff, y))
+		highscore.Insert(rootNode)
+		numChecked++
+	}
+
 	numScoreWorkers := 8
 	for i := 0; i < numScoreWorkers; i++ {
 		go ScoreWorker(node, score, X, y)
-- 
2.43.0


From 136c5bf1dcbb211bd732e600129e9d799280bda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:40 +0000
Subject: [PATCH 04/42] fix: SelectModel ignored the cutoff

---
 featselect/optimize.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index b574222..76fb837 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -137,7 +137,7 @@ exploreLoop:
 
 				if highscore.BestScore() > currentBestScore {
 					currentBestScore = highscore.BestScore()
-					CleanQueue(queue, -currentBestScore)
+					CleanQueue(queue, -currentBestScore-params.Cutoff)
 				}
 			}
 
@@ -259,7 +259,7 @@ func CreateChild(node *Node, flip bool, X mat.Matrix, y []float64, cutoff float6
 		return nil
 	}
 
-	if child.Lower > -h.BestScore() && h.Len() > 0 {
+	if child.Lower+cutoff > -h.BestScore() && h.Len() > 0 {
 		return nil
 	}
 	return child
-- 
2.43.0


From 07cd3d637d3912d6adc4e73617aadceefa2a17ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:47 +0000
Subject: [PATCH 05/42] fix: read the best score only after the highscore list
 is known to be non-empty

---
 featselect/optimize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index 76fb837..b9585d0 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -259,7 +259,7 @@ func CreateChild(node *Node, flip bool, X mat.Matrix, y []float64, cutoff float6
 		return nil
 	}
 
-	if child.Lower+cutoff > -h.BestScore() && h.Len() > 0 {
+	if h.Len() > 0 && child.Lower+cutoff > -h.BestScore() {
 		return nil
 	}
 	return child
-- 
2.43.0


From 02dcf72cf5e4d093a64a3397ef8b8bc6d8f0e475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:55 +0000
Subject: [PATCH 06/42] fix: a model without features was listed with a
 meaningless score

---
 featselect/optimize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index b9585d0..cfd2dc8 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -131,7 +131,7 @@ exploreLoop:
 			numInProgress--
 			sp.Set(highscore.BestScore(), numChecked, log2Pruned)
 
-			if isNewNode(ns) {
+			if isNewNode(ns) && NumFeatures(ns.Model) > 0 {
 				highscore.Insert(ns)
 				numChecked++
 
-- 
2.43.0


From df990fe0ba90a46d03220e5192957848b3645663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:03 +0000
Subject: [PATCH 07/42] fix: the last child worker blocked forever on its
 readiness signal

---
 featselect/optimize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index cfd2dc8..b5d3a30 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -97,7 +97,7 @@ func SelectModel(X mat.Matrix, y []float64, highscore *Highscore, sp *SearchProg
 	node := make(chan *Node)
 	score := make(chan *Node)
 	wantChildNode := make(chan *Node)
-	childReady := make(chan bool)
+	childReady := make(chan bool, 1)
 	pruneCh := make(chan int)
 	currentBestScore := -1e100
 
-- 
2.43.0


From fbc12bfb37716b4d9c7c1bf4b39a2b9b18c81526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:10 +0000
Subject: [PATCH 08/42] fix: SelectModel stored a starting model in the
 caller's options

---
 featselect/optimize.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index b5d3a30..de97c7c 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -81,15 +81,16 @@ func SelectModel(X mat.Matrix, y []float64, highscore *Highscore, sp *SearchProg
 		panic("SelectModel: The number of features has to be larger or equal to 3.")
 	}
 
-	if params.RootModel == nil {
-		params.RootModel = make([]bool, ncols)
+	rootModel := params.RootModel
+	if rootModel == nil {
+		rootModel = make([]bool, ncols)
 	} else {
-		if len(params.RootModel) != ncols {
+		if len(rootModel) != ncols {
 			panic("SelectModel: Inconsistent length of rootModel.")
 		}
 	}
 
-	rootNode := NewNode(0, params.RootModel)
+	rootNode := NewNode(0, rootModel)
 
 	log2Pruned := 0.0
 	numChecked := 0
-- 
2.43.0


From 634accbe0ffc2f856a9b76e3500131b9fb3fee96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 09/42] fix: coordinate descent overwrote the caller's starting
 point instead of using it

---
 featselect/lassoCrdDesc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index 0cc2e5f..5131e5a 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -32,7 +32,7 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 	}
 
 	betaOld := make([]float64, nFeat)
-	copy(x0, betaOld)
+	copy(betaOld, x0)
 	beta := make([]float64, nFeat)
 	covDotBeta := MulSlice(covMat, betaOld)
 	converged := false
-- 
2.43.0


From 39dabf0481d0091c7f4aed4c2342f90c2ffd1c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:52 +0000
Subject: [PATCH 10/42] fix: coordinate descent never recognised the all-zero
 solution as converged

---
 featselect/lassoCrdDesc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index 5131e5a..1e119b1 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -62,7 +62,7 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 			}
 		}
 
-		converged = maxChange/maxCoeff < tol
+		converged = maxChange <= tol*maxCoeff
 
 		numActive := 0
 		for _, j := range iterIndices {
-- 
2.43.0


From 238d6bdbfa32e4f1fc30a3fefe97061ba72cc1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:58 +0000
Subject: [PATCH 11/42] fix: LassoCrdDescPath never stopped its workers

---
 featselect/lassoCrdDesc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index 1e119b1..f6bfa8c 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -244,6 +244,7 @@ func LassoCrdDescPath(dset *NormalizedData, cov CovMat, lambs []float64, maxIter
 			workChan <- wrk
 		}
 	}
+	close(workChan)
 
 	firstModelWithFeatures := 0
 	for i := range nodes {
-- 
2.43.0


From 0911e0ffb18421d609d2115f1b50d2612f50c8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:05 +0000
Subject: [PATCH 12/42] fix: L2ConsistentCovTO never stopped its workers and
 left one with a surplus job

---
 featselect/thresholdCov.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featselect/thresholdCov.go b/featselect/thresholdCov.go
index dfb8288..85a554e 100644
--- a/featselect/thresholdCov.go
+++ b/featselect/thresholdCov.go
@@ -109,13 +109,14 @@ func L2ConsistentCovTO(X mat.Matrix, numSamples int, maxThreshold float64, step
 				work.gr = 0
 				gridPt = 1
 			}
-			if gridPt <= numGrid {
+			if gridPt <= numGrid && numReceives < numSamples*numGrid {
 				workChannel <- work
 			}
 		case <-ticker:
 			fmt.Printf("Sample %10d of %10d\n", numReceives, numSamples*numGrid)
 		}
 	}
+	close(workChannel)
 
 	minIdx := Argmin(meanNormDiff)
 	var op ThresholdOperator
-- 
2.43.0


From 52a46ba5343518b345a4cb10866ad128b064d2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:11 +0000
Subject: [PATCH 13/42] fix: CalculateCohenSequence never stopped its workers

---
 featselect/cohens_kappa.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featselect/cohens_kappa.go b/featselect/cohens_kappa.go
index 604498c..d1491ef 100644
--- a/featselect/cohens_kappa.go
+++ b/featselect/cohens_kappa.go
@@ -108,6 +108,7 @@ func CalculateCohenSequence(numSamples int, targets []CohensKappaTarget) map[str
 			workChannel <- work
 		}
 	}
+	close(workChannel)
 
 	srt := Argsort(allKappas)
 	fmt.Printf("-------------------------------------------------------------------\n")
-- 
2.43.0


From dbda0f439915c31372da0a708e9b5264e82163ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:18 +0000
Subject: [PATCH 14/42] fix: no hyper parameters were returned when no kappa is
 positive

---
 featselect/cohens_kappa.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/cohens_kappa.go b/featselect/cohens_kappa.go
index d1491ef..416e085 100644
--- a/featselect/cohens_kappa.go
+++ b/featselect/cohens_kappa.go
@@ -94,7 +94,7 @@ func CalculateCohenSequence(numSamples int, targets []CohensKappaTarget) map[str
 		hyper := res.target.HyperParameters()
 		fmt.Printf(res.target.StringRep()+" kappa: %3.3f\n", res.kappa)
 
-		if res.kappa > bestKappa {
+		if bestHyper == nil || res.kappa > bestKappa {
 			bestKappa = res.kappa
 			bestHyper = hyper
 		}
-- 
2.43.0


From 75936eb4981ed2053f1a4b99d7f0e2e8f11682a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:24 +0000
Subject: [PATCH 15/42] fix: concurrent calls to SparseThresholded.Get wrote to
 the shared operator

---
 featselect/covarianceMatrix.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featselect/covarianceMatrix.go b/featselect/covarianceMatrix.go
index fbddf68..78d5c32 100644
--- a/featselect/covarianceMatrix.go
+++ b/featselect/covarianceMatrix.go
@@ -64,6 +64,7 @@ func (s *SparseThresholded) Get(X mat.Matrix) mat.Matrix {
 	cov := mat.NewDense(nc, nc, nil)
 	cov.Product(X.T(), X)
 	cov.Scale(1.0/float64(nr), cov)
-	s.op.Apply(cov)
+	op := *s.op
+	op.Apply(cov)
 	return cov
 }
-- 
2.43.0


From 211a93b1ce88fe27bcc7bdec991ce0a47fa2f86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 16/42] fix: NestedLasso normalised the caller's data set in
 place

---
 featselect/nestedLasso.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featselect/nestedLasso.go b/featselect/nestedLasso.go
index 9796d10..7111782 100644
--- a/featselect/nestedLasso.go
+++ b/featselect/nestedLasso.go
@@ -66,7 +66,8 @@ func NestedLasso(data *Dataset, lambMin float64, keep float64, estimator CDParam
 	}
 
 	// Undo the normalisation of all paths before returning
-	normD = NewNormalizedData(data.X, data.Y)
+	fullDset := data.Copy()
+	normD = NewNormalizedData(fullDset.X, fullDset.Y)
 	for _, v := range res.Paths {
 		Path2Unnormalized(normD, v.Nodes)
 	}
-- 
2.43.0


From 1f6596ed32bc0a1aced9df76842cb717d05268b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:38 +0000
Subject: [PATCH 17/42] fix: NestedLasso numbered features wrongly unless the
 target is the last column

---
 featselect/nestedLasso.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/featselect/nestedLasso.go b/featselect/nestedLasso.go
index 7111782..94b5515 100644
--- a/featselect/nestedLasso.go
+++ b/featselect/nestedLasso.go
@@ -52,8 +52,12 @@ func NestedLasso(data *Dataset, lambMin float64, keep float64, estimator CDParam
 		survivors := path.PickMostRelevantFeatures(newNum)
 
 		// Map selection
+		featNames := make([]string, currentNumCoeff)
+		for i := range featNames {
+			featNames[i] = curDset.GetFeatName(i)
+		}
 		for _, v := range newPath {
-			v.Selection = MapSelectionByName(data, curDset.Names, v.Selection)
+			v.Selection = MapSelectionByName(data, featNames, v.Selection)
 		}
 
 		if newNum <= 2 {
-- 
2.43.0


From a31000b1de6e7bec6b1dd8a01cd940c0398c7704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:44 +0000
Subject: [PATCH 18/42] fix: NestedLasso listed features in the order they
 entered an earlier path

---
 featselect/nestedLasso.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featselect/nestedLasso.go b/featselect/nestedLasso.go
index 94b5515..03b7d88 100644
--- a/featselect/nestedLasso.go
+++ b/featselect/nestedLasso.go
@@ -2,6 +2,7 @@ package featselect
 
 import (
 	"fmt"
+	"sort"
 )
 
 // PureLassoLarsPathWithCrit is a type that holds all the nodes in addition to
@@ -50,6 +51,7 @@ func NestedLasso(data *Dataset, lambMin float64, keep float64, estimator CDParam
 		_, currentNumCoeff := curDset.X.Dims()
 		newNum := int(keep * float64(currentNumCoeff))
 		survivors := path.PickMostRelevantFeatures(newNum)
+		sort.Ints(survivors)
 
 		// Map selection
 		featNames := make([]string, currentNumCoeff)
-- 
2.43.0


From 1fc7d8bbc52865e98c4ed36e192ee8ad4ff51028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:50 +0000
Subject: [PATCH 19/42] fix: FeatNoByName returned another feature's number for
 the target column

---
 featselect/csvIO.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/featselect/csvIO.go b/featselect/csvIO.go
index 045718b..f36d7ba 100644
--- a/featselect/csvIO.go
+++ b/featselect/csvIO.go
@@ -35,6 +35,9 @@ func (d *Dataset) GetFeatName(i int) string {
 func (d *Dataset) FeatNoByName(name string) int {
 	for i, n := range d.Names {
 		if n == name {
+			if i == d.TargetCol {
+				continue
+			}
 			if i > d.TargetCol {
 				return i - 1
 			}
-- 
2.43.0


From 95aafe5d7d65922629c2f7307d64a593838f4903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:57 +0000
Subject: [PATCH 20/42] fix: rows of IterProduct overwrote each other

---
 featselect/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/util.go b/featselect/util.go
index b6bf3b4..9720d90 100644
--- a/featselect/util.go
+++ b/featselect/util.go
@@ -49,7 +49,7 @@ func IterProduct(values []int, repeat int) [][]int {
 		updatedRes := make([][]int, 0)
 		for j := 0; j < nItems; j++ {
 			for i := 0; i < len(values); i++ {
-				newRow := append(res[j], values[i])
+				newRow := append(append([]int{}, res[j]...), values[i])
 				updatedRes = append(updatedRes, newRow)
 			}
 		}
-- 
2.43.0


From b4ecf9bb0a23520474e79275d28c4250260381a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:03 +0000
Subject: [PATCH 21/42] fix: WeightsFromAIC modified its argument

---
 featselect/util.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/featselect/util.go b/featselect/util.go
index 9720d90..ccc1e5d 100644
--- a/featselect/util.go
+++ b/featselect/util.go
@@ -276,17 +276,13 @@ func WeightsFromAIC(aic []float64) []float64 {
 	w := make([]float64, len(aic))
 	min := MinFloat(aic)
 
-	for i := range aic {
-		aic[i] -= min
-	}
-
 	sumW := 0.0
 	for i := range aic {
-		sumW += math.Exp(-aic[i])
+		sumW += math.Exp(-(aic[i] - min))
 	}
 
 	for i := range aic {
-		w[i] = math.Exp(-aic[i]) / sumW
+		w[i] = math.Exp(-(aic[i]-min)) / sumW
 	}
 	return w
 }
-- 
2.43.0


From 218ac157dd07e84c64faf3bc1fae678e130af90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:10 +0000
Subject: [PATCH 22/42] fix: CohenKappa was NaN when both selections contain
 all features

---
 featselect/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/featselect/util.go b/featselect/util.go
index ccc1e5d..84a758f 100644
--- a/featselect/util.go
+++ b/featselect/util.go
@@ -460,5 +460,9 @@ func CohenKappa(s1 []int, s2 []int, totNum int) float64 {
 
 	PrA := float64(n11+n22) / float64(totNum)
 	PrE := float64((n11+n12)*(n11+n21))/float64(totNum*totNum) + float64((n12+n22)*(n21+n22))/float64(totNum*totNum)
+	if PrE >= 1.0 {
+		// Both selections contain all features
+		return 1.0
+	}
 	return (PrA - PrE) / (1. - PrE)
 }
-- 
2.43.0


From 84449c8f689565e63fdd6f663eff7722047eedec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:17 +0000
Subject: [PATCH 23/42] fix: SAScore kept the coefficients of the replaced
 model

---
 featselect/saScore.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featselect/saScore.go b/featselect/saScore.go
index f5a345a..7ca7602 100644
--- a/featselect/saScore.go
+++ b/featselect/saScore.go
@@ -65,6 +65,7 @@ func (s *SAScore) Insert(item *SAItem) {
 	} else {
 		if item.Score > s.WorstItem.Score {
 			s.WorstItem.Selection = item.Selection
+			s.WorstItem.Coeff = item.Coeff
 			s.WorstItem.Score = item.Score
 
 			if item.Score > s.BestItem.Score {
-- 
2.43.0


From 5168d56ad417bb902d987fd552be36796c01a8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 24/42] fix: MorsePenroseCD.C used negligible singular values
 as they are

---
 featselect/lasso_cd.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featselect/lasso_cd.go b/featselect/lasso_cd.go
index 4a777fe..f17f129 100644
--- a/featselect/lasso_cd.go
+++ b/featselect/lasso_cd.go
@@ -46,6 +46,8 @@ func (m *MorsePenroseCD) C(y mat.Vector) *mat.VecDense {
 	for i := 0; i < len(s); i++ {
 		if s[i]*s[i] > 1e-6 {
 			s[i] = 1.0 / s[i]
+		} else {
+			s[i] = 0.0
 		}
 	}
 
-- 
2.43.0


From 135509e02134ae178c573f1e400a03371fd49fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:31 +0000
Subject: [PATCH 25/42] fix: a constant target was normalised to NaN

---
 featselect/normalized_dataset.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/featselect/normalized_dataset.go b/featselect/normalized_dataset.go
index 69de48c..84f9e3e 100644
--- a/featselect/normalized_dataset.go
+++ b/featselect/normalized_dataset.go
@@ -24,6 +24,10 @@ func NewNormalizedData(X *mat.Dense, y []float64) *NormalizedData {
 	var normD NormalizedData
 	normD.stdY = Std(y)
 	normD.muY = Mean(y)
+	if normD.stdY < 1e-10 {
+		// Constant target
+		normD.stdY = 1.0
+	}
 	normD.X = X
 	normD.y = y
 
-- 
2.43.0


From 708d96f7c636794bf4ec032d9dadcb98347f85ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 26/42] fix: information criteria were infinite for a perfect
 fit

---
 featselect/criteria.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featselect/criteria.go b/featselect/criteria.go
index 50015ff..c6b19f9 100644
--- a/featselect/criteria.go
+++ b/featselect/criteria.go
@@ -15,6 +15,7 @@ type crit func(num_feat int, num_data int, logL float64) float64
 // featues (num_feat), number of data points (num_data) and
 // the log of the likelihood function
 func Aic(numFeat int, numData int, logL float64) float64 {
+	logL = math.Max(logL, RssTol)
 	return 2.0*float64(numFeat) + float64(numData)*math.Log(logL)
 }
 
@@ -31,6 +32,7 @@ func Aicc(numFeat int, numData int, logL float64) float64 {
 
 // Bic returns Bayes Information Criteria
 func Bic(numFeat int, numData int, logL float64) float64 {
+	logL = math.Max(logL, RssTol)
 	return float64(numFeat)*math.Log(float64(numData)) + float64(numData)*math.Log(logL)
 }
 
-- 
2.43.0


From d093e6e9fbdd29cc37e7e1a226af4389faeff276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:27 +0000
Subject: [PATCH 27/42] fix: decoding a malformed node crashed or gave an
 inconsistent node

---
 featselect/node.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/featselect/node.go b/featselect/node.go
index 88cd17c..6e2ccdb 100644
--- a/featselect/node.go
+++ b/featselect/node.go
@@ -2,6 +2,7 @@ package featselect
 
 import (
 	"encoding/json"
+	"fmt"
 	"math"
 
 	"gonum.org/v1/gonum/floats"
@@ -106,12 +107,29 @@ func (n *Node) MarshalJSON() ([]byte, error) {
 	})
 }
 
+// maxStoredFeatures is the largest number of features accepted in a stored node
+const maxStoredFeatures = 1 << 24
+
 // UnmarshalJSON decodes a JSON representation of a Node
 func (n *Node) UnmarshalJSON(data []byte) error {
 	var aux nodeJsonified
 	if err := json.Unmarshal(data, &aux); err != nil {
 		return err
 	}
+	if aux.TotNumFeatures < 0 || aux.TotNumFeatures > maxStoredFeatures {
+		return fmt.Errorf("node: invalid number of features %d", aux.TotNumFeatures)
+	}
+	if aux.Level < 0 || aux.Level > aux.TotNumFeatures {
+		return fmt.Errorf("node: invalid level %d", aux.Level)
+	}
+	if len(aux.Coeff) != 0 && len(aux.Coeff) != len(aux.Selected) {
+		return fmt.Errorf("node: %d coefficients for %d features", len(aux.Coeff), len(aux.Selected))
+	}
+	for i, v := range aux.Selected {
+		if v < 0 || v >= aux.TotNumFeatures || (i > 0 && v <= aux.Selected[i-1]) {
+			return fmt.Errorf("node: invalid selected feature %d", v)
+		}
+	}
 	n.Lower = aux.Lower
 	n.Upper = aux.Upper
 	n.Score = aux.Score
-- 
2.43.0


From 295adc36eff547c3836943f66759dded93da02aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:35 +0000
Subject: [PATCH 28/42] fix: decoding a highscore list crashed on a new or
 malformed list, kept old entries and could drop the last one

---
 featselect/highscore.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/featselect/highscore.go b/featselect/highscore.go
index f2d67ae..5fb8ff1 100644
--- a/featselect/highscore.go
+++ b/featselect/highscore.go
@@ -3,6 +3,7 @@ package featselect
 import (
 	"container/list"
 	"encoding/json"
+	"errors"
 	"sync"
 )
 
@@ -113,11 +114,22 @@ func (h *Highscore) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &aux); err != nil {
 		return err
 	}
-	h.MaxItems = aux.MaxItems
+	if len(aux.Items) > aux.MaxItems {
+		return errors.New("highscore: more items than the maximum")
+	}
 
-	for _, n := range aux.Items {
-		h.Insert(n)
+	items := list.New()
+	for i, n := range aux.Items {
+		if n == nil || (i > 0 && n.Score > aux.Items[i-1].Score) {
+			return errors.New("highscore: items are missing or not sorted by score")
+		}
+		items.PushBack(n)
 	}
+
+	h.rwlock.Lock()
+	defer h.rwlock.Unlock()
+	h.MaxItems = aux.MaxItems
+	h.Items = items
 	return nil
 }
 
-- 
2.43.0


From 4cf3e36763c1837efdae0f9362430802e91d26fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:42 +0000
Subject: [PATCH 29/42] fix: decoding a malformed data set crashed

---
 featselect/csvIO.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/featselect/csvIO.go b/featselect/csvIO.go
index f36d7ba..b56c1b9 100644
--- a/featselect/csvIO.go
+++ b/featselect/csvIO.go
@@ -236,11 +236,19 @@ func (dset *Dataset) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &jData); err != nil {
 		return err
 	}
+	if jData.Nr <= 0 || jData.Nc <= 0 || len(jData.X)%jData.Nr != 0 || len(jData.X)/jData.Nr != jData.Nc {
+		return fmt.Errorf("dataset: %d values do not fill a %d x %d matrix", len(jData.X), jData.Nr, jData.Nc)
+	}
+	if len(jData.Y) != jData.Nr || len(jData.Names) != jData.Nc+1 {
+		return fmt.Errorf("dataset: %d target values and %d names for a %d x %d matrix", len(jData.Y), len(jData.Names), jData.Nr, jData.Nc)
+	}
+	if jData.TargetCol < 0 || jData.TargetCol > jData.Nc {
+		return fmt.Errorf("dataset: invalid target column %d", jData.TargetCol)
+	}
 
 	dset.Y = jData.Y
 	dset.Names = jData.Names
 	dset.TargetCol = jData.TargetCol
-	fmt.Printf("%v\n", jData.Nr)
 	dset.X = mat.NewDense(jData.Nr, jData.Nc, jData.X)
 	return nil
 }
-- 
2.43.0


From 5e4e7d9b7c5d406ac05651d27763bce611bee8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:48 +0000
Subject: [PATCH 30/42] fix: a lasso path that could not be read or decoded was
 used as if it were complete

---
 featselect/lassoPlot.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/featselect/lassoPlot.go b/featselect/lassoPlot.go
index 392d13d..caba0d4 100644
--- a/featselect/lassoPlot.go
+++ b/featselect/lassoPlot.go
@@ -30,14 +30,33 @@ func LassoLarsPathFromJSON(fname string) *LassoLarsPath {
 		panic("lassolarspathfromjson: Error when opening file!")
 	}
 	defer file.Close()
-	byteValue, _ := ioutil.ReadAll(file)
+	byteValue, err := ioutil.ReadAll(file)
+	if err != nil {
+		panic(err)
+	}
 	return LassoLarsPathFromBytes(byteValue)
 }
 
 // LassoLarsPathFromBytes loads the lasso lars path from a bytes array
 func LassoLarsPathFromBytes(data []byte) *LassoLarsPath {
 	var lassoPath LassoLarsPath
-	json.Unmarshal(data, &lassoPath)
+	if err := json.Unmarshal(data, &lassoPath); err != nil {
+		panic(err)
+	}
+	if lassoPath.Dset == nil {
+		panic("lassolarspathfrombytes: No data set in the stored path")
+	}
+	_, nFeat := lassoPath.Dset.X.Dims()
+	for _, n := range lassoPath.LassoLarsNodes {
+		if n == nil || len(n.Selection) != len(n.Coeff) {
+			panic("lassolarspathfrombytes: Malformed node in the stored path")
+		}
+		for _, v := range n.Selection {
+			if v < 0 || v >= nFeat {
+				panic("lassolarspathfrombytes: Unknown feature in the stored path")
+			}
+		}
+	}
 	return &lassoPath
 }
 
-- 
2.43.0


From 271d1b8ace153eb33622e32e0b18454b1d082d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:55 +0000
Subject: [PATCH 31/42] fix: plots used a line before checking that it could be
 made

---
 featselect/lassoPlot.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/featselect/lassoPlot.go b/featselect/lassoPlot.go
index caba0d4..784e84d 100644
--- a/featselect/lassoPlot.go
+++ b/featselect/lassoPlot.go
@@ -125,11 +125,11 @@ func (p *LassoLarsPath) PlotEntranceTimes() *plot.Plot {
 	}
 
 	l, err := plotter.NewLine(filteredFirstEntrance)
-	l.Color = color.RGBA{R: 85, G: 122, B: 149, A: 255}
-	l.Width = vg.Points(2)
 	if err != nil {
 		panic(err)
 	}
+	l.Color = color.RGBA{R: 85, G: 122, B: 149, A: 255}
+	l.Width = vg.Points(2)
 
 	plt.Add(s, l)
 	plt.X.Label.Text = "Feat. No."
@@ -196,10 +196,10 @@ func (p *LassoLarsPath) PlotDeviations() *plot.Plot {
 	}
 
 	l, err := plotter.NewLine(rmseVals)
-	l.Color = color.RGBA{R: 109, B: 108, G: 81, A: 255}
 	if err != nil {
 		panic(err)
 	}
+	l.Color = color.RGBA{R: 109, B: 108, G: 81, A: 255}
 
 	plt.Add(l)
 	plt.X.Label.Text = "Regularization"
-- 
2.43.0


From 5cc52ff01ea4e7bcd8a758256a9019c1707cdf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:02 +0000
Subject: [PATCH 32/42] fix: table cells with blanks or without a number were
 loaded as zero

---
 featselect/csvIO.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/featselect/csvIO.go b/featselect/csvIO.go
index b56c1b9..127a47e 100644
--- a/featselect/csvIO.go
+++ b/featselect/csvIO.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"os"
 	"strconv"
+	"strings"
 
 	"gonum.org/v1/gonum/floats"
 
@@ -138,9 +139,11 @@ func ParseCSV(handle io.Reader, targetCol int) *Dataset {
 		} else {
 			row := make([]float64, len(line))
 			for i, v := range line {
-				if fl, err := strconv.ParseFloat(v, 64); err == nil {
-					row[i] = fl
+				fl, err := strconv.ParseFloat(strings.TrimSpace(v), 64)
+				if err != nil {
+					panic(err)
 				}
+				row[i] = fl
 			}
 			data = append(data, row)
 		}
-- 
2.43.0


From 508547fdf0d10518edf0b03157e757038fbcb0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:10 +0000
Subject: [PATCH 33/42] fix: saving a data set hid all write errors

---
 featselect/csvIO.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/featselect/csvIO.go b/featselect/csvIO.go
index 127a47e..cfdf1c4 100644
--- a/featselect/csvIO.go
+++ b/featselect/csvIO.go
@@ -173,17 +173,20 @@ func ParseCSV(handle io.Reader, targetCol int) *Dataset {
 }
 
 // Save dataset to a csv file
-func (dset *Dataset) Save(fname string) {
+func (dset *Dataset) Save(fname string) error {
 	csvFile, err := os.Create(fname)
 	if err != nil {
-		return
+		return err
 	}
-	defer csvFile.Close()
-	dset.SaveHandle(csvFile)
+	if err := dset.SaveHandle(csvFile); err != nil {
+		csvFile.Close()
+		return err
+	}
+	return csvFile.Close()
 }
 
 // SaveHandle writes the output to a writer
-func (dset *Dataset) SaveHandle(handle io.Writer) {
+func (dset *Dataset) SaveHandle(handle io.Writer) error {
 	writer := csv.NewWriter(bufio.NewWriter(handle))
 	nrows, ncols := dset.X.Dims()
 	values := make([]string, ncols+1)
@@ -203,6 +206,7 @@ func (dset *Dataset) SaveHandle(handle io.Writer) {
 		writer.Write(values)
 	}
 	writer.Flush()
+	return writer.Error()
 }
 
 // JSONDataset is a type defined to be able to read/write dataset in a simple way from JSON files
-- 
2.43.0


From d4a1e651a4cccdb2181b581de7cbbb731b536936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:46 +0000
Subject: [PATCH 34/42] fix: goselect-plotlasso used its axis range options
 before they were parsed

---
 cmdDepreciated/goselect-plotlasso/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdDepreciated/goselect-plotlasso/main.go b/cmdDepreciated/goselect-plotlasso/main.go
index d247c65..c95acee 100644
--- a/cmdDepreciated/goselect-plotlasso/main.go
+++ b/cmdDepreciated/goselect-plotlasso/main.go
@@ -40,6 +40,7 @@ func main() {
 	lassoPathType := flag.String("ext", "png", "File extension. Support all from gonum plot")
 	lassoPathCoeffMin := flag.Float64("coeffmin", 0.0, "Minumum coefficient value in plot")
 	lassoPathCoeffMax := flag.Float64("coeffmax", 0.0, "Maximum coefficient value in plot. If equal to the minimum value, the range is autoscaled")
+	flag.Parse()
 
 	coeffMin := *lassoPathCoeffMin
 	coeffMax := *lassoPathCoeffMax
@@ -53,6 +54,5 @@ func main() {
 		coeffRngPtr = nil
 	}
 
-	flag.Parse()
 	analyseLasso(*lassoPathJSON, *lassoPathOutPrefix, *lassoPathType, coeffRngPtr)
 }
-- 
2.43.0


From 4ed76e47a3db016ad82b75766467061e7248a08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:52 +0000
Subject: [PATCH 35/42] fix: goselect-plotlasso announced figures that could
 not be saved

---
 cmdDepreciated/goselect-plotlasso/main.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/cmdDepreciated/goselect-plotlasso/main.go b/cmdDepreciated/goselect-plotlasso/main.go
index c95acee..8fdc071 100644
--- a/cmdDepreciated/goselect-plotlasso/main.go
+++ b/cmdDepreciated/goselect-plotlasso/main.go
@@ -3,6 +3,7 @@ package main
 import (
 	"flag"
 	"fmt"
+	"log"
 	"math"
 
 	"github.com/davidkleiven/goselect/featselect"
@@ -15,22 +16,30 @@ func analyseLasso(jsonfile string, prefix string, ext string, coeffRng *featsele
 	fname := prefix + "_entrance." + ext
 	w := 4 * vg.Inch
 	h := 4 * vg.Inch
-	entrance.Save(w, h, fname)
+	if err := entrance.Save(w, h, fname); err != nil {
+		log.Fatal(err)
+	}
 	fmt.Printf("Entrance times written to %s\n", fname)
 
 	quality := path.PlotQualityScores()
 	fname = prefix + "_quality." + ext
-	quality.Save(w, h, fname)
+	if err := quality.Save(w, h, fname); err != nil {
+		log.Fatal(err)
+	}
 	fmt.Printf("Quality score written to %s\n", fname)
 
 	dev := path.PlotDeviations()
 	fname = prefix + "_dev." + ext
-	dev.Save(w, h, fname)
+	if err := dev.Save(w, h, fname); err != nil {
+		log.Fatal(err)
+	}
 	fmt.Printf("Dev. score written to %s\n", fname)
 
 	coeff := path.PlotPath(coeffRng)
 	fname = prefix + "_path." + ext
-	coeff.Save(w, h, fname)
+	if err := coeff.Save(w, h, fname); err != nil {
+		log.Fatal(err)
+	}
 	fmt.Printf("LASSO-LARS path written to %s\n", fname)
 }
 
-- 
2.43.0


From 0547cc128187d6f0d0fd5c54fef16dd7c5d1c423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:57 +0000
Subject: [PATCH 36/42] fix: bnb overwrote its result with nothing when
 encoding failed and hid write errors

---
 cmd/bnb.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/cmd/bnb.go b/cmd/bnb.go
index 74bd5d9..8274a55 100644
--- a/cmd/bnb.go
+++ b/cmd/bnb.go
@@ -20,7 +20,6 @@ import (
 	"fmt"
 	"io/ioutil"
 	"log"
-	"os"
 	"sync"
 	"time"
 
@@ -63,12 +62,12 @@ func init() {
 	bnbCmd.Flags().Int("maxqueue", 10000000, "Maximum size of the queue. If this limit is reached, subtrees will be removed. If you run out of memory, this number should be lowered.")
 }
 
-func saveHighscoreList(fname string, h *featselect.Highscore) {
-	file, _ := os.Open(fname)
-	defer file.Close()
-
-	highscoreJSON, _ := json.Marshal(h)
-	ioutil.WriteFile(fname, highscoreJSON, 0644)
+func saveHighscoreList(fname string, h *featselect.Highscore) error {
+	highscoreJSON, err := json.Marshal(h)
+	if err != nil {
+		return err
+	}
+	return ioutil.WriteFile(fname, highscoreJSON, 0644)
 }
 
 func setSearchFinished(finished chan int) {
@@ -114,12 +113,16 @@ timeloop:
 		case <-c:
 			score, numChecked, log2Pruned := progress.Get()
 			fmt.Printf("%v: Score: %f, Num. checked: %d, Log2 pruned: %f\n", time.Now().Format(time.RFC3339), score, numChecked, log2Pruned)
-			saveHighscoreList(outfile, highscore)
+			if err := saveHighscoreList(outfile, highscore); err != nil {
+				log.Printf("Could not save the highscore list: %v\n", err)
+			}
 		case <-searchFinished:
 			break timeloop
 		}
 	}
-	saveHighscoreList(outfile, highscore)
+	if err := saveHighscoreList(outfile, highscore); err != nil {
+		log.Fatalf("Could not save the highscore list: %v\n", err)
+	}
 	wg.Wait()
 	fmt.Printf("Selection finished\n")
 }
-- 
2.43.0


From 489815f0a2dc312aab80eb265eb28783d1c26c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:02 +0000
Subject: [PATCH 37/42] fix: lasso announced results that could not be written

---
 cmd/lasso.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/cmd/lasso.go b/cmd/lasso.go
index d4eabc1..344a38e 100644
--- a/cmd/lasso.go
+++ b/cmd/lasso.go
@@ -19,7 +19,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io/ioutil"
-	"os"
+	"log"
 
 	"github.com/davidkleiven/goselect/featselect"
 	"github.com/spf13/cobra"
@@ -111,13 +111,11 @@ func lassoFit(csvfile string, targetCol int, out string, lambMin float64, lambMa
 	js, err := json.Marshal(path)
 
 	if err != nil {
-		fmt.Printf("Error: %s", err)
-		return
+		log.Fatalf("Error: %s", err)
 	}
 
-	file, _ := os.Create(out)
-	defer file.Close()
-
-	ioutil.WriteFile(out, js, 0644)
+	if err := ioutil.WriteFile(out, js, 0644); err != nil {
+		log.Fatalf("Error: %s", err)
+	}
 	fmt.Printf("LASSO-LARS results written to %s\n", out)
 }
-- 
2.43.0


From 09a53660d0970994b75240fbebacfc6c5ed0bae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:08 +0000
Subject: [PATCH 38/42] fix: sasearch announced results that could not be
 encoded or written

---
 cmd/sasearch.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cmd/sasearch.go b/cmd/sasearch.go
index dd2549e..22d2137 100644
--- a/cmd/sasearch.go
+++ b/cmd/sasearch.go
@@ -21,7 +21,6 @@ import (
 	"io/ioutil"
 	"log"
 	"math/rand"
-	"os"
 	"time"
 
 	"github.com/davidkleiven/goselect/featselect"
@@ -66,11 +65,13 @@ func saSearch(csvfile string, targetCol int, out string, sweeps int) {
 	rand.Seed(time.Now().UTC().UnixNano())
 	dset := featselect.ReadCSV(csvfile, targetCol)
 	res := featselect.SelectModelSA(dset.X, dset.Y, sweeps, featselect.Aicc)
-	file, _ := os.Open(out)
-	defer file.Close()
-
-	highscoreJSON, _ := json.Marshal(res.Scores)
-	ioutil.WriteFile(out, highscoreJSON, 0644)
+	highscoreJSON, err := json.Marshal(res.Scores)
+	if err != nil {
+		log.Fatalf("Error: %s", err)
+	}
+	if err := ioutil.WriteFile(out, highscoreJSON, 0644); err != nil {
+		log.Fatalf("Error: %s", err)
+	}
 
 	fmt.Printf("SA highscore list written to %s", out)
 }
-- 
2.43.0


From 82687e3e625564d9c0e87ec0c551872321ce0479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:14 +0000
Subject: [PATCH 39/42] fix: goselect-nestedlasso announced results that could
 not be written

---
 cmdDepreciated/goselect-nestedlasso/main.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmdDepreciated/goselect-nestedlasso/main.go b/cmdDepreciated/goselect-nestedlasso/main.go
index 46df44b..2254f78 100644
--- a/cmdDepreciated/goselect-nestedlasso/main.go
+++ b/cmdDepreciated/goselect-nestedlasso/main.go
@@ -5,6 +5,7 @@ import (
 	"flag"
 	"fmt"
 	"io/ioutil"
+	"log"
 
 	"github.com/davidkleiven/goselect/featselect"
 )
@@ -16,11 +17,12 @@ func nestedLasso(csvfile string, targetCol int, out string, lambMin float64, kee
 	js, err := json.Marshal(res)
 
 	if err != nil {
-		fmt.Printf("Error %s", err)
-		return
+		log.Fatalf("Error %s", err)
 	}
 
-	ioutil.WriteFile(out, js, 0644)
+	if err := ioutil.WriteFile(out, js, 0644); err != nil {
+		log.Fatalf("Error %s", err)
+	}
 	fmt.Printf("Nested LASSO-LARS results written to %s\n", out)
 }
 
-- 
2.43.0


From c08dd6e1e2d825381b7c5c5f2d755419bed6d509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:19 +0000
Subject: [PATCH 40/42] fix: tools crashed when the data file could not be
 opened

---
 cmd/bnb.go                                  | 3 +++
 cmd/lasso.go                                | 3 +++
 cmd/sasearch.go                             | 3 +++
 cmdDepreciated/goselect-cohenlasso/main.go  | 4 ++++
 cmdDepreciated/goselect-nestedlasso/main.go | 3 +++
 5 files changed, 16 insertions(+)

diff --git a/cmd/bnb.go b/cmd/bnb.go
index 8274a55..4886a5b 100644
--- a/cmd/bnb.go
+++ b/cmd/bnb.go
@@ -76,6 +76,9 @@ func setSearchFinished(finished chan int) {
 
 func findOptimalSolution(csvfile string, targetCol int, cutoff float64, outfile string, maxQueueSize int) {
 	dset := featselect.ReadCSV(csvfile, targetCol)
+	if dset == nil {
+		log.Fatalf("No data read from %s\n", csvfile)
+	}
 	params := featselect.NewSelectModelOptParams()
 	params.Cutoff = cutoff
 	params.MaxQueueSize = maxQueueSize
diff --git a/cmd/lasso.go b/cmd/lasso.go
index 344a38e..3138c54 100644
--- a/cmd/lasso.go
+++ b/cmd/lasso.go
@@ -68,6 +68,9 @@ func init() {
 
 func lassoFit(csvfile string, targetCol int, out string, lambMin float64, lambMax float64, num int, lassoType string, covType string, tol float64) {
 	dset := featselect.ReadCSV(csvfile, targetCol)
+	if dset == nil {
+		log.Fatalf("No data read from %s\n", csvfile)
+	}
 	y := make([]float64, len(dset.Y))
 	copy(y, dset.Y)
 	normDset := featselect.NewNormalizedData(mat.DenseCopyOf(dset.X), y)
diff --git a/cmd/sasearch.go b/cmd/sasearch.go
index 22d2137..3c81df0 100644
--- a/cmd/sasearch.go
+++ b/cmd/sasearch.go
@@ -64,6 +64,9 @@ func init() {
 func saSearch(csvfile string, targetCol int, out string, sweeps int) {
 	rand.Seed(time.Now().UTC().UnixNano())
 	dset := featselect.ReadCSV(csvfile, targetCol)
+	if dset == nil {
+		log.Fatalf("No data read from %s\n", csvfile)
+	}
 	res := featselect.SelectModelSA(dset.X, dset.Y, sweeps, featselect.Aicc)
 	highscoreJSON, err := json.Marshal(res.Scores)
 	if err != nil {
diff --git a/cmdDepreciated/goselect-cohenlasso/main.go b/cmdDepreciated/goselect-cohenlasso/main.go
index 599e04a..d701bcf 100644
--- a/cmdDepreciated/goselect-cohenlasso/main.go
+++ b/cmdDepreciated/goselect-cohenlasso/main.go
@@ -2,12 +2,16 @@ package main
 
 import (
 	"flag"
+	"log"
 
 	"github.com/davidkleiven/goselect/featselect"
 )
 
 func cohensKappaPureLasso(csvfile string, lambMin float64, lambMax float64, numLamb int, target int, numSamples int, tol float64) {
 	dset := featselect.ReadCSV(csvfile, target)
+	if dset == nil {
+		log.Fatalf("No data read from %s\n", csvfile)
+	}
 	normDset := featselect.NewNormalizedData(dset.X, dset.Y)
 
 	targets := make([]featselect.CohensKappaTarget, numLamb)
diff --git a/cmdDepreciated/goselect-nestedlasso/main.go b/cmdDepreciated/goselect-nestedlasso/main.go
index 2254f78..444f290 100644
--- a/cmdDepreciated/goselect-nestedlasso/main.go
+++ b/cmdDepreciated/goselect-nestedlasso/main.go
@@ -12,6 +12,9 @@ import (
 
 func nestedLasso(csvfile string, targetCol int, out string, lambMin float64, keep float64) {
 	dset := featselect.ReadCSV(csvfile, targetCol)
+	if dset == nil {
+		log.Fatalf("No data read from %s\n", csvfile)
+	}
 	var estimator featselect.MorsePenroseCD
 	res := featselect.NestedLasso(dset, lambMin, keep, &estimator)
 	js, err := json.Marshal(res)
-- 
2.43.0


From 9bfd452700b37bf99744da176ea6a45fd829ab2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:25 +0000
Subject: [PATCH 41/42] fix: lasso wrote an empty result for an unknown type
 and ended successfully for an unknown covariance

---
 cmd/lasso.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/lasso.go b/cmd/lasso.go
index 3138c54..e62b77b 100644
--- a/cmd/lasso.go
+++ b/cmd/lasso.go
@@ -91,11 +91,12 @@ func lassoFit(csvfile string, targetCol int, out string, lambMin float64, lambMa
 		} else if covType == "threshold" {
 			cov = featselect.NewSparseThreshold(normDset.X)
 		} else {
-			fmt.Printf("Unknown covariance type %s\n", covType)
-			return
+			log.Fatalf("Unknown covariance type %s\n", covType)
 		}
 		lambs := featselect.Logspace(lambMin, lambMax, num)
 		larspath = featselect.LassoCrdDescPath(normDset, cov, lambs, 100000, tol, &corr)
+	} else {
+		log.Fatalf("Unknown lasso type %s\n", lassoType)
 	}
 
 	featselect.Path2Unnormalized(normDset, larspath)
-- 
2.43.0


From 0ae7126ef25da81dc768de74caa89ccce5b0e469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:32 +0000
Subject: [PATCH 42/42] fix: a constant array is normalised to zero instead of
 NaN

---
 featselect/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/featselect/util.go b/featselect/util.go
index 84a758f..bf40c92 100644
--- a/featselect/util.go
+++ b/featselect/util.go
@@ -147,6 +147,10 @@ func Std(v []float64) float64 {
 func NormalizeArray(v []float64) {
 	mu := Mean(v)
 	std := Std(v)
+	if std < 1e-10 {
+		// Constant array
+		std = 1.0
+	}
 
 	for i := 0; i < len(v); i++ {
 		v[i] = (v[i] - mu) / std
-- 
2.43.0

