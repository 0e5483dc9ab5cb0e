From a059efe1685c1324cfa7283d635f36d3608ed6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:11 +0000
Subject: [PATCH 01/50] fix: keep the split threshold between the two values it
 separates

The midpoint of two adjacent floats can round to the larger one, and the sum of two large values overflows. In both cases samples went to the wrong child, leaving fewer samples than MinChildWeight, or none, in the other one, which made NewTree panic.
---
 tree.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index a3300b7..76c5825 100644
--- a/tree.go
+++ b/tree.go
@@ -247,11 +247,25 @@ func (T *Tree) findBetterSplit(featureIndex int, o *TreeOptions) {
 		if criterion() {
 			T.splitFeatureIndex = featureIndex
 			T.bestScoreSoFar = gain
-			T.threshold = (xi + xinext) / 2
+			T.threshold = midpoint(xi, xinext)
 		}
 	}
 }
 
+// Returns the point halfway between a and b, for finite a<b. The result is never smaller than a and
+// always smaller than b, even if a+b overflows, or if there is no float between a and b, so it
+// can always be used as a threshold to separate a and b.
+func midpoint(a, b float64) float64 {
+	mid := (a + b) / 2
+	if math.IsInf(mid, 0) {
+		mid = a/2 + b/2
+	}
+	if mid < a || mid >= b {
+		return a
+	}
+	return mid
+}
+
 // Returns the number of branches in the tree
 func (T *Tree) Branches() int {
 	return T.branches
-- 
2.43.0


From 78b8ba6917f722d2976e98ea83c1c91f512ca6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:11 +0000
Subject: [PATCH 02/50] fix: apply column subsampling to the whole tree, not
 only to its root

---
 tree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tree.go b/tree.go
index 76c5825..bb93a59 100644
--- a/tree.go
+++ b/tree.go
@@ -77,6 +77,7 @@ func (T *TreeOptions) clone() *TreeOptions {
 	ret.Hessian = T.Hessian
 	ret.Y = T.Y
 	ret.MinChildWeight = T.MinChildWeight
+	ret.AllowedColumns = T.AllowedColumns
 	ret.Lambda = T.Lambda
 	ret.Gamma = T.Gamma
 	ret.ColSampleByNode = T.ColSampleByNode
-- 
2.43.0


From 67f977a35bba439a0ea6bcda17035d3d8e8d4c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:28 +0000
Subject: [PATCH 03/50] fix: no NaN or infinite leaf values when the hessian of
 a leaf vanishes

Once a sample's probability is exactly 0 or 1 its hessian p*(1-p) is 0, and a leaf holding only such samples got 0/0 or x/0 as value, which turned every later prediction into NaN and made the model impossible to save.
---
 xgb.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xgb.go b/xgb.go
index 2699b8d..d753688 100644
--- a/xgb.go
+++ b/xgb.go
@@ -195,6 +195,10 @@ func SubSample(totdata int, subsample float64) []int {
 	return ret
 }
 
+// If the sum of the hessians in a leaf is not larger than this, the probabilities for all samples
+// in the leaf are saturated, and the leaf doesn't contribute to the predictions.
+const minHessian = 1e-150
+
 func updateLeaves(tree *Tree, gradient, hessian *mat.Dense) {
 	fn := func(leaf *Tree) {
 		if leaf.samples == nil {
@@ -205,7 +209,10 @@ func updateLeaves(tree *Tree, gradient, hessian *mat.Dense) {
 			sumhess += hessian.At(0, w)
 			sumgrad += gradient.At(0, w)
 		}
-		nval := sumgrad / sumhess
+		nval := 0.0
+		if sumhess > minHessian {
+			nval = sumgrad / sumhess
+		}
 		leaf.value = nval
 	}
 	applyToLeafs(tree, fn)
-- 
2.43.0


From da1eba09537e4a082127e96a6ba9d13a9bdc5c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:29 +0000
Subject: [PATCH 04/50] fix: train on all samples when no row subsampling is
 requested

With SubSample=1 no sample indexes are drawn, and the MinSample test discarded every round, so the ensemble was empty.
---
 xgb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xgb.go b/xgb.go
index d753688..528d31d 100644
--- a/xgb.go
+++ b/xgb.go
@@ -55,7 +55,7 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 		if O.ColSubSample < 1 && O.XGB {
 			sampleCols = SubSample(len(D.Data[0]), O.ColSubSample)
 		}
-		if len(sampleIndexes) < O.MinSample {
+		if sampleIndexes != nil && len(sampleIndexes) < O.MinSample {
 			continue
 		}
 		classes := make([]*Tree, 0, 1)
-- 
2.43.0


From 3ccd7cb6c32ca273b59959fc45ab3188ecd67611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:29 +0000
Subject: [PATCH 05/50] fix: don't modify the options given for training

The options were changed if MinChildWeight was smaller than 1, also a data race when several trainings share them.
---
 xgb.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/xgb.go b/xgb.go
index 528d31d..e68332f 100644
--- a/xgb.go
+++ b/xgb.go
@@ -33,9 +33,7 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 	utils.ToOnes(rawPred)
 	rawPred.Scale(O.BaseScore, rawPred)
 	//just to be safe
-	if O.MinChildWeight < 1 {
-		O.MinChildWeight = 1
-	}
+	minChildWeight := max(O.MinChildWeight, 1)
 	tin := make([]int, len(D.Data))
 	tval := make([]float64, len(D.Data))
 	probs := utils.SoftMaxDense(rawPred, nil)
@@ -70,7 +68,7 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 			hess = O.Loss.Hessian(kthprobs, nil) //keep an eye on this.
 			if O.XGB {
 				tOpts = DefaultXTreeOptions()
-				tOpts.MinChildWeight = O.MinChildWeight
+				tOpts.MinChildWeight = minChildWeight
 				tOpts.MaxDepth = O.MaxDepth
 				grads = O.Loss.Gradients(kthlabelvector, kthprobs, grads)
 				tOpts.Lambda = O.Lambda
@@ -87,7 +85,7 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 				tOpts = DefaultGTreeOptions()
 				tOpts.in = tin
 				tOpts.val = tval
-				tOpts.MinChildWeight = O.MinChildWeight
+				tOpts.MinChildWeight = minChildWeight
 				tOpts.MaxDepth = O.MaxDepth
 				grads = O.Loss.NegGradients(kthlabelvector, kthprobs, grads)
 				tOpts.Y = grads.RawRowView(0)
-- 
2.43.0


From 330e172b11927889bec40f813216bd42843b0695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:30 +0000
Subject: [PATCH 06/50] fix: softmax of large scores

exp overflows for scores over 709, which gave NaN probabilities, and underflows to an all-zero denominator for scores under -745.
---
 utils/loss_acti.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/loss_acti.go b/utils/loss_acti.go
index d00d50f..ccc624d 100644
--- a/utils/loss_acti.go
+++ b/utils/loss_acti.go
@@ -37,8 +37,12 @@ func SoftMax(p, probs []float64) []float64 {
 	if probs == nil {
 		probs = make([]float64, len(p))
 	}
+	largest := math.Inf(-1)
+	for _, v := range p {
+		largest = math.Max(largest, v)
+	}
 	for i, v := range p {
-		probs[i] = math.Exp(v)
+		probs[i] = math.Exp(v - largest) //the same as without largest, but can't overflow
 	}
 	den := floats.Sum(probs)
 	for i := range p {
-- 
2.43.0


From 06f392e41bbbde3bdfd59613563e0efff88438aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:58 +0000
Subject: [PATCH 07/50] fix: skip boosting rounds for which no sample was drawn

With MinSample=0 an empty row subsample made the tree construction panic.
---
 xgb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xgb.go b/xgb.go
index e68332f..0ce3dd1 100644
--- a/xgb.go
+++ b/xgb.go
@@ -53,7 +53,7 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 		if O.ColSubSample < 1 && O.XGB {
 			sampleCols = SubSample(len(D.Data[0]), O.ColSubSample)
 		}
-		if sampleIndexes != nil && len(sampleIndexes) < O.MinSample {
+		if sampleIndexes != nil && len(sampleIndexes) < max(O.MinSample, 1) {
 			continue
 		}
 		classes := make([]*Tree, 0, 1)
-- 
2.43.0


From 6c241e7fd05a4defbd9606fb9ae478f6dffda62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:59 +0000
Subject: [PATCH 08/50] fix: keep trees assigned to their class after another
 class stops early

A round only holds trees for the classes that have not been stopped, so after a class stopped, the trees of all following classes were added to the scores of the wrong class when predicting. A stopped class now gets a tree that contributes nothing.
---
 tree.go | 9 +++++++++
 xgb.go  | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/tree.go b/tree.go
index bb93a59..0d71b7d 100644
--- a/tree.go
+++ b/tree.go
@@ -136,6 +136,15 @@ func NewTree(X [][]float64, o *TreeOptions) *Tree {
 	return ret
 }
 
+// Returns a tree with no samples which predicts 0 for every data vector.
+func nullTree(xgb bool) *Tree {
+	ret := &Tree{xgb: xgb, branches: 1}
+	if !xgb {
+		ret.bestScoreSoFar = math.Inf(1)
+	}
+	return ret
+}
+
 func (T *Tree) maybeInsertChildNode(o *TreeOptions) {
 	for i := 0; i < T.features; i++ {
 		if len(o.AllowedColumns) != 0 && !slices.Contains(o.AllowedColumns, i) {
diff --git a/xgb.go b/xgb.go
index 0ce3dd1..6e71e3d 100644
--- a/xgb.go
+++ b/xgb.go
@@ -10,6 +10,7 @@ import (
 	"log"
 	"math"
 	"math/rand/v2"
+	"slices"
 
 	"github.com/rmera/boo/utils"
 	"gonum.org/v1/gonum/floats"
@@ -46,6 +47,9 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 	prevloss := make([]float64, len(differentlabels))
 
 	for round := 0; round < O.Rounds; round++ {
+		if !slices.Contains(stopped, false) {
+			break
+		}
 		var sampleIndexes, sampleCols []int
 		if O.SubSample < 1 && O.XGB {
 			sampleIndexes = SubSample(len(D.Data), O.SubSample)
@@ -59,6 +63,7 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 		classes := make([]*Tree, 0, 1)
 		for k := 0; k < nlabels; k++ {
 			if stopped[k] {
+				classes = append(classes, nullTree(O.XGB)) //so the i-th tree always belongs to the i-th class
 				continue
 			}
 			var tOpts *TreeOptions
-- 
2.43.0


From 3dbffe754da6b230e1f6c06f887ee182c52554c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:59 +0000
Subject: [PATCH 09/50] fix: early stopping counts from the first tree of each
 class, even if round 0 was skipped

---
 xgb.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xgb.go b/xgb.go
index 6e71e3d..ac62335 100644
--- a/xgb.go
+++ b/xgb.go
@@ -45,6 +45,9 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 	stopped := make([]bool, len(differentlabels))
 	roundsNoProgress := make([]int, len(differentlabels))
 	prevloss := make([]float64, len(differentlabels))
+	for i := range prevloss {
+		prevloss[i] = math.Inf(1) //no loss yet
+	}
 
 	for round := 0; round < O.Rounds; round++ {
 		if !slices.Contains(stopped, false) {
-- 
2.43.0


From 5dff33bb368e60df41e9532454d65cf65bce7cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:00 +0000
Subject: [PATCH 10/50] fix: Classes and Rounds mixed up classes and rounds

The ensemble is indexed first by round and then by class. Classes returned the number of rounds, and Rounds the number of classes.
---
 multiclass.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/multiclass.go b/multiclass.go
index 83f7350..b02ce9a 100644
--- a/multiclass.go
+++ b/multiclass.go
@@ -57,18 +57,24 @@ func (M *MultiClass) Rounds(class ...int) int {
 		c = class[0]
 	}
 	//	println(len(M.b), c) /////////////////////////
-	if M.Classes() < c || len(M.b) <= c {
+	if M.Classes() <= c {
 		//println(len(M.b), c, M.Classes(), "v2") /////////////////////////
 
 		return -1
 	}
-	return len(M.b[c])
+	rounds := 0
+	for _, ensemble := range M.b {
+		if c < len(ensemble) && ensemble[c].nsamples > 0 { //trees without samples just fill the place of early-stopped classes
+			rounds++
+		}
+	}
+	return rounds
 }
 
 // Returns the number of classes, i.e. the number of categories to which
 // each data vector could belong.
 func (M *MultiClass) Classes() int {
-	return len(M.b)
+	return len(M.classLabels)
 }
 
 // Predicts the class to which a single sample belongs. You can give a slice of floats
-- 
2.43.0


From 40772539e226c7f02eab1ca4c36b14ae38aab569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:00 +0000
Subject: [PATCH 11/50] fix: fill the slice given for the predictions, and
 predict with an ensemble without trees

The number of probabilities was taken from the first round, which panics if there isn't any. The slice given by the caller was ignored. Accuracy kept its temporary slice in the model, a data race if the model is used concurrently.
---
 multiclass.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/multiclass.go b/multiclass.go
index b02ce9a..8a043b0 100644
--- a/multiclass.go
+++ b/multiclass.go
@@ -18,7 +18,6 @@ type MultiClass struct {
 	classLabels   []int
 	probTransform func(*mat.Dense, *mat.Dense) *mat.Dense
 	tmp           []float64
-	predtmp       []float64
 	baseScore     float64
 	xgb           bool
 }
@@ -35,11 +34,12 @@ func (M *MultiClass) Accuracy(D *utils.DataBunch, classes ...int) float64 {
 	right := 0
 	instances := D.Data
 	actualclasses := D.Labels
-	if len(classes) > 0 && classes[0] > 0 && len(M.predtmp) < classes[0] {
-		M.predtmp = make([]float64, classes[0])
+	var predtmp []float64
+	if len(classes) > 0 && classes[0] > 0 {
+		predtmp = make([]float64, classes[0])
 	}
 	for i, v := range instances {
-		p := M.PredictSingleClass(v, M.predtmp)
+		p := M.PredictSingleClass(v, predtmp)
 		if M.classLabels[p] == actualclasses[i] {
 			right++
 		}
@@ -96,8 +96,12 @@ func (M *MultiClass) PredictSingleClass(instance []float64, predictions ...[]flo
 // a slice to be filled with the predictions in order to avoid allocation.
 func (M *MultiClass) PredictSingle(instance []float64, predictions ...[]float64) []float64 {
 	var preds []float64
-	preds = make([]float64, len(M.b[0]))
-	tmp := make([]float64, len(M.b[0]))
+	if len(predictions) > 0 && len(predictions[0]) >= M.Classes() {
+		preds = predictions[0][:M.Classes()]
+	} else {
+		preds = make([]float64, M.Classes())
+	}
+	tmp := make([]float64, M.Classes())
 	for i := range tmp {
 		tmp[i] = M.baseScore
 	}
-- 
2.43.0


From 9014f4229e45d22c7fff85e013003d5ef62620f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:18 +0000
Subject: [PATCH 12/50] fix: read the last boosting round of a saved model

Rounds were only stored when the header of the following one was found, so the last one was lost.
---
 xjson.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xjson.go b/xjson.go
index 7ff1d2d..6bdb2ef 100644
--- a/xjson.go
+++ b/xjson.go
@@ -89,6 +89,9 @@ func UnJSONMultiClass(r *bufio.Reader) (*MultiClass, error) {
 		return nil, fmt.Errorf("Error reading of trees lines from file: %v", err)
 
 	}
+	if class != nil {
+		trees = append(trees, class)
+	}
 	ret.b = trees
 	return ret, nil
 }
-- 
2.43.0


From 53ee14e678760ec11643fb435ac73ecf436f2762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:19 +0000
Subject: [PATCH 13/50] fix: reject saved models with an unknown activation
 function or missing trees

The former panicked when used for a prediction, the latter, for instance a truncated file, silently gave a different model.
---
 xjson.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xjson.go b/xjson.go
index 6bdb2ef..ff015a9 100644
--- a/xjson.go
+++ b/xjson.go
@@ -48,6 +48,9 @@ func UnJSONMultiClass(r *bufio.Reader) (*MultiClass, error) {
 	ret.learningRate = jmc.LearningRate
 	ret.classLabels = jmc.ClassLabels
 	ret.probTransform = ProbTransformMap[jmc.ProbTransformName]
+	if ret.probTransform == nil {
+		return nil, fmt.Errorf("Unknown activation function: %s", jmc.ProbTransformName)
+	}
 	ret.baseScore = jmc.BaseScore
 	//I'm not sure this will work!
 	//	s, err = r.ReadString('\n')
@@ -92,6 +95,11 @@ func UnJSONMultiClass(r *bufio.Reader) (*MultiClass, error) {
 	if class != nil {
 		trees = append(trees, class)
 	}
+	for i, v := range trees {
+		if len(v) != len(ret.classLabels) {
+			return nil, fmt.Errorf("Round %d has %d trees, expected %d (one per class)", i, len(v), len(ret.classLabels))
+		}
+	}
 	ret.b = trees
 	return ret, nil
 }
-- 
2.43.0


From ccb3ae9458d7f2af4cf02ac7e5466185c06c3321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:19 +0000
Subject: [PATCH 14/50] fix: recover the kind of boosting when reading a saved
 model

It was lost, so the features of xgboost models were ranked backwards after reading them.
---
 xjson.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xjson.go b/xjson.go
index ff015a9..482b9a9 100644
--- a/xjson.go
+++ b/xjson.go
@@ -85,6 +85,7 @@ func UnJSONMultiClass(r *bufio.Reader) (*MultiClass, error) {
 			return nil, fmt.Errorf("Error reading tree %d round %d, class %d: %v", cont, nround, nclass, err)
 		}
 		class = append(class, jtree.(*Tree))
+		ret.xgb = jtree.(*Tree).xgb
 		nclass++
 		cont++
 	}
-- 
2.43.0


From ad57f73ed425280b41941d888bdb22c990ff12d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:20 +0000
Subject: [PATCH 15/50] fix: make Feats.Add concurrency-safe, as documented

The features were searched, and the index found was used, without holding the lock.
---
 tree.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tree.go b/tree.go
index 0d71b7d..6c1bae2 100644
--- a/tree.go
+++ b/tree.go
@@ -375,17 +375,15 @@ func NewFeats(xgboost bool) *Feats {
 // Adds a feature,gain pair to the f set. This operation
 // is concurrency-safe.
 func (f *Feats) Add(feature int, gain float64) {
+	f.m.Lock()
+	defer f.m.Unlock()
 	index := slices.Index(f.feat, feature)
 	if index >= 0 {
-		f.m.Lock()
 		f.gains[index] += gain
-		f.m.Unlock()
 		return
 	}
-	f.m.Lock()
 	f.feat = append(f.feat, feature)
 	f.gains = append(f.gains, gain)
-	f.m.Unlock()
 	return
 }
 
-- 
2.43.0


From 9dbb8c9368ff7fb8679f855eeee3eb1790fb12cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:20 +0000
Subject: [PATCH 16/50] fix: Clone and Equal ignored some of the options

Clone lost EarlyStop and TreeMethod. Equal ignored EarlyStop and was false for any options whose TreeMethod is not "exact", such as the defaults for regular gradient boosting, even when compared to themselves.
---
 options.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/options.go b/options.go
index 73c376a..ef820d2 100644
--- a/options.go
+++ b/options.go
@@ -80,7 +80,10 @@ func (o *Options) Equal(O *Options) bool {
 	if O.BaseScore != o.BaseScore {
 		return false
 	}
-	if O.TreeMethod != "exact" {
+	if O.TreeMethod != o.TreeMethod {
+		return false
+	}
+	if O.EarlyStop != o.EarlyStop {
 		return false
 	}
 	if O.Loss != o.Loss {
@@ -107,7 +110,8 @@ func (o *Options) Clone() *Options {
 	O.MaxDepth = o.MaxDepth
 	O.LearningRate = o.LearningRate
 	O.BaseScore = o.BaseScore
-	O.TreeMethod = "exact"
+	O.TreeMethod = o.TreeMethod
+	O.EarlyStop = o.EarlyStop
 	O.Loss = o.Loss
 	O.Verbose = o.Verbose
 	O.MinSample = o.MinSample
-- 
2.43.0


From 006ff55efb7a44a17697057d98116fcd032e1a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:27 +0000
Subject: [PATCH 17/50] fix: read the last line of a libSVM file even if it
 doesn't end in a newline

---
 utils/libsvm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/libsvm.go b/utils/libsvm.go
index d642289..11e044e 100644
--- a/utils/libsvm.go
+++ b/utils/libsvm.go
@@ -166,7 +166,7 @@ func ParseLibSVMFromReader(r io.Reader, hasHeader bool) (*DataBunch, error) {
 	for {
 		//	println("Will read the line", cont+1) ///////
 		line, err2 = buf.ReadString('\n')
-		if err2 != nil {
+		if err2 != nil && (err2 != io.EOF || line == "") {
 			break
 		}
 		var err error
-- 
2.43.0


From 770a9b300f7f28c1c40bff006cba32c590327348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:28 +0000
Subject: [PATCH 18/50] fix: skip blank lines when reading libSVM data

---
 utils/libsvm.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/libsvm.go b/utils/libsvm.go
index 11e044e..ae4fc95 100644
--- a/utils/libsvm.go
+++ b/utils/libsvm.go
@@ -169,6 +169,9 @@ func ParseLibSVMFromReader(r io.Reader, hasHeader bool) (*DataBunch, error) {
 		if err2 != nil && (err2 != io.EOF || line == "") {
 			break
 		}
+		if strings.TrimSpace(line) == "" {
+			continue
+		}
 		var err error
 		if hasHeader && cont == 0 {
 			_, headers, _, err = parseLibSVMLine(line, true, nil, nil)
-- 
2.43.0


From 008a2f1876545bc6770a086b3f96f396c1d7a0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:29 +0000
Subject: [PATCH 19/50] fix: report libSVM rows with a different number of
 features

---
 utils/libsvm.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/libsvm.go b/utils/libsvm.go
index ae4fc95..b508742 100644
--- a/utils/libsvm.go
+++ b/utils/libsvm.go
@@ -188,6 +188,9 @@ func ParseLibSVMFromReader(r io.Reader, hasHeader bool) (*DataBunch, error) {
 			return nil, svmliberror(err, cont+1, line)
 
 		}
+		if len(data) > 0 && len(t) != len(data[0]) {
+			return nil, svmliberror(fmt.Errorf("%d features, expected %d", len(t), len(data[0])), cont+1, line)
+		}
 		data = append(data, t)
 		labels = append(labels, l)
 
-- 
2.43.0


From cdfdb08526cb53a39096e7bf386a22fa7b0114c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:30 +0000
Subject: [PATCH 20/50] fix: no division by zero in the cross-validation of
 less than 2 samples

---
 utils/stat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/stat.go b/utils/stat.go
index 14b7122..e837335 100644
--- a/utils/stat.go
+++ b/utils/stat.go
@@ -70,7 +70,7 @@ func CrossValidationSamples(data *DataBunch, nfold int, usecopies ...bool) (int,
 	}
 	tot := len(data.Data)
 	tried := make([]int, 0, 5)
-	for ; tot/nf < minleftout; nf-- {
+	for ; nf >= minfold && tot/nf < minleftout; nf-- {
 		err = fmt.Errorf("The %d-fold crossvalidation requested leaves only %d sample(s) per fold, when the minimum allowed is %d. Will use %d-fold.N-folds already tried: %v", nf, tot/nf, minleftout, nf-1, tried)
 		tried = append(tried, nf)
 	}
-- 
2.43.0


From 672bac1d260b3d7466bab316b443f09e33d4762f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:30 +0000
Subject: [PATCH 21/50] fix: keep the feature names in the cross-validation
 folds

---
 utils/stat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/stat.go b/utils/stat.go
index e837335..1a3e6bc 100644
--- a/utils/stat.go
+++ b/utils/stat.go
@@ -40,7 +40,7 @@ func fillDataBunch(ori, dest *DataBunch, toadd []int, docopy bool) *DataBunch {
 			dest.Labels = append(dest.Labels, ori.Labels[v])
 		}
 	}
-	if len(dest.Keys) > 0 {
+	if len(ori.Keys) > 0 {
 		if docopy {
 			dest.Keys = make([]string, len(ori.Keys))
 			copy(dest.Keys, ori.Keys)
-- 
2.43.0


From c50395c966340f3cd9b987325931962732d07b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:03 +0000
Subject: [PATCH 22/50] fix: read the whole file with the label names, and
 report its errors

---
 confu/confu.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/confu/confu.go b/confu/confu.go
index e16d3ec..1aa7ce7 100644
--- a/confu/confu.go
+++ b/confu/confu.go
@@ -42,25 +42,32 @@ func ReadNameMap(filename string, separator ...string) (map[int]string, error) {
 	fin := bufio.NewReader(ffin)
 	var rerr error
 	ret := make(map[int]string)
-	for s, rerr := fin.ReadString('\n'); rerr == nil; s, rerr = fin.ReadString('\n') {
-		s := strings.Replace(s, "\n", "", -1)
+	for rerr == nil {
+		var s string
+		s, rerr = fin.ReadString('\n') //the last line might not end in a newline
+		if rerr != nil && !errors.Is(rerr, io.EOF) {
+			return nil, rerr
+		}
+		s = strings.TrimRight(s, "\r\n")
+		if strings.TrimSpace(s) == "" {
+			continue
+		}
 		var l []string
 		if sep == " " {
 			l = strings.Fields(s)
 		} else {
 			l = strings.Split(s, sep)
 		}
+		if len(l) < 2 {
+			return nil, fmt.Errorf("Can't read the number and name of a label from the line: %s", s)
+		}
 		num, err := strconv.Atoi(l[0])
 		if err != nil {
 			return nil, err
 		}
 		ret[num] = l[1]
 	}
-	if errors.Is(rerr, io.EOF) {
-		rerr = nil //EOF is not an actual error
-	}
-	return ret, rerr
-
+	return ret, nil
 }
 
 type Confusions struct {
-- 
2.43.0


From 8c822e5bf929b98afe6338d5b99ad87dc004c0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:03 +0000
Subject: [PATCH 23/50] fix: allow printing the top 0 confusions

---
 confu/confu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/confu/confu.go b/confu/confu.go
index 1aa7ce7..fff5ce4 100644
--- a/confu/confu.go
+++ b/confu/confu.go
@@ -129,7 +129,7 @@ func (C *Confusions) PrintTopN(N int, m map[int]string) string {
 	ret := make([]string, 1, len(m)+1)
 	ret[0] = "Confusions:"
 	for i, v := range r {
-		str := make([]string, 1, N)
+		str := make([]string, 1, N+1)
 		sum := 0
 		for _, w := range rf[i] {
 			sum += w
-- 
2.43.0


From c68248b97524ff104e51954274d905bcb6c26471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:04 +0000
Subject: [PATCH 24/50] fix: print trees when only some of the features are
 named

---
 tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index 6c1bae2..91cfbf0 100644
--- a/tree.go
+++ b/tree.go
@@ -322,7 +322,7 @@ func (T *Tree) PredictSingle(row []float64) float64 {
 // If given the featurenames, returns the name of the split feature for the node. If not,
 // returns the zero-based index for the split feature.
 func (T *Tree) feature(featurenames []string) string {
-	if featurenames == nil && len(featurenames) <= T.splitFeatureIndex {
+	if len(featurenames) <= T.splitFeatureIndex {
 		return fmt.Sprintf("%2d", T.splitFeatureIndex)
 	}
 	return featurenames[T.splitFeatureIndex]
-- 
2.43.0


From 89e9e9eca75359abed367eebb96cc91305eada5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:04 +0000
Subject: [PATCH 25/50] fix: log of the odds

---
 xgb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xgb.go b/xgb.go
index ac62335..c8aec0f 100644
--- a/xgb.go
+++ b/xgb.go
@@ -158,7 +158,7 @@ func LogOddsFromProbs(m *mat.Dense) *mat.Dense {
 		row := m.RawRowView(i)
 		s := floats.Sum(row)
 		for j, v := range row {
-			ret.Set(i, j, math.Log(v*(s-v)))
+			ret.Set(i, j, math.Log(v/(s-v)))
 		}
 	}
 	return ret
-- 
2.43.0


From 457753cc4fdf8ef22100c5e3d1377b34ceb31a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:05 +0000
Subject: [PATCH 26/50] fix: handle matrix views, and reject all columns out of
 range, in the column functions

---
 utils/math.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/math.go b/utils/math.go
index 18a4829..3d97e1d 100644
--- a/utils/math.go
+++ b/utils/math.go
@@ -104,12 +104,12 @@ func PrintDenseMatrix(m *mat.Dense) string {
 func DenseCol(D *mat.Dense, col int) *mat.Dense {
 	raw := D.RawMatrix()
 	r, c := D.Dims()
-	if col > c {
+	if col < 0 || col >= c {
 		panic(fmt.Sprintf("DenseCol: Requested column %d of matrix with %d columns: %v", col, c, D))
 	}
 	data := raw.Data
 	newcol := make([]float64, 0, r)
-	for i := col; i < len(data); i += c {
+	for i := col; i < len(data); i += raw.Stride {
 		newcol = append(newcol, data[i])
 	}
 	return mat.NewDense(1, len(newcol), newcol)
@@ -120,7 +120,7 @@ func DenseCol(D *mat.Dense, col int) *mat.Dense {
 func AddToCol(D *mat.Dense, s []float64, col int) {
 	raw := D.RawMatrix()
 	r, c := D.Dims()
-	if col > c {
+	if col < 0 || col >= c {
 		panic(fmt.Sprintf("AddToCol: Requested column %d of matrix with %d columns: %v", col, c, D))
 	}
 	if len(s) != r {
@@ -129,7 +129,7 @@ func AddToCol(D *mat.Dense, s []float64, col int) {
 	}
 	data := raw.Data
 	cont := 0
-	for i := col; i < len(data); i += c {
+	for i := col; i < len(data); i += raw.Stride {
 		data[i] += s[cont]
 		cont++
 	}
-- 
2.43.0


From ef933917cdfc734186c162b3f542f4343146fd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:06 +0000
Subject: [PATCH 27/50] fix: ToOnes doesn't write outside matrix views

---
 utils/math.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/utils/math.go b/utils/math.go
index 3d97e1d..6997029 100644
--- a/utils/math.go
+++ b/utils/math.go
@@ -138,8 +138,11 @@ func AddToCol(D *mat.Dense, s []float64, col int) {
 
 // Sets all entries of m to 1.0
 func ToOnes(m *mat.Dense) {
-	rm := m.RawMatrix().Data
-	for i := range rm {
-		rm[i] = 1.0
+	r, _ := m.Dims()
+	for i := 0; i < r; i++ {
+		row := m.RawRowView(i)
+		for j := range row {
+			row[j] = 1.0
+		}
 	}
 }
-- 
2.43.0


From 5c805eaf327fbfea9dd2c4bd8eec6e4b83220113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:06 +0000
Subject: [PATCH 28/50] fix: no NaN or infinite values in xgboost trees when
 the hessian and lambda vanish

---
 tree.go |  4 ++--
 xgb.go  | 14 +++++++++-----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/tree.go b/tree.go
index 91cfbf0..e48523b 100644
--- a/tree.go
+++ b/tree.go
@@ -114,7 +114,7 @@ func NewTree(X [][]float64, o *TreeOptions) *Tree {
 	ret.hess = o.Hessian
 	ret.y = o.Y
 	if ret.xgb {
-		ret.value = -1 * floats.Sum(utils.SampleSlice(ret.grads, o.Indexes)) / (floats.Sum(utils.SampleSlice(ret.hess, o.Indexes)) + o.Lambda) //eq 5
+		ret.value = -1 * overHessian(floats.Sum(utils.SampleSlice(ret.grads, o.Indexes)), floats.Sum(utils.SampleSlice(ret.hess, o.Indexes))+o.Lambda) //eq 5
 		ret.bestScoreSoFar = 0.0
 	} else {
 		ret.bestScoreSoFar = math.Inf(1)
@@ -235,7 +235,7 @@ func (T *Tree) findBetterSplit(featureIndex int, o *TreeOptions) {
 			if nright < int(o.MinChildWeight) {
 				break
 			}
-			gain = 0.5*((sq(sumgLeft)/(sumhLeft+o.Lambda))+(sq(sumgRight)/(sumhRight+o.Lambda))-(sq(sumg)/(sumh+o.Lambda))) - (o.Gamma / 2) // Eq(7) in the xgboost paper
+			gain = 0.5*(overHessian(sq(sumgLeft), sumhLeft+o.Lambda)+overHessian(sq(sumgRight), sumhRight+o.Lambda)-overHessian(sq(sumg), sumh+o.Lambda)) - (o.Gamma / 2) // Eq(7) in the xgboost paper
 			//in eq 7 ,gamma is NOT divided by 2. Check!
 			criterion = func() bool { return gain > T.bestScoreSoFar }
 
diff --git a/xgb.go b/xgb.go
index c8aec0f..753521e 100644
--- a/xgb.go
+++ b/xgb.go
@@ -205,6 +205,14 @@ func SubSample(totdata int, subsample float64) []int {
 // in the leaf are saturated, and the leaf doesn't contribute to the predictions.
 const minHessian = 1e-150
 
+// Returns v divided by the given (sum of) hessians, or 0 if the latter vanishes.
+func overHessian(v, hessian float64) float64 {
+	if hessian > minHessian {
+		return v / hessian
+	}
+	return 0
+}
+
 func updateLeaves(tree *Tree, gradient, hessian *mat.Dense) {
 	fn := func(leaf *Tree) {
 		if leaf.samples == nil {
@@ -215,11 +223,7 @@ func updateLeaves(tree *Tree, gradient, hessian *mat.Dense) {
 			sumhess += hessian.At(0, w)
 			sumgrad += gradient.At(0, w)
 		}
-		nval := 0.0
-		if sumhess > minHessian {
-			nval = sumgrad / sumhess
-		}
-		leaf.value = nval
+		leaf.value = overHessian(sumgrad, sumhess)
 	}
 	applyToLeafs(tree, fn)
 }
-- 
2.43.0


From 59462d66d1764e6f79f8ac05f07b1471108976da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:11 +0000
Subject: [PATCH 29/50] fix: collect all the results of a grid search, also
 when one of them is an error

---
 cv/cv.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/cv/cv.go b/cv/cv.go
index aaf6923..70a9112 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -234,15 +234,19 @@ func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo
 	var tmpacc float64
 	var tmpop *boo.Options
 	for i, v := range errors {
-		err = <-v
-		if err != nil {
-			return -1, nil, err
-		}
+		//we have to receive all values, even after an error, or the goroutines sending them would never finish.
+		tmperr := <-v
 		tmpacc = <-accs[i]
-		if tmpacc < 0 {
-			return -1, nil, fmt.Errorf("grads zero") //not a real error, just that the optimizatio is over.
-		}
 		tmpop = <-opts[i]
+		if err == nil && tmperr != nil {
+			err = tmperr
+		}
+		if err == nil && tmpacc < 0 {
+			err = fmt.Errorf("grads zero") //not a real error, just that the optimizatio is over.
+		}
+		if err != nil {
+			continue
+		}
 		if tmpacc > bestacc {
 			bestacc = tmpacc
 			bestop = tmpop
@@ -254,6 +258,9 @@ func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo
 			}
 		}
 	}
+	if err != nil {
+		return -1, nil, err
+	}
 	return bestacc, bestop, nil
 
 }
-- 
2.43.0


From 61a64449daaf5ddb91cb050c80d2093152252bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:11 +0000
Subject: [PATCH 30/50] fix: wait for the last grid points when their number is
 not a multiple of NCPUs

---
 cv/cv.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cv/cv.go b/cv/cv.go
index 70a9112..c620f54 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -225,6 +225,13 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 			}
 		}
 	}
+	if cpus > 0 {
+		var err error
+		bestacc, finaloptions, err = rescueConcValues(errs[:cpus], accs[:cpus], os[:cpus], bestacc, finaloptions, o.Verbose, o.WriteBest, data)
+		if err != nil {
+			return -1, nil, nil, err
+		}
+	}
 	return bestacc, accuracies, finaloptions, nil
 }
 
-- 
2.43.0


From 5d726f414c98518e003ecd7f7e3778f3ba07afa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:12 +0000
Subject: [PATCH 31/50] fix: use one goroutine in the grid search if NCPUs is
 not set

---
 cv/cv.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cv/cv.go b/cv/cv.go
index c620f54..4a786da 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -169,11 +169,12 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 	var finaloptions *boo.Options
 	accuracies := make([]float64, 0, 100)
 	bestacc := 0.0
-	accs := make([]chan float64, o.NCPUs)
-	errs := make([]chan error, o.NCPUs)
+	ncpus := max(o.NCPUs, 1)
+	accs := make([]chan float64, ncpus)
+	errs := make([]chan error, ncpus)
 
-	os := make([]chan *boo.Options, o.NCPUs)
-	for i := range o.NCPUs {
+	os := make([]chan *boo.Options, ncpus)
+	for i := range ncpus {
 		accs[i] = make(chan float64)
 		errs[i] = make(chan error)
 		os[i] = make(chan *boo.Options)
@@ -206,7 +207,7 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 									conc := &Options{O: t, Acc: accs[cpus], Err: errs[cpus], Ochan: os[cpus], Conc: true}
 									go MultiClassCrossValidation(data, nfold, conc)
 									cpus++
-									if cpus == o.NCPUs {
+									if cpus == ncpus {
 										var err error
 										bestacc, finaloptions, err = rescueConcValues(errs, accs, os, bestacc, finaloptions, o.Verbose, o.WriteBest, data)
 
-- 
2.43.0


From 3a1561e481320c910e02f0823552606e3484c871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:12 +0000
Subject: [PATCH 32/50] fix: return the accuracies obtained in the grid search

---
 cv/cv.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cv/cv.go b/cv/cv.go
index 4a786da..6443a03 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -209,7 +209,7 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 									cpus++
 									if cpus == ncpus {
 										var err error
-										bestacc, finaloptions, err = rescueConcValues(errs, accs, os, bestacc, finaloptions, o.Verbose, o.WriteBest, data)
+										bestacc, finaloptions, accuracies, err = rescueConcValues(errs, accs, os, bestacc, finaloptions, accuracies, o.Verbose, o.WriteBest, data)
 
 										if err != nil {
 											return -1, nil, nil, err
@@ -228,7 +228,7 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 	}
 	if cpus > 0 {
 		var err error
-		bestacc, finaloptions, err = rescueConcValues(errs[:cpus], accs[:cpus], os[:cpus], bestacc, finaloptions, o.Verbose, o.WriteBest, data)
+		bestacc, finaloptions, accuracies, err = rescueConcValues(errs[:cpus], accs[:cpus], os[:cpus], bestacc, finaloptions, accuracies, o.Verbose, o.WriteBest, data)
 		if err != nil {
 			return -1, nil, nil, err
 		}
@@ -237,7 +237,8 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 }
 
 // Rescues cross-validation results from the given channels (errors, accuracy and the corresponding boosting options)
-func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo.Options, bestacc float64, bestop *boo.Options, verbose bool, writebest bool, data *utils.DataBunch) (float64, *boo.Options, error) {
+// All accuracies are added to the ones given.
+func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo.Options, bestacc float64, bestop *boo.Options, accuracies []float64, verbose bool, writebest bool, data *utils.DataBunch) (float64, *boo.Options, []float64, error) {
 	var err error
 	var tmpacc float64
 	var tmpop *boo.Options
@@ -255,6 +256,7 @@ func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo
 		if err != nil {
 			continue
 		}
+		accuracies = append(accuracies, tmpacc)
 		if tmpacc > bestacc {
 			bestacc = tmpacc
 			bestop = tmpop
@@ -267,9 +269,9 @@ func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo
 		}
 	}
 	if err != nil {
-		return -1, nil, err
+		return -1, nil, nil, err
 	}
-	return bestacc, bestop, nil
+	return bestacc, bestop, accuracies, nil
 
 }
 
-- 
2.43.0


From 8b54c13fa7e69d54786da992031417533998c752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:12 +0000
Subject: [PATCH 33/50] fix: the grid search always returns the options for the
 best accuracy, even if that is 0

---
 cv/cv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cv/cv.go b/cv/cv.go
index 6443a03..3bdb2f5 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -257,7 +257,7 @@ func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo
 			continue
 		}
 		accuracies = append(accuracies, tmpacc)
-		if tmpacc > bestacc {
+		if tmpacc > bestacc || bestop == nil {
 			bestacc = tmpacc
 			bestop = tmpop
 			if verbose {
-- 
2.43.0


From 30974e4500dd6b7f0d0acfe24fa02be7b7429067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:44 +0000
Subject: [PATCH 34/50] fix: data race in GradStep

---
 cv/grad.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cv/grad.go b/cv/grad.go
index a5abb2a..f786fd5 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -187,7 +187,7 @@ func GradStep(Ori *boo.Options, CVO *GridOptions, D *utils.DataBunch, step, frac
 	gm := map[string]chan *boo.Options{"Gamma": make(chan *boo.Options), "Lambda": make(chan *boo.Options), "SubSample": make(chan *boo.Options), "ColSubSample": make(chan *boo.Options), "LearningRate": make(chan *boo.Options), "Rounds": make(chan *boo.Options)}
 
 	for k, v := range gm {
-		go ParamaterGradStep(D, O, CVO, k, step, fractiondelta, curracc, nfold, central, v)
+		go ParamaterGradStep(D, O.Clone(), CVO, k, step, fractiondelta, curracc, nfold, central, v)
 	}
 	O.Gamma = (<-gm["Gamma"]).Gamma
 	O.Lambda = (<-gm["Lambda"]).Lambda
-- 
2.43.0


From 083ae982508ad9418442064615b549dd22246acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:44 +0000
Subject: [PATCH 35/50] fix: parameter steps always deliver exactly one result
 and don't leave goroutines behind

---
 cv/grad.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/cv/grad.go b/cv/grad.go
index f786fd5..a119ad7 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -91,6 +91,15 @@ func ParamaterGradStep(D *utils.DataBunch, Op *boo.Options, CVO *GridOptions, pa
 
 	f["Rounds"] = [2]myf{func(o *boo.Options) *boo.Options { o.Rounds -= int(float64(o.Rounds) * fd); return o }, func(o *boo.Options) *boo.Options { o.Rounds += int(float64(o.Rounds) * fd); return o }}
 
+	var mO *boo.Options
+	if central {
+		mO = f[param][0](O.Clone())
+		if mO.Check() != nil {
+			out <- O
+			return
+		}
+	}
+
 	pO := f[param][1](O.Clone())
 	pluserr := make(chan error)
 	pluso := make(chan *boo.Options)
@@ -103,11 +112,6 @@ func ParamaterGradStep(D *utils.DataBunch, Op *boo.Options, CVO *GridOptions, pa
 	var minacc chan float64
 
 	if central {
-		mO := f[param][0](O.Clone())
-		if mO.Check() != nil {
-			out <- O
-
-		}
 		minerr = make(chan error)
 		mino = make(chan *boo.Options)
 		minacc = make(chan float64)
@@ -119,8 +123,9 @@ func ParamaterGradStep(D *utils.DataBunch, Op *boo.Options, CVO *GridOptions, pa
 	pacc := <-plusacc
 	var der float64
 	_ = <-pluso
-	if err != nil {
+	if err != nil && !central {
 		out <- O
+		return
 	}
 	h := fd * currentValue(O, param)
 	if !central {
@@ -130,11 +135,12 @@ func ParamaterGradStep(D *utils.DataBunch, Op *boo.Options, CVO *GridOptions, pa
 		}
 		der = (pacc - currentAccuracy) / h
 	} else {
-		err = <-minerr
+		minuserr := <-minerr
 		macc := <-minacc
 		_ = <-mino
-		if err != nil {
+		if err != nil || minuserr != nil {
 			out <- O
+			return
 		}
 		der = (pacc - macc) / 2 * h
 	}
-- 
2.43.0


From 9d880ca844fc8013d9af7005a230400270002eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:45 +0000
Subject: [PATCH 36/50] fix: no parameter step when the difference to estimate
 the derivative is zero

---
 cv/grad.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cv/grad.go b/cv/grad.go
index a119ad7..b0f0754 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -129,7 +129,7 @@ func ParamaterGradStep(D *utils.DataBunch, Op *boo.Options, CVO *GridOptions, pa
 	}
 	h := fd * currentValue(O, param)
 	if !central {
-		if h < 0 {
+		if h <= 0 {
 			out <- O
 			return
 		}
-- 
2.43.0


From eaca799fb12e83dc41c2145d2e65e7ecd06298d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:45 +0000
Subject: [PATCH 37/50] fix: GradStep delivers the options through the given
 channel also on errors

---
 cv/grad.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cv/grad.go b/cv/grad.go
index b0f0754..2b342bd 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -187,7 +187,10 @@ func GradStep(Ori *boo.Options, CVO *GridOptions, D *utils.DataBunch, step, frac
 		conc := &Options{O: O, Acc: nil, Err: nil, Ochan: nil, Conc: false}
 		curracc, err = MultiClassCrossValidation(D, nfold, conc)
 		if err != nil {
-			return Ori
+			if out != nil {
+				out <- O
+			}
+			return O
 		}
 	}
 	gm := map[string]chan *boo.Options{"Gamma": make(chan *boo.Options), "Lambda": make(chan *boo.Options), "SubSample": make(chan *boo.Options), "ColSubSample": make(chan *boo.Options), "LearningRate": make(chan *boo.Options), "Rounds": make(chan *boo.Options)}
-- 
2.43.0


From 6b101c46f25ef9d3b273f1971e985d8f64fb8da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:45 +0000
Subject: [PATCH 38/50] fix: use the requested number of folds in the gradient
 searches

---
 cv/grad.go   | 2 +-
 cv/hybrid.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cv/grad.go b/cv/grad.go
index 2b342bd..ffd9bcf 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -253,7 +253,7 @@ func GradientGrid(data *utils.DataBunch, nfold int, options ...*GridOptions) (fl
 			t.XGB = o.XGB
 			tprev := t.Clone()
 			CompareAccs := func(t, tprev *boo.Options) (*boo.Options, error) {
-				acc, err := MultiClassCrossValidation(data, 5, &Options{O: t, Conc: false})
+				acc, err := MultiClassCrossValidation(data, nfold, &Options{O: t, Conc: false})
 				if err != nil {
 					return nil, err
 				}
diff --git a/cv/hybrid.go b/cv/hybrid.go
index 4690388..8dc428d 100644
--- a/cv/hybrid.go
+++ b/cv/hybrid.go
@@ -48,7 +48,7 @@ func HybridGradientGrid(data *utils.DataBunch, nfold int, options ...*GridOption
 
 					tprev := t.Clone()
 					CompareAccs := func(t, tprev *boo.Options) (*boo.Options, error) {
-						acc, err := MultiClassCrossValidation(data, 5, &Options{O: t, Conc: false})
+						acc, err := MultiClassCrossValidation(data, nfold, &Options{O: t, Conc: false})
 						if err != nil {
 							return nil, err
 						}
-- 
2.43.0


From 86ff09ae5f75dad8cbc82ef72490d3ae58db1ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:46 +0000
Subject: [PATCH 39/50] fix: later steps don't modify the best options found in
 gradient searches

---
 cv/grad.go   | 2 +-
 cv/hybrid.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cv/grad.go b/cv/grad.go
index ffd9bcf..71786b6 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -268,7 +268,7 @@ func GradientGrid(data *utils.DataBunch, nfold int, options ...*GridOptions) (fl
 						fmt.Println("New best accuracy: ", acc, t)
 					}
 					accuracies = append(accuracies, acc)
-					finaloptions = t
+					finaloptions = t.Clone() //t can be modified later
 					bestacc = acc
 					if o.WriteBest {
 						writeBest(data, bestacc, finaloptions)
diff --git a/cv/hybrid.go b/cv/hybrid.go
index 8dc428d..decc456 100644
--- a/cv/hybrid.go
+++ b/cv/hybrid.go
@@ -60,7 +60,7 @@ func HybridGradientGrid(data *utils.DataBunch, nfold int, options ...*GridOption
 								fmt.Println("New best accuracy: ", acc, t)
 							}
 							accuracies = append(accuracies, acc)
-							finaloptions = t
+							finaloptions = t.Clone() //t can be modified later
 							bestacc = acc
 							if o.WriteBest {
 								writeBest(data, bestacc, finaloptions)
-- 
2.43.0


From 7d7b9d2e711af3c82988200f5ea8dee92fa790bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:46 +0000
Subject: [PATCH 40/50] fix: gradient searches return options also if the best
 accuracy is 0

---
 cv/grad.go   | 2 +-
 cv/hybrid.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cv/grad.go b/cv/grad.go
index 71786b6..b01fed5 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -263,7 +263,7 @@ func GradientGrid(data *utils.DataBunch, nfold int, options ...*GridOptions) (fl
 
 				}
 				//		println("new (might not be best) accuracy!", acc)
-				if acc > bestacc {
+				if acc > bestacc || finaloptions == nil {
 					if o.Verbose {
 						fmt.Println("New best accuracy: ", acc, t)
 					}
diff --git a/cv/hybrid.go b/cv/hybrid.go
index decc456..775acde 100644
--- a/cv/hybrid.go
+++ b/cv/hybrid.go
@@ -55,7 +55,7 @@ func HybridGradientGrid(data *utils.DataBunch, nfold int, options ...*GridOption
 						if len(accuracies) > 0 && acc < accuracies[len(accuracies)-1] {
 							return fuzzOptions(tprev), nil
 						}
-						if acc > bestacc {
+						if acc > bestacc || finaloptions == nil {
 							if o.Verbose {
 								fmt.Println("New best accuracy: ", acc, t)
 							}
-- 
2.43.0


From acc070993cc1d575a1149a107fa3546226777d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:47 +0000
Subject: [PATCH 41/50] fix: GradientGrid uses the requested EarlyStop

---
 cv/grad.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cv/grad.go b/cv/grad.go
index b01fed5..7857311 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -251,6 +251,7 @@ func GradientGrid(data *utils.DataBunch, nfold int, options ...*GridOptions) (fl
 			t.MaxDepth = md
 			t.MinChildWeight = cw
 			t.XGB = o.XGB
+			t.EarlyStop = o.EarlyStop
 			tprev := t.Clone()
 			CompareAccs := func(t, tprev *boo.Options) (*boo.Options, error) {
 				acc, err := MultiClassCrossValidation(data, nfold, &Options{O: t, Conc: false})
-- 
2.43.0


From f11317dea8a7721b74aca8a5eb9a7d576b242e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:47 +0000
Subject: [PATCH 42/50] fix: keep the options within the search space in
 gradient searches

---
 cv/grad.go   | 20 +++++++++++---------
 cv/hybrid.go |  4 ++--
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/cv/grad.go b/cv/grad.go
index 7857311..026c3dd 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -260,7 +260,7 @@ func GradientGrid(data *utils.DataBunch, nfold int, options ...*GridOptions) (fl
 				}
 				if len(accuracies) > 0 && acc < accuracies[len(accuracies)-1] {
 					//			println("rejected step")
-					return fuzzOptions(tprev), nil
+					return fuzzOptions(tprev, o), nil
 
 				}
 				//		println("new (might not be best) accuracy!", acc)
@@ -289,7 +289,7 @@ func GradientGrid(data *utils.DataBunch, nfold int, options ...*GridOptions) (fl
 				t = GradStep(t, o, data, o.Step, o.DeltaFraction, nfold, o.Central, nil)
 				if t.Equal(t1) {
 					strikes++
-					t = fuzzOptions(t, 0.2) //switch to 0.1
+					t = fuzzOptions(t, o, 0.2) //switch to 0.1
 					if strikes == maxstrikes {
 						strikes = 0
 						break
@@ -317,17 +317,19 @@ func fuzz(f, fuzzperc float64) float64 {
 	return f + sign*fu*f
 }
 
-func fuzzOptions(O *boo.Options, fuzzperc ...float64) *boo.Options {
+// Randomly changes some of the values in O, without leaving the search space in co.
+func fuzzOptions(O *boo.Options, co *GridOptions, fuzzperc ...float64) *boo.Options {
 	f := 0.1
 	if len(fuzzperc) > 0 && fuzzperc[0] > 0 {
 		f = fuzzperc[0]
 	}
-	O.Rounds = int(fuzz(float64(O.Rounds), f))
-	O.SubSample = fuzz(O.SubSample, f)
-	O.ColSubSample = fuzz(O.ColSubSample, f)
-	O.Lambda = fuzz(O.Lambda, f)
-	O.Gamma = fuzz(O.Gamma, f)
-	O.LearningRate = fuzz(O.LearningRate, f)
+	lim := func(v float64, l [3]float64) float64 { return max(l[0], min(l[1], v)) }
+	O.Rounds = max(co.Rounds[0], min(co.Rounds[1], int(fuzz(float64(O.Rounds), f))))
+	O.SubSample = lim(fuzz(O.SubSample, f), co.SubSample)
+	O.ColSubSample = lim(fuzz(O.ColSubSample, f), co.ColSubSample)
+	O.Lambda = lim(fuzz(O.Lambda, f), co.Lambda)
+	O.Gamma = lim(fuzz(O.Gamma, f), co.Gamma)
+	O.LearningRate = lim(fuzz(O.LearningRate, f), co.LearningRate)
 	O.BaseScore = fuzz(O.BaseScore, f)
 	return O
 }
diff --git a/cv/hybrid.go b/cv/hybrid.go
index 775acde..6b47ecc 100644
--- a/cv/hybrid.go
+++ b/cv/hybrid.go
@@ -53,7 +53,7 @@ func HybridGradientGrid(data *utils.DataBunch, nfold int, options ...*GridOption
 							return nil, err
 						}
 						if len(accuracies) > 0 && acc < accuracies[len(accuracies)-1] {
-							return fuzzOptions(tprev), nil
+							return fuzzOptions(tprev, o), nil
 						}
 						if acc > bestacc || finaloptions == nil {
 							if o.Verbose {
@@ -80,7 +80,7 @@ func HybridGradientGrid(data *utils.DataBunch, nfold int, options ...*GridOption
 						t = GradStep(t, o, data, o.Step, o.DeltaFraction, nfold, o.Central, nil)
 						if t.Equal(t1) {
 							strikes++
-							t = fuzzOptions(t, 0.2) //switch to 0.1
+							t = fuzzOptions(t, o, 0.2) //switch to 0.1
 							if strikes == maxstrikes {
 								strikes = 0
 								break
-- 
2.43.0


From d6a282fc5fc349b3eafe73adfa66e619a46aefbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:48 +0000
Subject: [PATCH 43/50] fix: report errors when writing the best model

---
 cv/cv.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cv/cv.go b/cv/cv.go
index 3bdb2f5..b1c16b2 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -281,13 +281,12 @@ func writeBest(data *utils.DataBunch, bestacc float64, bestop *boo.Options) erro
 	if err != nil {
 		return err
 	}
+	defer f.Close()
 	boosted := boo.NewMultiClass(data, bestop)
 	bf := bufio.NewWriter(f)
 	err = boo.JSONMultiClass(boosted, "softmax", bf)
 	if err != nil {
 		return err
 	}
-	bf.Flush()
-	f.Close()
-	return nil
+	return bf.Flush()
 }
-- 
2.43.0


From 9dbf70193a55c08300a947ce0190d07f1cc68566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:18 +0000
Subject: [PATCH 44/50] hooks: observe cross-validations (verif build tag)

---
 cv/cv.go        |  3 +++
 cv/trace_off.go | 12 ++++++++++++
 cv/trace_on.go  | 48 ++++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 63 insertions(+)
 create mode 100644 cv/trace_off.go
 create mode 100644 cv/trace_on.go

diff --git a/cv/cv.go b/cv/cv.go
index b1c16b2..2a31a02 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -14,9 +14,11 @@ import (
 // directly or sent them through channels.
 func MultiClassCrossValidation(D *utils.DataBunch, nfold int, opts *Options) (float64, error) {
 	var accus float64
+	trace := traceStart(D, nfold, opts)
 	n, sampler, err := utils.CrossValidationSamples(D, nfold, true)
 	if err != nil {
 		if n == 0 {
+			trace.end(0, err)
 			if opts.Conc {
 				opts.Err <- err
 				opts.Acc <- -1
@@ -43,6 +45,7 @@ func MultiClassCrossValidation(D *utils.DataBunch, nfold int, opts *Options) (fl
 		a := b.Accuracy(test)
 		accus += a
 	}
+	trace.end(accus/float64(n), nil)
 	if opts.Conc {
 		opts.Err <- nil
 		opts.Acc <- accus / float64(i) //I use i and not n in case we skip some steps.
diff --git a/cv/trace_off.go b/cv/trace_off.go
new file mode 100644
index 0000000..62b73a2
--- /dev/null
+++ b/cv/trace_off.go
@@ -0,0 +1,12 @@
+//go:build !verif
+
+package cv
+
+import "github.com/rmera/boo/utils"
+
+// Hooks to observe cross-validations. They do nothing, unless the "verif" tag is given when building.
+type cvTrace struct{}
+
+func traceStart(D *utils.DataBunch, nfold int, opts *Options) cvTrace { return cvTrace{} }
+
+func (cvTrace) end(acc float64, err error) {}
diff --git a/cv/trace_on.go b/cv/trace_on.go
new file mode 100644
index 0000000..b590db0
--- /dev/null
+++ b/cv/trace_on.go
@@ -0,0 +1,48 @@
+//go:build verif
+
+package cv
+
+import (
+	"sync/atomic"
+
+	"github.com/rmera/boo"
+	"github.com/rmera/boo/utils"
+)
+
+// TraceEvent describes the beginning or the end of a cross-validation.
+type TraceEvent struct {
+	ID    int64 //the same for the beginning and the end of a cross-validation
+	End   bool
+	D     *utils.DataBunch
+	Nfold int
+	Conc  bool
+	O     *boo.Options //a copy, nil if no options were given
+	Acc   float64
+	Err   error
+}
+
+// Trace, if not nil, is called with each event, possibly from several goroutines.
+var Trace func(TraceEvent)
+
+var traceID int64
+
+type cvTrace struct{ ev TraceEvent }
+
+func traceStart(D *utils.DataBunch, nfold int, opts *Options) cvTrace {
+	t := cvTrace{TraceEvent{ID: atomic.AddInt64(&traceID, 1), D: D, Nfold: nfold, Conc: opts.Conc}}
+	if opts.O != nil {
+		o := *opts.O
+		t.ev.O = &o
+	}
+	if Trace != nil {
+		Trace(t.ev)
+	}
+	return t
+}
+
+func (t cvTrace) end(acc float64, err error) {
+	t.ev.End, t.ev.Acc, t.ev.Err = true, acc, err
+	if Trace != nil {
+		Trace(t.ev)
+	}
+}
-- 
2.43.0


From 78c30ca6e495573a3de7f6af9c08e73c669686c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:50 +0000
Subject: [PATCH 45/50] hooks: no synchronization when nobody observes

---
 cv/trace_on.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cv/trace_on.go b/cv/trace_on.go
index b590db0..e5db651 100644
--- a/cv/trace_on.go
+++ b/cv/trace_on.go
@@ -29,20 +29,22 @@ var traceID int64
 type cvTrace struct{ ev TraceEvent }
 
 func traceStart(D *utils.DataBunch, nfold int, opts *Options) cvTrace {
+	if Trace == nil {
+		return cvTrace{} //in particular, no synchronization that could hide a data race
+	}
 	t := cvTrace{TraceEvent{ID: atomic.AddInt64(&traceID, 1), D: D, Nfold: nfold, Conc: opts.Conc}}
 	if opts.O != nil {
 		o := *opts.O
 		t.ev.O = &o
 	}
-	if Trace != nil {
-		Trace(t.ev)
-	}
+	Trace(t.ev)
 	return t
 }
 
 func (t cvTrace) end(acc float64, err error) {
-	t.ev.End, t.ev.Acc, t.ev.Err = true, acc, err
-	if Trace != nil {
-		Trace(t.ev)
+	if Trace == nil {
+		return
 	}
+	t.ev.End, t.ev.Acc, t.ev.Err = true, acc, err
+	Trace(t.ev)
 }
-- 
2.43.0


From fdc51c7d74c0e5a0cd0f28c2fbdb4b127ddbbb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:14 +0000
Subject: [PATCH 46/50] fix: no rounding residue in the right-side sums of
 gradients and hessians

---
 tree.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/tree.go b/tree.go
index e48523b..b1e888b 100644
--- a/tree.go
+++ b/tree.go
@@ -194,7 +194,7 @@ func (T *Tree) findBetterSplit(featureIndex int, o *TreeOptions) {
 	val := o.val[0:len(xt[0])]
 	sorted_indexes, sortx := utils.MemArgSort(xt[0], in, val)
 	var xi, xinext, yi, gi, hi float64
-	var g, h, sortg, sorth, ypart, sorty []float64
+	var g, h, sortg, sorth, gRight, hRight, ypart, sorty []float64
 	var sumg, sumh, sumhRight, sumhLeft float64
 	var sumgRight, sumgLeft, gain float64
 	var sumy, sumyRight, sumyLeft float64
@@ -207,8 +207,8 @@ func (T *Tree) findBetterSplit(featureIndex int, o *TreeOptions) {
 		sortg = utils.SampleSlice(g, sorted_indexes)
 		sorth = utils.SampleSlice(h, sorted_indexes)
 		sumg, sumh = floats.Sum(g), floats.Sum(h)
-		sumhRight, sumgRight = sumh, sumg
 		sumhLeft, sumgLeft = 0.0, 0.0
+		gRight, hRight = sumsFromEnd(sortg), sumsFromEnd(sorth)
 	} else {
 		ypart = utils.SampleSlice(T.y, o.Indexes)
 		sorty = utils.SampleSlice(ypart, sorted_indexes)
@@ -223,9 +223,9 @@ func (T *Tree) findBetterSplit(featureIndex int, o *TreeOptions) {
 			gi, hi, xi, xinext = sortg[i], sorth[i], sortx[i], sortx[i+1]
 
 			sumgLeft += gi
-			sumgRight -= gi
+			sumgRight = gRight[i+1]
 			sumhLeft += hi
-			sumhRight -= hi
+			sumhRight = hRight[i+1]
 			//NOTE: this is not the actual meaning of the minchildweight in xgboost, but it
 			//coincides with the current error function. I should probably change it to the
 			//proper value.
@@ -262,6 +262,19 @@ func (T *Tree) findBetterSplit(featureIndex int, o *TreeOptions) {
 	}
 }
 
+// Returns a slice where the i-th element is the sum of all elements of s from the i-th on. Unlike
+// subtracting the first i elements from the total, this leaves no rounding error when the remaining
+// elements are all zero.
+func sumsFromEnd(s []float64) []float64 {
+	ret := make([]float64, len(s))
+	sum := 0.0
+	for i := len(s) - 1; i >= 0; i-- {
+		sum += s[i]
+		ret[i] = sum
+	}
+	return ret
+}
+
 // Returns the point halfway between a and b, for finite a<b. The result is never smaller than a and
 // always smaller than b, even if a+b overflows, or if there is no float between a and b, so it
 // can always be used as a threshold to separate a and b.
-- 
2.43.0


From 3e6295ebcbac876b6b04c3767be082dc7690c087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:45 +0000
Subject: [PATCH 47/50] fix: losses and hessians of matrix views

Loss and the MSELoss Hessian went through the raw data of the matrices, which
for a view of a larger matrix includes elements outside of the view.
---
 utils/loss_acti.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/utils/loss_acti.go b/utils/loss_acti.go
index ccc624d..cdc43a8 100644
--- a/utils/loss_acti.go
+++ b/utils/loss_acti.go
@@ -96,12 +96,13 @@ func (sq *SQErrLoss) Loss(y, pred, loss *mat.Dense) float64 {
 	}
 	loss.Sub(y, pred)
 	loss.MulElem(loss, loss)
-	m := loss.RawMatrix().Data
 	l := 0.0
 	n := 0
-	for _, v := range m {
-		l += v
-		n++
+	for i := 0; i < r; i++ { //row by row, as loss could be a view of a larger matrix
+		for _, v := range loss.RawRowView(i) {
+			l += v
+			n++
+		}
 	}
 	return l / float64(n)
 
@@ -150,12 +151,13 @@ func (mse *MSELoss) Loss(y, pred, loss *mat.Dense) float64 {
 	}
 	loss.Sub(y, pred)
 	loss.MulElem(loss, loss)
-	m := loss.RawMatrix().Data
 	l := 0.0
 	n := 0
-	for _, v := range m {
-		l += v
-		n++
+	for i := 0; i < r; i++ { //row by row, as loss could be a view of a larger matrix
+		for _, v := range loss.RawRowView(i) {
+			l += v
+			n++
+		}
 	}
 	return l / float64(n)
 
@@ -193,10 +195,11 @@ func (m *MSELoss) Hessian(probabilities, hessian *mat.Dense) *mat.Dense {
 		hessian = mat.NewDense(r, c, nil)
 	}
 
-	probraw := probabilities.RawMatrix().Data
-	hraw := hessian.RawMatrix().Data
-	for i, v := range probraw {
-		hraw[i] = (1 - v) * v
+	for i := 0; i < r; i++ { //both could be views of larger matrices
+		hraw := hessian.RawRowView(i)
+		for j, v := range probabilities.RawRowView(i) {
+			hraw[j] = (1 - v) * v
+		}
 	}
 	return hessian
 }
-- 
2.43.0


From ba1f678d0f987d6aeb21c53c6b1bf62bb2be58f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:37 +0000
Subject: [PATCH 48/50] fix: NewTree changed the options given, which could not
 be used again with other data

---
 tree.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tree.go b/tree.go
index b1e888b..ddc9df2 100644
--- a/tree.go
+++ b/tree.go
@@ -91,6 +91,8 @@ func (T *TreeOptions) clone() *TreeOptions {
 // Returns a new tree for the data X and options o
 func NewTree(X [][]float64, o *TreeOptions) *Tree {
 	ret := &Tree{}
+	opts := *o
+	o = &opts //the options given are not modified, so they can be used again with other data.
 	if o.XGB {
 		if o.Gradients == nil && o.Hessian == nil {
 			panic("nil gradients/hessians in XGBoost tree")
-- 
2.43.0


From 36f4579b24c6d02544fb622f488f143f089ab336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:01 +0000
Subject: [PATCH 49/50] fix: the default options for regular boosting were not
 valid, so the gradient searches never moved from them

---
 options.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/options.go b/options.go
index ef820d2..c914629 100644
--- a/options.go
+++ b/options.go
@@ -130,6 +130,11 @@ func DefaultGOptions() *Options {
 	O.LearningRate = 0.1
 	O.MinChildWeight = 3
 	O.Loss = &utils.MSELoss{}
+	//not used in regular gradient boosting, but the options have to be valid (see Check), also
+	//for the gradient-based searches.
+	O.SubSample = 1
+	O.ColSubSample = 1
+	O.MinSample = 1
 
 	return O
 }
-- 
2.43.0


From 4ecc32b63564ef5df674dec3b61b3fa9e09a7b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:43 +0000
Subject: [PATCH 50/50] fix: writing a dataset without rows as CSV or LibSVM
 crashed

---
 utils/csv.go    | 7 +++++--
 utils/libsvm.go | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/utils/csv.go b/utils/csv.go
index 0c814f2..df90075 100644
--- a/utils/csv.go
+++ b/utils/csv.go
@@ -21,8 +21,11 @@ func (D *DataBunch) CSV(separator ...string) string {
 		sep = separator[0]
 	}
 	ret := make([]string, 0, len(D.Data)+1)
-	l := len(D.Data[0])   //everything should be this lenght
-	if len(D.Keys) == l { //I asume no keys otherwise
+	l := len(D.Keys)
+	if len(D.Data) > 0 {
+		l = len(D.Data[0]) //everything should be this lenght
+	}
+	if len(D.Keys) == l && l+len(D.Data) > 0 { //I asume no keys otherwise
 		k := make([]string, 1, l+1)
 		k[0] = "Labels"
 		for _, v := range D.Keys {
diff --git a/utils/libsvm.go b/utils/libsvm.go
index b508742..6beb30e 100644
--- a/utils/libsvm.go
+++ b/utils/libsvm.go
@@ -68,8 +68,11 @@ func (D *DataBunch) LibSVM() string {
 		return ""
 	}
 	ret := make([]string, 0, len(D.Data)+1)
-	l := len(D.Data[0])   //everything should be this lenght
-	if len(D.Keys) == l { //I asume no keys otherwise
+	l := len(D.Keys)
+	if len(D.Data) > 0 {
+		l = len(D.Data[0]) //everything should be this lenght
+	}
+	if len(D.Keys) == l && l+len(D.Data) > 0 { //I asume no keys otherwise
 		k := make([]string, 1, l+1)
 		k[0] = "Labels"
 		for i, v := range D.Keys {
-- 
2.43.0

