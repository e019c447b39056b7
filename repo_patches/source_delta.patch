From 14d0497c78f70302d7656e553f1987cd83bc05b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:16 +0000
Subject: [PATCH 01/23] fix: copy-on-write of a node's slices really copies
 them

---
 node/node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node/node.go b/node/node.go
index 71cc12f..7db936c 100644
--- a/node/node.go
+++ b/node/node.go
@@ -521,13 +521,13 @@ func (t *NodeTrain) clone(cowId int) *NodeTrain {
 func copyIntSlice(s []int) []int {
 	newS := make([]int, len(s))
 	copy(newS, s)
-	return s
+	return newS
 }
 
 func copyFloat64Slice(s []float64) []float64 {
 	newS := make([]float64, len(s))
 	copy(newS, s)
-	return s
+	return newS
 }
 
 func intSliceContains(slice []int, value int) bool {
-- 
2.43.0


From a8678dff2dc26cba61ac58d1d4715783f4d43bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:17 +0000
Subject: [PATCH 02/23] fix: average the label gradient of the softmax over the
 batch too

---
 node/node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node/node.go b/node/node.go
index 7db936c..bc92678 100644
--- a/node/node.go
+++ b/node/node.go
@@ -315,8 +315,8 @@ func (nd *Node) ComputeExtaStatsForSoftMax(
 	//TODO:check gradient
 
 	if intSliceContains(labels, n.base.idInLayer) {
-		train[inputId].lastDeltaforBPs = 1.0/float64(len(labels)) -
-			train[inputId].lastActivations/float64(n.base.currentBatchsize)
+		train[inputId].lastDeltaforBPs = (1.0/float64(len(labels)) -
+			train[inputId].lastActivations) / float64(n.base.currentBatchsize)
 	} else {
 		train[inputId].lastDeltaforBPs = -train[inputId].lastActivations /
 			float64(n.base.currentBatchsize)
-- 
2.43.0


From c8662c17813890665d4860a480109952609bf4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:18 +0000
Subject: [PATCH 03/23] fix: scale the first layer's bias step by the learning
 rate

---
 node/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/node.go b/node/node.go
index bc92678..985b444 100644
--- a/node/node.go
+++ b/node/node.go
@@ -406,7 +406,7 @@ func (nd *Node) BackPropagateFirstLayer(
 		// TODO: ?? biasgradTsq = biasgradT * biasgradT
 		n.base.tBias += biasgradT
 	} else {
-		n.base.mirrorBias += learningRate + train[inputId].lastDeltaforBPs
+		n.base.mirrorBias += learningRate * train[inputId].lastDeltaforBPs
 	}
 
 	train[inputId].activeinputIds = 0 // deactivate inputIDs
-- 
2.43.0


From cf20704a0e47b648d56882e3d7ddcf27fd831dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:19 +0000
Subject: [PATCH 04/23] fix: densified WTA hash of a sparse input uses the
 feature indices

---
 densified_wta_hash/densified_wta_hash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/densified_wta_hash/densified_wta_hash.go b/densified_wta_hash/densified_wta_hash.go
index 1dd3794..a943472 100644
--- a/densified_wta_hash/densified_wta_hash.go
+++ b/densified_wta_hash/densified_wta_hash.go
@@ -84,8 +84,8 @@ func (dw *DensifiedWtaHash) GetHash(data []index_value.Pair) []int {
 
 	for p := 0; p < dw.permute; p++ {
 		binIndex := p * dw.rangePow
-		for i, pair := range data {
-			innerIndex := binIndex + i
+		for _, pair := range data {
+			innerIndex := binIndex + pair.Index
 			binId := dw.indices[innerIndex]
 			if binId < dw.numHashes &&
 				(!items[binId].init || items[binId].value < pair.Value) {
-- 
2.43.0


From 4d2441076b032335e8f8573b6c491335097bafc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:20 +0000
Subject: [PATCH 05/23] fix: compute the densification probe in 32 bits so that
 it stays in range

---
 densified_minhash/densified_minhash.go   | 4 ++--
 densified_wta_hash/densified_wta_hash.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/densified_minhash/densified_minhash.go b/densified_minhash/densified_minhash.go
index 85addf4..14005f5 100644
--- a/densified_minhash/densified_minhash.go
+++ b/densified_minhash/densified_minhash.go
@@ -194,8 +194,8 @@ func (dm *DensifiedMinhash) GetHashEasyDense(
 }
 
 func (dm *DensifiedMinhash) GetRandDoubleHash(binId, count int) int {
-	toHash := ((uint(binId) + 1) << 6) + uint(count)
-	return int((uint(dm.randHash[0]) * toHash << 3) >> (32 - dm.logNumHash)) // logNumHash needs to be ceiled.
+	toHash := ((uint32(binId) + 1) << 6) + uint32(count)
+	return int((uint32(dm.randHash[0]) * toHash << 3) >> (32 - dm.logNumHash)) // logNumHash needs to be ceiled.
 }
 
 func (dm *DensifiedMinhash) GetMap(n int) []int {
diff --git a/densified_wta_hash/densified_wta_hash.go b/densified_wta_hash/densified_wta_hash.go
index a943472..b1e0a2b 100644
--- a/densified_wta_hash/densified_wta_hash.go
+++ b/densified_wta_hash/densified_wta_hash.go
@@ -163,8 +163,8 @@ func (dw *DensifiedWtaHash) GetHashEasy(data []float64, topK int) []int {
 }
 
 func (dw *DensifiedWtaHash) GetRandDoubleHash(binId, count int) int {
-	toHash := ((uint(binId) + 1) << 6) + uint(count)
-	return int((uint(dw.randHash[0]) * toHash << 3) >> (32 - dw.logNumHash)) // logNumHash needs to be ceiled.
+	toHash := ((uint32(binId) + 1) << 6) + uint32(count)
+	return int((uint32(dw.randHash[0]) * toHash << 3) >> (32 - dw.logNumHash)) // logNumHash needs to be ceiled.
 }
 
 func positiveOddRandomInt() int {
-- 
2.43.0


From 20dc55c72f526a229e2be6c79cad1b763bce0c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:21 +0000
Subject: [PATCH 06/23] fix: WTA hash of a sparse input looks features up by
 index

---
 wta_hash/wta_hash.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wta_hash/wta_hash.go b/wta_hash/wta_hash.go
index a8dc16e..fc40345 100644
--- a/wta_hash/wta_hash.go
+++ b/wta_hash/wta_hash.go
@@ -60,6 +60,11 @@ func New(numHashes, numOfBitsToHash int) *WtaHash {
 }
 
 func (wh *WtaHash) GetHash(data []index_value.Pair) []int {
+	dense := make([]float64, wh.rangePow)
+	for _, pair := range data {
+		dense[pair.Index] = pair.Value
+	}
+
 	hashes := make([]int, wh.numHashes)
 	values := make([]float64, wh.numHashes)
 
@@ -75,7 +80,7 @@ func (wh *WtaHash) GetHash(data []index_value.Pair) []int {
 			jOffset := iOffset + j
 
 			curIndex := wh.indices[jOffset]
-			if value := data[curIndex].Value; values[i] < value {
+			if value := dense[curIndex]; values[i] < value {
 				hashes[i] = curIndex
 				values[i] = value
 			}
-- 
2.43.0


From f1963264ad04d426ded3a537395c4024ffdc9aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:23 +0000
Subject: [PATCH 07/23] fix: densified minhash keeps the largest values, by
 feature index, of inputs of any length

---
 densified_minhash/densified_minhash.go | 14 ++++++++++----
 densified_minhash/index_value_pairs.go |  4 ++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/densified_minhash/densified_minhash.go b/densified_minhash/densified_minhash.go
index 14005f5..ff009fe 100644
--- a/densified_minhash/densified_minhash.go
+++ b/densified_minhash/densified_minhash.go
@@ -86,15 +86,18 @@ func (dm *DensifiedMinhash) GetHashEasy(
 	// Read the data and add it to priority queue O(dlogk approx 7d)
 	// with index as key and values as priority value, get topk index
 	// O(1) and apply minhash on retuned index.
+	if topK > len(data) {
+		topK = len(data)
+	}
 	pq := make(indexValuePriorityQueue, topK, topK+1)
-	for index, value := range data[0:topK] {
-		pq[index] = indexValuePair{index, value.Value}
+	for i, pair := range data[0:topK] {
+		pq[i] = indexValuePair{pair.Index, pair.Value}
 	}
 	heap.Init(&pq)
 
 	dataLen := len(data)
-	for index := topK; index < dataLen; index++ {
-		heap.Push(&pq, indexValuePair{index, data[index].Value})
+	for i := topK; i < dataLen; i++ {
+		heap.Push(&pq, indexValuePair{data[i].Index, data[i].Value})
 		heap.Pop(&pq)
 	}
 
@@ -144,6 +147,9 @@ func (dm *DensifiedMinhash) GetHashEasyDense(
 	// Read the data and add it to priority queue O(dlogk approx 7d)
 	// with index as key and values as priority value, get topk index
 	// O(1) and apply minhash on retuned index.
+	if topK > len(data) {
+		topK = len(data)
+	}
 	pq := make(indexValuePriorityQueue, topK, topK+1)
 	for index, value := range data[0:topK] {
 		pq[index] = indexValuePair{index, value}
diff --git a/densified_minhash/index_value_pairs.go b/densified_minhash/index_value_pairs.go
index 57f0c80..7195d24 100644
--- a/densified_minhash/index_value_pairs.go
+++ b/densified_minhash/index_value_pairs.go
@@ -20,8 +20,8 @@ func (p indexValuePriorityQueue) Len() int {
 }
 
 func (p indexValuePriorityQueue) Less(i, j int) bool {
-	// lower is better
-	return p[i].value > p[j].value // TODO: check if correct
+	// the smallest value is the first to be popped
+	return p[i].value < p[j].value
 }
 
 func (p indexValuePriorityQueue) Swap(i, j int) {
-- 
2.43.0


From b77ec8a4e8b6eb7a955ab93d41341fc12b02d03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:24 +0000
Subject: [PATCH 08/23] fix: densified minhash maps features to bins for any
 input size

---
 densified_minhash/densified_minhash.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/densified_minhash/densified_minhash.go b/densified_minhash/densified_minhash.go
index ff009fe..3643b22 100644
--- a/densified_minhash/densified_minhash.go
+++ b/densified_minhash/densified_minhash.go
@@ -207,7 +207,9 @@ func (dm *DensifiedMinhash) GetRandDoubleHash(binId, count int) int {
 func (dm *DensifiedMinhash) GetMap(n int) []int {
 	binIds := make([]int, n)
 
-	rng := 1 << dm.rangePow
+	// Wider ranges would overflow, or lose precision below.
+	rangePow := minInt(dm.rangePow, 32)
+	rng := 1 << rangePow
 
 	// The number of times the range is larger than
 	// the total number of hashes we need.
@@ -224,7 +226,7 @@ func (dm *DensifiedMinhash) GetMap(n int) []int {
 		mh.Write(buf[:bufLen])
 		curHash := mh.Sum64()
 
-		curHash = curHash & ((1 << dm.rangePow) - 1)
+		curHash = curHash & ((1 << rangePow) - 1)
 		binIds[i] = int(math.Floor(float64(curHash) / float64(binSize)))
 	}
 
-- 
2.43.0


From 04a9c6271c28f9148f082a059b70df0012d0dae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:25 +0000
Subject: [PATCH 09/23] fix: random projection hashes a sparse input in
 whatever order it is listed

---
 sparse_random_projection/sparse_random_projection.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sparse_random_projection/sparse_random_projection.go b/sparse_random_projection/sparse_random_projection.go
index 87e9d79..d7b7178 100644
--- a/sparse_random_projection/sparse_random_projection.go
+++ b/sparse_random_projection/sparse_random_projection.go
@@ -88,6 +88,12 @@ func (srp *SparseRandomProjection) GetHashSparse(
 	length := len(data)
 	hashes := make([]int, srp.numHashes)
 
+	byIndex := func(i, j int) bool { return data[i].Index < data[j].Index }
+	if !sort.SliceIsSorted(data, byIndex) {
+		data = append([]index_value.Pair(nil), data...)
+		sort.SliceStable(data, byIndex)
+	}
+
 	for p := range hashes {
 		s := 0.0
 
-- 
2.43.0


From a72e21673fa1bd294d2a7d6617671fc343e2973f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:26 +0000
Subject: [PATCH 10/23] fix: seed the global random source once instead of from
 every hash constructor

---
 densified_minhash/densified_minhash.go               | 3 ---
 densified_wta_hash/densified_wta_hash.go             | 3 ---
 layer/layer.go                                       | 4 ++++
 sparse_random_projection/sparse_random_projection.go | 2 --
 wta_hash/wta_hash.go                                 | 3 ---
 5 files changed, 4 insertions(+), 11 deletions(-)

diff --git a/densified_minhash/densified_minhash.go b/densified_minhash/densified_minhash.go
index 3643b22..8f7d402 100644
--- a/densified_minhash/densified_minhash.go
+++ b/densified_minhash/densified_minhash.go
@@ -10,7 +10,6 @@ import (
 	"hash/maphash"
 	"math"
 	"math/rand"
-	"time"
 
 	"github.com/nlpodyssey/goslide/index_value"
 )
@@ -25,8 +24,6 @@ type DensifiedMinhash struct {
 }
 
 func New(numHashes, numOfBitsToHash int) *DensifiedMinhash {
-	rand.Seed(time.Now().UnixNano())
-
 	return &DensifiedMinhash{
 		// TODO: is second value of `randHash` used at all?
 		randHash:   [2]int{positiveOddRandomInt(), positiveOddRandomInt()},
diff --git a/densified_wta_hash/densified_wta_hash.go b/densified_wta_hash/densified_wta_hash.go
index b1e0a2b..e42664d 100644
--- a/densified_wta_hash/densified_wta_hash.go
+++ b/densified_wta_hash/densified_wta_hash.go
@@ -13,7 +13,6 @@ package densified_wta_hash
 import (
 	"math"
 	"math/rand"
-	"time"
 
 	"github.com/nlpodyssey/goslide/index_value"
 )
@@ -34,8 +33,6 @@ type DensifiedWtaHash struct {
 }
 
 func New(numHashes, numOfBitsToHash int) *DensifiedWtaHash {
-	rand.Seed(time.Now().UnixNano())
-
 	permute := int(math.Ceil(
 		float64(numHashes) * float64(binSize) / float64(numOfBitsToHash)))
 	nArray := make([]int, numOfBitsToHash)
diff --git a/layer/layer.go b/layer/layer.go
index 9397dcb..d0335ab 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -28,6 +28,10 @@ const normalDistributionMean = 0.0
 const threshold = 2
 const mapLen = 325_056
 
+func init() {
+	rand.Seed(time.Now().UnixNano())
+}
+
 type Layer struct {
 	cowId                   int // "thread" ID for copy on write
 	nodeType                node.NodeType
diff --git a/sparse_random_projection/sparse_random_projection.go b/sparse_random_projection/sparse_random_projection.go
index d7b7178..e40a2c3 100644
--- a/sparse_random_projection/sparse_random_projection.go
+++ b/sparse_random_projection/sparse_random_projection.go
@@ -8,7 +8,6 @@ import (
 	"math"
 	"math/rand"
 	"sort"
-	"time"
 
 	"github.com/nlpodyssey/goslide/index_value"
 )
@@ -30,7 +29,6 @@ func New(dimension, numOfHashes, ratio int) *SparseRandomProjection {
 	}
 	swap := func(i, j int) { a[i], a[j] = a[j], a[i] }
 
-	rand.Seed(time.Now().UnixNano())
 	randBits := make([][]bool, numOfHashes)
 	indices := make([][]int, numOfHashes)
 
diff --git a/wta_hash/wta_hash.go b/wta_hash/wta_hash.go
index fc40345..6475f7a 100644
--- a/wta_hash/wta_hash.go
+++ b/wta_hash/wta_hash.go
@@ -13,7 +13,6 @@ package wta_hash
 import (
 	"math"
 	"math/rand"
-	"time"
 
 	"github.com/nlpodyssey/goslide/index_value"
 )
@@ -29,8 +28,6 @@ type WtaHash struct {
 }
 
 func New(numHashes, numOfBitsToHash int) *WtaHash {
-	rand.Seed(time.Now().UnixNano())
-
 	permute := int(math.Ceil(
 		float64(numHashes) * float64(binSize) / float64(numOfBitsToHash)))
 	nArray := make([]int, numOfBitsToHash)
-- 
2.43.0


From bdff90bd9da3cb60a3bc0ef89a07968d6a7b441f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:29 +0000
Subject: [PATCH 11/23] fix: layer mode 1 activates neurons in a fixed order
 instead of map order

---
 layer/layer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layer/layer.go b/layer/layer.go
index d0335ab..13e1c7d 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -349,8 +349,8 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 
 			// thresholding
 			vect := make([]index_value.Pair, 0)
-			for index, count := range counts {
-				if count > threshold {
+			for index := range l.nodes {
+				if counts[index] > threshold {
 					vect = append(vect, index_value.Pair{Index: index})
 				}
 			}
-- 
2.43.0


From c3ff106516c0b82061d51051355f48fc72bba2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:30 +0000
Subject: [PATCH 12/23] fix: layer mode 2 works for layers of any size

---
 layer/layer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/layer/layer.go b/layer/layer.go
index 13e1c7d..deece6f 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -26,7 +26,6 @@ const topK = 30
 const normalDistributionStdDev = 0.01
 const normalDistributionMean = 0.0
 const threshold = 2
-const mapLen = 325_056
 
 func init() {
 	rand.Seed(time.Now().UnixNano())
@@ -364,7 +363,7 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 				length = int(math.Floor(float64(len(l.nodes)) * sparsity))
 				activeNodesPerLayer[layerIndex+1] = make([]index_value.Pair, length)
 
-				bs := make([]bool, mapLen) // bitset
+				bs := make([]bool, len(l.nodes)) // bitset
 				tmpSize := 0
 				if l.nodeType == node.Softmax && len(label) > 0 {
 					for i, labelValue := range label {
-- 
2.43.0


From 4a990d34eb89f6e483103fef850959627e190052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:31 +0000
Subject: [PATCH 13/23] fix: layer mode 3 activates only the requested fraction
 of neurons

---
 layer/layer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layer/layer.go b/layer/layer.go
index deece6f..f425de2 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -409,7 +409,7 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 
 				sort.Sort(indexValuePairByValue(sortW))
 
-				for i, sw := range sortW {
+				for i, sw := range sortW[:length] {
 					activeNodesPerLayer[layerIndex+1][i].Index = sw.Index
 					if intSliceContains(label, sw.Index) {
 						in = 1
-- 
2.43.0


From 7a4bf5a5e19ad68828a9585626c050aead2898f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:32 +0000
Subject: [PATCH 14/23] fix: a label listed twice takes one place among the
 active neurons

---
 layer/layer.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/layer/layer.go b/layer/layer.go
index f425de2..4acb4b0 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -366,11 +366,14 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 				bs := make([]bool, len(l.nodes)) // bitset
 				tmpSize := 0
 				if l.nodeType == node.Softmax && len(label) > 0 {
-					for i, labelValue := range label {
-						activeNodesPerLayer[layerIndex+1][i].Index = labelValue
+					for _, labelValue := range label {
+						if bs[labelValue] {
+							continue
+						}
+						activeNodesPerLayer[layerIndex+1][tmpSize].Index = labelValue
 						bs[labelValue] = true
+						tmpSize++
 					}
-					tmpSize = len(label)
 				}
 				for tmpSize < length {
 					v := rand.Intn(len(l.nodes))
@@ -456,9 +459,11 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 			// Make sure that the true label node is in candidates
 			if l.nodeType == node.Softmax && len(label) > 0 {
 				for _, labelValue := range label {
+					if counts[labelValue] == -1 {
+						countsSize++
+					}
 					counts[labelValue] = l.l
 				}
-				countsSize = len(label)
 			}
 
 			for _, iVal := range actives {
-- 
2.43.0


From bc82e025b494b4daa274ab3a882771caafd4fb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:33 +0000
Subject: [PATCH 15/23] fix: cloned networks and layers do not share slices
 with the original

---
 layer/layer.go     | 6 +++++-
 network/network.go | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/layer/layer.go b/layer/layer.go
index 4acb4b0..67feced 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -645,10 +645,14 @@ func (l *Layer) cloneIfNeeded(cowId int) *Layer {
 }
 
 func (l *Layer) clone(cowId int) *Layer {
-	// TODO: copy slices and pointers too?
+	// TODO: copy pointers too?
 	newLayer := &Layer{}
 	*newLayer = *l
 	newLayer.cowId = cowId
+	newLayer.nodes = append([]*node.Node(nil), l.nodes...)
+	newLayer.randNode = append([]int(nil), l.randNode...)
+	newLayer.normalizationConstants =
+		append([]float64(nil), l.normalizationConstants...)
 	return newLayer
 }
 
diff --git a/network/network.go b/network/network.go
index 9d9e8cc..6d5a886 100644
--- a/network/network.go
+++ b/network/network.go
@@ -105,7 +105,6 @@ func (ne *Network) PredictClass(
 	n := ne.cloneIfNeeded(cowId)
 
 	hiddenLayers := n.hiddenLayers
-	lastHiddenLayer := hiddenLayers[n.numberOfLayers-1]
 
 	startTime := time.Now()
 	correctPred := 0
@@ -129,6 +128,7 @@ func (ne *Network) PredictClass(
 		}
 
 		//compute softmax
+		lastHiddenLayer := hiddenLayers[n.numberOfLayers-1]
 		var maxAct float64
 		var predictClass int
 		for pairIndex, pair := range activeNodesPerLayer[n.numberOfLayers] {
@@ -321,10 +321,10 @@ func (n *Network) cloneIfNeeded(cowId int) *Network {
 }
 
 func (n *Network) clone(cowId int) *Network {
-	// TODO: copy slices too?
 	newNetwork := &Network{}
 	*newNetwork = *n
 	newNetwork.cowId = cowId
+	newNetwork.hiddenLayers = append([]*layer.Layer(nil), n.hiddenLayers...)
 	return newNetwork
 }
 
-- 
2.43.0


From 95dcfce98a55d13c7b2099c47ee23c8cba54d644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:34 +0000
Subject: [PATCH 16/23] fix: no prediction counts as correct when no output
 neuron is active

---
 network/network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/network/network.go b/network/network.go
index 6d5a886..99a7b8f 100644
--- a/network/network.go
+++ b/network/network.go
@@ -130,7 +130,7 @@ func (ne *Network) PredictClass(
 		//compute softmax
 		lastHiddenLayer := hiddenLayers[n.numberOfLayers-1]
 		var maxAct float64
-		var predictClass int
+		predictClass := -1 // nothing active: nothing predicted
 		for pairIndex, pair := range activeNodesPerLayer[n.numberOfLayers] {
 			act := lastHiddenLayer.GetNodeById(pair.Index).GetLastActivation(i)
 			if maxAct < act || pairIndex == 0 {
-- 
2.43.0


From b53298953526a10947fcbe2be6f716b981d13c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:35 +0000
Subject: [PATCH 17/23] fix: rebuilding the hash functions rehashes the neurons

---
 network/network.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/network/network.go b/network/network.go
index 99a7b8f..7051946 100644
--- a/network/network.go
+++ b/network/network.go
@@ -246,7 +246,8 @@ func (ne *Network) ProcessInput(
 
 	for layerIndex, layer := range hiddenLayers {
 		curLayerSparsity := n.sparsity[layerIndex]
-		tmpRehash := rehash && curLayerSparsity < 1.0
+		// New hash functions make the content of the tables obsolete.
+		tmpRehash := (rehash || rebuild) && curLayerSparsity < 1.0
 		tmpRebuild := rebuild && curLayerSparsity < 1.0
 
 		if tmpRehash {
-- 
2.43.0


From c4a6510e73d582f846313dddd42575bc49b325b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:35 +0000
Subject: [PATCH 18/23] fix: accept data lines of any length

---
 dataset/xcrepo/xcrepo.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataset/xcrepo/xcrepo.go b/dataset/xcrepo/xcrepo.go
index 073f9dd..79aa593 100644
--- a/dataset/xcrepo/xcrepo.go
+++ b/dataset/xcrepo/xcrepo.go
@@ -19,6 +19,9 @@ import (
 	"github.com/nlpodyssey/goslide/index_value"
 )
 
+// Lines grow with the number of features: the default limit is too low.
+const maxLineLength = 1 << 30
+
 type Scanner struct {
 	bufScanner  *bufio.Scanner
 	err         error
@@ -44,6 +47,7 @@ func NewScanner(r io.Reader) *Scanner {
 	s := &Scanner{
 		bufScanner: bufio.NewScanner(r),
 	}
+	s.bufScanner.Buffer(nil, maxLineLength)
 
 	if s.bufScanner.Err() != nil {
 		return s
-- 
2.43.0


From daaaa4d07792cb97cd3a800a5e6bbd8502d2ee4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:36 +0000
Subject: [PATCH 19/23] fix: rehash and rebuild periods shorter than a batch
 mean every batch

---
 goslide.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/goslide.go b/goslide.go
index ce796c2..5855f12 100644
--- a/goslide.go
+++ b/goslide.go
@@ -125,6 +125,9 @@ func trainSvmEpoch(cowId, numBatches int, myNet *network.Network, epoch int) {
 
 	examples := make([]dataset.Example, 0, config.BatchSize)
 
+	rehashPeriod := periodInBatches(config.Rehash, config.BatchSize)
+	rebuildPeriod := periodInBatches(config.Rebuild, config.BatchSize)
+
 	for i := 0; i < numBatches; i++ {
 		if i > 0 && (i+epoch*numBatches)%config.Stepsize == 0 {
 			evaluateSvm(cowId, 20, myNet, epoch*numBatches+i)
@@ -143,11 +146,11 @@ func trainSvmEpoch(cowId, numBatches int, myNet *network.Network, epoch int) {
 		rebuild := false
 
 		if config.LayerMode == configuration.LayerMode1 || config.LayerMode == configuration.LayerMode4 {
-			if (epoch*numBatches+i)%(config.Rehash/config.BatchSize) == (config.Rehash/config.BatchSize - 1) {
+			if (epoch*numBatches+i)%rehashPeriod == rehashPeriod-1 {
 				rehash = true
 			}
 			// TODO: probably there was an error in the original code (using rehash at right)
-			if (epoch*numBatches+i)%(config.Rebuild/config.BatchSize) == (config.Rebuild/config.BatchSize - 1) {
+			if (epoch*numBatches+i)%rebuildPeriod == rebuildPeriod-1 {
 				rebuild = true
 			}
 		}
@@ -163,6 +166,13 @@ func trainSvmEpoch(cowId, numBatches int, myNet *network.Network, epoch int) {
 	}
 }
 
+func periodInBatches(records, batchSize int) int {
+	if records < batchSize {
+		return 1
+	}
+	return records / batchSize
+}
+
 func evaluateSvm(cowId, numBatchesTest int, myNet *network.Network, iter int) {
 	config := configuration.Global
 
-- 
2.43.0


From 5508c912a578fb4dc2bd5ff9a38daa631ce3768b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:37 +0000
Subject: [PATCH 20/23] fix: report accuracy over the records that were
 evaluated

---
 goslide.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/goslide.go b/goslide.go
index 5855f12..5c4a589 100644
--- a/goslide.go
+++ b/goslide.go
@@ -177,6 +177,7 @@ func evaluateSvm(cowId, numBatchesTest int, myNet *network.Network, iter int) {
 	config := configuration.Global
 
 	totCorrect := 0
+	totEvaluated := 0
 
 	file, err := os.Open(config.TestData)
 	if err != nil {
@@ -215,18 +216,26 @@ func evaluateSvm(cowId, numBatchesTest int, myNet *network.Network, iter int) {
 		correctPredict, myNet = myNet.PredictClass(cowId, examples)
 
 		totCorrect += correctPredict
+		totEvaluated += len(examples)
 
 		logger.Println("Iter", i, "-",
-			float64(totCorrect)/(float64(config.BatchSize)*(float64(i)+1)),
+			accuracy(totCorrect, totEvaluated),
 			"correct")
 	}
 
 	logger.Println("Over all:",
-		float64(totCorrect)/(float64(numBatchesTest)*float64(config.BatchSize)),
+		accuracy(totCorrect, totEvaluated),
 		"correct")
 
 	logger.Println(iter, globalTime,
-		float64(totCorrect)/(float64(numBatchesTest)*float64(config.BatchSize)))
+		accuracy(totCorrect, totEvaluated))
+}
+
+func accuracy(correct, evaluated int) float64 {
+	if evaluated == 0 {
+		return 0
+	}
+	return float64(correct) / float64(evaluated)
 }
 
 func validateArguments() {
-- 
2.43.0


From 0c9d460dba73a0990be63abeaa7bc6a53480870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:58 +0000
Subject: [PATCH 21/23] fix: shift the softmax by the largest activation even
 when all are negative

---
 layer/layer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layer/layer.go b/layer/layer.go
index 67feced..287f4d3 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -539,7 +539,7 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 				cowId, currentLayerActiveNodes, inputId,
 			)
 		nextLayerActiveNodes[i].Value = value
-		if l.nodeType == node.Softmax && value > maxValue {
+		if l.nodeType == node.Softmax && (i == 0 || value > maxValue) {
 			maxValue = value
 		}
 	}
-- 
2.43.0


From d1bbb80d6362c379109d3aff54bf1a9a3436d6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:57 +0000
Subject: [PATCH 22/23] fix: winner-take-all hashing of values below the int64
 range

The running maximum of a bin started at math.MinInt64, so a bin holding
only smaller values never got a winner.
---
 densified_wta_hash/densified_wta_hash.go | 2 +-
 wta_hash/wta_hash.go                     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/densified_wta_hash/densified_wta_hash.go b/densified_wta_hash/densified_wta_hash.go
index e42664d..99d77b2 100644
--- a/densified_wta_hash/densified_wta_hash.go
+++ b/densified_wta_hash/densified_wta_hash.go
@@ -122,7 +122,7 @@ func (dw *DensifiedWtaHash) GetHashEasy(data []float64, topK int) []int {
 
 	for i := range hashes {
 		hashes[i] = math.MinInt64
-		values[i] = math.MinInt64
+		values[i] = math.Inf(-1)
 	}
 
 	for p := 0; p < dw.permute; p++ {
diff --git a/wta_hash/wta_hash.go b/wta_hash/wta_hash.go
index 6475f7a..0f3e973 100644
--- a/wta_hash/wta_hash.go
+++ b/wta_hash/wta_hash.go
@@ -67,7 +67,7 @@ func (wh *WtaHash) GetHash(data []index_value.Pair) []int {
 
 	for i := 0; i < wh.numHashes; i++ {
 		hashes[i] = math.MinInt64
-		values[i] = math.MinInt64
+		values[i] = math.Inf(-1)
 	}
 
 	for i := 0; i < wh.numHashes; i++ {
@@ -94,7 +94,7 @@ func (wh *WtaHash) GetHashDense(data []float64) []int {
 
 	for i := 0; i < wh.numHashes; i++ {
 		hashes[i] = math.MinInt64
-		values[i] = math.MinInt64
+		values[i] = math.Inf(-1)
 	}
 
 	for i := 0; i < wh.numHashes; i++ {
-- 
2.43.0


From 83881b8b42b630e973923e3ffa02f137ca4cf646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:39 +0000
Subject: [PATCH 23/23] fix: report how many records an evaluation batch holds,
 also when it is partial

---
 goslide.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goslide.go b/goslide.go
index 5c4a589..db5f0d1 100644
--- a/goslide.go
+++ b/goslide.go
@@ -207,7 +207,7 @@ func evaluateSvm(cowId, numBatchesTest int, myNet *network.Network, iter int) {
 			logger.Fatalf("Error at line %d. %v", scanner.LineNumber(), err)
 		}
 
-		logger.Println(config.BatchSize, "records, with", numFeatures,
+		logger.Println(len(examples), "records, with", numFeatures,
 			"features and", numLabels, "labels")
 
 		var correctPredict int
-- 
2.43.0

