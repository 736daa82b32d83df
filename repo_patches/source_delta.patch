From 7f038c77e352799d38d53597f2f9a21e40bb67ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:30 +0000
Subject: [PATCH 01/18] fix: avoid recursive read locking in Value() of
 composite metrics

Value() held the core's read lock while calling getters that take the same
read lock again; with a writer waiting in between, both block forever.
---
 joint/corr.go        |  6 +++---
 joint/cov.go         |  4 ++--
 joint/ewmcorr.go     |  6 +++---
 moment/ewma.go       |  2 +-
 moment/kurtosis.go   |  6 +++---
 moment/mean.go       |  2 +-
 moment/moment.go     | 10 ++++++++--
 moment/skewness.go   |  6 +++---
 quantile/iqr.go      |  4 ++--
 quantile/quantile.go |  6 ++++++
 10 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/joint/corr.go b/joint/corr.go
index 6d28b68..2b35b65 100644
--- a/joint/corr.go
+++ b/joint/corr.go
@@ -86,18 +86,18 @@ func (corr *Corr) Value() (float64, error) {
 	// the sample size (minus 1), but the denominator is cancelled out
 	// when dividing by the sqrt of the variances, so we can avoid extra
 	// float ops here
-	cov, err := corr.core.Sum(1, 1)
+	cov, err := corr.core.UnsafeSum(1, 1)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {1, 1}")
 	}
 
 	// ditto with the "variance" variables here, as with above
-	xVar, err := corr.core.Sum(2, 0)
+	xVar, err := corr.core.UnsafeSum(2, 0)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {2, 0}")
 	}
 
-	yVar, err := corr.core.Sum(0, 2)
+	yVar, err := corr.core.UnsafeSum(0, 2)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {0, 2}")
 	}
diff --git a/joint/cov.go b/joint/cov.go
index 127dea1..f48e487 100644
--- a/joint/cov.go
+++ b/joint/cov.go
@@ -77,12 +77,12 @@ func (cov *Cov) Value() (float64, error) {
 	cov.core.RLock()
 	defer cov.core.RUnlock()
 
-	covariance, err := cov.core.Sum(1, 1)
+	covariance, err := cov.core.UnsafeSum(1, 1)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum")
 	}
 
-	count := cov.core.Count()
+	count := cov.core.UnsafeCount()
 	covariance /= (float64(count) - 1.)
 
 	return covariance, nil
diff --git a/joint/ewmcorr.go b/joint/ewmcorr.go
index fbd5d48..7009d35 100644
--- a/joint/ewmcorr.go
+++ b/joint/ewmcorr.go
@@ -83,18 +83,18 @@ func (corr *EWMCorr) Value() (float64, error) {
 	// the sample size (minus 1), but the denominator is cancelled out
 	// when dividing by the sqrt of the variances, so we can avoid extra
 	// float ops here
-	cov, err := corr.core.Sum(1, 1)
+	cov, err := corr.core.UnsafeSum(1, 1)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {1, 1}")
 	}
 
 	// ditto with the "variance" variables here, as with above
-	xVar, err := corr.core.Sum(2, 0)
+	xVar, err := corr.core.UnsafeSum(2, 0)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {2, 0}")
 	}
 
-	yVar, err := corr.core.Sum(0, 2)
+	yVar, err := corr.core.UnsafeSum(0, 2)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {0, 2}")
 	}
diff --git a/moment/ewma.go b/moment/ewma.go
index f3805f6..83bffd5 100644
--- a/moment/ewma.go
+++ b/moment/ewma.go
@@ -66,7 +66,7 @@ func (a *EWMA) Value() (float64, error) {
 	a.core.RLock()
 	defer a.core.RUnlock()
 
-	ewma, err := a.core.Mean()
+	ewma, err := a.core.UnsafeMean()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum")
 	}
diff --git a/moment/kurtosis.go b/moment/kurtosis.go
index 2a3c382..d512f5d 100644
--- a/moment/kurtosis.go
+++ b/moment/kurtosis.go
@@ -84,17 +84,17 @@ func (k *Kurtosis) Value() (float64, error) {
 	k.core.RLock()
 	defer k.core.RUnlock()
 
-	count := float64(k.core.Count())
+	count := float64(k.core.UnsafeCount())
 	if count == 0 {
 		return 0, errors.New("no values seen yet")
 	}
 
-	variance, err := k.variance.Value()
+	variance, err := k.variance.unsafeValue()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 2nd moment")
 	}
 
-	moment, err := k.moment4.Value()
+	moment, err := k.moment4.unsafeValue()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 4th moment")
 	}
diff --git a/moment/mean.go b/moment/mean.go
index 3afbb49..11f68da 100644
--- a/moment/mean.go
+++ b/moment/mean.go
@@ -69,7 +69,7 @@ func (m *Mean) Value() (float64, error) {
 	m.core.RLock()
 	defer m.core.RUnlock()
 
-	mean, err := m.core.Mean()
+	mean, err := m.core.UnsafeMean()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum")
 	}
diff --git a/moment/moment.go b/moment/moment.go
index c411185..0968621 100644
--- a/moment/moment.go
+++ b/moment/moment.go
@@ -77,13 +77,19 @@ func (m *Moment) Value() (float64, error) {
 
 	m.core.RLock()
 	defer m.core.RUnlock()
+	return m.unsafeValue()
+}
 
-	moment, err := m.core.Sum(m.k)
+// unsafeValue returns the value of the kth sample central moment, but does not
+// lock; the caller must hold the core's read lock, since read-locking the core
+// again deadlocks if a writer is waiting in between.
+func (m *Moment) unsafeValue() (float64, error) {
+	moment, err := m.core.UnsafeSum(m.k)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum")
 	}
 
-	count := m.core.Count()
+	count := m.core.UnsafeCount()
 	moment /= (float64(count) - 1.)
 
 	return moment, nil
diff --git a/moment/skewness.go b/moment/skewness.go
index 57e922f..71efe51 100644
--- a/moment/skewness.go
+++ b/moment/skewness.go
@@ -84,18 +84,18 @@ func (s *Skewness) Value() (float64, error) {
 	s.core.RLock()
 	defer s.core.RUnlock()
 
-	count := float64(s.core.Count())
+	count := float64(s.core.UnsafeCount())
 	if count == 0 {
 		return 0, errors.New("no values seen yet")
 	}
 
-	variance, err := s.variance.Value()
+	variance, err := s.variance.unsafeValue()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 2nd moment")
 	}
 	variance *= (count - 1) / count
 
-	moment, err := s.moment3.Value()
+	moment, err := s.moment3.unsafeValue()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 3rd moment")
 	}
diff --git a/quantile/iqr.go b/quantile/iqr.go
index 334037e..6145bd7 100644
--- a/quantile/iqr.go
+++ b/quantile/iqr.go
@@ -48,12 +48,12 @@ func (i *IQR) Value() (float64, error) {
 	i.quantile.RLock()
 	defer i.quantile.RUnlock()
 
-	q25, err := i.quantile.Value(0.25)
+	q25, err := i.quantile.unsafeValue(0.25)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 1st quartile")
 	}
 
-	q75, err := i.quantile.Value(0.75)
+	q75, err := i.quantile.unsafeValue(0.75)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 3rd quartile")
 	}
diff --git a/quantile/quantile.go b/quantile/quantile.go
index 47170f9..f4cfa89 100644
--- a/quantile/quantile.go
+++ b/quantile/quantile.go
@@ -98,7 +98,13 @@ func (q *Quantile) Value(quantile float64) (float64, error) {
 
 	q.mux.RLock()
 	defer q.mux.RUnlock()
+	return q.unsafeValue(quantile)
+}
 
+// unsafeValue returns the value of the quantile, but does not lock; the caller
+// must hold the read lock, since read-locking again deadlocks if a writer is
+// waiting in between.
+func (q *Quantile) unsafeValue(quantile float64) (float64, error) {
 	size := int(q.statistic.Size())
 	if size == 0 {
 		return 0, errors.New("no values seen yet")
-- 
2.43.0


From 6cabf40d8b127604483fa9c3fb43d086dba89814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:34 +0000
Subject: [PATCH 02/18] fix: keep queue items tied to the values they were
 pushed with in HeapMedian

rebalance() replaced the pushed item by whichever item it moved, so the queue
evicted the wrong value once the window was full, and a window of 1 panicked
when the low heap became empty.
---
 quantile/heap_median.go | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/quantile/heap_median.go b/quantile/heap_median.go
index 76550a7..21a5528 100644
--- a/quantile/heap_median.go
+++ b/quantile/heap_median.go
@@ -74,24 +74,22 @@ func (m *HeapMedian) Push(x float64) error {
 		}
 
 		item = tail.(*heap.Item)
-		low := item.HeapID == m.lowHeap.ID
-		switch {
-		// if new/old items are in the same heap, just replace the old item
-		case low && x <= m.lowHeap.Peek():
-			m.lowHeap.Update(item, x)
-		case !low && x > m.lowHeap.Peek():
-			m.highHeap.Update(item, x)
-		// otherwise, remove old item and push new value to other heap
-		case low && x > m.lowHeap.Peek():
+		// compare before removing, since the low heap may end up empty; it
+		// can already be empty here if the window size is 1
+		toLow := m.lowHeap.Len() == 0 || x <= m.lowHeap.Peek()
+		if item.HeapID == m.lowHeap.ID {
 			m.lowHeap.Remove(item)
-			item.Val = x
-			heapops.Push(m.highHeap, item)
-		default:
+		} else {
 			m.highHeap.Remove(item)
-			item.Val = x
+		}
+
+		item.Val = x
+		if toLow {
 			heapops.Push(m.lowHeap, item)
+		} else {
+			heapops.Push(m.highHeap, item)
 		}
-		item = m.rebalance(item)
+		m.rebalance()
 	} else {
 		item = &heap.Item{Val: x}
 		if m.lowHeap.Len() == 0 || x <= m.lowHeap.Peek() {
@@ -99,7 +97,7 @@ func (m *HeapMedian) Push(x float64) error {
 		} else {
 			heapops.Push(m.highHeap, item)
 		}
-		item = m.rebalance(item)
+		m.rebalance()
 	}
 
 	if m.window != 0 {
@@ -112,15 +110,12 @@ func (m *HeapMedian) Push(x float64) error {
 	return nil
 }
 
-func (m *HeapMedian) rebalance(item *heap.Item) *heap.Item {
+func (m *HeapMedian) rebalance() {
 	if m.lowHeap.Len()+1 < m.highHeap.Len() {
-		item = heapops.Pop(m.highHeap).(*heap.Item)
-		heapops.Push(m.lowHeap, item)
+		heapops.Push(m.lowHeap, heapops.Pop(m.highHeap))
 	} else if m.lowHeap.Len() > m.highHeap.Len()+1 {
-		item = heapops.Pop(m.lowHeap).(*heap.Item)
-		heapops.Push(m.highHeap, item)
+		heapops.Push(m.highHeap, heapops.Pop(m.lowHeap))
 	}
-	return item
 }
 
 // Value returns the value of the median.
-- 
2.43.0


From d2173ff6fd423b3d37c0bcd9016e92d9c0e439b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:49 +0000
Subject: [PATCH 03/18] fix: compute skip list widths by node identity

Add() stopped summing widths at the first node with an equal value instead of
at the next node of the level, so duplicates left wrong widths and Select()
returned the wrong element.
---
 quantile/skiplist/skiplist.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/quantile/skiplist/skiplist.go b/quantile/skiplist/skiplist.go
index cde2ca6..d5c7d3b 100644
--- a/quantile/skiplist/skiplist.go
+++ b/quantile/skiplist/skiplist.go
@@ -31,10 +31,6 @@ func (n *Node) Value() float64 {
 	return n.val
 }
 
-func (n *Node) equals(m *Node) bool {
-	return (n == nil && m == nil) || (n != nil && m != nil && n.val == m.val)
-}
-
 func (n *Node) string() string {
 	if n == nil {
 		return "tail"
@@ -129,7 +125,7 @@ func (s *SkipList) Add(val float64) {
 		prevs[i].width[i]++
 	}
 	for i := 1; i < level; i++ {
-		for curr := node; !curr.equals(node.next[i]); curr = curr.next[i-1] {
+		for curr := node; curr != node.next[i]; curr = curr.next[i-1] {
 			node.width[i] += curr.width[i-1]
 		}
 		prevs[i].width[i] -= node.width[i]
-- 
2.43.0


From 4fc22747f217c8caa89156524b29a2b89620f962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:08 +0000
Subject: [PATCH 04/18] fix: do not drop nodes when removing duplicates from
 the red black tree

After moveRedRight() rotated a different node with an equal value into place,
remove() replaced that one and lost its subtree's node to remove, dropping
elements or dereferencing nil.
---
 quantile/ost/rb/node.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantile/ost/rb/node.go b/quantile/ost/rb/node.go
index a1e7b29..fc0b079 100644
--- a/quantile/ost/rb/node.go
+++ b/quantile/ost/rb/node.go
@@ -118,10 +118,13 @@ func (n *Node) remove(val float64) *Node {
 		if val == n.val && n.right == nil {
 			return nil
 		}
+		root := n
 		if n.right.Color() == Black && n.right.left.Color() == Black {
 			n = n.moveRedRight()
 		}
-		if val == n.val {
+		// moveRedRight may have rotated another node with the same value into
+		// place, in which case the node to remove is now further down
+		if val == n.val && n == root {
 			x := n.right.min()
 			n.val = x.val
 			n.right = n.right.removeMin()
-- 
2.43.0


From 6ee5e28ca3c633622f47a5b82d97c8d83d065ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:11 +0000
Subject: [PATCH 05/18] fix: do not count duplicates in Rank() of the AVL and
 red black trees

Rank() returns the number of nodes strictly less than the value, but nodes
equal to the value in the left subtree were counted as well.
---
 quantile/ost/avl/node.go | 3 ++-
 quantile/ost/rb/node.go  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantile/ost/avl/node.go b/quantile/ost/avl/node.go
index a51bf74..be79a72 100644
--- a/quantile/ost/avl/node.go
+++ b/quantile/ost/avl/node.go
@@ -231,7 +231,8 @@ func (n *Node) Rank(val float64) int {
 	} else if val > n.val {
 		return 1 + n.left.Size() + n.right.Rank(val)
 	}
-	return n.left.Size()
+	// the left subtree may contain duplicates of the value
+	return n.left.Rank(val)
 }
 
 /*******************
diff --git a/quantile/ost/rb/node.go b/quantile/ost/rb/node.go
index fc0b079..2c71a0e 100644
--- a/quantile/ost/rb/node.go
+++ b/quantile/ost/rb/node.go
@@ -280,7 +280,8 @@ func (n *Node) Rank(val float64) int {
 	} else if val > n.val {
 		return 1 + n.left.Size() + n.right.Rank(val)
 	}
-	return n.left.Size()
+	// the left subtree may contain duplicates of the value
+	return n.left.Rank(val)
 }
 
 /*******************
-- 
2.43.0


From 42f741e75bce18032811b3444effb4c788500edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:29 +0000
Subject: [PATCH 06/18] fix: remove a value from overlapping joint sums only
 once

remove() committed the new sums after each tuple, so a sum covered by several
tuples had the evicted value removed several times.
---
 joint/core.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/joint/core.go b/joint/core.go
index cbb28b7..e80e7c0 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -320,10 +320,10 @@ func (c *Core) remove(xs ...float64) error {
 			if err != nil {
 				return errors.Wrapf(err, "error removing %v from sums for tuple %v", xs, tuple)
 			}
+		}
 
-			for hash, sum := range c.newSums {
-				c.sums[hash] = sum
-			}
+		for hash, sum := range c.newSums {
+			c.sums[hash] = sum
 		}
 	} else {
 		for i := range c.means {
-- 
2.43.0


From 942ab6df7e0938cd8ec852a10eb4c1abeefb743c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:35 +0000
Subject: [PATCH 07/18] fix: copy the values that a joint Core queues

UnsafePush() queued the caller's variadic slice, so a caller reusing its buffer
changed the values that were later removed from the window.
---
 joint/core.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/joint/core.go b/joint/core.go
index e80e7c0..6274144 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -108,7 +108,8 @@ func (c *Core) UnsafePush(xs ...float64) error {
 			}
 		}
 
-		err := c.queue.Put(xs)
+		// copy the values, since the caller may reuse the slice
+		err := c.queue.Put(append([]float64{}, xs...))
 		if err != nil {
 			return errors.Wrapf(err, "error pushing %v to queue", xs)
 		}
-- 
2.43.0


From 92017a992445a54626d71b2dff6a6950d6877621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:02 +0000
Subject: [PATCH 08/18] fix: reject untracked joint sums whose hash collides
 with a tracked one

Sum() looked its argument up by hash only, so tuples of another length or with
out of range exponents, such as Sum(32) with a core tracking {1, 1}, returned
an unrelated sum instead of an error.
---
 joint/core.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/joint/core.go b/joint/core.go
index 6274144..830e624 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -395,14 +395,30 @@ func (c *Core) UnsafeSum(xs ...int) (float64, error) {
 		return 0, errors.New("no values seen yet")
 	}
 
+	// the hash alone does not identify a Tuple, since Tuples of other lengths
+	// or with out of range exponents may share the hash of a tracked one
 	sum, ok := c.sums[Tuple(xs).hash()]
-	if !ok {
+	if !ok || !c.tracks(xs) {
 		return 0, errors.Errorf("%v is not a tracked power sum", xs)
 	}
 
 	return sum, nil
 }
 
+// tracks returns whether the Tuple is less than or equal to a configured Tuple.
+func (c *Core) tracks(m Tuple) bool {
+	for _, tuple := range c.tuples {
+		tracked := len(m) == len(tuple)
+		for i := 0; tracked && i < len(m); i++ {
+			tracked = 0 <= m[i] && m[i] <= tuple[i]
+		}
+		if tracked {
+			return true
+		}
+	}
+	return false
+}
+
 // Clear clears all stats being tracked.
 func (c *Core) Clear() {
 	c.mux.Lock()
-- 
2.43.0


From 47358ce04c68e04d00ca932806d72abcbcd22411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 09/18] fix: compute binomial coefficients without a shared,
 overflowing table

factorial() appended to a package level slice, a data race between otherwise
independent cores, and factorials above 20! overflow, so Binom(22, 2) was 0.
---
 util/math/math.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/util/math/math.go b/util/math/math.go
index 6a17a4e..a0af4cb 100644
--- a/util/math/math.go
+++ b/util/math/math.go
@@ -1,14 +1,12 @@
 package math
 
-var factorials = []int{1, 1, 2, 6, 24, 120, 720, 5040}
-
 func factorial(n int) int {
-	for n >= len(factorials) {
-		next := factorials[len(factorials)-1] * len(factorials)
-		factorials = append(factorials, next)
+	result := 1
+	for i := 2; i <= n; i++ {
+		result *= i
 	}
 
-	return factorials[n]
+	return result
 }
 
 // Sign returns the sign of an integer (-1 if negative, 1 otherwise).
@@ -22,9 +20,16 @@ func Sign(n int) int {
 
 // Binom returns the binomial coefficient.
 func Binom(n, k int) int {
-	if k == 0 || k == n {
-		return 1
+	if k > n-k {
+		k = n - k
+	}
+
+	// every prefix of this product is itself a binomial coefficient, so the
+	// divisions are exact, and no factorial can overflow
+	result := 1
+	for i := 1; i <= k; i++ {
+		result = result * (n - k + i) / i
 	}
 
-	return factorial(n) / (factorial(k) * factorial(n-k))
+	return result
 }
-- 
2.43.0


From 3caecff171485f2c10875d40c9940a631bfe46fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:31 +0000
Subject: [PATCH 10/18] fix: reject NaN for decays, probabilities and quantiles

NaN fails every comparison, so it passed the checks for lying in (0, 1); a NaN
quantile then made Value() panic.
---
 joint/config.go             | 2 +-
 moment/config.go            | 2 +-
 quantile/quantile.go        | 2 +-
 quantile/skiplist/option.go | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/joint/config.go b/joint/config.go
index 766cdf1..9373b1f 100644
--- a/joint/config.go
+++ b/joint/config.go
@@ -139,7 +139,7 @@ func validateConfig(config *CoreConfig) error {
 	}
 
 	if config.Decay != nil {
-		if *config.Decay <= 0 || *config.Decay >= 1 {
+		if !(*config.Decay > 0 && *config.Decay < 1) { // also rejects NaN
 			return errors.Errorf("config has a decay of %f, which is not in (0, 1)", *config.Decay)
 		} else if *config.Window > 0 {
 			return errors.New("config cannot have Decay set with a nonzero window")
diff --git a/moment/config.go b/moment/config.go
index 7789c07..f7417cd 100644
--- a/moment/config.go
+++ b/moment/config.go
@@ -80,7 +80,7 @@ func validateConfig(config *CoreConfig) error {
 	}
 
 	if config.Decay != nil {
-		if *config.Decay <= 0 || *config.Decay >= 1 {
+		if !(*config.Decay > 0 && *config.Decay < 1) { // also rejects NaN
 			return errors.Errorf("config has a decay of %f, which is not in (0, 1)", *config.Decay)
 		} else if *config.Window > 0 {
 			return errors.New("config cannot have Decay set with a nonzero window")
diff --git a/quantile/quantile.go b/quantile/quantile.go
index f4cfa89..ff8e6dc 100644
--- a/quantile/quantile.go
+++ b/quantile/quantile.go
@@ -92,7 +92,7 @@ func (q *Quantile) Push(x float64) error {
 
 // Value returns the value of the quantile.
 func (q *Quantile) Value(quantile float64) (float64, error) {
-	if quantile <= 0 || quantile >= 1 {
+	if !(quantile > 0 && quantile < 1) { // also rejects NaN
 		return 0, errors.Errorf("quantile %f not in (0, 1)", quantile)
 	}
 
diff --git a/quantile/skiplist/option.go b/quantile/skiplist/option.go
index a4963a7..cac497a 100644
--- a/quantile/skiplist/option.go
+++ b/quantile/skiplist/option.go
@@ -35,7 +35,7 @@ func ProbabilityOption(p float64) order.Option {
 		)
 		if skiplist, ok = s.(*SkipList); !ok {
 			return errors.New("attempted to set probability on a non-skiplist")
-		} else if p <= 0 || p >= 1 {
+		} else if !(p > 0 && p < 1) { // also rejects NaN
 			return errors.Errorf("attempted to set probability %f not in (0, 1)", p)
 		}
 		skiplist.p = p
-- 
2.43.0


From b4cc1a93eb7226081854f9e189fc438a7f54c280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:34 +0000
Subject: [PATCH 11/18] fix: do not write to the caller's options in NewMedian
 and NewIQR

Appending to the variadic options overwrites the element after them when the
caller passes a slice with spare capacity.
---
 quantile/iqr.go    | 4 +++-
 quantile/median.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantile/iqr.go b/quantile/iqr.go
index 6145bd7..739b920 100644
--- a/quantile/iqr.go
+++ b/quantile/iqr.go
@@ -13,7 +13,9 @@ type IQR struct {
 
 // NewIQR instantiates an IQR struct.
 func NewIQR(window int, options ...Option) (*IQR, error) {
-	quantile, err := New(window, append(options, InterpolationOption(Midpoint))...)
+	// limit the capacity, so that appending does not write to the caller's slice
+	options = append(options[:len(options):len(options)], InterpolationOption(Midpoint))
+	quantile, err := New(window, options...)
 	if err != nil {
 		return nil, errors.Wrap(err, "error creating Quantile")
 	}
diff --git a/quantile/median.go b/quantile/median.go
index f740fc6..67af7b0 100644
--- a/quantile/median.go
+++ b/quantile/median.go
@@ -15,7 +15,9 @@ type Median struct {
 // structure for tracking order statistics can be configured by passing in a constant
 // of type Impl.
 func NewMedian(window int, options ...Option) (*Median, error) {
-	quantile, err := New(window, append(options, InterpolationOption(Midpoint))...)
+	// limit the capacity, so that appending does not write to the caller's slice
+	options = append(options[:len(options):len(options)], InterpolationOption(Midpoint))
+	quantile, err := New(window, options...)
 	if err != nil {
 		return nil, errors.Wrap(err, "error creating Quantile")
 	}
-- 
2.43.0


From 58152f037b374572f5b5fa76acf445f92076430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:38 +0000
Subject: [PATCH 12/18] fix: apply the order options of ImplOption to every
 implementation

The options were silently ignored for the AVL and red black trees, instead of
reporting that they only apply to a skip list.
---
 quantile/impl.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/quantile/impl.go b/quantile/impl.go
index a05511a..ce76c67 100644
--- a/quantile/impl.go
+++ b/quantile/impl.go
@@ -37,12 +37,23 @@ func (i Impl) Valid() bool {
 func (i Impl) init(options ...order.Option) (order.Statistic, error) {
 	switch i {
 	case AVL:
-		return &avl.Tree{}, nil
+		return withOptions(&avl.Tree{}, options)
 	case RedBlack:
-		return &rb.Tree{}, nil
+		return withOptions(&rb.Tree{}, options)
 	case SkipList:
 		return skiplist.New(options...)
 	default:
 		return nil, errors.Errorf("%v is not a supported Impl value", i)
 	}
 }
+
+func withOptions(statistic order.Statistic, options []order.Option) (order.Statistic, error) {
+	for _, option := range options {
+		err := option(statistic)
+		if err != nil {
+			return nil, errors.Wrap(err, "error setting option")
+		}
+	}
+
+	return statistic, nil
+}
-- 
2.43.0


From 282a2abe8b176d5a13e7f1cdc8c3efb2d8868770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:18 +0000
Subject: [PATCH 13/18] fix: do not modify or keep the caller's config in
 NewCore

NewCore() wrote defaults and inferred vars into the config it was given, and
the Core kept its Decay pointer and Sums, so a reused or later modified config
changed what other cores computed.
---
 joint/config.go  | 17 +++++++++++++++++
 moment/config.go | 10 ++++++++++
 2 files changed, 27 insertions(+)

diff --git a/joint/config.go b/joint/config.go
index 9373b1f..67fbcea 100644
--- a/joint/config.go
+++ b/joint/config.go
@@ -2,6 +2,8 @@ package joint
 
 import (
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // SumsConfig is an alias for a slice of Tuples; this configures
@@ -197,6 +199,21 @@ func validateTuple(tuple Tuple, config *CoreConfig) error {
 }
 
 func setConfigDefaults(config *CoreConfig) *CoreConfig {
+	// work on a copy, and do not share what a Core keeps, since the config
+	// belongs to the caller
+	copied := *config
+	config = &copied
+	if config.Decay != nil {
+		config.Decay = stream.FloatPtr(*config.Decay)
+	}
+	if config.Sums != nil {
+		sums := config.Sums
+		config.Sums = SumsConfig{}
+		for _, tuple := range sums {
+			config.Sums = append(config.Sums, append(Tuple{}, tuple...))
+		}
+	}
+
 	if config.Sums == nil {
 		config.Sums = defaultConfig.Sums
 	}
diff --git a/moment/config.go b/moment/config.go
index f7417cd..ae56d45 100644
--- a/moment/config.go
+++ b/moment/config.go
@@ -2,6 +2,8 @@ package moment
 
 import (
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // CoreConfig is the struct containing configuration options for
@@ -97,6 +99,14 @@ func validateConfig(config *CoreConfig) error {
 }
 
 func setConfigDefaults(config *CoreConfig) *CoreConfig {
+	// work on a copy, and do not share what a Core keeps, since the config
+	// belongs to the caller
+	copied := *config
+	config = &copied
+	if config.Decay != nil {
+		config.Decay = stream.FloatPtr(*config.Decay)
+	}
+
 	if config.Sums == nil {
 		config.Sums = defaultConfig.Sums
 	}
-- 
2.43.0


From faa6d8fdc6dd442059ec134166dc20eaf00fada4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:21 +0000
Subject: [PATCH 14/18] fix: copy the metrics passed to the aggregate
 constructors

The aggregates kept the caller's variadic slice, so changing it afterwards
changed which metrics are tracked, without synchronization.
---
 aggregate/simple_aggregate.go       | 3 ++-
 aggregate/simple_joint_aggregate.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/aggregate/simple_aggregate.go b/aggregate/simple_aggregate.go
index 47079b0..881f5bf 100644
--- a/aggregate/simple_aggregate.go
+++ b/aggregate/simple_aggregate.go
@@ -19,7 +19,8 @@ type SimpleAggregateMetric struct {
 
 // NewSimpleAggregateMetric instantiates an SimpleAggregateMetric struct.
 func NewSimpleAggregateMetric(metrics ...stream.SimpleMetric) *SimpleAggregateMetric {
-	return &SimpleAggregateMetric{metrics: metrics}
+	// copy the metrics, since the caller may reuse the slice
+	return &SimpleAggregateMetric{metrics: append([]stream.SimpleMetric{}, metrics...)}
 }
 
 // Push adds a new value for the metrics to consume.
diff --git a/aggregate/simple_joint_aggregate.go b/aggregate/simple_joint_aggregate.go
index f18518f..01a4269 100644
--- a/aggregate/simple_joint_aggregate.go
+++ b/aggregate/simple_joint_aggregate.go
@@ -18,7 +18,8 @@ type SimpleJointAggregateMetric struct {
 
 // NewSimpleJointAggregateMetric instantiates an SimpleJointAggregateMetric struct.
 func NewSimpleJointAggregateMetric(metrics ...stream.SimpleJointMetric) *SimpleJointAggregateMetric {
-	return &SimpleJointAggregateMetric{metrics: metrics}
+	// copy the metrics, since the caller may reuse the slice
+	return &SimpleJointAggregateMetric{metrics: append([]stream.SimpleJointMetric{}, metrics...)}
 }
 
 // Push adds a new value for the metrics to consume.
-- 
2.43.0


From 67e028cf93cda44b432b4df46ac11de4021966cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:27 +0000
Subject: [PATCH 15/18] fix: declare the Values() signature that the aggregate
 metrics have

AggregateMetric and JointAggregateMetric declared map[string]interface{}, so
neither aggregate metric satisfied its interface.
---
 metric.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metric.go b/metric.go
index e687a11..40bec9e 100644
--- a/metric.go
+++ b/metric.go
@@ -24,7 +24,7 @@ type SimpleMetric interface {
 // time. The keys are the string representations of the metrics (by calling the String() method).
 type AggregateMetric interface {
 	Push(float64) error
-	Values() (map[string]interface{}, error)
+	Values() (map[string]float64, error)
 	Clear()
 }
 
@@ -48,6 +48,6 @@ type SimpleJointMetric interface {
 // time. The keys are the string representations of the metrics (by calling the String() method).
 type JointAggregateMetric interface {
 	Push(...float64) error
-	Values() (map[string]interface{}, error)
+	Values() (map[string]float64, error)
 	Clear()
 }
-- 
2.43.0


From 720368e6e1a92b11f4ae7032ae4b1124f68a8668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 16/18] fix: keep tuples of differing lengths when merging
 joint configs

MergeConfigs() indexed past the end of a shorter tuple, or dropped a tuple
because its hash or leading exponents matched those of one with another length,
so that NewCore() could not report the mismatch.
---
 joint/config.go | 20 +++-----------------
 joint/tuple.go  | 16 ++++++++++++++++
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/joint/config.go b/joint/config.go
index 67fbcea..79f8767 100644
--- a/joint/config.go
+++ b/joint/config.go
@@ -90,30 +90,17 @@ func MergeConfigs(configs ...*CoreConfig) (*CoreConfig, error) {
 // remove any duplicate Tuples, or Tuples that are less than or equal
 // to other Tuples, since they'll get tracked automatically
 func simplifySums(sums SumsConfig) SumsConfig {
-	tupleMap := map[uint64]bool{}
 	newSums := SumsConfig{}
 	for i, m := range sums {
-		// remove dupes
-		if _, ok := tupleMap[m.hash()]; ok {
-			continue
-		}
-
-		// if Tuple is less than or equal to an already existing Tuple,
-		// skip this one
+		// if Tuple is less than or equal to an already existing Tuple
+		// (which includes dupes), skip this one
 		leq := false
 		for j, n := range sums {
 			if i <= j {
 				continue
 			}
 
-			allLeq := true
-			for i := range m {
-				if m[i] > n[i] {
-					allLeq = false
-					break
-				}
-			}
-			if allLeq {
+			if m.leq(n) {
 				leq = true
 				break
 			}
@@ -122,7 +109,6 @@ func simplifySums(sums SumsConfig) SumsConfig {
 			continue
 		}
 
-		tupleMap[m.hash()] = true
 		newSums = append(newSums, m)
 	}
 
diff --git a/joint/tuple.go b/joint/tuple.go
index 61b273c..da44c27 100644
--- a/joint/tuple.go
+++ b/joint/tuple.go
@@ -49,6 +49,22 @@ func (m Tuple) eq(n Tuple) bool {
 	return true
 }
 
+// leq returns whether m_i <= n_i for all i; Tuples of different
+// lengths are not comparable.
+func (m Tuple) leq(n Tuple) bool {
+	if len(m) != len(n) {
+		return false
+	}
+
+	for i := range m {
+		if m[i] > n[i] {
+			return false
+		}
+	}
+
+	return true
+}
+
 func sub(m, n Tuple) (Tuple, error) {
 	if len(m) != len(n) {
 		return nil, errors.Errorf(
-- 
2.43.0


From 52440954a0cdaa315bbeea5327bef5caad78390c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:57 +0000
Subject: [PATCH 17/18] fix: let the tree nodes satisfy the documented ost.Node
 interface

Left and Right of both trees return an order.Node, so no type satisfied
an interface whose Left and Right return an ost.Node.
---
 quantile/ost/ost.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantile/ost/ost.go b/quantile/ost/ost.go
index af3c536..f587387 100644
--- a/quantile/ost/ost.go
+++ b/quantile/ost/ost.go
@@ -19,8 +19,8 @@ type Tree interface {
 
 // Node is the interface for any node struct within an Tree.
 type Node interface {
-	Left() (Node, error)
-	Right() (Node, error)
+	Left() (order.Node, error)
+	Right() (order.Node, error)
 	Size() int
 	Value() float64
 	Select(int) order.Node
-- 
2.43.0


From 6c2fab559c4431b8e871faab73dea5102dcb6409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:15 +0000
Subject: [PATCH 18/18] fix: return configs that do not alias the state of the
 metric

---
 joint/corr.go       |  4 +++-
 joint/cov.go        |  4 +++-
 joint/ewmcorr.go    |  2 +-
 joint/ewmcov.go     |  2 +-
 moment/ewma.go      |  2 +-
 moment/ewmmoment.go |  2 +-
 moment/kurtosis.go  | 10 +++++++++-
 moment/mean.go      |  4 +++-
 moment/moment.go    |  4 +++-
 moment/skewness.go  | 10 +++++++++-
 10 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/joint/corr.go b/joint/corr.go
index 2b35b65..fc279bc 100644
--- a/joint/corr.go
+++ b/joint/corr.go
@@ -5,6 +5,8 @@ import (
 	"math"
 
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // Corr is a metric that tracks the sample Pearson correlation coefficient.
@@ -42,7 +44,7 @@ func (corr *Corr) Config() *CoreConfig {
 			{2, 0},
 			{0, 2},
 		},
-		Window: &corr.window,
+		Window: stream.IntPtr(corr.window),
 	}
 }
 
diff --git a/joint/cov.go b/joint/cov.go
index f48e487..c6e2f7d 100644
--- a/joint/cov.go
+++ b/joint/cov.go
@@ -4,6 +4,8 @@ import (
 	"fmt"
 
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // Cov is a metric that tracks the sample covariance.
@@ -37,7 +39,7 @@ func (cov *Cov) IsSetCore() bool {
 func (cov *Cov) Config() *CoreConfig {
 	return &CoreConfig{
 		Sums:   SumsConfig{{1, 1}},
-		Window: &cov.window,
+		Window: stream.IntPtr(cov.window),
 	}
 }
 
diff --git a/joint/ewmcorr.go b/joint/ewmcorr.go
index 7009d35..7851220 100644
--- a/joint/ewmcorr.go
+++ b/joint/ewmcorr.go
@@ -39,7 +39,7 @@ func (corr *EWMCorr) Config() *CoreConfig {
 			{0, 2},
 		},
 		Window: stream.IntPtr(0),
-		Decay:  &corr.decay,
+		Decay:  stream.FloatPtr(corr.decay),
 	}
 }
 
diff --git a/joint/ewmcov.go b/joint/ewmcov.go
index 7c1f49e..f2e2e14 100644
--- a/joint/ewmcov.go
+++ b/joint/ewmcov.go
@@ -34,7 +34,7 @@ func (cov *EWMCov) Config() *CoreConfig {
 	return &CoreConfig{
 		Sums:   SumsConfig{{1, 1}},
 		Window: stream.IntPtr(0),
-		Decay:  &cov.decay,
+		Decay:  stream.FloatPtr(cov.decay),
 	}
 }
 
diff --git a/moment/ewma.go b/moment/ewma.go
index 83bffd5..3a34bb5 100644
--- a/moment/ewma.go
+++ b/moment/ewma.go
@@ -33,7 +33,7 @@ func (a *EWMA) IsSetCore() bool {
 func (a *EWMA) Config() *CoreConfig {
 	return &CoreConfig{
 		Window: stream.IntPtr(0),
-		Decay:  &a.decay,
+		Decay:  stream.FloatPtr(a.decay),
 	}
 }
 
diff --git a/moment/ewmmoment.go b/moment/ewmmoment.go
index 0549048..60d7cdd 100644
--- a/moment/ewmmoment.go
+++ b/moment/ewmmoment.go
@@ -42,7 +42,7 @@ func (m *EWMMoment) Config() *CoreConfig {
 		// weighting scheme that's used prevents weights from being
 		// updated in a time-efficient manner
 		Window: stream.IntPtr(0),
-		Decay:  &m.decay,
+		Decay:  stream.FloatPtr(m.decay),
 	}
 }
 
diff --git a/moment/kurtosis.go b/moment/kurtosis.go
index d512f5d..4afbb56 100644
--- a/moment/kurtosis.go
+++ b/moment/kurtosis.go
@@ -5,6 +5,8 @@ import (
 	"math"
 
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // Kurtosis is a metric that tracks the sample excess kurtosis.
@@ -52,7 +54,13 @@ func (k *Kurtosis) IsSetCore() bool {
 
 // Config returns the CoreConfig needed.
 func (k *Kurtosis) Config() *CoreConfig {
-	return k.config
+	// the caller may change the config
+	sums := SumsConfig{}
+	sums.add(k.config.Sums)
+	return &CoreConfig{
+		Sums:   sums,
+		Window: stream.IntPtr(*k.config.Window),
+	}
 }
 
 // String returns a string representation of the metric.
diff --git a/moment/mean.go b/moment/mean.go
index 11f68da..9b2fd76 100644
--- a/moment/mean.go
+++ b/moment/mean.go
@@ -4,6 +4,8 @@ import (
 	"fmt"
 
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // Mean is a metric that tracks the mean.
@@ -36,7 +38,7 @@ func (m *Mean) IsSetCore() bool {
 // Config returns the CoreConfig needed.
 func (m *Mean) Config() *CoreConfig {
 	return &CoreConfig{
-		Window: &m.window,
+		Window: stream.IntPtr(m.window),
 	}
 }
 
diff --git a/moment/moment.go b/moment/moment.go
index 0968621..c15f6fc 100644
--- a/moment/moment.go
+++ b/moment/moment.go
@@ -5,6 +5,8 @@ import (
 	"strings"
 
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // Moment is a metric that tracks the kth sample central moment.
@@ -42,7 +44,7 @@ func (m *Moment) IsSetCore() bool {
 func (m *Moment) Config() *CoreConfig {
 	return &CoreConfig{
 		Sums:   SumsConfig{m.k: true},
-		Window: &m.window,
+		Window: stream.IntPtr(m.window),
 	}
 }
 
diff --git a/moment/skewness.go b/moment/skewness.go
index 71efe51..1f07598 100644
--- a/moment/skewness.go
+++ b/moment/skewness.go
@@ -5,6 +5,8 @@ import (
 	"math"
 
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // Skewness is a metric that tracks the adjusted Fisher-Pearson sample skewness.
@@ -52,7 +54,13 @@ func (s *Skewness) IsSetCore() bool {
 
 // Config returns the CoreConfig needed.
 func (s *Skewness) Config() *CoreConfig {
-	return s.config
+	// the caller may change the config
+	sums := SumsConfig{}
+	sums.add(s.config.Sums)
+	return &CoreConfig{
+		Sums:   sums,
+		Window: stream.IntPtr(*s.config.Window),
+	}
 }
 
 // String returns a string representation of the metric.
-- 
2.43.0

