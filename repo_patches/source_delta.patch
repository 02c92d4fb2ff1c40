From 4d6c6536a4da296049342e3ce40af0f505396f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:32 +0000
Subject: [PATCH 1/5] fix: do not panic on a gRPC read reply without envelopes

---
 pkg/client/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/client/client.go b/pkg/client/client.go
index 53367ab..0ba1d5a 100644
--- a/pkg/client/client.go
+++ b/pkg/client/client.go
@@ -235,7 +235,7 @@ func (c *Client) grpcRead(ctx context.Context, sourceID string, start time.Time,
 	if err != nil {
 		return nil, err
 	}
-	return resp.Envelopes.Batch, nil
+	return resp.GetEnvelopes().GetBatch(), nil
 }
 
 // Meta returns meta information from the entire LogCache.
-- 
2.43.0


From 1560fbd8d2ebb8e6eec4dae6f98aa4edee3639e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:55 +0000
Subject: [PATCH 2/5] fix: emit measured metrics when there is no HTTP client
 to ask for the uptime

---
 internal/blackbox/blackbox.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/blackbox/blackbox.go b/internal/blackbox/blackbox.go
index 10276c3..81ec17e 100644
--- a/internal/blackbox/blackbox.go
+++ b/internal/blackbox/blackbox.go
@@ -151,9 +151,13 @@ func EmitMeasuredMetrics(sourceId string, ingressClient logcache_v1.IngressClien
 		return
 	}
 
-	up, err := logCache.LogCacheVMUptime(context.TODO())
-	if err != nil {
-		log.Printf("Couldn't fetch vm uptime, ignoring it: %s", err.Error())
+	var err error
+	up := int64(-1)
+	if logCache != nil {
+		up, err = logCache.LogCacheVMUptime(context.TODO())
+		if err != nil {
+			log.Printf("Couldn't fetch vm uptime, ignoring it: %s", err.Error())
+		}
 	}
 
 	if up >= 0 && up < TEN_MINUTES {
-- 
2.43.0


From 99b8bd275fe5a58136a6e8e6fda1a00414e8e04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:27 +0000
Subject: [PATCH 3/5] fix: do not panic on a token without key id or algorithm

---
 internal/auth/uaa_client.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/auth/uaa_client.go b/internal/auth/uaa_client.go
index 81b6adb..0d54247 100644
--- a/internal/auth/uaa_client.go
+++ b/internal/auth/uaa_client.go
@@ -178,11 +178,14 @@ func (c *UAAClient) Read(token string) (Oauth2ClientContext, error) {
 	}
 
 	payload, _, err := jose.Decode(trimBearer(token), func(headers map[string]interface{}, payload string) interface{} {
-		if headers["alg"] != "RS256" {
-			return AlgorithmError{Alg: headers["alg"].(string)}
+		if alg, _ := headers["alg"].(string); alg != "RS256" {
+			return AlgorithmError{Alg: alg}
 		}
 
-		keyId := headers["kid"].(string)
+		keyId, ok := headers["kid"].(string)
+		if !ok {
+			return UnknownTokenKeyError{}
+		}
 
 		publicKey, err := c.loadOrFetchPublicKey(keyId)
 		if err != nil {
-- 
2.43.0


From fef44cc182091ac3e115397458dd01e98bc02fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:08 +0000
Subject: [PATCH 4/5] fix: reading a source loses and breaks up envelopes of
 equal times

Envelopes are stored under their timestamp or, where that is taken, shortly
after. Reading cut the tree off by timestamps, which are not in the order of the
tree then: of 11, 13, 10, 10 reading up to 11 found one of two. Whether
envelopes of one timestamp stayed together at the limit depended on the shape of
the tree: of 5, 1, 1 reading one found one, and readers that continue after it
never saw the other.
---
 internal/cache/store/store.go | 99 +++++++++++++++++++++++++----------
 1 file changed, 72 insertions(+), 27 deletions(-)

diff --git a/internal/cache/store/store.go b/internal/cache/store/store.go
index 1be4d84..e258087 100644
--- a/internal/cache/store/store.go
+++ b/internal/cache/store/store.go
@@ -3,7 +3,9 @@ package store
 import (
 	"code.cloudfoundry.org/go-loggregator/metrics"
 	"container/heap"
+	"math"
 	"regexp"
+	"sort"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -298,13 +300,60 @@ func (store *Store) Get(
 	tree.(*storage).RLock()
 	defer tree.(*storage).RUnlock()
 
+	from, to := start.UnixNano(), end.UnixNano()
+	res := store.collect(tree.(*storage), from, to, envelopeTypes, nameFilter, limit, descending)
+
+	// Exceed the limit rather than break up envelopes of the same timestamp:
+	// readers continue with the next one.
+	if len(res) > 0 && len(res) >= limit {
+		oldest, newest := res[0].GetTimestamp(), res[0].GetTimestamp()
+		for _, e := range res {
+			if e.GetTimestamp() < oldest {
+				oldest = e.GetTimestamp()
+			}
+			if e.GetTimestamp() > newest {
+				newest = e.GetTimestamp()
+			}
+		}
+
+		if descending {
+			from = oldest
+		} else {
+			to = newest + 1
+		}
+		res = store.collect(tree.(*storage), from, to, envelopeTypes, nameFilter, math.MaxInt32, descending)
+	}
+
+	// Close timestamps can be stored out of order.
+	sort.SliceStable(res, func(i, j int) bool {
+		if descending {
+			return res[i].GetTimestamp() > res[j].GetTimestamp()
+		}
+		return res[i].GetTimestamp() < res[j].GetTimestamp()
+	})
+
+	store.metrics.incEgress.Add(float64(len(res)))
+	return res
+}
+
+// collect fetches the envelopes in [start..end), in the order they are stored,
+// until it has as many as the limit.
+func (store *Store) collect(
+	tree *storage,
+	start int64,
+	end int64,
+	envelopeTypes []logcache_v1.EnvelopeType,
+	nameFilter *regexp.Regexp,
+	limit int,
+	descending bool,
+) []*loggregator_v2.Envelope {
 	traverser := store.treeAscTraverse
 	if descending {
 		traverser = store.treeDescTraverse
 	}
 
 	var res []*loggregator_v2.Envelope
-	traverser(tree.(*storage).Root, start.UnixNano(), end.UnixNano(), func(e *loggregator_v2.Envelope) bool {
+	traverser(tree.Root, start, end, func(e *loggregator_v2.Envelope) bool {
 		e = store.filterByName(e, nameFilter)
 		if e == nil {
 			return false
@@ -318,7 +367,6 @@ func (store *Store) Get(
 		return len(res) >= limit
 	})
 
-	store.metrics.incEgress.Add(float64(len(res)))
 	return res
 }
 
@@ -394,12 +442,20 @@ func (s *Store) treeAscTraverse(
 	e := n.Value.(*loggregator_v2.Envelope)
 	t := e.GetTimestamp()
 
-	if t >= start {
+	key := n.Key.(int64)
+
+	// Envelopes are stored under their timestamp or, where that was taken, up
+	// to maxTimestampFudge later. Only the keys are in the order of the tree.
+	if key >= start {
 		if s.treeAscTraverse(n.Children[0], start, end, f) {
 			return true
 		}
 
-		if (t >= end || f(e)) && !isNodeAFudgeSequenceMember(n, 1) {
+		if t >= start && t < end && f(e) {
+			return true
+		}
+
+		if s.isPastEnd(key, end) {
 			return true
 		}
 	}
@@ -407,27 +463,10 @@ func (s *Store) treeAscTraverse(
 	return s.treeAscTraverse(n.Children[1], start, end, f)
 }
 
-func isNodeAFudgeSequenceMember(node *avltree.Node, nextChildIndex int) bool {
-	e := node.Value.(*loggregator_v2.Envelope)
-	timestamp := e.GetTimestamp()
-
-	// check if node is internal to a fudge sequence
-	if timestamp != node.Key.(int64) {
-		return true
-	}
-
-	// node is not internal, but could initiate a fudge sequence, so
-	// check next child
-	nextChild := node.Children[nextChildIndex]
-	if nextChild == nil {
-		return false
-	}
-
-	// if next child exists, check it for fudge sequence membership.
-	// if the child's timestamps don't match, then the parent is the first
-	// member of a fudge sequence.
-	nextEnvelope := nextChild.Value.(*loggregator_v2.Envelope)
-	return (nextEnvelope.GetTimestamp() != nextChild.Key.(int64))
+// isPastEnd tells whether envelopes stored under key, or after it, have
+// timestamps that are not before end.
+func (s *Store) isPastEnd(key, end int64) bool {
+	return key >= end && key-end >= s.maxTimestampFudge
 }
 
 func (s *Store) treeDescTraverse(
@@ -443,12 +482,18 @@ func (s *Store) treeDescTraverse(
 	e := n.Value.(*loggregator_v2.Envelope)
 	t := e.GetTimestamp()
 
-	if t < end {
+	key := n.Key.(int64)
+
+	if !s.isPastEnd(key, end) {
 		if s.treeDescTraverse(n.Children[1], start, end, f) {
 			return true
 		}
 
-		if (t < start || f(e)) && !isNodeAFudgeSequenceMember(n, 0) {
+		if t >= start && t < end && f(e) {
+			return true
+		}
+
+		if key < start {
 			return true
 		}
 	}
-- 
2.43.0


From d97ed408e67da9cf18abd9944d5dfdef1985d8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:53 +0000
Subject: [PATCH 5/5] fix: after pruning the store's oldest time is that of its
 oldest envelope

The last element of the heap's array is not its least: with three sources left
the cache period was computed from whichever source was last.
---
 internal/cache/store/store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/cache/store/store.go b/internal/cache/store/store.go
index e258087..f3659e8 100644
--- a/internal/cache/store/store.go
+++ b/internal/cache/store/store.go
@@ -245,7 +245,7 @@ func (store *Store) truncate() {
 	}
 
 	// Otherwise, grab the next oldest timestamp and use it to update the cache period
-	if oldest := expirationHeap.Pop(); oldest.(storageExpiration).tree != nil {
+	if oldest := heap.Pop(expirationHeap); oldest.(storageExpiration).tree != nil {
 		atomic.StoreInt64(&store.oldestTimestamp, oldest.(storageExpiration).timestamp)
 		cachePeriod := calculateCachePeriod(oldest.(storageExpiration).timestamp)
 		store.metrics.setCachePeriod.Set(float64(cachePeriod))
-- 
2.43.0

