From 730ceaf55d1cb6dca7d89b75e68d7a9975404e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:25 +0000
Subject: [PATCH 01/32] fix: client no longer panics on a gRPC read response
 without envelopes

---
 pkg/client/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/client/client.go b/pkg/client/client.go
index 53367ab..0ba1d5a 100644
--- a/pkg/client/client.go
+++ b/pkg/client/client.go
@@ -235,7 +235,7 @@ func (c *Client) grpcRead(ctx context.Context, sourceID string, start time.Time,
 	if err != nil {
 		return nil, err
 	}
-	return resp.Envelopes.Batch, nil
+	return resp.GetEnvelopes().GetBatch(), nil
 }
 
 // Meta returns meta information from the entire LogCache.
-- 
2.43.0


From d75728d27edc0223efb9cf1bed9abee2321f7d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:12 +0000
Subject: [PATCH 02/32] fix: OAuth2 client discards only the rejected token,
 under its lock

---
 pkg/client/oauth2_http_client.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/client/oauth2_http_client.go b/pkg/client/oauth2_http_client.go
index e56c903..4bc7ad1 100644
--- a/pkg/client/oauth2_http_client.go
+++ b/pkg/client/oauth2_http_client.go
@@ -101,13 +101,23 @@ func (c *Oauth2HTTPClient) Do(req *http.Request) (*http.Response, error) {
 	}
 
 	if resp.StatusCode < http.StatusOK || resp.StatusCode >= http.StatusMultipleChoices {
-		c.token = ""
+		c.discardToken(token)
 		return resp, nil
 	}
 
 	return resp, nil
 }
 
+// discardToken forgets the given token, unless it was already replaced.
+func (c *Oauth2HTTPClient) discardToken(token string) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	if c.token == token {
+		c.token = ""
+	}
+}
+
 func (c *Oauth2HTTPClient) getToken() (string, error) {
 	if c.username == "" {
 		return c.getClientToken()
-- 
2.43.0


From 00b00c0d44e5f01501e1fde65c04e6bef8027ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:17 +0000
Subject: [PATCH 03/32] fix: OAuth2 client reports a token response without an
 access token

---
 pkg/client/oauth2_http_client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/client/oauth2_http_client.go b/pkg/client/oauth2_http_client.go
index 4bc7ad1..502ea76 100644
--- a/pkg/client/oauth2_http_client.go
+++ b/pkg/client/oauth2_http_client.go
@@ -2,6 +2,7 @@ package client
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"net/http"
 	"net/url"
@@ -205,6 +206,10 @@ func (c *Oauth2HTTPClient) doTokenRequest(req *http.Request) (string, error) {
 		return "", fmt.Errorf("failed to unmarshal response from Oauth2 server: %s", err)
 	}
 
+	if token.AccessToken == "" {
+		return "", errors.New("response from Oauth2 server has no access token")
+	}
+
 	c.token = fmt.Sprintf("%s %s", token.TokenType, token.AccessToken)
 	return c.token, nil
 }
-- 
2.43.0


From 4c80ed1522c89d643e22a93aa5b82d64ab7b6d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:20 +0000
Subject: [PATCH 04/32] fix: PromQL marshaler renders a series without points
 as an empty array

---
 pkg/marshaler/marshaler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/marshaler/marshaler.go b/pkg/marshaler/marshaler.go
index cd96143..3072d77 100644
--- a/pkg/marshaler/marshaler.go
+++ b/pkg/marshaler/marshaler.go
@@ -166,7 +166,7 @@ func assembleMatrixResultData(v *logcache_v1.PromQL_Matrix) (resultData, error)
 	result := make([]interface{}, 0)
 
 	for _, s := range v.GetSeries() {
-		var values [][]interface{}
+		values := make([][]interface{}, 0)
 		for _, p := range s.GetPoints() {
 			point, err := assemblePoint(p.GetTime(), p.GetValue())
 			if err != nil {
-- 
2.43.0


From be4f68d01dd600e388c8007302fe97a011f2b554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:02 +0000
Subject: [PATCH 05/32] fix: blackbox counts expected samples exactly

---
 internal/blackbox/blackbox.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/blackbox/blackbox.go b/internal/blackbox/blackbox.go
index 10276c3..a79035a 100644
--- a/internal/blackbox/blackbox.go
+++ b/internal/blackbox/blackbox.go
@@ -228,7 +228,9 @@ func (rc ReliabilityCalculator) Calculate(client QueryableClient) (float64, erro
 }
 
 func (rc ReliabilityCalculator) ExpectedSamples() float64 {
-	return rc.WindowInterval.Seconds() / rc.EmissionInterval.Seconds()
+	// Integer division, as the quotient of the seconds may fall just short of
+	// a whole number.
+	return float64(rc.WindowInterval / rc.EmissionInterval)
 }
 
 func (rc ReliabilityCalculator) printMissingSamples(points []*logcache_v1.PromQL_Point, queryTimestamp time.Time) {
-- 
2.43.0


From e732b3169165b7e65a8e92cb1d89a015e2fcf02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:56 +0000
Subject: [PATCH 06/32] fix: gateway escapes the version in its info endpoint

---
 internal/gateway/gateway.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/internal/gateway/gateway.go b/internal/gateway/gateway.go
index 7b5644e..c763566 100644
--- a/internal/gateway/gateway.go
+++ b/internal/gateway/gateway.go
@@ -1,7 +1,7 @@
 package gateway
 
 import (
-	"fmt"
+	"encoding/json"
 	"io"
 	"io/ioutil"
 	"log"
@@ -163,8 +163,19 @@ func (g *Gateway) listenAndServe() {
 	}
 }
 
+type infoBody struct {
+	Version  string `json:"version"`
+	VMUptime int64  `json:"vm_uptime,string"`
+}
+
 func (g *Gateway) handleInfoEndpoint(w http.ResponseWriter, r *http.Request) {
-	w.Write([]byte(fmt.Sprintf(`{"version":"%s","vm_uptime":"%d"}`+"\n", g.logCacheVersion, g.uptimeFn())))
+	err := json.NewEncoder(w).Encode(infoBody{
+		Version:  g.logCacheVersion,
+		VMUptime: g.uptimeFn(),
+	})
+	if err != nil {
+		g.log.Printf("Failed to write response: %v", err)
+	}
 }
 
 func uptimeInSeconds() int64 {
-- 
2.43.0


From 032a1958dc1d74e228438bf0ccd8002f2b267cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 07/32] fix: gateway does not redirect reads of source IDs with
 empty or dot segments

---
 internal/gateway/gateway.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/gateway/gateway.go b/internal/gateway/gateway.go
index c763566..37c7e57 100644
--- a/internal/gateway/gateway.go
+++ b/internal/gateway/gateway.go
@@ -7,6 +7,7 @@ import (
 	"log"
 	"net"
 	"net/http"
+	"strings"
 
 	"github.com/grpc-ecosystem/grpc-gateway/runtime"
 	"github.com/shirou/gopsutil/host"
@@ -17,6 +18,9 @@ import (
 	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
 )
 
+// readPath is followed by the source ID to read.
+const readPath = "/api/v1/read/"
+
 // Gateway provides a RESTful API into LogCache's gRPC API.
 type Gateway struct {
 	log *log.Logger
@@ -157,7 +161,15 @@ func (g *Gateway) listenAndServe() {
 	topLevelMux.HandleFunc("/api/v1/info", g.handleInfoEndpoint)
 	topLevelMux.Handle("/", mux)
 
-	server := &http.Server{Handler: topLevelMux}
+	server := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
+		// A source ID is not a file path: http.ServeMux would redirect IDs
+		// with empty or dot segments to another ID.
+		if strings.HasPrefix(r.URL.Path, readPath) {
+			mux.ServeHTTP(w, r)
+			return
+		}
+		topLevelMux.ServeHTTP(w, r)
+	})}
 	if err := server.ServeTLS(g.lis, g.certPath, g.keyPath); err != nil {
 		g.log.Fatalf("failed to serve HTTPS endpoint: %s", err)
 	}
-- 
2.43.0


From 0cf0c4e2d7778c71ea7dd42886d0fa301aab51d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 08/32] fix: gateway reads source IDs that contain colons

---
 internal/gateway/gateway.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/gateway/gateway.go b/internal/gateway/gateway.go
index 37c7e57..0fd3da1 100644
--- a/internal/gateway/gateway.go
+++ b/internal/gateway/gateway.go
@@ -165,7 +165,7 @@ func (g *Gateway) listenAndServe() {
 		// A source ID is not a file path: http.ServeMux would redirect IDs
 		// with empty or dot segments to another ID.
 		if strings.HasPrefix(r.URL.Path, readPath) {
-			mux.ServeHTTP(w, r)
+			mux.ServeHTTP(w, withoutVerb(r))
 			return
 		}
 		topLevelMux.ServeHTTP(w, r)
@@ -175,6 +175,21 @@ func (g *Gateway) listenAndServe() {
 	}
 }
 
+// withoutVerb gives a request in which grpc-gateway finds no verb. It would
+// take what follows the last colon of the source ID as one: an empty one is
+// added, which it removes.
+func withoutVerb(r *http.Request) *http.Request {
+	if !strings.Contains(r.URL.Path[strings.LastIndex(r.URL.Path, "/"):], ":") {
+		return r
+	}
+
+	u := *r.URL
+	u.Path += ":"
+	r = r.WithContext(r.Context())
+	r.URL = &u
+	return r
+}
+
 type infoBody struct {
 	Version  string `json:"version"`
 	VMUptime int64  `json:"vm_uptime,string"`
-- 
2.43.0


From e187052b07701841be5782a193c412a270fff675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:37 +0000
Subject: [PATCH 09/32] fix: TLS configurations do not share their cipher
 suites

---
 internal/tls/tls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tls/tls.go b/internal/tls/tls.go
index 640ade1..f533153 100644
--- a/internal/tls/tls.go
+++ b/internal/tls/tls.go
@@ -68,7 +68,7 @@ func NewBaseTLSConfig() *tls.Config {
 	return &tls.Config{
 		InsecureSkipVerify: false,
 		MinVersion:         tls.VersionTLS12,
-		CipherSuites:       supportedCipherSuites,
+		CipherSuites:       append([]uint16(nil), supportedCipherSuites...),
 	}
 }
 
-- 
2.43.0


From 0ca03c2a7a3794228afd9927cc9b4854e8d296cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 10/32] fix: PromQL data reader reports reads that gave up

---
 .../promql/data_reader/walking_data_reader.go | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/internal/promql/data_reader/walking_data_reader.go b/internal/promql/data_reader/walking_data_reader.go
index e8f9956..6a960e3 100644
--- a/internal/promql/data_reader/walking_data_reader.go
+++ b/internal/promql/data_reader/walking_data_reader.go
@@ -24,12 +24,27 @@ func (r *WalkingDataReader) Read(
 	in *logcache_v1.ReadRequest,
 ) (*logcache_v1.ReadResponse, error) {
 
-	var result []*loggregator_v2.Envelope
+	var (
+		result  []*loggregator_v2.Envelope
+		lastErr error
+	)
+
+	// Walk does not report that it gave up, which it does after an error.
+	reader := func(
+		ctx context.Context,
+		sourceID string,
+		start time.Time,
+		opts ...client.ReadOption,
+	) ([]*loggregator_v2.Envelope, error) {
+		var es []*loggregator_v2.Envelope
+		es, lastErr = r.r(ctx, sourceID, start, opts...)
+		return es, lastErr
+	}
 
 	client.Walk(ctx, in.GetSourceId(), func(es []*loggregator_v2.Envelope) bool {
 		result = append(result, es...)
 		return true
-	}, r.r,
+	}, reader,
 		client.WithWalkStartTime(time.Unix(0, in.GetStartTime())),
 		client.WithWalkEndTime(time.Unix(0, in.GetEndTime())),
 		client.WithWalkLimit(int(in.GetLimit())),
@@ -41,6 +56,10 @@ func (r *WalkingDataReader) Read(
 		return nil, err
 	}
 
+	if lastErr != nil {
+		return nil, lastErr
+	}
+
 	return &logcache_v1.ReadResponse{
 		Envelopes: &loggregator_v2.EnvelopeBatch{
 			Batch: result,
-- 
2.43.0


From c3bf30b6dc5697124eb8f3211b0e253439ba9f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 11/32] fix: store keeps and returns envelopes that share a
 timestamp in order

Keys made up by adding to the timestamp collide with other envelopes' timestamps: reads then came back out of order, missed
envelopes or went past the limit, and after 4000 equal timestamps an envelope was overwritten while still counted.
---
 internal/cache/store/store.go | 89 +++++++++++++++--------------------
 1 file changed, 39 insertions(+), 50 deletions(-)

diff --git a/internal/cache/store/store.go b/internal/cache/store/store.go
index 1be4d84..edb9ef7 100644
--- a/internal/cache/store/store.go
+++ b/internal/cache/store/store.go
@@ -41,8 +41,7 @@ type Store struct {
 	count           int64
 	oldestTimestamp int64
 
-	maxPerSource      int
-	maxTimestampFudge int64
+	maxPerSource int
 
 	metrics Metrics
 	mc      MemoryConsultant
@@ -62,9 +61,8 @@ type Metrics struct {
 
 func NewStore(maxPerSource int, mc MemoryConsultant, m MetricsRegistry) *Store {
 	store := &Store{
-		maxPerSource:      maxPerSource,
-		maxTimestampFudge: 4000,
-		oldestTimestamp:   MIN_INT64,
+		maxPerSource:    maxPerSource,
+		oldestTimestamp: MIN_INT64,
 
 		metrics: Metrics{
 			incExpired:            m.NewCounter("log_cache_expired"),
@@ -98,7 +96,7 @@ func (store *Store) getOrInitializeStorage(sourceId string) (*storage, bool) {
 	if !existingSourceId {
 		envelopeStorage = &storage{
 			sourceId: sourceId,
-			Tree:     avltree.NewWith(utils.Int64Comparator),
+			Tree:     avltree.NewWith(compareStorageKeys),
 		}
 		store.storageIndex.Store(sourceId, envelopeStorage.(*storage))
 		newStorage = true
@@ -113,8 +111,7 @@ func (storage *storage) insertOrSwap(store *Store, e *loggregator_v2.Envelope) {
 
 	// If we're at our maximum capacity, remove an envelope before inserting
 	if storage.Size() >= store.maxPerSource {
-		oldestTimestamp := storage.Left().Key.(int64)
-		storage.Remove(oldestTimestamp)
+		storage.Remove(storage.Left().Key)
 		storage.meta.Expired++
 		store.metrics.incExpired.Add(1)
 	} else {
@@ -122,22 +119,14 @@ func (storage *storage) insertOrSwap(store *Store, e *loggregator_v2.Envelope) {
 		store.metrics.setStoreSize.Set(float64(atomic.LoadInt64(&store.count)))
 	}
 
-	var timestampFudge int64
-	for timestampFudge = 0; timestampFudge < store.maxTimestampFudge; timestampFudge++ {
-		_, exists := storage.Get(e.Timestamp + timestampFudge)
-
-		if !exists {
-			break
-		}
-	}
-
-	storage.Put(e.Timestamp+timestampFudge, e)
+	storage.Put(storageKey{timestamp: e.Timestamp, sequence: storage.nextSequence}, e)
+	storage.nextSequence++
 
 	if e.Timestamp > storage.meta.NewestTimestamp {
 		storage.meta.NewestTimestamp = e.Timestamp
 	}
 
-	oldestTimestamp := storage.Left().Key.(int64)
+	oldestTimestamp := storage.Left().Key.(storageKey).timestamp
 	storage.meta.OldestTimestamp = oldestTimestamp
 	storeOldestTimestamp := atomic.LoadInt64(&store.oldestTimestamp)
 
@@ -191,7 +180,7 @@ func (store *Store) BuildExpirationHeap() *ExpirationHeap {
 
 	store.storageIndex.Range(func(sourceId interface{}, tree interface{}) bool {
 		tree.(*storage).RLock()
-		oldestTimestamp := tree.(*storage).Left().Key.(int64)
+		oldestTimestamp := tree.(*storage).Left().Key.(storageKey).timestamp
 		heap.Push(expirationHeap, storageExpiration{timestamp: oldestTimestamp, sourceId: sourceId.(string), tree: tree.(*storage)})
 		tree.(*storage).RUnlock()
 
@@ -263,7 +252,7 @@ func (store *Store) removeOldestEnvelope(treeToPrune *storage, sourceId string)
 
 	oldestEnvelope := treeToPrune.Left()
 
-	treeToPrune.Remove(oldestEnvelope.Key.(int64))
+	treeToPrune.Remove(oldestEnvelope.Key)
 
 	if treeToPrune.Size() == 0 {
 		store.storageIndex.Delete(sourceId)
@@ -271,7 +260,7 @@ func (store *Store) removeOldestEnvelope(treeToPrune *storage, sourceId string)
 	}
 
 	newOldestEnvelope := treeToPrune.Left()
-	oldestTimestampAfterRemoval := newOldestEnvelope.Key.(int64)
+	oldestTimestampAfterRemoval := newOldestEnvelope.Key.(storageKey).timestamp
 
 	treeToPrune.meta.Expired++
 	treeToPrune.meta.OldestTimestamp = oldestTimestampAfterRemoval
@@ -280,7 +269,8 @@ func (store *Store) removeOldestEnvelope(treeToPrune *storage, sourceId string)
 }
 
 // Get fetches envelopes from the store based on the source ID, start and end
-// time. Start is inclusive while end is not: [start..end).
+// time. Start is inclusive while end is not: [start..end). The limit is exceeded
+// only to return all of the envelopes that share the last timestamp.
 func (store *Store) Get(
 	index string,
 	start time.Time,
@@ -305,6 +295,11 @@ func (store *Store) Get(
 
 	var res []*loggregator_v2.Envelope
 	traverser(tree.(*storage).Root, start.UnixNano(), end.UnixNano(), func(e *loggregator_v2.Envelope) bool {
+		// Return true to stop traversing
+		if n := len(res); n > 0 && n >= limit && e.GetTimestamp() != res[n-1].GetTimestamp() {
+			return true
+		}
+
 		e = store.filterByName(e, nameFilter)
 		if e == nil {
 			return false
@@ -314,8 +309,7 @@ func (store *Store) Get(
 			res = append(res, e)
 		}
 
-		// Return true to stop traversing
-		return len(res) >= limit
+		return false
 	})
 
 	store.metrics.incEgress.Add(float64(len(res)))
@@ -399,7 +393,7 @@ func (s *Store) treeAscTraverse(
 			return true
 		}
 
-		if (t >= end || f(e)) && !isNodeAFudgeSequenceMember(n, 1) {
+		if t >= end || f(e) {
 			return true
 		}
 	}
@@ -407,29 +401,6 @@ func (s *Store) treeAscTraverse(
 	return s.treeAscTraverse(n.Children[1], start, end, f)
 }
 
-func isNodeAFudgeSequenceMember(node *avltree.Node, nextChildIndex int) bool {
-	e := node.Value.(*loggregator_v2.Envelope)
-	timestamp := e.GetTimestamp()
-
-	// check if node is internal to a fudge sequence
-	if timestamp != node.Key.(int64) {
-		return true
-	}
-
-	// node is not internal, but could initiate a fudge sequence, so
-	// check next child
-	nextChild := node.Children[nextChildIndex]
-	if nextChild == nil {
-		return false
-	}
-
-	// if next child exists, check it for fudge sequence membership.
-	// if the child's timestamps don't match, then the parent is the first
-	// member of a fudge sequence.
-	nextEnvelope := nextChild.Value.(*loggregator_v2.Envelope)
-	return (nextEnvelope.GetTimestamp() != nextChild.Key.(int64))
-}
-
 func (s *Store) treeDescTraverse(
 	n *avltree.Node,
 	start int64,
@@ -448,7 +419,7 @@ func (s *Store) treeDescTraverse(
 			return true
 		}
 
-		if (t < start || f(e)) && !isNodeAFudgeSequenceMember(n, 0) {
+		if t < start || f(e) {
 			return true
 		}
 	}
@@ -508,10 +479,28 @@ type storage struct {
 	sourceId string
 	meta     logcache_v1.MetaInfo
 
+	// nextSequence is the sequence of the next envelope's key.
+	nextSequence int64
+
 	*avltree.Tree
 	sync.RWMutex
 }
 
+// storageKey orders the envelopes of a source by timestamp, and those that
+// share a timestamp by arrival.
+type storageKey struct {
+	timestamp int64
+	sequence  int64
+}
+
+func compareStorageKeys(a, b interface{}) int {
+	x, y := a.(storageKey), b.(storageKey)
+	if x.timestamp != y.timestamp {
+		return utils.Int64Comparator(x.timestamp, y.timestamp)
+	}
+	return utils.Int64Comparator(x.sequence, y.sequence)
+}
+
 type ExpirationHeap []storageExpiration
 
 type storageExpiration struct {
-- 
2.43.0


From 6e38ccc9264e7b42758cc5c242ed696bef15d5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 12/32] fix: store reports the newest timestamp of a source
 before 1970

---
 internal/cache/store/store.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/cache/store/store.go b/internal/cache/store/store.go
index edb9ef7..96caeef 100644
--- a/internal/cache/store/store.go
+++ b/internal/cache/store/store.go
@@ -120,11 +120,11 @@ func (storage *storage) insertOrSwap(store *Store, e *loggregator_v2.Envelope) {
 	}
 
 	storage.Put(storageKey{timestamp: e.Timestamp, sequence: storage.nextSequence}, e)
-	storage.nextSequence++
 
-	if e.Timestamp > storage.meta.NewestTimestamp {
+	if storage.nextSequence == 0 || e.Timestamp > storage.meta.NewestTimestamp {
 		storage.meta.NewestTimestamp = e.Timestamp
 	}
+	storage.nextSequence++
 
 	oldestTimestamp := storage.Left().Key.(storageKey).timestamp
 	storage.meta.OldestTimestamp = oldestTimestamp
-- 
2.43.0


From 3807ce46b25852a4008bcb205070f169cae176a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 13/32] fix: store takes the cache period from the oldest
 envelope after pruning

---
 internal/cache/store/store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/cache/store/store.go b/internal/cache/store/store.go
index 96caeef..2f17dba 100644
--- a/internal/cache/store/store.go
+++ b/internal/cache/store/store.go
@@ -232,7 +232,7 @@ func (store *Store) truncate() {
 	}
 
 	// Otherwise, grab the next oldest timestamp and use it to update the cache period
-	if oldest := expirationHeap.Pop(); oldest.(storageExpiration).tree != nil {
+	if oldest := heap.Pop(expirationHeap); oldest.(storageExpiration).tree != nil {
 		atomic.StoreInt64(&store.oldestTimestamp, oldest.(storageExpiration).timestamp)
 		cachePeriod := calculateCachePeriod(oldest.(storageExpiration).timestamp)
 		store.metrics.setCachePeriod.Set(float64(cachePeriod))
-- 
2.43.0


From 41f92b4293a1e94a3019f9df7f3142bf9bc95279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:47 +0000
Subject: [PATCH 14/32] fix: pruning no longer panics on a source whose first
 envelope is being put

---
 internal/cache/store/store.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/cache/store/store.go b/internal/cache/store/store.go
index 2f17dba..25d30b5 100644
--- a/internal/cache/store/store.go
+++ b/internal/cache/store/store.go
@@ -180,9 +180,15 @@ func (store *Store) BuildExpirationHeap() *ExpirationHeap {
 
 	store.storageIndex.Range(func(sourceId interface{}, tree interface{}) bool {
 		tree.(*storage).RLock()
+		defer tree.(*storage).RUnlock()
+
+		// The source's first envelope may still be on its way in
+		if tree.(*storage).Size() == 0 {
+			return true
+		}
+
 		oldestTimestamp := tree.(*storage).Left().Key.(storageKey).timestamp
 		heap.Push(expirationHeap, storageExpiration{timestamp: oldestTimestamp, sourceId: sourceId.(string), tree: tree.(*storage)})
-		tree.(*storage).RUnlock()
 
 		return true
 	})
-- 
2.43.0


From f275f6bdd89c60d7df69b81f5e3949eb76673664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:47 +0000
Subject: [PATCH 15/32] fix: envelopes put while their source is pruned away
 are not lost

---
 internal/cache/store/store.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/internal/cache/store/store.go b/internal/cache/store/store.go
index 25d30b5..18a1e39 100644
--- a/internal/cache/store/store.go
+++ b/internal/cache/store/store.go
@@ -105,10 +105,15 @@ func (store *Store) getOrInitializeStorage(sourceId string) (*storage, bool) {
 	return envelopeStorage.(*storage), newStorage
 }
 
-func (storage *storage) insertOrSwap(store *Store, e *loggregator_v2.Envelope) {
+// insertOrSwap returns false if the storage has been removed from the store.
+func (storage *storage) insertOrSwap(store *Store, e *loggregator_v2.Envelope) bool {
 	storage.Lock()
 	defer storage.Unlock()
 
+	if storage.removed {
+		return false
+	}
+
 	// If we're at our maximum capacity, remove an envelope before inserting
 	if storage.Size() >= store.maxPerSource {
 		storage.Remove(storage.Left().Key)
@@ -137,6 +142,8 @@ func (storage *storage) insertOrSwap(store *Store, e *loggregator_v2.Envelope) {
 
 	cachePeriod := calculateCachePeriod(storeOldestTimestamp)
 	store.metrics.setCachePeriod.Set(float64(cachePeriod))
+
+	return true
 }
 
 func (store *Store) WaitForTruncationToComplete() bool {
@@ -170,8 +177,12 @@ func (store *Store) truncationLoop(runInterval time.Duration) {
 func (store *Store) Put(envelope *loggregator_v2.Envelope, sourceId string) {
 	store.metrics.incIngress.Add(1)
 
-	envelopeStorage, _ := store.getOrInitializeStorage(sourceId)
-	envelopeStorage.insertOrSwap(store, envelope)
+	for {
+		envelopeStorage, _ := store.getOrInitializeStorage(sourceId)
+		if envelopeStorage.insertOrSwap(store, envelope) {
+			return
+		}
+	}
 }
 
 func (store *Store) BuildExpirationHeap() *ExpirationHeap {
@@ -261,6 +272,7 @@ func (store *Store) removeOldestEnvelope(treeToPrune *storage, sourceId string)
 	treeToPrune.Remove(oldestEnvelope.Key)
 
 	if treeToPrune.Size() == 0 {
+		treeToPrune.removed = true
 		store.storageIndex.Delete(sourceId)
 		return 0, false
 	}
@@ -488,6 +500,9 @@ type storage struct {
 	// nextSequence is the sequence of the next envelope's key.
 	nextSequence int64
 
+	// removed is set when the storage is no longer part of the store.
+	removed bool
+
 	*avltree.Tree
 	sync.RWMutex
 }
-- 
2.43.0


From 8c72a78be0201dd628f46e774805820d67373621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:47 +0000
Subject: [PATCH 16/32] fix: store meta no longer panics when a source is
 pruned away meanwhile

---
 internal/cache/store/store.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/internal/cache/store/store.go b/internal/cache/store/store.go
index 18a1e39..525f2e0 100644
--- a/internal/cache/store/store.go
+++ b/internal/cache/store/store.go
@@ -474,22 +474,18 @@ func (store *Store) Meta() map[string]logcache_v1.MetaInfo {
 
 	store.storageIndex.Range(func(sourceId interface{}, tree interface{}) bool {
 		tree.(*storage).RLock()
-		metaReport[sourceId.(string)] = tree.(*storage).meta
-		tree.(*storage).RUnlock()
+		defer tree.(*storage).RUnlock()
+
+		// A source without envelopes is just being created or removed
+		if count := tree.(*storage).Size(); count > 0 {
+			meta := tree.(*storage).meta
+			meta.Count = int64(count)
+			metaReport[sourceId.(string)] = meta
+		}
 
 		return true
 	})
 
-	// Range over our local copy of metaReport
-	// TODO - shouldn't we just maintain Count on metaReport..?!
-	for sourceId, meta := range metaReport {
-		tree, _ := store.storageIndex.Load(sourceId)
-
-		tree.(*storage).RLock()
-		meta.Count = int64(tree.(*storage).Size())
-		tree.(*storage).RUnlock()
-		metaReport[sourceId] = meta
-	}
 	return metaReport
 }
 
-- 
2.43.0


From 1faa904d5be90bc9097b65a43032d90730d70fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:32 +0000
Subject: [PATCH 17/32] fix: batched ingress client keeps the envelopes of
 concurrent senders

---
 internal/routing/batched_ingress_client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/routing/batched_ingress_client.go b/internal/routing/batched_ingress_client.go
index 249520e..8d9cd21 100644
--- a/internal/routing/batched_ingress_client.go
+++ b/internal/routing/batched_ingress_client.go
@@ -18,7 +18,7 @@ import (
 type BatchedIngressClient struct {
 	c rpc.IngressClient
 
-	buffer   *diodes.OneToOne
+	buffer   *diodes.ManyToOne
 	size     int
 	interval time.Duration
 	log      *log.Logger
@@ -38,7 +38,7 @@ func NewBatchedIngressClient(
 		interval: interval,
 		log:      log,
 
-		buffer: diodes.NewOneToOne(10000, diodes.AlertFunc(func(dropped int) {
+		buffer: diodes.NewManyToOne(10000, diodes.AlertFunc(func(dropped int) {
 			log.Printf("dropped %d envelopes", dropped)
 			incDroppedMetric.Add(float64(dropped))
 		})),
-- 
2.43.0


From c5d0a2f3c123cb2ef1b6738a1e1323825aec3196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:32 +0000
Subject: [PATCH 18/32] fix: listing ranges is not changed by a concurrent
 removal

---
 internal/routing/orchestrator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/routing/orchestrator.go b/internal/routing/orchestrator.go
index 6c781ef..e6a58b8 100644
--- a/internal/routing/orchestrator.go
+++ b/internal/routing/orchestrator.go
@@ -59,8 +59,13 @@ func (o *OrchestratorAgent) ListRanges(ctx context.Context, r *rpc.ListRangesReq
 	o.mu.RLock()
 	defer o.mu.RUnlock()
 
+	// The response is marshaled after the lock is released, while RemoveRange
+	// shifts the ranges in place.
+	ranges := make([]*rpc.Range, len(o.ranges))
+	copy(ranges, o.ranges)
+
 	return &rpc.ListRangesResponse{
-		Ranges: o.ranges,
+		Ranges: ranges,
 	}, nil
 }
 
-- 
2.43.0


From 098eca01f08d6c8dbc258c75a7924fe9cb404ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:15 +0000
Subject: [PATCH 19/32] fix: range queries refuse steps the engine would never
 finish

A step of zero (or below a millisecond, or not a number) ran the query
engine until memory ran out, or made the node panic when start and end
are equal. Times and steps that fit no timestamp are refused too.
---
 internal/promql/parsing.go | 13 +++++++++++--
 internal/promql/promql.go  |  6 ++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/internal/promql/parsing.go b/internal/promql/parsing.go
index c847123..bf8ab90 100644
--- a/internal/promql/parsing.go
+++ b/internal/promql/parsing.go
@@ -12,7 +12,7 @@ import (
 func ParseStep(param string) (time.Duration, error) {
 	if step, err := strconv.ParseFloat(param, 64); err == nil {
 		stepInNanoSeconds := step * float64(time.Second)
-		if stepInNanoSeconds > float64(math.MaxInt64) || stepInNanoSeconds < float64(math.MinInt64) {
+		if !fitsInt64(stepInNanoSeconds) {
 			return 0, fmt.Errorf("cannot parse %q to a valid step. It overflows int64", param)
 		}
 		return time.Duration(stepInNanoSeconds), nil
@@ -34,10 +34,19 @@ func ParseDuration(param string) (time.Duration, error) {
 
 func ParseTime(param string) (time.Time, error) {
 	if decimalTime, err := strconv.ParseFloat(param, 64); err == nil {
-		return time.Unix(0, int64(decimalTime*1e9)), nil
+		timeInNanoSeconds := decimalTime * 1e9
+		if !fitsInt64(timeInNanoSeconds) {
+			return time.Unix(0, 0), fmt.Errorf("cannot parse %q to a valid timestamp. It overflows int64", param)
+		}
+		return time.Unix(0, int64(timeInNanoSeconds)), nil
 	}
 	if t, err := time.Parse(time.RFC3339Nano, param); err == nil {
 		return t, nil
 	}
 	return time.Unix(0, 0), fmt.Errorf("cannot parse %q to a valid Unix or RFC3339 timestamp", param)
 }
+
+// fitsInt64 reports whether f is a number within the range of an int64.
+func fitsInt64(f float64) bool {
+	return f >= math.MinInt64 && f < math.MaxInt64
+}
diff --git a/internal/promql/promql.go b/internal/promql/promql.go
index e814c26..feda721 100644
--- a/internal/promql/promql.go
+++ b/internal/promql/promql.go
@@ -198,6 +198,12 @@ func (q *PromQL) RangeQuery(ctx context.Context, req *logcache_v1.PromQL_RangeQu
 		return nil, fmt.Errorf("couldn't parse step: %s", err)
 	}
 
+	// The engine advances in whole milliseconds: a shorter step would never
+	// reach the end.
+	if step < time.Millisecond {
+		return nil, fmt.Errorf("step %q must be at least one millisecond", req.Step)
+	}
+
 	// TODO: Should there be some boundary checking on Start and End?
 	startTime, err := ParseTime(req.Start)
 	if err != nil {
-- 
2.43.0


From 3fb9e9d3d17d3239854dd6fcfa734f02cebeedee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:30 +0000
Subject: [PATCH 20/32] fix: PromQL label matchers select what they say

Every matcher was treated as an equality: !=, =~ and !~ compared the
label with the operand's text, an empty operand did not match a missing
label, and instance_id was never taken into account.
---
 internal/promql/promql.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/internal/promql/promql.go b/internal/promql/promql.go
index feda721..0cb13a0 100644
--- a/internal/promql/promql.go
+++ b/internal/promql/promql.go
@@ -304,8 +304,8 @@ type LogCacheQuerier struct {
 
 func (l *LogCacheQuerier) Select(params *storage.SelectParams, ll ...*labels.Matcher) (storage.SeriesSet, error) {
 	var (
-		metric string
-		ls     []labels.Label
+		metric   string
+		matchers []*labels.Matcher
 	)
 	sourceIDs := make(map[string]struct{})
 	for _, l := range ll {
@@ -317,10 +317,7 @@ func (l *LogCacheQuerier) Select(params *storage.SelectParams, ll ...*labels.Mat
 			addSourceIDsFromLabelMatcher(sourceIDs, l)
 			continue
 		}
-		ls = append(ls, labels.Label{
-			Name:  l.Name,
-			Value: l.Value,
-		})
+		matchers = append(matchers, l)
 	}
 
 	if len(sourceIDs) == 0 {
@@ -350,7 +347,7 @@ func (l *LogCacheQuerier) Select(params *storage.SelectParams, ll ...*labels.Mat
 		}
 
 		for _, e := range envelopeBatch.GetEnvelopes().GetBatch() {
-			if !l.hasLabels(e.GetTags(), ls) {
+			if !l.hasLabels(e, matchers) {
 				continue
 			}
 
@@ -433,9 +430,14 @@ func convertToLabels(tags map[string]string) []labels.Label {
 	return ls
 }
 
-func (l *LogCacheQuerier) hasLabels(tags map[string]string, ls []labels.Label) bool {
-	for _, l := range ls {
-		if v, ok := tags[l.Name]; !ok || v != l.Value {
+func (l *LogCacheQuerier) hasLabels(e *loggregator_v2.Envelope, matchers []*labels.Matcher) bool {
+	for _, m := range matchers {
+		v := e.GetTags()[m.Name]
+		if m.Name == "instance_id" && e.GetInstanceId() != "" {
+			v = e.GetInstanceId()
+		}
+
+		if !m.Matches(v) {
 			return false
 		}
 	}
-- 
2.43.0


From 83203bbbfc877e44f74b4d8dd1368cc1b2b8fe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:48 +0000
Subject: [PATCH 21/32] fix: PromQL series with different tags are not merged

The ID joined names and values with dashes, so the tags {a: b-c-d} and
{a: b, c: d} became one series.
---
 internal/promql/promql.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/promql/promql.go b/internal/promql/promql.go
index 0cb13a0..30ee96d 100644
--- a/internal/promql/promql.go
+++ b/internal/promql/promql.go
@@ -7,6 +7,7 @@ import (
 	"log"
 	"regexp"
 	"sort"
+	"strconv"
 	"strings"
 	"time"
 
@@ -572,7 +573,8 @@ func (b *seriesSetBuilder) getSeriesID(tags map[string]string) string {
 
 	var seriesID string
 	for _, k := range keys {
-		seriesID = seriesID + "-" + k + "-" + tags[k]
+		// Quoted, so that no two sets of tags share an ID.
+		seriesID = seriesID + strconv.Quote(k) + strconv.Quote(tags[k])
 	}
 
 	return seriesID
-- 
2.43.0


From ba1be7b9e57f24244d352bc4f07c6d6326bb3a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:45 +0000
Subject: [PATCH 22/32] fix: replacing source IDs keeps a metric name given as
 a label

The rewritten query left out {__name__="metric"}, so it selected no
metric.
---
 internal/promql/promql.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/promql/promql.go b/internal/promql/promql.go
index 30ee96d..868b2ba 100644
--- a/internal/promql/promql.go
+++ b/internal/promql/promql.go
@@ -13,6 +13,7 @@ import (
 
 	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
 	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
+	"github.com/prometheus/common/model"
 	"github.com/prometheus/prometheus/pkg/labels"
 	"github.com/prometheus/prometheus/promql"
 	"github.com/prometheus/prometheus/storage"
@@ -698,14 +699,28 @@ func (s *sourceIdReplacementVisitor) Visit(node promql.Node, _ []promql.Node) (p
 
 	switch selector := node.(type) {
 	case *promql.VectorSelector:
+		selector.Name = printedName(selector.Name, selector.LabelMatchers)
 		s.replaceInMatchers(selector.LabelMatchers)
 	case *promql.MatrixSelector:
+		selector.Name = printedName(selector.Name, selector.LabelMatchers)
 		s.replaceInMatchers(selector.LabelMatchers)
 	}
 
 	return s, nil
 }
 
+// printedName returns the name to print a selector with: a name given as a
+// label ({__name__="metric"}) is left out otherwise.
+func printedName(name string, labelMatchers []*labels.Matcher) string {
+	for _, m := range labelMatchers {
+		if m.Name == labels.MetricName && m.Type == labels.MatchEqual && model.IsValidMetricName(model.LabelValue(m.Value)) {
+			name = m.Value
+		}
+	}
+
+	return name
+}
+
 func (s *sourceIdReplacementVisitor) replaceInMatchers(labelMatchers []*labels.Matcher) {
 	for _, labelMatcher := range labelMatchers {
 		if labelMatcher.Name == "source_id" {
-- 
2.43.0


From 797c3ad0fdecaad75348b3c4085b0ca569ce5ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:14 +0000
Subject: [PATCH 23/32] fix: PromQL refuses dates that no timestamp can hold

They wrapped around to another time.
---
 internal/promql/parsing.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/promql/parsing.go b/internal/promql/parsing.go
index bf8ab90..049f559 100644
--- a/internal/promql/parsing.go
+++ b/internal/promql/parsing.go
@@ -41,6 +41,9 @@ func ParseTime(param string) (time.Time, error) {
 		return time.Unix(0, int64(timeInNanoSeconds)), nil
 	}
 	if t, err := time.Parse(time.RFC3339Nano, param); err == nil {
+		if !time.Unix(0, t.UnixNano()).Equal(t) {
+			return time.Unix(0, 0), fmt.Errorf("cannot parse %q to a valid timestamp. It overflows int64", param)
+		}
 		return t, nil
 	}
 	return time.Unix(0, 0), fmt.Errorf("cannot parse %q to a valid Unix or RFC3339 timestamp", param)
-- 
2.43.0


From 17d0805b8ef305e574198d03ad04a35a0d88486b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:14 +0000
Subject: [PATCH 24/32] fix: range queries refuse to set aside memory without
 bound

The query engine allocates every point of a range up front, so a wide
range with a short step ended the node. An end before the start made the
engine panic inside.
---
 internal/promql/promql.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/promql/promql.go b/internal/promql/promql.go
index 868b2ba..64e3647 100644
--- a/internal/promql/promql.go
+++ b/internal/promql/promql.go
@@ -32,6 +32,9 @@ type PromQL struct {
 	result int64
 }
 
+// maxPoints is how many points a range query gives per series at most.
+const maxPoints = 1000000
+
 type DataReader interface {
 	Read(ctx context.Context, in *logcache_v1.ReadRequest) (*logcache_v1.ReadResponse, error)
 }
@@ -206,7 +209,6 @@ func (q *PromQL) RangeQuery(ctx context.Context, req *logcache_v1.PromQL_RangeQu
 		return nil, fmt.Errorf("step %q must be at least one millisecond", req.Step)
 	}
 
-	// TODO: Should there be some boundary checking on Start and End?
 	startTime, err := ParseTime(req.Start)
 	if err != nil {
 		return nil, fmt.Errorf("couldn't parse start: %s", err)
@@ -217,6 +219,15 @@ func (q *PromQL) RangeQuery(ctx context.Context, req *logcache_v1.PromQL_RangeQu
 		return nil, fmt.Errorf("couldn't parse end: %s", err)
 	}
 
+	if endTime.Before(startTime) {
+		return nil, fmt.Errorf("end must not be before start")
+	}
+
+	// The engine sets memory aside for every point before it evaluates any.
+	if endTime.Sub(startTime)/step >= maxPoints {
+		return nil, fmt.Errorf("query would give more than %d points per series, use a larger step", maxPoints)
+	}
+
 	qq, err := queryable.NewRangeQuery(lcq, req.Query, startTime, endTime, step)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 1a8ab7d723d4f3341075cf04975f52a471e2768d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:44 +0000
Subject: [PATCH 25/32] fix: gateway reads the source of the path whatever the
 query says

A read of /api/v1/read/<id>?sourceId=<other> was a read of the other
source: behind the CF auth proxy, which authorises the ID of the path,
any source could be read.
---
 internal/gateway/gateway.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/internal/gateway/gateway.go b/internal/gateway/gateway.go
index 0fd3da1..62f95cc 100644
--- a/internal/gateway/gateway.go
+++ b/internal/gateway/gateway.go
@@ -165,7 +165,7 @@ func (g *Gateway) listenAndServe() {
 		// A source ID is not a file path: http.ServeMux would redirect IDs
 		// with empty or dot segments to another ID.
 		if strings.HasPrefix(r.URL.Path, readPath) {
-			mux.ServeHTTP(w, withoutVerb(r))
+			mux.ServeHTTP(w, withoutVerb(withoutSourceIDParam(r)))
 			return
 		}
 		topLevelMux.ServeHTTP(w, r)
@@ -190,6 +190,29 @@ func withoutVerb(r *http.Request) *http.Request {
 	return r
 }
 
+// withoutSourceIDParam gives a request whose query names no source ID.
+// grpc-gateway knows that source_id is given by the path, but would take
+// sourceId, the JSON name of the field, over the source ID of the path.
+func withoutSourceIDParam(r *http.Request) *http.Request {
+	query := r.URL.Query()
+	var found bool
+	for name := range query {
+		if name == "sourceId" || strings.HasPrefix(name, "sourceId[") {
+			query.Del(name)
+			found = true
+		}
+	}
+	if !found {
+		return r
+	}
+
+	u := *r.URL
+	u.RawQuery = query.Encode()
+	r = r.WithContext(r.Context())
+	r.URL = &u
+	return r
+}
+
 type infoBody struct {
 	Version  string `json:"version"`
 	VMUptime int64  `json:"vm_uptime,string"`
-- 
2.43.0


From 99a009043d7fa780d9f75dce471583afd170e01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:31 +0000
Subject: [PATCH 26/32] fix: tokens without a textual key ID no longer panic
 the auth proxy

---
 internal/auth/uaa_client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/auth/uaa_client.go b/internal/auth/uaa_client.go
index 81b6adb..86dcc49 100644
--- a/internal/auth/uaa_client.go
+++ b/internal/auth/uaa_client.go
@@ -182,7 +182,10 @@ func (c *UAAClient) Read(token string) (Oauth2ClientContext, error) {
 			return AlgorithmError{Alg: headers["alg"].(string)}
 		}
 
-		keyId := headers["kid"].(string)
+		keyId, ok := headers["kid"].(string)
+		if !ok {
+			return UnknownTokenKeyError{Kid: fmt.Sprint(headers["kid"])}
+		}
 
 		publicKey, err := c.loadOrFetchPublicKey(keyId)
 		if err != nil {
-- 
2.43.0


From bc0dbee73d515e1ced8a8f278d1c5906baeb96a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:38 +0000
Subject: [PATCH 27/32] fix: gateway takes no query out of the name of a
 parameter

grpc-gateway reads query[<text>]=... as an entry of a map and set the
query to <text>. Behind the CF auth proxy, which authorises the query
parameter, any source could be queried.
---
 internal/gateway/gateway.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/internal/gateway/gateway.go b/internal/gateway/gateway.go
index 62f95cc..a17ee49 100644
--- a/internal/gateway/gateway.go
+++ b/internal/gateway/gateway.go
@@ -162,10 +162,11 @@ func (g *Gateway) listenAndServe() {
 	topLevelMux.Handle("/", mux)
 
 	server := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
+		r = withoutAliases(r)
 		// A source ID is not a file path: http.ServeMux would redirect IDs
 		// with empty or dot segments to another ID.
 		if strings.HasPrefix(r.URL.Path, readPath) {
-			mux.ServeHTTP(w, withoutVerb(withoutSourceIDParam(r)))
+			mux.ServeHTTP(w, withoutVerb(r))
 			return
 		}
 		topLevelMux.ServeHTTP(w, r)
@@ -190,15 +191,16 @@ func withoutVerb(r *http.Request) *http.Request {
 	return r
 }
 
-// withoutSourceIDParam gives a request whose query names no source ID.
-// grpc-gateway knows that source_id is given by the path, but would take
-// sourceId, the JSON name of the field, over the source ID of the path.
-func withoutSourceIDParam(r *http.Request) *http.Request {
-	query := r.URL.Query()
+// withoutAliases gives a request without the parameters that grpc-gateway
+// would take over what is read: sourceId, the JSON name of the field, over the
+// source ID of the path, and query[<text>], which means an entry of a map,
+// over the query.
+func withoutAliases(r *http.Request) *http.Request {
+	params := r.URL.Query()
 	var found bool
-	for name := range query {
-		if name == "sourceId" || strings.HasPrefix(name, "sourceId[") {
-			query.Del(name)
+	for name := range params {
+		if name == "sourceId" || strings.HasPrefix(name, "sourceId[") || strings.HasPrefix(name, "query[") {
+			params.Del(name)
 			found = true
 		}
 	}
@@ -207,7 +209,7 @@ func withoutSourceIDParam(r *http.Request) *http.Request {
 	}
 
 	u := *r.URL
-	u.RawQuery = query.Encode()
+	u.RawQuery = params.Encode()
 	r = r.WithContext(r.Context())
 	r.URL = &u
 	return r
-- 
2.43.0


From a1beb9b63a8cf2c7411ff27214af8aa13f5ab607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 28/32] fix: a read for an unknown envelope type no longer
 takes the node down

---
 internal/cache/store/store.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/cache/store/store.go b/internal/cache/store/store.go
index 525f2e0..d7b9b3c 100644
--- a/internal/cache/store/store.go
+++ b/internal/cache/store/store.go
@@ -462,9 +462,8 @@ func (s *Store) checkEnvelopeType(e *loggregator_v2.Envelope, t logcache_v1.Enve
 	case logcache_v1.EnvelopeType_EVENT:
 		return e.GetEvent() != nil
 	default:
-		// This should never happen. This implies the store is being used
-		// poorly.
-		panic("unknown type")
+		// The types come from the clients and may be any number
+		return false
 	}
 }
 
-- 
2.43.0


From 46765b85ea34a97ee887fb4cd9918855e6d33aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:00 +0000
Subject: [PATCH 29/32] fix: concurrent refreshes of the token keys keep to the
 interval

---
 internal/auth/uaa_client.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/internal/auth/uaa_client.go b/internal/auth/uaa_client.go
index 86dcc49..3bab785 100644
--- a/internal/auth/uaa_client.go
+++ b/internal/auth/uaa_client.go
@@ -15,7 +15,6 @@ import (
 	"regexp"
 	"strings"
 	"sync"
-	"sync/atomic"
 	"time"
 
 	jose "github.com/dvsekhvalnov/jose2go"
@@ -35,6 +34,7 @@ type UAAClient struct {
 	log                    *log.Logger
 	publicKeys             sync.Map
 	minimumRefreshInterval time.Duration
+	refreshMutex           sync.Mutex
 	lastQueryTime          int64
 }
 
@@ -76,17 +76,9 @@ func WithMinimumRefreshInterval(interval time.Duration) UAAOption {
 }
 
 func (c *UAAClient) RefreshTokenKeys() error {
-	lastQueryTime := atomic.LoadInt64(&c.lastQueryTime)
-	nextAllowedRefreshTime := time.Unix(0, lastQueryTime).Add(c.minimumRefreshInterval)
-	if time.Now().Before(nextAllowedRefreshTime) {
-		c.log.Printf(
-			"UAA TokenKey refresh throttled to every %s, try again in %s",
-			c.minimumRefreshInterval,
-			time.Until(nextAllowedRefreshTime).Round(time.Millisecond),
-		)
+	if !c.mayRefresh() {
 		return nil
 	}
-	atomic.CompareAndSwapInt64(&c.lastQueryTime, lastQueryTime, time.Now().UnixNano())
 
 	req, err := http.NewRequest("GET", c.uaa.String(), nil)
 	if err != nil {
@@ -156,6 +148,26 @@ func (c *UAAClient) RefreshTokenKeys() error {
 	return nil
 }
 
+// mayRefresh reports whether it is time to ask UAA again, and if so takes
+// that as done: of concurrent callers only one is told to.
+func (c *UAAClient) mayRefresh() bool {
+	c.refreshMutex.Lock()
+	defer c.refreshMutex.Unlock()
+
+	nextAllowedRefreshTime := time.Unix(0, c.lastQueryTime).Add(c.minimumRefreshInterval)
+	if time.Now().Before(nextAllowedRefreshTime) {
+		c.log.Printf(
+			"UAA TokenKey refresh throttled to every %s, try again in %s",
+			c.minimumRefreshInterval,
+			time.Until(nextAllowedRefreshTime).Round(time.Millisecond),
+		)
+		return false
+	}
+	c.lastQueryTime = time.Now().UnixNano()
+
+	return true
+}
+
 type AlgorithmError struct {
 	Alg string
 }
-- 
2.43.0


From 670a15b5bf7ff4975b851333e987df107c27740f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:29 +0000
Subject: [PATCH 30/32] fix: a syslog message that leaves parts out no longer
 takes the server down

---
 internal/syslog/server.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/syslog/server.go b/internal/syslog/server.go
index 7007d7b..22b9e7b 100644
--- a/internal/syslog/server.go
+++ b/internal/syslog/server.go
@@ -152,7 +152,20 @@ func (s *Server) parseListener(res *syslog.Result) {
 }
 
 func (s *Server) convertToEnvelope(msg syslog.Message) (*loggregator_v2.Envelope, error) {
-	sourceType, instanceId := s.sourceTypeInstIdFromPID(*msg.ProcID())
+	// Any part of a syslog message may be left out by its sender.
+	if msg.Appname() == nil || msg.Timestamp() == nil {
+		return nil, errors.New("syslog message has no app name or no timestamp")
+	}
+
+	var pid, text string
+	if msg.ProcID() != nil {
+		pid = *msg.ProcID()
+	}
+	if msg.Message() != nil {
+		text = *msg.Message()
+	}
+
+	sourceType, instanceId := s.sourceTypeInstIdFromPID(pid)
 	env := &loggregator_v2.Envelope{
 		SourceId:   *msg.Appname(),
 		Timestamp:  msg.Timestamp().UnixNano(),
@@ -178,7 +191,7 @@ func (s *Server) convertToEnvelope(msg syslog.Message) (*loggregator_v2.Envelope
 
 	env.Message = &loggregator_v2.Envelope_Log{
 		Log: &loggregator_v2.Log{
-			Payload: []byte(strings.TrimSpace(*msg.Message())),
+			Payload: []byte(strings.TrimSpace(text)),
 			Type:    s.typeFromPriority(int(*msg.Priority())),
 		},
 	}
-- 
2.43.0


From 90cb91f29f19f447cb192a704767f8748f981741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:32 +0000
Subject: [PATCH 31/32] fix: a PromQL query's reads end with the query

Each read had five seconds of its own, however short the time limit of the
query and however many sources it names, and went on after the caller left.
---
 internal/promql/promql.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/promql/promql.go b/internal/promql/promql.go
index 64e3647..0e94db2 100644
--- a/internal/promql/promql.go
+++ b/internal/promql/promql.go
@@ -342,7 +342,7 @@ func (l *LogCacheQuerier) Select(params *storage.SelectParams, ll ...*labels.Mat
 	builder := newSeriesBuilder()
 
 	for sourceID := range sourceIDs {
-		ctx, _ := context.WithTimeout(context.Background(), 5*time.Second)
+		ctx, cancel := context.WithTimeout(l.ctx, 5*time.Second)
 		envelopeBatch, err := l.dataReader.Read(ctx, &logcache_v1.ReadRequest{
 			SourceId:  sourceID,
 			StartTime: l.start.Add(-time.Second).UnixNano(),
@@ -353,6 +353,7 @@ func (l *LogCacheQuerier) Select(params *storage.SelectParams, ll ...*labels.Mat
 				logcache_v1.EnvelopeType_TIMER,
 			},
 		})
+		cancel()
 
 		if err != nil {
 			l.errf(err)
-- 
2.43.0


From 3acb3fa000a1d745d63a407195836e0794d7841e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:33 +0000
Subject: [PATCH 32/32] fix: access log keeps one line and its fields per
 request

---
 internal/auth/access_log.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/auth/access_log.go b/internal/auth/access_log.go
index f7c7d3d..afeceaf 100644
--- a/internal/auth/access_log.go
+++ b/internal/auth/access_log.go
@@ -44,9 +44,11 @@ func NewAccessLog(req *http.Request, ts time.Time, host, port string) *AccessLog
 
 func (al *AccessLog) String() string {
 	vcapRequestId := al.request.Header.Get(requestIDHeader)
-	path := al.request.URL.Path
+	// The decoded path may hold line breaks, spaces and pipes, which would
+	// pass for lines and fields of the log.
+	path := al.request.URL.EscapedPath()
 	if al.request.URL.RawQuery != "" {
-		path = fmt.Sprintf("%s?%s", al.request.URL.Path, al.request.URL.RawQuery)
+		path = fmt.Sprintf("%s?%s", path, strings.Replace(al.request.URL.RawQuery, "|", "%7C", -1))
 	}
 	remoteHost, remotePort := al.extractRemoteInfo()
 
@@ -80,8 +82,9 @@ func (al *AccessLog) extractRemoteInfo() (string, string) {
 		remoteAddr = al.request.RemoteAddr
 	}
 
-	if !strings.Contains(remoteAddr, ":") {
-		remoteAddr += ":"
+	// X-Forwarded-For lists addresses without a port, IPv6 ones unbracketed
+	if !strings.Contains(remoteAddr, ":") || net.ParseIP(remoteAddr) != nil {
+		return remoteAddr, ""
 	}
 	host, port, err := net.SplitHostPort(remoteAddr)
 	if err != nil {
-- 
2.43.0

