From 1ba576de33bd33069d26de3fd5bcf0c905335289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:40 +0000
Subject: [PATCH 01/40] fix: DistributionData.Max was wrong when no sample was
 positive

Max started at the smallest positive float64 instead of the most negative
one, so a distribution of non-positive samples reported 5e-324.
---
 stats/view/aggregation_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stats/view/aggregation_data.go b/stats/view/aggregation_data.go
index d93b520..03a333d 100644
--- a/stats/view/aggregation_data.go
+++ b/stats/view/aggregation_data.go
@@ -149,7 +149,7 @@ func newDistributionData(agg *Aggregation, t time.Time) *DistributionData {
 		ExemplarsPerBucket: make([]*metricdata.Exemplar, bucketCount),
 		bounds:             agg.Buckets,
 		Min:                math.MaxFloat64,
-		Max:                math.SmallestNonzeroFloat64,
+		Max:                -math.MaxFloat64,
 		Start:              t,
 	}
 }
-- 
2.43.0


From a7e1842746ef0f4ab4bd1f0394b12b3c88ccaaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:41 +0000
Subject: [PATCH 02/40] fix: calls on a meter panicked, hung or leaked its
 producer when it stopped

Stop closed the command channel, so a Record that was under way (or came
later) panicked with a send on a closed channel, calls waiting for a reply
waited forever, two concurrent Stops could both close quit, and a Stop
right after Start could remove the metric producer before the worker had
added it, for good.
---
 stats/view/worker.go | 93 ++++++++++++++++++++++++++++++++------------
 1 file changed, 69 insertions(+), 24 deletions(-)

diff --git a/stats/view/worker.go b/stats/view/worker.go
index 6a79cd8..c81ba3a 100644
--- a/stats/view/worker.go
+++ b/stats/view/worker.go
@@ -16,6 +16,7 @@
 package view
 
 import (
+	"errors"
 	"fmt"
 	"sync"
 	"time"
@@ -49,6 +50,7 @@ type worker struct {
 	timer      *time.Ticker
 	c          chan command
 	quit, done chan bool
+	quitOnce   sync.Once
 	mu         sync.RWMutex
 	r          *resource.Resource
 
@@ -128,11 +130,17 @@ func Find(name string) (v *View) {
 func (w *worker) Find(name string) (v *View) {
 	req := &getViewByNameReq{
 		name: name,
-		c:    make(chan *getViewByNameResp),
+		c:    make(chan *getViewByNameResp, 1),
+	}
+	if !w.send(req) {
+		return nil
+	}
+	select {
+	case resp := <-req.c:
+		return resp.v
+	case <-w.done:
+		return nil
 	}
-	w.c <- req
-	resp := <-req.c
-	return resp.v
 }
 
 // Register begins collecting data for the given views.
@@ -146,10 +154,17 @@ func Register(views ...*View) error {
 func (w *worker) Register(views ...*View) error {
 	req := &registerViewReq{
 		views: views,
-		err:   make(chan error),
+		err:   make(chan error, 1),
+	}
+	if !w.send(req) {
+		return errStopped
+	}
+	select {
+	case err := <-req.err:
+		return err
+	case <-w.done:
+		return errStopped
 	}
-	w.c <- req
-	return <-req.err
 }
 
 // Unregister the given views. Data will not longer be exported for these views
@@ -171,10 +186,15 @@ func (w *worker) Unregister(views ...*View) {
 	}
 	req := &unregisterFromViewReq{
 		views: names,
-		done:  make(chan struct{}),
+		done:  make(chan struct{}, 1),
+	}
+	if !w.send(req) {
+		return
+	}
+	select {
+	case <-req.done:
+	case <-w.done:
 	}
-	w.c <- req
-	<-req.done
 }
 
 // RetrieveData gets a snapshot of the data collected for the the view registered
@@ -189,11 +209,17 @@ func (w *worker) RetrieveData(viewName string) ([]*Row, error) {
 	req := &retrieveDataReq{
 		now: time.Now(),
 		v:   viewName,
-		c:   make(chan *retrieveDataResp),
+		c:   make(chan *retrieveDataResp, 1),
+	}
+	if !w.send(req) {
+		return nil, errStopped
+	}
+	select {
+	case resp := <-req.c:
+		return resp.rows, resp.err
+	case <-w.done:
+		return nil, errStopped
 	}
-	w.c <- req
-	resp := <-req.c
-	return resp.rows, resp.err
 }
 
 func record(tags *tag.Map, ms interface{}, attachments map[string]interface{}) {
@@ -218,7 +244,7 @@ func (w *worker) recordMeasurement(tags *tag.Map, ms []stats.Measurement, attach
 		attachments: attachments,
 		t:           time.Now(),
 	}
-	w.c <- req
+	w.send(req)
 }
 
 // SetReportingPeriod sets the interval between reporting aggregated views in
@@ -249,10 +275,16 @@ func (w *worker) SetReportingPeriod(d time.Duration) {
 	// value. e.g. 1s
 	req := &setReportingPeriodReq{
 		d: d,
-		c: make(chan bool),
+		c: make(chan bool, 1),
+	}
+	if !w.send(req) {
+		return
+	}
+	// don't return until the timer is set to the new duration.
+	select {
+	case <-req.c:
+	case <-w.done:
 	}
-	w.c <- req
-	<-req.c // don't return until the timer is set to the new duration.
 }
 
 // NewMeter constructs a Meter instance. You should only need to use this if
@@ -296,7 +328,8 @@ func (w *worker) start() {
 			w.reportUsage()
 		case <-w.quit:
 			w.timer.Stop()
-			close(w.c)
+			// w.c stays open: there may be senders that do not know yet.
+			prodMgr.DeleteProducer(w)
 			close(w.done)
 			return
 		}
@@ -304,14 +337,26 @@ func (w *worker) start() {
 }
 
 func (w *worker) Stop() {
-	prodMgr := metricproducer.GlobalManager()
-	prodMgr.DeleteProducer(w)
+	w.quitOnce.Do(func() { close(w.quit) })
+	<-w.done
+}
+
+// errStopped is what calls that need a running worker return after Stop.
+var errStopped = errors.New("the meter has been stopped")
+
+// send hands a command to the worker; it returns false if it has been stopped.
+func (w *worker) send(cmd command) bool {
 	select {
-	case <-w.quit:
+	case <-w.done:
+		return false
 	default:
-		close(w.quit)
 	}
-	<-w.done
+	select {
+	case w.c <- cmd:
+		return true
+	case <-w.done:
+		return false
+	}
 }
 
 func (w *worker) getMeasureRef(name string) *measureRef {
-- 
2.43.0


From f995c34641e1d473fe1ac23cb52d308ab086f993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 03/40] fix: unregistering a view and SetResource raced with
 reading the metrics

Both touched what Read uses (the rows, the resource) without the lock it holds.
---
 stats/view/worker.go          |  5 +++--
 stats/view/worker_commands.go | 35 +++++++++++++++++++++--------------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/stats/view/worker.go b/stats/view/worker.go
index c81ba3a..f53eba5 100644
--- a/stats/view/worker.go
+++ b/stats/view/worker.go
@@ -309,6 +309,8 @@ func NewMeter() Meter {
 // it is not provided when used with ExportView/RegisterExporter, because that
 // interface does not provide a means for reporting the Resource.
 func (w *worker) SetResource(r *resource.Resource) {
+	w.mu.Lock()
+	defer w.mu.Unlock()
 	w.r = r
 }
 
@@ -394,9 +396,8 @@ func (w *worker) tryRegisterView(v *View) (*viewInternal, error) {
 	return vi, nil
 }
 
+// unregisterView removes v; w.mu must be held.
 func (w *worker) unregisterView(v *viewInternal) {
-	w.mu.Lock()
-	defer w.mu.Unlock()
 	delete(w.views, v.view.Name)
 	delete(w.viewStartTimes, v)
 	if measure := w.measures[v.view.Measure.Name()]; measure != nil {
diff --git a/stats/view/worker_commands.go b/stats/view/worker_commands.go
index 9ac4cc0..5327167 100644
--- a/stats/view/worker_commands.go
+++ b/stats/view/worker_commands.go
@@ -89,23 +89,30 @@ type unregisterFromViewReq struct {
 
 func (cmd *unregisterFromViewReq) handleCommand(w *worker) {
 	for _, name := range cmd.views {
-		vi, ok := w.views[name]
-		if !ok {
-			continue
-		}
+		cmd.unregister(w, name)
+	}
+	cmd.done <- struct{}{}
+}
+
+func (cmd *unregisterFromViewReq) unregister(w *worker, name string) {
+	// Read may be collecting the rows in another goroutine.
+	w.mu.Lock()
+	defer w.mu.Unlock()
+	vi, ok := w.views[name]
+	if !ok {
+		return
+	}
 
-		// Report pending data for this view before removing it.
-		w.reportView(vi)
+	// Report pending data for this view before removing it.
+	w.reportView(vi)
 
-		vi.unsubscribe()
-		if !vi.isSubscribed() {
-			// this was the last subscription and view is not collecting anymore.
-			// The collected data can be cleared.
-			vi.clearRows()
-		}
-		w.unregisterView(vi)
+	vi.unsubscribe()
+	if !vi.isSubscribed() {
+		// this was the last subscription and view is not collecting anymore.
+		// The collected data can be cleared.
+		vi.clearRows()
 	}
-	cmd.done <- struct{}{}
+	w.unregisterView(vi)
 }
 
 // retrieveDataReq is the command to retrieve data for a view.
-- 
2.43.0


From a6967f11f6358f9ebb293ff75d0124c71046a11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 04/40] fix: registering a view with two meters at once was a
 data race

Each meter's worker rewrote the view's tag keys and its (often shared)
Aggregation's buckets, even when they were canonical already and another
meter was using them.
---
 stats/view/view.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/stats/view/view.go b/stats/view/view.go
index 293b54e..b5eb53d 100644
--- a/stats/view/view.go
+++ b/stats/view/view.go
@@ -21,6 +21,7 @@ import (
 	"fmt"
 	"reflect"
 	"sort"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -73,9 +74,18 @@ func (v *View) same(other *View) bool {
 // Deprecated: this should not be public.
 var ErrNegativeBucketBounds = errors.New("negative bucket bounds not supported")
 
+// canonicalizeMu serializes the canonicalization of views: several meters may
+// be given the same view, or views that share an Aggregation.
+var canonicalizeMu sync.Mutex
+
 // canonicalize canonicalizes v by setting explicit
 // defaults for Name and Description and sorting the TagKeys
+//
+// What is canonical already is not written to, because another meter may be
+// using it.
 func (v *View) canonicalize() error {
+	canonicalizeMu.Lock()
+	defer canonicalizeMu.Unlock()
 	if v.Measure == nil {
 		return fmt.Errorf("cannot register view %q: measure not set", v.Name)
 	}
@@ -91,17 +101,24 @@ func (v *View) canonicalize() error {
 	if err := checkViewName(v.Name); err != nil {
 		return err
 	}
-	sort.Slice(v.TagKeys, func(i, j int) bool {
+	byName := func(i, j int) bool {
 		return v.TagKeys[i].Name() < v.TagKeys[j].Name()
-	})
-	sort.Float64s(v.Aggregation.Buckets)
+	}
+	if !sort.SliceIsSorted(v.TagKeys, byName) {
+		sort.Slice(v.TagKeys, byName)
+	}
+	if !sort.Float64sAreSorted(v.Aggregation.Buckets) {
+		sort.Float64s(v.Aggregation.Buckets)
+	}
 	for _, b := range v.Aggregation.Buckets {
 		if b < 0 {
 			return ErrNegativeBucketBounds
 		}
 	}
 	// drop 0 bucket silently.
-	v.Aggregation.Buckets = dropZeroBounds(v.Aggregation.Buckets...)
+	if b := v.Aggregation.Buckets; b == nil || len(b) > 0 && b[0] == 0 {
+		v.Aggregation.Buckets = dropZeroBounds(b...)
+	}
 
 	return nil
 }
-- 
2.43.0


From b73bf2f02f34d5ce20f0a8a271572d5a4f650787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:23 +0000
Subject: [PATCH 05/40] fix: looking at a running span changed which attributes
 it keeps

---
 trace/lrumap.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/trace/lrumap.go b/trace/lrumap.go
index 80095a5..2f5917a 100644
--- a/trace/lrumap.go
+++ b/trace/lrumap.go
@@ -18,22 +18,25 @@ import (
 	"github.com/golang/groupcache/lru"
 )
 
-// A simple lru.Cache wrapper that tracks the keys of the current contents and
-// the cumulative number of evicted items.
+// A simple lru.Cache wrapper that tracks the current contents and the
+// cumulative number of evicted items.
+//
+// The contents are read from values, since reading them from cache would count
+// as using them and change which are evicted next.
 type lruMap struct {
-	cacheKeys    map[lru.Key]bool
+	values       map[lru.Key]interface{}
 	cache        *lru.Cache
 	droppedCount int
 }
 
 func newLruMap(size int) *lruMap {
 	lm := &lruMap{
-		cacheKeys:    make(map[lru.Key]bool),
+		values:       make(map[lru.Key]interface{}),
 		cache:        lru.New(size),
 		droppedCount: 0,
 	}
 	lm.cache.OnEvicted = func(key lru.Key, value interface{}) {
-		delete(lm.cacheKeys, key)
+		delete(lm.values, key)
 		lm.droppedCount++
 	}
 	return lm
@@ -44,18 +47,19 @@ func (lm lruMap) len() int {
 }
 
 func (lm lruMap) keys() []interface{} {
-	keys := make([]interface{}, 0, len(lm.cacheKeys))
-	for k := range lm.cacheKeys {
+	keys := make([]interface{}, 0, len(lm.values))
+	for k := range lm.values {
 		keys = append(keys, k)
 	}
 	return keys
 }
 
 func (lm *lruMap) add(key, value interface{}) {
-	lm.cacheKeys[lru.Key(key)] = true
+	lm.values[lru.Key(key)] = value
 	lm.cache.Add(lru.Key(key), value)
 }
 
 func (lm *lruMap) get(key interface{}) (interface{}, bool) {
-	return lm.cache.Get(key)
+	value, ok := lm.values[lru.Key(key)]
+	return value, ok
 }
-- 
2.43.0


From 3dccdce043534aca81b4e4d2ea75179b467ee329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 06/40] fix: an equal view was refused if its distribution was
 made separately

---
 stats/view/view.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stats/view/view.go b/stats/view/view.go
index b5eb53d..1e542df 100644
--- a/stats/view/view.go
+++ b/stats/view/view.go
@@ -65,7 +65,9 @@ func (v *View) same(other *View) bool {
 	if v == nil {
 		return false
 	}
-	return reflect.DeepEqual(v.Aggregation, other.Aggregation) &&
+	// What an aggregation does is determined by its type and buckets.
+	return v.Aggregation.Type == other.Aggregation.Type &&
+		reflect.DeepEqual(v.Aggregation.Buckets, other.Aggregation.Buckets) &&
 		v.Measure.Name() == other.Measure.Name()
 }
 
-- 
2.43.0


From 51f9bace52034c4c60a4193255734524eb92534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 07/40] fix: replacing a derived metric's function hid the
 entry from a concurrent read

---
 metric/common.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/metric/common.go b/metric/common.go
index 42acaae..1dd4075 100644
--- a/metric/common.go
+++ b/metric/common.go
@@ -138,7 +138,6 @@ func (bm *baseMetric) upsertEntry(labelVals []metricdata.LabelValue, newEntry fu
 		return errKeyValueMismatch
 	}
 	mapKey := bm.encodeLabelVals(labelVals)
-	bm.vals.Delete(mapKey)
 	bm.vals.Store(mapKey, newEntry())
 	return nil
 }
-- 
2.43.0


From 741ce6af5e95c683498508dc72118138b6f9f1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:07 +0000
Subject: [PATCH 08/40] fix: getting entries of a metric with constant labels
 concurrently mixed up their labels

---
 metric/common.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/metric/common.go b/metric/common.go
index 1dd4075..b0b22b1 100644
--- a/metric/common.go
+++ b/metric/common.go
@@ -119,8 +119,16 @@ func (bm *baseMetric) decodeLabelVals(s string) []metricdata.LabelValue {
 	return vals
 }
 
+// allLabelVals returns the constant label values followed by labelVals, in a
+// slice of its own: the array of the constant ones may have room to spare.
+func (bm *baseMetric) allLabelVals(labelVals []metricdata.LabelValue) []metricdata.LabelValue {
+	all := make([]metricdata.LabelValue, 0, len(bm.constLabelValues)+len(labelVals))
+	all = append(all, bm.constLabelValues...)
+	return append(all, labelVals...)
+}
+
 func (bm *baseMetric) entryForValues(labelVals []metricdata.LabelValue, newEntry func() baseEntry) (interface{}, error) {
-	labelVals = append(bm.constLabelValues, labelVals...)
+	labelVals = bm.allLabelVals(labelVals)
 	if len(labelVals) != len(bm.keys) {
 		return nil, errKeyValueMismatch
 	}
@@ -133,7 +141,7 @@ func (bm *baseMetric) entryForValues(labelVals []metricdata.LabelValue, newEntry
 }
 
 func (bm *baseMetric) upsertEntry(labelVals []metricdata.LabelValue, newEntry func() baseEntry) error {
-	labelVals = append(bm.constLabelValues, labelVals...)
+	labelVals = bm.allLabelVals(labelVals)
 	if len(labelVals) != len(bm.keys) {
 		return errKeyValueMismatch
 	}
-- 
2.43.0


From 8d6ccb08704c9defc547135ca40df3567d79e936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:14 +0000
Subject: [PATCH 09/40] fix: label values of 255 bytes or more were confused or
 made reading a registry panic

---
 metric/common.go | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/metric/common.go b/metric/common.go
index b0b22b1..fa16e73 100644
--- a/metric/common.go
+++ b/metric/common.go
@@ -15,11 +15,10 @@
 package metric
 
 import (
+	"encoding/binary"
 	"sync"
 	"time"
 
-	"go.opencensus.io/internal/tagencoding"
-
 	"go.opencensus.io/metric/metricdata"
 )
 
@@ -93,27 +92,31 @@ func (bm *baseMetric) read() *metricdata.Metric {
 }
 
 func (bm *baseMetric) encodeLabelVals(labelVals []metricdata.LabelValue) string {
-	vb := &tagencoding.Values{}
+	// Each value is preceded by its length plus one, or by 0 if it is absent.
+	var b []byte
+	var n [binary.MaxVarintLen64]byte
 	for _, v := range labelVals {
-		b := make([]byte, 1, len(v.Value)+1)
-		if v.Present {
-			b[0] = 1
-			b = append(b, []byte(v.Value)...)
+		if !v.Present {
+			b = append(b, 0)
+			continue
 		}
-		vb.WriteValue(b)
+		b = append(b, n[:binary.PutUvarint(n[:], uint64(len(v.Value)+1))]...)
+		b = append(b, v.Value...)
 	}
-	return string(vb.Bytes())
+	return string(b)
 }
 
 func (bm *baseMetric) decodeLabelVals(s string) []metricdata.LabelValue {
 	vals := make([]metricdata.LabelValue, 0, len(bm.keys))
-	vb := &tagencoding.Values{Buffer: []byte(s)}
+	b := []byte(s)
 	for range bm.keys {
-		v := vb.ReadValue()
-		if v[0] == 0 {
+		n, w := binary.Uvarint(b)
+		b = b[w:]
+		if n == 0 {
 			vals = append(vals, metricdata.LabelValue{})
 		} else {
-			vals = append(vals, metricdata.NewLabelValue(string(v[1:])))
+			vals = append(vals, metricdata.NewLabelValue(string(b[:n-1])))
+			b = b[n-1:]
 		}
 	}
 	return vals
-- 
2.43.0


From e8a7707bb5dfa6cd710aee85cfa70fe534503e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:23 +0000
Subject: [PATCH 10/40] fix: memory metrics were always zero without
 UseDerivedCumulative

---
 plugin/runmetrics/producer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plugin/runmetrics/producer.go b/plugin/runmetrics/producer.go
index d76bebe..944e1a7 100644
--- a/plugin/runmetrics/producer.go
+++ b/plugin/runmetrics/producer.go
@@ -165,6 +165,10 @@ func Disable() {
 
 // Read reads the current runtime metrics.
 func (p *producer) Read() []*metricdata.Metric {
+	if p.deprecatedMemStats != nil {
+		p.deprecatedMemStats.read()
+	}
+
 	if p.memStats != nil {
 		p.memStats.read()
 	}
-- 
2.43.0


From 9a0356eaa290f25e7ea909fe11cd28774edcc9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:55 +0000
Subject: [PATCH 11/40] fix: concurrent reads of the runtime metrics raced and
 mixed their snapshots

---
 plugin/runmetrics/producer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plugin/runmetrics/producer.go b/plugin/runmetrics/producer.go
index 944e1a7..e980b02 100644
--- a/plugin/runmetrics/producer.go
+++ b/plugin/runmetrics/producer.go
@@ -19,6 +19,8 @@ type (
 		options RunMetricOptions
 		reg     *metric.Registry
 
+		mu sync.Mutex // held while reading: there is one set of entries
+
 		deprecatedMemStats *deprecatedMemStats
 		memStats           *memStats
 		cpuStats           *cpuStats
@@ -165,6 +167,9 @@ func Disable() {
 
 // Read reads the current runtime metrics.
 func (p *producer) Read() []*metricdata.Metric {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
 	if p.deprecatedMemStats != nil {
 		p.deprecatedMemStats.read()
 	}
-- 
2.43.0


From 4df847b146646e5cf85c6ea771db1bd17ef5625e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:38 +0000
Subject: [PATCH 12/40] fix: a response without a body got one that panics when
 it is read

---
 plugin/ochttp/trace.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/plugin/ochttp/trace.go b/plugin/ochttp/trace.go
index ed3a5db..3314fac 100644
--- a/plugin/ochttp/trace.go
+++ b/plugin/ochttp/trace.go
@@ -91,6 +91,12 @@ func (t *traceTransport) RoundTrip(req *http.Request) (*http.Response, error) {
 	span.AddAttributes(responseAttrs(resp)...)
 	span.SetStatus(TraceStatus(resp.StatusCode, resp.Status))
 
+	if resp.Body == nil {
+		// There is nothing to wait for, and no body for the caller either.
+		span.End()
+		return resp, err
+	}
+
 	// span.End() will be invoked after
 	// a read from resp.Body returns io.EOF or when
 	// resp.Body.Close() is invoked.
-- 
2.43.0


From 990639c945fba080e04fe0ca22928f29765b729c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 13/40] fix: a request without a body was recorded as -1 bytes
 sent

---
 plugin/ochttp/client_stats.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plugin/ochttp/client_stats.go b/plugin/ochttp/client_stats.go
index 17142aa..3aa1dbd 100644
--- a/plugin/ochttp/client_stats.go
+++ b/plugin/ochttp/client_stats.go
@@ -104,8 +104,12 @@ func (t *tracker) end() {
 		if t.respSize == 0 && t.respContentLength > 0 {
 			respSize = t.respContentLength
 		}
+		sentBytes := t.reqSize
+		if sentBytes < 0 {
+			sentBytes = 0 // there was no body
+		}
 		m := []stats.Measurement{
-			ClientSentBytes.M(t.reqSize),
+			ClientSentBytes.M(sentBytes),
 			ClientReceivedBytes.M(respSize),
 			ClientRoundtripLatency.M(latencyMs),
 			ClientLatency.M(latencyMs),
-- 
2.43.0


From 7487d92e9d5fd8714a28558448c6bbbfaabdba92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 14/40] fix: closing a response body while it is read was a
 data race

---
 plugin/ochttp/client_stats.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/plugin/ochttp/client_stats.go b/plugin/ochttp/client_stats.go
index 3aa1dbd..18e537a 100644
--- a/plugin/ochttp/client_stats.go
+++ b/plugin/ochttp/client_stats.go
@@ -20,6 +20,7 @@ import (
 	"net/http"
 	"strconv"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"go.opencensus.io/stats"
@@ -85,8 +86,8 @@ func (t statsTransport) CancelRequest(req *http.Request) {
 }
 
 type tracker struct {
+	respSize          int64 // accessed atomically: Close may be called during a Read
 	ctx               context.Context
-	respSize          int64
 	respContentLength int64
 	reqSize           int64
 	start             time.Time
@@ -100,8 +101,9 @@ var _ io.ReadCloser = (*tracker)(nil)
 func (t *tracker) end() {
 	t.endOnce.Do(func() {
 		latencyMs := float64(time.Since(t.start)) / float64(time.Millisecond)
-		respSize := t.respSize
-		if t.respSize == 0 && t.respContentLength > 0 {
+		readSize := atomic.LoadInt64(&t.respSize)
+		respSize := readSize
+		if respSize == 0 && t.respContentLength > 0 {
 			respSize = t.respContentLength
 		}
 		sentBytes := t.reqSize
@@ -113,7 +115,7 @@ func (t *tracker) end() {
 			ClientReceivedBytes.M(respSize),
 			ClientRoundtripLatency.M(latencyMs),
 			ClientLatency.M(latencyMs),
-			ClientResponseBytes.M(t.respSize),
+			ClientResponseBytes.M(readSize),
 		}
 		if t.reqSize >= 0 {
 			m = append(m, ClientRequestBytes.M(t.reqSize))
@@ -128,7 +130,7 @@ func (t *tracker) end() {
 
 func (t *tracker) Read(b []byte) (int, error) {
 	n, err := t.body.Read(b)
-	t.respSize += int64(n)
+	atomic.AddInt64(&t.respSize, int64(n))
 	switch err {
 	case nil:
 		return n, nil
-- 
2.43.0


From cfe8a47acaf60b72a464bd097f1935bcc84b9c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:43 +0000
Subject: [PATCH 15/40] fix: the status recorded for a request was the last one
 set, not the one sent

---
 plugin/ochttp/server.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/plugin/ochttp/server.go b/plugin/ochttp/server.go
index 946b22e..b9fa4a9 100644
--- a/plugin/ochttp/server.go
+++ b/plugin/ochttp/server.go
@@ -209,6 +209,7 @@ func (t *trackingResponseWriter) Header() http.Header {
 }
 
 func (t *trackingResponseWriter) Write(data []byte) (int, error) {
+	t.sent(http.StatusOK)
 	n, err := t.writer.Write(data)
 	t.respSize += int64(n)
 	// Add message event for request bytes sent.
@@ -219,10 +220,30 @@ func (t *trackingResponseWriter) Write(data []byte) (int, error) {
 
 func (t *trackingResponseWriter) WriteHeader(statusCode int) {
 	t.writer.WriteHeader(statusCode)
+	t.sent(statusCode)
+}
+
+// sent notes the status code that goes out, which is the first one that is not
+// informational: the writer ignores all later ones.
+func (t *trackingResponseWriter) sent(statusCode int) {
+	if t.statusCode != 0 || statusCode < 200 && statusCode != http.StatusSwitchingProtocols {
+		return
+	}
 	t.statusCode = statusCode
 	t.statusLine = http.StatusText(t.statusCode)
 }
 
+// trackingFlusher is a http.Flusher: flushing sends the status as well.
+type trackingFlusher struct {
+	t *trackingResponseWriter
+	f http.Flusher
+}
+
+func (f trackingFlusher) Flush() {
+	f.t.sent(http.StatusOK)
+	f.f.Flush()
+}
+
 // wrappedResponseWriter returns a wrapped version of the original
 //
 //	ResponseWriter and only implements the same combination of additional
@@ -237,6 +258,9 @@ func (t *trackingResponseWriter) wrappedResponseWriter() http.ResponseWriter {
 		fl, i3 = t.writer.(http.Flusher)
 		rf, i4 = t.writer.(io.ReaderFrom)
 	)
+	if i3 {
+		fl = trackingFlusher{t, fl}
+	}
 
 	switch {
 	case !i0 && !i1 && !i2 && !i3 && !i4:
-- 
2.43.0


From 5f430ba6533fe40644363550987f3beef1d9a271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:44 +0000
Subject: [PATCH 16/40] fix: a response copied with io.Copy was recorded as
 empty

---
 plugin/ochttp/server.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/plugin/ochttp/server.go b/plugin/ochttp/server.go
index b9fa4a9..5607f07 100644
--- a/plugin/ochttp/server.go
+++ b/plugin/ochttp/server.go
@@ -211,10 +211,30 @@ func (t *trackingResponseWriter) Header() http.Header {
 func (t *trackingResponseWriter) Write(data []byte) (int, error) {
 	t.sent(http.StatusOK)
 	n, err := t.writer.Write(data)
-	t.respSize += int64(n)
+	t.wrote(int64(n))
+	return n, err
+}
+
+// wrote accounts for n bytes of the response.
+func (t *trackingResponseWriter) wrote(n int64) {
+	t.respSize += n
 	// Add message event for request bytes sent.
 	span := trace.FromContext(t.ctx)
-	span.AddMessageSendEvent(0 /* TODO: messageID */, int64(n), -1)
+	span.AddMessageSendEvent(0 /* TODO: messageID */, n, -1)
+}
+
+// trackingReaderFrom is an io.ReaderFrom, which io.Copy uses instead of Write.
+type trackingReaderFrom struct {
+	t  *trackingResponseWriter
+	rf io.ReaderFrom
+}
+
+func (r trackingReaderFrom) ReadFrom(src io.Reader) (int64, error) {
+	n, err := r.rf.ReadFrom(src)
+	if n > 0 {
+		r.t.sent(http.StatusOK)
+	}
+	r.t.wrote(n)
 	return n, err
 }
 
@@ -261,6 +281,9 @@ func (t *trackingResponseWriter) wrappedResponseWriter() http.ResponseWriter {
 	if i3 {
 		fl = trackingFlusher{t, fl}
 	}
+	if i4 {
+		rf = trackingReaderFrom{t, rf}
+	}
 
 	switch {
 	case !i0 && !i1 && !i2 && !i3 && !i4:
-- 
2.43.0


From d30c8aae3699575586d66687978dc7366bb41906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 17/40] fix: the route of a request was lost if its handler
 panicked

---
 plugin/ochttp/route.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/plugin/ochttp/route.go b/plugin/ochttp/route.go
index 5e6a343..304c4d2 100644
--- a/plugin/ochttp/route.go
+++ b/plugin/ochttp/route.go
@@ -37,7 +37,14 @@ func WithRouteTag(handler http.Handler, route string) http.Handler {
 		addRoute := []tag.Mutator{tag.Upsert(KeyServerRoute, route)}
 		ctx, _ := tag.New(r.Context(), addRoute...)
 		r = r.WithContext(ctx)
+		panicking := true
+		defer func() {
+			if panicking {
+				SetRoute(r.Context(), route) // there will be no return
+			}
+		}()
 		handler.ServeHTTP(w, r)
+		panicking = false
 		return addRoute
 	})
 }
-- 
2.43.0


From 5fe89797bec748c04eca33dad30f99a0343552dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:47 +0000
Subject: [PATCH 18/40] fix: a forwarded request carried the trace-state of
 another trace

---
 plugin/ochttp/propagation/tracecontext/propagation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugin/ochttp/propagation/tracecontext/propagation.go b/plugin/ochttp/propagation/tracecontext/propagation.go
index 48d8152..702e078 100644
--- a/plugin/ochttp/propagation/tracecontext/propagation.go
+++ b/plugin/ochttp/propagation/tracecontext/propagation.go
@@ -198,5 +198,8 @@ func (f *HTTPFormat) SpanContextToRequest(sc trace.SpanContext, req *http.Reques
 	req.Header.Set(traceparentHeader, tp)
 	if ts != "" {
 		req.Header.Set(tracestateHeader, ts)
+	} else {
+		// One that is there belongs to another trace.
+		req.Header.Del(tracestateHeader)
 	}
 }
-- 
2.43.0


From c611239a2ea76b60cbf985687a3a14b52586176a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:47 +0000
Subject: [PATCH 19/40] fix: a trace header with a trace identifier of the
 wrong length or zero was accepted

---
 exporter/stackdriver/propagation/http.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/exporter/stackdriver/propagation/http.go b/exporter/stackdriver/propagation/http.go
index 7cc02a1..4f20f12 100644
--- a/exporter/stackdriver/propagation/http.go
+++ b/exporter/stackdriver/propagation/http.go
@@ -57,10 +57,13 @@ func (f *HTTPFormat) SpanContextFromRequest(req *http.Request) (sc trace.SpanCon
 	tid, h := h[:slash], h[slash+1:]
 
 	buf, err := hex.DecodeString(tid)
-	if err != nil {
+	if err != nil || len(buf) != len(sc.TraceID) {
 		return trace.SpanContext{}, false
 	}
 	copy(sc.TraceID[:], buf)
+	if sc.TraceID == (trace.TraceID{}) {
+		return trace.SpanContext{}, false
+	}
 
 	// Parse the span id field.
 	spanstr := h
-- 
2.43.0


From 4e2c07440e413aa5508af59be439c776c6c765e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:21 +0000
Subject: [PATCH 20/40] fix: trace headers with identifiers that are zero were
 accepted

---
 plugin/ochttp/propagation/b3/b3.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugin/ochttp/propagation/b3/b3.go b/plugin/ochttp/propagation/b3/b3.go
index 9ad8852..bc31bb9 100644
--- a/plugin/ochttp/propagation/b3/b3.go
+++ b/plugin/ochttp/propagation/b3/b3.go
@@ -54,6 +54,9 @@ func (f *HTTPFormat) SpanContextFromRequest(req *http.Request) (sc trace.SpanCon
 	if !ok {
 		return trace.SpanContext{}, false
 	}
+	if tid == (trace.TraceID{}) || sid == (trace.SpanID{}) {
+		return trace.SpanContext{}, false
+	}
 	sampled, _ := ParseSampled(req.Header.Get(SampledHeader))
 	return trace.SpanContext{
 		TraceID:      tid,
-- 
2.43.0


From 540f092ab9ca3dd30d4af578eaacef42ad714be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:54 +0000
Subject: [PATCH 21/40] fix: a transport error was recorded with the status 500
 instead of "error"

---
 plugin/ochttp/client_stats.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/plugin/ochttp/client_stats.go b/plugin/ochttp/client_stats.go
index 18e537a..1c754e6 100644
--- a/plugin/ochttp/client_stats.go
+++ b/plugin/ochttp/client_stats.go
@@ -58,10 +58,10 @@ func (t statsTransport) RoundTrip(req *http.Request) (*http.Response, error) {
 	resp, err := t.base.RoundTrip(req)
 
 	if err != nil {
-		track.statusCode = http.StatusInternalServerError
+		track.status = "error" // see StatusCode
 		track.end()
 	} else {
-		track.statusCode = resp.StatusCode
+		track.status = strconv.Itoa(resp.StatusCode)
 		if req.Method != "HEAD" {
 			track.respContentLength = resp.ContentLength
 		}
@@ -92,7 +92,7 @@ type tracker struct {
 	reqSize           int64
 	start             time.Time
 	body              io.ReadCloser
-	statusCode        int
+	status            string
 	endOnce           sync.Once
 }
 
@@ -122,8 +122,8 @@ func (t *tracker) end() {
 		}
 
 		stats.RecordWithTags(t.ctx, []tag.Mutator{
-			tag.Upsert(StatusCode, strconv.Itoa(t.statusCode)),
-			tag.Upsert(KeyClientStatus, strconv.Itoa(t.statusCode)),
+			tag.Upsert(StatusCode, t.status),
+			tag.Upsert(KeyClientStatus, t.status),
 		}, m...)
 	})
 }
-- 
2.43.0


From 67d89c7f8d4dc277f3b09155975d75ab40090f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 22/40] fix: decoding tags panicked on a length that overflows

---
 tag/map_codec.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tag/map_codec.go b/tag/map_codec.go
index c242e69..74b5769 100644
--- a/tag/map_codec.go
+++ b/tag/map_codec.go
@@ -126,10 +126,10 @@ func (eg *encoderGRPC) readBytesWithVarintLen() ([]byte, error) {
 	}
 
 	valueStart += eg.readIdx
-	valueEnd := valueStart + int(length)
-	if valueEnd > len(eg.buf) {
-		return nil, fmt.Errorf("malformed encoding: length:%v, upper:%v, maxLength:%v", length, valueEnd, len(eg.buf))
+	if length > uint64(len(eg.buf)-valueStart) {
+		return nil, fmt.Errorf("malformed encoding: length:%v, start:%v, maxLength:%v", length, valueStart, len(eg.buf))
 	}
+	valueEnd := valueStart + int(length)
 
 	eg.readIdx = valueEnd
 	return eg.buf[valueStart:valueEnd], nil
-- 
2.43.0


From f464f0395f37994260aef2d245208a7eb97d855b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 23/40] fix: a binary span context without trace or span
 identifier was accepted

---
 trace/propagation/propagation.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/trace/propagation/propagation.go b/trace/propagation/propagation.go
index 1eb190a..e4c8699 100644
--- a/trace/propagation/propagation.go
+++ b/trace/propagation/propagation.go
@@ -69,8 +69,8 @@ func Binary(sc trace.SpanContext) []byte {
 
 // FromBinary returns the SpanContext represented by b.
 //
-// If b has an unsupported version ID or contains no TraceID, FromBinary
-// returns with ok==false.
+// If b has an unsupported version ID or contains no TraceID or no SpanID (an
+// identifier of zeros is none), FromBinary returns with ok==false.
 func FromBinary(b []byte) (sc trace.SpanContext, ok bool) {
 	if len(b) == 0 || b[0] != 0 {
 		return trace.SpanContext{}, false
@@ -89,6 +89,9 @@ func FromBinary(b []byte) (sc trace.SpanContext, ok bool) {
 	if len(b) >= 2 && b[0] == 2 {
 		sc.TraceOptions = trace.TraceOptions(b[1])
 	}
+	if sc.TraceID == (trace.TraceID{}) || sc.SpanID == (trace.SpanID{}) {
+		return trace.SpanContext{}, false
+	}
 	return sc, true
 }
 
-- 
2.43.0


From 7e992dbdc0708f932a42430d837318f7c44b0197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 24/40] fix: started server RPCs were recorded under the
 client's method key

---
 plugin/ocgrpc/stats_common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugin/ocgrpc/stats_common.go b/plugin/ocgrpc/stats_common.go
index 9cb2732..dbb7f8f 100644
--- a/plugin/ocgrpc/stats_common.go
+++ b/plugin/ocgrpc/stats_common.go
@@ -111,7 +111,7 @@ func handleRPCBegin(ctx context.Context, s *stats.Begin) {
 			ocstats.WithMeasurements(ClientStartedRPCs.M(1)))
 	} else {
 		ocstats.RecordWithOptions(ctx,
-			ocstats.WithTags(tag.Upsert(KeyClientMethod, methodName(d.method))),
+			ocstats.WithTags(tag.Upsert(KeyServerMethod, methodName(d.method))),
 			ocstats.WithMeasurements(ServerStartedRPCs.M(1)))
 	}
 }
-- 
2.43.0


From b987ca545232773ac06dcae0e6c7e51aa5b41efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 25/40] fix: a forwarded span context was sent instead of the
 call's own

---
 plugin/ocgrpc/trace_common.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/plugin/ocgrpc/trace_common.go b/plugin/ocgrpc/trace_common.go
index 61bc543..909cd6f 100644
--- a/plugin/ocgrpc/trace_common.go
+++ b/plugin/ocgrpc/trace_common.go
@@ -39,6 +39,13 @@ func (c *ClientHandler) traceTagRPC(ctx context.Context, rti *stats.RPCTagInfo)
 	ctx, span := trace.StartSpan(ctx, name,
 		trace.WithSampler(c.StartOptions.Sampler),
 		trace.WithSpanKind(trace.SpanKindClient)) // span is ended by traceHandleRPC
+	if md, _ := metadata.FromOutgoingContext(ctx); len(md[traceContextKey]) > 0 {
+		// Replace a value that was passed on from another RPC: the server reads
+		// the first one it finds.
+		md = md.Copy()
+		delete(md, traceContextKey)
+		ctx = metadata.NewOutgoingContext(ctx, md)
+	}
 	traceContextBinary := propagation.Binary(span.SpanContext())
 	return metadata.AppendToOutgoingContext(ctx, traceContextKey, string(traceContextBinary))
 }
-- 
2.43.0


From 4cb886629727600e35ca78685e8ff6b989469838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 26/40] fix: tag.Do panicked on a context without tags

---
 tag/profile_19.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tag/profile_19.go b/tag/profile_19.go
index 8fb1722..84b5591 100644
--- a/tag/profile_19.go
+++ b/tag/profile_19.go
@@ -24,9 +24,12 @@ import (
 
 func do(ctx context.Context, f func(ctx context.Context)) {
 	m := FromContext(ctx)
-	keyvals := make([]string, 0, 2*len(m.m))
-	for k, v := range m.m {
-		keyvals = append(keyvals, k.Name(), v.value)
+	var keyvals []string
+	if m != nil {
+		keyvals = make([]string, 0, 2*len(m.m))
+		for k, v := range m.m {
+			keyvals = append(keyvals, k.Name(), v.value)
+		}
 	}
 	pprof.Do(ctx, pprof.Labels(keyvals...), f)
 }
-- 
2.43.0


From b02be1db04e6b84e15f3a44e4c61a55fc4bcb543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 27/40] fix: a slow reader of the rpcz page blocked exporters
 and other pages

---
 zpages/rpcz.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/zpages/rpcz.go b/zpages/rpcz.go
index ef4dd15..4275a77 100644
--- a/zpages/rpcz.go
+++ b/zpages/rpcz.go
@@ -16,6 +16,7 @@
 package zpages
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 	"log"
@@ -87,15 +88,28 @@ func WriteHTMLRpczPage(w io.Writer) {
 //
 // It includes neither a header nor footer, so you can embed this data in other pages.
 func WriteHTMLRpczSummary(w io.Writer) {
+	// Render to memory: writing to w may take any time, and exporters need mu.
+	var buf bytes.Buffer
 	mu.Lock()
-	if err := statsTemplate.Execute(w, getStatsPage()); err != nil {
+	err := statsTemplate.Execute(&buf, getStatsPage())
+	mu.Unlock()
+	if err == nil {
+		_, err = buf.WriteTo(w)
+	}
+	if err != nil {
 		log.Printf("zpages: executing template: %v", err)
 	}
-	mu.Unlock()
 }
 
 // WriteTextRpczPage writes formatted text to w containing per-method RPC stats.
 func WriteTextRpczPage(w io.Writer) {
+	// Render to memory: writing to w may take any time, and exporters need mu.
+	var buf bytes.Buffer
+	writeTextRpczPage(&buf)
+	buf.WriteTo(w)
+}
+
+func writeTextRpczPage(w io.Writer) {
 	mu.Lock()
 	defer mu.Unlock()
 	page := getStatsPage()
-- 
2.43.0


From 14aa93a4b36343ddd037c33358bac771db8d9a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 28/40] fix: the rpcz page never showed what servers received

---
 zpages/rpcz.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zpages/rpcz.go b/zpages/rpcz.go
index 4275a77..c7bc5b1 100644
--- a/zpages/rpcz.go
+++ b/zpages/rpcz.go
@@ -318,6 +318,9 @@ func (s snapExporter) ExportView(vd *view.Data) {
 		case ocgrpc.ServerSentBytesPerRPCView:
 			s.OutputRateTotal = computeRate(0, sum)
 
+		case ocgrpc.ServerReceivedBytesPerRPCView:
+			s.InputRateTotal = computeRate(0, sum)
+
 		case ocgrpc.ServerReceivedMessagesPerRPCView:
 			s.CountTotal = uint64(count)
 			s.RPCRateTotal = computeRate(0, count)
-- 
2.43.0


From 9e6e5e89a07b495b39e13d538b21a2e4ca997d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 29/40] fix: the rpcz pages showed data rates in a wrong unit

---
 zpages/internal/resources.go        | 18 +++++++++---------
 zpages/internal/templates/rpcz.html |  4 ++--
 zpages/rpcz.go                      |  2 +-
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/zpages/internal/resources.go b/zpages/internal/resources.go
index 5b7fc76..ce9c64f 100644
--- a/zpages/internal/resources.go
+++ b/zpages/internal/resources.go
@@ -226,15 +226,15 @@ F730zBNdaz3kxKTGnMcAdkJSLkddM9wMNmI4tI+WoaANfx9cTiR/QbvcgxqBYx/q39bqv/qn45lTmHoc
 		size:    2626,
 		modtime: 1519164559,
 		compressed: `
-H4sIAAAAAAAC/+yW3WrbMBTH7/0UwmUjYyxJU3o1W1C6sQ4WNrq+gCwdfzBFMtJx9+Hl3cex3DhNCrOz
-XfbGxFZ+5/8D+Ry5bZ0wBbD5VxT4wdmm9tttlNQ8QZFpYFkhrbYuPQMAyHP2vVJYpufL5QueoGNCV4VJ
-JRgExxNUPMmtQearX5C+XvG2nb+rHEisrNlukwUt8mRB/1ugowuF8GRR8+ggMD7L8/wSIGa5ExtIM/uD
-SdDa10JWpkiX3V0tlKK7FY8ixhgjp6ECAFwqiHm3FJZLCi2DKnnsLzGphfdprM9jJi0lmfSCX9vG4FTo
-6r5gWiAY+ZPNNv7VVP5WILCZq+ViOvvR1A2y2bfsBPZzg6fD752zzndU2Aza47H70r9KGnLka8DSql38
-S5P5+u3x9Vgr1HBVUSJfV2bel3i8cOOefn5ncf6c+Zz5XzKfaADyGLrlYn9UvlnxB52DERlFw4Q2oval
-RRrQDyX3zBVPMhq4oXlo2mZHjXvcyqrXjzv/mAp0A29dmQbht6TfVGscdWMbN5W5syj0I2ik59V98SmM
-2F5240elDlynO5kKwjtspO3tl2sa6r2qEwijYnusM50KBdE9aqRqd4DsySqBYnT2Du6UT0OD+AE7Uj6c
-YKfaD/R0/YH9F/9wiE5uv4BN7L8A/a0BwxxqWzCKPg37b7bdgz8BAAD//6NjPmJCCgAA
+H4sIAAAAAAACA+2WW2+bMBSA3/kVFtWmTNOSNFWfBpbablonrWrV7g8Y21wkx7ZssxvLf58vFGhSaSbb
+Y3kgYPOd8yXOOabrFOIVBcsHg8wnJVqpd7skkzAzqGAUFBUWTKj8hNqjLMH3hpg6P12vX9knFECsqXiO
+KTdU2QECs1JwA3Tzi+ZvN7Drlh8aRbFpBN/tspWbhNnKPbcyyp1cEvspYbKXMD0py/Kc0hSUCm1pXogf
+AFPGtES44VW+9ncSEeLuNjBJgD2c0xjBKp8TmkI/FaZrl7QOqs5jOgUwQ1rnKTtNgQ1hM/H8DF6Jlpu5
+0MW3CjBkKMc/wWKr38zl7y0LFkri1Xz2M5etAYubyyPY29YcD39USijtqbAYbo1j16X/KzFaGnhDTS3I
+kP41L7R8f3g+1AoxVFPVNkjDl32IpxPX6vnxr8IsX3K+5PwvOZ8pAOcxVsvZtFW+28BHnb0WmSTd0KE5
+kroWxjXox5ATcwsUruGG4nHdtjgo3MNSJr1+6v1TF8A3PPvNW0N/Y3ftYsVR16JVcxn7kyH2BIr0tD32
+S2ixvexWR2UdOa87mwrCAxZpe3935Zp6r6rsZVTaHvOmc6EgOqEiVf0GMpElyKDo3APslY9Dg/geGykf
+drBj7Ud6vv7I/ot/2ERnl1/AZtZfgP5WgKEPdR3lxL0a9u9sw8AfSwebfkIKAAA=
 `,
 	},
 
diff --git a/zpages/internal/templates/rpcz.html b/zpages/internal/templates/rpcz.html
index a01b30b..114fb66 100644
--- a/zpages/internal/templates/rpcz.html
+++ b/zpages/internal/templates/rpcz.html
@@ -7,8 +7,8 @@
         <th class="l1" colspan=3>Count</th><td></td>
         <th class="l1" colspan=3>Avg latency (ms)</th><td></td>
         <th class="l1" colspan=3>Rate (rpc/s)</th><td></td>
-        <th class="l1" colspan=3>Input (kb/s)</th><td></td>
-        <th class="l1" colspan=3>Output (kb/s)</th><td></td>
+        <th class="l1" colspan=3>Input (MB/s)</th><td></td>
+        <th class="l1" colspan=3>Output (MB/s)</th><td></td>
         <th class="l1" colspan=3>Errors</th>
     </tr>
 
diff --git a/zpages/rpcz.go b/zpages/rpcz.go
index c7bc5b1..bfa475f 100644
--- a/zpages/rpcz.go
+++ b/zpages/rpcz.go
@@ -122,7 +122,7 @@ func writeTextRpczPage(w io.Writer) {
 			fmt.Fprint(w, "\nReceived:\n")
 		}
 		tw := tabwriter.NewWriter(w, 6, 8, 1, ' ', 0)
-		fmt.Fprint(tw, "Method\tCount\t\t\tAvgLat\t\t\tMaxLat\t\t\tRate\t\t\tIn (MiB/s)\t\t\tOut (MiB/s)\t\t\tErrors\t\t\n")
+		fmt.Fprint(tw, "Method\tCount\t\t\tAvgLat\t\t\tMaxLat\t\t\tRate\t\t\tIn (KiB/s)\t\t\tOut (KiB/s)\t\t\tErrors\t\t\n")
 		fmt.Fprint(tw, "\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\n")
 		for _, s := range sg.Snapshots {
 			fmt.Fprintf(tw, "%s\t%d\t%d\t%d\t%v\t%v\t%v\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%d\t%d\t%d\n",
-- 
2.43.0


From 95f6d59969a93a1154e3cce76e0178ae029ce134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 30/40] fix: the tracez summary linked to other spans than it
 counted

---
 zpages/tracez.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zpages/tracez.go b/zpages/tracez.go
index 330022c..631cba1 100644
--- a/zpages/tracez.go
+++ b/zpages/tracez.go
@@ -52,7 +52,7 @@ var (
 		100 * time.Millisecond,
 		time.Second,
 		10 * time.Second,
-		100 * time.Second,
+		time.Minute,
 	}
 	canonicalCodes = [...]string{
 		"OK",
-- 
2.43.0


From 4990b4f27a3ac4bc6a329cebea170956a026333b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 31/40] fix: the tracez page ignored the error code asked for

---
 zpages/tracez.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zpages/tracez.go b/zpages/tracez.go
index 631cba1..9982b25 100644
--- a/zpages/tracez.go
+++ b/zpages/tracez.go
@@ -353,7 +353,7 @@ func traceSpans(spanName string, spanType, spanSubtype int) []*trace.SpanData {
 		}
 		spans = internalTrace.ReportSpansByLatency(spanName, min, max)
 	case 2: // error
-		spans = internalTrace.ReportSpansByError(spanName, 0)
+		spans = internalTrace.ReportSpansByError(spanName, int32(spanSubtype))
 	}
 	return spans
 }
-- 
2.43.0


From b237539585d8e5716649756fdc1d0e4179224205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:00 +0000
Subject: [PATCH 32/40] fix: zpages: do not list spans at the upper bound of a
 latency bucket

The tracez page asked for spans up to and including the upper bound, so a span
of exactly that latency was listed under two columns and counted in one.
---
 zpages/tracez.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zpages/tracez.go b/zpages/tracez.go
index 9982b25..d1b37ad 100644
--- a/zpages/tracez.go
+++ b/zpages/tracez.go
@@ -345,11 +345,11 @@ func traceSpans(spanName string, spanType, spanSubtype int) []*trace.SpanData {
 		var min, max time.Duration
 		n := len(defaultLatencies)
 		if spanSubtype == 0 {
-			max = defaultLatencies[0]
+			max = defaultLatencies[0] - 1 // the bounds of a request are inclusive
 		} else if spanSubtype == n {
 			min, max = defaultLatencies[spanSubtype-1], (1<<63)-1
 		} else if 0 < spanSubtype && spanSubtype < n {
-			min, max = defaultLatencies[spanSubtype-1], defaultLatencies[spanSubtype]
+			min, max = defaultLatencies[spanSubtype-1], defaultLatencies[spanSubtype]-1
 		}
 		spans = internalTrace.ReportSpansByLatency(spanName, min, max)
 	case 2: // error
-- 
2.43.0


From 9093202244c0bef839fa5db8100fe0296f94aa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:56 +0000
Subject: [PATCH 33/40] fix: views kept the slice of measurements given to
 Record

---
 stats/view/worker.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stats/view/worker.go b/stats/view/worker.go
index f53eba5..471779c 100644
--- a/stats/view/worker.go
+++ b/stats/view/worker.go
@@ -238,9 +238,11 @@ func (w *worker) Record(tags *tag.Map, ms interface{}, attachments map[string]in
 // recordMeasurement records a set of measurements ms associated with the given tags and attachments.
 // This is the same as Record but without an interface{} type to avoid allocations
 func (w *worker) recordMeasurement(tags *tag.Map, ms []stats.Measurement, attachments map[string]interface{}) {
+	// The command is handled after the caller's return, when the caller may be
+	// using its slice for something else.
 	req := &recordReq{
 		tm:          tags,
-		ms:          ms,
+		ms:          append([]stats.Measurement(nil), ms...),
 		attachments: attachments,
 		t:           time.Now(),
 	}
-- 
2.43.0


From 74bae333221caeaffbe306dd2b582178c1621c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:13 +0000
Subject: [PATCH 34/40] fix: exemplars shared the map of attachments given to
 Record

---
 stats/view/worker.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/stats/view/worker.go b/stats/view/worker.go
index 471779c..ee6307d 100644
--- a/stats/view/worker.go
+++ b/stats/view/worker.go
@@ -243,9 +243,15 @@ func (w *worker) recordMeasurement(tags *tag.Map, ms []stats.Measurement, attach
 	req := &recordReq{
 		tm:          tags,
 		ms:          append([]stats.Measurement(nil), ms...),
-		attachments: attachments,
 		t:           time.Now(),
 	}
+	if len(attachments) > 0 {
+		// They stay in exemplars, which must not change with the caller's map.
+		req.attachments = make(map[string]interface{}, len(attachments))
+		for k, v := range attachments {
+			req.attachments[k] = v
+		}
+	}
 	w.send(req)
 }
 
-- 
2.43.0


From a4ec6020d3b844e691bdaae4ae87dfbcfeca934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 35/40] fix: spans shared the attribute map of the links given
 to AddLink

---
 trace/trace.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/trace/trace.go b/trace/trace.go
index 861df9d..4814f89 100644
--- a/trace/trace.go
+++ b/trace/trace.go
@@ -503,6 +503,14 @@ func (s *span) AddLink(l Link) {
 	if !s.IsRecordingEvents() {
 		return
 	}
+	if l.Attributes != nil {
+		// The link must not change with the caller's map.
+		attributes := make(map[string]interface{}, len(l.Attributes))
+		for k, v := range l.Attributes {
+			attributes[k] = v
+		}
+		l.Attributes = attributes
+	}
 	s.mu.Lock()
 	s.links.add(l)
 	s.mu.Unlock()
-- 
2.43.0


From b43929ef784f2672b20880e186fa1d65af972c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:30 +0000
Subject: [PATCH 36/40] fix: metrics of different types could be added under
 one name at once

---
 metric/registry.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metric/registry.go b/metric/registry.go
index 6c58ff9..038bb9d 100644
--- a/metric/registry.go
+++ b/metric/registry.go
@@ -26,6 +26,7 @@ import (
 // External synchronization is required if you want to add gauges and cumulative to the same
 // registry from multiple goroutines.
 type Registry struct {
+	mu          sync.Mutex // held while adding a metric
 	baseMetrics sync.Map
 }
 
@@ -235,6 +236,8 @@ func createMetricOption(mos ...Options) *metricOptions {
 }
 
 func (r *Registry) initBaseMetric(bm *baseMetric, name string, mos ...Options) (*baseMetric, error) {
+	r.mu.Lock()
+	defer r.mu.Unlock()
 	val, ok := r.baseMetrics.Load(name)
 	if ok {
 		existing := val.(*baseMetric)
-- 
2.43.0


From 6c93db519d16e59750b06d16181fe4f226883899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:30 +0000
Subject: [PATCH 37/40] fix: RPCs of a method whose name no tag can hold were
 not recorded

---
 plugin/ocgrpc/server_stats_handler.go |  2 +-
 plugin/ocgrpc/stats_common.go         | 17 ++++++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/plugin/ocgrpc/server_stats_handler.go b/plugin/ocgrpc/server_stats_handler.go
index afcef02..5229e40 100644
--- a/plugin/ocgrpc/server_stats_handler.go
+++ b/plugin/ocgrpc/server_stats_handler.go
@@ -41,7 +41,7 @@ func (h *ServerHandler) statsTagRPC(ctx context.Context, info *stats.RPCTagInfo)
 	}
 	propagated := h.extractPropagatedTags(ctx)
 	ctx = tag.NewContext(ctx, propagated)
-	ctx, _ = tag.New(ctx, tag.Upsert(KeyServerMethod, methodName(info.FullMethodName)))
+	ctx, _ = tag.New(ctx, methodTag(KeyServerMethod, info.FullMethodName))
 	return context.WithValue(ctx, rpcDataKey, d)
 }
 
diff --git a/plugin/ocgrpc/stats_common.go b/plugin/ocgrpc/stats_common.go
index dbb7f8f..01f0516 100644
--- a/plugin/ocgrpc/stats_common.go
+++ b/plugin/ocgrpc/stats_common.go
@@ -79,6 +79,17 @@ func methodName(fullname string) string {
 	return strings.TrimLeft(fullname, "/")
 }
 
+// methodTag sets the tag k to the name of a method, which a client may have
+// made up: one that a tag cannot hold leaves the RPC without the tag, not
+// without its records.
+func methodTag(k tag.Key, fullname string) tag.Mutator {
+	name := methodName(fullname)
+	if len(name) > 255 || strings.IndexFunc(name, func(r rune) bool { return r < ' ' || r > '~' }) >= 0 {
+		return tag.Delete(k)
+	}
+	return tag.Upsert(k, name)
+}
+
 // statsHandleRPC processes the RPC events.
 func statsHandleRPC(ctx context.Context, s stats.RPCStats) {
 	switch st := s.(type) {
@@ -107,11 +118,11 @@ func handleRPCBegin(ctx context.Context, s *stats.Begin) {
 
 	if s.IsClient() {
 		ocstats.RecordWithOptions(ctx,
-			ocstats.WithTags(tag.Upsert(KeyClientMethod, methodName(d.method))),
+			ocstats.WithTags(methodTag(KeyClientMethod, d.method)),
 			ocstats.WithMeasurements(ClientStartedRPCs.M(1)))
 	} else {
 		ocstats.RecordWithOptions(ctx,
-			ocstats.WithTags(tag.Upsert(KeyServerMethod, methodName(d.method))),
+			ocstats.WithTags(methodTag(KeyServerMethod, d.method)),
 			ocstats.WithMeasurements(ServerStartedRPCs.M(1)))
 	}
 }
@@ -168,7 +179,7 @@ func handleRPCEnd(ctx context.Context, s *stats.End) {
 	if s.Client {
 		ocstats.RecordWithOptions(ctx,
 			ocstats.WithTags(
-				tag.Upsert(KeyClientMethod, methodName(d.method)),
+				methodTag(KeyClientMethod, d.method),
 				tag.Upsert(KeyClientStatus, st)),
 			ocstats.WithAttachments(attachments),
 			ocstats.WithMeasurements(
-- 
2.43.0


From 03b59278244a888064472d67a9b7b31aa105d6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:30 +0000
Subject: [PATCH 38/40] fix: a path or route that no tag can hold lost a
 request's other tags or its records

---
 plugin/ochttp/client_stats.go | 12 ++++++------
 plugin/ochttp/route.go        |  4 ++--
 plugin/ochttp/server.go       |  6 +++---
 plugin/ochttp/stats.go        | 11 +++++++++++
 4 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/plugin/ochttp/client_stats.go b/plugin/ochttp/client_stats.go
index 1c754e6..2d5bddb 100644
--- a/plugin/ochttp/client_stats.go
+++ b/plugin/ochttp/client_stats.go
@@ -35,12 +35,12 @@ type statsTransport struct {
 // RoundTrip implements http.RoundTripper, delegating to Base and recording stats for the request.
 func (t statsTransport) RoundTrip(req *http.Request) (*http.Response, error) {
 	ctx, _ := tag.New(req.Context(),
-		tag.Upsert(KeyClientHost, req.Host),
-		tag.Upsert(Host, req.Host),
-		tag.Upsert(KeyClientPath, req.URL.Path),
-		tag.Upsert(Path, req.URL.Path),
-		tag.Upsert(KeyClientMethod, req.Method),
-		tag.Upsert(Method, req.Method))
+		upsertTag(KeyClientHost, req.Host),
+		upsertTag(Host, req.Host),
+		upsertTag(KeyClientPath, req.URL.Path),
+		upsertTag(Path, req.URL.Path),
+		upsertTag(KeyClientMethod, req.Method),
+		upsertTag(Method, req.Method))
 	req = req.WithContext(ctx)
 	track := &tracker{
 		start: time.Now(),
diff --git a/plugin/ochttp/route.go b/plugin/ochttp/route.go
index 304c4d2..bdf322d 100644
--- a/plugin/ochttp/route.go
+++ b/plugin/ochttp/route.go
@@ -26,7 +26,7 @@ import (
 // and using WithRouteTag is not an option, but provides a way to hook into the request flow.
 func SetRoute(ctx context.Context, route string) {
 	if a, ok := ctx.Value(addedTagsKey{}).(*addedTags); ok {
-		a.t = append(a.t, tag.Upsert(KeyServerRoute, route))
+		a.t = append(a.t, upsertTag(KeyServerRoute, route))
 	}
 }
 
@@ -34,7 +34,7 @@ func SetRoute(ctx context.Context, route string) {
 // http_server_route tag set to the given value.
 func WithRouteTag(handler http.Handler, route string) http.Handler {
 	return taggedHandlerFunc(func(w http.ResponseWriter, r *http.Request) []tag.Mutator {
-		addRoute := []tag.Mutator{tag.Upsert(KeyServerRoute, route)}
+		addRoute := []tag.Mutator{upsertTag(KeyServerRoute, route)}
 		ctx, _ := tag.New(r.Context(), addRoute...)
 		r = r.WithContext(ctx)
 		panicking := true
diff --git a/plugin/ochttp/server.go b/plugin/ochttp/server.go
index 5607f07..5b58bb3 100644
--- a/plugin/ochttp/server.go
+++ b/plugin/ochttp/server.go
@@ -148,9 +148,9 @@ func (h *Handler) extractSpanContext(r *http.Request) (trace.SpanContext, bool)
 
 func (h *Handler) startStats(w http.ResponseWriter, r *http.Request) (http.ResponseWriter, func(tags *addedTags)) {
 	ctx, _ := tag.New(r.Context(),
-		tag.Upsert(Host, r.Host),
-		tag.Upsert(Path, r.URL.Path),
-		tag.Upsert(Method, r.Method))
+		upsertTag(Host, r.Host),
+		upsertTag(Path, r.URL.Path),
+		upsertTag(Method, r.Method))
 	track := &trackingResponseWriter{
 		start:  time.Now(),
 		ctx:    ctx,
diff --git a/plugin/ochttp/stats.go b/plugin/ochttp/stats.go
index ee37290..c5ce2d9 100644
--- a/plugin/ochttp/stats.go
+++ b/plugin/ochttp/stats.go
@@ -15,6 +15,8 @@
 package ochttp
 
 import (
+	"strings"
+
 	"go.opencensus.io/stats"
 	"go.opencensus.io/stats/view"
 	"go.opencensus.io/tag"
@@ -290,3 +292,12 @@ var DefaultServerViews = []*view.View{
 	ServerRequestCountByMethod,
 	ServerResponseCountByStatusCode,
 }
+
+// upsertTag sets the tag k to a property of a request. One that a tag cannot
+// hold leaves the request without that tag, not without all others.
+func upsertTag(k tag.Key, v string) tag.Mutator {
+	if len(v) > 255 || strings.IndexFunc(v, func(r rune) bool { return r < ' ' || r > '~' }) >= 0 {
+		return tag.Delete(k)
+	}
+	return tag.Upsert(k, v)
+}
-- 
2.43.0


From 5ce75fcc43d2f62af24df315f40c3efaa8942a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:42 +0000
Subject: [PATCH 39/40] fix: labels whose value holds a quote and a comma could
 not be decoded

---
 resource/resource.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resource/resource.go b/resource/resource.go
index b1764e1..c879486 100644
--- a/resource/resource.go
+++ b/resource/resource.go
@@ -57,7 +57,7 @@ func EncodeLabels(labels map[string]string) string {
 	return s
 }
 
-var labelRegex = regexp.MustCompile(`^\s*([[:ascii:]]{1,256}?)=("[[:ascii:]]{0,256}?")\s*,`)
+var labelRegex = regexp.MustCompile(`^\s*([[:ascii:]]{1,256}?)=("(?:[\x00-!#-\[\]-\x7f]|\\[[:ascii:]]){0,256}")\s*,`)
 
 // DecodeLabels decodes a serialized label map as used in the OC_RESOURCE_LABELS variable.
 // A list of labels of the form `<key1>="<value1>",<key2>="<value2>",...` is accepted.
-- 
2.43.0


From a6c19c6792b5ce28aee1c082ad130927fd1b942f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:42 +0000
Subject: [PATCH 40/40] fix: a span ended more than once ended its execution
 tracer task each time

---
 trace/trace.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trace/trace.go b/trace/trace.go
index 4814f89..cdb7ca7 100644
--- a/trace/trace.go
+++ b/trace/trace.go
@@ -64,7 +64,8 @@ type span struct {
 	*spanStore
 	endOnce sync.Once
 
-	executionTracerTaskEnd func() // ends the execution tracer span
+	executionTracerTaskEnd     func() // ends the execution tracer span
+	executionTracerTaskEndOnce sync.Once
 }
 
 // IsRecordingEvents returns true if events are being recorded for this span.
@@ -279,7 +280,8 @@ func (s *span) End() {
 		return
 	}
 	if s.executionTracerTaskEnd != nil {
-		s.executionTracerTaskEnd()
+		// A span may be ended more than once, its task must not.
+		s.executionTracerTaskEndOnce.Do(s.executionTracerTaskEnd)
 	}
 	if !s.IsRecordingEvents() {
 		return
-- 
2.43.0

