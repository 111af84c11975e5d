From f59abf6d622994f0e026107d1d75dcdc45def6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:22 +0000
Subject: [PATCH 01/40] fix: index the resource label under the sample's own
 resource

The label selecting every sample of a resource was encoded before the
resource of the sample being processed was set, so it was recorded under
the resource of the previous sample (or none for the first one). Scans
without filters missed samples or returned samples of other resources.
---
 internal/transform/transform.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/transform/transform.go b/internal/transform/transform.go
index f84019f..91f0017 100644
--- a/internal/transform/transform.go
+++ b/internal/transform/transform.go
@@ -46,9 +46,11 @@ func (c *Context) processSample(sample *v1.Sample) {
 	c.minTs = 0
 	c.maxTs = 0
 	c.positions = bitmaps.New()
-	c.init()
 	c.WithSample(sample.Id).
+		WithResource(v1.RESOURCE_UNKOWN).
 		data(sample.Data)
+	// data sets the resource, which is part of the label
+	c.init()
 	sample.MinTs = c.minTs
 	sample.MaxTs = c.maxTs
 	c.batch.Add(
-- 
2.43.0


From e4e26ffc720424250991dddf48f64a7ff6b91835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 02/40] fix: ignore unknown timestamps when computing the
 earliest timestamp

A zero timestamp means unknown in OTLP. It replaced the minimum observed
so far, and the next timestamp then replaced it in turn, so the bucket a
sample was stored under depended on the order of its data points.
---
 internal/transform/transform.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/internal/transform/transform.go b/internal/transform/transform.go
index 91f0017..2c97a99 100644
--- a/internal/transform/transform.go
+++ b/internal/transform/transform.go
@@ -183,11 +183,7 @@ func (c *Context) attributes(prefix v1.PREFIX, kv []*commonv1.KeyValue) {
 }
 
 func (c *Context) Timestamp(ts uint64) {
-	if c.minTs == 0 {
-		c.minTs = ts
-	}
-	c.minTs = min(c.minTs, ts)
-	c.maxTs = max(c.maxTs, ts)
+	c.Range(ts, ts)
 }
 
 func (c *Context) Reset() {
@@ -198,10 +194,11 @@ func (c *Context) Reset() {
 	c.label = labels.Label{}
 }
 
+// Range widens the time covered by the sample to include start and end. Zero
+// means the timestamp is not known, it never becomes the minimum.
 func (c *Context) Range(start, end uint64) {
-	if c.minTs == 0 {
+	if start != 0 && (c.minTs == 0 || start < c.minTs) {
 		c.minTs = start
 	}
-	c.minTs = min(c.minTs, start)
 	c.maxTs = max(c.maxTs, end)
 }
-- 
2.43.0


From 31c4ae7724e9a816bc2ecd51144f3772d44e0cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:28 +0000
Subject: [PATCH 03/40] fix: index span attributes

Attribute filters are documented for traces, and results are trimmed by
them, but span attributes were never indexed so such scans always came
back empty.
---
 internal/transform/trace.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/transform/trace.go b/internal/transform/trace.go
index 5805585..ec6c369 100644
--- a/internal/transform/trace.go
+++ b/internal/transform/trace.go
@@ -41,6 +41,7 @@ func (c *Context) transformTrace(rm *tracev1.ResourceSpans) {
 						WithKey(hex.EncodeToString(span.ParentSpanId))
 				})
 			}
+			c.attributes(v1.PREFIX_ATTRIBUTES, span.Attributes)
 			c.Range(span.StartTimeUnixNano, span.EndTimeUnixNano)
 		}
 	}
-- 
2.43.0


From ce30dbfd3504a9374077e086b5250ccad8f26a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 04/40] fix: place the first sample of a view in the row of its
 id

Blanks of a new view were filled starting from row 1, so unless the view
started with sample 0 every sample landed one row before its id. Reading
it back returned another sample, or panicked on the last row.
---
 internal/dataframe/dataframe.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/dataframe/dataframe.go b/internal/dataframe/dataframe.go
index e88c989..c430774 100644
--- a/internal/dataframe/dataframe.go
+++ b/internal/dataframe/dataframe.go
@@ -222,21 +222,21 @@ func (df *DataFrame) appendView(ctx context.Context, view string, samples []*v1.
 		}
 		// Sample ID == Row ID, for each view we need to store a contiguous rows
 		// starting from 0
-		var lastId uint64
+		var nextId uint64
 		if r != nil {
-			lastId = uint64(r.NumRows()) - 1
+			nextId = uint64(r.NumRows())
 			defer r.Release()
 		}
 		empty := &v1.Data{}
 		for _, s := range samples {
 			setSample(s)
-			for i := lastId + 1; i < s.Id; i++ {
+			for i := nextId; i < s.Id; i++ {
 				// we fill the blanks with empty data. All records in all views have the
 				// same number of columns
 				schema.Append(empty)
 			}
 			schema.Append(s.Data)
-			lastId = s.Id
+			nextId = s.Id + 1
 		}
 		if r != nil {
 			b := schema.NewRecord()
-- 
2.43.0


From 9800cb9e4682bc644c1b7c67210f75f3ba8a71ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 05/40] fix: do not share memory between translation key
 prefixes

Appending to a prefix with spare capacity made the sequence, keys and ids
prefixes alias each other. The sequence was renewed and released under
another key, and handed out ids already in use once its first lease
of 4096 ids ended. Concurrent lookups overwrote each other's key.
---
 internal/translate/translate.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/translate/translate.go b/internal/translate/translate.go
index ff9da7b..6abd02f 100644
--- a/internal/translate/translate.go
+++ b/internal/translate/translate.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"errors"
+	"slices"
 	"sync"
 
 	"github.com/dgraph-io/badger/v4"
@@ -17,13 +18,16 @@ type Translate struct {
 }
 
 func New(db *badger.DB, prefix []byte) (*Translate, error) {
+	// prefix may have spare capacity, clip it so that each append below allocates
+	// instead of overwriting the result of the previous one.
+	prefix = slices.Clip(prefix)
 	seq, err := db.GetSequence(append(prefix, []byte("seq")...), 4<<10)
 	if err != nil {
 		return nil, err
 	}
 	return &Translate{db: db, seq: seq,
-		keys: append(prefix, []byte("keys")...),
-		ids:  append(prefix, []byte("ids")...),
+		keys: slices.Clip(append(prefix, []byte("keys")...)),
+		ids:  slices.Clip(append(prefix, []byte("ids")...)),
 	}, nil
 }
 
-- 
2.43.0


From 02763ee124926ea594489e5833774abfc7a25164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:34 +0000
Subject: [PATCH 06/40] fix: open each shard once

Two goroutines getting a shard that is not open yet both opened the same
files, and wrote to them independently.
---
 internal/shards/shards.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index 9faac59..c402768 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -201,11 +201,17 @@ func row(tx *rbf.Tx, view string, shard, rowID uint64) (*rows.Row, error) {
 func (s *Shards) get(shard uint64) (*rbf.DB, error) {
 	s.mu.RLock()
 	r, ok := s.db[shard]
+	s.mu.RUnlock()
 	if ok {
-		s.mu.RUnlock()
 		return r, nil
 	}
-	s.mu.RUnlock()
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	r, ok = s.db[shard]
+	if ok {
+		// opened by someone else while we were waiting for the lock
+		return r, nil
+	}
 	path := filepath.Join(s.dir, strconv.FormatUint(shard, 10))
 	config := s.config
 	config.Logger = slog.Default().With(
@@ -216,9 +222,7 @@ func (s *Shards) get(shard uint64) (*rbf.DB, error) {
 	if err != nil {
 		return nil, err
 	}
-	s.mu.Lock()
 	s.db[shard] = r
-	s.mu.Unlock()
 	return r, nil
 }
 
-- 
2.43.0


From 6e26638c1400c328e2c510f5bc4521de09a3a9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 07/40] fix: read shards written before the process started

Reads only looked at shards opened by a write of this process, so after a
restart every query came back empty until something was written to
the shard.
---
 internal/shards/shards.go | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index c402768..6aad927 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"io"
 	"log/slog"
+	"os"
 	"path/filepath"
 	"slices"
 	"strconv"
@@ -27,17 +28,43 @@ type Shards struct {
 	mu     sync.RWMutex
 	db     map[uint64]*rbf.DB
 	dir    string
+	// opens all shards found in dir, on first use
+	load func() error
 }
 
 func New(path string, config *cfg.Config) *Shards {
 	if config == nil {
 		config = cfg.NewDefaultConfig()
 	}
-	return &Shards{
+	s := &Shards{
 		db:     make(map[uint64]*rbf.DB),
 		dir:    path,
 		config: *config,
 	}
+	s.load = sync.OnceValue(s.openExisting)
+	return s
+}
+
+// openExisting opens shards that were created before s.
+func (s *Shards) openExisting() error {
+	entries, err := os.ReadDir(s.dir)
+	if err != nil {
+		if errors.Is(err, os.ErrNotExist) {
+			return nil
+		}
+		return err
+	}
+	for _, e := range entries {
+		shard, err := strconv.ParseUint(e.Name(), 10, 64)
+		if err != nil || !e.IsDir() {
+			continue
+		}
+		_, err = s.get(shard)
+		if err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 func (s *Shards) View(shard uint64, f func(tx *rbf.Tx) error) error {
@@ -75,6 +102,10 @@ func (s *Shards) Update(shard uint64, f func(tx *rbf.Tx) error) error {
 // transaction. If f returns io.EOF it signals end of iterations which will
 // return a nil error.
 func (s *Shards) AllShards(f func(tx *rbf.Tx, shard uint64) error) error {
+	err := s.load()
+	if err != nil {
+		return err
+	}
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 	for shard, db := range s.db {
@@ -111,6 +142,10 @@ func (s *Shards) Rows(start, end time.Time, columns *bitmaps.Bitmap) (*bitmaps.B
 }
 
 func (s *Shards) rows(views []string, columns map[uint64][]uint64) (r *bitmaps.Bitmap, err error) {
+	err = s.load()
+	if err != nil {
+		return
+	}
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
-- 
2.43.0


From a13c9ee43263bf34928618d8462c0b8aa5bc1235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 08/40] fix: a shard without matches leaves no match for the
 whole query

Columns of a query have to match in every shard they are stored in. A shard
where nothing matched was skipped, so the query returned samples matching
only the columns of the other shards.
---
 internal/shards/shards.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index 6aad927..0dcf52e 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -180,22 +180,18 @@ func (s *Shards) rows(views []string, columns map[uint64][]uint64) (r *bitmaps.B
 			}
 		}
 		tx.Rollback()
-		if !b.IsEmpty() {
-			if r == nil {
-				// first column set
-				r = bitmaps.New()
-				r.Or(&b.Bitmap)
-			} else {
-				some := !r.IsEmpty()
-				r.And(&b.Bitmap)
-				if r.IsEmpty() && some {
-					// this shard resulted in no match. No need to keep searching
-					b.Release()
-					return
-				}
-			}
+		if r == nil {
+			// first column set
+			r = bitmaps.New()
+			r.Or(&b.Bitmap)
+		} else {
+			r.And(&b.Bitmap)
 		}
 		b.Release()
+		if r.IsEmpty() {
+			// this shard resulted in no match. No need to keep searching
+			return
+		}
 	}
 	return
 }
-- 
2.43.0


From bd92f710b9df1650d2a6bae40796714d707294ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 09/40] fix: search every view touched by the time range

The views of a range were walked from its start in steps of the quantum,
and the walk ended before the last, partially covered, view. A range from
10:50 to 11:05 missed hour 11, ranges of days missed the last day, and
ranges of months or years could search no view at all.
---
 internal/dataframe/dataframe.go |  3 +--
 internal/shards/shards.go       |  8 +-------
 internal/view/view.go           | 31 ++++++++++++++++++++++++++++---
 3 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/internal/dataframe/dataframe.go b/internal/dataframe/dataframe.go
index c430774..d1d1a4e 100644
--- a/internal/dataframe/dataframe.go
+++ b/internal/dataframe/dataframe.go
@@ -12,7 +12,6 @@ import (
 	"github.com/apache/arrow/go/v17/arrow/memory"
 	"github.com/dgraph-io/badger/v4"
 	"github.com/gernest/arrow3"
-	"github.com/gernest/rbf/quantum"
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
 	"github.com/gernest/requiemdb/internal/arena"
 	"github.com/gernest/requiemdb/internal/batch"
@@ -79,7 +78,7 @@ func readRows(r arrow.Record, rows []int) []*v1.Data {
 }
 
 func (df *DataFrame) View(ctx context.Context, resource v1.Scan_SCOPE, start, end time.Time, columns []int, rows *bitmaps.Bitmap, f ViewFn) error {
-	all := quantum.ViewsByTimeRange(view.StdView, start, end, view.ChooseQuantum(end.Sub(start)))
+	all := view.Search(start, end)
 	var set string
 	switch resource {
 	case v1.Scan_METRICS:
diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index 0dcf52e..a86ec35 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -13,7 +13,6 @@ import (
 
 	"github.com/gernest/rbf"
 	"github.com/gernest/rbf/cfg"
-	"github.com/gernest/rbf/quantum"
 	"github.com/gernest/requiemdb/internal/bitmaps"
 	"github.com/gernest/requiemdb/internal/rows"
 	"github.com/gernest/requiemdb/internal/view"
@@ -21,8 +20,6 @@ import (
 	"github.com/gernest/roaring/shardwidth"
 )
 
-const stdView = view.StdView
-
 type Shards struct {
 	config cfg.Config
 	mu     sync.RWMutex
@@ -135,10 +132,7 @@ func (s *Shards) Rows(start, end time.Time, columns *bitmaps.Bitmap) (*bitmaps.B
 		shard := col / shardwidth.ShardWidth
 		m[shard] = append(m[shard], col)
 	}
-	views := quantum.ViewsByTimeRange(stdView, start, end, view.ChooseQuantum(
-		end.Sub(start),
-	))
-	return s.rows(views, m)
+	return s.rows(view.Search(start, end), m)
 }
 
 func (s *Shards) rows(views []string, columns map[uint64][]uint64) (r *bitmaps.Bitmap, err error) {
diff --git a/internal/view/view.go b/internal/view/view.go
index 8deb4ab..47f369d 100644
--- a/internal/view/view.go
+++ b/internal/view/view.go
@@ -47,9 +47,34 @@ func ChooseQuantum(duration time.Duration) quantum.TimeQuantum {
 	return QH
 }
 
-func Search(start, end time.Time) []string {
-	return quantum.ViewsByTimeRange(StdView, start, end,
-		ChooseQuantum(end.Sub(start)))
+// Search returns all views, of the quantum chosen for the duration of the range,
+// touched by timestamps t where start <= t < end.
+func Search(start, end time.Time) (views []string) {
+	start, end = start.UTC(), end.UTC()
+	q := ChooseQuantum(end.Sub(start))
+	y, m, d := start.Date()
+	var next func(t time.Time) time.Time
+	switch q {
+	case QY:
+		start = time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC)
+		next = func(t time.Time) time.Time { return t.AddDate(1, 0, 0) }
+	case QM:
+		start = time.Date(y, m, 1, 0, 0, 0, 0, time.UTC)
+		next = func(t time.Time) time.Time { return t.AddDate(0, 1, 0) }
+	case QD:
+		start = time.Date(y, m, d, 0, 0, 0, 0, time.UTC)
+		next = func(t time.Time) time.Time { return t.AddDate(0, 0, 1) }
+	default:
+		if !start.Before(end) {
+			return nil
+		}
+		start = start.Truncate(hour)
+		next = func(t time.Time) time.Time { return t.Add(hour) }
+	}
+	for t := start; t.Before(end); t = next(t) {
+		views = append(views, quantum.ViewByTimeUnit(StdView, t, rune(q[0])))
+	}
+	return views
 }
 
 // Pos generates position in a bitmap
-- 
2.43.0


From aa03e2b5bfb48007ec0d8a136af8f202f9b3b5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 10/40] fix: report errors reading samples

Failure to read samples was dropped, the scan succeeded with no data.
---
 internal/store/scan.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/store/scan.go b/internal/store/scan.go
index c13c14c..52ffd98 100644
--- a/internal/store/scan.go
+++ b/internal/store/scan.go
@@ -66,6 +66,12 @@ func (s *Storage) Scan(ctx context.Context, scan *v1.Scan) (result *v1.Data, err
 	default:
 		return nil, fmt.Errorf("%d is not a supported resource", resource)
 	}
+	if err != nil {
+		return nil, err
+	}
+	if len(rs) == 0 {
+		return data.Zero(resource), nil
+	}
 	return data.Collapse(rs), nil
 }
 
-- 
2.43.0


From 7ba6c79343dea1f892cf1e667299e261a2c40cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 11/40] fix: do not merge data points of different metrics

Metrics were merged by name alone. Merging two metrics with the same name
and different kinds crashed, and points of metrics that only share their
name ended up with the temporality, monotonicity or unit of the first.
---
 internal/data/metrics.go |  6 +++---
 internal/data/sort.go    | 34 ++++++++++++++++++++++++++++++++--
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/internal/data/metrics.go b/internal/data/metrics.go
index 7ab6622..c3986bf 100644
--- a/internal/data/metrics.go
+++ b/internal/data/metrics.go
@@ -25,7 +25,7 @@ func CollapseMetrics(ds []*metricsV1.MetricsData) *metricsV1.MetricsData {
 					sh := xm.hashScope(rh, sm.SchemaUrl, sm.Scope)
 					xm.scope[sh] = sm
 					for _, m := range sm.Metrics {
-						mh := xm.hashMetrics(sh, m.Name)
+						mh := xm.hashMetrics(sh, m)
 						xm.metrics[mh] = m
 					}
 				}
@@ -38,13 +38,13 @@ func CollapseMetrics(ds []*metricsV1.MetricsData) *metricsV1.MetricsData {
 					xm.scope[sh] = sm
 					resource.ScopeMetrics = append(resource.ScopeMetrics, sm)
 					for _, m := range sm.Metrics {
-						mh := xm.hashMetrics(sh, m.Name)
+						mh := xm.hashMetrics(sh, m)
 						xm.metrics[mh] = m
 					}
 					continue
 				}
 				for _, m := range sm.Metrics {
-					mh := xm.hashMetrics(sh, m.Name)
+					mh := xm.hashMetrics(sh, m)
 					om, ok := xm.metrics[mh]
 					if !ok {
 						scope.Metrics = append(scope.Metrics, m)
diff --git a/internal/data/sort.go b/internal/data/sort.go
index c2f3401..be87fb2 100644
--- a/internal/data/sort.go
+++ b/internal/data/sort.go
@@ -7,6 +7,7 @@ import (
 
 	"github.com/cespare/xxhash/v2"
 	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
+	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
 	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
 	"google.golang.org/protobuf/proto"
 )
@@ -42,10 +43,32 @@ func newSorter[T any, R any, S any]() *Sorter[T, R, S] {
 	}
 }
 
-func (r *Sorter[T, R, S]) hashMetrics(scope uint64, name string) uint64 {
+// hashMetrics identifies a metric stream. Data points are only merged for metrics
+// that agree on everything but data points.
+func (r *Sorter[T, R, S]) hashMetrics(scope uint64, m *metricsv1.Metric) uint64 {
 	r.h.Reset()
 	r.hashNum(scope)
-	r.h.WriteString(name)
+	r.hashString(m.Name)
+	r.hashString(m.Description)
+	r.hashString(m.Unit)
+	switch e := m.Data.(type) {
+	case *metricsv1.Metric_Gauge:
+		r.hashNum(1)
+	case *metricsv1.Metric_Sum:
+		r.hashNum(2)
+		r.hashNum(uint64(e.Sum.GetAggregationTemporality()))
+		if e.Sum.GetIsMonotonic() {
+			r.hashNum(1)
+		}
+	case *metricsv1.Metric_Histogram:
+		r.hashNum(3)
+		r.hashNum(uint64(e.Histogram.GetAggregationTemporality()))
+	case *metricsv1.Metric_ExponentialHistogram:
+		r.hashNum(4)
+		r.hashNum(uint64(e.ExponentialHistogram.GetAggregationTemporality()))
+	case *metricsv1.Metric_Summary:
+		r.hashNum(5)
+	}
 	return r.h.Sum64()
 }
 
@@ -55,6 +78,13 @@ func (r *Sorter[T, R, S]) hashNum(v uint64) {
 	r.buf = r.buf[:0]
 }
 
+// hashString includes the length of v, so that consecutive strings never run into
+// each other.
+func (r *Sorter[T, R, S]) hashString(v string) {
+	r.hashNum(uint64(len(v)))
+	r.h.WriteString(v)
+}
+
 func (r *Sorter[T, R, S]) hashResource(schema string, resource *resourcev1.Resource) uint64 {
 	r.h.Reset()
 	r.h.WriteString(schema)
-- 
2.43.0


From 7e9936d932720443d3c9e9087ea8b827b5c1d80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 12/40] fix: keep resources and scopes with adjoining names
 apart

Schema, name, version and attributes were hashed one after the other with
nothing in between, so scope "ab" of version "c" was taken for scope "a" of
version "bc" and their data merged.
---
 internal/data/sort.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/internal/data/sort.go b/internal/data/sort.go
index be87fb2..55a2a70 100644
--- a/internal/data/sort.go
+++ b/internal/data/sort.go
@@ -87,7 +87,7 @@ func (r *Sorter[T, R, S]) hashString(v string) {
 
 func (r *Sorter[T, R, S]) hashResource(schema string, resource *resourcev1.Resource) uint64 {
 	r.h.Reset()
-	r.h.WriteString(schema)
+	r.hashString(schema)
 	if resource != nil {
 		r.attr(resource.Attributes)
 	}
@@ -97,10 +97,10 @@ func (r *Sorter[T, R, S]) hashResource(schema string, resource *resourcev1.Resou
 func (r *Sorter[T, R, S]) hashScope(resource uint64, schema string, scope *commonv1.InstrumentationScope) uint64 {
 	r.h.Reset()
 	r.hashNum(resource)
-	r.h.WriteString(schema)
+	r.hashString(schema)
 	if scope != nil {
-		r.h.WriteString(scope.Name)
-		r.h.WriteString(scope.Version)
+		r.hashString(scope.Name)
+		r.hashString(scope.Version)
 		if scope.Attributes != nil {
 			r.attr(scope.Attributes)
 		}
@@ -143,7 +143,8 @@ func (r *Sorter[T, R, S]) Swap(i, j int) {
 
 func (r *Sorter[T, R, S]) attr(kv []*commonv1.KeyValue) {
 	for _, v := range kv {
-		r.buf, _ = proto.MarshalOptions{}.MarshalAppend(r.buf[:0], v)
-		r.h.Write(r.buf)
+		b, _ := proto.Marshal(v)
+		r.hashNum(uint64(len(b)))
+		r.h.Write(b)
 	}
 }
-- 
2.43.0


From 8bf40ec2f02983e912c2df814026f2965ad991fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 13/40] fix: match long attributes when trimming results

The hash of the attribute looked for started from a zero digest, which only
agrees with a properly initialized one for short inputs. Filters with
a key and value of 32 bytes or more removed everything.
---
 internal/visit/visit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 6a250ab..80edf0d 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -161,7 +161,7 @@ func (a *All) SetResourceAttr(k, v string) {
 var sep = []byte("=")
 
 func attr(k, v string) uint64 {
-	var h xxhash.Digest
+	h := xxhash.New()
 	h.WriteString(k)
 	h.Write(sep)
 	h.WriteString(v)
-- 
2.43.0


From 4fbaf1d90673188caa9de084d6453922cf5086c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 14/40] fix: apply attribute filters to data points, spans and
 logs

They were applied to the attributes of the scope instead.
---
 internal/visit/visit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 80edf0d..5abeda5 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -115,7 +115,7 @@ func (o *All) Compile(filters ...*v1.Scan_Filter) {
 			case v1.Scan_SCOPE_ATTRIBUTES:
 				o.SetScopeAttr(e.Attr.Key, e.Attr.Value)
 			case v1.Scan_ATTRIBUTES:
-				o.SetScopeAttr(e.Attr.Key, e.Attr.Value)
+				o.SetAttr(e.Attr.Key, e.Attr.Value)
 			}
 		}
 	}
-- 
2.43.0


From 004b6ab16a6af7b2137357e204b62e4e03da6f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 15/40] fix: apply span, parent span and trace id filters when
 trimming results

The parent span filter was compared with the id of the span itself, the span
filter was ignored, and both trace and span filters were ignored for logs.
---
 internal/visit/logs.go  | 2 ++
 internal/visit/trace.go | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/visit/logs.go b/internal/visit/logs.go
index 861ccbd..e001ed1 100644
--- a/internal/visit/logs.go
+++ b/internal/visit/logs.go
@@ -24,6 +24,8 @@ func (Logs) Visit(data *logsv1.LogsData, visitor *All) *logsv1.LogsData {
 			for _, ms := range sm.LogRecords {
 				if !(visitor.AcceptLogLevel(ms.SeverityText) &&
 					visitor.AcceptTimestamp(ms.TimeUnixNano) &&
+					visitor.AcceptTraceID(ms.TraceId) &&
+					visitor.AcceptSpanID(ms.SpanId) &&
 					visitor.AcceptAttributes(ms.Attributes)) {
 					continue
 				}
diff --git a/internal/visit/trace.go b/internal/visit/trace.go
index a610ad4..3a25c95 100644
--- a/internal/visit/trace.go
+++ b/internal/visit/trace.go
@@ -25,7 +25,8 @@ func (Trace) Visit(data *tracev1.TracesData, visitor *All) *tracev1.TracesData {
 				if !(visitor.AcceptName(ms.Name) &&
 					visitor.AcceptTimestamp(ms.StartTimeUnixNano) &&
 					visitor.AcceptTraceID(ms.TraceId) &&
-					visitor.AcceptParentSpanID(ms.SpanId) &&
+					visitor.AcceptSpanID(ms.SpanId) &&
+					visitor.AcceptParentSpanID(ms.ParentSpanId) &&
 					visitor.AcceptAttributes(ms.Attributes)) {
 					continue
 				}
-- 
2.43.0


From 077b0831ec784957dc8b18ca0eef632e33fc4d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 16/40] fix: keep scope schema, description and unit when
 trimming results

---
 internal/visit/logs.go    |  3 ++-
 internal/visit/metrics.go | 35 +++++++++++++++++++++++++----------
 internal/visit/trace.go   |  3 ++-
 3 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/internal/visit/logs.go b/internal/visit/logs.go
index e001ed1..71017d4 100644
--- a/internal/visit/logs.go
+++ b/internal/visit/logs.go
@@ -31,7 +31,8 @@ func (Logs) Visit(data *logsv1.LogsData, visitor *All) *logsv1.LogsData {
 				}
 				if scope == nil {
 					scope = &logsv1.ScopeLogs{
-						Scope: sm.Scope,
+						Scope:     sm.Scope,
+						SchemaUrl: sm.SchemaUrl,
 					}
 				}
 				scope.LogRecords = append(scope.LogRecords, ms)
diff --git a/internal/visit/metrics.go b/internal/visit/metrics.go
index 886ebff..2702418 100644
--- a/internal/visit/metrics.go
+++ b/internal/visit/metrics.go
@@ -38,11 +38,14 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
 							Data: &metricsV1.Metric_Gauge{
 								Gauge: &metricsV1.Gauge{
 									DataPoints: points,
@@ -62,11 +65,14 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
 							Data: &metricsV1.Metric_Sum{
 								Sum: &metricsV1.Sum{
 									DataPoints:             points,
@@ -89,11 +95,14 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
 							Data: &metricsV1.Metric_Histogram{
 								Histogram: &metricsV1.Histogram{
 									DataPoints:             points,
@@ -115,11 +124,14 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
 							Data: &metricsV1.Metric_ExponentialHistogram{
 								ExponentialHistogram: &metricsV1.ExponentialHistogram{
 									DataPoints:             points,
@@ -141,11 +153,14 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
 							Data: &metricsV1.Metric_Summary{
 								Summary: &metricsV1.Summary{
 									DataPoints: points,
diff --git a/internal/visit/trace.go b/internal/visit/trace.go
index 3a25c95..5c0aa20 100644
--- a/internal/visit/trace.go
+++ b/internal/visit/trace.go
@@ -32,7 +32,8 @@ func (Trace) Visit(data *tracev1.TracesData, visitor *All) *tracev1.TracesData {
 				}
 				if scope == nil {
 					scope = &tracev1.ScopeSpans{
-						Scope: sm.Scope,
+						Scope:     sm.Scope,
+						SchemaUrl: sm.SchemaUrl,
 					}
 				}
 				scope.Spans = append(scope.Spans, ms)
-- 
2.43.0


From 7d5e6605485021e270b016d3e59f505969d21bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 17/40] fix: do not panic trimming attributes without a value

---
 internal/visit/visit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 5abeda5..6489959 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -291,7 +291,7 @@ func matchAttr(a *roaring64.Bitmap, ls []*commonV1.KeyValue) bool {
 	defer b.Release()
 	var h xxhash.Digest
 	for _, k := range ls {
-		switch e := k.Value.Value.(type) {
+		switch e := k.GetValue().GetValue().(type) {
 		case *commonV1.AnyValue_StringValue:
 			h.Reset()
 			h.WriteString(k.Key)
-- 
2.43.0


From ab145e1b7d0b552568e98386737d3f4763d0aa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 18/40] fix: return the end of the time range

---
 internal/visit/visit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 6489959..60d1868 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -262,7 +262,7 @@ func (a *All) AcceptAttributes(attr []*commonV1.KeyValue) bool {
 }
 
 func (a *All) TimeRange() (start, end uint64) {
-	return a.start_nano, a.start_nano
+	return a.start_nano, a.end_nano
 }
 
 func (a *All) AcceptLogLevel(lvl string) bool {
-- 
2.43.0


From cb5c348a731f7343256147a9b7b08def2d8871cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 19/40] fix: compute script time ranges relative to the scan
 evaluation time

Scripts set the evaluation time and offset of a scan for reproducible
analysis, yet today(), ago() and the like used the current time.
---
 internal/js/scan.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/js/scan.go b/internal/js/scan.go
index b3f90a1..43a0360 100644
--- a/internal/js/scan.go
+++ b/internal/js/scan.go
@@ -159,8 +159,16 @@ func (s *Scan) rangeTS(from, to time.Time) {
 	}
 }
 
+// ts returns the time relative to which time ranges are computed.
 func (s *Scan) ts() time.Time {
-	return s.o.GetNow()
+	ts := s.o.GetNow()
+	if s.scan.Now != nil {
+		ts = s.scan.Now.AsTime()
+	}
+	if s.scan.Offset != nil {
+		ts = ts.Add(-s.scan.Offset.AsDuration())
+	}
+	return ts
 }
 
 func (s *Scan) base(prop v1.Scan_BaseProp, value string) {
-- 
2.43.0


From 9636d7882a766afda26a35abf3e12d06b114fa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 20/40] fix: trim script results relative to the time of the
 runtime

---
 internal/js/rq.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/js/rq.go b/internal/js/rq.go
index 42352a6..ffcaf2e 100644
--- a/internal/js/rq.go
+++ b/internal/js/rq.go
@@ -90,7 +90,7 @@ func (r *JS) Scan(a *v1.Scan) (*v1.Data, error) {
 		vs := visit.New()
 		defer vs.Release()
 
-		start, end := x.TimeBounds(x.UTC, a)
+		start, end := x.TimeBounds(r.GetNow, a)
 		vs.SetTimeRange(uint64(start.UnixNano()), uint64(end.UnixNano()))
 		vs.Compile(a.Filters...)
 		return vs.Visit(data), nil
-- 
2.43.0


From b9e35140feb9fa0d1cebe9cfa40bbdd8198dcc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 21/40] fix: save accepted samples on shutdown

Samples accepted since the last tick were acknowledged and then dropped when
the service stopped, and a save in progress was cancelled.
---
 internal/service/service.go | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/internal/service/service.go b/internal/service/service.go
index 80e548f..2477d1a 100644
--- a/internal/service/service.go
+++ b/internal/service/service.go
@@ -34,6 +34,7 @@ type Service struct {
 	store    *store.Storage
 	dataMu   sync.Mutex
 	data     *samples.List
+	saveMu   sync.Mutex
 	seq      *seq.Seq
 	stats    struct {
 		processed metric.Int64Counter
@@ -87,19 +88,31 @@ func (s *Service) start(ctx context.Context) {
 		case <-ctx.Done():
 			return
 		case <-tick.C:
-			s.dataMu.Lock()
-			ls := s.data
-			s.data = samples.Get()
-			s.dataMu.Unlock()
-			err := s.store.SaveSamples(ctx, ls)
-			if err != nil {
-				slog.Error("Failed to save samples", "err", err)
-			}
-			ls.Release()
+			s.flush()
 		}
 	}
 }
 
+// flush persists all accepted samples. Samples being saved were acknowledged, so
+// this is never interrupted.
+func (s *Service) flush() {
+	s.saveMu.Lock()
+	defer s.saveMu.Unlock()
+
+	s.dataMu.Lock()
+	ls := s.data
+	s.data = samples.Get()
+	s.dataMu.Unlock()
+	defer ls.Release()
+	if len(ls.Items) == 0 {
+		return
+	}
+	err := s.store.SaveSamples(context.Background(), ls)
+	if err != nil {
+		slog.Error("Failed to save samples", "err", err)
+	}
+}
+
 func (s *Service) Save(data *v1.Data) error {
 	s.dataMu.Lock()
 	defer s.dataMu.Unlock()
@@ -111,6 +124,7 @@ func (s *Service) Save(data *v1.Data) error {
 }
 
 func (s *Service) Close() {
+	s.flush()
 	s.store.Close()
 	s.snippets.Close()
 }
-- 
2.43.0


From f2bd196e8d4ab902650c98c317ff3caa55599a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 22/40] fix: honour limit and reverse of a scan

Both are part of the scan request and exposed to scripts, but had no
effect.
---
 internal/store/scan.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/internal/store/scan.go b/internal/store/scan.go
index 52ffd98..984d480 100644
--- a/internal/store/scan.go
+++ b/internal/store/scan.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"log/slog"
+	"slices"
 
 	"github.com/dgraph-io/badger/v4"
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
@@ -55,6 +56,7 @@ func (s *Storage) Scan(ctx context.Context, scan *v1.Scan) (result *v1.Data, err
 		samples.Clear()
 		samples.Add(last)
 	}
+	limit(scan, samples)
 	var rs []*v1.Data
 	switch resource {
 	case v1.RESOURCE_METRICS:
@@ -72,9 +74,28 @@ func (s *Storage) Scan(ctx context.Context, scan *v1.Scan) (result *v1.Data, err
 	if len(rs) == 0 {
 		return data.Zero(resource), nil
 	}
+	if scan.Reverse {
+		slices.Reverse(rs)
+	}
 	return data.Collapse(rs), nil
 }
 
+// limit removes samples in excess of the scan limit. Scans keep the first samples,
+// or the last ones when in reverse.
+func limit(scan *v1.Scan, samples *bitmaps.Bitmap) {
+	if scan.Limit == 0 || samples.GetCardinality() <= scan.Limit {
+		return
+	}
+	keep := samples.ToArray()
+	if scan.Reverse {
+		keep = keep[uint64(len(keep))-scan.Limit:]
+	} else {
+		keep = keep[:scan.Limit]
+	}
+	samples.Clear()
+	samples.AddMany(keep)
+}
+
 func (s *Storage) CompileFilters(scan *v1.Scan, r *bitmaps.Bitmap) error {
 	lbl := labels.NewLabel()
 	defer lbl.Release()
-- 
2.43.0


From e8f711d1e55925f615d75a0000c2cf89c4fa7e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 23/40] fix: tell apart labels with = in their key

Attribute "a=b" with value "c" and attribute "a" with value "b=c" were the
same label, a filter on one matched samples with the other.
---
 internal/labels/labels.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/labels/labels.go b/internal/labels/labels.go
index 70efebf..329c571 100644
--- a/internal/labels/labels.go
+++ b/internal/labels/labels.go
@@ -2,11 +2,14 @@ package labels
 
 import (
 	"fmt"
+	"strings"
 	"sync"
 
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
 )
 
+var escape = strings.NewReplacer(`\`, `\\`, `=`, `\=`)
+
 type Label struct {
 	Resource v1.RESOURCE
 	Prefix   v1.PREFIX
@@ -40,7 +43,12 @@ func (l *Label) WithValue(v string) *Label {
 }
 
 func (l *Label) Encode() []byte {
-	l.buf = fmt.Appendf(l.buf[:0], "%d:%d:%s", l.Resource, l.Prefix, l.Key)
+	key := l.Key
+	if strings.ContainsAny(key, `=\`) {
+		// = ends the key, label a=b with value c is not label a with value b=c
+		key = escape.Replace(key)
+	}
+	l.buf = fmt.Appendf(l.buf[:0], "%d:%d:%s", l.Resource, l.Prefix, key)
 	if l.Value != "" {
 		l.buf = fmt.Appendf(l.buf, "=%s", l.Value)
 	}
-- 
2.43.0


From b7db32c63f9ce4148f534ee40fd7b67a64f187fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 24/40] fix: tell apart attributes with = in their key when
 trimming results

---
 internal/visit/visit.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 60d1868..4173dd6 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -1,6 +1,7 @@
 package visit
 
 import (
+	"encoding/binary"
 	"encoding/hex"
 	"sync"
 
@@ -162,10 +163,18 @@ var sep = []byte("=")
 
 func attr(k, v string) uint64 {
 	h := xxhash.New()
+	writeAttr(h, k, v)
+	return h.Sum64()
+}
+
+// writeAttr starts with the size of the key, both k and v may contain sep.
+func writeAttr(h *xxhash.Digest, k, v string) {
+	var size [8]byte
+	binary.BigEndian.PutUint64(size[:], uint64(len(k)))
+	h.Write(size[:])
 	h.WriteString(k)
 	h.Write(sep)
 	h.WriteString(v)
-	return h.Sum64()
 }
 
 func (a *All) SetScopeSchema(schema string) {
@@ -294,9 +303,7 @@ func matchAttr(a *roaring64.Bitmap, ls []*commonV1.KeyValue) bool {
 		switch e := k.GetValue().GetValue().(type) {
 		case *commonV1.AnyValue_StringValue:
 			h.Reset()
-			h.WriteString(k.Key)
-			h.Write(sep)
-			h.WriteString(e.StringValue)
+			writeAttr(&h, k.Key, e.StringValue)
 			b.Add(h.Sum64())
 		}
 	}
-- 
2.43.0


From 1e2ef409d77835d714770636eaf32a1e6260f33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 25/40] fix: keep reporting the end of a decompressed stream

---
 internal/compress/grpc.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/internal/compress/grpc.go b/internal/compress/grpc.go
index d2398f8..25b77ed 100644
--- a/internal/compress/grpc.go
+++ b/internal/compress/grpc.go
@@ -45,22 +45,39 @@ func (w *writeCodec) Close() (err error) {
 
 type readCodec struct {
 	*zstd.Decoder
+	// reported once Decoder is back in the pool
+	err error
 }
 
 func (r *readCodec) Read(p []byte) (n int, err error) {
+	if r.Decoder == nil {
+		return 0, r.err
+	}
 	n, err = r.Decoder.Read(p)
 	if err != nil {
-		r.Reset(nil)
-		putDecoder(r.Decoder)
-		r.Decoder = nil
+		r.release(err)
 	}
 	return
 }
 
 func (r *readCodec) WriteTo(w io.Writer) (n int64, err error) {
+	if r.Decoder == nil {
+		if r.err != io.EOF {
+			err = r.err
+		}
+		return
+	}
 	n, err = r.Decoder.WriteTo(w)
-	r.Reset(nil)
+	if err != nil {
+		r.release(err)
+	} else {
+		r.release(io.EOF)
+	}
+	return
+}
+
+func (r *readCodec) release(err error) {
+	r.err = err
 	putDecoder(r.Decoder)
 	r.Decoder = nil
-	return
 }
-- 
2.43.0


From 5e72ec306dd0b8aef1e95e624d90d7c17ef2afc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 26/40] fix: keep metric metadata when trimming results

---
 internal/visit/metrics.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/visit/metrics.go b/internal/visit/metrics.go
index 2702418..780f19d 100644
--- a/internal/visit/metrics.go
+++ b/internal/visit/metrics.go
@@ -46,6 +46,7 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 							Name:        ms.Name,
 							Description: ms.Description,
 							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_Gauge{
 								Gauge: &metricsV1.Gauge{
 									DataPoints: points,
@@ -73,6 +74,7 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 							Name:        ms.Name,
 							Description: ms.Description,
 							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_Sum{
 								Sum: &metricsV1.Sum{
 									DataPoints:             points,
@@ -103,6 +105,7 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 							Name:        ms.Name,
 							Description: ms.Description,
 							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_Histogram{
 								Histogram: &metricsV1.Histogram{
 									DataPoints:             points,
@@ -132,6 +135,7 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 							Name:        ms.Name,
 							Description: ms.Description,
 							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_ExponentialHistogram{
 								ExponentialHistogram: &metricsV1.ExponentialHistogram{
 									DataPoints:             points,
@@ -161,6 +165,7 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 							Name:        ms.Name,
 							Description: ms.Description,
 							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_Summary{
 								Summary: &metricsV1.Summary{
 									DataPoints: points,
-- 
2.43.0


From 3aaf280d88b5a42a895baa6520646c26c7b5a855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 27/40] fix: do not mix up labels with colliding hashes

Labels were cached by their 64 bit xxhash. A label whose hash equals that of a label
seen before was stored as the other label: its samples were not found by their own
label and found by the other one.

Properties: P01 P02
---
 internal/store/store.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/store/store.go b/internal/store/store.go
index 3ea5e44..e9ab1ac 100644
--- a/internal/store/store.go
+++ b/internal/store/store.go
@@ -4,7 +4,6 @@ import (
 	"context"
 	"time"
 
-	"github.com/cespare/xxhash/v2"
 	"github.com/dgraph-io/badger/v4"
 	"github.com/dgraph-io/ristretto"
 	"github.com/gernest/rbf"
@@ -56,15 +55,14 @@ func NewStore(db *badger.DB, rdb *shards.Shards, tr *translate.Translate, seq *s
 }
 
 func (s *Storage) Translate(key []byte) uint64 {
-	h := xxhash.Sum64(key)
-	if v, ok := s.columnsCache.Get(h); ok {
+	if v, ok := s.columnsCache.Get(key); ok {
 		return v.(uint64)
 	}
 	v, err := s.translate.TranslateKey(key)
 	if err != nil {
 		logger.Fail("BUG: failed tp translate column", "err", err)
 	}
-	s.columnsCache.Set(h, v, 8)
+	s.columnsCache.Set(key, v, 8)
 	return v
 }
 
-- 
2.43.0


From 3ccfc9e92c1082bfd2411e9d7b4a8eb307dba195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 28/40] fix: do not merge resources with colliding hashes

Resources, scopes and metrics were told apart by a 64 bit xxhash, for which distinct
content with the same hash is easily made.

Property: P05
---
 internal/data/sort.go | 52 +++++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 27 deletions(-)

diff --git a/internal/data/sort.go b/internal/data/sort.go
index 55a2a70..933fc52 100644
--- a/internal/data/sort.go
+++ b/internal/data/sort.go
@@ -1,24 +1,26 @@
 package data
 
 import (
+	"crypto/sha256"
 	"encoding/binary"
 	"slices"
 	"sort"
 
-	"github.com/cespare/xxhash/v2"
 	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
 	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
 	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
 	"google.golang.org/protobuf/proto"
 )
 
+// identity is a cryptographic hash, different content is never mistaken for the same.
+type identity [sha256.Size]byte
+
 type Sorter[T any, R any, S any] struct {
-	h        xxhash.Digest
-	resource map[uint64]R
-	scope    map[uint64]S
-	metrics  map[uint64]T
-	order    map[uint64]int
-	rs       []uint64
+	resource map[identity]R
+	scope    map[identity]S
+	metrics  map[identity]T
+	order    map[identity]int
+	rs       []identity
 	id       []int
 	buf      []byte
 }
@@ -35,19 +37,18 @@ func (r *Sorter[T, R, S]) Reset() {
 
 func newSorter[T any, R any, S any]() *Sorter[T, R, S] {
 	return &Sorter[T, R, S]{
-		resource: make(map[uint64]R),
-		scope:    make(map[uint64]S),
-		metrics:  make(map[uint64]T),
-		order:    make(map[uint64]int),
+		resource: make(map[identity]R),
+		scope:    make(map[identity]S),
+		metrics:  make(map[identity]T),
+		order:    make(map[identity]int),
 		buf:      make([]byte, 0, 4<<10),
 	}
 }
 
 // hashMetrics identifies a metric stream. Data points are only merged for metrics
 // that agree on everything but data points.
-func (r *Sorter[T, R, S]) hashMetrics(scope uint64, m *metricsv1.Metric) uint64 {
-	r.h.Reset()
-	r.hashNum(scope)
+func (r *Sorter[T, R, S]) hashMetrics(scope identity, m *metricsv1.Metric) identity {
+	r.buf = append(r.buf[:0], scope[:]...)
 	r.hashString(m.Name)
 	r.hashString(m.Description)
 	r.hashString(m.Unit)
@@ -69,34 +70,31 @@ func (r *Sorter[T, R, S]) hashMetrics(scope uint64, m *metricsv1.Metric) uint64
 	case *metricsv1.Metric_Summary:
 		r.hashNum(5)
 	}
-	return r.h.Sum64()
+	return sha256.Sum256(r.buf)
 }
 
 func (r *Sorter[T, R, S]) hashNum(v uint64) {
-	binary.BigEndian.PutUint64(r.buf[:8], v)
-	r.h.Write(r.buf[:8])
-	r.buf = r.buf[:0]
+	r.buf = binary.BigEndian.AppendUint64(r.buf, v)
 }
 
 // hashString includes the length of v, so that consecutive strings never run into
 // each other.
 func (r *Sorter[T, R, S]) hashString(v string) {
 	r.hashNum(uint64(len(v)))
-	r.h.WriteString(v)
+	r.buf = append(r.buf, v...)
 }
 
-func (r *Sorter[T, R, S]) hashResource(schema string, resource *resourcev1.Resource) uint64 {
-	r.h.Reset()
+func (r *Sorter[T, R, S]) hashResource(schema string, resource *resourcev1.Resource) identity {
+	r.buf = r.buf[:0]
 	r.hashString(schema)
 	if resource != nil {
 		r.attr(resource.Attributes)
 	}
-	return r.h.Sum64()
+	return sha256.Sum256(r.buf)
 }
 
-func (r *Sorter[T, R, S]) hashScope(resource uint64, schema string, scope *commonv1.InstrumentationScope) uint64 {
-	r.h.Reset()
-	r.hashNum(resource)
+func (r *Sorter[T, R, S]) hashScope(resource identity, schema string, scope *commonv1.InstrumentationScope) identity {
+	r.buf = append(r.buf[:0], resource[:]...)
 	r.hashString(schema)
 	if scope != nil {
 		r.hashString(scope.Name)
@@ -105,7 +103,7 @@ func (r *Sorter[T, R, S]) hashScope(resource uint64, schema string, scope *commo
 			r.attr(scope.Attributes)
 		}
 	}
-	return r.h.Sum64()
+	return sha256.Sum256(r.buf)
 }
 
 func (r *Sorter[T, R, S]) Len() int {
@@ -145,6 +143,6 @@ func (r *Sorter[T, R, S]) attr(kv []*commonv1.KeyValue) {
 	for _, v := range kv {
 		b, _ := proto.Marshal(v)
 		r.hashNum(uint64(len(b)))
-		r.h.Write(b)
+		r.buf = append(r.buf, b...)
 	}
 }
-- 
2.43.0


From f32aefb15feccebd9fc080223f368ec601f7b1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 29/40] fix: do not match values with colliding hashes when
 trimming results

Property: P13
---
 internal/visit/visit.go | 121 ++++++++++++++++++++--------------------
 1 file changed, 62 insertions(+), 59 deletions(-)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 4173dd6..a92d2d5 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -1,14 +1,11 @@
 package visit
 
 import (
-	"encoding/binary"
 	"encoding/hex"
+	"strconv"
 	"sync"
 
-	"github.com/RoaringBitmap/roaring/roaring64"
-	"github.com/cespare/xxhash/v2"
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
-	"github.com/gernest/requiemdb/internal/bitmaps"
 	commonV1 "go.opentelemetry.io/proto/otlp/common/v1"
 	resourceV1 "go.opentelemetry.io/proto/otlp/resource/v1"
 )
@@ -63,19 +60,39 @@ func (a *All) Visit(data *v1.Data) *v1.Data {
 	}
 }
 
+// set holds the values of a filter as they are. Values are not hashed, different
+// values must never match.
+type set map[string]struct{}
+
+func (s *set) Add(v string) {
+	if *s == nil {
+		*s = make(set)
+	}
+	(*s)[v] = struct{}{}
+}
+
+func (s *set) Contains(v string) bool {
+	_, ok := (*s)[v]
+	return ok
+}
+
+func (s *set) IsEmpty() bool { return len(*s) == 0 }
+
+func (s *set) Clear() { clear(*s) }
+
 type All struct {
-	resource_schema      roaring64.Bitmap
-	resource_attr        roaring64.Bitmap
-	scope_schema         roaring64.Bitmap
-	scope_name           roaring64.Bitmap
-	scope_version        roaring64.Bitmap
-	scope_attr           roaring64.Bitmap
-	attr                 roaring64.Bitmap
-	name                 roaring64.Bitmap
-	trace_id             roaring64.Bitmap
-	span_id              roaring64.Bitmap
-	parent_span_id       roaring64.Bitmap
-	log_level            roaring64.Bitmap
+	resource_schema      set
+	resource_attr        set
+	scope_schema         set
+	scope_name           set
+	scope_version        set
+	scope_attr           set
+	attr                 set
+	name                 set
+	trace_id             set
+	span_id              set
+	parent_span_id       set
+	log_level            set
 	start_nano, end_nano uint64
 }
 
@@ -140,7 +157,7 @@ func (a *All) Reset() {
 	a.start_nano = 0
 	a.end_nano = 0
 }
-func reset(r ...*roaring64.Bitmap) {
+func reset(r ...*set) {
 	for _, v := range r {
 		v.Clear()
 	}
@@ -152,40 +169,29 @@ func (a *All) Release() {
 }
 
 func (a *All) SetResourceSchema(schema string) {
-	a.resource_schema.Add(xxhash.Sum64String(schema))
+	a.resource_schema.Add(schema)
 }
 
 func (a *All) SetResourceAttr(k, v string) {
 	a.resource_attr.Add(attr(k, v))
 }
 
-var sep = []byte("=")
+const sep = "="
 
-func attr(k, v string) uint64 {
-	h := xxhash.New()
-	writeAttr(h, k, v)
-	return h.Sum64()
-}
-
-// writeAttr starts with the size of the key, both k and v may contain sep.
-func writeAttr(h *xxhash.Digest, k, v string) {
-	var size [8]byte
-	binary.BigEndian.PutUint64(size[:], uint64(len(k)))
-	h.Write(size[:])
-	h.WriteString(k)
-	h.Write(sep)
-	h.WriteString(v)
+// attr starts with the size of the key, both k and v may contain sep.
+func attr(k, v string) string {
+	return strconv.Itoa(len(k)) + sep + k + sep + v
 }
 
 func (a *All) SetScopeSchema(schema string) {
-	a.scope_schema.Add(xxhash.Sum64String(schema))
+	a.scope_schema.Add(schema)
 }
 func (a *All) SetScopeName(name string) {
-	a.scope_name.Add(xxhash.Sum64String(name))
+	a.scope_name.Add(name)
 }
 
 func (a *All) SetScopVersion(version string) {
-	a.scope_version.Add(xxhash.Sum64String(version))
+	a.scope_version.Add(version)
 }
 
 func (a *All) SetScopeAttr(k, v string) {
@@ -197,7 +203,7 @@ func (a *All) SetAttr(k, v string) {
 }
 
 func (a *All) SetName(name string) {
-	a.name.Add(xxhash.Sum64String(name))
+	a.name.Add(name)
 }
 
 func (a *All) SetTraceID(id string) error {
@@ -205,7 +211,7 @@ func (a *All) SetTraceID(id string) error {
 	if err != nil {
 		return err
 	}
-	a.trace_id.Add(xxhash.Sum64(h))
+	a.trace_id.Add(string(h))
 	return nil
 }
 
@@ -214,7 +220,7 @@ func (a *All) SetSpanID(id string) error {
 	if err != nil {
 		return err
 	}
-	a.span_id.Add(xxhash.Sum64(h))
+	a.span_id.Add(string(h))
 	return nil
 }
 
@@ -223,12 +229,12 @@ func (a *All) SetParentSpanID(id string) error {
 	if err != nil {
 		return err
 	}
-	a.parent_span_id.Add(xxhash.Sum64(h))
+	a.parent_span_id.Add(string(h))
 	return nil
 }
 
 func (a *All) SetLogLevel(lvl string) {
-	a.log_level.Add(xxhash.Sum64String(lvl))
+	a.log_level.Add(lvl)
 }
 
 func (a *All) SetTimeRange(start, end uint64) {
@@ -239,7 +245,7 @@ func (a *All) AcceptResourceSchema(schema string) bool {
 	if a.resource_schema.IsEmpty() {
 		return true
 	}
-	return a.resource_schema.Contains(xxhash.Sum64String(schema))
+	return a.resource_schema.Contains(schema)
 }
 
 func (a *All) AcceptResourceAttributes(kv []*commonV1.KeyValue) bool {
@@ -247,15 +253,15 @@ func (a *All) AcceptResourceAttributes(kv []*commonV1.KeyValue) bool {
 }
 func (a *All) AcceptScopeSchema(schema string) bool {
 	return a.scope_schema.IsEmpty() ||
-		a.scope_schema.Contains(xxhash.Sum64String(schema))
+		a.scope_schema.Contains(schema)
 }
 func (a *All) AcceptScopeName(name string) bool {
 	return a.scope_name.IsEmpty() ||
-		a.scope_name.Contains(xxhash.Sum64String(name))
+		a.scope_name.Contains(name)
 }
 func (a *All) AcceptScopeVersion(version string) bool {
 	return a.scope_version.IsEmpty() ||
-		a.scope_version.Contains(xxhash.Sum64String(version))
+		a.scope_version.Contains(version)
 }
 func (a *All) AcceptScopeAttributes(attr []*commonV1.KeyValue) bool {
 	return matchAttr(&a.scope_attr, attr)
@@ -263,7 +269,7 @@ func (a *All) AcceptScopeAttributes(attr []*commonV1.KeyValue) bool {
 
 func (a *All) AcceptName(name string) bool {
 	return a.name.IsEmpty() ||
-		a.name.Contains(xxhash.Sum64String(name))
+		a.name.Contains(name)
 }
 
 func (a *All) AcceptAttributes(attr []*commonV1.KeyValue) bool {
@@ -276,39 +282,36 @@ func (a *All) TimeRange() (start, end uint64) {
 
 func (a *All) AcceptLogLevel(lvl string) bool {
 	return a.log_level.IsEmpty() ||
-		a.log_level.Contains(xxhash.Sum64String(lvl))
+		a.log_level.Contains(lvl)
 }
 func (a *All) AcceptTraceID(id []byte) bool {
-	return a.trace_id.IsEmpty() || a.trace_id.Contains(xxhash.Sum64(id))
+	return a.trace_id.IsEmpty() || a.trace_id.Contains(string(id))
 }
 func (a *All) AcceptSpanID(id []byte) bool {
-	return a.span_id.IsEmpty() || a.span_id.Contains(xxhash.Sum64(id))
+	return a.span_id.IsEmpty() || a.span_id.Contains(string(id))
 }
 func (a *All) AcceptParentSpanID(id []byte) bool {
-	return a.parent_span_id.IsEmpty() || a.parent_span_id.Contains(xxhash.Sum64(id))
+	return a.parent_span_id.IsEmpty() || a.parent_span_id.Contains(string(id))
 }
 
 func (a *All) AcceptTimestamp(ts uint64) bool {
 	return ts >= a.start_nano && ts < a.end_nano
 }
 
-func matchAttr(a *roaring64.Bitmap, ls []*commonV1.KeyValue) bool {
+func matchAttr(a *set, ls []*commonV1.KeyValue) bool {
 	if a.IsEmpty() {
 		return true
 	}
-	b := bitmaps.New()
-	defer b.Release()
-	var h xxhash.Digest
+	var b set
 	for _, k := range ls {
 		switch e := k.GetValue().GetValue().(type) {
 		case *commonV1.AnyValue_StringValue:
-			h.Reset()
-			writeAttr(&h, k.Key, e.StringValue)
-			b.Add(h.Sum64())
+			if v := attr(k.Key, e.StringValue); a.Contains(v) {
+				b.Add(v)
+			}
 		}
 	}
 	// For labels, we use And to make sure we only take data points that have all
 	// labels matching.
-	b.And(a)
-	return b.GetCardinality() == a.GetCardinality()
+	return len(b) == len(*a)
 }
-- 
2.43.0


From 38d560ebe32fc295d817f57d0f393ab93134314d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 30/40] fix: do not let changes of a row show in the rows it
 was made from

Results of Union, Xor, Difference, Merge, AddBSI and Shift by 0 shared writable segments
with their operands. Setting a column of the result changed the operand as well, and the
other way around, with stale counts on the other side.

Property: P16
---
 internal/rows/bsi.go |  4 ++--
 internal/rows/row.go | 25 ++++++++++++++++++-------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/internal/rows/bsi.go b/internal/rows/bsi.go
index 7b46e28..2ec3972 100644
--- a/internal/rows/bsi.go
+++ b/internal/rows/bsi.go
@@ -117,7 +117,7 @@ func AddBSI(x, y BSIData) BSIData {
 				continue
 			}
 			xsegs[i] = segs[1:]
-			bm := segs[0].data
+			bm := segs[0].data.Freeze()
 			if !bm.Any() {
 				continue
 			}
@@ -131,7 +131,7 @@ func AddBSI(x, y BSIData) BSIData {
 				continue
 			}
 			ysegs[i] = segs[1:]
-			bm := segs[0].data
+			bm := segs[0].data.Freeze()
 			if !bm.Any() {
 				continue
 			}
diff --git a/internal/rows/row.go b/internal/rows/row.go
index 906b73e..a0da89d 100644
--- a/internal/rows/row.go
+++ b/internal/rows/row.go
@@ -305,7 +305,7 @@ func (r *Row) Merge(other *Row) {
 	for s0, s1 := itr.next(); s0 != nil || s1 != nil; s0, s1 = itr.next() {
 		// Use the other row's data if segment is missing.
 		if s0 == nil {
-			segments = append(segments, *s1)
+			segments = append(segments, s1.share())
 			continue
 		} else if s1 == nil {
 			segments = append(segments, *s0)
@@ -370,10 +370,10 @@ func (r *Row) Xor(other *Row) *Row {
 	itr := newMergeSegmentIterator(r.Segments, other.Segments)
 	for s0, s1 := itr.next(); s0 != nil || s1 != nil; s0, s1 = itr.next() {
 		if s1 == nil {
-			segments = append(segments, *s0)
+			segments = append(segments, s0.share())
 			continue
 		} else if s0 == nil {
-			segments = append(segments, *s1)
+			segments = append(segments, s1.share())
 			continue
 		}
 
@@ -420,7 +420,7 @@ func (r *Row) Union(others ...*Row) *Row {
 		// Swap the segment lists (so we don't have to reallocate it)
 		segments, nextSegs = nextSegs, segments
 		if len(toProcess) == 1 {
-			output = append(output, *toProcess[0])
+			output = append(output, toProcess[0].share())
 		} else {
 			output = append(output, *toProcess[0].Union(toProcess[1:]...))
 		}
@@ -445,7 +445,7 @@ func (r *Row) Difference(others ...*Row) *Row {
 		if ok {
 			output = append(output, *segment.Difference(dest...))
 		} else {
-			output = append(output, segment)
+			output = append(output, segment.share())
 		}
 	}
 	return &Row{Segments: output}
@@ -474,7 +474,7 @@ func (r *Row) Shift(n int64) (*Row, error) {
 	if n < 0 {
 		return nil, errors.New("cannot shift by negative values")
 	} else if n == 0 {
-		return r, nil
+		return r.Clone(), nil
 	}
 
 	work := r
@@ -796,6 +796,17 @@ func (s *RowSegment) ensureWritable() {
 	s.writable = true
 }
 
+// share returns a segment with the same columns as s, that can be changed without
+// changing s and the other way around.
+func (s *RowSegment) share() RowSegment {
+	return RowSegment{
+		shard:    s.shard,
+		data:     s.data.Freeze(),
+		writable: true,
+		n:        s.n,
+	}
+}
+
 // mergeSegmentIterator produces an iterator that loops through two sets of segments.
 type mergeSegmentIterator struct {
 	a0, a1 []RowSegment
@@ -833,7 +844,7 @@ func (itr *mergeSegmentIterator) next() (s0, s1 *RowSegment) {
 		return s0, nil
 	} else if s0.shard > s1.shard {
 		itr.a1 = itr.a1[1:]
-		return s1, nil
+		return nil, s1
 	}
 
 	// Return both if shards are equal.
-- 
2.43.0


From 13095794380c40642c0367ba7f18e39abc69446f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:23 +0000
Subject: [PATCH 31/40] fix: find samples whose labels are in different
 containers of a shard

A row filter is shown one container of a row at a time, filters for columns
of two containers never match together. With more than 65536 labels a scan
with two filters could miss every sample.
---
 internal/shards/shards.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index a86ec35..8db8231 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -124,13 +124,13 @@ func (s *Shards) AllShards(f func(tx *rbf.Tx, shard uint64) error) error {
 }
 
 func (s *Shards) Rows(start, end time.Time, columns *bitmaps.Bitmap) (*bitmaps.Bitmap, error) {
-	// divide columns by shard
+	// divide columns by container. Filters of a row filter see one container of
+	// a row at a time, they never match together when they are for different ones.
 	m := make(map[uint64][]uint64)
 	it := columns.Iterator()
 	for it.HasNext() {
 		col := it.Next()
-		shard := col / shardwidth.ShardWidth
-		m[shard] = append(m[shard], col)
+		m[col>>16] = append(m[col>>16], col)
 	}
 	return s.rows(view.Search(start, end), m)
 }
@@ -146,7 +146,7 @@ func (s *Shards) rows(views []string, columns map[uint64][]uint64) (r *bitmaps.B
 	var tx *rbf.Tx
 	var fs []roaring.BitmapFilter
 	for k, f := range columns {
-		db, ok := s.db[k]
+		db, ok := s.db[(k<<16)/shardwidth.ShardWidth]
 		if !ok {
 			// Matches should be true for all filters.
 			if r != nil {
-- 
2.43.0


From 8debbd40de42ba15266e6c525531feb686fbdead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:23 +0000
Subject: [PATCH 32/40] fix: do not return rows that depend on a finished
 transaction

The containers of a row pointed into pages of the database, which change
with the next checkpoint and are unmapped when the shard is closed.
---
 internal/shards/shards.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index 8db8231..e02214a 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -217,7 +217,8 @@ func row(tx *rbf.Tx, view string, shard, rowID uint64) (*rows.Row, error) {
 	}
 	r := rows.NewRow()
 	r.Segments = append(r.Segments, *rows.NewSegment(
-		data, shard, true,
+		// data is in pages of tx, which are gone or reused when it ends
+		data.Clone(), shard, true,
 	))
 	r.InvalidateCount()
 	return r, nil
-- 
2.43.0


From 91ca360ea81d075ee620aaea70ddc3f1ce8baab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:29 +0000
Subject: [PATCH 33/40] fix: find the first container of copies of a row from
 roaring data

---
 internal/rows/row.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/rows/row.go b/internal/rows/row.go
index a0da89d..cee6184 100644
--- a/internal/rows/row.go
+++ b/internal/rows/row.go
@@ -249,12 +249,19 @@ func NewRowFromRoaring(data []byte) *Row {
 	bitmaps, shards := roaring.RoaringToBitmaps(data, shardwidth.ShardWidth)
 	r := &Row{Segments: make([]RowSegment, len(bitmaps))}
 	for i := range bitmaps {
+		// The bitmaps we get are backed by b-trees, a copy of which can't find its
+		// container 0. Segments are copied, so we move containers to a slice.
 		segment := RowSegment{
 			shard:    shards[i],
-			data:     bitmaps[i],
+			data:     roaring.NewSliceBitmap(),
 			writable: false,
 			n:        bitmaps[i].Count(),
 		}
+		it, _ := bitmaps[i].Containers.Iterator(0)
+		for it.Next() {
+			segment.data.Containers.Put(it.Value())
+		}
+		it.Close()
 		r.Segments[i] = segment
 	}
 	return r
-- 
2.43.0


From b1396b772632d7b3bb45d0e32a158139f1be46f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:01 +0000
Subject: [PATCH 34/40] fix: number labels too long to be keys of the database

A label of more than 65000 bytes, an attribute holding a long stack trace for
example, could not be translated and the process exited.
---
 internal/translate/translate.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/internal/translate/translate.go b/internal/translate/translate.go
index 6abd02f..738528a 100644
--- a/internal/translate/translate.go
+++ b/internal/translate/translate.go
@@ -2,6 +2,7 @@ package translate
 
 import (
 	"bytes"
+	"crypto/sha256"
 	"encoding/binary"
 	"errors"
 	"slices"
@@ -14,9 +15,12 @@ type Translate struct {
 	db  *badger.DB
 	seq *badger.Sequence
 
-	keys, ids []byte
+	keys, ids, long []byte
 }
 
+// badger rejects longer keys
+const maxKeySize = 65000
+
 func New(db *badger.DB, prefix []byte) (*Translate, error) {
 	// prefix may have spare capacity, clip it so that each append below allocates
 	// instead of overwriting the result of the previous one.
@@ -28,6 +32,7 @@ func New(db *badger.DB, prefix []byte) (*Translate, error) {
 	return &Translate{db: db, seq: seq,
 		keys: slices.Clip(append(prefix, []byte("keys")...)),
 		ids:  slices.Clip(append(prefix, []byte("ids")...)),
+		long: slices.Clip(append(prefix, []byte("long")...)),
 	}, nil
 }
 
@@ -80,8 +85,7 @@ func (b *Translate) TranslateBulkID(ids []uint64, f func(key []byte) error) (err
 func (b *Translate) TranslateKey(key []byte) (n uint64, err error) {
 	err = b.db.Update(func(txn *badger.Txn) error {
 		g := get()
-		g.Write(b.keys)
-		g.Write(key)
+		b.writeKey(g, key)
 		defer put(g)
 		it, err := txn.Get(g.Bytes())
 		if err != nil {
@@ -111,6 +115,19 @@ func (b *Translate) TranslateKey(key []byte) (n uint64, err error) {
 	return
 }
 
+// writeKey writes the database key of key. Keys too long for the database are
+// stored by their digest.
+func (b *Translate) writeKey(g *bytes.Buffer, key []byte) {
+	if len(b.keys)+len(key) <= maxKeySize {
+		g.Write(b.keys)
+		g.Write(key)
+		return
+	}
+	h := sha256.Sum256(key)
+	g.Write(b.long)
+	g.Write(h[:])
+}
+
 func get() *bytes.Buffer {
 	return kb.Get().(*bytes.Buffer)
 }
@@ -125,8 +142,10 @@ var kb = &sync.Pool{New: func() any { return new(bytes.Buffer) }}
 // Find finds translated key. Returns 0 if no key was found
 func (b *Translate) Find(key []byte) (n uint64, err error) {
 	err = b.db.Update(func(txn *badger.Txn) error {
-		k := append(b.keys, key...)
-		it, err := txn.Get(k)
+		g := get()
+		b.writeKey(g, key)
+		defer put(g)
+		it, err := txn.Get(g.Bytes())
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From e33eb0c3c1508e26a24ff9b77049d44c2b8af5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:06 +0000
Subject: [PATCH 35/40] fix: wait for handlers before closing what they use

---
 cmd/rq/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/rq/main.go b/cmd/rq/main.go
index d99c0a0..b8812fd 100644
--- a/cmd/rq/main.go
+++ b/cmd/rq/main.go
@@ -122,7 +122,11 @@ func run(ctx context.Context, cmd *cli.Command) (exit error) {
 	}
 	defer otelGRPC.Close()
 
-	oSvr := grpc.NewServer(grpc.StatsHandler(otelgrpc.NewServerHandler()))
+	oSvr := grpc.NewServer(
+		// Handlers use what is closed after the server is stopped
+		grpc.WaitForHandlers(true),
+		grpc.StatsHandler(otelgrpc.NewServerHandler()),
+	)
 	defer oSvr.Stop()
 
 	v1.RegisterRQServer(oSvr, api)
-- 
2.43.0


From f0fbc0f7c1100f3546c01bf606361ade16bb89ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:20 +0000
Subject: [PATCH 36/40] fix: render the result of a scan that matched nothing

---
 internal/render/metrics.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/render/metrics.go b/internal/render/metrics.go
index a30182e..b03fcc4 100644
--- a/internal/render/metrics.go
+++ b/internal/render/metrics.go
@@ -23,7 +23,7 @@ func MetricsDataJSON(data *v1.MetricsData, o JSONOptions) ([]byte, error) {
 func MetricsData(md *v1.MetricsData, o MetricsFormatOption) string {
 	b := get()
 	defer put(b)
-	for i, rm := range md.ResourceMetrics {
+	for i, rm := range md.GetResourceMetrics() {
 		if i != 0 {
 			b.WriteByte('\n')
 		}
-- 
2.43.0


From 8898bbde1b438bdc47583a9d57e8e37e02dc48a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:20 +0000
Subject: [PATCH 37/40] fix: render attributes that have no value

---
 internal/render/attribute.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/render/attribute.go b/internal/render/attribute.go
index 8a64086..fd07060 100644
--- a/internal/render/attribute.go
+++ b/internal/render/attribute.go
@@ -18,7 +18,7 @@ func attr(kv []*v1.KeyValue) string {
 }
 
 func value(b *bytes.Buffer, v *v1.AnyValue) {
-	switch e := v.Value.(type) {
+	switch e := v.GetValue().(type) {
 	case *v1.AnyValue_StringValue:
 		fmt.Fprintf(b, "%q", e.StringValue)
 	case *v1.AnyValue_BoolValue:
-- 
2.43.0


From b5ca63715daac25cbf577ba2d694025bf768d93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:54 +0000
Subject: [PATCH 38/40] fix: tell cached scripts apart by sha256

---
 internal/commands/query/query.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/commands/query/query.go b/internal/commands/query/query.go
index 61b012b..2ca84c6 100644
--- a/internal/commands/query/query.go
+++ b/internal/commands/query/query.go
@@ -2,6 +2,7 @@ package query
 
 import (
 	"context"
+	"crypto/sha256"
 	"errors"
 	"fmt"
 	"log/slog"
@@ -9,7 +10,6 @@ import (
 	"path/filepath"
 	"time"
 
-	"github.com/cespare/xxhash/v2"
 	"github.com/dop251/goja"
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
 	"github.com/gernest/requiemdb/internal/commands"
@@ -76,8 +76,9 @@ func run(ctx context.Context, cmd *cli.Command) error {
 }
 
 func build(log *slog.Logger, data []byte) (*goja.Program, error) {
-	hash := xxhash.Sum64(data)
-	key := filepath.Join(commands.Cache(), fmt.Sprint(hash))
+	// scripts of the same name are taken for the same script
+	hash := sha256.Sum256(data)
+	key := filepath.Join(commands.Cache(), fmt.Sprintf("%x", hash))
 	cached, err := os.ReadFile(key)
 	if err != nil {
 		if os.IsNotExist(err) {
-- 
2.43.0


From bce4e69cf2840cce4fae301ace0c2b4d1c3a35e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:54 +0000
Subject: [PATCH 39/40] fix: never leave an incomplete compiled script in the
 cache

---
 internal/commands/query/query.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/commands/query/query.go b/internal/commands/query/query.go
index 2ca84c6..d029f80 100644
--- a/internal/commands/query/query.go
+++ b/internal/commands/query/query.go
@@ -87,7 +87,7 @@ func build(log *slog.Logger, data []byte) (*goja.Program, error) {
 			if err != nil {
 				return nil, err
 			}
-			err = os.WriteFile(key, cached, 0600)
+			err = save(key, cached)
 			if err != nil {
 				return nil, err
 			}
@@ -99,3 +99,18 @@ func build(log *slog.Logger, data []byte) (*goja.Program, error) {
 	}
 	return goja.Compile("scan.js", string(cached), true)
 }
+
+// save never leaves an incomplete file under key
+func save(key string, data []byte) error {
+	f, err := os.CreateTemp(filepath.Dir(key), "build-*")
+	if err != nil {
+		return err
+	}
+	defer os.Remove(f.Name())
+	_, err = f.Write(data)
+	err = errors.Join(err, f.Close())
+	if err != nil {
+		return err
+	}
+	return os.Rename(f.Name(), key)
+}
-- 
2.43.0


From 49666ca6cab4104f1c52e08f098840e22d40f96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:54 +0000
Subject: [PATCH 40/40] fix: export what was recorded last when the server
 shuts down

---
 cmd/rq/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/rq/main.go b/cmd/rq/main.go
index b8812fd..6fd0354 100644
--- a/cmd/rq/main.go
+++ b/cmd/rq/main.go
@@ -139,7 +139,8 @@ func run(ctx context.Context, cmd *cli.Command) (exit error) {
 		return err
 	}
 
-	defer providers.Shutdown(ctx)
+	// ctx is done by then, what was recorded last is still to be exported
+	defer providers.Shutdown(context.Background())
 	store.MonitorSize(ctx, db)
 
 	go api.Start(ctx)
-- 
2.43.0

