From fe2cbabaaf1128a05e5d284c0653d2eb7e31ef3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 01/35] fix: compile attribute filters against record
 attributes, not scope attributes

---
 internal/visit/visit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 6a250ab..3c72391 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -115,7 +115,7 @@ func (o *All) Compile(filters ...*v1.Scan_Filter) {
 			case v1.Scan_SCOPE_ATTRIBUTES:
 				o.SetScopeAttr(e.Attr.Key, e.Attr.Value)
 			case v1.Scan_ATTRIBUTES:
-				o.SetScopeAttr(e.Attr.Key, e.Attr.Value)
+				o.SetAttr(e.Attr.Key, e.Attr.Value)
 			}
 		}
 	}
-- 
2.43.0


From 69105ce1c08486beda7ac97ed13808d373bb7897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 02/35] fix: initialise the digest used for attribute filters

A zero xxhash.Digest hashes inputs of 32 bytes or more differently from
a reset one, so long attribute filters never matched.
---
 internal/visit/visit.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 3c72391..b80b3dd 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -162,6 +162,7 @@ var sep = []byte("=")
 
 func attr(k, v string) uint64 {
 	var h xxhash.Digest
+	h.Reset()
 	h.WriteString(k)
 	h.Write(sep)
 	h.WriteString(v)
-- 
2.43.0


From df99bdb0a5a6e67208dbecfb856f0cbc62cb1b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 03/35] fix: do not panic on attributes without a value

---
 internal/visit/visit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index b80b3dd..423d413 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -292,7 +292,7 @@ func matchAttr(a *roaring64.Bitmap, ls []*commonV1.KeyValue) bool {
 	defer b.Release()
 	var h xxhash.Digest
 	for _, k := range ls {
-		switch e := k.Value.Value.(type) {
+		switch e := k.GetValue().GetValue().(type) {
 		case *commonV1.AnyValue_StringValue:
 			h.Reset()
 			h.WriteString(k.Key)
-- 
2.43.0


From aa6fcabde519501f137fcc642d7a883cf00aea44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 04/35] fix: match span and parent span id filters against
 their own ids

---
 internal/visit/trace.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/visit/trace.go b/internal/visit/trace.go
index a610ad4..3a25c95 100644
--- a/internal/visit/trace.go
+++ b/internal/visit/trace.go
@@ -25,7 +25,8 @@ func (Trace) Visit(data *tracev1.TracesData, visitor *All) *tracev1.TracesData {
 				if !(visitor.AcceptName(ms.Name) &&
 					visitor.AcceptTimestamp(ms.StartTimeUnixNano) &&
 					visitor.AcceptTraceID(ms.TraceId) &&
-					visitor.AcceptParentSpanID(ms.SpanId) &&
+					visitor.AcceptSpanID(ms.SpanId) &&
+					visitor.AcceptParentSpanID(ms.ParentSpanId) &&
 					visitor.AcceptAttributes(ms.Attributes)) {
 					continue
 				}
-- 
2.43.0


From 358255c4f08c1777487b8c6b40cd4a234155f656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 05/35] fix: apply trace and span id filters to log records

---
 internal/visit/logs.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/visit/logs.go b/internal/visit/logs.go
index 861ccbd..e001ed1 100644
--- a/internal/visit/logs.go
+++ b/internal/visit/logs.go
@@ -24,6 +24,8 @@ func (Logs) Visit(data *logsv1.LogsData, visitor *All) *logsv1.LogsData {
 			for _, ms := range sm.LogRecords {
 				if !(visitor.AcceptLogLevel(ms.SeverityText) &&
 					visitor.AcceptTimestamp(ms.TimeUnixNano) &&
+					visitor.AcceptTraceID(ms.TraceId) &&
+					visitor.AcceptSpanID(ms.SpanId) &&
 					visitor.AcceptAttributes(ms.Attributes)) {
 					continue
 				}
-- 
2.43.0


From f6e0610e0f557c8f4ff23c38aee67afab6a56bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 06/35] fix: keep the schema url of filtered scopes

---
 internal/visit/logs.go    |  3 ++-
 internal/visit/metrics.go | 15 ++++++++++-----
 internal/visit/trace.go   |  3 ++-
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/internal/visit/logs.go b/internal/visit/logs.go
index e001ed1..71017d4 100644
--- a/internal/visit/logs.go
+++ b/internal/visit/logs.go
@@ -31,7 +31,8 @@ func (Logs) Visit(data *logsv1.LogsData, visitor *All) *logsv1.LogsData {
 				}
 				if scope == nil {
 					scope = &logsv1.ScopeLogs{
-						Scope: sm.Scope,
+						Scope:     sm.Scope,
+						SchemaUrl: sm.SchemaUrl,
 					}
 				}
 				scope.LogRecords = append(scope.LogRecords, ms)
diff --git a/internal/visit/metrics.go b/internal/visit/metrics.go
index 886ebff..31724de 100644
--- a/internal/visit/metrics.go
+++ b/internal/visit/metrics.go
@@ -38,7 +38,8 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
@@ -62,7 +63,8 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
@@ -89,7 +91,8 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
@@ -115,7 +118,8 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
@@ -141,7 +145,8 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
diff --git a/internal/visit/trace.go b/internal/visit/trace.go
index 3a25c95..5c0aa20 100644
--- a/internal/visit/trace.go
+++ b/internal/visit/trace.go
@@ -32,7 +32,8 @@ func (Trace) Visit(data *tracev1.TracesData, visitor *All) *tracev1.TracesData {
 				}
 				if scope == nil {
 					scope = &tracev1.ScopeSpans{
-						Scope: sm.Scope,
+						Scope:     sm.Scope,
+						SchemaUrl: sm.SchemaUrl,
 					}
 				}
 				scope.Spans = append(scope.Spans, ms)
-- 
2.43.0


From 6eb6cf3f5a2a41858ef15b3f4af74449f025ec24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 07/35] fix: keep the description and unit of filtered metrics

---
 internal/visit/metrics.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/internal/visit/metrics.go b/internal/visit/metrics.go
index 31724de..2702418 100644
--- a/internal/visit/metrics.go
+++ b/internal/visit/metrics.go
@@ -43,7 +43,9 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
 							Data: &metricsV1.Metric_Gauge{
 								Gauge: &metricsV1.Gauge{
 									DataPoints: points,
@@ -68,7 +70,9 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
 							Data: &metricsV1.Metric_Sum{
 								Sum: &metricsV1.Sum{
 									DataPoints:             points,
@@ -96,7 +100,9 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
 							Data: &metricsV1.Metric_Histogram{
 								Histogram: &metricsV1.Histogram{
 									DataPoints:             points,
@@ -123,7 +129,9 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
 							Data: &metricsV1.Metric_ExponentialHistogram{
 								ExponentialHistogram: &metricsV1.ExponentialHistogram{
 									DataPoints:             points,
@@ -150,7 +158,9 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
 							Data: &metricsV1.Metric_Summary{
 								Summary: &metricsV1.Summary{
 									DataPoints: points,
-- 
2.43.0


From 49281241727a61065b43d1d5d6b3a948ffcd061b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 08/35] fix: return the end of the visitor time range

---
 internal/visit/visit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 423d413..0913dfb 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -263,7 +263,7 @@ func (a *All) AcceptAttributes(attr []*commonV1.KeyValue) bool {
 }
 
 func (a *All) TimeRange() (start, end uint64) {
-	return a.start_nano, a.start_nano
+	return a.start_nano, a.end_nano
 }
 
 func (a *All) AcceptLogLevel(lvl string) bool {
-- 
2.43.0


From 7be577eba568e5b990245993ca041db986ab8995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:17 +0000
Subject: [PATCH 09/35] fix: label every sample with its own resource kind

---
 internal/transform/transform.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/transform/transform.go b/internal/transform/transform.go
index f84019f..3031238 100644
--- a/internal/transform/transform.go
+++ b/internal/transform/transform.go
@@ -46,7 +46,6 @@ func (c *Context) processSample(sample *v1.Sample) {
 	c.minTs = 0
 	c.maxTs = 0
 	c.positions = bitmaps.New()
-	c.init()
 	c.WithSample(sample.Id).
 		data(sample.Data)
 	sample.MinTs = c.minTs
@@ -66,17 +65,20 @@ func (c *Context) data(data *v1.Data) {
 		for _, s := range e.Metrics.ResourceMetrics {
 			c.transformMetrics(s)
 		}
+		c.init()
 
 	case *v1.Data_Traces:
 		c.WithResource(v1.RESOURCE_TRACES)
 		for _, s := range e.Traces.ResourceSpans {
 			c.transformTrace(s)
 		}
+		c.init()
 	case *v1.Data_Logs:
 		c.WithResource(v1.RESOURCE_LOGS)
 		for _, s := range e.Logs.ResourceLogs {
 			c.transformLogs(s)
 		}
+		c.init()
 	}
 }
 
-- 
2.43.0


From a050b163b7e03b26f35b0d1ce9c4c5f312b3a81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:49 +0000
Subject: [PATCH 10/35] fix: index span attributes

---
 internal/transform/trace.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/transform/trace.go b/internal/transform/trace.go
index 5805585..ec6c369 100644
--- a/internal/transform/trace.go
+++ b/internal/transform/trace.go
@@ -41,6 +41,7 @@ func (c *Context) transformTrace(rm *tracev1.ResourceSpans) {
 						WithKey(hex.EncodeToString(span.ParentSpanId))
 				})
 			}
+			c.attributes(v1.PREFIX_ATTRIBUTES, span.Attributes)
 			c.Range(span.StartTimeUnixNano, span.EndTimeUnixNano)
 		}
 	}
-- 
2.43.0


From 839519daadc1f2ed0e0b1437c8e110abbb3eae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 11/35] fix: index attributes with an empty string value

---
 internal/transform/transform.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/transform/transform.go b/internal/transform/transform.go
index 3031238..5ba3fe3 100644
--- a/internal/transform/transform.go
+++ b/internal/transform/transform.go
@@ -170,13 +170,12 @@ func (c *Context) init() {
 
 func (c *Context) attributes(prefix v1.PREFIX, kv []*commonv1.KeyValue) {
 	for _, v := range kv {
-		s := v.Value.GetStringValue()
-		if s != "" {
+		if s, ok := v.GetValue().GetValue().(*commonv1.AnyValue_StringValue); ok {
 			c.Label(func(lbl *labels.Label) {
 				lbl.
 					WithPrefix(prefix).
 					WithKey(v.Key).
-					WithValue(s)
+					WithValue(s.StringValue)
 			})
 		}
 	}
-- 
2.43.0


From b2292a122422360836ed6164c56be547d7249366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:56 +0000
Subject: [PATCH 12/35] fix: keep the earliest timestamp of a sample when a
 later one is unset

---
 internal/transform/transform.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/transform/transform.go b/internal/transform/transform.go
index 5ba3fe3..c9a51b2 100644
--- a/internal/transform/transform.go
+++ b/internal/transform/transform.go
@@ -182,10 +182,9 @@ func (c *Context) attributes(prefix v1.PREFIX, kv []*commonv1.KeyValue) {
 }
 
 func (c *Context) Timestamp(ts uint64) {
-	if c.minTs == 0 {
+	if c.minTs == 0 || (ts != 0 && ts < c.minTs) {
 		c.minTs = ts
 	}
-	c.minTs = min(c.minTs, ts)
 	c.maxTs = max(c.maxTs, ts)
 }
 
@@ -198,9 +197,8 @@ func (c *Context) Reset() {
 }
 
 func (c *Context) Range(start, end uint64) {
-	if c.minTs == 0 {
+	if c.minTs == 0 || (start != 0 && start < c.minTs) {
 		c.minTs = start
 	}
-	c.minTs = min(c.minTs, start)
 	c.maxTs = max(c.maxTs, end)
 }
-- 
2.43.0


From a43a87c13ef9d41f746ccbffa433d3335cf53e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 13/35] fix: escape = in label keys

Labels "a=b"="c" and "a"="b=c" were encoded alike. The encoding of
keys without '=' or '\' is unchanged.
---
 internal/labels/labels.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/labels/labels.go b/internal/labels/labels.go
index 70efebf..4c4b4d3 100644
--- a/internal/labels/labels.go
+++ b/internal/labels/labels.go
@@ -40,13 +40,26 @@ func (l *Label) WithValue(v string) *Label {
 }
 
 func (l *Label) Encode() []byte {
-	l.buf = fmt.Appendf(l.buf[:0], "%d:%d:%s", l.Resource, l.Prefix, l.Key)
+	l.buf = fmt.Appendf(l.buf[:0], "%d:%d:", l.Resource, l.Prefix)
+	l.buf = appendKey(l.buf, l.Key)
 	if l.Value != "" {
 		l.buf = fmt.Appendf(l.buf, "=%s", l.Value)
 	}
 	return l.buf
 }
 
+// appendKey escapes '=' in key, so that where the key ends and the value starts
+// is never ambiguous.
+func appendKey(b []byte, key string) []byte {
+	for i := 0; i < len(key); i++ {
+		if key[i] == '=' || key[i] == '\\' {
+			b = append(b, '\\')
+		}
+		b = append(b, key[i])
+	}
+	return b
+}
+
 func (l *Label) String() string {
 	return string(l.Encode())
 }
-- 
2.43.0


From 43aa72faa89930015ab4149c47b25425c1640111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:56 +0000
Subject: [PATCH 14/35] fix: tell attributes apart whose keys contain =

---
 internal/visit/visit.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 0913dfb..94383b9 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -2,6 +2,7 @@ package visit
 
 import (
 	"encoding/hex"
+	"strconv"
 	"sync"
 
 	"github.com/RoaringBitmap/roaring/roaring64"
@@ -163,6 +164,9 @@ var sep = []byte("=")
 func attr(k, v string) uint64 {
 	var h xxhash.Digest
 	h.Reset()
+	// the length of the key tells a=b:c from a:b=c
+	h.WriteString(strconv.Itoa(len(k)))
+	h.Write(sep)
 	h.WriteString(k)
 	h.Write(sep)
 	h.WriteString(v)
@@ -290,15 +294,10 @@ func matchAttr(a *roaring64.Bitmap, ls []*commonV1.KeyValue) bool {
 	}
 	b := bitmaps.New()
 	defer b.Release()
-	var h xxhash.Digest
 	for _, k := range ls {
 		switch e := k.GetValue().GetValue().(type) {
 		case *commonV1.AnyValue_StringValue:
-			h.Reset()
-			h.WriteString(k.Key)
-			h.Write(sep)
-			h.WriteString(e.StringValue)
-			b.Add(h.Sum64())
+			b.Add(attr(k.Key, e.StringValue))
 		}
 	}
 	// For labels, we use And to make sure we only take data points that have all
-- 
2.43.0


From 0d9f5e8dca7bf461ed0da25055f1a97d0c2c414b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:26 +0000
Subject: [PATCH 15/35] fix: keep items of different identities apart when
 merging

---
 internal/data/metrics.go |  6 ++---
 internal/data/sort.go    | 47 ++++++++++++++++++++++++++++++++--------
 2 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/internal/data/metrics.go b/internal/data/metrics.go
index 7ab6622..c3986bf 100644
--- a/internal/data/metrics.go
+++ b/internal/data/metrics.go
@@ -25,7 +25,7 @@ func CollapseMetrics(ds []*metricsV1.MetricsData) *metricsV1.MetricsData {
 					sh := xm.hashScope(rh, sm.SchemaUrl, sm.Scope)
 					xm.scope[sh] = sm
 					for _, m := range sm.Metrics {
-						mh := xm.hashMetrics(sh, m.Name)
+						mh := xm.hashMetrics(sh, m)
 						xm.metrics[mh] = m
 					}
 				}
@@ -38,13 +38,13 @@ func CollapseMetrics(ds []*metricsV1.MetricsData) *metricsV1.MetricsData {
 					xm.scope[sh] = sm
 					resource.ScopeMetrics = append(resource.ScopeMetrics, sm)
 					for _, m := range sm.Metrics {
-						mh := xm.hashMetrics(sh, m.Name)
+						mh := xm.hashMetrics(sh, m)
 						xm.metrics[mh] = m
 					}
 					continue
 				}
 				for _, m := range sm.Metrics {
-					mh := xm.hashMetrics(sh, m.Name)
+					mh := xm.hashMetrics(sh, m)
 					om, ok := xm.metrics[mh]
 					if !ok {
 						scope.Metrics = append(scope.Metrics, m)
diff --git a/internal/data/sort.go b/internal/data/sort.go
index c2f3401..f0d9bf0 100644
--- a/internal/data/sort.go
+++ b/internal/data/sort.go
@@ -7,6 +7,7 @@ import (
 
 	"github.com/cespare/xxhash/v2"
 	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
+	metricsV1 "go.opentelemetry.io/proto/otlp/metrics/v1"
 	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
 	"google.golang.org/protobuf/proto"
 )
@@ -42,22 +43,49 @@ func newSorter[T any, R any, S any]() *Sorter[T, R, S] {
 	}
 }
 
-func (r *Sorter[T, R, S]) hashMetrics(scope uint64, name string) uint64 {
+func (r *Sorter[T, R, S]) hashMetrics(scope uint64, m *metricsV1.Metric) uint64 {
 	r.h.Reset()
 	r.hashNum(scope)
-	r.h.WriteString(name)
+	r.hashString(m.Name)
+	r.hashString(m.Description)
+	r.hashString(m.Unit)
+	switch e := m.Data.(type) {
+	case *metricsV1.Metric_Gauge:
+		r.hashNum(1)
+	case *metricsV1.Metric_Sum:
+		r.hashNum(2)
+		r.hashNum(uint64(e.Sum.GetAggregationTemporality()))
+		if e.Sum.GetIsMonotonic() {
+			r.hashNum(1)
+		}
+	case *metricsV1.Metric_Histogram:
+		r.hashNum(3)
+		r.hashNum(uint64(e.Histogram.GetAggregationTemporality()))
+	case *metricsV1.Metric_ExponentialHistogram:
+		r.hashNum(4)
+		r.hashNum(uint64(e.ExponentialHistogram.GetAggregationTemporality()))
+	case *metricsV1.Metric_Summary:
+		r.hashNum(5)
+	}
 	return r.h.Sum64()
 }
 
 func (r *Sorter[T, R, S]) hashNum(v uint64) {
-	binary.BigEndian.PutUint64(r.buf[:8], v)
-	r.h.Write(r.buf[:8])
-	r.buf = r.buf[:0]
+	var b [8]byte
+	binary.BigEndian.PutUint64(b[:], v)
+	r.h.Write(b[:])
+}
+
+// hashString includes the length, so that consecutive strings are never
+// confused with each other.
+func (r *Sorter[T, R, S]) hashString(s string) {
+	r.hashNum(uint64(len(s)))
+	r.h.WriteString(s)
 }
 
 func (r *Sorter[T, R, S]) hashResource(schema string, resource *resourcev1.Resource) uint64 {
 	r.h.Reset()
-	r.h.WriteString(schema)
+	r.hashString(schema)
 	if resource != nil {
 		r.attr(resource.Attributes)
 	}
@@ -67,10 +95,10 @@ func (r *Sorter[T, R, S]) hashResource(schema string, resource *resourcev1.Resou
 func (r *Sorter[T, R, S]) hashScope(resource uint64, schema string, scope *commonv1.InstrumentationScope) uint64 {
 	r.h.Reset()
 	r.hashNum(resource)
-	r.h.WriteString(schema)
+	r.hashString(schema)
 	if scope != nil {
-		r.h.WriteString(scope.Name)
-		r.h.WriteString(scope.Version)
+		r.hashString(scope.Name)
+		r.hashString(scope.Version)
 		if scope.Attributes != nil {
 			r.attr(scope.Attributes)
 		}
@@ -114,6 +142,7 @@ func (r *Sorter[T, R, S]) Swap(i, j int) {
 func (r *Sorter[T, R, S]) attr(kv []*commonv1.KeyValue) {
 	for _, v := range kv {
 		r.buf, _ = proto.MarshalOptions{}.MarshalAppend(r.buf[:0], v)
+		r.hashNum(uint64(len(r.buf)))
 		r.h.Write(r.buf)
 	}
 }
-- 
2.43.0


From 972a9480f3f926e3004936549e26a00c7e32fd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:46 +0000
Subject: [PATCH 16/35] fix: keep reporting the end of a decompressed stream

---
 internal/compress/grpc.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/internal/compress/grpc.go b/internal/compress/grpc.go
index d2398f8..ebe33f5 100644
--- a/internal/compress/grpc.go
+++ b/internal/compress/grpc.go
@@ -45,22 +45,40 @@ func (w *writeCodec) Close() (err error) {
 
 type readCodec struct {
 	*zstd.Decoder
+	// how the stream ended, set when the decoder went back to the pool
+	err error
 }
 
 func (r *readCodec) Read(p []byte) (n int, err error) {
+	if r.Decoder == nil {
+		return 0, r.err
+	}
 	n, err = r.Decoder.Read(p)
 	if err != nil {
-		r.Reset(nil)
-		putDecoder(r.Decoder)
-		r.Decoder = nil
+		r.release(err)
 	}
 	return
 }
 
 func (r *readCodec) WriteTo(w io.Writer) (n int64, err error) {
+	if r.Decoder == nil {
+		if r.err == io.EOF {
+			return 0, nil
+		}
+		return 0, r.err
+	}
 	n, err = r.Decoder.WriteTo(w)
+	if err != nil {
+		r.release(err)
+	} else {
+		r.release(io.EOF)
+	}
+	return
+}
+
+func (r *readCodec) release(err error) {
+	r.err = err
 	r.Reset(nil)
 	putDecoder(r.Decoder)
 	r.Decoder = nil
-	return
 }
-- 
2.43.0


From 4576f903e594260ac78479872b9cd9c3ef780dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:07 +0000
Subject: [PATCH 17/35] fix: search every partition of a time window

---
 internal/dataframe/dataframe.go |  3 +--
 internal/shards/shards.go       |  8 +-------
 internal/view/view.go           | 28 +++++++++++++++++++++++++---
 3 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/internal/dataframe/dataframe.go b/internal/dataframe/dataframe.go
index e88c989..ce90182 100644
--- a/internal/dataframe/dataframe.go
+++ b/internal/dataframe/dataframe.go
@@ -12,7 +12,6 @@ import (
 	"github.com/apache/arrow/go/v17/arrow/memory"
 	"github.com/dgraph-io/badger/v4"
 	"github.com/gernest/arrow3"
-	"github.com/gernest/rbf/quantum"
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
 	"github.com/gernest/requiemdb/internal/arena"
 	"github.com/gernest/requiemdb/internal/batch"
@@ -79,7 +78,7 @@ func readRows(r arrow.Record, rows []int) []*v1.Data {
 }
 
 func (df *DataFrame) View(ctx context.Context, resource v1.Scan_SCOPE, start, end time.Time, columns []int, rows *bitmaps.Bitmap, f ViewFn) error {
-	all := quantum.ViewsByTimeRange(view.StdView, start, end, view.ChooseQuantum(end.Sub(start)))
+	all := view.Search(start, end)
 	var set string
 	switch resource {
 	case v1.Scan_METRICS:
diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index 9faac59..1fa00f3 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -12,7 +12,6 @@ import (
 
 	"github.com/gernest/rbf"
 	"github.com/gernest/rbf/cfg"
-	"github.com/gernest/rbf/quantum"
 	"github.com/gernest/requiemdb/internal/bitmaps"
 	"github.com/gernest/requiemdb/internal/rows"
 	"github.com/gernest/requiemdb/internal/view"
@@ -20,8 +19,6 @@ import (
 	"github.com/gernest/roaring/shardwidth"
 )
 
-const stdView = view.StdView
-
 type Shards struct {
 	config cfg.Config
 	mu     sync.RWMutex
@@ -104,10 +101,7 @@ func (s *Shards) Rows(start, end time.Time, columns *bitmaps.Bitmap) (*bitmaps.B
 		shard := col / shardwidth.ShardWidth
 		m[shard] = append(m[shard], col)
 	}
-	views := quantum.ViewsByTimeRange(stdView, start, end, view.ChooseQuantum(
-		end.Sub(start),
-	))
-	return s.rows(views, m)
+	return s.rows(view.Search(start, end), m)
 }
 
 func (s *Shards) rows(views []string, columns map[uint64][]uint64) (r *bitmaps.Bitmap, err error) {
diff --git a/internal/view/view.go b/internal/view/view.go
index 8deb4ab..1e9cfaf 100644
--- a/internal/view/view.go
+++ b/internal/view/view.go
@@ -47,9 +47,31 @@ func ChooseQuantum(duration time.Duration) quantum.TimeQuantum {
 	return QH
 }
 
-func Search(start, end time.Time) []string {
-	return quantum.ViewsByTimeRange(StdView, start, end,
-		ChooseQuantum(end.Sub(start)))
+// Search returns the views to search for samples in the time range start to end
+// inclusive. Partial units at both ends of the range are covered.
+func Search(start, end time.Time) (views []string) {
+	start, end = start.UTC(), end.UTC()
+	q := ChooseQuantum(end.Sub(start))
+	y, m, d := start.Date()
+	var step func(time.Time) time.Time
+	switch q {
+	case QY:
+		start = time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC)
+		step = func(t time.Time) time.Time { return t.AddDate(1, 0, 0) }
+	case QM:
+		start = time.Date(y, m, 1, 0, 0, 0, 0, time.UTC)
+		step = func(t time.Time) time.Time { return t.AddDate(0, 1, 0) }
+	case QD:
+		start = time.Date(y, m, d, 0, 0, 0, 0, time.UTC)
+		step = func(t time.Time) time.Time { return t.AddDate(0, 0, 1) }
+	default:
+		start = time.Date(y, m, d, start.Hour(), 0, 0, 0, time.UTC)
+		step = func(t time.Time) time.Time { return t.Add(hour) }
+	}
+	for t := start; !t.After(end); t = step(t) {
+		views = append(views, quantum.ViewByTimeUnit(StdView, t, q.Granularity()))
+	}
+	return
 }
 
 // Pos generates position in a bitmap
-- 
2.43.0


From 47710c05b5ccd54af5cecc65f37a60970d927ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 18/35] fix: give every key of a translator its own bytes

---
 internal/translate/translate.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/translate/translate.go b/internal/translate/translate.go
index ff9da7b..5a0f637 100644
--- a/internal/translate/translate.go
+++ b/internal/translate/translate.go
@@ -17,6 +17,8 @@ type Translate struct {
 }
 
 func New(db *badger.DB, prefix []byte) (*Translate, error) {
+	// Each key below needs its own backing array.
+	prefix = prefix[:len(prefix):len(prefix)]
 	seq, err := db.GetSequence(append(prefix, []byte("seq")...), 4<<10)
 	if err != nil {
 		return nil, err
@@ -121,7 +123,7 @@ var kb = &sync.Pool{New: func() any { return new(bytes.Buffer) }}
 // Find finds translated key. Returns 0 if no key was found
 func (b *Translate) Find(key []byte) (n uint64, err error) {
 	err = b.db.Update(func(txn *badger.Txn) error {
-		k := append(b.keys, key...)
+		k := append(b.keys[:len(b.keys):len(b.keys)], key...)
 		it, err := txn.Get(k)
 		if err != nil {
 			return err
-- 
2.43.0


From 2db89f652aff4e3b0ed7c12b52559b5ee972d127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:20 +0000
Subject: [PATCH 19/35] fix: store every sample in the row of its id

---
 internal/dataframe/dataframe.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/dataframe/dataframe.go b/internal/dataframe/dataframe.go
index ce90182..2e999ec 100644
--- a/internal/dataframe/dataframe.go
+++ b/internal/dataframe/dataframe.go
@@ -221,21 +221,21 @@ func (df *DataFrame) appendView(ctx context.Context, view string, samples []*v1.
 		}
 		// Sample ID == Row ID, for each view we need to store a contiguous rows
 		// starting from 0
-		var lastId uint64
+		var next uint64
 		if r != nil {
-			lastId = uint64(r.NumRows()) - 1
+			next = uint64(r.NumRows())
 			defer r.Release()
 		}
 		empty := &v1.Data{}
 		for _, s := range samples {
 			setSample(s)
-			for i := lastId + 1; i < s.Id; i++ {
+			for i := next; i < s.Id; i++ {
 				// we fill the blanks with empty data. All records in all views have the
 				// same number of columns
 				schema.Append(empty)
 			}
 			schema.Append(s.Data)
-			lastId = s.Id
+			next = s.Id + 1
 		}
 		if r != nil {
 			b := schema.NewRecord()
-- 
2.43.0


From f92e22f389ecebe663098ccde13befd5f87e4998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:23 +0000
Subject: [PATCH 20/35] fix: search for samples having all labels

---
 internal/shards/shards.go | 55 ++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index 1fa00f3..1d7652d 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -5,7 +5,6 @@ import (
 	"io"
 	"log/slog"
 	"path/filepath"
-	"slices"
 	"strconv"
 	"sync"
 	"time"
@@ -108,8 +107,6 @@ func (s *Shards) rows(views []string, columns map[uint64][]uint64) (r *bitmaps.B
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
-	var tx *rbf.Tx
-	var fs []roaring.BitmapFilter
 	for k, f := range columns {
 		db, ok := s.db[k]
 		if !ok {
@@ -119,44 +116,48 @@ func (s *Shards) rows(views []string, columns map[uint64][]uint64) (r *bitmaps.B
 			}
 			return
 		}
-		tx, err = db.Begin(false)
+		r, err = match(db, views, f, r)
 		if err != nil {
-			return
+			return nil, err
 		}
-		fs = slices.Grow(fs, len(f))[:0]
-		for i := range f {
-			fs = append(fs, roaring.NewBitmapColumnFilter(f[i]))
+		if r.IsEmpty() {
+			// this shard resulted in no match. No need to keep searching
+			return
 		}
+	}
+	return
+}
+
+// match restricts r to the rows with all of columns set in any of the views. A
+// nil r stands for all rows.
+func match(db *rbf.DB, views []string, columns []uint64, r *bitmaps.Bitmap) (*bitmaps.Bitmap, error) {
+	tx, err := db.Begin(false)
+	if err != nil {
+		return nil, err
+	}
+	defer tx.Rollback()
+	// Column filters that are combined in a row filter only match when all the
+	// columns are in the same container.
+	for _, col := range columns {
 		b := bitmaps.New()
 		for _, view := range views {
 			err = tx.ApplyFilter(view, 0, roaring.NewBitmapRowFilter(func(u uint64) error {
 				b.Add(u)
 				return nil
-			}, fs...))
+			}, roaring.NewBitmapColumnFilter(col)))
 			if err != nil {
-				tx.Rollback()
-				return
+				b.Release()
+				return nil, err
 			}
 		}
-		tx.Rollback()
-		if !b.IsEmpty() {
-			if r == nil {
-				// first column set
-				r = bitmaps.New()
-				r.Or(&b.Bitmap)
-			} else {
-				some := !r.IsEmpty()
-				r.And(&b.Bitmap)
-				if r.IsEmpty() && some {
-					// this shard resulted in no match. No need to keep searching
-					b.Release()
-					return
-				}
-			}
+		if r == nil {
+			r = b
+			continue
 		}
+		r.And(&b.Bitmap)
 		b.Release()
 	}
-	return
+	return r, nil
 }
 
 func (s *Shards) Row(view string, rowID uint64) (*rows.Row, error) {
-- 
2.43.0


From 02c98c4d930966ba9f7c1cf906a922e1dd85ac14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:25 +0000
Subject: [PATCH 21/35] fix: open saved index shards before searching

---
 internal/shards/shards.go | 52 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 49 insertions(+), 3 deletions(-)

diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index 1d7652d..2698dd3 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"io"
 	"log/slog"
+	"os"
 	"path/filepath"
 	"strconv"
 	"sync"
@@ -22,6 +23,7 @@ type Shards struct {
 	config cfg.Config
 	mu     sync.RWMutex
 	db     map[uint64]*rbf.DB
+	loaded bool
 	dir    string
 }
 
@@ -71,6 +73,10 @@ func (s *Shards) Update(shard uint64, f func(tx *rbf.Tx) error) error {
 // transaction. If f returns io.EOF it signals end of iterations which will
 // return a nil error.
 func (s *Shards) AllShards(f func(tx *rbf.Tx, shard uint64) error) error {
+	err := s.load()
+	if err != nil {
+		return err
+	}
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 	for shard, db := range s.db {
@@ -104,6 +110,10 @@ func (s *Shards) Rows(start, end time.Time, columns *bitmaps.Bitmap) (*bitmaps.B
 }
 
 func (s *Shards) rows(views []string, columns map[uint64][]uint64) (r *bitmaps.Bitmap, err error) {
+	err = s.load()
+	if err != nil {
+		return nil, err
+	}
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
@@ -201,19 +211,55 @@ func (s *Shards) get(shard uint64) (*rbf.DB, error) {
 		return r, nil
 	}
 	s.mu.RUnlock()
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	return s.open(shard)
+}
+
+// load opens all shards saved on disk that are not yet opened.
+func (s *Shards) load() error {
+	s.mu.RLock()
+	loaded := s.loaded
+	s.mu.RUnlock()
+	if loaded {
+		return nil
+	}
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	entries, err := os.ReadDir(s.dir)
+	if err != nil && !errors.Is(err, os.ErrNotExist) {
+		return err
+	}
+	for _, e := range entries {
+		shard, err := strconv.ParseUint(e.Name(), 10, 64)
+		if err != nil {
+			continue
+		}
+		_, err = s.open(shard)
+		if err != nil {
+			return err
+		}
+	}
+	s.loaded = true
+	return nil
+}
+
+// open returns the shard database, must be called with mu held.
+func (s *Shards) open(shard uint64) (*rbf.DB, error) {
+	if r, ok := s.db[shard]; ok {
+		return r, nil
+	}
 	path := filepath.Join(s.dir, strconv.FormatUint(shard, 10))
 	config := s.config
 	config.Logger = slog.Default().With(
 		slog.Uint64("shard", shard),
 	)
-	r = rbf.NewDB(path, &config)
+	r := rbf.NewDB(path, &config)
 	err := r.Open()
 	if err != nil {
 		return nil, err
 	}
-	s.mu.Lock()
 	s.db[shard] = r
-	s.mu.Unlock()
 	return r, nil
 }
 
-- 
2.43.0


From 1449849e718da2d00fa2475510c9e19cdf0a2cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:57 +0000
Subject: [PATCH 22/35] fix: report failures to read samples

---
 internal/store/scan.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/store/scan.go b/internal/store/scan.go
index c13c14c..5658129 100644
--- a/internal/store/scan.go
+++ b/internal/store/scan.go
@@ -66,6 +66,9 @@ func (s *Storage) Scan(ctx context.Context, scan *v1.Scan) (result *v1.Data, err
 	default:
 		return nil, fmt.Errorf("%d is not a supported resource", resource)
 	}
+	if err != nil {
+		return nil, err
+	}
 	return data.Collapse(rs), nil
 }
 
-- 
2.43.0


From b1b7596efed6d84673e2a6d4c6eca9160ef89c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:59 +0000
Subject: [PATCH 23/35] fix: return failures to translate columns from a save

---
 internal/store/store.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/store/store.go b/internal/store/store.go
index 3ea5e44..8825547 100644
--- a/internal/store/store.go
+++ b/internal/store/store.go
@@ -1,6 +1,7 @@
 package store
 
 import (
+	"cmp"
 	"context"
 	"time"
 
@@ -9,7 +10,6 @@ import (
 	"github.com/dgraph-io/ristretto"
 	"github.com/gernest/rbf"
 	"github.com/gernest/requiemdb/internal/dataframe"
-	"github.com/gernest/requiemdb/internal/logger"
 	"github.com/gernest/requiemdb/internal/samples"
 	"github.com/gernest/requiemdb/internal/seq"
 	"github.com/gernest/requiemdb/internal/shards"
@@ -26,6 +26,8 @@ type Storage struct {
 	seq          *seq.Seq
 	now          func() time.Time
 	ctx          *transform.Context
+	// First failure to translate a column of the samples being saved.
+	translateErr error
 }
 
 const (
@@ -62,7 +64,8 @@ func (s *Storage) Translate(key []byte) uint64 {
 	}
 	v, err := s.translate.TranslateKey(key)
 	if err != nil {
-		logger.Fail("BUG: failed tp translate column", "err", err)
+		s.translateErr = cmp.Or(s.translateErr, err)
+		return 0
 	}
 	s.columnsCache.Set(h, v, 8)
 	return v
@@ -76,10 +79,14 @@ func (s *Storage) Close() error {
 func (s *Storage) Start(ctx context.Context) {}
 
 func (s *Storage) SaveSamples(ctx context.Context, list *samples.List) error {
+	s.translateErr = nil
 	f, err := s.ctx.ProcessSamples(list.Items...)
 	if err != nil {
 		return err
 	}
+	if s.translateErr != nil {
+		return s.translateErr
+	}
 	err = s.frame.Append(ctx, list.Items...)
 	if err != nil {
 		return err
-- 
2.43.0


From 0aa4ae23bebac5a59ac937285228be2ffc6c8af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:23 +0000
Subject: [PATCH 24/35] fix: return segments of the other row as such when
 merging

---
 internal/rows/row.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/rows/row.go b/internal/rows/row.go
index 906b73e..8e3b97d 100644
--- a/internal/rows/row.go
+++ b/internal/rows/row.go
@@ -833,7 +833,7 @@ func (itr *mergeSegmentIterator) next() (s0, s1 *RowSegment) {
 		return s0, nil
 	} else if s0.shard > s1.shard {
 		itr.a1 = itr.a1[1:]
-		return s1, nil
+		return nil, s1
 	}
 
 	// Return both if shards are equal.
-- 
2.43.0


From 6255b39577e2f39fef84bacd5ce70766efd8e367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:23 +0000
Subject: [PATCH 25/35] fix: do not panic reading integer values of a row as
 floats

---
 internal/rows/row.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/rows/row.go b/internal/rows/row.go
index 8e3b97d..464fe50 100644
--- a/internal/rows/row.go
+++ b/internal/rows/row.go
@@ -103,7 +103,7 @@ func (v Value) Int() uint64 {
 }
 
 func (v Value) Float64() float64 {
-	if v.int != nil {
+	if v.double != nil {
 		return *v.double
 	}
 	return 0
-- 
2.43.0


From 6a1056863e8179d549403842d145213d84de34ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:23 +0000
Subject: [PATCH 26/35] fix: do not share columns between rows

---
 internal/rows/bsi.go |  2 +-
 internal/rows/row.go | 23 +++++++++++++++++------
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/internal/rows/bsi.go b/internal/rows/bsi.go
index 7b46e28..9d52a07 100644
--- a/internal/rows/bsi.go
+++ b/internal/rows/bsi.go
@@ -165,7 +165,7 @@ func AddBSI(x, y BSIData) BSIData {
 			dst[i].Segments = append(dst[i].Segments, RowSegment{
 				shard:    next,
 				writable: true,
-				data:     b,
+				data:     b.Freeze(),
 				n:        b.Count(),
 			})
 		}
diff --git a/internal/rows/row.go b/internal/rows/row.go
index 464fe50..4676b6d 100644
--- a/internal/rows/row.go
+++ b/internal/rows/row.go
@@ -305,7 +305,7 @@ func (r *Row) Merge(other *Row) {
 	for s0, s1 := itr.next(); s0 != nil || s1 != nil; s0, s1 = itr.next() {
 		// Use the other row's data if segment is missing.
 		if s0 == nil {
-			segments = append(segments, *s1)
+			segments = append(segments, s1.share())
 			continue
 		} else if s1 == nil {
 			segments = append(segments, *s0)
@@ -370,10 +370,10 @@ func (r *Row) Xor(other *Row) *Row {
 	itr := newMergeSegmentIterator(r.Segments, other.Segments)
 	for s0, s1 := itr.next(); s0 != nil || s1 != nil; s0, s1 = itr.next() {
 		if s1 == nil {
-			segments = append(segments, *s0)
+			segments = append(segments, s0.share())
 			continue
 		} else if s0 == nil {
-			segments = append(segments, *s1)
+			segments = append(segments, s1.share())
 			continue
 		}
 
@@ -420,7 +420,7 @@ func (r *Row) Union(others ...*Row) *Row {
 		// Swap the segment lists (so we don't have to reallocate it)
 		segments, nextSegs = nextSegs, segments
 		if len(toProcess) == 1 {
-			output = append(output, *toProcess[0])
+			output = append(output, toProcess[0].share())
 		} else {
 			output = append(output, *toProcess[0].Union(toProcess[1:]...))
 		}
@@ -445,7 +445,7 @@ func (r *Row) Difference(others ...*Row) *Row {
 		if ok {
 			output = append(output, *segment.Difference(dest...))
 		} else {
-			output = append(output, segment)
+			output = append(output, segment.share())
 		}
 	}
 	return &Row{Segments: output}
@@ -474,7 +474,7 @@ func (r *Row) Shift(n int64) (*Row, error) {
 	if n < 0 {
 		return nil, errors.New("cannot shift by negative values")
 	} else if n == 0 {
-		return r, nil
+		return r.Clone(), nil
 	}
 
 	work := r
@@ -796,6 +796,17 @@ func (s *RowSegment) ensureWritable() {
 	s.writable = true
 }
 
+// share returns a segment with the columns of s that can be changed without
+// changing s.
+func (s *RowSegment) share() RowSegment {
+	return RowSegment{
+		shard:    s.shard,
+		data:     s.data.Freeze(),
+		writable: true,
+		n:        s.n,
+	}
+}
+
 // mergeSegmentIterator produces an iterator that loops through two sets of segments.
 type mergeSegmentIterator struct {
 	a0, a1 []RowSegment
-- 
2.43.0


From be32888f553c156629413f1486f5f0f9b8471f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:37 +0000
Subject: [PATCH 27/35] fix: export valid metrics of a batch with an invalid
 one, and do not share memory with the SDK

---
 internal/self/metrics.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/internal/self/metrics.go b/internal/self/metrics.go
index 40d62f6..0b36421 100644
--- a/internal/self/metrics.go
+++ b/internal/self/metrics.go
@@ -2,12 +2,14 @@ package self
 
 import (
 	"context"
+	"errors"
 
 	"github.com/gernest/requiemdb/internal/self/metrics/transform"
 	"go.opentelemetry.io/otel/sdk/metric"
 	"go.opentelemetry.io/otel/sdk/metric/metricdata"
 	collector_metrics "go.opentelemetry.io/proto/otlp/collector/metrics/v1"
 	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
+	"google.golang.org/protobuf/proto"
 )
 
 type Metrics struct {
@@ -18,17 +20,16 @@ type Metrics struct {
 var _ metric.Exporter = (*Metrics)(nil)
 
 func (m *Metrics) Export(ctx context.Context, rm *metricdata.ResourceMetrics) error {
-
+	// Invalid metrics are left out and reported, valid ones are still exported.
 	tlpRm, err := transform.ResourceMetrics(rm)
-	if err != nil {
-		return err
-	}
-	_, err = m.Collector.Export(ctx, &collector_metrics.ExportMetricsServiceRequest{
+	_, xerr := m.Collector.Export(ctx, &collector_metrics.ExportMetricsServiceRequest{
 		ResourceMetrics: []*metricsv1.ResourceMetrics{
-			tlpRm,
+			// rm may be reused after we return, while the collector keeps what
+			// it is given.
+			proto.Clone(tlpRm).(*metricsv1.ResourceMetrics),
 		},
 	})
-	return err
+	return errors.Join(err, xerr)
 }
 
 func (m *Metrics) Temporality(kind metric.InstrumentKind) metricdata.Temporality {
-- 
2.43.0


From a638e26ee6f33ca264204c7ec91f6d2c4ece74a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:37 +0000
Subject: [PATCH 28/35] fix: export the trace state of span links

---
 internal/self/trace/tracetransform/span.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/self/trace/tracetransform/span.go b/internal/self/trace/tracetransform/span.go
index ce69cfa..91ce823 100644
--- a/internal/self/trace/tracetransform/span.go
+++ b/internal/self/trace/tracetransform/span.go
@@ -149,6 +149,7 @@ func links(links []tracesdk.Link) []*tracepb.Span_Link {
 		sl = append(sl, &tracepb.Span_Link{
 			TraceId:                tid[:],
 			SpanId:                 sid[:],
+			TraceState:             otLink.SpanContext.TraceState().String(),
 			Attributes:             KeyValues(otLink.Attributes),
 			DroppedAttributesCount: uint32(otLink.DroppedAttributeCount),
 		})
-- 
2.43.0


From ff01c306a548145d34457c6afb74c87f956156a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:47 +0000
Subject: [PATCH 29/35] fix: keep spans of resources with different schemas
 apart

---
 internal/self/trace/tracetransform/span.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/self/trace/tracetransform/span.go b/internal/self/trace/tracetransform/span.go
index 91ce823..5517345 100644
--- a/internal/self/trace/tracetransform/span.go
+++ b/internal/self/trace/tracetransform/span.go
@@ -19,10 +19,15 @@ func Spans(sdl []tracesdk.ReadOnlySpan) []*tracepb.ResourceSpans {
 		return nil
 	}
 
-	rsm := make(map[attribute.Distinct]*tracepb.ResourceSpans)
+	// Resources are the same when both attributes and schema are.
+	type rkey struct {
+		r      attribute.Distinct
+		schema string
+	}
+	rsm := make(map[rkey]*tracepb.ResourceSpans)
 
 	type key struct {
-		r  attribute.Distinct
+		r  rkey
 		is instrumentation.Scope
 	}
 	ssm := make(map[key]*tracepb.ScopeSpans)
@@ -33,7 +38,7 @@ func Spans(sdl []tracesdk.ReadOnlySpan) []*tracepb.ResourceSpans {
 			continue
 		}
 
-		rKey := sd.Resource().Equivalent()
+		rKey := rkey{r: sd.Resource().Equivalent(), schema: sd.Resource().SchemaURL()}
 		k := key{
 			r:  rKey,
 			is: sd.InstrumentationScope(),
-- 
2.43.0


From d4967de3b73a75e08c7a3f3efd2d1ad63097baa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:16 +0000
Subject: [PATCH 30/35] fix: f2: sums are counters and a point without value
 has none

---
 internal/f2/metrics.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/f2/metrics.go b/internal/f2/metrics.go
index 652a7a2..9d9f430 100644
--- a/internal/f2/metrics.go
+++ b/internal/f2/metrics.go
@@ -113,6 +113,7 @@ func (m *Metrics) gauge(mx *v1.Metric, a *Attr, g *metricsv1.Gauge) {
 		mx.StartTimeUnixNano = dp.StartTimeUnixNano
 		mx.TimeUnixNano = dp.TimeUnixNano
 		mx.Exemplars = dp.Exemplars
+		mx.Gauge = nil
 		switch e := dp.Value.(type) {
 		case *metricsv1.NumberDataPoint_AsDouble:
 			mx.Gauge = &e.AsDouble
@@ -140,12 +141,13 @@ func (m *Metrics) sum(mx *v1.Metric, a *Attr, g *metricsv1.Sum) {
 		mx.StartTimeUnixNano = dp.StartTimeUnixNano
 		mx.TimeUnixNano = dp.TimeUnixNano
 		mx.Exemplars = dp.Exemplars
+		mx.Counter = nil
 		switch e := dp.Value.(type) {
 		case *metricsv1.NumberDataPoint_AsDouble:
-			mx.Gauge = &e.AsDouble
+			mx.Counter = &e.AsDouble
 		case *metricsv1.NumberDataPoint_AsInt:
 			f := float64(e.AsInt)
-			mx.Gauge = &f
+			mx.Counter = &f
 		}
 		mx.Attributes, columns, mx.Hash = a.Attr(name, dp.Attributes)
 		id := m.id.Next()
-- 
2.43.0


From b92b6079feba74a086cf5e212bc88c2da90581f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:16 +0000
Subject: [PATCH 31/35] fix: f2: do not append to the caller's prefix in place

---
 internal/f2/id.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/f2/id.go b/internal/f2/id.go
index 9bc01df..af64380 100644
--- a/internal/f2/id.go
+++ b/internal/f2/id.go
@@ -1,6 +1,8 @@
 package f2
 
 import (
+	"bytes"
+
 	"github.com/dgraph-io/badger/v4"
 	"github.com/gernest/requiemdb/internal/logger"
 )
@@ -10,7 +12,7 @@ type idGen struct {
 }
 
 func newID(db *badger.DB, prefix []byte) (*idGen, error) {
-	seq, err := db.GetSequence(append(prefix, []byte("id")...), 4<<10)
+	seq, err := db.GetSequence(append(bytes.Clone(prefix), []byte("id")...), 4<<10)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 80a3bbddacce6669b8852e885ded95facb35ab11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:16 +0000
Subject: [PATCH 32/35] fix: f2: keep labels of resource and scope, accept
 attributes without a value

---
 internal/f2/attr.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/f2/attr.go b/internal/f2/attr.go
index 02112f2..034915a 100644
--- a/internal/f2/attr.go
+++ b/internal/f2/attr.go
@@ -25,12 +25,14 @@ func newAttr() *Attr {
 func (a *Attr) Resource(r *resouncev1.Resource) {
 	a.resource = a.resource[:0]
 	a.resource = append(a.resource, r.GetAttributes()...)
+	a.rb.Clear()
 	a.do(&a.rb, a.resource)
 }
 
 func (a *Attr) Scope(scope *v1.InstrumentationScope) {
 	a.scope = a.scope[:0]
 	a.scope = append(a.scope, scope.GetAttributes()...)
+	a.sb.Clear()
 	a.do(&a.sb, a.scope)
 }
 
@@ -74,8 +76,8 @@ func (a *Attr) name(name []byte) {
 	a.ab.Add(a.tr.Tr(a.b.Bytes()))
 }
 
+// do adds labels of kv to b.
 func (a *Attr) do(b *roaring64.Bitmap, kv []*v1.KeyValue) {
-	b.Clear()
 	for _, v := range kv {
 		a.b.Reset()
 		a.b.WriteString(v.Key)
@@ -87,7 +89,7 @@ func (a *Attr) do(b *roaring64.Bitmap, kv []*v1.KeyValue) {
 }
 
 func toString(b *bytes.Buffer, a *v1.AnyValue) bool {
-	switch e := a.Value.(type) {
+	switch e := a.GetValue().(type) {
 	case *v1.AnyValue_StringValue:
 		b.WriteString(e.StringValue)
 		return true
-- 
2.43.0


From 194624ce4ec58fc575b4e2f862e72dc79947216c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:25 +0000
Subject: [PATCH 33/35] fix: write compiled scripts to the cache atomically

---
 internal/commands/query/query.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/internal/commands/query/query.go b/internal/commands/query/query.go
index 61b012b..6a124dd 100644
--- a/internal/commands/query/query.go
+++ b/internal/commands/query/query.go
@@ -86,7 +86,7 @@ func build(log *slog.Logger, data []byte) (*goja.Program, error) {
 			if err != nil {
 				return nil, err
 			}
-			err = os.WriteFile(key, cached, 0600)
+			err = save(key, cached)
 			if err != nil {
 				return nil, err
 			}
@@ -98,3 +98,24 @@ func build(log *slog.Logger, data []byte) (*goja.Program, error) {
 	}
 	return goja.Compile("scan.js", string(cached), true)
 }
+
+// save writes data to a temporary file first, an interrupted run never leaves a
+// partial script under key.
+func save(key string, data []byte) error {
+	f, err := os.CreateTemp(filepath.Dir(key), "compile-*")
+	if err != nil {
+		return err
+	}
+	_, err = f.Write(data)
+	if err == nil {
+		err = f.Sync()
+	}
+	err = errors.Join(err, f.Close())
+	if err == nil {
+		err = os.Rename(f.Name(), key)
+	}
+	if err != nil {
+		os.Remove(f.Name())
+	}
+	return err
+}
-- 
2.43.0


From 52c96ae7eeff0bef334b81dd6200b1ec4b266752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:26 +0000
Subject: [PATCH 34/35] fix: save accepted samples on shutdown

---
 internal/service/service.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/internal/service/service.go b/internal/service/service.go
index 80e548f..a5605e4 100644
--- a/internal/service/service.go
+++ b/internal/service/service.go
@@ -34,6 +34,7 @@ type Service struct {
 	store    *store.Storage
 	dataMu   sync.Mutex
 	data     *samples.List
+	saveMu   sync.Mutex
 	seq      *seq.Seq
 	stats    struct {
 		processed metric.Int64Counter
@@ -87,19 +88,27 @@ func (s *Service) start(ctx context.Context) {
 		case <-ctx.Done():
 			return
 		case <-tick.C:
-			s.dataMu.Lock()
-			ls := s.data
-			s.data = samples.Get()
-			s.dataMu.Unlock()
-			err := s.store.SaveSamples(ctx, ls)
-			if err != nil {
-				slog.Error("Failed to save samples", "err", err)
-			}
-			ls.Release()
+			s.flush(ctx)
 		}
 	}
 }
 
+// flush saves all samples accepted so far.
+func (s *Service) flush(ctx context.Context) {
+	s.saveMu.Lock()
+	defer s.saveMu.Unlock()
+
+	s.dataMu.Lock()
+	ls := s.data
+	s.data = samples.Get()
+	s.dataMu.Unlock()
+	err := s.store.SaveSamples(ctx, ls)
+	if err != nil {
+		slog.Error("Failed to save samples", "err", err)
+	}
+	ls.Release()
+}
+
 func (s *Service) Save(data *v1.Data) error {
 	s.dataMu.Lock()
 	defer s.dataMu.Unlock()
@@ -110,7 +119,10 @@ func (s *Service) Save(data *v1.Data) error {
 	return nil
 }
 
+// Close saves samples that were accepted since the last tick and releases
+// resources. It must be called before closing the database.
 func (s *Service) Close() {
+	s.flush(context.Background())
 	s.store.Close()
 	s.snippets.Close()
 }
-- 
2.43.0


From 1f14b60f967a4595cb5da92cecd5379aa329443a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:43 +0000
Subject: [PATCH 35/35] fix: let a filter with an invalid id match nothing

An id filter that is not valid hexadecimal was ignored, so that all items
matched it.
---
 internal/visit/visit.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 94383b9..0362887 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -196,9 +196,13 @@ func (a *All) SetName(name string) {
 	a.name.Add(xxhash.Sum64String(name))
 }
 
+// noID is set for filters with invalid ids, no data has them.
+var noID = xxhash.Sum64String("invalid id")
+
 func (a *All) SetTraceID(id string) error {
 	h, err := hex.DecodeString(id)
 	if err != nil {
+		a.trace_id.Add(noID)
 		return err
 	}
 	a.trace_id.Add(xxhash.Sum64(h))
@@ -208,6 +212,7 @@ func (a *All) SetTraceID(id string) error {
 func (a *All) SetSpanID(id string) error {
 	h, err := hex.DecodeString(id)
 	if err != nil {
+		a.span_id.Add(noID)
 		return err
 	}
 	a.span_id.Add(xxhash.Sum64(h))
@@ -217,6 +222,7 @@ func (a *All) SetSpanID(id string) error {
 func (a *All) SetParentSpanID(id string) error {
 	h, err := hex.DecodeString(id)
 	if err != nil {
+		a.parent_span_id.Add(noID)
 		return err
 	}
 	a.parent_span_id.Add(xxhash.Sum64(h))
-- 
2.43.0

