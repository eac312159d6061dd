package main

import (
	"context"
	"path/filepath"
	"time"

	"github.com/dgraph-io/badger/v4"
	collector_logs "go.opentelemetry.io/proto/otlp/collector/logs/v1"
	collector_metrics "go.opentelemetry.io/proto/otlp/collector/metrics/v1"
	collector_trace "go.opentelemetry.io/proto/otlp/collector/trace/v1"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/seq"
	"github.com/gernest/requiemdb/internal/service"
	"github.com/gernest/requiemdb/internal/shards"
	"github.com/gernest/requiemdb/internal/translate"
	"github.com/gernest/requiemdb/internal/vmodel"
	_ "github.com/gernest/requiemdb/internal/vmodel/varrow"
	_ "github.com/gernest/requiemdb/internal/vmodel/vsvc"
	"github.com/gernest/requiemdb/internal/vsym"
)

// vServer is the service wired as run does.
type vServer struct {
	dir string
	db  *badger.DB
	tr  *translate.Translate
	idx *shards.Shards
	seq *seq.Seq
	api *service.Service
}

func (v *vServer) open() {
	var err error
	v.db = vmodel.OpenDB(filepath.Join(v.dir, "db"))
	v.tr, err = translate.New(v.db, []byte("5"))
	vsym.Assert(err == nil, "opening fails")
	v.idx = shards.New(filepath.Join(v.dir, "index"), nil)
	v.seq, err = seq.New(v.db)
	vsym.Assert(err == nil, "opening fails")
	v.api, err = service.NewService(context.Background(), v.db, v.tr, v.seq, v.idx, func() time.Time { return vHour }, "", 0)
	vsym.Assert(err == nil, "opening fails")
}

func (v *vServer) close() {
	v.api.Close()
	vsym.Assert(v.seq.Release() == nil, "closing fails")
	vsym.Assert(v.idx.Close() == nil, "closing fails")
	vsym.Assert(v.tr.Close() == nil, "closing fails")
	v.db.Close()
}

var vHour = time.Date(2024, 2, 29, 23, 0, 0, 0, time.UTC)

type vExported struct {
	kind int
	ts   uint64
	name string
	res  proto.Message
}

func (e *vExported) attrs() []*commonv1.KeyValue {
	return []*commonv1.KeyValue{{Key: "a", Value: &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: e.name}}}}
}

func (e *vExported) export(s *service.Service) error {
	ctx := context.Background()
	var err error
	switch e.kind {
	case 0:
		r := &metricsv1.ResourceMetrics{ScopeMetrics: []*metricsv1.ScopeMetrics{{Scope: &commonv1.InstrumentationScope{}, Metrics: []*metricsv1.Metric{{
			Name: "m", Data: &metricsv1.Metric_Sum{Sum: &metricsv1.Sum{IsMonotonic: true, DataPoints: []*metricsv1.NumberDataPoint{{
				TimeUnixNano: e.ts, Attributes: e.attrs(), Value: &metricsv1.NumberDataPoint_AsInt{AsInt: 7}}}}}}}}}}
		e.res = proto.Clone(r)
		_, err = s.Metrics().Export(ctx, &collector_metrics.ExportMetricsServiceRequest{ResourceMetrics: []*metricsv1.ResourceMetrics{r}})
	case 1:
		r := &tracev1.ResourceSpans{ScopeSpans: []*tracev1.ScopeSpans{{Scope: &commonv1.InstrumentationScope{}, Spans: []*tracev1.Span{{
			Name: "s", TraceId: []byte{1}, SpanId: []byte{2}, ParentSpanId: []byte{3}, Status: &tracev1.Status{}, StartTimeUnixNano: e.ts, Attributes: e.attrs()}}}}}
		e.res = proto.Clone(r)
		_, err = s.Trace().Export(ctx, &collector_trace.ExportTraceServiceRequest{ResourceSpans: []*tracev1.ResourceSpans{r}})
	case 2:
		r := &logsv1.ResourceLogs{ScopeLogs: []*logsv1.ScopeLogs{{Scope: &commonv1.InstrumentationScope{}, LogRecords: []*logsv1.LogRecord{{
			TimeUnixNano: e.ts, Attributes: e.attrs(), TraceId: []byte{1}, SpanId: []byte{2},
			Body: &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: "b"}}}}}}}
		e.res = proto.Clone(r)
		_, err = s.Logs().Export(ctx, &collector_logs.ExportLogsServiceRequest{ResourceLogs: []*logsv1.ResourceLogs{r}})
	}
	return err
}

// vFound compares the item of a result, if any, with an export.
func vFound(d *v1.Data, e *vExported) bool {
	n := len(d.GetMetrics().GetResourceMetrics()) + len(d.GetTraces().GetResourceSpans()) + len(d.GetLogs().GetResourceLogs())
	if n == 0 {
		return false
	}
	vsym.Assert(n == 1, "a scan returns more than was exported")
	var got []proto.Message
	for _, r := range d.GetMetrics().GetResourceMetrics() {
		r.Resource = nil
		got = append(got, r)
	}
	for _, r := range d.GetTraces().GetResourceSpans() {
		r.Resource = nil
		got = append(got, r)
	}
	for _, r := range d.GetLogs().GetResourceLogs() {
		r.Resource = nil
		got = append(got, r)
	}
	vsym.Assert(proto.Equal(got[0], e.res), "a scan returns something else than was exported")
	return true
}

// VsymServe exports to the service and queries it after a restart.
//
//vsym:harness C01,C02,C19 time=60 ttime=200 samples=5
//vsym:bound two exports of any kinds at any nanosecond of the last hour of a leap day, each with an attribute with an arbitrary character; with or without a restart between them; a restart; two scans of any kind for an arbitrary character, over the hour
//vsym:assume characters are printable, without = and backslash (encoded specially, decided by C28)
func VsymServe() {
	v := &vServer{dir: vsym.TempDir()}
	v.open()
	char := func(l string) string {
		s := vsym.Str(l, 1)
		vsym.Assume(vsym.And(vsym.And(s[0] != '=', s[0] != '\\'), vsym.And(s[0] >= 32, s[0] < 127)))
		return s
	}
	var all [2]*vExported
	for i := range all {
		e := &vExported{ts: uint64(vHour.UnixNano()) + vsym.U64In("sec", 0, 3599)*1e9 + vsym.U64In("ns", 0, 999999999), name: char("attr")}
		if i == 0 {
			e.kind = vsym.Choose("kind", 3)
		} else {
			e.kind = (all[0].kind + 1 + vsym.Choose("other kind", 2)) % 3
		}
		all[i] = e
		vsym.Assert(e.export(v.api) == nil, "an export fails")
		if i == 1 || vsym.Choose("restart", 2) == 1 {
			v.close()
			v.open()
		}
	}
	scopes := []v1.Scan_SCOPE{v1.Scan_METRICS, v1.Scan_TRACES, v1.Scan_LOGS}
	for range 2 {
		e := all[vsym.Choose("scan", 2)]
		want := char("filter")
		d, err := v.api.ScanSamples(context.Background(), &v1.Scan{
			Scope: scopes[e.kind],
			Filters: []*v1.Scan_Filter{{Value: &v1.Scan_Filter_Attr{Attr: &v1.Scan_AttrFilter{
				Prop: v1.Scan_ATTRIBUTES, Key: "a", Value: want,
			}}}},
			TimeRange: &v1.Scan_TimeRange{Start: timestamppb.New(vHour), End: timestamppb.New(vHour.Add(time.Hour - 1))},
		})
		vsym.Assert(err == nil, "a scan fails")
		found := vFound(d, e)
		vsym.Observe("found", found)
		if e.name == want {
			vsym.Assert(found, "an acknowledged export is not found")
		} else {
			vsym.Assert(!found, "a scan returns an export not matching its filter")
		}
	}
	v.close()
	vsym.Reach("done")
}
