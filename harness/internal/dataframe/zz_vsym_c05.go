package dataframe

import (
	"context"
	"time"

	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/proto"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/bitmaps"
	"github.com/gernest/requiemdb/internal/vmodel"
	_ "github.com/gernest/requiemdb/internal/vmodel/varrow"
	"github.com/gernest/requiemdb/internal/vsym"
)

var vBase = []time.Time{
	time.Date(2024, 12, 31, 23, 0, 0, 0, time.UTC),
	time.Date(2025, 1, 1, 0, 0, 0, 0, time.UTC),
	time.Date(2024, 12, 31, 22, 0, 0, 0, time.UTC),
}

// vSample is a sample of the given kind with arbitrary content. Sub-messages
// are present.
//
// The version of the scope is a tag which tells samples apart.
func vSample(kind int, tag string) *v1.Sample {
	name := vsym.Str("name", 1)
	vsym.Assume(name[0] < 0x80)
	ts := vBase[vsym.Choose("hour", vsym.Bound(2, 3))].Add(time.Duration(vsym.U64In("sec", 0, 3599))*time.Second + time.Duration(vsym.U64In("ns", 0, 999999999)))
	n := uint64(ts.UnixNano())
	res := &resourcev1.Resource{}
	scope := &commonv1.InstrumentationScope{Name: name, Version: tag}
	s := &v1.Sample{MinTs: n, MaxTs: n, Data: &v1.Data{}}
	switch kind {
	case 0:
		s.Data.Data = &v1.Data_Metrics{Metrics: &metricsv1.MetricsData{ResourceMetrics: []*metricsv1.ResourceMetrics{{
			Resource: res,
			ScopeMetrics: []*metricsv1.ScopeMetrics{{Scope: scope, Metrics: []*metricsv1.Metric{{
				Name: "m", Data: &metricsv1.Metric_Gauge{Gauge: &metricsv1.Gauge{DataPoints: []*metricsv1.NumberDataPoint{{
					TimeUnixNano: n, Value: &metricsv1.NumberDataPoint_AsInt{AsInt: vsym.I64("value")},
				}}}},
			}}}},
		}}}}
	case 1:
		s.Data.Data = &v1.Data_Logs{Logs: &logsv1.LogsData{ResourceLogs: []*logsv1.ResourceLogs{{
			Resource: res,
			ScopeLogs: []*logsv1.ScopeLogs{{Scope: scope, LogRecords: []*logsv1.LogRecord{{
				TimeUnixNano: n, SeverityText: "I", Flags: vsym.U32("flags"), TraceId: []byte{1}, SpanId: []byte{2},
				Body: &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: "x"}},
			}}}},
		}}}}
	case 2:
		s.Data.Data = &v1.Data_Traces{Traces: &tracev1.TracesData{ResourceSpans: []*tracev1.ResourceSpans{{
			Resource: res,
			ScopeSpans: []*tracev1.ScopeSpans{{Scope: scope, Spans: []*tracev1.Span{{
				Name: "s", StartTimeUnixNano: n, EndTimeUnixNano: vsym.U64("end"), TraceId: []byte{1}, SpanId: []byte{2}, ParentSpanId: []byte{3},
				Status: &tracev1.Status{},
			}}}},
		}}}}
	}
	return s
}

func vRead(df *DataFrame, kind int, start, end time.Time, ids *bitmaps.Bitmap) []*v1.Data {
	var l []*v1.Data
	var err error
	switch kind {
	case 0:
		l, err = df.Metrics(context.Background(), start, end, ids)
	case 1:
		l, err = df.Logs(context.Background(), start, end, ids)
	default:
		l, err = df.Traces(context.Background(), start, end, ids)
	}
	vsym.Assert(err == nil, "reading fails")
	return l
}

var vLengths = []time.Duration{0, 26 * time.Hour, 45 * 24 * time.Hour, 400 * 24 * time.Hour}

type vStored struct {
	tag  string
	kind int
	id   uint64
	ts   time.Time
	data *v1.Data
}

func vTag(d *v1.Data) string {
	switch e := d.GetData().(type) {
	case *v1.Data_Metrics:
		return e.Metrics.GetResourceMetrics()[0].GetScopeMetrics()[0].GetScope().GetVersion()
	case *v1.Data_Logs:
		return e.Logs.GetResourceLogs()[0].GetScopeLogs()[0].GetScope().GetVersion()
	case *v1.Data_Traces:
		return e.Traces.GetResourceSpans()[0].GetScopeSpans()[0].GetScope().GetVersion()
	}
	return "?"
}

// vCheck reads every sample back, alone and together with all other ids.
func vCheck(df *DataFrame, all []vStored) {
	n := vLengths[vsym.Choose("window", len(vLengths))]
	for _, only := range []bool{true, false} {
		for w := range all {
			// other samples of the searched partitions are read, too
			ids := bitmaps.New()
			for i, s := range all {
				if !only || i == w {
					ids.Add(s.id)
				}
			}
			ids.Add(1000)
			for kind := 0; kind < 3; kind++ {
				l := vRead(df, kind, all[w].ts.Add(-n), all[w].ts.Add(n), ids)
				found := make([]bool, len(all))
				for _, d := range l {
					tag := vTag(d)
					i := 0
					for i < len(all) && all[i].tag != tag {
						i++
					}
					vsym.Assert(i < len(all), "something is read back that was not written")
					s := all[i]
					vsym.Assert(!found[i], "a sample is read back twice")
					vsym.Assert(s.kind == kind, "a sample of another kind is read back")
					vsym.Assert(!only || i == w, "a sample of another id is read back")
					vsym.Assert(proto.Equal(d, s.data), "a sample is read back changed")
					found[i] = true
				}
				vsym.Assert(found[w] || all[w].kind != kind, "a sample is not read back")
				vsym.Observe("read", len(l))
			}
		}
	}
}

// VsymAppendRead appends batches and reads back.
//
//vsym:harness C05 time=300 ttime=850
//vsym:bound 2 batches of up to 2 samples (thorough: 3 in the first) of the 3 kinds; a first id of 0 or 3 (thorough: also 1), gaps of 0 or 2 between ids; any nanosecond of 2 (thorough 3) hours on both sides of a year; one data item per sample with arbitrary name byte, value and time; windows of the hour, day, month and year partitions read after each batch, for one id or all
//vsym:assume sub-messages of a sample are present: the columnar library reads an absent one back as an empty one
func VsymAppendRead() {
	df := New(vmodel.OpenDB(""))
	var all []vStored
	id := []uint64{0, 3, 1}[vsym.Choose("first id", vsym.Bound(2, 3))]
	kind := vsym.Choose("kind", 3)
	add := func(max int) {
		var l []*v1.Sample
		for i, n := 0, 1+vsym.Choose("samples", max); i < n; i++ {
			if len(all) > 0 {
				id += 1 + 2*uint64(vsym.Choose("gap", 2))
			}
			if len(all) > 0 {
				kind = (kind + vsym.Choose("next kind", vsym.Bound(2, 3))) % 3
			}
			tag := string(rune('a' + len(all)))
			s := vSample(kind, tag)
			s.Id = id
			l = append(l, s)
			all = append(all, vStored{tag, kind, id, time.Unix(0, int64(s.MinTs)).UTC(), proto.Clone(s.Data).(*v1.Data)})
		}
		err := df.Append(context.Background(), l...)
		vsym.Assert(err == nil, "appending fails")
	}
	add(vsym.Bound(2, 3))
	if vsym.Choose("batches", 2) == 1 {
		add(vsym.Bound(1, 2))
	}
	vCheck(df, all)
	vsym.Reach("done")
}
