package store

import (
	"context"
	"encoding/hex"
	"time"

	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/types/known/timestamppb"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/samples"
	"github.com/gernest/requiemdb/internal/vsym"
)

// ---- samples with every property that can be asked for ----

var vBaseOf = [3][]v1.Scan_BaseProp{
	vMetrics: {v1.Scan_RESOURCE_SCHEMA, v1.Scan_SCOPE_SCHEMA, v1.Scan_SCOPE_NAME, v1.Scan_SCOPE_VERSION, v1.Scan_NAME},
	vTraces:  {v1.Scan_RESOURCE_SCHEMA, v1.Scan_SCOPE_SCHEMA, v1.Scan_SCOPE_NAME, v1.Scan_SCOPE_VERSION, v1.Scan_NAME, v1.Scan_TRACE_ID, v1.Scan_SPAN_ID, v1.Scan_PARENT_SPAN_ID},
	vLogs:    {v1.Scan_RESOURCE_SCHEMA, v1.Scan_SCOPE_SCHEMA, v1.Scan_SCOPE_NAME, v1.Scan_SCOPE_VERSION, v1.Scan_LOGS_LEVEL, v1.Scan_TRACE_ID, v1.Scan_SPAN_ID},
}

var vAttrOf = []v1.Scan_AttributeProp{v1.Scan_RESOURCE_ATTRIBUTES, v1.Scan_SCOPE_ATTRIBUTES, v1.Scan_ATTRIBUTES}

// vFull is a sample of one item whose part no. what is val; the other ones are
// absent (bare) or "d".
type vFull struct {
	kind int
	what int
	val  string
	bare bool
	typ  int // of a metric
}

func (s *vFull) part(what int) string {
	if what == s.what {
		return s.val
	}
	if s.bare {
		return ""
	}
	return "d"
}

func (s *vFull) base(p v1.Scan_BaseProp) string {
	for i, q := range vBaseOf[s.kind] {
		if p == q {
			return s.part(i)
		}
	}
	return ""
}

func (s *vFull) id(p v1.Scan_BaseProp) []byte {
	if v := s.base(p); v != "" {
		return []byte(v)
	}
	return nil
}

func (s *vFull) attrs(p v1.Scan_AttributeProp) []*commonv1.KeyValue {
	for i, q := range vAttrOf {
		if p == q {
			if v := s.part(len(vBaseOf[s.kind]) + i); v != "" {
				return vAttrs("k", v)
			}
		}
	}
	return nil
}

func (s *vFull) data(tag int64) *v1.Data {
	var res *resourcev1.Resource
	if a := s.attrs(v1.Scan_RESOURCE_ATTRIBUTES); a != nil {
		res = &resourcev1.Resource{Attributes: a}
	}
	sc := &commonv1.InstrumentationScope{Name: s.base(v1.Scan_SCOPE_NAME), Version: s.base(v1.Scan_SCOPE_VERSION), Attributes: s.attrs(v1.Scan_SCOPE_ATTRIBUTES)}
	if sc.Name == "" && sc.Version == "" && sc.Attributes == nil {
		sc = nil
	}
	ts := uint64(vT0.UnixNano()) + 5
	at := s.attrs(v1.Scan_ATTRIBUTES)
	rs, ss := s.base(v1.Scan_RESOURCE_SCHEMA), s.base(v1.Scan_SCOPE_SCHEMA)
	switch s.kind {
	case vMetrics:
		m := &metricsv1.Metric{Name: s.base(v1.Scan_NAME)}
		switch s.typ {
		case 0:
			m.Data = &metricsv1.Metric_Gauge{Gauge: &metricsv1.Gauge{DataPoints: []*metricsv1.NumberDataPoint{{TimeUnixNano: ts, Attributes: at, Flags: uint32(tag)}}}}
		case 1:
			m.Data = &metricsv1.Metric_Sum{Sum: &metricsv1.Sum{DataPoints: []*metricsv1.NumberDataPoint{{TimeUnixNano: ts, Attributes: at, Flags: uint32(tag)}}}}
		case 2:
			m.Data = &metricsv1.Metric_Histogram{Histogram: &metricsv1.Histogram{DataPoints: []*metricsv1.HistogramDataPoint{{TimeUnixNano: ts, Attributes: at, Flags: uint32(tag)}}}}
		case 3:
			m.Data = &metricsv1.Metric_ExponentialHistogram{ExponentialHistogram: &metricsv1.ExponentialHistogram{DataPoints: []*metricsv1.ExponentialHistogramDataPoint{{TimeUnixNano: ts, Attributes: at, Flags: uint32(tag)}}}}
		case 4:
			m.Data = &metricsv1.Metric_Summary{Summary: &metricsv1.Summary{DataPoints: []*metricsv1.SummaryDataPoint{{TimeUnixNano: ts, Attributes: at, Flags: uint32(tag)}}}}
		}
		return &v1.Data{Data: &v1.Data_Metrics{Metrics: &metricsv1.MetricsData{ResourceMetrics: []*metricsv1.ResourceMetrics{{
			Resource: res, SchemaUrl: rs, ScopeMetrics: []*metricsv1.ScopeMetrics{{Scope: sc, SchemaUrl: ss, Metrics: []*metricsv1.Metric{m}}},
		}}}}}
	case vTraces:
		x := &tracev1.Span{Name: s.base(v1.Scan_NAME), StartTimeUnixNano: ts, EndTimeUnixNano: ts, Attributes: at, Flags: uint32(tag),
			TraceId: s.id(v1.Scan_TRACE_ID), SpanId: s.id(v1.Scan_SPAN_ID), ParentSpanId: s.id(v1.Scan_PARENT_SPAN_ID)}
		return &v1.Data{Data: &v1.Data_Traces{Traces: &tracev1.TracesData{ResourceSpans: []*tracev1.ResourceSpans{{
			Resource: res, SchemaUrl: rs, ScopeSpans: []*tracev1.ScopeSpans{{Scope: sc, SchemaUrl: ss, Spans: []*tracev1.Span{x}}},
		}}}}}
	}
	x := &logsv1.LogRecord{SeverityText: s.base(v1.Scan_LOGS_LEVEL), TimeUnixNano: ts, Attributes: at, Flags: uint32(tag),
		TraceId: s.id(v1.Scan_TRACE_ID), SpanId: s.id(v1.Scan_SPAN_ID)}
	return &v1.Data{Data: &v1.Data_Logs{Logs: &logsv1.LogsData{ResourceLogs: []*logsv1.ResourceLogs{{
		Resource: res, SchemaUrl: rs, ScopeLogs: []*logsv1.ScopeLogs{{Scope: sc, SchemaUrl: ss, LogRecords: []*logsv1.LogRecord{x}}},
	}}}}}
}

// vTags lists the items of a result.
func vTags(d *v1.Data) (l []uint32) {
	for _, r := range d.GetMetrics().GetResourceMetrics() {
		for _, s := range r.ScopeMetrics {
			for _, m := range s.Metrics {
				for _, p := range m.GetGauge().GetDataPoints() {
					l = append(l, p.Flags)
				}
				for _, p := range m.GetSum().GetDataPoints() {
					l = append(l, p.Flags)
				}
				for _, p := range m.GetHistogram().GetDataPoints() {
					l = append(l, p.Flags)
				}
				for _, p := range m.GetExponentialHistogram().GetDataPoints() {
					l = append(l, p.Flags)
				}
				for _, p := range m.GetSummary().GetDataPoints() {
					l = append(l, p.Flags)
				}
			}
		}
	}
	for _, r := range d.GetTraces().GetResourceSpans() {
		for _, s := range r.ScopeSpans {
			for _, m := range s.Spans {
				l = append(l, m.Flags)
			}
		}
	}
	for _, r := range d.GetLogs().GetResourceLogs() {
		for _, s := range r.ScopeLogs {
			for _, m := range s.LogRecords {
				l = append(l, m.Flags)
			}
		}
	}
	return
}

// VsymFields asks for any property of samples that have all of them, or
// nothing else.
//
//vsym:harness C01,C02 time=120 ttime=300 samples=10
//vsym:bound two samples of one kind with one item (of a metric: any of the five types), one of its up to 11 properties an arbitrary character and the others absent or fixed; a ranged scan with one filter for an arbitrary character on any property
//vsym:assume characters are printable, without = and backslash (encoded specially, decided by C28)
func VsymFields() {
	v := vOpen(vsym.TempDir())
	kind := vsym.Choose("kind", 3)
	nb := len(vBaseOf[kind])
	n := nb + len(vAttrOf)
	what := vsym.Choose("what", n)
	all := []*vFull{{kind: kind, what: what, val: vPlain("first")}}
	all = append(all, &vFull{kind: kind, what: (what + vsym.Choose("second what", vsym.Bound(2, n))) % n, val: vPlain("second")})
	for _, s := range all {
		s.bare = vsym.Choose("bare", 2) == 1
	}
	if kind == vMetrics {
		all[0].typ = vsym.Choose("type", 5)
		all[1].typ = all[0].typ
	}
	list := samples.Get()
	for i, s := range all {
		list.Items = append(list.Items, &v1.Sample{Id: uint64(i), Data: s.data(int64(i + 1))})
	}
	vsym.Assert(v.s.SaveSamples(context.Background(), list) == nil, "saving fails")
	ask := vPlain("filter")
	f := &v1.Scan_Filter{}
	if what < nb {
		b := &v1.Scan_BaseFilter{Prop: vBaseOf[kind][what], Value: ask}
		switch b.Prop {
		case v1.Scan_TRACE_ID, v1.Scan_SPAN_ID, v1.Scan_PARENT_SPAN_ID:
			b.Value = hex.EncodeToString([]byte(ask))
		}
		f.Value = &v1.Scan_Filter_Base{Base: b}
	} else {
		f.Value = &v1.Scan_Filter_Attr{Attr: &v1.Scan_AttrFilter{Prop: vAttrOf[what-nb], Key: "k", Value: ask}}
	}
	scan := &v1.Scan{Scope: vScopes[kind], Filters: []*v1.Scan_Filter{f}}
	scan.TimeRange = &v1.Scan_TimeRange{Start: timestamppb.New(vT0), End: timestamppb.New(vT0.Add(time.Hour - 1))}
	d, err := v.s.Scan(context.Background(), scan)
	vsym.Assert(err == nil, "a scan fails")
	got := make([]bool, len(all))
	for _, t := range vTags(d) {
		i := int(t) - 1
		vsym.Assert(i >= 0 && i < len(all), "a scan returns something that was not saved")
		vsym.Assert(!got[i], "a scan returns a sample twice")
		got[i] = true
	}
	for i, s := range all {
		want := s.part(what) == ask
		vsym.Assert(vsym.Implies(want, got[i]), "a scan does not return a matching sample")
		vsym.Assert(vsym.Implies(got[i], want), "a scan returns a sample not matching its filters")
	}
	vsym.Observe("got", got)
	v.close()
	vsym.Reach("done")
}
