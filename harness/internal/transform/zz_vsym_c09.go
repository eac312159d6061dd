package transform

import (
	"encoding/hex"
	"strings"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/labels"
	"github.com/gernest/requiemdb/internal/vsym"
	commonV1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsV1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourceV1 "go.opentelemetry.io/proto/otlp/resource/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
)

// vT0 is a whole hour: 2024-04-03 14:00 UTC.
const vT0 = uint64(1712152800) * 1e9

const vWidth = 1 << 20

// vGen builds a payload and, next to it, the labels it must have.
type vGen struct {
	kind                v1.RESOURCE
	want                [][]byte // must be recorded
	may                 [][]byte // may be recorded: labels of empty values
	min                 uint64   // 0: no item has a timestamp
	max                 uint64
	empty               int    // the field to leave empty; -1: none
	pad                 string // what every string starts with
	n                   int    // fields so far
	fixed               bool
	nres, nscope, nitem int
}

func (g *vGen) label(p v1.PREFIX, k, v string) {
	b := append([]byte{}, labels.NewLabel().WithResource(g.kind).WithPrefix(p).WithKey(k).WithValue(v).Encode()...)
	if k == "" {
		g.may = append(g.may, b)
	} else {
		g.want = append(g.want, b)
	}
}

// vPlain is a string without '=' and backslash, which are encoded specially
// (decided by C28).
func vPlain(l string, n int) string {
	s := vsym.Str(l, n)
	for i := 0; i < n; i++ {
		vsym.Assume(vsym.And(s[i] != '=', s[i] != '\\'))
	}
	return s
}

// field is a one-byte string, or the empty one.
func (g *vGen) field(l string, p v1.PREFIX) string {
	var s string
	g.n++
	if g.n-1 != g.empty {
		if g.fixed {
			s = l
		} else {
			s = g.pad + vPlain(l, 1)
		}
	}
	g.label(p, s, "")
	return s
}

func (g *vGen) id(l string, p v1.PREFIX) []byte {
	g.n++
	if g.n-1 == g.empty {
		return nil
	}
	b := []byte{1}
	if !g.fixed {
		b = append([]byte(g.pad), vsym.Bytes(l, 1)...)
	}
	g.label(p, hex.EncodeToString(b), "")
	return b
}

// attrs is a list with string and other attributes.
func (g *vGen) attrs(l string, p v1.PREFIX) []*commonV1.KeyValue {
	g.n++
	if g.n-1 == g.empty {
		return nil
	}
	k, v := l, l
	if !g.fixed {
		k, v = g.pad+vPlain(l, 1), g.pad+vsym.Str(l, 1)
	}
	o := []*commonV1.KeyValue{
		{Key: "i", Value: &commonV1.AnyValue{Value: &commonV1.AnyValue_IntValue{IntValue: 7}}},
		{Key: "n"},
		{Key: k, Value: &commonV1.AnyValue{Value: &commonV1.AnyValue_StringValue{StringValue: v}}},
		{Key: "e", Value: &commonV1.AnyValue{Value: &commonV1.AnyValue_StringValue{}}},
	}
	g.label(p, k, v)
	g.label(p, "e", "")
	if !g.fixed {
		o = append(o, &commonV1.KeyValue{Key: vPlain(l, 2), Value: &commonV1.AnyValue{Value: &commonV1.AnyValue_StringValue{StringValue: "t"}}})
		g.label(p, o[4].Key, "t")
	}
	return o
}

func (g *vGen) time(l string) uint64 {
	g.n++
	if g.n-1 == g.empty {
		return 0
	}
	t := vT0
	if !g.fixed {
		t += vsym.U64In(l, 0, 1<<20)
	}
	g.see(t)
	return t
}

func (g *vGen) see(t uint64) {
	if g.min == 0 {
		g.min, g.max = t, t
		return
	}
	g.min = vsym.IteU64(t < g.min, t, g.min)
	g.max = vsym.IteU64(t > g.max, t, g.max)
}

func (g *vGen) resource() (*resourceV1.Resource, string) {
	s := g.field("rschema", v1.PREFIX_RESOURCE_SCHEMA)
	g.n++
	if g.n-1 == g.empty {
		return nil, s
	}
	return &resourceV1.Resource{Attributes: g.attrs("rattr", v1.PREFIX_RESOURCE_ATTRIBUTES)}, s
}

func (g *vGen) scope() (*commonV1.InstrumentationScope, string) {
	s := g.field("sschema", v1.PREFIX_SCOPE_SCHEMA)
	g.n++
	if g.n-1 == g.empty {
		return nil, s
	}
	return &commonV1.InstrumentationScope{
		Name:       g.field("sname", v1.PREFIX_SCOPE_NAME),
		Version:    g.field("sversion", v1.PREFIX_SCOPE_VERSION),
		Attributes: g.attrs("sattr", v1.PREFIX_SCOPE_ATTRIBUTES),
	}, s
}

func (g *vGen) metric(typ int) *metricsV1.Metric {
	m := &metricsV1.Metric{Name: g.field("name", v1.PREFIX_NAME)}
	var num []*metricsV1.NumberDataPoint
	var hist []*metricsV1.HistogramDataPoint
	var exp []*metricsV1.ExponentialHistogramDataPoint
	var sum []*metricsV1.SummaryDataPoint
	for i := 0; i < g.nitem; i++ {
		t, a := g.time("t"), g.attrs("attr", v1.PREFIX_ATTRIBUTES)
		num = append(num, &metricsV1.NumberDataPoint{TimeUnixNano: t, Attributes: a})
		hist = append(hist, &metricsV1.HistogramDataPoint{TimeUnixNano: t, Attributes: a})
		exp = append(exp, &metricsV1.ExponentialHistogramDataPoint{TimeUnixNano: t, Attributes: a})
		sum = append(sum, &metricsV1.SummaryDataPoint{TimeUnixNano: t, Attributes: a})
	}
	switch typ {
	case 0:
		m.Data = &metricsV1.Metric_Gauge{Gauge: &metricsV1.Gauge{DataPoints: num}}
	case 1:
		m.Data = &metricsV1.Metric_Sum{Sum: &metricsV1.Sum{DataPoints: num}}
	case 2:
		m.Data = &metricsV1.Metric_Histogram{Histogram: &metricsV1.Histogram{DataPoints: hist}}
	case 3:
		m.Data = &metricsV1.Metric_ExponentialHistogram{ExponentialHistogram: &metricsV1.ExponentialHistogram{DataPoints: exp}}
	default:
		m.Data = &metricsV1.Metric_Summary{Summary: &metricsV1.Summary{DataPoints: sum}}
	}
	return m
}

func (g *vGen) data(typ int) *v1.Data {
	g.label(v1.PREFIX_UNKNOWN, "", "")
	g.want, g.may = g.may, nil // the kind's own label has no key
	switch g.kind {
	case v1.RESOURCE_METRICS:
		d := &metricsV1.MetricsData{}
		for i := 0; i < g.nres; i++ {
			r, s := g.resource()
			rm := &metricsV1.ResourceMetrics{Resource: r, SchemaUrl: s}
			for j := 0; j < g.nscope; j++ {
				sc, s := g.scope()
				sm := &metricsV1.ScopeMetrics{Scope: sc, SchemaUrl: s}
				sm.Metrics = append(sm.Metrics, g.metric(typ))
				rm.ScopeMetrics = append(rm.ScopeMetrics, sm)
			}
			d.ResourceMetrics = append(d.ResourceMetrics, rm)
		}
		return &v1.Data{Data: &v1.Data_Metrics{Metrics: d}}
	case v1.RESOURCE_LOGS:
		d := &logsv1.LogsData{}
		for i := 0; i < g.nres; i++ {
			r, s := g.resource()
			rm := &logsv1.ResourceLogs{Resource: r, SchemaUrl: s}
			for j := 0; j < g.nscope; j++ {
				sc, s := g.scope()
				sm := &logsv1.ScopeLogs{Scope: sc, SchemaUrl: s}
				for k := 0; k < g.nitem; k++ {
					sm.LogRecords = append(sm.LogRecords, &logsv1.LogRecord{
						TimeUnixNano: g.time("t"),
						SeverityText: g.field("level", v1.PREFIX_LOGS_LEVEL),
						Attributes:   g.attrs("attr", v1.PREFIX_ATTRIBUTES),
						TraceId:      g.id("trace", v1.PREFIX_TRACE_ID),
						SpanId:       g.id("span", v1.PREFIX_SPAN_ID),
					})
				}
				rm.ScopeLogs = append(rm.ScopeLogs, sm)
			}
			d.ResourceLogs = append(d.ResourceLogs, rm)
		}
		return &v1.Data{Data: &v1.Data_Logs{Logs: d}}
	}
	d := &tracev1.TracesData{}
	for i := 0; i < g.nres; i++ {
		r, s := g.resource()
		rm := &tracev1.ResourceSpans{Resource: r, SchemaUrl: s}
		for j := 0; j < g.nscope; j++ {
			sc, s := g.scope()
			sm := &tracev1.ScopeSpans{Scope: sc, SchemaUrl: s}
			for k := 0; k < g.nitem; k++ {
				sp := &tracev1.Span{
					Name:         g.field("name", v1.PREFIX_NAME),
					Attributes:   g.attrs("attr", v1.PREFIX_ATTRIBUTES),
					TraceId:      g.id("trace", v1.PREFIX_TRACE_ID),
					SpanId:       g.id("span", v1.PREFIX_SPAN_ID),
					ParentSpanId: g.id("parent", v1.PREFIX_PARENT_SPAN_ID),
				}
				sp.StartTimeUnixNano = g.time("t")
				if sp.StartTimeUnixNano != 0 {
					sp.EndTimeUnixNano = sp.StartTimeUnixNano
					if !g.fixed {
						sp.EndTimeUnixNano += vsym.U64In("d", 0, 1<<20)
					}
					g.see(sp.EndTimeUnixNano)
				}
				sm.Spans = append(sm.Spans, sp)
			}
			rm.ScopeSpans = append(rm.ScopeSpans, sm)
		}
		d.ResourceSpans = append(d.ResourceSpans, rm)
	}
	return &v1.Data{Data: &v1.Data_Traces{Traces: d}}
}

var vKinds = []v1.RESOURCE{v1.RESOURCE_METRICS, v1.RESOURCE_TRACES, v1.RESOURCE_LOGS}

func vIn(b []byte, l [][]byte) bool {
	r := false
	for _, x := range l {
		r = vsym.Or(r, vsym.EqBytes(b, x))
	}
	return r
}

// vExtract runs the extraction of gs (sample ids 5, 6, ...) and compares.
func vExtract(gs []*vGen, typ int) {
	const first = 5
	var seen [][]byte
	c := NewContext(func(k []byte) uint64 {
		seen = append(seen, append([]byte{}, k...))
		return uint64(len(seen))
	})
	var ls []*v1.Sample
	for i, g := range gs {
		ls = append(ls, &v1.Sample{Id: uint64(first + i), Data: g.data(typ)})
	}
	frags, err := c.ProcessSamples(ls...)
	vsym.Assert(err == nil, "label extraction fails")
	got := make([][][]byte, len(gs))
	done := map[uint64]bool{}
	for _, views := range frags {
		for _, bm := range views {
			for _, pos := range bm.Slice() {
				if done[pos] {
					continue
				}
				done[pos] = true
				sample, label := pos/vWidth, pos%vWidth
				if sample < first || sample >= uint64(first+len(gs)) || label == 0 || label > uint64(len(seen)) {
					vsym.Assert(false, "a position belongs to no sample and label of the batch")
					continue
				}
				got[sample-first] = append(got[sample-first], seen[label-1])
			}
		}
	}
	for i, g := range gs {
		for _, w := range g.want {
			vsym.Assert(vIn(w, got[i]), "a label of a sample is missing")
		}
		for _, h := range got[i] {
			vsym.Assert(vsym.Or(vIn(h, g.want), vIn(h, g.may)), "a sample has a label that is not its own")
		}
		vsym.Assert(ls[i].MinTs == g.min, "the minimum timestamp of a sample is wrong")
		vsym.Assert(ls[i].MaxTs == g.max, "the maximum timestamp of a sample is wrong")
	}
	vsym.Observe("labels", seen)
	vsym.Observe("min", ls[len(ls)-1].MinTs)
	vsym.Reach("done")
}

func vFirst() *vGen {
	return &vGen{kind: vKinds[vsym.Choose("before", 3)], fixed: true, empty: -1, nres: 1, nscope: 1, nitem: 1}
}

// VsymLabelsShape varies how items are spread over resources and scopes.
//
//vsym:harness C09 time=150 ttime=700
//vsym:bound two samples of any kinds; the second with up to 2 (thorough 3) resources, scopes and items, five metric types, every string, id byte (or, with one of each, the last byte of strings and ids of 301 bytes) and timestamp symbolic (timestamps within 1 ms of an hour start)
//vsym:assume label keys contain no = or backslash (C28 covers those); label ids handed out by a recording callback; item ends are not before starts
func VsymLabelsShape() {
	first := vFirst()
	g := &vGen{kind: vKinds[vsym.Choose("kind", 3)], empty: -1, nres: 1, nscope: 1, nitem: 1}
	m := vsym.Bound(2, 3)
	switch vsym.Choose("shape", 6) {
	case 0:
	case 1:
		g.nres = m
	case 2:
		g.nscope = m
	case 3:
		g.nitem = m
	case 4:
		g.nres = 0
	case 5:
		g.pad = strings.Repeat("long ", 60)
	}
	typ := 0
	if g.kind == v1.RESOURCE_METRICS {
		typ = vsym.Choose("type", 5)
	}
	vExtract([]*vGen{first, g}, typ)
}

// VsymLabelsEmpty leaves one field (or the whole resource or scope) out.
//
//vsym:harness C09 time=150 ttime=700
//vsym:bound one sample of any kind with two items (thorough: two scopes with two items), any single field absent
//vsym:assume label keys contain no = or backslash (C28 covers those); label ids handed out by a recording callback
func VsymLabelsEmpty() {
	g := &vGen{kind: vKinds[vsym.Choose("kind", 3)], nres: 1, nscope: vsym.Bound(1, 2), nitem: 2}
	// one pass to count the fields
	c := &vGen{kind: g.kind, fixed: true, empty: -1, nres: g.nres, nscope: g.nscope, nitem: g.nitem}
	c.data(0)
	g.empty = vsym.Choose("empty", c.n)
	typ := 0
	if g.kind == v1.RESOURCE_METRICS {
		typ = vsym.Choose("type", 5)
	}
	vExtract([]*vGen{g}, typ)
}

// VsymLabelsReuse extracts twice with one context, as the service does.
//
//vsym:harness C09 time=60 ttime=200
//vsym:bound a context used for a batch of two samples after a batch of one
//vsym:assume label ids handed out by a recording callback
func VsymLabelsReuse() {
	var seen [][]byte
	c := NewContext(func(k []byte) uint64 {
		seen = append(seen, append([]byte{}, k...))
		return uint64(len(seen))
	})
	a := vFirst()
	_, err := c.ProcessSamples(&v1.Sample{Id: 9, Data: a.data(0)})
	vsym.Assert(err == nil, "label extraction fails")
	old := uint64(len(seen))
	g := &vGen{kind: vKinds[vsym.Choose("kind", 3)], empty: -1, nres: 1, nscope: 1, nitem: 1}
	s := &v1.Sample{Id: 10, Data: g.data(0)}
	frags, err := c.ProcessSamples(s)
	vsym.Assert(err == nil, "label extraction fails")
	n := 0
	for _, views := range frags {
		for _, bm := range views {
			for _, pos := range bm.Slice() {
				vsym.Assert(pos/vWidth == 10, "a later batch carries positions of an earlier one")
				if l := pos % vWidth; l > old {
					n++
					vsym.Assert(vsym.Or(vIn(seen[l-1], g.want), vIn(seen[l-1], g.may)), "a later batch carries labels of an earlier one")
				} else {
					vsym.Assert(false, "a later batch carries labels of an earlier one")
				}
			}
		}
	}
	vsym.Assert(n >= len(g.want), "a label of a sample is missing")
	vsym.Assert(s.MinTs == g.min, "the minimum timestamp of a sample is wrong")
	vsym.Assert(s.MaxTs == g.max, "the maximum timestamp of a sample is wrong")
	vsym.Reach("done")
}
