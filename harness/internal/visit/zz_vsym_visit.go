package visit

import (
	"bytes"
	"encoding/hex"
	"strings"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/vsym"
	commonV1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsV1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourceV1 "go.opentelemetry.io/proto/otlp/resource/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
)

// vFilter is a filter and its meaning.
type vFilter struct {
	f    *v1.Scan_Filter
	base v1.Scan_BaseProp
	attr v1.Scan_AttributeProp
	isA  bool
	k, v string
}

func vBase(p v1.Scan_BaseProp, v string) vFilter {
	return vFilter{base: p, v: v, f: &v1.Scan_Filter{Value: &v1.Scan_Filter_Base{Base: &v1.Scan_BaseFilter{Prop: p, Value: v}}}}
}

func vAttr(p v1.Scan_AttributeProp, k, v string) vFilter {
	return vFilter{isA: true, attr: p, k: k, v: v, f: &v1.Scan_Filter{Value: &v1.Scan_Filter_Attr{Attr: &v1.Scan_AttrFilter{Prop: p, Key: k, Value: v}}}}
}

// vHasAttr: the list carries string attribute k=v.
func vHasAttr(l []*commonV1.KeyValue, k, v string) bool {
	r := false
	for _, kv := range l {
		s, ok := kv.GetValue().GetValue().(*commonV1.AnyValue_StringValue)
		if !ok {
			continue
		}
		r = vsym.Or(r, vsym.And(kv.Key == k, s.StringValue == v))
	}
	return r
}

// vItem is what a filter is judged against.
type vItem struct {
	rschema, sschema, sname, sversion string
	rattr, sattr, attr                []*commonV1.KeyValue
	name, level                       string
	hasName, hasLevel                 bool
	trace, span, parent               []byte
	hasIDs, hasParent                 bool
	ts                                uint64
}

// vWant evaluates a conjunction of filters. Filters that do not concern the
// kind of item (a trace id for metrics, say) are ignored by the visitor: they
// are decided by the index.
func vWant(it vItem, fs []vFilter, start, end uint64) bool {
	r := vsym.And(it.ts >= start, it.ts < end)
	for i, f := range fs {
		var one bool
		if f.isA {
			switch f.attr {
			case v1.Scan_RESOURCE_ATTRIBUTES:
				one = vHasAttr(it.rattr, f.k, f.v)
			case v1.Scan_SCOPE_ATTRIBUTES:
				one = vHasAttr(it.sattr, f.k, f.v)
			case v1.Scan_ATTRIBUTES:
				one = vHasAttr(it.attr, f.k, f.v)
			}
			r = vsym.And(r, one)
			continue
		}
		switch f.base {
		case v1.Scan_RESOURCE_SCHEMA:
			one = it.rschema == f.v
		case v1.Scan_SCOPE_SCHEMA:
			one = it.sschema == f.v
		case v1.Scan_SCOPE_NAME:
			one = it.sname == f.v
		case v1.Scan_SCOPE_VERSION:
			one = it.sversion == f.v
		case v1.Scan_NAME:
			one = vsym.Or(!it.hasName, it.name == f.v)
		case v1.Scan_TRACE_ID:
			one = vsym.Or(!it.hasIDs, hex.EncodeToString(it.trace) == f.v)
		case v1.Scan_SPAN_ID:
			one = vsym.Or(!it.hasIDs, hex.EncodeToString(it.span) == f.v)
		case v1.Scan_PARENT_SPAN_ID:
			one = vsym.Or(!it.hasParent, hex.EncodeToString(it.parent) == f.v)
		case v1.Scan_LOGS_LEVEL:
			one = vsym.Or(!it.hasLevel, it.level == f.v)
		}
		_ = i
		r = vsym.And(r, one)
	}
	return r
}

// vAttrs is a list of 0..2 attributes of chosen value kinds.
func vAttrs(l string) []*commonV1.KeyValue {
	switch vsym.Choose(l+".shape", 4) {
	case 0:
		return nil
	case 1:
		return []*commonV1.KeyValue{vStr(vsym.Str(l+".k", 1), vsym.Str(l+".v", 1))}
	case 2:
		return []*commonV1.KeyValue{
			{Key: vsym.Str(l+".k", 1), Value: &commonV1.AnyValue{Value: &commonV1.AnyValue_IntValue{IntValue: 7}}},
			vStr(vsym.Str(l+".k", 1), vsym.Str(l+".v", 1)),
		}
	}
	return []*commonV1.KeyValue{
		{Key: vsym.Str(l+".k", 1)},
		vStr(vsym.Str(l+".k", 1), vsym.Str(l+".v", 1)),
	}
}

func vOne(l string) []*commonV1.KeyValue {
	return []*commonV1.KeyValue{vStr(vsym.Str(l+".k", 1), vsym.Str(l+".v", 1))}
}

func vStr(k, v string) *commonV1.KeyValue {
	return &commonV1.KeyValue{Key: k, Value: &commonV1.AnyValue{Value: &commonV1.AnyValue_StringValue{StringValue: v}}}
}

// vFilters chooses up to n filters among those a harness asks for.
func vFilters(n int, base []v1.Scan_BaseProp, attr []v1.Scan_AttributeProp) []vFilter {
	var fs []vFilter
	for len(fs) < n {
		k := vsym.Choose("filter", len(base)+len(attr)+1)
		if k == 0 {
			break
		}
		k--
		if k < len(base) {
			p := base[k]
			switch p {
			case v1.Scan_TRACE_ID, v1.Scan_SPAN_ID, v1.Scan_PARENT_SPAN_ID:
				fs = append(fs, vBase(p, hex.EncodeToString(vsym.Bytes("filter.id", 1))))
			default:
				fs = append(fs, vBase(p, vsym.Str("filter.value", 1)))
			}
			continue
		}
		fs = append(fs, vAttr(attr[k-len(base)], vsym.Str("filter.key", 1), vsym.Str("filter.avalue", 1)))
	}
	return fs
}

// Two base filters on the same property never both hold for one item, but the
// visitor treats them as alternatives; a scan with both selects nothing, so
// such pairs are left out.
func vDistinct(fs []vFilter) bool {
	for i := range fs {
		for j := 0; j < i; j++ {
			if !fs[i].isA && !fs[j].isA && fs[i].base == fs[j].base {
				return false
			}
		}
	}
	return true
}

func vCompile(fs []vFilter, start, end uint64) *All {
	a := New()
	var l []*v1.Scan_Filter
	for _, f := range fs {
		l = append(l, f.f)
	}
	a.Compile(l...)
	a.SetTimeRange(start, end)
	return a
}

func vSameResource(a, b *resourceV1.Resource) bool {
	return a != nil && a.DroppedAttributesCount == b.DroppedAttributesCount && vSameAttrs(a.Attributes, b.Attributes)
}

func vSameScope(a, b *commonV1.InstrumentationScope) bool {
	return a != nil && a.Name == b.Name && a.Version == b.Version && vSameAttrs(a.Attributes, b.Attributes)
}

func vSameAttrs(a, b []*commonV1.KeyValue) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Key != b[i].Key || a[i].Value.GetStringValue() != b[i].Value.GetStringValue() {
			return false
		}
	}
	return true
}

func vScope(l string) *commonV1.InstrumentationScope {
	return &commonV1.InstrumentationScope{Name: vsym.Str(l+".name", 1), Version: vsym.Str(l+".version", 1), Attributes: vOne(l + ".attr")}
}

var vAllBase = []v1.Scan_BaseProp{v1.Scan_RESOURCE_SCHEMA, v1.Scan_SCOPE_SCHEMA, v1.Scan_SCOPE_NAME, v1.Scan_SCOPE_VERSION,
	v1.Scan_NAME, v1.Scan_TRACE_ID, v1.Scan_SPAN_ID, v1.Scan_PARENT_SPAN_ID, v1.Scan_LOGS_LEVEL}
var vAllAttr = []v1.Scan_AttributeProp{v1.Scan_RESOURCE_ATTRIBUTES, v1.Scan_SCOPE_ATTRIBUTES, v1.Scan_ATTRIBUTES}

// vShape: how two items are spread: same container, two metrics (metrics
// only), two scopes, two resources.
const (
	vSameItem = iota
	vTwoScopes
	vTwoResources
	vTwoMetrics
)

// ---- metrics ----

type vPoint struct {
	it  vItem
	tag uint64
	m   *metricsV1.Metric
	rm  *metricsV1.ResourceMetrics
	sm  *metricsV1.ScopeMetrics
}

func vMetric(kind int, ts []uint64, attrs [][]*commonV1.KeyValue, tag uint64) *metricsV1.Metric {
	m := &metricsV1.Metric{Name: vsym.Str("metric.name", 1), Description: vsym.Str("metric.desc", 1), Unit: vsym.Str("metric.unit", 1)}
	tmp := metricsV1.AggregationTemporality(vsym.IntIn("metric.temporality", 0, 2))
	mono := vsym.Bool("metric.monotonic")
	num := func() []*metricsV1.NumberDataPoint {
		var l []*metricsV1.NumberDataPoint
		for i := range ts {
			p := &metricsV1.NumberDataPoint{TimeUnixNano: ts[i], StartTimeUnixNano: tag + uint64(i), Attributes: attrs[i]}
			l = append(l, p)
		}
		return l
	}
	switch kind {
	case 0:
		m.Data = &metricsV1.Metric_Gauge{Gauge: &metricsV1.Gauge{DataPoints: num()}}
	case 1:
		m.Data = &metricsV1.Metric_Sum{Sum: &metricsV1.Sum{DataPoints: num(), AggregationTemporality: tmp, IsMonotonic: mono}}
	case 2:
		var l []*metricsV1.HistogramDataPoint
		for i := range ts {
			p := &metricsV1.HistogramDataPoint{TimeUnixNano: ts[i], StartTimeUnixNano: tag + uint64(i), Attributes: attrs[i]}
			l = append(l, p)
		}
		m.Data = &metricsV1.Metric_Histogram{Histogram: &metricsV1.Histogram{DataPoints: l, AggregationTemporality: tmp}}
	case 3:
		var l []*metricsV1.ExponentialHistogramDataPoint
		for i := range ts {
			p := &metricsV1.ExponentialHistogramDataPoint{TimeUnixNano: ts[i], StartTimeUnixNano: tag + uint64(i), Attributes: attrs[i]}
			l = append(l, p)
		}
		m.Data = &metricsV1.Metric_ExponentialHistogram{ExponentialHistogram: &metricsV1.ExponentialHistogram{DataPoints: l, AggregationTemporality: tmp}}
	case 4:
		var l []*metricsV1.SummaryDataPoint
		for i := range ts {
			p := &metricsV1.SummaryDataPoint{TimeUnixNano: ts[i], StartTimeUnixNano: tag + uint64(i), Attributes: attrs[i]}
			l = append(l, p)
		}
		m.Data = &metricsV1.Metric_Summary{Summary: &metricsV1.Summary{DataPoints: l}}
	}
	return m
}

func vPoints(m *metricsV1.Metric) (l []uint64) {
	switch e := m.Data.(type) {
	case *metricsV1.Metric_Gauge:
		for _, p := range e.Gauge.DataPoints {
			l = append(l, p.StartTimeUnixNano)
		}
	case *metricsV1.Metric_Sum:
		for _, p := range e.Sum.DataPoints {
			l = append(l, p.StartTimeUnixNano)
		}
	case *metricsV1.Metric_Histogram:
		for _, p := range e.Histogram.DataPoints {
			l = append(l, p.StartTimeUnixNano)
		}
	case *metricsV1.Metric_ExponentialHistogram:
		for _, p := range e.ExponentialHistogram.DataPoints {
			l = append(l, p.StartTimeUnixNano)
		}
	case *metricsV1.Metric_Summary:
		for _, p := range e.Summary.DataPoints {
			l = append(l, p.StartTimeUnixNano)
		}
	}
	return
}

func vTemp(m *metricsV1.Metric) (t metricsV1.AggregationTemporality, mono bool, kind int) {
	switch e := m.Data.(type) {
	case *metricsV1.Metric_Gauge:
		return 0, false, 0
	case *metricsV1.Metric_Sum:
		return e.Sum.AggregationTemporality, e.Sum.IsMonotonic, 1
	case *metricsV1.Metric_Histogram:
		return e.Histogram.AggregationTemporality, false, 2
	case *metricsV1.Metric_ExponentialHistogram:
		return e.ExponentialHistogram.AggregationTemporality, false, 3
	case *metricsV1.Metric_Summary:
		return 0, false, 4
	}
	return 0, false, -1
}

func vSameMetric(a, b *metricsV1.Metric) bool {
	t1, m1, k1 := vTemp(a)
	t2, m2, k2 := vTemp(b)
	return vsym.And(vsym.And(a.Name == b.Name, vsym.And(a.Description == b.Description, a.Unit == b.Unit)),
		vsym.And(k1 == k2, vsym.And(t1 == t2, m1 == m2)))
}

// VsymMetrics decides metric filtering.
//
//vsym:harness C10 time=150 ttime=700
//vsym:bound two data points spread over one metric, two metrics, two scopes or two resources; all five metric types; up to 2 (quick) or 3 (thorough) filters of any property; one-byte symbolic strings, 64-bit symbolic timestamps and window
//vsym:assume xxhash is collision-free on the strings compared; at most one filter per non-attribute property
func VsymMetrics() {
	kind := vsym.Choose("type", 5)
	shape := vsym.Choose("shape", 4)
	fs := vFilters(vsym.Bound(2, 3), vAllBase, vAllAttr)
	vsym.Assume(vDistinct(fs))
	start, end := vsym.U64("start"), vsym.U64("end")
	ts := []uint64{vsym.U64("ts"), vsym.U64("ts")}
	attrs := [][]*commonV1.KeyValue{vOne("attr"), vOne("attr")}
	md := &metricsV1.MetricsData{}
	var pts []vPoint
	newR := func() *metricsV1.ResourceMetrics {
		r := &metricsV1.ResourceMetrics{SchemaUrl: vsym.Str("rschema", 1), Resource: &resourceV1.Resource{Attributes: vOne("rattr"), DroppedAttributesCount: uint32(1 + len(md.ResourceMetrics))}}
		md.ResourceMetrics = append(md.ResourceMetrics, r)
		return r
	}
	newS := func(r *metricsV1.ResourceMetrics) *metricsV1.ScopeMetrics {
		s := &metricsV1.ScopeMetrics{SchemaUrl: vsym.Str("sschema", 1), Scope: vScope("scope")}
		r.ScopeMetrics = append(r.ScopeMetrics, s)
		return s
	}
	add := func(r *metricsV1.ResourceMetrics, s *metricsV1.ScopeMetrics, from, to int) {
		m := vMetric(kind, ts[from:to], attrs[from:to], uint64(1+from))
		s.Metrics = append(s.Metrics, m)
		for i := 0; i < to-from; i++ {
			pts = append(pts, vPoint{tag: uint64(1 + from + i), m: m, rm: r, sm: s, it: vItem{
				rschema: r.SchemaUrl, rattr: r.Resource.Attributes,
				sschema: s.SchemaUrl, sname: s.Scope.Name, sversion: s.Scope.Version, sattr: s.Scope.Attributes,
				attr: attrs[from+i], name: m.Name, hasName: true, ts: ts[from+i]}})
		}
	}
	r := newR()
	s := newS(r)
	switch shape {
	case vSameItem:
		add(r, s, 0, 2)
	case vTwoMetrics:
		add(r, s, 0, 1)
		add(r, s, 1, 2)
	case vTwoScopes:
		add(r, s, 0, 1)
		add(r, newS(r), 1, 2)
	case vTwoResources:
		add(r, s, 0, 1)
		r2 := newR()
		add(r2, newS(r2), 1, 2)
	}
	nres, nmet := len(md.ResourceMetrics), len(s.Metrics)
	a := vCompile(fs, start, end)
	data := &v1.Data{Data: &v1.Data_Metrics{Metrics: md}}
	out := a.Visit(data).GetMetrics()
	a.Release()
	// what was kept, in order
	var got []vPoint
	for _, rm := range out.GetResourceMetrics() {
		vsym.Assert(len(rm.ScopeMetrics) > 0, "metrics: empty resource left behind")
		for _, sm := range rm.ScopeMetrics {
			vsym.Assert(len(sm.Metrics) > 0, "metrics: empty scope left behind")
			for _, m := range sm.Metrics {
				l := vPoints(m)
				vsym.Assert(len(l) > 0, "metrics: empty metric left behind")
				for _, p := range l {
					got = append(got, vPoint{tag: p, m: m, rm: rm, sm: sm})
				}
			}
		}
	}
	k := 0
	for _, p := range pts {
		kept := k < len(got) && got[k].tag == p.tag
		vsym.Assert(vsym.Iff(kept, vWant(p.it, fs, start, end)), "metrics: a data point is kept exactly when it satisfies the query")
		if !kept {
			continue
		}
		vsym.Reach("kept")
		g := got[k]
		k++
		vsym.Assert(vSameResource(g.rm.Resource, p.rm.Resource) && g.rm.SchemaUrl == p.rm.SchemaUrl, "metrics: kept point under its own resource and schema")
		vsym.Assert(vSameScope(g.sm.Scope, p.sm.Scope), "metrics: kept point under its own scope")
		vsym.Assert(g.sm.SchemaUrl == p.sm.SchemaUrl, "metrics: scope schema url preserved")
		vsym.Assert(vSameMetric(g.m, p.m), "metrics: metric name, description, unit, type, temporality and monotonicity preserved")
	}
	vsym.Assert(k == len(got), "metrics: nothing else is kept, in order")
	vsym.Assert(len(md.ResourceMetrics) == nres && len(s.Metrics) == nmet, "metrics: the input is not modified")
	i := 0
	for _, rm := range md.ResourceMetrics {
		for _, sm := range rm.ScopeMetrics {
			for _, m := range sm.Metrics {
				for _, p := range vPoints(m) {
					vsym.Assert(i < len(pts) && pts[i].tag == p, "metrics: the input is not modified")
					i++
				}
			}
		}
	}
	vsym.Assert(i == len(pts), "metrics: the input is not modified")
	vsym.Observe("kept", k)
}

// ---- logs ----

// VsymLogs decides log filtering.
//
//vsym:harness C11 time=150 ttime=700
//vsym:bound two log records in one scope, two scopes or two resources; up to 2 (quick) or 3 (thorough) filters of any property; one-byte symbolic strings and ids, 64-bit symbolic timestamps and window
//vsym:assume xxhash is collision-free on the strings compared; at most one filter per non-attribute property; id filters are valid lower-case hexadecimal (others in VsymLogsAbsent and VsymTracesAbsent)
func VsymLogs() {
	shape := vsym.Choose("shape", 3)
	fs := vFilters(vsym.Bound(2, 3), vAllBase, vAllAttr)
	vsym.Assume(vDistinct(fs))
	start, end := vsym.U64("start"), vsym.U64("end")
	ld := &logsv1.LogsData{}
	type rec struct {
		it  vItem
		tag uint32
		rm  *logsv1.ResourceLogs
		sm  *logsv1.ScopeLogs
	}
	var recs []rec
	newR := func() *logsv1.ResourceLogs {
		r := &logsv1.ResourceLogs{SchemaUrl: vsym.Str("rschema", 1), Resource: &resourceV1.Resource{Attributes: vOne("rattr"), DroppedAttributesCount: uint32(1 + len(ld.ResourceLogs))}}
		ld.ResourceLogs = append(ld.ResourceLogs, r)
		return r
	}
	newS := func(r *logsv1.ResourceLogs) *logsv1.ScopeLogs {
		s := &logsv1.ScopeLogs{SchemaUrl: vsym.Str("sschema", 1), Scope: vScope("scope")}
		r.ScopeLogs = append(r.ScopeLogs, s)
		return s
	}
	add := func(r *logsv1.ResourceLogs, s *logsv1.ScopeLogs) {
		p := &logsv1.LogRecord{DroppedAttributesCount: uint32(1 + len(recs)), TimeUnixNano: vsym.U64("ts"), SeverityText: vsym.Str("level", 1), TraceId: vsym.Bytes("trace", 1), SpanId: vsym.Bytes("span", 1), Attributes: vOne("attr")}
		s.LogRecords = append(s.LogRecords, p)
		recs = append(recs, rec{tag: p.DroppedAttributesCount, rm: r, sm: s, it: vItem{
			rschema: r.SchemaUrl, rattr: r.Resource.Attributes,
			sschema: s.SchemaUrl, sname: s.Scope.Name, sversion: s.Scope.Version, sattr: s.Scope.Attributes,
			attr: p.Attributes, level: p.SeverityText, hasLevel: true, ts: p.TimeUnixNano, trace: p.TraceId, span: p.SpanId, hasIDs: true}})
	}
	r := newR()
	s := newS(r)
	add(r, s)
	switch shape {
	case vSameItem:
		add(r, s)
	case vTwoScopes:
		add(r, newS(r))
	case vTwoResources:
		r2 := newR()
		add(r2, newS(r2))
	}
	a := vCompile(fs, start, end)
	out := a.Visit(&v1.Data{Data: &v1.Data_Logs{Logs: ld}}).GetLogs()
	a.Release()
	var got []rec
	for _, rm := range out.GetResourceLogs() {
		vsym.Assert(len(rm.ScopeLogs) > 0, "logs: empty resource left behind")
		for _, sm := range rm.ScopeLogs {
			vsym.Assert(len(sm.LogRecords) > 0, "logs: empty scope left behind")
			for _, p := range sm.LogRecords {
				got = append(got, rec{tag: p.DroppedAttributesCount, rm: rm, sm: sm})
			}
		}
	}
	k := 0
	for _, p := range recs {
		kept := k < len(got) && got[k].tag == p.tag
		vsym.Assert(vsym.Iff(kept, vWant(p.it, fs, start, end)), "logs: a record is kept exactly when it satisfies the query")
		if !kept {
			continue
		}
		vsym.Reach("kept")
		g := got[k]
		k++
		vsym.Assert(vSameResource(g.rm.Resource, p.rm.Resource) && g.rm.SchemaUrl == p.rm.SchemaUrl, "logs: kept record under its own resource and schema")
		vsym.Assert(vSameScope(g.sm.Scope, p.sm.Scope), "logs: kept record under its own scope")
		vsym.Assert(g.sm.SchemaUrl == p.sm.SchemaUrl, "logs: scope schema url preserved")
	}
	vsym.Assert(k == len(got), "logs: nothing else is kept, in order")
	i := 0
	for _, rm := range ld.ResourceLogs {
		for _, sm := range rm.ScopeLogs {
			for _, p := range sm.LogRecords {
				vsym.Assert(i < len(recs) && recs[i].tag == p.DroppedAttributesCount, "logs: the input is not modified")
				i++
			}
		}
	}
	vsym.Assert(i == len(recs), "logs: the input is not modified")
	vsym.Observe("kept", k)
}

// ---- traces ----

// VsymTraces decides span filtering.
//
//vsym:harness C12 time=150 ttime=700
//vsym:bound two spans in one scope, two scopes or two resources; up to 2 (quick) or 3 (thorough) filters of any property; one-byte symbolic strings and ids, 64-bit symbolic timestamps and window
//vsym:assume xxhash is collision-free on the strings compared; at most one filter per non-attribute property; id filters are valid lower-case hexadecimal (others in VsymLogsAbsent and VsymTracesAbsent)
func VsymTraces() {
	shape := vsym.Choose("shape", 3)
	fs := vFilters(vsym.Bound(2, 3), vAllBase, vAllAttr)
	vsym.Assume(vDistinct(fs))
	start, end := vsym.U64("start"), vsym.U64("end")
	td := &tracev1.TracesData{}
	type rec struct {
		it  vItem
		tag uint32
		rm  *tracev1.ResourceSpans
		sm  *tracev1.ScopeSpans
	}
	var recs []rec
	newR := func() *tracev1.ResourceSpans {
		r := &tracev1.ResourceSpans{SchemaUrl: vsym.Str("rschema", 1), Resource: &resourceV1.Resource{Attributes: vOne("rattr"), DroppedAttributesCount: uint32(1 + len(td.ResourceSpans))}}
		td.ResourceSpans = append(td.ResourceSpans, r)
		return r
	}
	newS := func(r *tracev1.ResourceSpans) *tracev1.ScopeSpans {
		s := &tracev1.ScopeSpans{SchemaUrl: vsym.Str("sschema", 1), Scope: vScope("scope")}
		r.ScopeSpans = append(r.ScopeSpans, s)
		return s
	}
	add := func(r *tracev1.ResourceSpans, s *tracev1.ScopeSpans) {
		p := &tracev1.Span{DroppedAttributesCount: uint32(1 + len(recs)), StartTimeUnixNano: vsym.U64("ts"), EndTimeUnixNano: vsym.U64("tsEnd"), Name: vsym.Str("name", 1), TraceId: vsym.Bytes("trace", 1),
			SpanId: vsym.Bytes("span", 1), ParentSpanId: vsym.Bytes("parent", 1), Attributes: vOne("attr")}
		s.Spans = append(s.Spans, p)
		recs = append(recs, rec{tag: p.DroppedAttributesCount, rm: r, sm: s, it: vItem{
			rschema: r.SchemaUrl, rattr: r.Resource.Attributes,
			sschema: s.SchemaUrl, sname: s.Scope.Name, sversion: s.Scope.Version, sattr: s.Scope.Attributes,
			attr: p.Attributes, name: p.Name, hasName: true, ts: p.StartTimeUnixNano, trace: p.TraceId, span: p.SpanId, hasIDs: true, parent: p.ParentSpanId, hasParent: true}})
	}
	r := newR()
	s := newS(r)
	add(r, s)
	switch shape {
	case vSameItem:
		add(r, s)
	case vTwoScopes:
		add(r, newS(r))
	case vTwoResources:
		r2 := newR()
		add(r2, newS(r2))
	}
	a := vCompile(fs, start, end)
	out := a.Visit(&v1.Data{Data: &v1.Data_Traces{Traces: td}}).GetTraces()
	a.Release()
	var got []rec
	for _, rm := range out.GetResourceSpans() {
		vsym.Assert(len(rm.ScopeSpans) > 0, "traces: empty resource left behind")
		for _, sm := range rm.ScopeSpans {
			vsym.Assert(len(sm.Spans) > 0, "traces: empty scope left behind")
			for _, p := range sm.Spans {
				got = append(got, rec{tag: p.DroppedAttributesCount, rm: rm, sm: sm})
			}
		}
	}
	k := 0
	for _, p := range recs {
		kept := k < len(got) && got[k].tag == p.tag
		vsym.Assert(vsym.Iff(kept, vWant(p.it, fs, start, end)), "traces: a span is kept exactly when it satisfies the query")
		if !kept {
			continue
		}
		vsym.Reach("kept")
		g := got[k]
		k++
		vsym.Assert(vSameResource(g.rm.Resource, p.rm.Resource) && g.rm.SchemaUrl == p.rm.SchemaUrl, "traces: kept span under its own resource and schema")
		vsym.Assert(vSameScope(g.sm.Scope, p.sm.Scope), "traces: kept span under its own scope")
		vsym.Assert(g.sm.SchemaUrl == p.sm.SchemaUrl, "traces: scope schema url preserved")
	}
	vsym.Assert(k == len(got), "traces: nothing else is kept, in order")
	i := 0
	for _, rm := range td.ResourceSpans {
		for _, sm := range rm.ScopeSpans {
			for _, p := range sm.Spans {
				vsym.Assert(i < len(recs) && recs[i].tag == p.DroppedAttributesCount, "traces: the input is not modified")
				i++
			}
		}
	}
	vsym.Assert(i == len(recs), "traces: the input is not modified")
	vsym.Observe("kept", k)
}

// ---- attribute matching ----

func vLen(l string) int {
	return []int{0, 1, 2, 16, 31}[vsym.Choose(l, 5)]
}

// VsymAttrLengths decides a single attribute filter for keys and values of
// very different lengths, next to other attributes.
//
//vsym:harness C13 time=120 ttime=500
//vsym:bound one filter and one or two attributes; key and value lengths 0,1,2,16,31 each, those of filter and attribute both after nothing or 300 common bytes (those of the attribute also with one byte moved from value to key), every byte symbolic, '=' included; the other attribute a string, integer, valueless or wholly absent one before or after
//vsym:assume xxhash is collision-free on the strings compared
func VsymAttrLengths() {
	kl, vl := vLen("klen"), vLen("vlen")
	fk, fv := vsym.Str("fk", kl), vsym.Str("fv", vl)
	if vl > 0 && vsym.Choose("shift", 2) == 1 {
		// the same bytes overall, the key ending elsewhere
		kl, vl = kl+1, vl-1
	}
	k, v := vsym.Str("k", kl), vsym.Str("v", vl)
	// both may start with the same long text
	switch pad := strings.Repeat("long ", 60); vsym.Choose("long", 3) {
	case 1:
		fk, k = pad+fk, pad+k
	case 2:
		fv, v = pad+fv, pad+v
	}
	l := []*commonV1.KeyValue{vStr(k, v)}
	switch vsym.Choose("other", 5) {
	case 1:
		ok := vsym.Str("ok", 1)
		l = append(l, vStr(ok, vsym.Str("ov", 1)))
	case 2:
		l = append([]*commonV1.KeyValue{{Key: vsym.Str("ok", 1), Value: &commonV1.AnyValue{Value: &commonV1.AnyValue_IntValue{IntValue: 1}}}}, l...)
	case 3:
		l = append([]*commonV1.KeyValue{{Key: vsym.Str("ok", 1)}}, l...)
	case 4:
		l = append(l, &commonV1.KeyValue{Key: vsym.Str("ok", 1), Value: &commonV1.AnyValue{}})
	}
	a := New()
	which := vsym.Choose("where", 3)
	f := vAttr(vAllAttr[which], fk, fv)
	a.Compile(f.f)
	var got bool
	switch which {
	case 0:
		got = a.AcceptResourceAttributes(l)
	case 1:
		got = a.AcceptScopeAttributes(l)
	case 2:
		got = a.AcceptAttributes(l)
	}
	vsym.Assert(vsym.Iff(got, vHasAttr(l, fk, fv)), "attributes: a filter matches exactly the data carrying the attribute")
	vsym.Reach("done")
	vsym.Observe("got", got)
	a.Release()
}

// VsymAttrPairs decides several filters against several attributes, and
// that a compiled query leaves nothing behind for the next one.
//
//vsym:harness C13 time=120 ttime=500
//vsym:bound two or three attributes with one-byte keys and values against one or two filters; then an unfiltered query on a reused filter
//vsym:assume xxhash is collision-free on the strings compared
func VsymAttrPairs() {
	var l []*commonV1.KeyValue
	n := vsym.Bound(2, 3)
	for i := 0; i < n; i++ {
		k := vsym.Str("k", 1)
		l = append(l, vStr(k, vsym.Str("v", 1)))
	}
	a := New()
	want := true
	nf := 1 + vsym.Choose("filters", 2)
	which := vsym.Choose("where", 3)
	for i := 0; i < nf; i++ {
		k := vsym.Str("fk", 1)
		v := vsym.Str("fv", 1)
		a.Compile(vAttr(vAllAttr[which], k, v).f)
		want = vsym.And(want, vHasAttr(l, k, v))
	}
	ask := func(x *All, l []*commonV1.KeyValue) bool {
		switch which {
		case 0:
			return x.AcceptResourceAttributes(l)
		case 1:
			return x.AcceptScopeAttributes(l)
		}
		return x.AcceptAttributes(l)
	}
	got := ask(a, l)
	vsym.Assert(vsym.Iff(got, want), "attributes: every filter must be carried, and nothing more is needed")
	vsym.Observe("got", got)
	other := vAllAttr[(which+1)%3]
	_ = other
	a.Release()
	b := New()
	b.SetTimeRange(0, 10)
	vsym.Assert(ask(b, nil), "attributes: filters of an earlier query influence a later one")
	vsym.Assert(b.AcceptName("x") && b.AcceptTraceID([]byte{1}) && b.AcceptLogLevel("y") && b.AcceptSpanID(nil) && b.AcceptParentSpanID(nil) &&
		b.AcceptResourceSchema("z") && b.AcceptScopeSchema("z") && b.AcceptScopeName("z") && b.AcceptScopeVersion("z"), "attributes: filters of an earlier query influence a later one")
	vsym.Reach("done")
}

// VsymReuse decides that a released query leaves no trace of any property.
//
//vsym:harness C13 time=60
//vsym:bound every filter property set once with a one-byte value
func VsymReuse() {
	a := New()
	for _, p := range vAllBase {
		v := vsym.Str("v", 1)
		if p == v1.Scan_TRACE_ID || p == v1.Scan_SPAN_ID || p == v1.Scan_PARENT_SPAN_ID {
			v = hex.EncodeToString([]byte(v))
		}
		a.Compile(vBase(p, v).f)
	}
	for _, p := range vAllAttr {
		a.Compile(vAttr(p, "k", vsym.Str("v", 1)).f)
	}
	a.SetTimeRange(vsym.U64("s"), vsym.U64("e"))
	a.Release()
	b := New()
	ok := b.AcceptName("") && b.AcceptTraceID(nil) && b.AcceptLogLevel("") && b.AcceptSpanID(nil) && b.AcceptParentSpanID(nil) &&
		b.AcceptResourceSchema("") && b.AcceptScopeSchema("") && b.AcceptScopeName("") && b.AcceptScopeVersion("") &&
		b.AcceptAttributes(nil) && b.AcceptResourceAttributes(nil) && b.AcceptScopeAttributes(nil)
	vsym.Assert(ok, "filters of an earlier query influence a later one")
	vsym.Assert(!b.AcceptTimestamp(vsym.U64("t")), "the window of an earlier query influences a later one")
	vsym.Reach("done")
}

// ---- absent parts, and id filters that are no ids ----

// vIDText is a filter value of up to two bytes and the id it names, if any.
func vIDText() (text string, id byte, valid bool) {
	n := vsym.Choose("length", 3)
	text = vsym.Str("id", n)
	if n != 2 {
		return text, 0, false
	}
	digit := func(c byte) (byte, bool) {
		lower := vsym.And(c >= 'a', c <= 'f')
		upper := vsym.And(c >= 'A', c <= 'F')
		num := vsym.And(c >= '0', c <= '9')
		v := vsym.IteU64(num, uint64(c-'0'), vsym.IteU64(lower, uint64(c-'a'+10), uint64(c-'A'+10)))
		return byte(v), vsym.Or(num, vsym.Or(lower, upper))
	}
	h, ok1 := digit(text[0])
	l, ok2 := digit(text[1])
	return text, h<<4 | l, vsym.And(ok1, ok2)
}

// vPart is an optional one-byte part of an item, and a filter for it.
type vPart struct {
	prop v1.Scan_BaseProp
	has  bool
	text string // when it is a text
	id   []byte // when it is an id
	f    vFilter
	want bool
}

func vSomePart(props []v1.Scan_BaseProp) (p vPart) {
	p.prop = props[vsym.Choose("part", len(props))]
	p.has = vsym.Choose("present", 2) == 1
	// the item's part and the filter may start with the same bytes
	long := p.has && vsym.Choose("long", 2) == 1
	switch p.prop {
	case v1.Scan_TRACE_ID, v1.Scan_SPAN_ID, v1.Scan_PARENT_SPAN_ID:
		text, id, valid := vIDText()
		vsym.Assume(len(text) > 0)
		if p.has {
			p.id = vsym.Bytes("own", 1)
			p.want = vsym.And(valid, p.id[0] == id)
			if long {
				text = strings.Repeat("a7", 15) + text
				p.id = append(bytes.Repeat([]byte{0xa7}, 15), p.id...)
			}
		}
		p.f = vBase(p.prop, text)
		return
	}
	v := vsym.Str("value", vsym.Choose("empty", 2))
	if p.has {
		p.text = vsym.Str("own", 1)
		if long {
			v = strings.Repeat("long ", 60) + v
			p.text = strings.Repeat("long ", 60) + p.text
		}
	}
	p.want = p.text == v
	p.f = vBase(p.prop, v)
	return
}

func (p vPart) of(prop v1.Scan_BaseProp) string {
	if p.prop == prop {
		return p.text
	}
	return ""
}

func (p vPart) idOf(prop v1.Scan_BaseProp) []byte {
	if p.prop == prop {
		return p.id
	}
	return nil
}

// scope has no other parts than p.
func (p vPart) scope() *commonV1.InstrumentationScope {
	if vsym.Choose("no scope", 2) == 1 && (!p.has || p.prop != v1.Scan_SCOPE_NAME && p.prop != v1.Scan_SCOPE_VERSION) {
		return nil
	}
	return &commonV1.InstrumentationScope{Name: p.of(v1.Scan_SCOPE_NAME), Version: p.of(v1.Scan_SCOPE_VERSION)}
}

// VsymMetricsAbsent decides metric filtering when parts are absent.
//
//vsym:harness C10 time=60
//vsym:bound a point of any type with nothing but at most the part filtered; one filter of any non-attribute property with at most one byte (or after 300 bytes both have in common)
//vsym:assume xxhash is collision-free on the strings compared
func VsymMetricsAbsent() {
	p := vSomePart([]v1.Scan_BaseProp{v1.Scan_RESOURCE_SCHEMA, v1.Scan_SCOPE_SCHEMA, v1.Scan_SCOPE_NAME, v1.Scan_SCOPE_VERSION, v1.Scan_NAME})
	m := &metricsV1.Metric{Name: p.of(v1.Scan_NAME)}
	const ts = 5
	switch vsym.Choose("type", 5) {
	case 0:
		m.Data = &metricsV1.Metric_Gauge{Gauge: &metricsV1.Gauge{DataPoints: []*metricsV1.NumberDataPoint{{TimeUnixNano: ts}}}}
	case 1:
		m.Data = &metricsV1.Metric_Sum{Sum: &metricsV1.Sum{DataPoints: []*metricsV1.NumberDataPoint{{TimeUnixNano: ts}}}}
	case 2:
		m.Data = &metricsV1.Metric_Histogram{Histogram: &metricsV1.Histogram{DataPoints: []*metricsV1.HistogramDataPoint{{TimeUnixNano: ts}}}}
	case 3:
		m.Data = &metricsV1.Metric_ExponentialHistogram{ExponentialHistogram: &metricsV1.ExponentialHistogram{DataPoints: []*metricsV1.ExponentialHistogramDataPoint{{TimeUnixNano: ts}}}}
	case 4:
		m.Data = &metricsV1.Metric_Summary{Summary: &metricsV1.Summary{DataPoints: []*metricsV1.SummaryDataPoint{{TimeUnixNano: ts}}}}
	}
	a := vCompile([]vFilter{p.f}, 0, 10)
	out := a.Visit(&v1.Data{Data: &v1.Data_Metrics{Metrics: &metricsV1.MetricsData{ResourceMetrics: []*metricsV1.ResourceMetrics{{
		SchemaUrl: p.of(v1.Scan_RESOURCE_SCHEMA), ScopeMetrics: []*metricsV1.ScopeMetrics{{
			SchemaUrl: p.of(v1.Scan_SCOPE_SCHEMA), Scope: p.scope(), Metrics: []*metricsV1.Metric{m}}}}}}}}).GetMetrics()
	a.Release()
	kept := len(out.GetResourceMetrics()) > 0
	vsym.Observe("kept", kept)
	vsym.Assert(vsym.Iff(kept, p.want), "metrics: a point is kept exactly when it has the part asked for")
	vsym.Reach("done")
}

// VsymLogsAbsent decides log filtering when parts are absent, and by texts
// that may be no id.
//
//vsym:harness C11 time=60
//vsym:bound a record with nothing but at most the part filtered; one filter of any non-attribute property with at most one byte (or after 300 bytes both have in common), or up to 2 arbitrary digits for an id (or after 15 bytes)
//vsym:assume xxhash is collision-free on the strings compared
func VsymLogsAbsent() {
	p := vSomePart([]v1.Scan_BaseProp{v1.Scan_RESOURCE_SCHEMA, v1.Scan_SCOPE_SCHEMA, v1.Scan_SCOPE_NAME, v1.Scan_SCOPE_VERSION, v1.Scan_LOGS_LEVEL, v1.Scan_TRACE_ID, v1.Scan_SPAN_ID})
	r := &logsv1.LogRecord{TimeUnixNano: 5, TraceId: p.idOf(v1.Scan_TRACE_ID), SpanId: p.idOf(v1.Scan_SPAN_ID), SeverityText: p.of(v1.Scan_LOGS_LEVEL)}
	a := vCompile([]vFilter{p.f}, 0, 10)
	out := a.Visit(&v1.Data{Data: &v1.Data_Logs{Logs: &logsv1.LogsData{ResourceLogs: []*logsv1.ResourceLogs{{
		SchemaUrl: p.of(v1.Scan_RESOURCE_SCHEMA), ScopeLogs: []*logsv1.ScopeLogs{{
			SchemaUrl: p.of(v1.Scan_SCOPE_SCHEMA), Scope: p.scope(), LogRecords: []*logsv1.LogRecord{r}}}}}}}}).GetLogs()
	a.Release()
	kept := len(out.GetResourceLogs()) > 0
	vsym.Observe("kept", kept)
	vsym.Assert(vsym.Iff(kept, p.want), "logs: a record is kept exactly when it has the part asked for")
	vsym.Reach("done")
}

// VsymTracesAbsent decides span filtering when parts are absent, and by texts
// that may be no id.
//
//vsym:harness C12 time=60
//vsym:bound a span with nothing but at most the part filtered; one filter of any non-attribute property with at most one byte (or after 300 bytes both have in common), or up to 2 arbitrary digits for an id (or after 15 bytes)
//vsym:assume xxhash is collision-free on the strings compared
func VsymTracesAbsent() {
	p := vSomePart([]v1.Scan_BaseProp{v1.Scan_RESOURCE_SCHEMA, v1.Scan_SCOPE_SCHEMA, v1.Scan_SCOPE_NAME, v1.Scan_SCOPE_VERSION, v1.Scan_NAME, v1.Scan_TRACE_ID, v1.Scan_SPAN_ID, v1.Scan_PARENT_SPAN_ID})
	s := &tracev1.Span{StartTimeUnixNano: 5, TraceId: p.idOf(v1.Scan_TRACE_ID), SpanId: p.idOf(v1.Scan_SPAN_ID), ParentSpanId: p.idOf(v1.Scan_PARENT_SPAN_ID), Name: p.of(v1.Scan_NAME)}
	a := vCompile([]vFilter{p.f}, 0, 10)
	out := a.Visit(&v1.Data{Data: &v1.Data_Traces{Traces: &tracev1.TracesData{ResourceSpans: []*tracev1.ResourceSpans{{
		SchemaUrl: p.of(v1.Scan_RESOURCE_SCHEMA), ScopeSpans: []*tracev1.ScopeSpans{{
			SchemaUrl: p.of(v1.Scan_SCOPE_SCHEMA), Scope: p.scope(), Spans: []*tracev1.Span{s}}}}}}}}).GetTraces()
	a.Release()
	kept := len(out.GetResourceSpans()) > 0
	vsym.Observe("kept", kept)
	vsym.Assert(vsym.Iff(kept, p.want), "traces: a span is kept exactly when it has the part asked for")
	vsym.Reach("done")
}
