package data

import (
	"strings"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/vsym"
	commonV1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsV1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourceV1 "go.opentelemetry.io/proto/otlp/resource/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
)

type vRes struct {
	schema string
	attrs  []*commonV1.KeyValue
}

type vScope struct {
	schema, name, version string
	attrs                 []*commonV1.KeyValue
}

type vMetric struct {
	name, desc, unit string
	typ              int
	temp             int
	mono             bool
}

// vItem is a data item with its own identity.
type vItem struct {
	r   vRes
	s   vScope
	m   vMetric
	tag uint64
	val uint64
	id  string // what the item calls itself: span id, body or attribute
	ri  int    // position of its resource in a result
	mi  int    // position of its metric (scope) in a result
}

func vBytes(id string) []byte {
	if id == "" {
		return nil
	}
	return []byte(id)
}

func vIds(id string) []*commonV1.KeyValue {
	if id == "" {
		return nil
	}
	return []*commonV1.KeyValue{vKV("id", id)}
}

func vIdOf(l []*commonV1.KeyValue) string {
	if len(l) == 0 {
		return ""
	}
	return l[0].GetValue().GetStringValue()
}

func vKV(k, v string) *commonV1.KeyValue {
	return &commonV1.KeyValue{Key: k, Value: &commonV1.AnyValue{Value: &commonV1.AnyValue_StringValue{StringValue: v}}}
}

func vCopy(l []*commonV1.KeyValue) []*commonV1.KeyValue {
	var o []*commonV1.KeyValue
	for _, x := range l {
		if s, ok := x.GetValue().GetValue().(*commonV1.AnyValue_StringValue); ok {
			o = append(o, vKV(x.Key, s.StringValue))
		} else {
			o = append(o, &commonV1.KeyValue{Key: x.Key, Value: &commonV1.AnyValue{Value: &commonV1.AnyValue_IntValue{IntValue: x.GetValue().GetIntValue()}}})
		}
	}
	return o
}

func vSameAttrs(a, b []*commonV1.KeyValue) bool {
	if len(a) != len(b) {
		return false
	}
	in := func(x *commonV1.KeyValue, l []*commonV1.KeyValue) bool {
		r := false
		for _, y := range l {
			s, ok := x.GetValue().GetValue().(*commonV1.AnyValue_StringValue)
			t, ok2 := y.GetValue().GetValue().(*commonV1.AnyValue_StringValue)
			if ok != ok2 {
				continue
			}
			if ok {
				r = vsym.Or(r, vsym.And(x.Key == y.Key, s.StringValue == t.StringValue))
			} else {
				r = vsym.Or(r, vsym.And(x.Key == y.Key, x.GetValue().GetIntValue() == y.GetValue().GetIntValue()))
			}
		}
		return r
	}
	r := true
	for _, x := range a {
		r = vsym.And(r, in(x, b))
	}
	for _, x := range b {
		r = vsym.And(r, in(x, a))
	}
	return r
}

// vListEq is the equality of two lists.
func vListEq(a, b []*commonV1.KeyValue) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vsym.And(r, vSameAttrs(a[i:i+1], b[i:i+1]))
	}
	return r
}

func vSameRes(a, b vRes) bool { return vsym.And(a.schema == b.schema, vSameAttrs(a.attrs, b.attrs)) }

func vSameScope(a, b vScope) bool {
	return vsym.And(vsym.And(a.schema == b.schema, a.name == b.name), vsym.And(a.version == b.version, vSameAttrs(a.attrs, b.attrs)))
}

func vSameMetric(a, b vMetric) bool {
	if a.typ != b.typ {
		return false
	}
	r := vsym.And(a.name == b.name, vsym.And(a.desc == b.desc, a.unit == b.unit))
	return vsym.And(r, vsym.And(a.temp == b.temp, a.mono == b.mono))
}

func (r vRes) build() *resourceV1.Resource {
	if r.attrs == nil {
		return nil
	}
	return &resourceV1.Resource{Attributes: vCopy(r.attrs)}
}

func (s vScope) build() *commonV1.InstrumentationScope {
	return &commonV1.InstrumentationScope{Name: s.name, Version: s.version, Attributes: vCopy(s.attrs)}
}

func (m vMetric) build(tag, val uint64, id string) *metricsV1.Metric {
	o := &metricsV1.Metric{Name: m.name, Description: m.desc, Unit: m.unit}
	t := metricsV1.AggregationTemporality(m.temp)
	switch m.typ {
	case 0:
		o.Data = &metricsV1.Metric_Gauge{Gauge: &metricsV1.Gauge{DataPoints: []*metricsV1.NumberDataPoint{{StartTimeUnixNano: tag, TimeUnixNano: val, Attributes: vIds(id)}}}}
	case 1:
		o.Data = &metricsV1.Metric_Sum{Sum: &metricsV1.Sum{AggregationTemporality: t, IsMonotonic: m.mono, DataPoints: []*metricsV1.NumberDataPoint{{StartTimeUnixNano: tag, TimeUnixNano: val, Attributes: vIds(id)}}}}
	case 2:
		o.Data = &metricsV1.Metric_Histogram{Histogram: &metricsV1.Histogram{AggregationTemporality: t, DataPoints: []*metricsV1.HistogramDataPoint{{StartTimeUnixNano: tag, TimeUnixNano: val, Attributes: vIds(id)}}}}
	case 3:
		o.Data = &metricsV1.Metric_ExponentialHistogram{ExponentialHistogram: &metricsV1.ExponentialHistogram{AggregationTemporality: t, DataPoints: []*metricsV1.ExponentialHistogramDataPoint{{StartTimeUnixNano: tag, TimeUnixNano: val, Attributes: vIds(id)}}}}
	default:
		o.Data = &metricsV1.Metric_Summary{Summary: &metricsV1.Summary{DataPoints: []*metricsV1.SummaryDataPoint{{StartTimeUnixNano: tag, TimeUnixNano: val, Attributes: vIds(id)}}}}
	}
	return o
}

type vPoint interface {
	GetStartTimeUnixNano() uint64
	GetTimeUnixNano() uint64
	GetAttributes() []*commonV1.KeyValue
}

// vPoints lists the data points of a metric, and its identity.
func vPoints(m *metricsV1.Metric) (h vMetric, l []vPoint) {
	h = vMetric{name: m.Name, desc: m.Description, unit: m.Unit, typ: 9}
	switch e := m.Data.(type) {
	case *metricsV1.Metric_Gauge:
		h.typ = 0
		for _, p := range e.Gauge.DataPoints {
			l = append(l, p)
		}
	case *metricsV1.Metric_Sum:
		h.typ, h.temp, h.mono = 1, int(e.Sum.AggregationTemporality), e.Sum.IsMonotonic
		for _, p := range e.Sum.DataPoints {
			l = append(l, p)
		}
	case *metricsV1.Metric_Histogram:
		h.typ, h.temp = 2, int(e.Histogram.AggregationTemporality)
		for _, p := range e.Histogram.DataPoints {
			l = append(l, p)
		}
	case *metricsV1.Metric_ExponentialHistogram:
		h.typ, h.temp = 3, int(e.ExponentialHistogram.AggregationTemporality)
		for _, p := range e.ExponentialHistogram.DataPoints {
			l = append(l, p)
		}
	case *metricsV1.Metric_Summary:
		h.typ = 4
		for _, p := range e.Summary.DataPoints {
			l = append(l, p)
		}
	}
	return
}

func vScopeOf(schema string, s *commonV1.InstrumentationScope) vScope {
	return vScope{schema: schema, name: s.GetName(), version: s.GetVersion(), attrs: s.GetAttributes()}
}

// vTree builds one payload of the given items. Items of one group share a
// resource (and scope, and metric) object when level says so.
//
// level 0: a resource per item; 1: the items share the resource of the first
// one; 2: and its scope.
func vTree(kind int, l []vItem, level int) *v1.Data {
	switch kind {
	case 0:
		d := &metricsV1.MetricsData{}
		for i, x := range l {
			if i == 0 || level == 0 {
				d.ResourceMetrics = append(d.ResourceMetrics, &metricsV1.ResourceMetrics{Resource: x.r.build(), SchemaUrl: x.r.schema})
			}
			rm := d.ResourceMetrics[len(d.ResourceMetrics)-1]
			if i == 0 || level < 2 {
				rm.ScopeMetrics = append(rm.ScopeMetrics, &metricsV1.ScopeMetrics{Scope: x.s.build(), SchemaUrl: x.s.schema})
			}
			sm := rm.ScopeMetrics[len(rm.ScopeMetrics)-1]
			sm.Metrics = append(sm.Metrics, x.m.build(x.tag, x.val, x.id))
		}
		return &v1.Data{Data: &v1.Data_Metrics{Metrics: d}}
	case 1:
		d := &logsv1.LogsData{}
		for i, x := range l {
			if i == 0 || level == 0 {
				d.ResourceLogs = append(d.ResourceLogs, &logsv1.ResourceLogs{Resource: x.r.build(), SchemaUrl: x.r.schema})
			}
			rm := d.ResourceLogs[len(d.ResourceLogs)-1]
			if i == 0 || level < 2 {
				rm.ScopeLogs = append(rm.ScopeLogs, &logsv1.ScopeLogs{Scope: x.s.build(), SchemaUrl: x.s.schema})
			}
			sm := rm.ScopeLogs[len(rm.ScopeLogs)-1]
			sm.LogRecords = append(sm.LogRecords, &logsv1.LogRecord{ObservedTimeUnixNano: x.tag, TimeUnixNano: x.val, TraceId: vBytes(x.id), SpanId: vBytes(x.id), Body: &commonV1.AnyValue{Value: &commonV1.AnyValue_StringValue{StringValue: x.id}}})
		}
		return &v1.Data{Data: &v1.Data_Logs{Logs: d}}
	}
	d := &tracev1.TracesData{}
	for i, x := range l {
		if i == 0 || level == 0 {
			d.ResourceSpans = append(d.ResourceSpans, &tracev1.ResourceSpans{Resource: x.r.build(), SchemaUrl: x.r.schema})
		}
		rm := d.ResourceSpans[len(d.ResourceSpans)-1]
		if i == 0 || level < 2 {
			rm.ScopeSpans = append(rm.ScopeSpans, &tracev1.ScopeSpans{Scope: x.s.build(), SchemaUrl: x.s.schema})
		}
		sm := rm.ScopeSpans[len(rm.ScopeSpans)-1]
		sm.Spans = append(sm.Spans, &tracev1.Span{EndTimeUnixNano: x.tag, StartTimeUnixNano: x.val, TraceId: []byte{byte(x.tag)}, SpanId: vBytes(x.id), Name: x.id})
	}
	return &v1.Data{Data: &v1.Data_Traces{Traces: d}}
}

// vFlat lists the items of a result in order, with the identities they are
// found under.
func vFlat(kind int, d *v1.Data) (l []vItem, res []vRes) {
	n := 0
	switch kind {
	case 0:
		for i, rm := range d.GetMetrics().GetResourceMetrics() {
			r := vRes{rm.SchemaUrl, rm.GetResource().GetAttributes()}
			res = append(res, r)
			for _, sm := range rm.ScopeMetrics {
				for _, m := range sm.Metrics {
					h, ps := vPoints(m)
					for _, p := range ps {
						l = append(l, vItem{r: r, s: vScopeOf(sm.SchemaUrl, sm.Scope), m: h, tag: p.GetStartTimeUnixNano(), val: p.GetTimeUnixNano(), id: vIdOf(p.GetAttributes()), ri: i, mi: n})
					}
					n++
				}
			}
		}
	case 1:
		for i, rm := range d.GetLogs().GetResourceLogs() {
			r := vRes{rm.SchemaUrl, rm.GetResource().GetAttributes()}
			res = append(res, r)
			for _, sm := range rm.ScopeLogs {
				for _, p := range sm.LogRecords {
					l = append(l, vItem{r: r, s: vScopeOf(sm.SchemaUrl, sm.Scope), tag: p.ObservedTimeUnixNano, val: p.TimeUnixNano, id: p.GetBody().GetStringValue(), ri: i, mi: n})
				}
				n++
			}
		}
	default:
		for i, rm := range d.GetTraces().GetResourceSpans() {
			r := vRes{rm.SchemaUrl, rm.GetResource().GetAttributes()}
			res = append(res, r)
			for _, sm := range rm.ScopeSpans {
				for _, p := range sm.Spans {
					l = append(l, vItem{r: r, s: vScopeOf(sm.SchemaUrl, sm.Scope), tag: p.EndTimeUnixNano, val: p.StartTimeUnixNano, id: p.Name, ri: i, mi: n})
				}
				n++
			}
		}
	}
	return
}

func vJudge(kind int, items []vItem, d *v1.Data) {
	got, res := vFlat(kind, d)
	for _, g := range got {
		vsym.Observe("item", []int{int(g.tag), g.ri, g.mi})
	}
	vsym.Assert(len(got) == len(items), "merging loses or duplicates items")
	lastRes, first := -1, uint64(0)
	for i, g := range got {
		n := 0
		for _, x := range items {
			if x.tag != g.tag {
				continue
			}
			n++
			vsym.Assert(vsym.And(x.val == g.val, x.id == g.id), "merging alters an item")
			vsym.Assert(vSameRes(x.r, g.r), "merging moves an item under another resource")
			vsym.Assert(vSameScope(x.s, g.s), "merging moves an item under another scope")
			if kind == 0 {
				vsym.Assert(vSameMetric(x.m, g.m), "merging moves a data point under another metric")
			}
		}
		vsym.Assert(n == 1, "merging invents an item")
		for j := 0; j < i; j++ {
			vsym.Assert(got[j].tag != g.tag, "merging loses or duplicates items")
			if got[j].mi == g.mi {
				vsym.Assert(got[j].tag < g.tag, "merging reorders items")
			}
		}
		if g.ri != lastRes {
			// the first item under a resource is the first one seen of it
			low := g.tag
			for _, h := range got {
				if h.ri == g.ri && h.tag < low {
					low = h.tag
				}
			}
			vsym.Assert(lastRes < 0 || low > first, "merging reorders resources")
			lastRes, first = g.ri, low
		}
	}
	for i := range res {
		for j := 0; j < i; j++ {
			vsym.Assert(vsym.Not(vsym.And(res[i].schema == res[j].schema, vListEq(res[i].attrs, res[j].attrs))), "one resource appears twice in a merged result")
		}
	}
}

func vSym(l string, n int) string { return vsym.Str(l, n) }

func vMetricOf(l string, kind int, types ...int) vMetric {
	if kind != 0 {
		return vMetric{}
	}
	m := vMetric{name: vSym(l+".name", 1), desc: vSym(l+".desc", 1), unit: vSym(l+".unit", 1), typ: types[vsym.Choose(l+".type", len(types))]}
	if m.typ > 0 && m.typ < 4 {
		m.temp = vsym.IntIn(l+".temp", 1, 2)
	}
	if m.typ == 1 {
		m.mono = vsym.Bool(l + ".mono")
	}
	return m
}

func vScopeFor(l string) vScope {
	return vScope{schema: vSym(l+".sschema", 1), name: vSym(l+".sname", 1), version: vSym(l+".sversion", 1), attrs: []*commonV1.KeyValue{vKV(vSym(l+".sk", 1), vSym(l+".sv", 1))}}
}

func vResFor(l string) vRes {
	return vRes{schema: vSym(l+".rschema", 1), attrs: []*commonV1.KeyValue{vKV(vSym(l+".rk", 1), vSym(l+".rv", 1))}}
}

// VsymMergeShape spreads items of two resources, scopes and metrics over
// inputs in different ways.
//
//vsym:harness C14 time=200 ttime=800
//vsym:bound 3 (thorough 4) items of any kind, each under one of two resources, scopes and metrics (of one type, or of two) with one-byte strings, spread over inputs one by one, in pairs sharing a resource object, or sharing a scope object
//vsym:assume xxhash is collision-free on the strings compared
func VsymMergeShape() {
	kind := vsym.Choose("kind", 3)
	rs := []vRes{vResFor("r0"), vResFor("r1")}
	ss := []vScope{vScopeFor("s0"), vScopeFor("s1")}
	n := vsym.Bound(3, 4)
	level := vsym.Choose("level", 3)
	split := vsym.Choose("split", n) // the items before it come one by one
	ms := []vMetric{vMetricOf("m0", kind, 0, 1, 2, 3, 4), {}}
	if kind == 0 {
		ms[1] = vMetricOf("m1", kind, ms[0].typ, (ms[0].typ+1)%5)
	}
	var items []vItem
	for i := 0; i < n; i++ {
		x := vItem{r: rs[0], s: ss[0], m: ms[0], tag: uint64(i + 1), val: vsym.U64("val"), id: vsym.Str("id", 1)}
		if i > 0 {
			a := vsym.Choose("res", 2)
			x.r = rs[a]
			x.s = ss[vsym.Choose("scope", 2)]
			if kind == 0 {
				x.m = ms[vsym.Choose("metric", 2)]
			}
			if i > split {
				// shares objects with the first item of its input
				f := items[split]
				if level > 0 {
					vsym.Assume(a == 0 || n == 0)
					x.r = f.r
				}
				if level > 1 {
					x.s = f.s
				}
			}
		}
		items = append(items, x)
	}
	var in []*v1.Data
	for i := 0; i < split; i++ {
		in = append(in, vTree(kind, items[i:i+1], 0))
	}
	in = append(in, vTree(kind, items[split:], level))
	// an input of its own, so that the first one is merged into
	if len(in) == 1 {
		last := vItem{r: rs[1], s: ss[1], m: ms[1], tag: uint64(n + 1), val: vsym.U64("val"), id: vsym.Str("id", 1)}
		items = append(items, last)
		in = append(in, vTree(kind, items[n:], 0))
	}
	out := Collapse(in)
	vJudge(kind, items, out)
	vsym.Reach("done")
}

// VsymMergeIdentity merges two items whose identities are of any lengths.
//
//vsym:harness C14 time=200 ttime=800
//vsym:bound two items of any kind; resource schema of 0, 1, 10, 11 or 301 bytes (of these the last symbolic), 0 to 2 attributes, scope schema, name and version of 0 to 2 bytes, one part at a time; every byte symbolic
//vsym:assume xxhash is collision-free on the strings compared
func VsymMergeIdentity() {
	kind := vsym.Choose("kind", 3)
	part := vsym.Choose("part", 4)
	var items []vItem
	for i := 0; i < 2; i++ {
		l := []string{"a", "b"}[i]
		x := vItem{tag: uint64(i + 1), val: vsym.U64("val"), id: vsym.Str("id", 1)}
		switch part {
		case 0:
			x.r.schema = vSized(l+".rschema", l+".rslen")
			x.r.attrs = vList(l)
		case 1:
			x.s.schema = vSym(l+".sschema", vsym.Choose(l+".sslen", 3))
			x.s.name = vSym(l+".sname", vsym.Choose(l+".snlen", 3))
			x.s.version = vSym(l+".sversion", vsym.Choose(l+".svlen", 3))
		case 2:
			x.s.version = vSized(l+".sversion", l+".svlen")
			x.s.attrs = vList(l)
		case 3:
			x.m = vMetric{name: vSym(l+".name", vsym.Choose(l+".nlen", 3)), desc: vSym(l+".desc", vsym.Choose(l+".dlen", 3)), unit: vSym(l+".unit", vsym.Choose(l+".ulen", 3))}
			if kind != 0 {
				x.m = vMetric{}
			}
		}
		items = append(items, x)
	}
	out := Collapse([]*v1.Data{vTree(kind, items[:1], 0), vTree(kind, items[1:], 0)})
	vJudge(kind, items, out)
	vsym.Reach("done")
}

// vSized is of 0, 1, 10, 11 or 301 bytes, the first 300 of these fixed.
func vSized(l, n string) string {
	k := []int{0, 1, 10, 11, 301}[vsym.Choose(n, 5)]
	if k == 301 {
		return strings.Repeat("long ", 60) + vSym(l, 1)
	}
	return vSym(l, k)
}

func vList(l string) []*commonV1.KeyValue {
	switch vsym.Choose(l+".attrs", 4) {
	case 1:
		return []*commonV1.KeyValue{vKV(vSym(l+".k", 1), vSym(l+".v", 1))}
	case 2:
		return []*commonV1.KeyValue{vKV(vSym(l+".k", 1), vSym(l+".v", 1)), vKV(vSym(l+".k", 1), vSym(l+".v", 1))}
	case 3:
		return []*commonV1.KeyValue{{Key: vSym(l+".k", 1), Value: &commonV1.AnyValue{Value: &commonV1.AnyValue_IntValue{IntValue: int64(vsym.U64In(l+".i", 1, 127))}}}}
	}
	return nil
}

// VsymMergeReuse merges twice; the second result owes nothing to the first.
//
//vsym:harness C14 time=100 ttime=400
//vsym:bound a merge of two one-item inputs after another such merge of any kinds; one-byte strings
//vsym:assume xxhash is collision-free on the strings compared
func VsymMergeReuse() {
	mk := func(kind int, tag uint64) []vItem {
		var o []vItem
		m := vMetric{}
		t := vsym.Choose("type", 2)
		for i := 0; i < 2; i++ {
			if kind == 0 {
				m = vMetric{name: vSym("name", 1), typ: t}
			}
			o = append(o, vItem{r: vRes{schema: vSym("rschema", 1)}, s: vScope{name: vSym("sname", 1)}, m: m, tag: tag + uint64(i), val: vsym.U64("val"), id: vsym.Str("id", 1)})
		}
		return o
	}
	k0, k1 := vsym.Choose("first", 3), vsym.Choose("second", 3)
	a, b := mk(k0, 1), mk(k1, 3)
	x := Collapse([]*v1.Data{vTree(k0, a[:1], 0), vTree(k0, a[1:], 0)})
	y := Collapse([]*v1.Data{vTree(k1, b[:1], 0), vTree(k1, b[1:], 0)})
	vJudge(k0, a, x)
	vJudge(k1, b, y)
	vsym.Reach("done")
}

// VsymMergeOrder merges inputs whose maps are walked in any order.
//
//vsym:harness C14 time=60 ttime=200 repeat=60
//vsym:bound three one-item inputs of one kind under resources of any one-byte schema; maps are walked in any order
//vsym:assume xxhash is collision-free on the strings compared
func VsymMergeOrder() {
	kind := vsym.Choose("kind", 3)
	var items []vItem
	var in []*v1.Data
	for i := 0; i < 3; i++ {
		x := vItem{r: vRes{schema: vSym("rschema", 1)}, tag: uint64(1 + i), val: vsym.U64("val"), id: vsym.Str("id", 1)}
		if kind == 0 {
			x.m = vMetric{name: "m"}
		}
		items = append(items, x)
		in = append(in, vTree(kind, []vItem{x}, 0))
	}
	vsym.MapOrder(true)
	out := Collapse(in)
	vsym.MapOrder(false)
	vJudge(kind, items, out)
	vsym.Reach("done")
}
