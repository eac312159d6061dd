package f2

import (
	"github.com/apache/arrow/go/v17/arrow"
	"github.com/apache/arrow/go/v17/arrow/memory"
	"github.com/gernest/roaring/shardwidth"
	cpb "go.opentelemetry.io/proto/otlp/common/v1"
	mpb "go.opentelemetry.io/proto/otlp/metrics/v1"
	rpb "go.opentelemetry.io/proto/otlp/resource/v1"
	"google.golang.org/protobuf/proto"

	v1 "github.com/gernest/requiemdb/gen/go/store/v1"
	"github.com/gernest/requiemdb/internal/arrow3"
	"github.com/gernest/requiemdb/internal/vmodel"
	"github.com/gernest/requiemdb/internal/vsym"
)

// ---- the columnar builder as a list of messages ----

type vSchema = arrow3.Schema[*v1.Metric]

var vRows = map[*vSchema][]*v1.Metric{}

type vRecord struct {
	arrow.Record
	rows []*v1.Metric
}

func (r *vRecord) NumRows() int64 { return int64(len(r.rows)) }
func (r *vRecord) Release()       {}

//vsym:model github.com/gernest/requiemdb/internal/arrow3.New
func vNew(mem memory.Allocator) (*vSchema, error) { return &vSchema{}, nil }

//vsym:model (*github.com/gernest/requiemdb/internal/arrow3.Schema[T]).Append
func vAppend(s *vSchema, v *v1.Metric) {
	vRows[s] = append(vRows[s], proto.Clone(v).(*v1.Metric))
}

//vsym:model (*github.com/gernest/requiemdb/internal/arrow3.Schema[T]).NewRecord
func vNewRecord(s *vSchema) arrow.Record {
	r := &vRecord{rows: vRows[s]}
	vRows[s] = nil
	return r
}

//vsym:model (*github.com/gernest/requiemdb/internal/arrow3.Schema[T]).Proto
func vProto(s *vSchema, r arrow.Record, rows []int) (o []*v1.Metric) {
	for _, i := range rows {
		o = append(o, r.(*vRecord).rows[i])
	}
	return
}

//vsym:model (*github.com/gernest/requiemdb/internal/arrow3.Schema[T]).Release
func vRelease(s *vSchema) {}

// vPlain is a printable character other than =.
func vPlain(l string) string {
	c := vsym.U8(l)
	vsym.Assume(vsym.And(vsym.And(c >= 0x20, c < 0x7f), c != '='))
	return string([]byte{c})
}

type vAttr struct {
	key, val string
	text     bool
}

// vAttrs is no attribute, one with a text, one with a number or one without a
// value.
func vAttrs(l string, kinds int) (w []vAttr, r []*cpb.KeyValue) {
	k := vsym.Choose(l, kinds)
	if k == 0 {
		return
	}
	a := vAttr{key: vPlain(l + " key"), text: k == 1}
	kv := &cpb.KeyValue{Key: a.key}
	switch k {
	case 1:
		a.val = "v"
		if l == "point" || vsym.Bound(0, 1) == 1 {
			a.val = vPlain(l + " value")
		}
		kv.Value = &cpb.AnyValue{Value: &cpb.AnyValue_StringValue{StringValue: a.val}}
	case 2:
		kv.Value = &cpb.AnyValue{Value: &cpb.AnyValue_IntValue{IntValue: 7}}
	}
	return []vAttr{a}, []*cpb.KeyValue{kv}
}

type vPoint struct {
	kind        int
	name        string
	at          []vAttr // of all levels
	start, time uint64
	val         float64
	has         bool
	ex          int
	temp        mpb.AggregationTemporality
	mono        bool
	count       uint64
	more        bool // may have exemplars
}

func (p *vPoint) labels() (l []string) {
	l = append(l, "__name__="+p.name)
	for _, a := range p.at {
		if a.text {
			l = append(l, a.key+"="+a.val)
		}
	}
	return
}

// vOf makes a point and its wire form, added to m.
func (p *vPoint) add(m *mpb.Metric, kv []*cpb.KeyValue) {
	p.start, p.time = vsym.U64("start"), vsym.U64("time")
	var ex []*mpb.Exemplar
	if p.kind != 4 && p.more && len(p.at) == 0 {
		p.ex = vsym.Choose("exemplars", 2)
	}
	if p.ex == 1 {
		ex = []*mpb.Exemplar{{TimeUnixNano: p.time}}
	}
	if p.kind >= 2 {
		p.count = vsym.U64("count")
	}
	switch p.kind {
	case 0, 1:
		d := &mpb.NumberDataPoint{Attributes: kv, StartTimeUnixNano: p.start, TimeUnixNano: p.time, Exemplars: ex}
		k := 1
		if p.more {
			k = vsym.Choose("value", 3)
		}
		switch k {
		case 1:
			p.val = vsym.F64("float")
			vsym.Assume(p.val == p.val)
			d.Value, p.has = &mpb.NumberDataPoint_AsDouble{AsDouble: p.val}, true
		case 0:
			i := int64(int8(vsym.U8("int")))
			p.val = float64(i)
			d.Value, p.has = &mpb.NumberDataPoint_AsInt{AsInt: i}, true
		}
		if p.kind == 0 {
			g := m.GetGauge()
			g.DataPoints = append(g.DataPoints, d)
		} else {
			g := m.GetSum()
			g.DataPoints = append(g.DataPoints, d)
		}
	case 2:
		g := m.GetHistogram()
		g.DataPoints = append(g.DataPoints, &mpb.HistogramDataPoint{Attributes: kv, StartTimeUnixNano: p.start, TimeUnixNano: p.time, Exemplars: ex, Count: p.count, BucketCounts: []uint64{p.start, p.time}})
	case 3:
		g := m.GetExponentialHistogram()
		g.DataPoints = append(g.DataPoints, &mpb.ExponentialHistogramDataPoint{Attributes: kv, StartTimeUnixNano: p.start, TimeUnixNano: p.time, Exemplars: ex, Count: p.count, ZeroCount: p.start})
	case 4:
		g := m.GetSummary()
		g.DataPoints = append(g.DataPoints, &mpb.SummaryDataPoint{Attributes: kv, StartTimeUnixNano: p.start, TimeUnixNano: p.time, Count: p.count})
	}
}

func vMetric(kind int, name string) (m *mpb.Metric, temp mpb.AggregationTemporality, mono bool) {
	m = &mpb.Metric{Name: name, Description: name + "d", Unit: name + "u"}
	if kind >= 1 && kind <= 3 {
		temp = mpb.AggregationTemporality(vsym.U8("temporality"))
	}
	switch kind {
	case 0:
		m.Data = &mpb.Metric_Gauge{Gauge: &mpb.Gauge{}}
	case 1:
		mono = vsym.Bool("monotonic")
		m.Data = &mpb.Metric_Sum{Sum: &mpb.Sum{AggregationTemporality: temp, IsMonotonic: mono}}
	case 2:
		m.Data = &mpb.Metric_Histogram{Histogram: &mpb.Histogram{AggregationTemporality: temp}}
	case 3:
		m.Data = &mpb.Metric_ExponentialHistogram{ExponentialHistogram: &mpb.ExponentialHistogram{AggregationTemporality: temp}}
	case 4:
		m.Data = &mpb.Metric_Summary{Summary: &mpb.Summary{}}
	}
	return
}

// same checks what is kept of a point.
func (p *vPoint) same(m *v1.Metric) {
	vsym.Assert(m.Name == p.name && m.Description == p.name+"d" && m.Unit == p.name+"u", "a point is under another metric")
	vsym.Assert(int(m.Kind) == p.kind, "a point has another kind")
	vsym.Assert(vsym.And(m.StartTimeUnixNano == p.start, m.TimeUnixNano == p.time), "a point has other times")
	vsym.Assert(len(m.Exemplars) == p.ex, "a point has other exemplars")
	vsym.Assert(m.AggregationTemporality == p.temp, "a point has another temporality")
	vsym.Assert(vsym.Iff(m.IsMonotonic, p.mono), "a point has another monotonicity")
	one := func(f *float64, has bool) {
		vsym.Assert((f != nil) == has, "a point has a value of another kind")
		if f != nil {
			vsym.Assert(*f == p.val, "a point has another value")
		}
	}
	one(m.Gauge, p.has && p.kind == 0)
	one(m.Counter, p.has && p.kind == 1)
	vsym.Assert((m.Histogram != nil) == (p.kind == 2) && (m.ExponentialHistogram != nil) == (p.kind == 3) && (m.Summary != nil) == (p.kind == 4), "a point has a distribution of another kind")
	switch p.kind {
	case 2:
		h := m.Histogram
		vsym.Assert(vsym.And(h.Count == p.count, vsym.And(h.BucketCounts[0] == p.start, h.BucketCounts[1] == p.time)), "a histogram is different")
	case 3:
		vsym.Assert(vsym.And(m.ExponentialHistogram.Count == p.count, m.ExponentialHistogram.ZeroCount == p.start), "a histogram is different")
	case 4:
		vsym.Assert(m.Summary.Count == p.count, "a summary is different")
	}
	vsym.Assert(len(m.Attributes) == len(p.at), "a point has other attributes")
	for i, a := range p.at {
		kv := m.Attributes[i]
		vsym.Assert(vsym.And(kv.Key == a.key, kv.GetValue().GetStringValue() == a.val), "a point has other attributes")
	}
}

// VsymAppend appends points and reads them and their index.
//
//vsym:harness C27 time=120 ttime=600 paths=200000 tpaths=2000000
//vsym:bound two points of any of the five kinds in one metric or two metrics (of one kind or two), or gauges in two scopes, two resources or two payloads; up to one attribute per level (of the point: a text, a number or without a value), keys and texts of one character (quick: the same text on resources and scopes), values, times, counts arbitrary; label ids below 2^20
//vsym:assume characters are printable and not =; floats are not NaN
func VsymAppend() {
	db := vmodel.OpenDB("")
	m, err := NewMetrics(db)
	vsym.Assert(err == nil, "an index is not opened")
	var ps []*vPoint
	shape := vsym.Choose("shape", 5)
	ra, rkv := vAttrs("resource", 2)
	sa, skv := vAttrs("scope", 2)
	kind := 0
	if shape < 2 {
		kind = vsym.Choose("kind", 5)
	}
	x, temp, mono := vMetric(kind, "first")
	p := &vPoint{kind: kind, name: "first", temp: temp, mono: mono, more: shape < 2}
	kinds := 2
	if shape < 2 {
		kinds = 4
	}
	pa, pkv := vAttrs("point", kinds)
	p.at = append(append(append(p.at, ra...), sa...), pa...)
	p.add(x, pkv)
	ps = append(ps, p)
	sc := &mpb.ScopeMetrics{Scope: &cpb.InstrumentationScope{Attributes: skv}, Metrics: []*mpb.Metric{x}}
	rs := &mpb.ResourceMetrics{Resource: &rpb.Resource{Attributes: rkv}, ScopeMetrics: []*mpb.ScopeMetrics{sc}}
	data := &mpb.MetricsData{ResourceMetrics: []*mpb.ResourceMetrics{rs}}
	next := data
	q := &vPoint{kind: kind, name: "first", temp: temp, mono: mono, more: shape < 2}
	if shape > 0 {
		q.name = "second"
		if shape == 1 {
			q.kind = (kind + vsym.Choose("next kind", 2)) % 5
		}
		if shape == 1 || vsym.Choose("same name", 2) == 1 {
			q.name = "first"
		}
		x, q.temp, q.mono = vMetric(q.kind, q.name)
	}
	if shape > 1 {
		sa, skv = vAttrs("scope", 2)
		sc = &mpb.ScopeMetrics{Metrics: []*mpb.Metric{x}}
		if skv != nil {
			sc.Scope = &cpb.InstrumentationScope{Attributes: skv}
		}
	}
	if shape > 2 {
		ra, rkv = vAttrs("resource", 2)
		rs = &mpb.ResourceMetrics{ScopeMetrics: []*mpb.ScopeMetrics{sc}}
		if rkv != nil {
			rs.Resource = &rpb.Resource{Attributes: rkv}
		}
	}
	pa, pkv = vAttrs("point", 2)
	q.at = append(append(append(q.at, ra...), sa...), pa...)
	q.add(x, pkv)
	ps = append(ps, q)
	switch shape {
	case 1:
		sc.Metrics = append(sc.Metrics, x)
	case 2:
		rs.ScopeMetrics = append(rs.ScopeMetrics, sc)
	case 3:
		data.ResourceMetrics = append(data.ResourceMetrics, rs)
	case 4:
		next = &mpb.MetricsData{ResourceMetrics: []*mpb.ResourceMetrics{rs}}
	}
	m.Append(data)
	if next != data {
		m.Append(next)
	}
	r := m.build.NewRecord()
	vsym.Assert(r.NumRows() == 2, "a point is lost or repeated")
	got := m.build.Proto(r, []int{0, 1})
	n := 0
	for i, p := range ps {
		p.same(got[i])
		set := map[uint64]bool{}
		for _, l := range p.labels() {
			set[m.tr.Tr([]byte(l))] = true
		}
		for k := range set {
			vsym.Assert(k < shardwidth.ShardWidth, "ids are beyond the bound")
			vsym.Assert(m.positions.Contains(got[i].Id*shardwidth.ShardWidth+k), "a point is not indexed under a label")
		}
		n += len(set)
	}
	vsym.Assert(got[0].Id != got[1].Id, "two points share an id")
	vsym.Assert(m.positions.GetCardinality() == uint64(n), "a point is indexed under a label it does not have")
	// identity
	a, b := ps[0].labels(), ps[1].labels()
	same := vsym.And(vSub(a, b), vSub(b, a))
	vsym.Assert(vsym.Iff(got[0].Hash == got[1].Hash, same), "two points share an identity, or one has two")
	vsym.Assert(m.Close() == nil, "an index is not closed")
	vsym.Observe("labels", n)
	vsym.Reach("appended")
}

func vSub(a, b []string) bool {
	r := true
	for _, x := range a {
		in := false
		for _, y := range b {
			in = vsym.Or(in, x == y)
		}
		r = vsym.And(r, in)
	}
	return r
}
