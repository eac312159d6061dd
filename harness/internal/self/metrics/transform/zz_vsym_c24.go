package transform

import (
	"strings"
	"time"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/sdk/instrumentation"
	"go.opentelemetry.io/otel/sdk/metric/metricdata"
	"go.opentelemetry.io/otel/sdk/resource"
	cpb "go.opentelemetry.io/proto/otlp/common/v1"
	mpb "go.opentelemetry.io/proto/otlp/metrics/v1"

	_ "github.com/gernest/requiemdb/internal/vmodel/vattr"
	"github.com/gernest/requiemdb/internal/vsym"
)

// vFl is any float that is not NaN (which no comparison finds).
func vFl(l string) float64 {
	f := vsym.F64(l)
	vsym.Assume(f == f)
	return f
}

// vTime is a time and its wire form.
func vTime(l string) (time.Time, uint64) {
	if vsym.Choose(l+" unset", 2) == 0 {
		return time.Time{}, 0
	}
	s, n := vsym.U64In(l, 0, 9000000000), vsym.U64In(l+".ns", 0, 999999999)
	return time.Unix(int64(s), int64(n)), s*1000000000 + n
}

type vAttr struct {
	key  string
	kind int
	b    []bool
	i    []int64
	f    []float64
	s    []string
}

// vAttrOf makes an attribute of a kind: 0 to 3 a scalar, 4 to 7 a slice, 8 nothing.
func vAttrOf(key string, kind, n int) (a vAttr, kv attribute.KeyValue) {
	a = vAttr{key: key, kind: kind}
	for k := 0; k < n; k++ {
		switch kind & 3 {
		case 0:
			a.b = append(a.b, vsym.Bool("bool"))
		case 1:
			a.i = append(a.i, vsym.I64("int"))
		case 2:
			a.f = append(a.f, vFl("float"))
		case 3:
			a.s = append(a.s, vsym.Str("string", vsym.Choose("len", 2)))
		}
	}
	k := attribute.Key(key)
	switch kind {
	case 0:
		kv = k.Bool(a.b[0])
	case 1:
		kv = k.Int64(a.i[0])
	case 2:
		kv = k.Float64(a.f[0])
	case 3:
		kv = k.String(a.s[0])
	case 4:
		kv = k.BoolSlice(a.b)
	case 5:
		kv = k.Int64Slice(a.i)
	case 6:
		kv = k.Float64Slice(a.f)
	case 7:
		kv = k.StringSlice(a.s)
	case 8:
		kv.Key = k
	}
	return
}

func (a vAttr) same(kv *cpb.KeyValue) bool {
	if kv.GetKey() != a.key {
		return false
	}
	v := kv.GetValue()
	one := func(v *cpb.AnyValue, k int) bool {
		switch x := v.GetValue().(type) {
		case *cpb.AnyValue_BoolValue:
			return a.kind&3 == 0 && vsym.Iff(x.BoolValue, a.b[k])
		case *cpb.AnyValue_IntValue:
			return a.kind&3 == 1 && x.IntValue == a.i[k]
		case *cpb.AnyValue_DoubleValue:
			return a.kind&3 == 2 && x.DoubleValue == a.f[k]
		case *cpb.AnyValue_StringValue:
			return a.kind&3 == 3 && x.StringValue == a.s[k]
		}
		return false
	}
	switch {
	case a.kind == 8:
		_, ok := v.GetValue().(*cpb.AnyValue_StringValue)
		return ok && v.GetStringValue() == "INVALID"
	case a.kind < 4:
		return one(v, 0)
	}
	l, ok := v.GetValue().(*cpb.AnyValue_ArrayValue)
	if !ok {
		return false
	}
	n := len(a.b) + len(a.i) + len(a.f) + len(a.s)
	if len(l.ArrayValue.GetValues()) != n {
		return false
	}
	r := true
	for k, x := range l.ArrayValue.GetValues() {
		r = vsym.And(r, one(x, k))
	}
	return r
}

func vSame(l []vAttr, got []*cpb.KeyValue) bool {
	if len(l) != len(got) {
		return false
	}
	r := true
	for i, a := range l {
		r = vsym.And(r, a.same(got[i]))
	}
	return r
}

// vFew is a set of up to one attribute.
func vFew(l string) ([]vAttr, attribute.Set) {
	if vsym.Choose(l+" attributes", 2) == 0 {
		return nil, attribute.NewSet()
	}
	a, kv := vAttrOf(vsym.Str(l+" key", 1), 1, 1)
	return []vAttr{a}, attribute.NewSet(kv)
}

// vOnly exports one metric of a scope.
func vOnly(m metricdata.Metrics) *mpb.Metric {
	out, err := ResourceMetrics(&metricdata.ResourceMetrics{ScopeMetrics: []metricdata.ScopeMetrics{{Metrics: []metricdata.Metrics{m}}}})
	vsym.Assert(err == nil, "a valid metric is reported as an error")
	vsym.Assert(len(out.GetScopeMetrics()) == 1 && len(out.ScopeMetrics[0].Metrics) == 1, "a metric is lost")
	return out.ScopeMetrics[0].Metrics[0]
}

func vTemp() (metricdata.Temporality, mpb.AggregationTemporality) {
	if vsym.Bool("delta") {
		return metricdata.DeltaTemporality, mpb.AggregationTemporality_AGGREGATION_TEMPORALITY_DELTA
	}
	return metricdata.CumulativeTemporality, mpb.AggregationTemporality_AGGREGATION_TEMPORALITY_CUMULATIVE
}

// VsymAttributes exports attributes of a resource and of an exemplar.
//
//vsym:harness C24 time=120 ttime=400
//vsym:bound up to two attributes of any of the eight kinds or of none, slices of up to 2 values, keys of 1 byte, strings of up to 1 byte
//vsym:assume floats are not NaN
func VsymAttributes() {
	n := vsym.Choose("attributes", 3)
	var as []vAttr
	var kvs []attribute.KeyValue
	for i := 0; i < n; i++ {
		kind := vsym.Choose("kind", 9)
		m := 1
		if kind >= 4 {
			m = vsym.Choose("values", 3)
		}
		a, kv := vAttrOf(vsym.Str("key", 1), kind, m)
		as, kvs = append(as, a), append(kvs, kv)
	}
	// exemplars keep their list as it is
	g := vOnly(metricdata.Metrics{Data: metricdata.Gauge[int64]{DataPoints: []metricdata.DataPoint[int64]{{
		Exemplars: []metricdata.Exemplar[int64]{{FilteredAttributes: append([]attribute.KeyValue{}, kvs...)}}}}}})
	ex := g.GetGauge().GetDataPoints()[0].GetExemplars()
	vsym.Assert(len(ex) == 1, "an exemplar is lost")
	vsym.Assert(vSame(as, ex[0].GetFilteredAttributes()), "an exemplar has other attributes")
	// a resource sorts its attributes, drops invalid ones and keeps the last of a key
	if n == 2 && kvs[0].Key > kvs[1].Key {
		as[0], as[1] = as[1], as[0]
	} else if n == 2 && kvs[0].Key == kvs[1].Key {
		as = as[1:]
	}
	var valid []vAttr
	for _, a := range as {
		if a.kind != 8 {
			valid = append(valid, a)
		}
	}
	url := vsym.Str("schema", 1)
	out, err := ResourceMetrics(&metricdata.ResourceMetrics{Resource: resource.NewWithAttributes(url, kvs...)})
	vsym.Assert(err == nil, "nothing fails to be exported")
	vsym.Assert(vSame(valid, out.GetResource().GetAttributes()), "a resource has other attributes")
	vsym.Assert(out.GetSchemaUrl() == url, "a resource has another schema")
	vsym.Assert(len(out.GetScopeMetrics()) == 0, "scopes appear")
	vsym.Observe("attributes", len(out.GetResource().GetAttributes()))
	vsym.Reach("exported")
}

type vPoint struct {
	at          []vAttr
	start, time uint64
	i           int64
	f           float64
	ex          *mpb.Exemplar // with an attribute list exAt
	exAt        []vAttr
}

func vPoints[N int64 | float64](n int, val func() N) (w []vPoint, l []metricdata.DataPoint[N]) {
	for k := 0; k < n; k++ {
		var p vPoint
		var d metricdata.DataPoint[N]
		p.at, d.Attributes = vFew("point")
		d.StartTime, p.start = vTime("start")
		d.Time, p.time = vTime("time")
		d.Value = val()
		switch v := any(d.Value).(type) {
		case int64:
			p.i = v
		case float64:
			p.f = v
		}
		w, l = append(w, p), append(l, d)
	}
	return
}

func (p vPoint) same(d *mpb.NumberDataPoint, float bool) bool {
	r := vsym.And(d.GetStartTimeUnixNano() == p.start, d.GetTimeUnixNano() == p.time)
	r = vsym.And(r, vSame(p.at, d.GetAttributes()))
	if len(d.GetExemplars()) != 0 {
		return false
	}
	switch v := d.GetValue().(type) {
	case *mpb.NumberDataPoint_AsInt:
		return vsym.And(r, !float && v.AsInt == p.i)
	case *mpb.NumberDataPoint_AsDouble:
		return vsym.And(r, float && v.AsDouble == p.f)
	}
	return false
}

// VsymNumbers exports gauges and sums.
//
//vsym:harness C24 time=120 ttime=400
//vsym:bound one metric with up to 2 points (each with up to one attribute, set or unset times of 1970 to 2255, any int64 or float value)
//vsym:assume floats are not NaN
func VsymNumbers() {
	m := metricdata.Metrics{Name: vsym.Str("name", 1), Description: vsym.Str("description", 1), Unit: vsym.Str("unit", 1)}
	float, sum := vsym.Choose("float", 2) == 1, vsym.Choose("sum", 2) == 1
	mono := vsym.Bool("monotonic")
	n := vsym.Choose("points", 3)
	t, wt := vTemp()
	var w []vPoint
	if float {
		var l []metricdata.DataPoint[float64]
		w, l = vPoints(n, func() float64 { return vFl("value") })
		m.Data = metricdata.Gauge[float64]{DataPoints: l}
		if sum {
			m.Data = metricdata.Sum[float64]{DataPoints: l, Temporality: t, IsMonotonic: mono}
		}
	} else {
		var l []metricdata.DataPoint[int64]
		w, l = vPoints(n, func() int64 { return vsym.I64("value") })
		m.Data = metricdata.Gauge[int64]{DataPoints: l}
		if sum {
			m.Data = metricdata.Sum[int64]{DataPoints: l, Temporality: t, IsMonotonic: mono}
		}
	}
	o := vOnly(m)
	vsym.Assert(vsym.And(vsym.And(o.GetName() == m.Name, o.GetDescription() == m.Description), o.GetUnit() == m.Unit), "a metric has another identity")
	d := o.GetGauge().GetDataPoints()
	if sum {
		d = o.GetSum().GetDataPoints()
		vsym.Assert(o.GetSum() != nil, "a sum is exported as something else")
		vsym.Assert(o.GetSum().GetAggregationTemporality() == wt, "a sum has another temporality")
		vsym.Assert(vsym.Iff(o.GetSum().GetIsMonotonic(), mono), "a sum has another monotonicity")
	} else {
		vsym.Assert(o.GetGauge() != nil, "a gauge is exported as something else")
	}
	vsym.Assert(len(d) == n, "points are lost or added")
	for i := range d {
		vsym.Assert(w[i].same(d[i], float), "a point is different")
	}
	vsym.Observe("points", len(d))
	vsym.Reach("exported")
}

func vU64s(l string, n int) (r []uint64) {
	for i := 0; i < n; i++ {
		r = append(r, vsym.U64(l))
	}
	return
}

func vSameU64s(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vsym.And(r, a[i] == b[i])
	}
	return r
}

func vSameFs(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vsym.And(r, a[i] == b[i])
	}
	return r
}

func vOpt(has bool, v float64, got *float64) bool {
	if !has {
		return got == nil
	}
	return got != nil && *got == v
}

// vHist is a distribution with values of any kind.
type vHist[N int64 | float64] struct {
	at             []vAttr
	start, time    uint64
	count          uint64
	sum, min, max  N
	hasMin, hasMax bool
	bounds         []float64
	counts, neg    []uint64
	off, noff, sc  int32
	zero           uint64
	ex             []metricdata.Exemplar[N]
	exTime         []uint64
}

func vDist[N int64 | float64](val func(string) N) (h vHist[N], set attribute.Set, start, end time.Time) {
	h.at, set = vFew("point")
	start, h.start = vTime("start")
	end, h.time = vTime("time")
	h.count = vsym.U64("count")
	h.sum = val("sum")
	h.hasMin, h.hasMax = vsym.Bool("has min"), vsym.Bool("has max")
	if h.hasMin {
		h.min = val("min")
	}
	if h.hasMax {
		h.max = val("max")
	}
	h.counts = vU64s("bucket", vsym.Choose("buckets", 3))
	if vsym.Choose("exemplar", 2) == 1 {
		e := metricdata.Exemplar[N]{Value: val("exemplar"), SpanID: vsym.Bytes("span", 2), TraceID: vsym.Bytes("trace", 2)}
		var t uint64
		e.Time, t = vTime("exemplar time")
		h.ex, h.exTime = []metricdata.Exemplar[N]{e}, []uint64{t}
	}
	return
}

func (h *vHist[N]) extrema() (mn, mx metricdata.Extrema[N]) {
	if h.hasMin {
		mn = metricdata.NewExtrema(h.min)
	}
	if h.hasMax {
		mx = metricdata.NewExtrema(h.max)
	}
	return
}

func (h *vHist[N]) exemplars(l []*mpb.Exemplar) bool {
	if len(l) != len(h.ex) {
		return false
	}
	r := true
	for i, e := range l {
		w := h.ex[i]
		r = vsym.And(r, vsym.And(e.GetTimeUnixNano() == h.exTime[i], vsym.And(vsym.EqBytes(e.GetSpanId(), w.SpanID), vsym.EqBytes(e.GetTraceId(), w.TraceID))))
		switch v := e.GetValue().(type) {
		case *mpb.Exemplar_AsInt:
			x, ok := any(w.Value).(int64)
			r = vsym.And(r, ok && v.AsInt == x)
		case *mpb.Exemplar_AsDouble:
			x, ok := any(w.Value).(float64)
			r = vsym.And(r, ok && v.AsDouble == x)
		default:
			return false
		}
	}
	return r
}

func vHistogram[N int64 | float64](val func(string) N) {
	t, wt := vTemp()
	exp := vsym.Choose("exponential", 2) == 1
	h, set, start, end := vDist(val)
	mn, mx := h.extrema()
	var data metricdata.Aggregation
	if exp {
		h.neg = vU64s("negative", vsym.Choose("negatives", 2))
		h.off, h.noff, h.sc = int32(vsym.U32("offset")), int32(vsym.U32("negative offset")), int32(vsym.U32("scale"))
		h.zero = vsym.U64("zero count")
		data = metricdata.ExponentialHistogram[N]{Temporality: t, DataPoints: []metricdata.ExponentialHistogramDataPoint[N]{{
			Attributes: set, StartTime: start, Time: end, Count: h.count, Min: mn, Max: mx, Sum: h.sum, Scale: h.sc, ZeroCount: h.zero,
			PositiveBucket: metricdata.ExponentialBucket{Offset: h.off, Counts: h.counts},
			NegativeBucket: metricdata.ExponentialBucket{Offset: h.noff, Counts: h.neg}, Exemplars: h.ex}}}
	} else {
		for i := 1; i < len(h.counts); i++ {
			h.bounds = append(h.bounds, vFl("bound"))
		}
		data = metricdata.Histogram[N]{Temporality: t, DataPoints: []metricdata.HistogramDataPoint[N]{{
			Attributes: set, StartTime: start, Time: end, Count: h.count, Bounds: h.bounds, BucketCounts: h.counts, Min: mn, Max: mx, Sum: h.sum, Exemplars: h.ex}}}
	}
	vExport(data, exp, wt, &h)
	vsym.Observe("exponential", exp)
	vsym.Reach("exported")
}

// vExport exports a histogram and compares its points.
func vExport[N int64 | float64](data metricdata.Aggregation, exp bool, wt mpb.AggregationTemporality, hs ...*vHist[N]) {
	o := vOnly(metricdata.Metrics{Name: "m", Data: data})
	if exp {
		x := o.GetExponentialHistogram()
		vsym.Assert(x != nil && len(x.DataPoints) == len(hs), "a histogram is exported as something else")
		vsym.Assert(x.AggregationTemporality == wt, "a histogram has another temporality")
		for i, d := range x.DataPoints {
			h := hs[i]
			vsym.Assert(vsym.And(vsym.And(d.StartTimeUnixNano == h.start, d.TimeUnixNano == h.time), vSame(h.at, d.Attributes)), "a histogram point has another identity")
			vsym.Assert(vsym.And(d.Count == h.count, vOpt(true, float64(h.sum), d.Sum)), "a histogram point has another sum or count")
			vsym.Assert(vsym.And(vOpt(h.hasMin, float64(h.min), d.Min), vOpt(h.hasMax, float64(h.max), d.Max)), "a histogram point has another minimum or maximum")
			vsym.Assert(vsym.And(vSameU64s(h.counts, d.GetPositive().GetBucketCounts()), vSameU64s(h.neg, d.GetNegative().GetBucketCounts())), "a histogram point has other buckets")
			vsym.Assert(vsym.And(vsym.And(d.Scale == h.sc, d.ZeroCount == h.zero), vsym.And(d.GetPositive().GetOffset() == h.off, d.GetNegative().GetOffset() == h.noff)), "a histogram point has another layout")
			vsym.Assert(h.exemplars(d.Exemplars), "a histogram point has other exemplars")
		}
		return
	}
	x := o.GetHistogram()
	vsym.Assert(x != nil && len(x.DataPoints) == len(hs), "a histogram is exported as something else")
	vsym.Assert(x.AggregationTemporality == wt, "a histogram has another temporality")
	for i, d := range x.DataPoints {
		h := hs[i]
		vsym.Assert(vsym.And(vsym.And(d.StartTimeUnixNano == h.start, d.TimeUnixNano == h.time), vSame(h.at, d.Attributes)), "a histogram point has another identity")
		vsym.Assert(vsym.And(d.Count == h.count, vOpt(true, float64(h.sum), d.Sum)), "a histogram point has another sum or count")
		vsym.Assert(vsym.And(vOpt(h.hasMin, float64(h.min), d.Min), vOpt(h.hasMax, float64(h.max), d.Max)), "a histogram point has another minimum or maximum")
		vsym.Assert(vsym.And(vSameU64s(h.counts, d.BucketCounts), vSameFs(h.bounds, d.ExplicitBounds)), "a histogram point has other buckets")
		vsym.Assert(h.exemplars(d.Exemplars), "a histogram point has other exemplars")
	}
}

// vFixed is a distribution of a fixed shape: one attribute, two buckets, two
// exemplars, with or without extrema.
func vFixed[N int64 | float64](val func(string) N) (h vHist[N], set attribute.Set, start, end time.Time) {
	tm := func(l string) (time.Time, uint64) {
		s, n := vsym.U64In(l, 0, 9000000000), vsym.U64In(l+".ns", 0, 999999999)
		return time.Unix(int64(s), int64(n)), s*1000000000 + n
	}
	a, kv := vAttrOf(vsym.Str("point key", 1), 1, 1)
	h.at, set = []vAttr{a}, attribute.NewSet(kv)
	start, h.start = tm("start")
	end, h.time = tm("time")
	h.count = vsym.U64("count")
	h.sum = val("sum")
	h.hasMin, h.hasMax = vsym.Bool("has min"), vsym.Bool("has max")
	if h.hasMin {
		h.min = val("min")
	}
	if h.hasMax {
		h.max = val("max")
	}
	h.counts, h.neg = vU64s("bucket", 2), vU64s("negative", 1)
	h.bounds = []float64{vFl("bound")}
	h.off, h.noff, h.sc = int32(vsym.U32("offset")), int32(vsym.U32("negative offset")), int32(vsym.U32("scale"))
	h.zero = vsym.U64("zero count")
	for i := 0; i < 2; i++ {
		e := metricdata.Exemplar[N]{Value: val("exemplar"), SpanID: vsym.Bytes("span", 2), TraceID: vsym.Bytes("trace", 2)}
		var t uint64
		e.Time, t = tm("exemplar time")
		h.ex, h.exTime = append(h.ex, e), append(h.exTime, t)
	}
	return
}

func vTwo[N int64 | float64](val func(string) N) {
	t, wt := vTemp()
	exp := vsym.Choose("exponential", 2) == 1
	var ph []metricdata.HistogramDataPoint[N]
	var pe []metricdata.ExponentialHistogramDataPoint[N]
	var hs []*vHist[N]
	for i := 0; i < 2; i++ {
		h, set, start, end := vFixed(val)
		mn, mx := h.extrema()
		ph = append(ph, metricdata.HistogramDataPoint[N]{Attributes: set, StartTime: start, Time: end, Count: h.count, Bounds: h.bounds, BucketCounts: h.counts, Min: mn, Max: mx, Sum: h.sum, Exemplars: h.ex})
		pe = append(pe, metricdata.ExponentialHistogramDataPoint[N]{Attributes: set, StartTime: start, Time: end, Count: h.count, Min: mn, Max: mx, Sum: h.sum, Scale: h.sc, ZeroCount: h.zero,
			PositiveBucket: metricdata.ExponentialBucket{Offset: h.off, Counts: h.counts},
			NegativeBucket: metricdata.ExponentialBucket{Offset: h.noff, Counts: h.neg}, Exemplars: h.ex})
		hs = append(hs, &h)
	}
	if exp {
		vExport(metricdata.ExponentialHistogram[N]{Temporality: t, DataPoints: pe}, exp, wt, hs...)
	} else {
		vExport(metricdata.Histogram[N]{Temporality: t, DataPoints: ph}, exp, wt, hs...)
	}
	vsym.Observe("exponential", exp)
	vsym.Reach("exported")
}

// VsymHistogramPoints exports histograms of two points.
//
//vsym:harness C24 time=120 ttime=400
//vsym:bound two points of a plain or exponential histogram over float values or integers of 8 bits, each with or without minimum and maximum, one attribute, two buckets (and one negative), and two exemplars
//vsym:assume floats are not NaN
func VsymHistogramPoints() {
	if vsym.Choose("float", 2) == 1 {
		vTwo(vFl)
	} else {
		vTwo(func(l string) int64 { return int64(int8(vsym.U8(l))) })
	}
}

// VsymHistograms exports histograms.
//
//vsym:harness C24 time=120 ttime=400
//vsym:bound one point of a plain or exponential histogram over float values or integers of 8 bits, with up to 2 buckets (and 1 negative), up to one attribute and one exemplar
//vsym:assume floats are not NaN
func VsymHistograms() {
	if vsym.Choose("float", 2) == 1 {
		vHistogram(vFl)
	} else {
		vHistogram(func(l string) int64 { return int64(int8(vsym.U8(l))) })
	}
}

// VsymSummary exports a summary of two points.
//
//vsym:harness C24 time=60 ttime=200
//vsym:bound two points with up to 2 quantiles each
//vsym:assume floats are not NaN
func VsymSummary() {
	type point struct {
		at          []vAttr
		start, time uint64
	}
	var w []point
	var l []metricdata.SummaryDataPoint
	for i := 0; i < 2; i++ {
		var p point
		d := metricdata.SummaryDataPoint{Count: vsym.U64("count"), Sum: vFl("sum")}
		p.at, d.Attributes = vFew("point")
		d.StartTime, p.start = vTime("start")
		d.Time, p.time = vTime("time")
		for k := vsym.Choose("quantiles", 3-i); k > 0; k-- {
			d.QuantileValues = append(d.QuantileValues, metricdata.QuantileValue{Quantile: vFl("quantile"), Value: vFl("value")})
		}
		w, l = append(w, p), append(l, d)
	}
	o := vOnly(metricdata.Metrics{Name: "m", Data: metricdata.Summary{DataPoints: l}}).GetSummary().GetDataPoints()
	vsym.Assert(len(o) == 2, "points are lost or added")
	for i, d := range o {
		vsym.Assert(vsym.And(vsym.And(d.StartTimeUnixNano == w[i].start, d.TimeUnixNano == w[i].time), vSame(w[i].at, d.Attributes)), "a summary point has another identity")
		vsym.Assert(vsym.And(d.Count == l[i].Count, d.Sum == l[i].Sum), "a summary point has another sum or count")
		vsym.Assert(len(d.QuantileValues) == len(l[i].QuantileValues), "a summary point has other quantiles")
		for k, q := range d.QuantileValues {
			x := l[i].QuantileValues[k]
			vsym.Assert(vsym.And(q.Quantile == x.Quantile, q.Value == x.Value), "a summary point has another quantile")
		}
	}
	vsym.Observe("points", len(o))
	vsym.Reach("exported")
}

// VsymErrors exports two scopes with valid and invalid metrics.
//
//vsym:harness C24 time=120 ttime=400
//vsym:bound two scopes, of up to two metrics and of one, valid ones, of any temporality, of an unknown type or without data; scope names, versions and schemas of 1 byte
func VsymErrors() {
	names := []string{"first", "second", "third", "fourth"}
	rm := &metricdata.ResourceMetrics{}
	type scope struct {
		is instrumentation.Scope
		ok []string
	}
	var want []scope
	var bad []string
	k := 0
	for i := 0; i < 2; i++ {
		s := scope{is: instrumentation.Scope{Name: vsym.Str("scope", 1), Version: vsym.Str("version", 1), SchemaURL: vsym.Str("schema", 1)}}
		sm := metricdata.ScopeMetrics{Scope: s.is}
		n := 1
		if i == 0 {
			n = vsym.Choose("metrics", 3)
		}
		for ; n > 0; n-- {
			m := metricdata.Metrics{Name: names[k]}
			k++
			typ := vsym.Choose("type", 6)
			var t metricdata.Temporality
			if typ >= 1 && typ <= 3 {
				t = metricdata.Temporality(vsym.U8("temporality"))
			}
			valid := t == metricdata.DeltaTemporality || t == metricdata.CumulativeTemporality
			switch typ {
			case 0:
				m.Data, valid = metricdata.Gauge[int64]{}, true
			case 1:
				m.Data = metricdata.Sum[float64]{Temporality: t}
			case 2:
				m.Data = metricdata.Histogram[int64]{Temporality: t}
			case 3:
				m.Data = metricdata.ExponentialHistogram[float64]{Temporality: t}
			case 4:
				m.Data, valid = nil, false
			case 5:
				m.Data, valid = metricdata.Summary{}, true
			}
			if valid {
				s.ok = append(s.ok, m.Name)
			} else {
				bad = append(bad, m.Name)
			}
			sm.Metrics = append(sm.Metrics, m)
		}
		rm.ScopeMetrics = append(rm.ScopeMetrics, sm)
		want = append(want, s)
	}
	out, err := ResourceMetrics(rm)
	vsym.Assert((err != nil) == (len(bad) != 0), "an error is reported wrongly")
	if err != nil {
		text := err.Error()
		for _, b := range bad {
			vsym.Assert(strings.Contains(text, b), "an error does not name a metric left out")
		}
	}
	vsym.Assert(len(out.GetScopeMetrics()) == 2, "scopes are lost or added")
	for i, s := range out.GetScopeMetrics() {
		w := want[i]
		vsym.Assert(vsym.And(vsym.And(s.GetScope().GetName() == w.is.Name, s.GetScope().GetVersion() == w.is.Version), s.GetSchemaUrl() == w.is.SchemaURL), "a scope has another identity")
		vsym.Assert(len(s.GetMetrics()) == len(w.ok), "a valid metric is left out or an invalid one exported")
		for j, m := range s.GetMetrics() {
			vsym.Assert(m.GetName() == w.ok[j], "metrics are exported out of order")
		}
	}
	vsym.Observe("bad", len(bad))
	vsym.Reach("exported")
}
