package self

import (
	"context"
	"errors"
	"strings"
	"time"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/sdk/metric/metricdata"
	"go.opentelemetry.io/otel/sdk/resource"
	collector_metrics "go.opentelemetry.io/proto/otlp/collector/metrics/v1"
	mpb "go.opentelemetry.io/proto/otlp/metrics/v1"

	_ "github.com/gernest/requiemdb/internal/vmodel/vattr"
	"github.com/gernest/requiemdb/internal/vsym"
)

type vCollector struct {
	collector_metrics.UnsafeMetricsServiceServer
	got []*mpb.ResourceMetrics
	err error
}

func (c *vCollector) Export(_ context.Context, r *collector_metrics.ExportMetricsServiceRequest) (*collector_metrics.ExportMetricsServiceResponse, error) {
	if c.err != nil {
		return nil, c.err
	}
	c.got = append(c.got, r.GetResourceMetrics()...)
	return &collector_metrics.ExportMetricsServiceResponse{}, nil
}

// VsymExport exports collected metrics to a collector that keeps them.
//
//vsym:harness C24 time=60 ttime=300
//vsym:bound one resource and scope with a gauge, a histogram of 2 buckets with an exemplar and an exponential histogram of 1 and 1 buckets, any of them of an unknown temporality or missing; the collector fails or keeps what it is given; the collected values then change
func VsymExport() {
	var ms []metricdata.Metrics
	bad := ""
	temp := func(name string) metricdata.Temporality {
		t := metricdata.Temporality(vsym.U8("temporality"))
		if t != metricdata.DeltaTemporality && t != metricdata.CumulativeTemporality {
			bad = name
		}
		return t
	}
	has := func(l string) bool { return vsym.Choose(l, 2) == 1 }
	value := vsym.I64("gauge")
	points := []metricdata.DataPoint[int64]{{Time: time.Unix(1, 0), Value: value, Attributes: attribute.NewSet(attribute.Int("k", 1))}}
	h := metricdata.HistogramDataPoint[float64]{Count: 2, Bounds: []float64{float64(vsym.U8("bound"))}, BucketCounts: []uint64{vsym.U64("bucket"), vsym.U64("bucket")},
		Exemplars: []metricdata.Exemplar[float64]{{TraceID: vsym.Bytes("trace", 2), SpanID: vsym.Bytes("span", 2)}}}
	bound, b0, b1 := h.Bounds[0], h.BucketCounts[0], h.BucketCounts[1]
	trace, span := string(h.Exemplars[0].TraceID), string(h.Exemplars[0].SpanID)
	x := metricdata.ExponentialHistogramDataPoint[int64]{PositiveBucket: metricdata.ExponentialBucket{Counts: []uint64{vsym.U64("positive")}}, NegativeBucket: metricdata.ExponentialBucket{Counts: []uint64{vsym.U64("negative")}}}
	p0, n0 := x.PositiveBucket.Counts[0], x.NegativeBucket.Counts[0]
	var want []string
	if has("histogram") {
		ok := bad == ""
		ms = append(ms, metricdata.Metrics{Name: "histogram", Data: metricdata.Histogram[float64]{Temporality: temp("histogram"), DataPoints: []metricdata.HistogramDataPoint[float64]{h}}})
		if ok && bad == "" {
			want = append(want, "histogram")
		}
	}
	if has("exponential") {
		was := bad
		bad = ""
		ms = append(ms, metricdata.Metrics{Name: "exponential", Data: metricdata.ExponentialHistogram[int64]{Temporality: temp("exponential"), DataPoints: []metricdata.ExponentialHistogramDataPoint[int64]{x}}})
		if bad == "" {
			want = append(want, "exponential")
			bad = was
		}
	}
	if has("gauge") {
		ms = append(ms, metricdata.Metrics{Name: "gauge", Data: metricdata.Gauge[int64]{DataPoints: points}})
		want = append(want, "gauge")
	}
	rm := &metricdata.ResourceMetrics{Resource: resource.Empty(), ScopeMetrics: []metricdata.ScopeMetrics{{Metrics: ms}}}
	fails := errors.New("collector fails")
	c := &vCollector{}
	if has("fails") {
		c.err = fails
	}
	m := &Metrics{Collector: c}
	err := m.Export(context.Background(), rm)
	vsym.Observe("kept", len(c.got))
	if c.err != nil {
		vsym.Assert(err != nil && strings.Contains(err.Error(), fails.Error()), "a failure of the collector is not reported")
		vsym.Reach("failed")
		return
	}
	vsym.Assert((err != nil) == (bad != ""), "an invalid metric is reported wrongly")
	if err != nil {
		vsym.Assert(strings.Contains(err.Error(), bad), "an invalid metric is not named")
	}
	// the source is reused for the next collection
	points[0].Value++
	h.Bounds[0]++
	h.BucketCounts[0]++
	h.BucketCounts[1]++
	h.Exemplars[0].TraceID[0]++
	h.Exemplars[0].SpanID[1]++
	x.PositiveBucket.Counts[0]++
	x.NegativeBucket.Counts[0]++
	for i := range ms {
		ms[i] = metricdata.Metrics{}
	}
	var l []*mpb.Metric
	for _, r := range c.got {
		for _, s := range r.GetScopeMetrics() {
			l = append(l, s.GetMetrics()...)
		}
	}
	vsym.Assert(len(l) == len(want), "a valid metric is not exported, or an invalid one is")
	for i, w := range want {
		vsym.Assert(l[i].GetName() == w, "another metric is exported")
		switch w {
		case "gauge":
			vsym.Assert(l[i].GetGauge().GetDataPoints()[0].GetAsInt() == value, "an exported gauge changes later")
		case "histogram":
			d := l[i].GetHistogram().GetDataPoints()[0]
			vsym.Assert(vsym.And(d.BucketCounts[0] == b0, d.BucketCounts[1] == b1), "exported buckets change later")
			vsym.Assert(d.ExplicitBounds[0] == bound, "exported bounds change later")
			e := d.Exemplars[0]
			vsym.Assert(vsym.And(vsym.EqBytes(e.TraceId, []byte(trace)), vsym.EqBytes(e.SpanId, []byte(span))), "exported exemplars change later")
		case "exponential":
			d := l[i].GetExponentialHistogram().GetDataPoints()[0]
			vsym.Assert(vsym.And(d.Positive.BucketCounts[0] == p0, d.Negative.BucketCounts[0] == n0), "exported exponential buckets change later")
		}
	}
	vsym.Reach("exported")
}
