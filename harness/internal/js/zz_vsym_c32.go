package js

import (
	"errors"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/vsym"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// vItem is one data point, log record or span with all a filter sees of it.
type vItem struct {
	schema, rattr string // of its resource
	scope, sattr  string
	name, attr    string // severity text for logs
	ts            uint64
	tag           uint64
}

func vKV(v string) []*commonv1.KeyValue {
	return []*commonv1.KeyValue{{Key: "k", Value: &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: v}}}}
}

// vData is a sample of two items, in a resource and scope each.
func vData(kind int, a [2]vItem) *v1.Data {
	switch kind {
	case 0:
		d := &metricsv1.MetricsData{}
		for _, i := range a {
			d.ResourceMetrics = append(d.ResourceMetrics, &metricsv1.ResourceMetrics{
				SchemaUrl: i.schema, Resource: &resourcev1.Resource{Attributes: vKV(i.rattr)},
				ScopeMetrics: []*metricsv1.ScopeMetrics{{
					Scope: &commonv1.InstrumentationScope{Name: i.scope, Attributes: vKV(i.sattr)},
					Metrics: []*metricsv1.Metric{{Name: i.name, Data: &metricsv1.Metric_Gauge{Gauge: &metricsv1.Gauge{
						DataPoints: []*metricsv1.NumberDataPoint{{TimeUnixNano: i.ts, StartTimeUnixNano: i.tag, Attributes: vKV(i.attr)}},
					}}}},
				}},
			})
		}
		return &v1.Data{Data: &v1.Data_Metrics{Metrics: d}}
	case 1:
		d := &logsv1.LogsData{}
		for _, i := range a {
			d.ResourceLogs = append(d.ResourceLogs, &logsv1.ResourceLogs{
				SchemaUrl: i.schema, Resource: &resourcev1.Resource{Attributes: vKV(i.rattr)},
				ScopeLogs: []*logsv1.ScopeLogs{{
					Scope:      &commonv1.InstrumentationScope{Name: i.scope, Attributes: vKV(i.sattr)},
					LogRecords: []*logsv1.LogRecord{{TimeUnixNano: i.ts, ObservedTimeUnixNano: i.tag, SeverityText: i.name, Attributes: vKV(i.attr)}},
				}},
			})
		}
		return &v1.Data{Data: &v1.Data_Logs{Logs: d}}
	}
	d := &tracev1.TracesData{}
	for _, i := range a {
		d.ResourceSpans = append(d.ResourceSpans, &tracev1.ResourceSpans{
			SchemaUrl: i.schema, Resource: &resourcev1.Resource{Attributes: vKV(i.rattr)},
			ScopeSpans: []*tracev1.ScopeSpans{{
				Scope: &commonv1.InstrumentationScope{Name: i.scope, Attributes: vKV(i.sattr)},
				Spans: []*tracev1.Span{{StartTimeUnixNano: i.ts, EndTimeUnixNano: i.tag, Name: i.name, Attributes: vKV(i.attr)}},
			}},
		})
	}
	return &v1.Data{Data: &v1.Data_Traces{Traces: d}}
}

// vTags are the tags of the items of a sample, in order.
func vTags(kind int, d *v1.Data) (l []uint64) {
	switch kind {
	case 0:
		for _, r := range d.GetMetrics().GetResourceMetrics() {
			for _, s := range r.GetScopeMetrics() {
				for _, m := range s.GetMetrics() {
					for _, p := range m.GetGauge().GetDataPoints() {
						l = append(l, p.GetStartTimeUnixNano())
					}
				}
			}
		}
	case 1:
		for _, r := range d.GetLogs().GetResourceLogs() {
			for _, s := range r.GetScopeLogs() {
				for _, p := range s.GetLogRecords() {
					l = append(l, p.GetObservedTimeUnixNano())
				}
			}
		}
	case 2:
		for _, r := range d.GetTraces().GetResourceSpans() {
			for _, s := range r.GetScopeSpans() {
				for _, p := range s.GetSpans() {
					l = append(l, p.GetEndTimeUnixNano())
				}
			}
		}
	}
	return
}

func vSomeItem(l string, tag uint64) vItem {
	return vItem{
		schema: vsym.Str(l+".schema", 1), rattr: vsym.Str(l+".rattr", 1),
		scope: vsym.Str(l+".scope", 1), sattr: vsym.Str(l+".sattr", 1),
		name: vsym.Str(l+".name", 1), attr: vsym.Str(l+".attr", 1),
		ts: vsym.U64In(l+".ts", 0, 1<<62), tag: tag,
	}
}

// vSomeFilter appends a filter and returns which items match it.
func vSomeFilter(l string, kind int, s *v1.Scan, it [2]vItem) (m [2]bool) {
	v := vsym.Str(l, 1)
	prop := v1.Scan_NAME
	if kind == 1 {
		prop = v1.Scan_LOGS_LEVEL
	}
	n := vsym.Choose(l+".on", 6)
	for i, x := range it {
		m[i] = []string{x.name, x.schema, x.scope, x.attr, x.rattr, x.sattr}[n] == v
	}
	switch n {
	case 1:
		prop = v1.Scan_RESOURCE_SCHEMA
	case 2:
		prop = v1.Scan_SCOPE_NAME
	case 3:
		s.Filters = append(s.Filters, vAttrF(v1.Scan_ATTRIBUTES, "k", v))
		return
	case 4:
		s.Filters = append(s.Filters, vAttrF(v1.Scan_RESOURCE_ATTRIBUTES, "k", v))
		return
	case 5:
		s.Filters = append(s.Filters, vAttrF(v1.Scan_SCOPE_ATTRIBUTES, "k", v))
		return
	}
	s.Filters = append(s.Filters, vBaseF(prop, v))
	return
}

func vStamp(l string) (*timestamppb.Timestamp, uint64) {
	s := 1<<30 + vsym.U64In(l+".s", 0, 255)
	n := vsym.U64In(l+".ns", 0, 255)
	return &timestamppb.Timestamp{Seconds: int64(s), Nanos: int32(n)}, s*1000000000 + n
}

// VsymScripted issues a scan, after another one, from a reused engine.
//
//vsym:harness C32 time=200 ttime=600
//vsym:bound the last scan of an engine: any kind, no range or any range or the default window before any now (and three offsets), zero or one filter (thorough: two) over six properties with any one byte value, on a sample of two items of any one byte labels and any time, window bounds within 256 s and 256 ns of one instant; the scan before it (same or pooled engine): any filter and range, succeeded or failed
//vsym:assume the data a store answers with is arbitrary and independent of the scan; a scan without a range carries its own now
func VsymScripted() {
	kind := vsym.Choose("kind", 3)
	items := [2]vItem{vSomeItem("a", 1), vSomeItem("b", 2)}
	data := vData(kind, items)

	var asked *v1.Scan
	var fail error
	answer := data
	fn := func(s *v1.Scan) (*v1.Data, error) {
		asked = s
		if fail != nil {
			return nil, fail
		}
		return answer, nil
	}
	vm := (&JS{}).WithScan(fn)

	// a scan before
	before := vsym.Choose("before", 4)
	if before > 0 {
		first := &v1.Scan{Filters: []*v1.Scan_Filter{
			vBaseF(v1.Scan_SCOPE_NAME, vsym.Str("old", 1)),
			vAttrF(v1.Scan_ATTRIBUTES, "k", vsym.Str("old", 1)),
			vAttrF(v1.Scan_RESOURCE_ATTRIBUTES, "k", vsym.Str("old", 1)),
		}}
		first.TimeRange = &v1.Scan_TimeRange{}
		first.TimeRange.Start = &timestamppb.Timestamp{Seconds: 7}
		first.TimeRange.End = &timestamppb.Timestamp{Seconds: 9}
		old := errors.New("old")
		if before == 2 {
			fail = old
		}
		answer = vData(kind, [2]vItem{})
		_, err := vm.Scan(first)
		answer = data
		vsym.Assert((err != nil) == (before == 2), "a failed scan gives no error, or one that succeeds does")
		fail = nil
		if before == 3 {
			vm.Release()
			vm = New()
			_, err := vm.Scan(first)
			vsym.Assert(err != nil, "a released engine still uses the store of its last user")
			vm.WithScan(fn)
		}
	}

	s := &v1.Scan{Scope: []v1.Scan_SCOPE{v1.Scan_METRICS, v1.Scan_LOGS, v1.Scan_TRACES}[kind]}
	var match [2]bool
	match[0], match[1] = true, true
	nf := vsym.Choose("filters", vsym.Bound(2, 3))
	for i := 0; i < nf; i++ {
		m := vSomeFilter([]string{"f", "g"}[i], kind, s, items)
		if i == 1 {
			// two values for one property are alternatives to the engine
			vsym.Assume(vOther(s.Filters[0], s.Filters[1]))
		}
		match[0], match[1] = vsym.And(match[0], m[0]), vsym.And(match[1], m[1])
	}
	whole := false
	var start, end uint64
	switch vsym.Choose("window", 3) {
	case 0:
		s.TimeRange = &v1.Scan_TimeRange{}
		s.TimeRange.Start, start = vStamp("start")
		s.TimeRange.End, end = vStamp("end")
	case 1:
		s.Now, end = vStamp("now")
		start = end - uint64(15*time.Minute)
		whole = nf == 0
	case 2:
		s.Now, end = vStamp("now")
		off := []uint64{1, 61, 900}[vsym.Choose("off", vsym.Bound(1, 3))]
		s.Offset = &durationpb.Duration{Seconds: int64(off)}
		end -= off * 1000000000
		start = end - uint64(15*time.Minute)
		whole = nf == 0
	}
	copied := vCopy(s)
	got, err := vm.Scan(s)
	vsym.Assert(err == nil, "a scan that succeeded returns an error")
	vsym.Assert(vSame(asked, copied), "the store is asked for another scan than the script's")
	tags := vTags(kind, got)
	vsym.Observe("tags", tags)
	for i, it := range items {
		want := whole
		if !whole {
			want = vsym.And(match[i], vsym.And(it.ts >= start, it.ts < end))
		}
		n := uint64(0)
		for _, t := range tags {
			if t == it.tag {
				n++
			}
		}
		vsym.Assert(vsym.Implies(want, n == 1), "a matching item is missing from a scripted scan")
		vsym.Assert(vsym.Implies(vsym.Not(want), n == 0), "an item that does not match is in a scripted scan")
	}
	vsym.Assert(len(tags) <= 2, "a scripted scan returns more items than the sample has")
}

// vOther: two filters are about different properties.
func vOther(a, b *v1.Scan_Filter) bool {
	x, y := a.GetBase(), b.GetBase()
	if (x == nil) != (y == nil) {
		return true
	}
	if x != nil {
		return x.Prop != y.Prop
	}
	return a.GetAttr().Prop != b.GetAttr().Prop
}

// VsymPooled uses an engine after another user of it.
//
//vsym:harness C32 time=60
//vsym:bound an engine with any clock within 2^31 s, output, store and last scan or without, released and taken from the pool again
func VsymPooled() {
	a := &JS{}
	if vsym.Choose("clock", 2) == 1 {
		at := time.Unix(int64(vsym.U64In("at", 0, 1<<31)), int64(vsym.U64In("ns", 0, 999999999))).UTC()
		a.WithNow(func() time.Time { return at })
		vsym.Assert(a.GetNow().Equal(at), "an engine does not use the clock it was given")
	}
	var out vOut
	if vsym.Choose("output", 2) == 1 {
		a.WithOutput(&out)
	}
	if vsym.Choose("store", 2) == 1 {
		a.WithScan(func(*v1.Scan) (*v1.Data, error) { return &v1.Data{}, nil })
	}
	if vsym.Choose("scanned", 2) == 1 {
		a.Scan(&v1.Scan{TimeRange: &v1.Scan_TimeRange{Start: &timestamppb.Timestamp{Seconds: 7}, End: &timestamppb.Timestamp{Seconds: 9}}})
	}
	a.Release()
	b := New()
	before := time.Now()
	now := b.GetNow()
	after := time.Now()
	vsym.Assert(vsym.And(!now.Before(before), !now.After(after)), "an engine still uses the clock of its last user")
	b.Print("x")
	vsym.Assert(out.n == 0, "an engine still writes to the output of its last user")
	_, err := b.Scan(&v1.Scan{})
	vsym.Assert(err != nil, "a released engine still uses the store of its last user")
	vsym.Observe("written", out.n)
	vsym.Reach("done")
}

type vOut struct{ n int }

func (o *vOut) Write(b []byte) (int, error) {
	o.n += len(b)
	return len(b), nil
}
