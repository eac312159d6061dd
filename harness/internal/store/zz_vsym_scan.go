package store

import (
	"context"
	"path/filepath"
	"slices"
	"time"

	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"

	"github.com/dgraph-io/badger/v4"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/samples"
	"github.com/gernest/requiemdb/internal/shards"
	"github.com/gernest/requiemdb/internal/translate"
	"github.com/gernest/requiemdb/internal/view"
	"github.com/gernest/requiemdb/internal/vmodel"
	_ "github.com/gernest/requiemdb/internal/vmodel/varrow"
	"github.com/gernest/requiemdb/internal/vsym"
)

// ---- a store on two directories ----

type vStore struct {
	dir string
	db  *badger.DB
	tr  *translate.Translate
	rdb *shards.Shards
	s   *Storage
}

func vOpen(dir string) *vStore {
	v := &vStore{dir: dir}
	v.open()
	return v
}

func (v *vStore) open() {
	var err error
	v.db = vmodel.OpenDB(filepath.Join(v.dir, "db"))
	v.tr, err = translate.New(v.db, []byte("5"))
	vsym.Assert(err == nil, "opening fails")
	v.rdb = shards.New(filepath.Join(v.dir, "index"), nil)
	v.s, err = NewStore(v.db, v.rdb, v.tr, nil, func() time.Time { return vT0 })
	vsym.Assert(err == nil, "opening fails")
}

func (v *vStore) close() {
	v.s.Close()
	v.rdb.Close()
	vsym.Assert(v.tr.Close() == nil, "closing fails")
	v.db.Close()
}

func (v *vStore) save(l ...*vSample) error {
	if !vsym.Symbolic() && !vQuiet {
		time.Sleep(5 * time.Millisecond) // caches settle in the background
	}
	list := samples.Get()
	for _, s := range l {
		list.Items = append(list.Items, &v1.Sample{Id: s.id, Data: proto.Clone(s.data()).(*v1.Data)})
	}
	return v.s.SaveSamples(context.Background(), list)
}

// ---- samples with one item each ----

// vQuiet is set while answers depend on the schedule.
var vQuiet bool

// vT0 is the start of the last hour of a year.
var vT0 = time.Date(2024, 12, 31, 23, 0, 0, 0, time.UTC)

const (
	vMetrics = iota
	vTraces
	vLogs
)

var vScopes = []v1.Scan_SCOPE{v1.Scan_METRICS, v1.Scan_TRACES, v1.Scan_LOGS}

// vPlain is a printable string without characters with a special encoding.
func vPlain(l string) string {
	s := vsym.Str(l, 1)
	vsym.Assume(vsym.And(vsym.And(s[0] != '=', s[0] != '\\'), vsym.And(s[0] >= 32, s[0] < 127)))
	return s
}

type vSample struct {
	id   uint64
	kind int
	ts   uint64
	tag  int64  // tells items apart
	name string // of the metric or span; severity of a log record
	attr string // value of the attribute "a" of the item
	res  string // value of the attribute "r" of the resource
	lib  string // name of the scope
	ts2  uint64 // time of a second item, if any
}

// item2 is the second item of a sample alone.
func (s *vSample) item2() *vSample {
	t := *s
	t.ts, t.tag, t.ts2 = s.ts2, s.tag+vSecond, 0
	return &t
}

// vSecond is added to the tag of second items.
const vSecond = 100

func (s *vSample) points() (l []*metricsv1.NumberDataPoint) {
	l = append(l, &metricsv1.NumberDataPoint{TimeUnixNano: s.ts, Attributes: vAttrs("a", s.attr), Value: &metricsv1.NumberDataPoint_AsInt{AsInt: s.tag}})
	if s.ts2 != 0 {
		l = append(l, s.item2().points()...)
	}
	return
}

func (s *vSample) spans() (l []*tracev1.Span) {
	l = append(l, s.span())
	if s.ts2 != 0 {
		l = append(l, s.item2().span())
	}
	return
}

func (s *vSample) records() (l []*logsv1.LogRecord) {
	l = append(l, s.record())
	if s.ts2 != 0 {
		l = append(l, s.item2().record())
	}
	return
}

func vAttrs(k, v string) []*commonv1.KeyValue {
	return []*commonv1.KeyValue{{Key: k, Value: &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: v}}}}
}

func (s *vSample) resource() *resourcev1.Resource {
	return &resourcev1.Resource{Attributes: vAttrs("r", s.res)}
}

func (s *vSample) scope() *commonv1.InstrumentationScope {
	return &commonv1.InstrumentationScope{Name: s.lib}
}

func (s *vSample) metric() *metricsv1.Metric {
	return &metricsv1.Metric{Name: s.name, Data: &metricsv1.Metric_Gauge{Gauge: &metricsv1.Gauge{DataPoints: s.points()}}}
}

func (s *vSample) span() *tracev1.Span {
	return &tracev1.Span{
		Name: s.name, StartTimeUnixNano: s.ts, EndTimeUnixNano: s.ts, Attributes: vAttrs("a", s.attr),
		TraceId: []byte{1}, SpanId: []byte{2}, ParentSpanId: []byte{3}, Flags: uint32(s.tag), Status: &tracev1.Status{},
	}
}

func (s *vSample) record() *logsv1.LogRecord {
	return &logsv1.LogRecord{
		SeverityText: s.name, TimeUnixNano: s.ts, Attributes: vAttrs("a", s.attr),
		TraceId: []byte{1}, SpanId: []byte{2}, Flags: uint32(s.tag),
		Body: &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: "x"}},
	}
}

func (s *vSample) data() *v1.Data {
	switch s.kind {
	case vMetrics:
		return &v1.Data{Data: &v1.Data_Metrics{Metrics: &metricsv1.MetricsData{ResourceMetrics: []*metricsv1.ResourceMetrics{{
			Resource: s.resource(), ScopeMetrics: []*metricsv1.ScopeMetrics{{Scope: s.scope(), Metrics: []*metricsv1.Metric{s.metric()}}},
		}}}}}
	case vTraces:
		return &v1.Data{Data: &v1.Data_Traces{Traces: &tracev1.TracesData{ResourceSpans: []*tracev1.ResourceSpans{{
			Resource: s.resource(), ScopeSpans: []*tracev1.ScopeSpans{{Scope: s.scope(), Spans: s.spans()}},
		}}}}}
	}
	return &v1.Data{Data: &v1.Data_Logs{Logs: &logsv1.LogsData{ResourceLogs: []*logsv1.ResourceLogs{{
		Resource: s.resource(), ScopeLogs: []*logsv1.ScopeLogs{{Scope: s.scope(), LogRecords: s.records()}},
	}}}}}
}

// ---- results ----

type vItem struct {
	kind int
	tag  int64
	res  *resourcev1.Resource
	sc   *commonv1.InstrumentationScope
	item proto.Message
}

// vItems lists the items of a result.
func vItems(d *v1.Data) (l []vItem) {
	for _, r := range d.GetMetrics().GetResourceMetrics() {
		for _, s := range r.ScopeMetrics {
			for _, m := range s.Metrics {
				for _, p := range m.GetGauge().GetDataPoints() {
					c := &metricsv1.Metric{Name: m.Name, Description: m.Description, Unit: m.Unit,
						Data: &metricsv1.Metric_Gauge{Gauge: &metricsv1.Gauge{DataPoints: []*metricsv1.NumberDataPoint{p}}}}
					l = append(l, vItem{vMetrics, p.GetAsInt(), r.Resource, s.Scope, c})
				}
			}
		}
	}
	for _, r := range d.GetTraces().GetResourceSpans() {
		for _, s := range r.ScopeSpans {
			for _, m := range s.Spans {
				l = append(l, vItem{vTraces, int64(m.Flags), r.Resource, s.Scope, m})
			}
		}
	}
	for _, r := range d.GetLogs().GetResourceLogs() {
		for _, s := range r.ScopeLogs {
			for _, m := range s.LogRecords {
				l = append(l, vItem{vLogs, int64(m.Flags), r.Resource, s.Scope, m})
			}
		}
	}
	return
}

func (s *vSample) item() proto.Message {
	if s.ts2 != 0 {
		t := *s
		t.ts2 = 0
		return t.item()
	}
	switch s.kind {
	case vMetrics:
		return s.metric()
	case vTraces:
		return s.span()
	}
	return s.record()
}

// vCheck compares a result with the samples it must and may have.
func vCheck(d *v1.Data, all []*vSample, must, may func(*vSample) bool) {
	found := make([]bool, len(all))
	second := make([]bool, len(all))
	for _, x := range vItems(d) {
		i := 0
		for i < len(all) && all[i].tag != x.tag%vSecond {
			i++
		}
		vsym.Assert(i < len(all), "a scan returns something that was not saved")
		s, found := all[i], found
		if x.tag > vSecond {
			s, found = s.item2(), second
		}
		vsym.Assert(x.kind == s.kind, "a scan returns a sample of another kind")
		vsym.Assert(!found[i], "a scan returns a sample twice")
		found[i] = true
		vsym.Assert(proto.Equal(x.item, s.item()), "a scan returns a sample changed")
		vsym.Assert(proto.Equal(x.res, s.resource()) && proto.Equal(x.sc, s.scope()), "a scan returns a sample with another resource or scope")
		vsym.Assert(may(s), "a scan returns a sample not matching its filters")
	}
	for i, s := range all {
		if s.ts2 != 0 {
			vsym.Assert(found[i] == second[i], "a scan returns part of a sample")
		}
		if must(s) {
			vsym.Assert(found[i], "a scan does not return a matching sample")
		}
	}
	if !vQuiet {
		vsym.Observe("found", found)
	}
}

// ---- filters ----

type vFilter struct {
	what int
	v    string
}

func (f vFilter) filter(kind int) *v1.Scan_Filter {
	base := func(p v1.Scan_BaseProp) *v1.Scan_Filter {
		return &v1.Scan_Filter{Value: &v1.Scan_Filter_Base{Base: &v1.Scan_BaseFilter{Prop: p, Value: f.v}}}
	}
	attr := func(p v1.Scan_AttributeProp, k string) *v1.Scan_Filter {
		return &v1.Scan_Filter{Value: &v1.Scan_Filter_Attr{Attr: &v1.Scan_AttrFilter{Prop: p, Key: k, Value: f.v}}}
	}
	switch f.what {
	case 0:
		if kind == vLogs {
			return base(v1.Scan_LOGS_LEVEL)
		}
		return base(v1.Scan_NAME)
	case 1:
		return attr(v1.Scan_ATTRIBUTES, "a")
	case 2:
		return attr(v1.Scan_RESOURCE_ATTRIBUTES, "r")
	}
	return base(v1.Scan_SCOPE_NAME)
}

func (f vFilter) match(s *vSample) bool {
	switch f.what {
	case 0:
		return f.v == s.name
	case 1:
		return f.v == s.attr
	case 2:
		return f.v == s.res
	}
	return f.v == s.lib
}

// vQuery is a scan.
type vQuery struct {
	kind int
	fs   []vFilter
}

func vNewQuery(kind, max, fields int) *vQuery {
	q := &vQuery{kind: kind}
	what := -1
	for i, n := 0, vsym.Choose("filters", max+1); i < n && what < fields-1; i++ {
		what += 1 + vsym.Choose("what", fields-1-what)
		q.fs = append(q.fs, vFilter{what, vPlain("filter")})
	}
	return q
}

func (q *vQuery) scan() *v1.Scan {
	s := &v1.Scan{Scope: vScopes[q.kind]}
	for _, f := range q.fs {
		s.Filters = append(s.Filters, f.filter(q.kind))
	}
	return s
}

func (q *vQuery) match(s *vSample) bool {
	if s.kind != q.kind {
		return false
	}
	for _, f := range q.fs {
		if !f.match(s) {
			return false
		}
	}
	return true
}

// vGen makes samples. The field with the number sym is symbolic.
type vGen struct {
	id  uint64
	all []*vSample
}

// add makes a sample. Two of its texts are symbolic.
func (g *vGen) add(kind int, hour int) *vSample {
	s := &vSample{id: g.id, kind: kind, tag: int64(len(g.all) + 1), name: "n", attr: "v", res: "w", lib: "l"}
	g.id++
	s.ts = uint64(vT0.Add(time.Duration(hour)*time.Hour).UnixNano()) + vsym.U64In("sec", 0, 3599)*1e9 + vsym.U64In("ns", 0, 999999999)
	g.all = append(g.all, s)
	return s
}

// VsymScan saves samples and scans for them.
//
//vsym:harness C01,C02 time=300 ttime=850 paths=200000 tpaths=2000000 samples=10
//vsym:bound 2 (thorough 3) samples with one item each of the 3 kinds, in one or two batches; name or severity, an item attribute, a resource attribute or the scope name an arbitrary character; the last hour of a year or 3 hours later, any nanosecond; scans of any kind with up to 2 filters on these fields for arbitrary characters, over the hour of the first sample or over all
//vsym:assume characters are printable, without = and backslash (encoded specially, decided by C28)
func VsymScan() {
	v := vOpen(vsym.TempDir())
	g := &vGen{id: uint64(vsym.Choose("first id", 2)) * 3}
	kind := vsym.Choose("kind", 3)
	q := vNewQuery(kind, 2, 4)
	n := vsym.Bound(2, 3)
	for i := 0; i < n; i++ {
		k, h := kind, 0
		if i > 0 {
			k = (kind + vsym.Choose("next kind", 2)) % 3
			h = 3 * vsym.Choose("hour", 2)
		}
		s := g.add(k, h)
		g.symbolic(s, q)
	}
	if vsym.Choose("batches", 2) == 0 {
		vsym.Assert(v.save(g.all...) == nil, "saving fails")
	} else {
		vsym.Assert(v.save(g.all[0]) == nil, "saving fails")
		vsym.Assert(v.save(g.all[1:]...) == nil, "saving fails")
	}
	scan := q.scan()
	end := vT0.Add(59 * time.Minute)
	wide := vsym.Choose("wide", 2) == 1
	if wide {
		end = vT0.Add(4 * time.Hour)
	}
	scan.TimeRange = &v1.Scan_TimeRange{Start: timestamppb.New(vT0), End: timestamppb.New(end)}
	d, err := v.s.Scan(context.Background(), scan)
	vsym.Assert(err == nil, "a scan fails")
	vCheck(d, g.all, func(s *vSample) bool {
		return q.match(s) && s.ts <= uint64(end.UnixNano())
	}, q.match)
	v.close()
	vsym.Reach("done")
}

// VsymSpread saves samples whose items are hours apart.
//
//vsym:harness C01,C02 time=120 ttime=300
//vsym:bound one or two samples of one kind, each with two items in either order, in any nanosecond of the last hour of a year or of one of the two hours after it; scans over the hour of the earliest item of a sample, or over all, in one or two batches
func VsymSpread() {
	v := vOpen(vsym.TempDir())
	g := &vGen{}
	kind := vsym.Choose("kind", 3)
	q := &vQuery{kind: kind}
	n := 1 + vsym.Choose("samples", 2)
	var first []int
	for i := 0; i < n; i++ {
		h := vsym.Choose("hour", 2)
		h2 := h + []int{0, 1, -1, 2}[vsym.Choose("second hour", 4-h)]
		if h2 < 0 {
			h, h2 = 1, 0
		}
		s := g.add(kind, h)
		s.ts2 = uint64(vT0.Add(time.Duration(h2)*time.Hour).UnixNano()) + vsym.U64In("sec", 0, 3599)*1e9 + vsym.U64In("ns", 0, 999999999)
		first = append(first, min(h, h2))
	}
	if vsym.Choose("batches", n) == 0 {
		vsym.Assert(v.save(g.all...) == nil, "saving fails")
	} else {
		vsym.Assert(v.save(g.all[0]) == nil, "saving fails")
		vsym.Assert(v.save(g.all[1:]...) == nil, "saving fails")
	}
	scan := q.scan()
	start, end := vT0, vT0.Add(5*time.Hour)
	at := vsym.Choose("window", n+1)
	if at > 0 {
		start = vT0.Add(time.Duration(first[at-1]) * time.Hour)
		end = start.Add(59 * time.Minute)
	}
	scan.TimeRange = &v1.Scan_TimeRange{Start: timestamppb.New(start), End: timestamppb.New(end)}
	d, err := v.s.Scan(context.Background(), scan)
	vsym.Assert(err == nil, "a scan fails")
	vCheck(d, g.all, func(s *vSample) bool {
		t := min(s.ts, s.ts2)
		return t >= uint64(start.UnixNano()) && t <= uint64(end.UnixNano())
	}, q.match)
	v.close()
	vsym.Reach("done")
}

// symbolic makes the fields of a sample the query asks for arbitrary.
func (g *vGen) symbolic(s *vSample, q *vQuery) {
	for _, f := range q.fs {
		x := vPlain("text")
		switch f.what {
		case 0:
			s.name = x
		case 1:
			s.attr = x
		case 2:
			s.res = x
		case 3:
			s.lib = x
		}
	}
}

// VsymInstant scans without a time range.
//
//vsym:harness C03 time=300 ttime=850 paths=200000 tpaths=2000000 samples=10
//vsym:bound 2 (thorough 3) samples with one item each of any kind, in one or two batches, each in any nanosecond of the hour of the scan, the hour before or 3 hours later; now any second of the hour, with an offset of 0 or 1 hour; up to 1 (thorough 2) filters for arbitrary characters
//vsym:assume characters are printable, without = and backslash (encoded specially, decided by C28)
func VsymInstant() {
	v := vOpen(vsym.TempDir())
	g := &vGen{id: uint64(vsym.Choose("first id", vsym.Bound(1, 2))) * 3}
	kind := vsym.Choose("kind", 3)
	q := vNewQuery(kind, vsym.Bound(1, 2), 4)
	hours := map[*vSample]int{}
	for i := 0; i < vsym.Bound(2, 3); i++ {
		k := (kind + vsym.Choose("next kind", 2)) % 3
		h := []int{0, -1, 3}[vsym.Choose("hour", 3)]
		s := g.add(k, h)
		hours[s] = h
		g.symbolic(s, q)
	}
	if vsym.Choose("batches", 2) == 0 {
		vsym.Assert(v.save(g.all...) == nil, "saving fails")
	} else {
		vsym.Assert(v.save(g.all[0]) == nil, "saving fails")
		vsym.Assert(v.save(g.all[1:]...) == nil, "saving fails")
	}
	scan := q.scan()
	sec := vsym.U64In("now", 0, 3599)
	now := vT0.Add(time.Duration(sec) * time.Second)
	if vsym.Choose("offset", 2) == 1 {
		scan.Offset = durationpb.New(time.Hour)
		now = now.Add(time.Hour)
	}
	scan.Now = timestamppb.New(now)
	d, err := v.s.Scan(context.Background(), scan)
	vsym.Assert(err == nil, "a scan fails")
	// the partitions of the last 15 minutes
	var last *vSample
	for _, s := range g.all {
		if (hours[s] == 0 || hours[s] == -1 && sec < 900) && q.match(s) {
			last = s
		}
	}
	is := func(s *vSample) bool { return s == last }
	vCheck(d, g.all, is, is)
	v.close()
	vsym.Reach("done")
}

// VsymScanRestart compares scans and labels before and after a restart.
//
//vsym:harness C19 time=300 ttime=850 paths=200000 tpaths=2000000 samples=10
//vsym:bound 2 samples with one item each of any kind, in two batches; a restart after the second, or after both, clean or without releasing the label sequence; scans of every kind with up to 1 (thorough 2) filters for arbitrary characters, and the labels of every sample
//vsym:assume characters are printable, without = and backslash (encoded specially, decided by C28)
func VsymScanRestart() {
	v := vOpen(vsym.TempDir())
	g := &vGen{}
	kind := vsym.Choose("kind", 3)
	q := vNewQuery(kind, vsym.Bound(1, 2), 4)
	s := g.add(kind, 0)
	g.symbolic(s, q)
	vsym.Assert(v.save(s) == nil, "saving fails")
	mode := vsym.Choose("restart", 3)
	restart := func() {
		if mode == 1 {
			// the process is killed
			v.rdb.Close()
			v.db.Close()
		} else {
			v.close()
		}
		v.open()
	}
	if mode == 2 {
		restart()
	}
	s = g.add((kind+vsym.Choose("next kind", 2))%3, 3*vsym.Choose("hour", 2))
	g.symbolic(s, q)
	vsym.Assert(v.save(s) == nil, "saving fails")
	scan := q.scan()
	scan.TimeRange = &v1.Scan_TimeRange{Start: timestamppb.New(vT0), End: timestamppb.New(vT0.Add(4 * time.Hour))}
	d, err := v.s.Scan(context.Background(), scan)
	vsym.Assert(err == nil, "a scan fails")
	vCheck(d, g.all, q.match, q.match)
	labels := vLabels(v, g.all)
	restart()
	first := vsym.Choose("first", 2)
	if first == 1 {
		vsym.Assert(slices.Equal(labels, vLabels(v, g.all)), "labels change with a restart")
	}
	e, err := v.s.Scan(context.Background(), scan)
	vsym.Assert(err == nil, "a scan fails after a restart")
	vCheck(e, g.all, q.match, q.match)
	vsym.Assert(proto.Equal(d, e), "a result changes with a restart")
	if first == 0 {
		vsym.Assert(slices.Equal(labels, vLabels(v, g.all)), "labels change with a restart")
	}
	v.close()
	vsym.Reach("done")
}

// vLabels lists the labels of all samples.
func vLabels(v *vStore, all []*vSample) (l []string) {
	for _, s := range all {
		for _, w := range view.Std(time.Unix(0, int64(s.ts)).UTC()) {
			x, err := v.s.Labels(w, s.id)
			vsym.Assert(err == nil, "reading labels fails")
			vsym.Assert(len(x) == 5 || s.kind != vMetrics && len(x) >= 5, "a sample has no labels")
			l = append(l, x...)
		}
	}
	return
}
