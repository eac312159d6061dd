package tracetransform

import (
	"time"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
	"go.opentelemetry.io/otel/sdk/instrumentation"
	"go.opentelemetry.io/otel/sdk/resource"
	tracesdk "go.opentelemetry.io/otel/sdk/trace"
	"go.opentelemetry.io/otel/sdk/trace/tracetest"
	"go.opentelemetry.io/otel/trace"
	cpb "go.opentelemetry.io/proto/otlp/common/v1"
	tpb "go.opentelemetry.io/proto/otlp/trace/v1"

	_ "github.com/gernest/requiemdb/internal/vmodel/vattr"
	"github.com/gernest/requiemdb/internal/vsym"
)

// vFl is any float that is not NaN (which no comparison finds).
func vFl(l string) float64 {
	f := vsym.F64(l)
	vsym.Assume(f == f)
	return f
}

// vTime is a time and its wire form.
func vTime(l string) (time.Time, uint64) {
	s, n := vsym.U64In(l, 0, 9000000000), vsym.U64In(l+".ns", 0, 999999999)
	return time.Unix(int64(s), int64(n)), s*1000000000 + n
}

type vAttr struct {
	key  string
	kind int
	b    []bool
	i    []int64
	f    []float64
	s    []string
}

// vAttrOf makes an attribute of a kind: 0 to 3 a scalar, 4 to 7 a slice, 8 nothing.
func vAttrOf(key string, kind, n int) (a vAttr, kv attribute.KeyValue) {
	a = vAttr{key: key, kind: kind}
	for k := 0; k < n; k++ {
		switch kind & 3 {
		case 0:
			a.b = append(a.b, vsym.Bool("bool"))
		case 1:
			a.i = append(a.i, vsym.I64("int"))
		case 2:
			a.f = append(a.f, vFl("float"))
		case 3:
			a.s = append(a.s, vsym.Str("string", vsym.Choose("len", 2)))
		}
	}
	k := attribute.Key(key)
	switch kind {
	case 0:
		kv = k.Bool(a.b[0])
	case 1:
		kv = k.Int64(a.i[0])
	case 2:
		kv = k.Float64(a.f[0])
	case 3:
		kv = k.String(a.s[0])
	case 4:
		kv = k.BoolSlice(a.b)
	case 5:
		kv = k.Int64Slice(a.i)
	case 6:
		kv = k.Float64Slice(a.f)
	case 7:
		kv = k.StringSlice(a.s)
	case 8:
		kv.Key = k
	}
	return
}

func (a vAttr) same(kv *cpb.KeyValue) bool {
	if kv.GetKey() != a.key {
		return false
	}
	v := kv.GetValue()
	one := func(v *cpb.AnyValue, k int) bool {
		switch x := v.GetValue().(type) {
		case *cpb.AnyValue_BoolValue:
			return a.kind&3 == 0 && vsym.Iff(x.BoolValue, a.b[k])
		case *cpb.AnyValue_IntValue:
			return a.kind&3 == 1 && x.IntValue == a.i[k]
		case *cpb.AnyValue_DoubleValue:
			return a.kind&3 == 2 && x.DoubleValue == a.f[k]
		case *cpb.AnyValue_StringValue:
			return a.kind&3 == 3 && x.StringValue == a.s[k]
		}
		return false
	}
	switch {
	case a.kind == 8:
		_, ok := v.GetValue().(*cpb.AnyValue_StringValue)
		return ok && v.GetStringValue() == "INVALID"
	case a.kind < 4:
		return one(v, 0)
	}
	l, ok := v.GetValue().(*cpb.AnyValue_ArrayValue)
	if !ok {
		return false
	}
	n := len(a.b) + len(a.i) + len(a.f) + len(a.s)
	if len(l.ArrayValue.GetValues()) != n {
		return false
	}
	r := true
	for k, x := range l.ArrayValue.GetValues() {
		r = vsym.And(r, one(x, k))
	}
	return r
}

func vSame(l []vAttr, got []*cpb.KeyValue) bool {
	if len(l) != len(got) {
		return false
	}
	r := true
	for i, a := range l {
		r = vsym.And(r, a.same(got[i]))
	}
	return r
}

// vContext is a span context with ids of which two bytes vary.
func vContext(l string) (trace.SpanContext, string) {
	var c trace.SpanContextConfig
	c.TraceID[0], c.TraceID[15] = vsym.U8(l+" trace"), vsym.U8(l+" trace")
	c.SpanID[0], c.SpanID[7] = vsym.U8(l+" span"), vsym.U8(l+" span")
	c.TraceFlags = trace.TraceFlags(vsym.U8(l + " flags"))
	c.Remote = vsym.Bool(l + " remote")
	state := []string{"", "a=1", "b=2,c=3"}[vsym.Choose(l+" state", 3)]
	ts, err := trace.ParseTraceState(state)
	vsym.Assert(err == nil, "a valid trace state is none")
	c.TraceState = ts
	return trace.NewSpanContext(c), state
}

func vIDs(c trace.SpanContext, tid, sid []byte) bool {
	t, s := c.TraceID(), c.SpanID()
	return vsym.And(vsym.EqBytes(t[:], tid), vsym.EqBytes(s[:], sid))
}

func vAttrs(n int) (as []vAttr, kvs []attribute.KeyValue) {
	for i := 0; i < n; i++ {
		kind := vsym.Choose("kind", 9)
		m := 1
		if kind >= 4 {
			m = vsym.Choose("values", 3)
		}
		a, kv := vAttrOf(vsym.Str("key", 1), kind, m)
		as, kvs = append(as, a), append(kvs, kv)
	}
	return
}

// vOne is an attribute or none.
func vOne(l string) (as []vAttr, kvs []attribute.KeyValue) {
	if vsym.Choose(l, 2) == 0 {
		return nil, nil
	}
	a, kv := vAttrOf(vsym.Str("key", 1), 1, 1)
	return []vAttr{a}, []attribute.KeyValue{kv}
}

// vExport exports one span.
func vExport(s tracetest.SpanStub) *tpb.Span {
	out := Spans([]tracesdk.ReadOnlySpan{s.Snapshot()})
	vsym.Assert(len(out) == 1 && len(out[0].GetScopeSpans()) == 1 && len(out[0].ScopeSpans[0].GetSpans()) == 1, "a span is lost or repeated")
	return out[0].ScopeSpans[0].Spans[0]
}

// VsymSpan exports a span.
//
//vsym:harness C25 time=60 ttime=300
//vsym:bound a span with any two bytes of its ids and those of its parent, a trace state of up to two members, names and messages of up to one byte, any kind and status, times of 1970 to 2255, any counts below 2^32, up to one attribute of any kind (thorough: two)
//vsym:assume floats are not NaN
func VsymSpan() {
	var s tracetest.SpanStub
	var state string
	s.SpanContext, state = vContext("span")
	if vsym.Choose("parent", 2) == 1 {
		s.Parent, _ = vContext("parent")
	}
	s.Name = vsym.Str("name", vsym.Choose("named", 2))
	s.SpanKind = trace.SpanKind(int(int8(vsym.U8("kind"))))
	var start, end uint64
	s.StartTime, start = vTime("start")
	s.EndTime, end = vTime("end")
	s.Status = tracesdk.Status{Code: codes.Code(vsym.U32("code")), Description: vsym.Str("description", 1)}
	da, de, dl := vsym.U32("dropped attributes"), vsym.U32("dropped events"), vsym.U32("dropped links")
	s.DroppedAttributes, s.DroppedEvents, s.DroppedLinks = int(da), int(de), int(dl)
	as, kvs := vAttrs(vsym.Choose("attributes", vsym.Bound(2, 3)))
	s.Attributes = kvs
	d := vExport(s)
	vsym.Assert(vIDs(s.SpanContext, d.TraceId, d.SpanId), "a span has another id")
	vsym.Assert(d.TraceState == state, "a span has another trace state")
	pid := s.Parent.SpanID()
	if pid.IsValid() {
		vsym.Assert(vsym.EqBytes(pid[:], d.ParentSpanId), "a span has another parent")
		vsym.Reach("parent")
	} else {
		vsym.Assert(len(d.ParentSpanId) == 0, "a root span has a parent")
	}
	vsym.Assert(d.Name == s.Name, "a span has another name")
	vsym.Assert(vsym.And(d.StartTimeUnixNano == start, d.EndTimeUnixNano == end), "a span has other times")
	kinds := map[trace.SpanKind]tpb.Span_SpanKind{
		trace.SpanKindInternal: tpb.Span_SPAN_KIND_INTERNAL, trace.SpanKindServer: tpb.Span_SPAN_KIND_SERVER, trace.SpanKindClient: tpb.Span_SPAN_KIND_CLIENT,
		trace.SpanKindProducer: tpb.Span_SPAN_KIND_PRODUCER, trace.SpanKindConsumer: tpb.Span_SPAN_KIND_CONSUMER,
	}
	vsym.Assert(d.Kind == kinds[s.SpanKind], "a span has another kind")
	code := tpb.Status_STATUS_CODE_UNSET
	switch s.Status.Code {
	case codes.Ok:
		code = tpb.Status_STATUS_CODE_OK
	case codes.Error:
		code = tpb.Status_STATUS_CODE_ERROR
	}
	vsym.Assert(vsym.And(d.GetStatus().GetCode() == code, d.GetStatus().GetMessage() == s.Status.Description), "a span has another status")
	vsym.Assert(vsym.And(vsym.And(d.DroppedAttributesCount == da, d.DroppedEventsCount == de), d.DroppedLinksCount == dl), "a span has other dropped counts")
	vsym.Assert(vSame(as, d.Attributes), "a span has other attributes")
	vsym.Assert(len(d.Events) == 0 && len(d.Links) == 0, "events or links appear")
	vsym.Observe("kind", int(d.Kind))
	vsym.Reach("exported")
}

// VsymEvents exports a span with events and links.
//
//vsym:harness C25 time=60 ttime=300
//vsym:bound up to 2 events and 2 links with up to one attribute each
func VsymEvents() {
	var s tracetest.SpanStub
	type event struct {
		as      []vAttr
		time    uint64
		state   string
		dropped uint32
	}
	var es, ls []event
	for n := vsym.Choose("events", 3); n > 0; n-- {
		var e event
		x := tracesdk.Event{Name: vsym.Str("event", 1)}
		e.as, x.Attributes = vOne("event attribute")
		x.Time, e.time = vTime("event time")
		e.dropped = vsym.U32("event dropped")
		x.DroppedAttributeCount = int(e.dropped)
		s.Events, es = append(s.Events, x), append(es, e)
	}
	for n := vsym.Choose("links", 3); n > 0; n-- {
		var e event
		var x tracesdk.Link
		e.as, x.Attributes = vOne("link attribute")
		x.SpanContext, e.state = vContext("link")
		e.dropped = vsym.U32("link dropped")
		x.DroppedAttributeCount = int(e.dropped)
		s.Links, ls = append(s.Links, x), append(ls, e)
	}
	d := vExport(s)
	vsym.Assert(len(d.Events) == len(es), "events are lost or added")
	for i, e := range d.Events {
		vsym.Assert(vsym.And(e.Name == s.Events[i].Name, e.TimeUnixNano == es[i].time), "an event is different")
		vsym.Assert(vsym.And(e.DroppedAttributesCount == es[i].dropped, vSame(es[i].as, e.Attributes)), "an event has other attributes")
	}
	vsym.Assert(len(d.Links) == len(ls), "links are lost or added")
	for i, e := range d.Links {
		vsym.Assert(vIDs(s.Links[i].SpanContext, e.TraceId, e.SpanId), "a link leads to another span")
		vsym.Assert(e.TraceState == ls[i].state, "a link has another trace state")
		vsym.Assert(vsym.And(e.DroppedAttributesCount == ls[i].dropped, vSame(ls[i].as, e.Attributes)), "a link has other attributes")
	}
	vsym.Observe("events", len(d.Events))
	vsym.Observe("links", len(d.Links))
	vsym.Reach("exported")
}

// VsymGroups exports spans of some resources and scopes.
//
//vsym:harness C25 time=100 ttime=500
//vsym:bound three spans (thorough: four), each of a resource with up to one attribute and schema of up to one byte or of none, and of a scope with a name, version and schema of one byte or of none; missing spans between
func VsymGroups() {
	n := vsym.Bound(3, 4)
	names := []string{"first", "second", "third", "fourth"}
	type span struct {
		as   []vAttr
		url  string
		is   instrumentation.Scope
		seen bool
	}
	var want []span
	var l []tracesdk.ReadOnlySpan
	for i := 0; i < n; i++ {
		var w span
		s := tracetest.SpanStub{Name: names[i]}
		if vsym.Choose("resource", 2) == 1 {
			var kvs []attribute.KeyValue
			w.as, kvs = vOne("resource attribute")
			w.url = vsym.Str("resource schema", vsym.Choose("has schema", 2))
			s.Resource = resource.NewWithAttributes(w.url, kvs...)
		}
		if vsym.Choose("scope", 2) == 1 {
			w.is = instrumentation.Scope{Name: vsym.Str("scope", 1), Version: vsym.Str("version", 1), SchemaURL: vsym.Str("schema", 1)}
			s.InstrumentationLibrary = w.is
		}
		want = append(want, w)
		l = append(l, s.Snapshot())
	}
	if vsym.Choose("missing", 2) == 1 {
		l = append(append(l[:1:1], nil), l[1:]...)
	}
	out := Spans(l)
	total := 0
	last := -1
	for _, r := range out {
		for _, sc := range r.GetScopeSpans() {
			last = -1
			for _, d := range sc.GetSpans() {
				total++
				i := 0
				for i < n && names[i] != d.Name {
					i++
				}
				vsym.Assert(i < n && !want[i].seen, "a span is repeated or made up")
				w := &want[i]
				w.seen = true
				vsym.Assert(i > last, "spans of a scope are out of order")
				last = i
				vsym.Assert(vSame(w.as, r.GetResource().GetAttributes()), "a span is under a resource with other attributes")
				vsym.Assert(r.GetSchemaUrl() == w.url, "a span is under a resource with another schema")
				vsym.Assert(vsym.And(vsym.And(sc.GetScope().GetName() == w.is.Name, sc.GetScope().GetVersion() == w.is.Version), sc.GetSchemaUrl() == w.is.SchemaURL), "a span is under another scope")
			}
		}
	}
	vsym.Assert(total == n, "a span is lost")
	vsym.Observe("resources", len(out))
	vsym.Reach("exported")
}
