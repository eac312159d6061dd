package js

import (
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/vsym"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// vScan is any state of a builder.
func vScan() *v1.Scan {
	s := &v1.Scan{
		Scope:   v1.Scan_SCOPE(vsym.Choose("scope", 3)),
		Limit:   vsym.U64("limit"),
		Reverse: vsym.Bool("reverse"),
	}
	switch vsym.Choose("has", 3) {
	case 1:
		s.Now = &timestamppb.Timestamp{Seconds: int64(vsym.U32("now"))}
		s.Offset = &durationpb.Duration{Seconds: int64(vsym.U32("offset"))}
	case 2:
		s.TimeRange = &v1.Scan_TimeRange{
			Start: &timestamppb.Timestamp{Seconds: int64(vsym.U32("from"))},
			End:   &timestamppb.Timestamp{Seconds: int64(vsym.U32("to"))},
		}
		s.Filters = []*v1.Scan_Filter{
			{Value: &v1.Scan_Filter_Base{Base: &v1.Scan_BaseFilter{Prop: v1.Scan_NAME, Value: vsym.Str("fv", 1)}}},
			{Value: &v1.Scan_Filter_Attr{Attr: &v1.Scan_AttrFilter{Prop: v1.Scan_ATTRIBUTES, Key: vsym.Str("fk", 1), Value: vsym.Str("fv", 1)}}},
		}
	}
	return s
}

// vCopy is a copy of a scan that shares nothing with it.
func vCopy(s *v1.Scan) *v1.Scan {
	o := &v1.Scan{Scope: s.Scope, Limit: s.Limit, Reverse: s.Reverse}
	if s.Now != nil {
		o.Now = &timestamppb.Timestamp{Seconds: s.Now.Seconds, Nanos: s.Now.Nanos}
	}
	if s.Offset != nil {
		o.Offset = &durationpb.Duration{Seconds: s.Offset.Seconds, Nanos: s.Offset.Nanos}
	}
	if r := s.TimeRange; r != nil {
		o.TimeRange = &v1.Scan_TimeRange{
			Start: &timestamppb.Timestamp{Seconds: r.Start.Seconds, Nanos: r.Start.Nanos},
			End:   &timestamppb.Timestamp{Seconds: r.End.Seconds, Nanos: r.End.Nanos},
		}
	}
	for _, f := range s.Filters {
		switch e := f.Value.(type) {
		case *v1.Scan_Filter_Base:
			o.Filters = append(o.Filters, vBaseF(e.Base.Prop, e.Base.Value))
		case *v1.Scan_Filter_Attr:
			o.Filters = append(o.Filters, vAttrF(e.Attr.Prop, e.Attr.Key, e.Attr.Value))
		}
	}
	return o
}

func vBaseF(p v1.Scan_BaseProp, v string) *v1.Scan_Filter {
	return &v1.Scan_Filter{Value: &v1.Scan_Filter_Base{Base: &v1.Scan_BaseFilter{Prop: p, Value: v}}}
}

func vAttrF(p v1.Scan_AttributeProp, k, v string) *v1.Scan_Filter {
	return &v1.Scan_Filter{Value: &v1.Scan_Filter_Attr{Attr: &v1.Scan_AttrFilter{Prop: p, Key: k, Value: v}}}
}

// vSame: two scans say the same.
func vSame(a, b *v1.Scan) bool {
	if a == nil || b == nil {
		return a == b
	}
	ok := vsym.And(a.Scope == b.Scope, vsym.And(a.Limit == b.Limit, a.Reverse == b.Reverse))
	ok = vsym.And(ok, vStampSame(a.Now, b.Now))
	if (a.Offset == nil) != (b.Offset == nil) || (a.TimeRange == nil) != (b.TimeRange == nil) || len(a.Filters) != len(b.Filters) {
		return false
	}
	if a.Offset != nil {
		ok = vsym.And(ok, vsym.And(a.Offset.Seconds == b.Offset.Seconds, a.Offset.Nanos == b.Offset.Nanos))
	}
	if a.TimeRange != nil {
		ok = vsym.And(ok, vStampSame(a.TimeRange.Start, b.TimeRange.Start))
		ok = vsym.And(ok, vStampSame(a.TimeRange.End, b.TimeRange.End))
	}
	for i := range a.Filters {
		switch x := a.Filters[i].Value.(type) {
		case *v1.Scan_Filter_Base:
			y, is := b.Filters[i].Value.(*v1.Scan_Filter_Base)
			if !is {
				return false
			}
			ok = vsym.And(ok, vsym.And(x.Base.Prop == y.Base.Prop, x.Base.Value == y.Base.Value))
		case *v1.Scan_Filter_Attr:
			y, is := b.Filters[i].Value.(*v1.Scan_Filter_Attr)
			if !is {
				return false
			}
			ok = vsym.And(ok, vsym.And(x.Attr.Prop == y.Attr.Prop, vsym.And(x.Attr.Key == y.Attr.Key, x.Attr.Value == y.Attr.Value)))
		default:
			return false
		}
	}
	return ok
}

func vStampSame(a, b *timestamppb.Timestamp) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return vsym.And(a.Seconds == b.Seconds, a.Nanos == b.Nanos)
}

// vMs is any number of milliseconds up to year 9999 and its timestamp.
func vMs(l string) (int64, *timestamppb.Timestamp) {
	s := int64(vsym.U64In(l+".s", 0, 253402300799))
	ms := int64(vsym.U64In(l+".ms", 0, 999))
	return s*1000 + ms, &timestamppb.Timestamp{Seconds: s, Nanos: int32(ms) * 1000000}
}

var vHours = []time.Time{
	time.Date(2024, 4, 3, 13, 0, 0, 0, time.UTC),   // Wednesday
	time.Date(2024, 3, 3, 0, 0, 0, 0, time.UTC),    // Sunday, week over no boundary
	time.Date(2024, 3, 2, 23, 0, 0, 0, time.UTC),   // Saturday: week starts in February
	time.Date(2025, 1, 1, 0, 0, 0, 0, time.UTC),    // Wednesday: week starts last year
	time.Date(2024, 2, 29, 5, 0, 0, 0, time.UTC),   // leap day
	time.Date(2024, 12, 31, 23, 0, 0, 0, time.UTC), // last hour of a year
	time.Date(1970, 1, 5, 1, 0, 0, 0, time.UTC),    // Monday, first week
	time.Date(2099, 10, 31, 12, 0, 0, 0, time.UTC),
}

// vTime is any instant of one of the hours above.
func vTime() time.Time {
	h := vHours[vsym.Choose("hour", len(vHours))].Unix()
	sec := int64(vsym.U64In("sec", 0, 3599))
	ns := int64(vsym.U64In("ns", 0, 999999999))
	return time.Unix(h+sec, ns).UTC()
}

// vDur is a duration in Go's syntax and its value.
func vDur() (string, time.Duration) {
	d := vsym.Str("digit", 1)
	vsym.Assume(vsym.And(d[0] >= '0', d[0] <= '9'))
	n := time.Duration(d[0] - '0')
	switch vsym.Choose("form", 6) {
	case 0:
		return d + "h", n * time.Hour
	case 1:
		return "2" + d + "m", (20 + n) * time.Minute
	case 2:
		return "-" + d + "s", -n * time.Second
	case 3:
		return "1h" + d + "ms", time.Hour + n*time.Millisecond
	case 4:
		return d + "us", n * time.Microsecond
	}
	return d + "ns", n
}

// VsymBuilder applies any single call to any builder.
//
//vsym:harness C16 time=150 ttime=500
//vsym:bound one call on a builder in any state (any kind, limit, ordering; with or without now, offset, range and two filters), hence any sequence of calls; arbitrary two byte strings and numbers; durations of six forms with an arbitrary digit; milliseconds from 1970 to 9999
func VsymBuilder() {
	s := &Scan{o: &JS{}, scan: vScan()}
	want := vCopy(s.scan)
	str := func() string { return vsym.Str("value", 2) }
	base := func(p v1.Scan_BaseProp, f func(string)) {
		v := str()
		f(v)
		want.Filters = append(want.Filters, vBaseF(p, v))
	}
	attr := func(p v1.Scan_AttributeProp, f func(k, v string)) {
		k, v := vsym.Str("key", 2), str()
		f(k, v)
		want.Filters = append(want.Filters, vAttrF(p, k, v))
	}
	switch vsym.Choose("call", 20) {
	case 0:
		switch vsym.Choose("kind", 3) {
		case 0:
			s.Resource("metrics")
			want.Scope = v1.Scan_METRICS
		case 1:
			s.Resource("logs")
			want.Scope = v1.Scan_LOGS
		case 2:
			s.Resource("traces")
			want.Scope = v1.Scan_TRACES
		}
	case 1:
		n := int64(vsym.U64In("n", 0, 1<<63-1))
		s.Limit(n)
		want.Limit = uint64(n)
	case 2:
		text, d := vDur()
		err := s.Offset(text)
		vsym.Assert(err == nil, "Offset refuses a valid duration")
		vsym.Assert(s.scan.Offset != nil, "Offset sets no offset")
		// durations are compared by value
		got := s.scan.Offset.Seconds*1000000000 + int64(s.scan.Offset.Nanos)
		vsym.Assert(got == int64(d), "Offset sets another duration than asked for")
		want.Offset = &durationpb.Duration{Seconds: s.scan.Offset.Seconds, Nanos: s.scan.Offset.Nanos}
	case 3:
		bad := []string{"", "1", "h", "1x", "1h-", "--1h"}[vsym.Choose("bad", 6)]
		err := s.Offset(bad)
		vsym.Assert(err != nil, "Offset accepts a malformed duration")
	case 4:
		ms, ts := vMs("at")
		s.Now(ms)
		want.Now = ts
	case 5:
		s.Reverse()
		want.Reverse = true
	case 6:
		base(v1.Scan_RESOURCE_SCHEMA, s.ResourceSchema)
	case 7:
		base(v1.Scan_SCOPE_SCHEMA, s.ScopeSchema)
	case 8:
		base(v1.Scan_SCOPE_NAME, s.ScopeName)
	case 9:
		base(v1.Scan_SCOPE_VERSION, s.ScopeVersion)
	case 10:
		base(v1.Scan_NAME, s.Name)
	case 11:
		base(v1.Scan_TRACE_ID, s.TraceID)
	case 12:
		base(v1.Scan_SPAN_ID, s.SpanID)
	case 13:
		base(v1.Scan_PARENT_SPAN_ID, s.ParentSpanID)
	case 14:
		base(v1.Scan_LOGS_LEVEL, s.LogLevel)
	case 15:
		attr(v1.Scan_RESOURCE_ATTRIBUTES, s.ResourceAttr)
	case 16:
		attr(v1.Scan_SCOPE_ATTRIBUTES, s.ScopeAttr)
	case 17:
		attr(v1.Scan_ATTRIBUTES, s.Attr)
	case 18:
		from, f := vMs("from")
		to, t := vMs("to")
		s.TimeRange(from, to)
		want.TimeRange = &v1.Scan_TimeRange{Start: f, End: t}
	case 19:
		kind := vsym.Choose("kind", 3)
		c := s.Create([]string{"metrics", "logs", "traces"}[kind])
		k := []v1.Scan_SCOPE{v1.Scan_METRICS, v1.Scan_LOGS, v1.Scan_TRACES}[kind]
		vsym.Assert(vSame(c.Scan(), &v1.Scan{Scope: k}), "Create does not start with an empty scan of the given kind")
		v := str()
		c.Name(v)
		c.Limit(9)
		vsym.Assert(vSame(c.Scan(), &v1.Scan{Scope: k, Limit: 9, Filters: []*v1.Scan_Filter{vBaseF(v1.Scan_NAME, v)}}), "a created builder does not build its own scan")
	}
	vsym.Assert(vSame(s.Scan(), want), "a builder call did not set exactly what it was asked for")
	vsym.Observe("limit", s.Scan().GetLimit())
	vsym.Observe("filters", len(s.Scan().GetFilters()))
	for _, f := range s.Scan().GetFilters() {
		vsym.Observe("base", f.GetBase().GetValue())
		vsym.Observe("attr", f.GetAttr().GetKey()+f.GetAttr().GetValue())
	}
	vsym.Observe("now", s.Scan().GetNow().GetSeconds())
}

// VsymRelative sets any relative range.
//
//vsym:harness C16 time=150 ttime=500
//vsym:bound a script clock anywhere (to the nanosecond) in one of eight hours next to boundaries of weeks, months and years; weeks start on Sunday or Monday; durations of six forms with an arbitrary digit
//vsym:assume the clock is in UTC
func VsymRelative() {
	ts := vTime()
	o := (&JS{}).WithNow(func() time.Time { return ts })
	if vsym.Choose("own clock", 2) == 1 {
		o = &JS{}
		vsym.NowIs(uint64(ts.UnixNano()))
		if !vsym.Symbolic() {
			o = o.WithNow(func() time.Time { return ts })
		}
	}
	s := &Scan{o: o, scan: &v1.Scan{
		Limit:     vsym.U64("limit"),
		Reverse:   vsym.Bool("reverse"),
		Now:       &timestamppb.Timestamp{Seconds: int64(vsym.U32("now"))},
		Offset:    &durationpb.Duration{Seconds: int64(vsym.U32("offset"))},
		TimeRange: &v1.Scan_TimeRange{Start: &timestamppb.Timestamp{Seconds: 1}, End: &timestamppb.Timestamp{Seconds: 2}},
		Filters:   []*v1.Scan_Filter{vBaseF(v1.Scan_NAME, vsym.Str("fv", 1))},
	}}
	want := vCopy(s.scan)
	var start time.Time
	call := vsym.Choose("call", 5)
	switch call {
	case 0:
		s.Today()
	case 1:
		s.ThisWeek()
	case 2:
		s.ThisMonth()
	case 3:
		s.ThisYear()
	case 4:
		text, d := vDur()
		vsym.Assert(s.Ago(text) == nil, "Ago refuses a valid duration")
		start = ts.Add(-d)
	}
	r := s.scan.TimeRange
	vsym.Assert(r != nil && r.Start != nil && r.End != nil, "a relative range sets no range")
	vsym.Observe("start", r.Start.Seconds)
	vsym.Observe("end", r.End.Seconds)
	want.TimeRange = &v1.Scan_TimeRange{Start: r.Start, End: r.End}
	vsym.Assert(vSame(s.Scan(), want), "a relative range changes another part of the scan")
	vsym.Assert(vsym.And(r.End.Seconds == ts.Unix(), int(r.End.Nanos) == ts.Nanosecond()), "a relative range does not end at the script's now")
	if call == 4 {
		vsym.Assert(vsym.And(r.Start.Seconds == start.Unix(), int(r.Start.Nanos) == start.Nanosecond()), "ago does not start the given duration before now")
		return
	}
	got := time.Unix(r.Start.Seconds, int64(r.Start.Nanos)).UTC()
	age := ts.Unix() - r.Start.Seconds
	vsym.Assert(vsym.And(r.Start.Nanos == 0, r.Start.Seconds%86400 == 0), "a relative range does not start at midnight")
	vsym.Assert(age >= 0, "a relative range starts after now")
	switch call {
	case 0:
		vsym.Assert(age < 86400, "today does not start today")
	case 1:
		day := got.Weekday()
		vsym.Assert(vsym.And(age < 7*86400, vsym.Or(day == time.Sunday, day == time.Monday)), "this week does not start at the beginning of the week")
	case 2:
		vsym.Assert(vsym.And(got.Day() == 1, vsym.And(got.Month() == ts.Month(), got.Year() == ts.Year())), "this month does not start on the first of the month")
	case 3:
		vsym.Assert(vsym.And(vsym.And(got.Day() == 1, got.Month() == time.January), got.Year() == ts.Year()), "this year does not start on the first of January")
	}
}
