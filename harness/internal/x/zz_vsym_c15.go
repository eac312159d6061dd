package x

import (
	"time"

	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/vsym"
)

const vMax = 253402300799 // end of year 9999

func vStamp(l string) (*timestamppb.Timestamp, int64, int64) {
	s := int64(vsym.U64In(l+".s", 0, vMax))
	n := int64(vsym.U64In(l+".ns", 0, 999999999))
	return &timestamppb.Timestamp{Seconds: s, Nanos: int32(n)}, s, n
}

func vIs(t time.Time, s, n int64) bool {
	return vsym.And(t.Unix() == s, int64(t.Nanosecond()) == n)
}

// VsymTimeBounds computes the window of any scan.
//
//vsym:harness C15 time=200 ttime=600
//vsym:bound now, clock, start and end in any nanosecond of 1970 to 9999, offsets of up to 292 years either way (0 to 999999999 ns and whole seconds, both signs); all other fields arbitrary
//vsym:assume a range has both a start and an end
func VsymTimeBounds() {
	scan := &v1.Scan{
		Scope:   v1.Scan_SCOPE(vsym.Choose("scope", 3)),
		Limit:   vsym.U64("limit"),
		Reverse: vsym.Bool("reverse"),
	}
	_, cs, cn := vStamp("clock")
	clock := time.Unix(cs, cn).UTC()
	ns, nn := cs, cn
	if vsym.Bool("has now") {
		scan.Now, ns, nn = vStamp("now")
	}
	if vsym.Bool("has offset") {
		os := int64(vsym.U64In("offset.s", 0, 9000000000))
		on := int64(vsym.U64In("offset.ns", 0, 999999999))
		if vsym.Choose("negative", 2) == 1 {
			os, on = -os, -on
		}
		scan.Offset = &durationpb.Duration{Seconds: os, Nanos: int32(on)}
		// now - offset, normalised
		ns, nn = ns-os, nn-on
		up := nn >= 1000000000
		down := nn < 0
		ns = vsym.IteI64(up, ns+1, vsym.IteI64(down, ns-1, ns))
		nn = vsym.IteI64(up, nn-1000000000, vsym.IteI64(down, nn+1000000000, nn))
	}
	var ws, wn, es, en int64 = ns - 900, nn, ns, nn
	if vsym.Bool("has range") {
		r := &v1.Scan_TimeRange{}
		r.Start, ws, wn = vStamp("start")
		r.End, es, en = vStamp("end")
		scan.TimeRange = r
	}
	calls := 0
	start, end := TimeBounds(func() time.Time { calls++; return clock }, scan)
	vsym.Assert(vIs(end, es, en), "the window ends elsewhere")
	vsym.Assert(vIs(start, ws, wn), "the window starts elsewhere")
	vsym.Observe("end", end.Unix())
	vsym.Reach("done")
}
