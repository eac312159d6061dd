package keys

import (
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/vsym"
)

var vRes = []v1.RESOURCE{1, 2, 12}

func vEnc(s *Sample, r v1.RESOURCE, id uint64) []byte {
	return append([]byte{}, s.WithResource(r).WithID(id).Encode()...)
}

// VsymKeyInjective: sample keys of any two kinds and ids.
//
//vsym:harness C28 time=200 ttime=700 qtime=1500
//vsym:bound two sample keys of 3x3 kinds with one and two digit numbers, ids any 64-bit values
func VsymKeyInjective() {
	ra := vRes[vsym.Choose("a.kind", len(vRes))]
	rb := vRes[vsym.Choose("b.kind", len(vRes))]
	a, b := vsym.U64("a"), vsym.U64("b")
	ea, eb := vEnc(New(), ra, a), vEnc(New(), rb, b)
	vsym.Assert(vsym.Not(vsym.And(vsym.EqBytes(ea, eb), vsym.Or(ra != rb, a != b))), "two different sample keys share an encoding")
	vsym.Reach("done")
}

// VsymKeyReuse: pooled encoders behave like fresh ones; the prefix of a kind
// is a prefix of exactly its own keys.
//
//vsym:harness C28 time=60 ttime=300
//vsym:bound an encoder used for another key (reset, released or neither) before; ids any 64-bit value
func VsymKeyReuse() {
	ra := vRes[vsym.Choose("a.kind", len(vRes))]
	rb := vRes[vsym.Choose("b.kind", len(vRes))]
	b := vsym.U64("b")
	want := vEnc(&Sample{}, rb, b)
	x := New()
	vEnc(x, ra, vsym.U64In("a", 0, 1<<40))
	switch vsym.Choose("how", 4) {
	case 0:
		x.Reset()
	case 1:
		x.Release()
		x = New()
	case 2:
		x.Prefix()
	}
	vsym.Assert(vsym.EqBytes(vEnc(x, rb, b), want), "a reused encoder encodes differently")
	vsym.Assert(vsym.EqBytes([]byte(x.String()), want), "the text of a key is not its encoding")
	p := append([]byte{}, New().WithResource(ra).Prefix()...)
	has := false
	if len(p) <= len(want) {
		has = vsym.EqBytes(p, want[:len(p)])
	}
	vsym.Assert(vsym.Iff(has, ra == rb), "the prefix of a kind selects keys of another one")
	vsym.Reach("done")
}
