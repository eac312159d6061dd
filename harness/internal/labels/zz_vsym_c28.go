package labels

import (
	"strings"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/vsym"
)

var vRes = []v1.RESOURCE{0, 1, 2, 12}
var vPre = []v1.PREFIX{0, 1, 2, 13, 21}

type vLabel struct {
	r    v1.RESOURCE
	p    v1.PREFIX
	k, v string
}

func vNew(l string, n int) vLabel {
	return vLabel{
		r: vRes[vsym.Choose(l+".kind", len(vRes))],
		p: vPre[vsym.Choose(l+".prefix", len(vPre))],
		k: vsym.Str(l+".k", vsym.Choose(l+".klen", n+1)),
		v: vsym.Str(l+".v", vsym.Choose(l+".vlen", n+1)),
	}
}

func (l vLabel) encode(x *Label) []byte {
	return append([]byte{}, x.WithResource(l.r).WithPrefix(l.p).WithKey(l.k).WithValue(l.v).Encode()...)
}

// VsymLabelInjective: labels of one kind and property (any, thorough: of two
// kinds and properties).
//
//vsym:harness C28 time=150 ttime=700
//vsym:bound two labels of the same kind and prefix; keys and values of 0 to 2 (thorough 3) bytes each, every byte symbolic ('=', ':' and backslash included)
func VsymLabelInjective() {
	n := vsym.Bound(2, 3)
	a := vNew("a", n)
	b := vLabel{r: a.r, p: a.p, k: vsym.Str("b.k", vsym.Choose("b.klen", n+1)), v: vsym.Str("b.v", vsym.Choose("b.vlen", n+1))}
	var x Label
	ea, eb := a.encode(&x), b.encode(NewLabel())
	same := vsym.And(a.k == b.k, a.v == b.v)
	vsym.Assert(vsym.Iff(vsym.EqBytes(ea, eb), same), "two different labels share an encoding")
	vsym.Reach("done")
	vsym.Observe("a", ea)
}

// VsymLabelLong: labels of any length.
//
//vsym:harness C28 time=60 ttime=200
//vsym:bound two labels of one kind and property; key, value or both start with the same 15, 16, 63, 64, 255, 256, 300, 4096 or 70000 bytes and end with 0 or 1 (thorough 2) symbolic ones
func VsymLabelLong() {
	n := vsym.Bound(2, 3)
	pad := strings.Repeat("x", []int{15, 16, 63, 64, 255, 256, 300, 4096, 70000}[vsym.Choose("long", 9)])
	where := 1 + vsym.Choose("where", 3)
	mk := func(l string) vLabel {
		x := vLabel{r: vRes[1], p: vPre[2], k: vsym.Str(l+".k", vsym.Choose(l+".klen", n)), v: vsym.Str(l+".v", vsym.Choose(l+".vlen", n))}
		if where&1 != 0 {
			x.k = pad + x.k
		}
		if where&2 != 0 {
			x.v = pad + x.v
		}
		return x
	}
	a, b := mk("a"), mk("b")
	var x Label
	ea, eb := a.encode(&x), b.encode(NewLabel())
	same := vsym.And(a.k == b.k, a.v == b.v)
	vsym.Assert(vsym.Iff(vsym.EqBytes(ea, eb), same), "two different long labels share an encoding")
	vsym.Reach("done")
	vsym.Observe("same", same)
}

// VsymLabelKinds: labels of different kinds or properties.
//
//vsym:harness C28 time=150 ttime=700
//vsym:bound two labels of 4x5 kinds and prefixes with one and two digit numbers; keys of 0 to 3 (thorough 4) bytes, no value or a one-byte value
func VsymLabelKinds() {
	n := vsym.Bound(3, 4)
	mk := func(l string) vLabel {
		return vLabel{
			r: vRes[vsym.Choose(l+".kind", len(vRes))],
			p: vPre[vsym.Choose(l+".prefix", len(vPre))],
			k: vsym.Str(l+".k", vsym.Choose(l+".klen", n)),
			v: vsym.Str(l+".v", vsym.Choose(l+".vlen", 2)),
		}
	}
	a := mk("a")
	b := vLabel{r: vRes[vsym.Choose("b.kind", len(vRes))], p: vPre[vsym.Choose("b.prefix", len(vPre))], k: vsym.Str("b.k", vsym.Choose("b.klen", n)), v: a.v}
	vsym.Assume(a.r != b.r || a.p != b.p)
	var x Label
	ea, eb := a.encode(&x), b.encode(NewLabel())
	vsym.Assert(!vsym.EqBytes(ea, eb), "labels of different kinds or properties share an encoding")
	vsym.Reach("done")
}

// VsymLabelReuse: an encoder that was used before encodes like a fresh one.
//
//vsym:harness C28 time=60 ttime=300
//vsym:bound a label encoded by an encoder that encoded (and was reset, released, or neither) another label before; keys and values of 0 to 2 bytes
func VsymLabelReuse() {
	a, b := vNew("a", 2), vNew("b", 1)
	var f Label
	want := b.encode(&f)
	x := NewLabel()
	a.encode(x)
	switch vsym.Choose("how", 3) {
	case 0:
		x.Reset()
		vsym.Assert(vsym.EqBytes([]byte(x.String()), []byte((&Label{}).String())), "a reset label keeps something")
	case 1:
		x.Release()
		x = NewLabel()
		vsym.Assert(vsym.EqBytes([]byte(x.String()), []byte((&Label{}).String())), "a pooled label keeps something")
	}
	got := b.encode(x)
	vsym.Assert(vsym.EqBytes(got, want), "a reused encoder encodes differently")
	vsym.Assert(vsym.EqBytes([]byte(x.String()), want), "the text of a label is not its encoding")
	vsym.Reach("done")
}
