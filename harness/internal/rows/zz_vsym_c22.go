package rows

import (
	"github.com/gernest/requiemdb/internal/vsym"
)

type vPair struct{ col, val uint64 }

// vPairs is a map from columns to values, in the order of the columns.
func vPairs(l string, n int, bits uint) (r []vPair) {
	for i := 0; i < n; i++ {
		p := vPair{vsym.U64In(l+".col", 0, 4*vWidth), vsym.U64In(l+".val", 0, 1<<bits-1)}
		if i > 0 {
			vsym.Assume(p.col > r[i-1].col)
		}
		r = append(r, p)
	}
	return
}

func vBuild(b *BsiBuilder, l []vPair) BSIData {
	for _, p := range l {
		b.Insert(p.col, p.val)
	}
	return b.Build()
}

func vValue(l []vPair, col uint64) (v uint64) {
	for _, p := range l {
		v += vsym.IteU64(p.col == col, p.val, 0)
	}
	return
}

// vBits reads the value of a column.
func vBits(d BSIData, col uint64) (v uint64) {
	for i, r := range d {
		v |= vsym.IteU64(r.Includes(col), 1<<uint(i), 0)
	}
	return
}

// VsymAdd builds and adds integer maps.
//
//vsym:harness C22 time=240 ttime=700
//vsym:bound two maps of up to 2 columns within 4 shards, at most 3 together (thorough: 4), values of 2 bits (thorough: 3 bits); builders used once or again; afterwards a bit is set in the sum or in an operand
func VsymAdd() {
	bits := uint(vsym.Bound(2, 3))
	nx := vsym.Choose("nx", 3)
	px := vPairs("x", nx, bits)
	py := vPairs("y", vsym.Choose("ny", vsym.Bound(min(3, 4-nx), 3)), bits)
	var bx, by BsiBuilder
	if nx < 2 && vsym.Choose("used builder", 2) == 1 {
		vBuild(&bx, []vPair{{7, 5}})
	}
	x, y := vBuild(&bx, px), vBuild(&by, py)
	p := vsym.U64In("probe", 0, 4*vWidth)
	vsym.Assert(vBits(x, p) == vValue(px, p), "a built map has a wrong value")
	z := AddBSI(x, y)
	want := vValue(px, p) + vValue(py, p)
	vsym.Assert(vBits(z, p) == want, "a sum is wrong")
	vsym.Assert(vsym.And(vBits(x, p) == vValue(px, p), vBits(y, p) == vValue(py, p)), "adding changes an operand")
	vsym.Reach("added")
	vsym.Observe("bits", len(z))
	if len(px)+len(py) > vsym.Bound(2, 4) {
		return
	}
	c := vsym.U64In("set", 0, 4*vWidth)
	switch k := vsym.Choose("change", 3); {
	case k == 0 && len(z) > 0:
		z[0].SetBit(c)
		vsym.Assert(vsym.And(vBits(x, p) == vValue(px, p), vBits(y, p) == vValue(py, p)), "changing a sum changes an operand")
	case k == 1 && len(x) > 0:
		x[0].SetBit(c)
		vsym.Assert(vBits(z, p) == want, "changing an operand changes the sum")
	case k == 2 && len(y) > 0:
		y[0].SetBit(c)
		vsym.Assert(vBits(z, p) == want, "changing an operand changes the sum")
	}
	vsym.Reach("changed")
}

// VsymBuilder builds rows of as many columns as make a builder change the way
// it keeps them.
//
//vsym:harness C22 time=60 ttime=200 steps=40000000
//vsym:bound 4094 to 4097 adjacent columns of one 65536-block, followed by a column in any of the next 4 places; a builder used for the first time or again
func VsymBuilder() {
	var b RowBuilder
	if vsym.Choose("used", 2) == 1 {
		for i := uint64(0); i < 4097; i++ {
			b.Add(i)
		}
		vsym.Assert(b.Build().Count() == 4097, "a row built from many columns misses some")
	}
	n := uint64(4094 + vsym.Choose("n", 4))
	const base = 3 << 16
	for i := uint64(0); i < n; i++ {
		b.Add(base + i)
	}
	last := base + n + vsym.U64In("column", 0, 3)
	b.Add(last)
	r := b.Build()
	vsym.Assert(r.Count() == n+1, "a row built from many columns has another number of columns")
	vsym.Assert(vsym.And(r.Includes(last), r.Includes(base+n-1)), "a row built from many columns misses one")
	vsym.Observe("columns", r.Count())
	vsym.Reach("built")
}

// VsymPivot reads a map back.
//
//vsym:harness C22 time=240 ttime=700
//vsym:bound a map of up to 3 columns within 4 shards with values of 2 bits; filters of up to 3 columns, in the map or not; with and without a limit and an offset of 0 to 4
func VsymPivot() {
	l := vPairs("x", vsym.Choose("n", vsym.Bound(3, 4)), 2)
	var b BsiBuilder
	d := vBuild(&b, l)
	var fc []uint64
	filter := NewRow()
	for _, p := range l {
		if vsym.Bool("filtered") {
			fc = append(fc, p.col)
			filter.SetBit(p.col)
		}
	}
	if vsym.Choose("other column", 2) == 1 {
		c := vsym.U64In("other", 0, 4*vWidth)
		filter.SetBit(c)
		fc = append(fc, c)
	}
	n := vSize(fc, func(uint64) bool { return true })
	limit, offset := uint64(5), uint64(0)
	var lp, op *uint64
	if vsym.Choose("limited", 2) == 1 {
		limit = vsym.U64In("limit", 0, 4)
		v := limit
		lp = &v
	}
	if vsym.Choose("skipping", 2) == 1 {
		offset = vsym.U64In("offset", 0, 4)
		v := offset
		op = &v
	}
	var got []vPair
	d.PivotDescending(filter, 0, lp, op, func(v uint64, cols ...uint64) {
		for _, c := range cols {
			got = append(got, vPair{c, v})
		}
	})
	vsym.Observe("n", len(got))
	// how many are to be listed
	rest := vsym.IteU64(n > offset, n-offset, 0)
	want := vsym.IteU64(rest > limit, limit, rest)
	vsym.Assert(uint64(len(got)) == want, "a wrong number of columns is listed")
	for i, g := range got {
		vsym.Assert(vIn(fc, g.col), "a column outside the filter is listed")
		vsym.Assert(g.val == vValue(l, g.col), "a column is listed under a wrong value")
		if i > 0 {
			q := got[i-1]
			vsym.Assert(vsym.Or(q.val > g.val, vsym.And(q.val == g.val, q.col < g.col)), "columns are listed out of order")
		}
		// exactly the columns before it in the order are skipped or listed before it
		before := vSize(fc, func(c uint64) bool {
			v := vValue(l, c)
			return vsym.Or(v > g.val, vsym.And(v == g.val, c < g.col))
		})
		vsym.Assert(before == offset+uint64(i), "a column is listed at a wrong place")
	}
	vsym.Reach("listed")
}
