package rows

import (
	"github.com/gernest/roaring"

	"github.com/gernest/requiemdb/internal/vsym"
)

const vWidth = 1 << 20

// vCol is a column in one of 2^16 shards.
func vCol(l string) uint64 {
	return uint64(vsym.U16(l+" shard"))*vWidth + vsym.U64In(l, 0, vWidth-1)
}

// vCols is a list of n columns, in no particular order and maybe equal.
func vCols(l string, n int) (r []uint64) {
	for i := 0; i < n; i++ {
		r = append(r, vCol(l))
	}
	return
}

// vRowOf builds a row of the columns in one of the ways there are.
func vRowOf(how int, cols []uint64) *Row {
	if how == 1 {
		return NewRowFromBitmap(roaring.NewBitmap(cols...))
	}
	if how == 2 {
		r := NewRow()
		for _, c := range cols {
			r.SetBit(c)
		}
		return r
	}
	return NewRow(cols...)
}

func vIn(cols []uint64, p uint64) bool {
	r := false
	for _, c := range cols {
		r = vsym.Or(r, c == p)
	}
	return r
}

// vSize counts the different columns for which keep holds.
func vSize(cols []uint64, keep func(uint64) bool) (n uint64) {
	for i, c := range cols {
		n += vsym.IteU64(vsym.And(vsym.Not(vIn(cols[:i], c)), keep(c)), 1, 0)
	}
	return
}

// vIsSet checks that r has exactly the columns of all for which keep holds.
func vIsSet(what string, r *Row, all []uint64, p uint64, keep func(uint64) bool) {
	want := vsym.And(vIn(all, p), keep(p))
	vsym.Assert(vsym.Iff(r.Includes(p), want), what+" has a wrong column")
	n := vSize(all, keep)
	vsym.Assert(r.Count() == n, what+" counts wrongly")
	vsym.Assert(vsym.Iff(r.Any(), n != 0), what+" is wrong about being empty (Any)")
	vsym.Assert(vsym.Iff(r.IsEmpty(), n == 0), what+" is wrong about being empty (IsEmpty)")
}

// vHas checks the columns of r.
func vHas(what string, r *Row, all []uint64, p uint64, keep func(uint64) bool) {
	vsym.Assert(vsym.Iff(r.Includes(p), vsym.And(vIn(all, p), keep(p))), what+" is different")
}

// vIsList checks the list of columns of r.
func vIsList(what string, r *Row, p uint64, want bool, n uint64) {
	l := r.Columns()
	vsym.Assert(uint64(len(l)) == n, what+" lists a wrong number of columns")
	vsym.Assert(vsym.Iff(vIn(l, p), want), what+" lists a wrong column")
	s := r.ShardColumns()
	vsym.Assert(len(s) == len(l), what+" lists a wrong number of columns in shards")
	for i := range l {
		if i > 0 {
			vsym.Assert(l[i-1] < l[i], what+" lists columns out of order")
		}
		vsym.Assert(uint64(s[i]) == l[i]%vWidth, what+" lists a wrong column in its shard")
	}
}

// vOp applies one of the operations to a and b and says what columns the
// result has: those of all for which keep holds.
func vOp(op int, a, b *Row, ca, cb []uint64) (r *Row, all []uint64, keep func(uint64) bool, merged bool) {
	inA := func(x uint64) bool { return vIn(ca, x) }
	inB := func(x uint64) bool { return vIn(cb, x) }
	keep = func(uint64) bool { return true }
	switch op {
	case 0:
		r = a.Union(b)
		all = append(append(all, ca...), cb...)
	case 1:
		cc := vCols("c", 1)
		c := vRowOf(0, cc)
		if vsym.Bool("difference") {
			r = a.Difference(b, c)
			all = ca
			keep = func(x uint64) bool { return vsym.Not(vsym.Or(inB(x), vIn(cc, x))) }
		} else {
			r = a.Union(b, c)
			all = append(append(append(all, ca...), cb...), cc...)
		}
	case 2:
		r = a.Intersect(b)
		all = ca
		keep = inB
	case 3:
		r = a.Xor(b)
		all = append(append(all, ca...), cb...)
		keep = func(x uint64) bool { return vsym.Not(vsym.And(inA(x), inB(x))) }
	case 4:
		r = a.Difference(b)
		all = ca
		keep = func(x uint64) bool { return vsym.Not(inB(x)) }
	case 5:
		a.Merge(b)
		r, merged = a, true
		all = append(append(all, ca...), cb...)
	case 6:
		r = a.Clone()
		all = ca
	case 7:
		if vsym.Bool("difference") {
			r = a.Difference()
		} else {
			r = a.Union()
		}
		all = ca
	}
	return
}

// VsymAlgebra applies an operation to rows.
//
//vsym:harness C21 time=120 ttime=500
//vsym:bound rows of 1 or 2 columns in any of 65536 shards (1 in the second one where there is a third one; thorough: up to 3 in the first one); union with 0 to 2 rows, difference from 0 to 2 rows, intersection, symmetric difference, merge, clone
func VsymAlgebra() {
	op := vsym.Choose("op", 8)
	nb := 2
	if op == 1 {
		nb = vsym.Bound(1, 2)
	}
	ca, cb := vCols("a", vsym.Bound(2, 3)), vCols("b", nb) // maybe the same
	a, b := vRowOf(0, ca), vRowOf(0, cb)
	p := vCol("probe")
	r, all, keep, _ := vOp(op, a, b, ca, cb)
	vIsSet("the result", r, all, p, keep)
	vsym.Reach("computed")
	vsym.Observe("count", r.Count())
}

// VsymValues changes rows after they were part of an operation.
//
//vsym:harness C21 time=120 ttime=500
//vsym:bound a row of up to 1 (thorough: 2) columns in any of 65536 shards, built in two ways, and one of one column; the operations of VsymAlgebra; afterwards a column is set in the result or in an operand
func VsymValues() {
	yes := func(uint64) bool { return true }
	ca := vCols("a", vsym.Choose("n", vsym.Bound(2, 3)))
	cb := vCols("b", 1)
	a, b := vRowOf(vsym.Choose("build", 2), ca), vRowOf(0, cb)
	p := vCol("probe")
	op := vsym.Choose("op", 8)
	r, all, keep, merged := vOp(op, a, b, ca, cb)
	// a row is a value: changing one leaves the others alone
	x := vCol("set")
	switch vsym.Choose("change", 3) {
	case 0:
		had := vsym.And(vIn(all, x), keep(x))
		vsym.Assert(vsym.Iff(r.SetBit(x), vsym.Not(had)), "setting a column of the result reports a wrong change")
		k := keep
		keep = func(y uint64) bool { return vsym.Or(y == x, k(y)) }
		all = append(append([]uint64{}, all...), x)
		vsym.Assert(r.Count() == vSize(all, keep), "the result, later counts wrongly")
	case 1:
		b.SetBit(x)
		cb = append(append([]uint64{}, cb...), x)
	case 2:
		if !merged {
			a.Merge(NewRow(x))
			ca = append(append([]uint64{}, ca...), x)
		}
	}
	vsym.Reach("changed")
	vHas("the result, later", r, all, p, keep)
	vHas("the second operand, later", b, cb, p, yes)
	if !merged {
		vHas("the first operand, later", a, ca, p, yes)
	}
	vsym.Observe("then", r.Count())
}

// VsymList lists the columns of a row.
//
//vsym:harness C21 time=120 ttime=600
//vsym:bound rows of up to 3 columns in any of 65536 shards, built in three ways, listed as columns, columns within shards and a table; intersected with another row of one column and cloned
func VsymList() {
	ca := vCols("a", vsym.Choose("n", 4))
	a := vRowOf(vsym.Choose("build", 3), ca)
	p := vCol("probe")
	n := vSize(ca, func(uint64) bool { return true })
	vIsList("the row", a, p, vIn(ca, p), n)
	vIsList("its clone", a.Clone(), p, vIn(ca, p), n)
	t, err := a.ToTable()
	vsym.Assert(err == nil, "a row is no table")
	vsym.Assert(uint64(len(t.Rows)) == n, "a table has a wrong number of rows")
	l := a.Columns()
	for i, r := range t.Rows {
		vsym.Assert(len(r) == 1 && r[0].Int() == l[i], "a table has a wrong value")
		vsym.Assert(r[0].String() == "" && r[0].Float64() == 0 && r[0].Time().IsZero(), "a table has a value of another type")
	}
	if len(t.Rows) > 0 {
		vsym.Assert(len(t.Headers) == 1 && t.Headers[0].DataType == Int64 && t.Headers[0].Name == "_id", "a table has wrong headers")
	}
	vsym.Observe("n", len(l))
	vsym.Reach("listed")
}

// VsymShift shifts a row.
//
//vsym:harness C21 time=120 ttime=400
//vsym:bound rows of up to 2 columns in any of 65536 shards, shifted by 0 to 2
//vsym:assume no column is moved out of its shard (documented as unsupported)
func VsymShift() {
	ca := vCols("a", vsym.Choose("n", 3))
	a := vRowOf(vsym.Choose("build", 2), ca)
	k := vsym.Choose("by", 3)
	var to []uint64
	for _, c := range ca {
		vsym.Assume(c%vWidth < vWidth-2)
		to = append(to, c+uint64(k))
	}
	p := vCol("probe")
	yes := func(uint64) bool { return true }
	r, err := a.Shift(int64(k))
	vsym.Assert(err == nil, "shifting fails")
	vIsSet("the shifted row", r, to, p, yes)
	vIsSet("the operand", a, ca, p, yes)
	x := vCol("set")
	r.SetBit(x)
	vIsSet("the operand, later", a, ca, p, yes)
	vIsSet("the shifted row, later", r, append(to, x), p, yes)
	_, err = a.Shift(-1)
	vsym.Assert(err != nil, "a negative shift succeeds")
	vsym.Observe("count", r.Count())
	vsym.Reach("shifted")
}
