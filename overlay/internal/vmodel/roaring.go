package vmodel

import (
	"errors"

	"github.com/gernest/roaring"

	"github.com/gernest/requiemdb/internal/vsym"
)

// ---- gernest/roaring: a bitmap is a set of uint64 keyed by its address ----

var rsets = map[*roaring.Bitmap]*Set{}

func RS(b *roaring.Bitmap) *Set {
	if b == nil {
		panic("runtime error: invalid memory address or nil pointer dereference (nil roaring bitmap)")
	}
	s := rsets[b]
	if s == nil {
		s = &Set{}
		rsets[b] = s
	}
	return s
}

func newR(a ...uint64) *roaring.Bitmap {
	b := &roaring.Bitmap{}
	b.Containers = &rconts{b: b}
	for _, x := range a {
		RS(b).Add(x)
	}
	return b
}

func fromR(s *Set) *roaring.Bitmap {
	b := newR()
	rsets[b] = s
	return b
}

//vsym:model github.com/gernest/roaring.NewBTreeBitmap
func rNewBTree(a ...uint64) *roaring.Bitmap { return newR(a...) }

//vsym:model github.com/gernest/roaring.NewBitmap
func rNewBitmap(a ...uint64) *roaring.Bitmap { return newR(a...) }

//vsym:model github.com/gernest/roaring.NewSliceBitmap
func rNewSlice(a ...uint64) *roaring.Bitmap { return newR(a...) }

//vsym:model (*github.com/gernest/roaring.Bitmap).Add
func rAdd(b *roaring.Bitmap, a ...uint64) (bool, error) {
	ch := false
	s := RS(b)
	for _, x := range a {
		ch = vsym.Or(ch, vsym.Not(s.Has(x)))
		s.Add(x)
	}
	return ch, nil
}

//vsym:model (*github.com/gernest/roaring.Bitmap).AddN
func rAddN(b *roaring.Bitmap, a ...uint64) (int, error) {
	s := RS(b)
	// the values that were new are moved to the front of a
	return takeMany(a, func(x uint64) bool {
		h := s.Has(x)
		s.Add(x)
		return !h
	}), nil
}

//vsym:model (*github.com/gernest/roaring.Bitmap).DirectAddN
func rDirectAddN(b *roaring.Bitmap, a ...uint64) int {
	n, _ := rAddN(b, a...)
	return n
}

//vsym:model (*github.com/gernest/roaring.Bitmap).DirectAdd
func rDirectAdd(b *roaring.Bitmap, x uint64) bool {
	s := RS(b)
	h := s.Has(x)
	s.Add(x)
	return vsym.Not(h)
}

//vsym:model (*github.com/gernest/roaring.Bitmap).Remove
func rRemove(b *roaring.Bitmap, a ...uint64) (bool, error) {
	ch := false
	s := RS(b)
	for _, x := range a {
		ch = vsym.Or(ch, s.Has(x))
		s.Remove(x)
	}
	return ch, nil
}

//vsym:model (*github.com/gernest/roaring.Bitmap).Contains
func rContains(b *roaring.Bitmap, x uint64) bool { return RS(b).Has(x) }

//vsym:model (*github.com/gernest/roaring.Bitmap).Any
func rAny(b *roaring.Bitmap) bool { return vsym.Not(RS(b).Empty()) }

//vsym:model (*github.com/gernest/roaring.Bitmap).Count
func rCount(b *roaring.Bitmap) uint64 { return RS(b).Count() }

//vsym:model (*github.com/gernest/roaring.Bitmap).Slice
func rSlice(b *roaring.Bitmap) []uint64 { return RS(b).Sorted() }

//vsym:model (*github.com/gernest/roaring.Bitmap).Max
func rMax(b *roaring.Bitmap) uint64 {
	l := RS(b).Sorted()
	if len(l) == 0 {
		return 0
	}
	return l[len(l)-1]
}

//vsym:model (*github.com/gernest/roaring.Bitmap).Min
func rMin(b *roaring.Bitmap) (uint64, bool) { return rMinAt(b, 0) }

//vsym:model (*github.com/gernest/roaring.Bitmap).MinAt
func rMinAt(b *roaring.Bitmap, start uint64) (uint64, bool) {
	for _, x := range RS(b).Sorted() {
		if x >= start {
			return x, true
		}
	}
	return 0, false
}

//vsym:model (*github.com/gernest/roaring.Bitmap).Clone
func rClone(b *roaring.Bitmap) *roaring.Bitmap {
	if b == nil {
		return nil
	}
	return fromR(RS(b).Clone())
}

//vsym:model (*github.com/gernest/roaring.Bitmap).Freeze
func rFreeze(b *roaring.Bitmap) *roaring.Bitmap {
	if b == nil {
		return nil
	}
	return fromR(RS(b).Clone())
}

//vsym:model (*github.com/gernest/roaring.Bitmap).Intersect
func rIntersect(b, o *roaring.Bitmap) *roaring.Bitmap {
	s := RS(b).Clone()
	s.AndWith(RS(o))
	return fromR(s)
}

//vsym:model (*github.com/gernest/roaring.Bitmap).IntersectInPlace
func rIntersectInPlace(b *roaring.Bitmap, o ...*roaring.Bitmap) {
	for _, x := range o {
		RS(b).AndWith(RS(x))
	}
}

//vsym:model (*github.com/gernest/roaring.Bitmap).IntersectionCount
func rIntersectionCount(b, o *roaring.Bitmap) uint64 {
	s := RS(b).Clone()
	s.AndWith(RS(o))
	return s.Count()
}

//vsym:model (*github.com/gernest/roaring.Bitmap).Union
func rUnion(b *roaring.Bitmap, o ...*roaring.Bitmap) *roaring.Bitmap {
	s := RS(b).Clone()
	for _, x := range o {
		s.OrWith(RS(x))
	}
	return fromR(s)
}

//vsym:model (*github.com/gernest/roaring.Bitmap).UnionInPlace
func rUnionInPlace(b *roaring.Bitmap, o ...*roaring.Bitmap) {
	for _, x := range o {
		RS(b).OrWith(RS(x))
	}
}

//vsym:model (*github.com/gernest/roaring.Bitmap).Difference
func rDifference(b *roaring.Bitmap, o ...*roaring.Bitmap) *roaring.Bitmap {
	s := RS(b).Clone()
	_ = o[0]
	for _, x := range o {
		s.AndNotWith(RS(x))
	}
	return fromR(s)
}

//vsym:model (*github.com/gernest/roaring.Bitmap).DifferenceInPlace
func rDifferenceInPlace(b *roaring.Bitmap, o ...*roaring.Bitmap) {
	for _, x := range o {
		RS(b).AndNotWith(RS(x))
	}
}

//vsym:model (*github.com/gernest/roaring.Bitmap).Xor
func rXor(b, o *roaring.Bitmap) *roaring.Bitmap {
	s := RS(b).Clone()
	t := RS(o).Clone()
	s.AndNotWith(RS(o))
	t.AndNotWith(RS(b))
	s.OrWith(t)
	return fromR(s)
}

//vsym:model (*github.com/gernest/roaring.Bitmap).Shift
func rShift(b *roaring.Bitmap, n int) (*roaring.Bitmap, error) {
	if n != 1 {
		return nil, errors.New("cannot shift by a value other than 1")
	}
	s := &Set{}
	o := RS(b)
	for i := range o.El {
		s.AddIf(o.El[i]+1, vsym.And(o.In[i], o.El[i] != ^uint64(0)))
	}
	return fromR(s), nil
}

//vsym:model (*github.com/gernest/roaring.Bitmap).OffsetRange
func rOffsetRange(b *roaring.Bitmap, offset, start, end uint64) *roaring.Bitmap {
	return fromR(offsetRange(RS(b), offset, start, end))
}

func offsetRange(o *Set, offset, start, end uint64) *Set {
	if offset&0xFFFF != 0 || start&0xFFFF != 0 || end&0xFFFF != 0 {
		panic("range must not contain low bits")
	}
	s := &Set{}
	for i, x := range o.El {
		s.AddIf(offset+(x-start), vsym.And(o.In[i], vsym.And(x >= start, x < end)))
	}
	return s
}

//vsym:model (*github.com/gernest/roaring.Bitmap).ForEach
func rForEach(b *roaring.Bitmap, f func(uint64) error) error {
	for _, x := range RS(b).Sorted() {
		if err := f(x); err != nil {
			return err
		}
	}
	return nil
}

//vsym:model (*github.com/gernest/roaring.Bitmap).Optimize
func rOptimize(b *roaring.Bitmap) {}

//vsym:model (*github.com/gernest/roaring.Bitmap).MarshalBinary
func rMarshal(b *roaring.Bitmap) ([]byte, error) { return Blob(RS(b).Clone()), nil }

type riter struct {
	l []uint64
	k int
}

var riters = map[*roaring.Iterator]*riter{}

//vsym:model (*github.com/gernest/roaring.Bitmap).Iterator
func rIterator(b *roaring.Bitmap) *roaring.Iterator { return rIteratorAt(b, 0) }

//vsym:model (*github.com/gernest/roaring.Bitmap).IteratorAt
func rIteratorAt(b *roaring.Bitmap, start uint64) *roaring.Iterator {
	it := &roaring.Iterator{}
	r := &riter{}
	for _, x := range RS(b).Sorted() {
		if x >= start {
			r.l = append(r.l, x)
		}
	}
	riters[it] = r
	return it
}

//vsym:model (*github.com/gernest/roaring.Iterator).Next
func rNext(it *roaring.Iterator) (uint64, bool) {
	r := riters[it]
	if r.k >= len(r.l) {
		return 0, true
	}
	r.k++
	return r.l[r.k-1], false
}

//vsym:model (*github.com/gernest/roaring.Iterator).Close
func rIterClose(it *roaring.Iterator) {}

//vsym:model (*github.com/gernest/roaring.Iterator).Seek
func rSeek(it *roaring.Iterator, x uint64) {
	r := riters[it]
	r.k = 0
	for r.k < len(r.l) && r.l[r.k] < x {
		r.k++
	}
}

// Add of bit-sliced integers: column by column binary addition.
//
//vsym:model github.com/gernest/roaring.Add
func rAddBSI(x, y []*roaring.Bitmap) []*roaring.Bitmap {
	n := len(x)
	if len(y) > n {
		n = len(y)
	}
	all := &Set{}
	for _, b := range x {
		all.OrWith(RS(b))
	}
	for _, b := range y {
		all.OrWith(RS(b))
	}
	out := make([]*Set, n+1)
	for i := range out {
		out[i] = &Set{}
	}
	for e, col := range all.El {
		carry := false
		for i := 0; i <= n; i++ {
			p, q := false, false
			if i < len(x) {
				p = RS(x[i]).Has(col)
			}
			if i < len(y) {
				q = RS(y[i]).Has(col)
			}
			pq := vsym.Not(vsym.Iff(p, q))
			s := vsym.Not(vsym.Iff(pq, carry))
			carry = vsym.Or(vsym.And(p, q), vsym.And(carry, pq))
			out[i].AddIf(col, vsym.And(all.In[e], s))
		}
	}
	var dst []*roaring.Bitmap
	last := n
	for last >= 0 && vsym.Must(out[last].Empty()) {
		last--
	}
	for i := 0; i <= last; i++ {
		dst = append(dst, fromR(out[i]))
	}
	return dst
}

// ---- containers, as far as they are built by hand ----

var conts = map[*roaring.Container]*Set{}

//vsym:model github.com/gernest/roaring.NewContainerArrayCopy
func cArrayCopy(a []uint16) *roaring.Container {
	c := &roaring.Container{}
	s := &Set{}
	for _, x := range a {
		s.Add(uint64(x))
	}
	conts[c] = s
	return c
}

// n is how many columns the caller says there are.
//
//vsym:model github.com/gernest/roaring.NewContainerBitmapN
func cBitmapN(words []uint64, n int32) *roaring.Container {
	c := &roaring.Container{}
	s := &Set{}
	for i, w := range words {
		if vsym.Const(w) && w == 0 {
			continue
		}
		for k := uint(0); k < 64; k++ {
			b := w>>k&1 == 1
			if vsym.Must(vsym.Not(b)) {
				continue
			}
			s.El = append(s.El, uint64(i)*64+uint64(k))
			s.In = append(s.In, b)
		}
	}
	vsym.Assert(uint64(n) == s.Count(), "a container is built with a wrong number of columns")
	conts[c] = s
	return c
}

//vsym:model github.com/gernest/roaring.NewContainerArray
func cArray(a []uint16) *roaring.Container { return cArrayCopy(a) }

//vsym:model github.com/gernest/roaring.Union
func cUnion(a, b *roaring.Container) *roaring.Container {
	c := &roaring.Container{}
	s := conts[a].Clone()
	s.OrWith(conts[b])
	conts[c] = s
	return c
}

type rconts struct{ b *roaring.Bitmap }

func (r *rconts) Get(key uint64) *roaring.Container {
	o := RS(r.b)
	s := &Set{}
	for i, x := range o.El {
		s.AddIf(x&0xFFFF, vsym.And(o.In[i], x>>16 == key))
	}
	if s.Empty() {
		return nil
	}
	c := &roaring.Container{}
	conts[c] = s
	return c
}
func (r *rconts) Put(key uint64, c *roaring.Container) {
	o := RS(r.b)
	for i, x := range o.El {
		o.In[i] = vsym.And(o.In[i], x>>16 != key)
	}
	s := conts[c]
	for i, x := range s.El {
		o.AddIf(key<<16|x, s.In[i])
	}
}
func (r *rconts) Remove(key uint64) {
	o := RS(r.b)
	for i, x := range o.El {
		o.In[i] = vsym.And(o.In[i], x>>16 != key)
	}
}
func (r *rconts) GetOrCreate(key uint64) *roaring.Container { panic("vmodel: GetOrCreate") }
func (r *rconts) Clone() roaring.Containers                 { panic("vmodel: Clone") }
func (r *rconts) Freeze() roaring.Containers                { panic("vmodel: Freeze") }
func (r *rconts) Last() (uint64, *roaring.Container)        { panic("vmodel: Last") }
func (r *rconts) Size() int                                 { panic("vmodel: Size") }
func (r *rconts) Update(key uint64, fn func(*roaring.Container, bool) (*roaring.Container, bool)) {
	panic("vmodel: Update")
}
func (r *rconts) UpdateEvery(fn func(uint64, *roaring.Container, bool) (*roaring.Container, bool)) {
	panic("vmodel: UpdateEvery")
}
func (r *rconts) Iterator(key uint64) (roaring.ContainerIterator, bool) { panic("vmodel: Iterator") }
func (r *rconts) Count() uint64                                         { return RS(r.b).Count() }
func (r *rconts) Reset()                                                { rsets[r.b] = &Set{} }
func (r *rconts) ResetN(int)                                            { rsets[r.b] = &Set{} }
func (r *rconts) Repair()                                               {}

// ---- filters ----

type colFilter struct{ col uint64 }

func (f *colFilter) ConsiderKey(roaring.FilterKey, int32) roaring.FilterResult {
	panic("vmodel: ConsiderKey")
}
func (f *colFilter) ConsiderData(roaring.FilterKey, *roaring.Container) roaring.FilterResult {
	panic("vmodel: ConsiderData")
}

type rowFilter struct {
	cb func(uint64) error
	fs []roaring.BitmapFilter
}

func (f *rowFilter) ConsiderKey(roaring.FilterKey, int32) roaring.FilterResult {
	panic("vmodel: ConsiderKey")
}
func (f *rowFilter) ConsiderData(roaring.FilterKey, *roaring.Container) roaring.FilterResult {
	panic("vmodel: ConsiderData")
}

//vsym:model github.com/gernest/roaring.NewBitmapColumnFilter
func rColFilter(col uint64) roaring.BitmapFilter { return &colFilter{col} }

//vsym:model github.com/gernest/roaring.NewBitmapRowFilter
func rRowFilter(cb func(uint64) error, fs ...roaring.BitmapFilter) roaring.BitmapFilter {
	return &rowFilter{cb: cb, fs: fs}
}

const shardWidth = 1 << 20

// apply runs a row filter over the rows of s in order. Column filters of one
// row filter are a conjunction at the level of a 65536-bit container, as in
// the library: all columns have to fall into the same one.
func (f *rowFilter) apply(s *Set) error {
	rows := &Set{}
	for i, x := range s.El {
		rows.AddIf(x/shardWidth, s.In[i])
	}
	match := &Set{}
	for i, row := range rows.El {
		ok := rows.In[i]
		var blk uint64
		for j, g := range f.fs {
			c, is := g.(*colFilter)
			if !is {
				panic("vmodel: only column filters are modelled")
			}
			b := (c.col >> 16) & 15
			if j == 0 {
				blk = b
			}
			ok = vsym.And(ok, vsym.And(b == blk, s.Has(row*shardWidth+c.col%shardWidth)))
		}
		match.AddIf(row, ok)
	}
	for _, row := range match.Sorted() {
		if err := f.cb(row); err != nil {
			return err
		}
	}
	return nil
}
