package vmodel

import (
	"github.com/RoaringBitmap/roaring/roaring64"
	"github.com/gernest/roaring"

	"github.com/gernest/requiemdb/internal/vsym"
)

// operations the code under test does not use today, so that a change that
// starts to use one is still decided

// within keeps or drops the members of [lo, hi).
func (s *Set) within(lo, hi uint64, keep bool) {
	for i, x := range s.El {
		c := vsym.And(x >= lo, x < hi)
		if !keep {
			c = vsym.Not(c)
		}
		s.In[i] = vsym.And(s.In[i], c)
	}
}

// wide bounds the ranges that are listed element by element.
const wide = 1 << 12

func (s *Set) span(lo, hi uint64, f func(uint64)) {
	if lo >= hi {
		return
	}
	n := hi - lo
	if n > wide {
		panic("vmodel: range too wide to list")
	}
	for i := uint64(0); i < n; i++ {
		f(lo + i)
	}
}

func (s *Set) flip(lo, hi uint64) {
	s.span(lo, hi, func(x uint64) {
		h := s.Has(x)
		s.Remove(x)
		s.AddIf(x, vsym.Not(h))
	})
}

func xorSets(a, b *Set) *Set {
	s, t := a.Clone(), b.Clone()
	s.AndNotWith(b)
	t.AndNotWith(a)
	s.OrWith(t)
	return s
}

func from64(s *Set) *roaring64.Bitmap {
	r := &roaring64.Bitmap{}
	sets[r] = s
	return r
}

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).RemoveRange
func r64RemoveRange(b *roaring64.Bitmap, lo, hi uint64) { S64(b).within(lo, hi, false) }

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).AddRange
func r64AddRange(b *roaring64.Bitmap, lo, hi uint64) {
	S64(b).span(lo, hi, func(x uint64) { S64(b).Add(x) })
}

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).Flip
func r64Flip(b *roaring64.Bitmap, lo, hi uint64) { S64(b).flip(lo, hi) }

//vsym:model github.com/RoaringBitmap/roaring/roaring64.Flip
func r64FlipFn(b *roaring64.Bitmap, lo, hi uint64) *roaring64.Bitmap {
	c := S64(b).Clone()
	c.flip(lo, hi)
	return from64(c)
}

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).Xor
func r64Xor(b, o *roaring64.Bitmap) { sets[b] = xorSets(S64(b), S64(o)) }

//vsym:model github.com/RoaringBitmap/roaring/roaring64.Xor
func r64XorFn(a, b *roaring64.Bitmap) *roaring64.Bitmap { return from64(xorSets(S64(a), S64(b))) }

//vsym:model github.com/RoaringBitmap/roaring/roaring64.AndNot
func r64AndNotFn(a, b *roaring64.Bitmap) *roaring64.Bitmap {
	c := S64(a).Clone()
	c.AndNotWith(S64(b))
	return from64(c)
}

//vsym:model github.com/RoaringBitmap/roaring/roaring64.FastOr
func r64FastOr(l ...*roaring64.Bitmap) *roaring64.Bitmap {
	c := &Set{}
	for _, b := range l {
		c.OrWith(S64(b))
	}
	return from64(c)
}

//vsym:model github.com/RoaringBitmap/roaring/roaring64.ParOr
func r64ParOr(_ int, l ...*roaring64.Bitmap) *roaring64.Bitmap { return r64FastOr(l...) }

//vsym:model github.com/RoaringBitmap/roaring/roaring64.FastAnd
func r64FastAnd(l ...*roaring64.Bitmap) *roaring64.Bitmap {
	if len(l) == 0 {
		return &roaring64.Bitmap{}
	}
	c := S64(l[0]).Clone()
	for _, b := range l[1:] {
		c.AndWith(S64(b))
	}
	return from64(c)
}

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).CheckedRemove
func r64CheckedRemove(b *roaring64.Bitmap, x uint64) bool {
	h := S64(b).Has(x)
	S64(b).Remove(x)
	return h
}

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).ContainsInt
func r64ContainsInt(b *roaring64.Bitmap, x int) bool { return S64(b).Has(uint64(x)) }

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).AddInt
func r64AddInt(b *roaring64.Bitmap, x int) { S64(b).Add(uint64(x)) }

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).OrCardinality
func r64OrCard(b, o *roaring64.Bitmap) uint64 {
	c := S64(b).Clone()
	c.OrWith(S64(o))
	return c.Count()
}

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).Rank
func r64Rank(b *roaring64.Bitmap, x uint64) uint64 {
	c := S64(b).Clone()
	for i, e := range c.El {
		c.In[i] = vsym.And(c.In[i], e <= x)
	}
	return c.Count()
}

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).Select
func r64Select(b *roaring64.Bitmap, x uint64) (uint64, error) {
	l := S64(b).Sorted()
	if x >= uint64(len(l)) {
		return 0, errBlob
	}
	return l[x], nil
}

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).HasRunCompression
func r64HasRun(b *roaring64.Bitmap) bool { return false }

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).SetCopyOnWrite
func r64SetCOW(b *roaring64.Bitmap, v bool) {}

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).GetSerializedSizeInBytes
func r64SerSize(b *roaring64.Bitmap) uint64 { return 8 }

type many64 struct {
	l []uint64
}

func (m *many64) NextMany(o []uint64) int {
	n := copy(o, m.l)
	m.l = m.l[n:]
	return n
}

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).ManyIterator
func r64ManyIterator(b *roaring64.Bitmap) roaring64.ManyIntIterable64 {
	return &many64{l: S64(b).Sorted()}
}

// ---- gernest/roaring ----

func takeMany(a []uint64, f func(uint64) bool) int {
	k := 0
	for _, x := range a {
		if f(x) {
			a[k] = x
			k++
		}
	}
	return k
}

//vsym:model (*github.com/gernest/roaring.Bitmap).DirectRemoveN
func rDirectRemoveN(b *roaring.Bitmap, a ...uint64) int {
	s := RS(b)
	return takeMany(a, func(x uint64) bool {
		h := s.Has(x)
		s.Remove(x)
		return h
	})
}

//vsym:model (*github.com/gernest/roaring.Bitmap).RemoveN
func rRemoveN(b *roaring.Bitmap, a ...uint64) (int, error) { return rDirectRemoveN(b, a...), nil }

//vsym:model (*github.com/gernest/roaring.Bitmap).CountRange
func rCountRange(b *roaring.Bitmap, lo, hi uint64) uint64 {
	c := RS(b).Clone()
	c.within(lo, hi, true)
	return c.Count()
}

//vsym:model (*github.com/gernest/roaring.Bitmap).SliceRange
func rSliceRange(b *roaring.Bitmap, lo, hi uint64) []uint64 {
	c := RS(b).Clone()
	c.within(lo, hi, true)
	return c.Sorted()
}

//vsym:model (*github.com/gernest/roaring.Bitmap).ForEachRange
func rForEachRange(b *roaring.Bitmap, lo, hi uint64, f func(uint64) error) error {
	for _, x := range rSliceRange(b, lo, hi) {
		if err := f(x); err != nil {
			return err
		}
	}
	return nil
}

//vsym:model (*github.com/gernest/roaring.Bitmap).Flip
func rFlip(b *roaring.Bitmap, lo, hi uint64) *roaring.Bitmap {
	c := RS(b).Clone()
	if hi != ^uint64(0) {
		hi++
	}
	c.flip(lo, hi)
	return fromR(c)
}

//vsym:model (*github.com/gernest/roaring.Bitmap).BitwiseEqual
func rBitwiseEqual(b, o *roaring.Bitmap) (bool, error) {
	x := xorSets(RS(b), RS(o))
	return x.Empty(), nil
}
