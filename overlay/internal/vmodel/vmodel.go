// Package vmodel holds the models that replace third-party libraries during
// symbolic execution. Nothing here runs natively.
package vmodel

import (
	"io"
	"errors"

	"github.com/RoaringBitmap/roaring/roaring64"
	"github.com/gernest/requiemdb/internal/vsym"
)

// ---- blobs: opaque encodings of a library value ----

var blobs []any

// Blob gives v a byte encoding that only Unblob understands.
func Blob(v any) []byte {
	n := len(blobs)
	blobs = append(blobs, v)
	return []byte{0xB1, 0x0B, byte(n >> 8), byte(n)}
}

func Unblob(b []byte) (any, bool) {
	if len(b) < 4 || b[0] != 0xB1 || b[1] != 0x0B {
		return nil, false
	}
	n := int(b[2])<<8 | int(b[3])
	if n >= len(blobs) {
		return nil, false
	}
	return blobs[n], true
}

var errBlob = errors.New("vmodel: not an encoding of this kind")

// ---- sets of uint64 ----

// Set is a set with guarded elements: el[i] is a member when in[i].
type Set struct {
	El []uint64
	In []bool
	// positions of elements that are constants, and of the others
	idx map[uint64]int
	sym []int
	n   int
}

// index looks at elements added since.
func (s *Set) index() {
	if s.idx == nil {
		s.idx = map[uint64]int{}
	}
	for ; s.n < len(s.El); s.n++ {
		if vsym.Const(s.El[s.n]) {
			if _, ok := s.idx[s.El[s.n]]; !ok {
				s.idx[s.El[s.n]] = s.n
				continue
			}
		}
		s.sym = append(s.sym, s.n)
	}
}

func (s *Set) Add(x uint64) { s.AddIf(x, true) }

func (s *Set) AddIf(x uint64, c bool) {
	s.index()
	look := s.El
	if vsym.Const(x) {
		if i, ok := s.idx[x]; ok {
			s.In[i] = vsym.Or(s.In[i], c)
			return
		}
		look = nil
		for _, i := range s.sym {
			if vsym.Must(s.El[i] == x) {
				s.In[i] = vsym.Or(s.In[i], c)
				return
			}
		}
	}
	for i := range look {
		if vsym.Must(s.El[i] == x) {
			s.In[i] = vsym.Or(s.In[i], c)
			return
		}
	}
	s.El = append(s.El, x)
	s.In = append(s.In, c)
}

func (s *Set) Has(x uint64) bool {
	r := false
	if vsym.Const(x) {
		s.index()
		if i, ok := s.idx[x]; ok {
			r = s.In[i]
		}
		for _, i := range s.sym {
			r = vsym.Or(r, vsym.And(s.In[i], s.El[i] == x))
		}
		return r
	}
	for i := range s.El {
		r = vsym.Or(r, vsym.And(s.In[i], s.El[i] == x))
	}
	return r
}

func (s *Set) Remove(x uint64) {
	for i := range s.El {
		s.In[i] = vsym.And(s.In[i], s.El[i] != x)
	}
}

func (s *Set) Empty() bool {
	r := false
	for i := range s.In {
		r = vsym.Or(r, s.In[i])
	}
	return vsym.Not(r)
}

func (s *Set) Count() uint64 {
	var n uint64
	s.index()
	for _, i := range s.sym {
		c := s.In[i]
		for j := range s.El {
			if j == i {
				break
			}
			c = vsym.And(c, vsym.Not(vsym.And(s.In[j], s.El[j] == s.El[i])))
		}
		n += vsym.IteU64(c, 1, 0)
	}
	for i, x := range s.El {
		if k, ok := s.at(x); !ok || k != i {
			continue
		}
		c := s.In[i]
		for _, j := range s.sym {
			if j < i {
				c = vsym.And(c, vsym.Not(vsym.And(s.In[j], s.El[j] == x)))
			}
		}
		n += vsym.IteU64(c, 1, 0)
	}
	return n
}

// at is the position of a constant.
func (s *Set) at(x uint64) (int, bool) {
	if !vsym.Const(x) {
		return 0, false
	}
	i, ok := s.idx[x]
	return i, ok
}

func (s *Set) Clone() *Set {
	c := &Set{}
	c.El = append(c.El, s.El...)
	c.In = append(c.In, s.In...)
	return c
}

func (s *Set) AndWith(o *Set) {
	for i := range s.El {
		s.In[i] = vsym.And(s.In[i], o.Has(s.El[i]))
	}
}

func (s *Set) AndNotWith(o *Set) {
	for i := range s.El {
		s.In[i] = vsym.And(s.In[i], vsym.Not(o.Has(s.El[i])))
	}
}

func (s *Set) OrWith(o *Set) {
	for i := range o.El {
		s.AddIf(o.El[i], o.In[i])
	}
}

// Sorted lists the members in ascending order, deciding membership and order.
func (s *Set) Sorted() []uint64 {
	var l []uint64
	for i, x := range s.El {
		if !s.In[i] {
			continue
		}
		k := len(l)
		dup := false
		for k > 0 {
			if l[k-1] == x {
				dup = true
				break
			}
			if l[k-1] < x {
				break
			}
			k--
		}
		if dup {
			continue
		}
		l = append(l, 0)
		copy(l[k+1:], l[k:])
		l[k] = x
	}
	return l
}

// ---- roaring64 ----

var sets = map[*roaring64.Bitmap]*Set{}

func S64(b *roaring64.Bitmap) *Set {
	s := sets[b]
	if s == nil {
		s = &Set{}
		sets[b] = s
	}
	return s
}

//vsym:model github.com/RoaringBitmap/roaring/roaring64.New
func r64New() *roaring64.Bitmap { return &roaring64.Bitmap{} }

//vsym:model github.com/RoaringBitmap/roaring/roaring64.NewBitmap
func r64NewBitmap() *roaring64.Bitmap { return &roaring64.Bitmap{} }

//vsym:model github.com/RoaringBitmap/roaring/roaring64.BitmapOf
func r64BitmapOf(dat ...uint64) *roaring64.Bitmap {
	b := &roaring64.Bitmap{}
	for _, x := range dat {
		S64(b).Add(x)
	}
	return b
}

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).Add
func r64Add(b *roaring64.Bitmap, x uint64) { S64(b).Add(x) }

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).AddMany
func r64AddMany(b *roaring64.Bitmap, l []uint64) {
	for _, x := range l {
		S64(b).Add(x)
	}
}

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).CheckedAdd
func r64CheckedAdd(b *roaring64.Bitmap, x uint64) bool {
	h := S64(b).Has(x)
	S64(b).Add(x)
	return vsym.Not(h)
}

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).Remove
func r64Remove(b *roaring64.Bitmap, x uint64) { S64(b).Remove(x) }

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).Contains
func r64Contains(b *roaring64.Bitmap, x uint64) bool { return S64(b).Has(x) }

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).IsEmpty
func r64IsEmpty(b *roaring64.Bitmap) bool { return S64(b).Empty() }

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).Clear
func r64Clear(b *roaring64.Bitmap) { sets[b] = &Set{} }

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).GetCardinality
func r64Card(b *roaring64.Bitmap) uint64 { return S64(b).Count() }

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).And
func r64And(b, o *roaring64.Bitmap) { S64(b).AndWith(S64(o)) }

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).AndNot
func r64AndNot(b, o *roaring64.Bitmap) { S64(b).AndNotWith(S64(o)) }

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).Or
func r64Or(b, o *roaring64.Bitmap) { S64(b).OrWith(S64(o)) }

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).Intersects
func r64Intersects(b, o *roaring64.Bitmap) bool {
	c := S64(b).Clone()
	c.AndWith(S64(o))
	return vsym.Not(c.Empty())
}

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).AndCardinality
func r64AndCard(b, o *roaring64.Bitmap) uint64 {
	c := S64(b).Clone()
	c.AndWith(S64(o))
	return c.Count()
}

//vsym:model github.com/RoaringBitmap/roaring/roaring64.And
func r64AndFn(a, b *roaring64.Bitmap) *roaring64.Bitmap {
	r := &roaring64.Bitmap{}
	c := S64(a).Clone()
	c.AndWith(S64(b))
	sets[r] = c
	return r
}

//vsym:model github.com/RoaringBitmap/roaring/roaring64.Or
func r64OrFn(a, b *roaring64.Bitmap) *roaring64.Bitmap {
	r := &roaring64.Bitmap{}
	c := S64(a).Clone()
	c.OrWith(S64(b))
	sets[r] = c
	return r
}

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).Clone
func r64Clone(b *roaring64.Bitmap) *roaring64.Bitmap {
	r := &roaring64.Bitmap{}
	sets[r] = S64(b).Clone()
	return r
}

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).Equals
func r64Equals(b *roaring64.Bitmap, o *roaring64.Bitmap) bool {
	x, y := S64(b), S64(o)
	r := true
	for i := range x.El {
		r = vsym.And(r, vsym.Implies(x.In[i], y.Has(x.El[i])))
	}
	for i := range y.El {
		r = vsym.And(r, vsym.Implies(y.In[i], x.Has(y.El[i])))
	}
	return r
}

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).RunOptimize
func r64RunOptimize(b *roaring64.Bitmap) {}

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).GetSizeInBytes
func r64Size(b *roaring64.Bitmap) uint64 { return 8 }

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).ToArray
func r64ToArray(b *roaring64.Bitmap) []uint64 { return S64(b).Sorted() }

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).Maximum
func r64Max(b *roaring64.Bitmap) uint64 {
	l := S64(b).Sorted()
	if len(l) == 0 {
		panic("Empty bitmap")
	}
	return l[len(l)-1]
}

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).Minimum
func r64Min(b *roaring64.Bitmap) uint64 {
	l := S64(b).Sorted()
	if len(l) == 0 {
		panic("Empty bitmap")
	}
	return l[0]
}

type iter64 struct {
	l []uint64
	k int
}

func (i *iter64) HasNext() bool { return i.k < len(i.l) }
func (i *iter64) Next() uint64 {
	x := i.l[i.k]
	i.k++
	return x
}
func (i *iter64) PeekNext() uint64 { return i.l[i.k] }
func (i *iter64) AdvanceIfNeeded(v uint64) {
	for i.k < len(i.l) && i.l[i.k] < v {
		i.k++
	}
}

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).Iterator
func r64Iterator(b *roaring64.Bitmap) roaring64.IntPeekable64 {
	return &iter64{l: S64(b).Sorted()}
}

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).ReverseIterator
func r64ReverseIterator(b *roaring64.Bitmap) roaring64.IntIterable64 {
	l := S64(b).Sorted()
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	return &iter64{l: l}
}

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).MarshalBinary
func r64Marshal(b *roaring64.Bitmap) ([]byte, error) { return Blob(S64(b).Clone()), nil }

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).ToBytes
func r64ToBytes(b *roaring64.Bitmap) ([]byte, error) { return Blob(S64(b).Clone()), nil }

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).WriteTo
func r64WriteTo(b *roaring64.Bitmap, w io.Writer) (int64, error) {
	var o []byte
	for _, x := range S64(b).Sorted() {
		for i := 0; i < 64; i += 8 {
			o = append(o, byte(x>>i))
		}
	}
	n, err := w.Write(o)
	return int64(n), err
}

//vsym:model (*github.com/RoaringBitmap/roaring/roaring64.Bitmap).UnmarshalBinary
func r64Unmarshal(b *roaring64.Bitmap, data []byte) error {
	v, ok := Unblob(data)
	if !ok {
		return errBlob
	}
	s, ok := v.(*Set)
	if !ok {
		return errBlob
	}
	sets[b] = s.Clone()
	return nil
}
