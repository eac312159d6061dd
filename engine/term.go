package main

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"strconv"
	"strings"
)

// Op is a term operator. Width 0 denotes booleans, 1..64 bit-vectors.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OULt
	OULe
	OSLt
	OSLe
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OZExt
	OSExt
	OTrunc
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFLt
	OFLe
	OFEq
	OFToI // float -> signed int (truncating)
	OFToU
	OIToF // signed int -> float
	OUToF
	OFToF
	OApp // uninterpreted: name(args)
)

var opNames = [...]string{"const", "var", "not", "and", "or", "=", "bvult", "bvule", "bvslt", "bvsle", "ite", "bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvnot", "bvneg", "bvshl", "bvlshr", "bvashr", "zext", "sext", "trunc", "fp.add", "fp.sub", "fp.mul", "fp.div", "fp.neg", "fp.lt", "fp.leq", "fp.eq", "ftoi", "ftou", "itof", "utof", "ftof", "app"}

// Term is a hash-consed SMT term.
type Term struct {
	op     Op
	w      uint8
	val    uint64
	args   []*Term
	id     int
	lo, hi uint64
	name   string
	defd   int // solver generation in which it was defined
}

func (t *Term) isConst() bool { return t.op == OConst }

var smallConst [65][512]*Term
var tTrue = &Term{op: OConst, w: 0, val: 1, lo: 1, hi: 1, id: -1}
var tFalse = &Term{op: OConst, w: 0, val: 0, lo: 0, hi: 0, id: -2}

func init() {
	for w := 1; w <= 64; w++ {
		for v := uint64(0); v < 512; v++ {
			if v <= mask(uint8(w)) {
				smallConst[w][v] = &Term{op: OConst, w: uint8(w), val: v, lo: v, hi: v, id: -1}
			}
		}
	}
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func mkConst(w uint8, v uint64) *Term {
	if w == 0 {
		if v&1 != 0 {
			return tTrue
		}
		return tFalse
	}
	v &= mask(w)
	if v < 512 {
		return smallConst[w][v]
	}
	return &Term{op: OConst, w: w, val: v, lo: v, hi: v, id: -1}
}

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

type termKey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c int
	av, bv  uint64
	cv      uint64
	name    string
}

// TermTable is a per-worker hash-consing table.
type TermTable struct {
	m      map[termKey]*Term
	nextID int
}

func newTermTable() *TermTable { return &TermTable{m: map[termKey]*Term{}, nextID: 1} }

func keyPart(t *Term) (int, uint64) {
	if t.op == OConst {
		return -1 - int(t.w), t.val
	}
	return t.id, 0
}

func (tt *TermTable) mk(op Op, w uint8, val uint64, name string, lo, hi uint64, args ...*Term) *Term {
	k := termKey{op: op, w: w, val: val, name: name}
	switch len(args) {
	case 3:
		k.c, k.cv = keyPart(args[2])
		fallthrough
	case 2:
		k.b, k.bv = keyPart(args[1])
		fallthrough
	case 1:
		k.a, k.av = keyPart(args[0])
	case 0:
	default:
		var sb strings.Builder
		sb.WriteString(name)
		for _, a := range args {
			i, v := keyPart(a)
			fmt.Fprintf(&sb, "|%d,%d", i, v)
		}
		k.name = sb.String()
	}
	if t, ok := tt.m[k]; ok {
		if lo > t.lo {
			t.lo = lo
		}
		if hi < t.hi {
			t.hi = hi
		}
		return t
	}
	t := &Term{op: op, w: w, val: val, args: append([]*Term(nil), args...), id: tt.nextID, lo: lo, hi: hi, name: name}
	tt.nextID++
	tt.m[k] = t
	return t
}

func (tt *TermTable) Var(name string, w uint8, lo, hi uint64) *Term {
	return tt.mk(OVar, w, lo^(hi*31), name, lo, hi)
}

func same(a, b *Term) bool {
	return a == b || (a.op == OConst && b.op == OConst && a.w == b.w && a.val == b.val)
}

func (tt *TermTable) Not(a *Term) *Term {
	if a.isConst() {
		return mkBool(a.val == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return tt.mk(ONot, 0, 0, "", 0, 1, a)
}

func (tt *TermTable) And(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 0 {
			return tFalse
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return tFalse
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.args[0] == b) || (b.op == ONot && b.args[0] == a) {
		return tFalse
	}
	return tt.mk(OAnd, 0, 0, "", 0, 1, a, b)
}

func (tt *TermTable) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.val != 0 {
			return tTrue
		}
		return b
	}
	if b.isConst() {
		if b.val != 0 {
			return tTrue
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.args[0] == b) || (b.op == ONot && b.args[0] == a) {
		return tTrue
	}
	return tt.mk(OOr, 0, 0, "", 0, 1, a, b)
}

func (tt *TermTable) Eq(a, b *Term) *Term {
	if r := tt.each2(a, b, tt.Eq); r != nil {
		return r
	}
	if a == b {
		return tTrue
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return mkBool(a.val == b.val)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val != 0 {
				return a
			}
			return tt.Not(a)
		}
	} else {
		if a.hi < b.lo || b.hi < a.lo {
			return tFalse
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			switch a.op {
			case OIte:
				x, y := a.args[1], a.args[2]
				if x.isConst() || y.isConst() {
					ex, ey := tt.Eq(x, b), tt.Eq(y, b)
					return tt.IteBool(a.args[0], ex, ey)
				}
			case OZExt:
				if b.val <= mask(a.args[0].w) {
					return tt.Eq(a.args[0], mkConst(a.args[0].w, b.val))
				}
				return tFalse
			case OAdd:
				if a.args[1].isConst() {
					return tt.Eq(a.args[0], mkConst(a.w, b.val-a.args[1].val))
				}
			}
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return tt.mk(OEq, 0, 0, "", 0, 1, a, b)
}

// choice tells whether t picks one of a few constants.
func choice(t *Term, d int) bool {
	return t.op == OIte && d > 0 && (t.args[1].isConst() || choice(t.args[1], d-1)) && (t.args[2].isConst() || choice(t.args[2], d-1))
}

// each1 applies f to the constants a picks from.
func (tt *TermTable) each1(a *Term, f func(a *Term) *Term) *Term {
	if a.op != OIte || !choice(a, 3) {
		return nil
	}
	return tt.Ite(a.args[0], f(a.args[1]), f(a.args[2]))
}

// each2 applies f to the constants a or b picks from, where the other one is
// a constant or picks by the same condition.
func (tt *TermTable) each2(a, b *Term, f func(a, b *Term) *Term) *Term {
	switch {
	case a.op == OIte && b.op == OIte:
		if a.args[0] == b.args[0] && choice(a, 3) && choice(b, 3) {
			return tt.Ite(a.args[0], f(a.args[1], b.args[1]), f(a.args[2], b.args[2]))
		}
	case a.op == OIte && b.isConst():
		if choice(a, 3) {
			return tt.Ite(a.args[0], f(a.args[1], b), f(a.args[2], b))
		}
	case b.op == OIte && a.isConst():
		if choice(b, 3) {
			return tt.Ite(b.args[0], f(a, b.args[1]), f(a, b.args[2]))
		}
	}
	return nil
}

func (tt *TermTable) IteBool(c, a, b *Term) *Term {
	if c.isConst() {
		if c.val != 0 {
			return a
		}
		return b
	}
	if same(a, b) {
		return a
	}
	if a.isConst() {
		if a.val != 0 {
			return tt.Or(c, b)
		}
		return tt.And(tt.Not(c), b)
	}
	if b.isConst() {
		if b.val != 0 {
			return tt.Or(tt.Not(c), a)
		}
		return tt.And(c, a)
	}
	return tt.mk(OIte, 0, 0, "", 0, 1, c, a, b)
}

func (tt *TermTable) Ite(c, a, b *Term) *Term {
	if a.w == 0 {
		return tt.IteBool(c, a, b)
	}
	if c.isConst() {
		if c.val != 0 {
			return a
		}
		return b
	}
	if same(a, b) {
		return a
	}
	if c.op == ONot {
		c, a, b = c.args[0], b, a
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if same(a, b) {
		return a
	}
	return tt.mk(OIte, a.w, 0, "", min(a.lo, b.lo), max(a.hi, b.hi), c, a, b)
}

func sx(v uint64, w uint8) int64 {
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

// signedRange gives the signed interval of t, if its unsigned interval does
// not straddle the sign boundary.
func signedRange(t *Term) (lo, hi int64, ok bool) {
	half := uint64(1) << (t.w - 1)
	if t.hi < half || t.lo >= half {
		return sx(t.lo, t.w), sx(t.hi, t.w), true
	}
	if t.op == ONeg {
		if x := t.args[0]; x.hi < half {
			return -int64(x.hi), -int64(x.lo), true
		}
	}
	return 0, 0, false
}

func (tt *TermTable) ULt(a, b *Term) *Term {
	if r := tt.each2(a, b, tt.ULt); r != nil {
		return r
	}
	if a.hi < b.lo {
		return tTrue
	}
	if a.lo >= b.hi {
		return tFalse
	}
	if a == b {
		return tFalse
	}
	return tt.mk(OULt, 0, 0, "", 0, 1, a, b)
}
func (tt *TermTable) ULe(a, b *Term) *Term { return tt.Not(tt.ULt(b, a)) }

func (tt *TermTable) SLt(a, b *Term) *Term {
	if r := tt.each2(a, b, tt.SLt); r != nil {
		return r
	}
	if a == b {
		return tFalse
	}
	al, ah, ok1 := signedRange(a)
	bl, bh, ok2 := signedRange(b)
	if ok1 && ok2 {
		if ah < bl {
			return tTrue
		}
		if al >= bh {
			return tFalse
		}
		if al >= 0 && bl >= 0 || ah < 0 && bh < 0 {
			return tt.ULt(a, b)
		}
	}
	return tt.mk(OSLt, 0, 0, "", 0, 1, a, b)
}
func (tt *TermTable) SLe(a, b *Term) *Term { return tt.Not(tt.SLt(b, a)) }

func (tt *TermTable) Add(a, b *Term) *Term {
	if r := tt.each2(a, b, tt.Add); r != nil {
		return r
	}
	if a.isConst() && b.isConst() {
		return mkConst(a.w, a.val+b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if a.op == OAdd && a.args[1].isConst() {
			return tt.Add(a.args[0], mkConst(a.w, a.args[1].val+b.val))
		}
	}
	if a.op == ONeg && b.op == ONeg {
		return tt.Neg(tt.Add(a.args[0], b.args[0]))
	}
	m := mask(a.w)
	lo, hi := uint64(0), m
	h, c := bits.Add64(a.hi, b.hi, 0)
	if c == 0 && h <= m {
		lo, hi = a.lo+b.lo, h
	} else if l, c2 := bits.Add64(a.lo, b.lo, 0); c2 == 1 || l > m {
		// both ends wrap
		lo, hi = l&m, h&m
	}
	return tt.mk(OAdd, a.w, 0, "", lo, hi, a, b)
}

func (tt *TermTable) Sub(a, b *Term) *Term {
	if r := tt.each2(a, b, tt.Sub); r != nil {
		return r
	}
	if a.isConst() && b.isConst() {
		return mkConst(a.w, a.val-b.val)
	}
	if same(a, b) {
		return mkConst(a.w, 0)
	}
	if b.isConst() {
		return tt.Add(a, mkConst(a.w, -b.val))
	}
	if a.op == OAdd && a.args[1] == b {
		return a.args[0]
	}
	if a.op == OAdd && a.args[0] == b {
		return a.args[1]
	}
	// (x+c1) - (y+c2)
	if a.op == OAdd && b.op == OAdd && a.args[1].isConst() && b.args[1].isConst() {
		return tt.Add(tt.Sub(a.args[0], b.args[0]), mkConst(a.w, a.args[1].val-b.args[1].val))
	}
	lo, hi := uint64(0), mask(a.w)
	if a.lo >= b.hi {
		lo, hi = a.lo-b.hi, a.hi-b.lo
	}
	return tt.mk(OSub, a.w, 0, "", lo, hi, a, b)
}

func (tt *TermTable) Mul(a, b *Term) *Term {
	if r := tt.each2(a, b, tt.Mul); r != nil {
		return r
	}
	if a.isConst() && b.isConst() {
		return mkConst(a.w, a.val*b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch b.val {
		case 0:
			return b
		case 1:
			return a
		}
		if a.op == ONeg {
			return tt.Neg(tt.Mul(a.args[0], b))
		}
	}
	lo, hi := uint64(0), mask(a.w)
	if h, l := bits.Mul64(a.hi, b.hi); h == 0 && l <= hi {
		lo, hi = a.lo*b.lo, l
	}
	return tt.mk(OMul, a.w, 0, "", lo, hi, a, b)
}

func (tt *TermTable) udivConst(a *Term, c uint64) *Term {
	w := a.w
	if c == 1 {
		return a
	}
	ql, qh := a.lo/c, a.hi/c
	if ql == qh {
		return mkConst(w, ql)
	}
	if c&(c-1) == 0 {
		return tt.LShr(a, mkConst(w, uint64(bits.TrailingZeros64(c))))
	}
	if a.op == OMul && a.args[1].isConst() && a.args[1].val == c {
		if h, l := bits.Mul64(a.args[0].hi, c); h == 0 && l <= mask(w) {
			return a.args[0]
		}
	}
	if q := tt.divSum(a, c); q != nil {
		return q
	}
	if qh-ql <= 6 {
		r := mkConst(w, ql)
		for q := ql + 1; q <= qh; q++ {
			r = tt.Ite(tt.ULe(mkConst(w, q*c), a), mkConst(w, q), r)
		}
		return r
	}
	base := ql * c
	x := a
	if ql > 0 {
		x = tt.Sub(a, mkConst(w, base))
		x.lo, x.hi = max(x.lo, a.lo-base), min(x.hi, a.hi-base)
	}
	nb := uint8(bits.Len64(a.hi - base))
	if cb := uint8(bits.Len64(c)); cb > nb {
		nb = cb
	}
	var q *Term
	if nb < w {
		y := tt.Trunc(x, nb)
		q = tt.ZExt(tt.mk(OUDiv, nb, 0, "", 0, qh-ql, y, mkConst(nb, c)), w)
	} else {
		q = tt.mk(OUDiv, w, 0, "", 0, qh-ql, x, mkConst(w, c))
	}
	if ql > 0 {
		q = tt.Add(q, mkConst(w, ql))
	}
	q.lo, q.hi = max(q.lo, ql), min(q.hi, qh)
	return q
}

// divSum divides a sum whose terms are partly multiples of c, when the sum
// cannot wrap around: (c*x + r) / c = x + r/c.
func (tt *TermTable) divSum(a *Term, c uint64) *Term {
	if a.op != OAdd || c > 1<<40 {
		return nil
	}
	var mul, rest []*Term // multiples are stored divided by c
	k := uint64(0)
	lo, hi := new(big.Int), new(big.Int)
	var walk func(t *Term, d int) bool
	walk = func(t *Term, d int) bool {
		if d > 12 {
			return false
		}
		switch {
		case t.isConst():
			k += t.val
		case t.op == OAdd:
			return walk(t.args[0], d+1) && walk(t.args[1], d+1)
		default:
			lo.Add(lo, new(big.Int).SetUint64(t.lo))
			hi.Add(hi, new(big.Int).SetUint64(t.hi))
			if t.op == OMul && t.args[1].isConst() && t.args[1].val != 0 && t.args[1].val%c == 0 {
				if h, l := bits.Mul64(t.args[0].hi, t.args[1].val); h == 0 && l <= mask(t.w) {
					mul = append(mul, tt.Mul(t.args[0], mkConst(t.w, t.args[1].val/c)))
					return true
				}
			}
			rest = append(rest, t)
		}
		return true
	}
	if !walk(a, 0) || len(mul) == 0 {
		return nil
	}
	k &= mask(a.w)
	fits := func(b *big.Int) bool {
		return new(big.Int).Add(lo, b).Sign() >= 0 && new(big.Int).Add(hi, b).Cmp(new(big.Int).SetUint64(mask(a.w))) <= 0
	}
	kb := new(big.Int).SetUint64(k)
	if !fits(kb) {
		kb = big.NewInt(sx(k, a.w))
		if !fits(kb) {
			return nil
		}
	}
	cb := new(big.Int).SetUint64(c)
	km := new(big.Int)
	kq, _ := new(big.Int).DivMod(kb, cb, km) // floor, as c > 0
	r := mkConst(a.w, km.Uint64())
	rh := new(big.Int).Set(km)
	for _, t := range rest {
		r = tt.Add(r, t)
		rh.Add(rh, new(big.Int).SetUint64(t.hi))
	}
	if rh.Cmp(new(big.Int).SetUint64(mask(a.w)>>1)) > 0 {
		return nil
	}
	q := mkConst(a.w, uint64(kq.Int64()))
	for _, t := range mul {
		q = tt.Add(q, t)
	}
	q = tt.Add(q, tt.udivConst(r, c))
	if !q.isConst() {
		q.lo, q.hi = max(q.lo, a.lo/c), min(q.hi, a.hi/c)
		if q.lo > q.hi {
			q.lo, q.hi = a.lo/c, a.hi/c
		}
	}
	return q
}

func (tt *TermTable) UDiv(a, b *Term) *Term {
	if r := tt.each2(a, b, tt.UDiv); r != nil {
		return r
	}
	if a.isConst() && b.isConst() && b.val != 0 {
		return mkConst(a.w, a.val/b.val)
	}
	if b.isConst() && b.val != 0 {
		return tt.udivConst(a, b.val)
	}
	hi := mask(a.w)
	if b.lo > 0 {
		hi = a.hi / b.lo
	}
	return tt.mk(OUDiv, a.w, 0, "", 0, hi, a, b)
}

func (tt *TermTable) URem(a, b *Term) *Term {
	if r := tt.each2(a, b, tt.URem); r != nil {
		return r
	}
	if a.isConst() && b.isConst() && b.val != 0 {
		return mkConst(a.w, a.val%b.val)
	}
	if b.isConst() && b.val != 0 {
		c := b.val
		if a.hi < c {
			return a
		}
		if c&(c-1) == 0 {
			return tt.BAnd(a, mkConst(a.w, c-1))
		}
		q := tt.udivConst(a, c)
		r := tt.Sub(a, tt.Mul(q, b))
		if !r.isConst() {
			if a.lo/c == a.hi/c {
				r.lo, r.hi = max(r.lo, a.lo%c), min(r.hi, a.hi%c)
			} else {
				r.lo, r.hi = max(r.lo, 0), min(r.hi, c-1)
				if r.lo > r.hi {
					r.lo = 0
				}
			}
		}
		return r
	}
	hi := a.hi
	if b.lo > 0 && b.hi-1 < hi {
		hi = b.hi - 1
	}
	return tt.mk(OURem, a.w, 0, "", 0, hi, a, b)
}

func (tt *TermTable) SDiv(a, b *Term) *Term {
	if r := tt.each2(a, b, tt.SDiv); r != nil {
		return r
	}
	if a.isConst() && b.isConst() && b.val != 0 {
		x, y := sx(a.val, a.w), sx(b.val, a.w)
		if y == -1 {
			return mkConst(a.w, uint64(-x))
		}
		return mkConst(a.w, uint64(x/y))
	}
	al, ah, ok1 := signedRange(a)
	bl, _, ok2 := signedRange(b)
	if ok1 && ok2 && bl > 0 {
		if al >= 0 {
			return tt.UDiv(a, b)
		}
		if ah <= 0 {
			return tt.Neg(tt.UDiv(tt.Neg(a), b))
		}
	}
	if ok2 && bl > 0 && b.isConst() {
		half := uint64(1) << (a.w - 1)
		neg := tt.ULe(mkConst(a.w, half), a)
		abs := tt.Ite(neg, tt.Neg(a), a)
		q := tt.UDiv(abs, b)
		return tt.Ite(neg, tt.Neg(q), q)
	}
	return tt.mk(OSDiv, a.w, 0, "", 0, mask(a.w), a, b)
}

func (tt *TermTable) SRem(a, b *Term) *Term {
	if r := tt.each2(a, b, tt.SRem); r != nil {
		return r
	}
	if a.isConst() && b.isConst() && b.val != 0 {
		x, y := sx(a.val, a.w), sx(b.val, a.w)
		if y == -1 {
			return mkConst(a.w, 0)
		}
		return mkConst(a.w, uint64(x%y))
	}
	al, _, ok1 := signedRange(a)
	bl, _, ok2 := signedRange(b)
	if ok1 && ok2 && bl > 0 && al >= 0 {
		return tt.URem(a, b)
	}
	if ok2 && bl > 0 && b.isConst() {
		return tt.Sub(a, tt.Mul(tt.SDiv(a, b), b))
	}
	return tt.mk(OSRem, a.w, 0, "", 0, mask(a.w), a, b)
}

func (tt *TermTable) BAnd(a, b *Term) *Term {
	if r := tt.each2(a, b, tt.BAnd); r != nil {
		return r
	}
	if a.isConst() && b.isConst() {
		return mkConst(a.w, a.val&b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if same(a, b) {
		return a
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		if b.val == mask(a.w) {
			return a
		}
		// low mask covering the whole range
		if b.val&(b.val+1) == 0 && a.hi <= b.val {
			return a
		}
		if a.op == OBAnd && a.args[1].isConst() {
			return tt.BAnd(a.args[0], mkConst(a.w, a.args[1].val&b.val))
		}
		if a.hi != 0 {
			// all bits possibly set in a
			pm := mask(uint8(bits.Len64(a.hi)))
			if b.val&pm == 0 {
				return mkConst(a.w, 0)
			}
		}
		if b.val&(b.val+1) == 0 && a.hi-a.lo <= b.val && a.lo&b.val <= a.hi&b.val {
			return tt.mk(OBAnd, a.w, 0, "", a.lo&b.val, a.hi&b.val, a, b)
		}
		// high bits of the interval agree
		if nb := bits.Len64(a.lo ^ a.hi); nb < 64 {
			lowm := mask(uint8(nb))
			if nb == 0 {
				lowm = 0
			}
			if b.val&lowm == 0 {
				return mkConst(a.w, a.lo&b.val)
			}
		}
	}
	return tt.mk(OBAnd, a.w, 0, "", 0, min(a.hi, b.hi), a, b)
}

func (tt *TermTable) BOr(a, b *Term) *Term {
	if r := tt.each2(a, b, tt.BOr); r != nil {
		return r
	}
	if a.isConst() && b.isConst() {
		return mkConst(a.w, a.val|b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if same(a, b) {
		return a
	}
	if b.isConst() && b.val == 0 {
		return a
	}
	return tt.mk(OBOr, a.w, 0, "", max(a.lo, b.lo), mask(uint8(bits.Len64(a.hi|b.hi))), a, b)
}

func (tt *TermTable) BXor(a, b *Term) *Term {
	if r := tt.each2(a, b, tt.BXor); r != nil {
		return r
	}
	if a.isConst() && b.isConst() {
		return mkConst(a.w, a.val^b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if same(a, b) {
		return mkConst(a.w, 0)
	}
	if b.isConst() && b.val == 0 {
		return a
	}
	return tt.mk(OBXor, a.w, 0, "", 0, mask(uint8(bits.Len64(a.hi|b.hi))), a, b)
}

func (tt *TermTable) BNot(a *Term) *Term {
	if r := tt.each1(a, tt.BNot); r != nil {
		return r
	}
	if a.isConst() {
		return mkConst(a.w, ^a.val)
	}
	m := mask(a.w)
	return tt.mk(OBNot, a.w, 0, "", m-a.hi, m-a.lo, a)
}

func (tt *TermTable) Neg(a *Term) *Term {
	if r := tt.each1(a, tt.Neg); r != nil {
		return r
	}
	if a.isConst() {
		return mkConst(a.w, -a.val)
	}
	if a.op == ONeg {
		return a.args[0]
	}
	lo, hi := uint64(0), mask(a.w)
	if a.lo > 0 {
		lo, hi = (-a.hi)&mask(a.w), (-a.lo)&mask(a.w)
	}
	return tt.mk(ONeg, a.w, 0, "", lo, hi, a)
}

// shifts: b has the width of a; amounts >= width handled as in Go.
func (tt *TermTable) Shl(a, b *Term) *Term {
	if r := tt.each2(a, b, tt.Shl); r != nil {
		return r
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(a.w) {
			return mkConst(a.w, 0)
		}
		if a.isConst() {
			return mkConst(a.w, a.val<<b.val)
		}
		lo, hi := uint64(0), mask(a.w)
		if bits.Len64(a.hi)+int(b.val) <= int(a.w) {
			lo, hi = a.lo<<b.val, a.hi<<b.val
		}
		return tt.mk(OShl, a.w, 0, "", lo, hi, a, b)
	}
	return tt.mk(OShl, a.w, 0, "", 0, mask(a.w), a, b)
}
func (tt *TermTable) LShr(a, b *Term) *Term {
	if r := tt.each2(a, b, tt.LShr); r != nil {
		return r
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(a.w) {
			return mkConst(a.w, 0)
		}
		if a.isConst() {
			return mkConst(a.w, a.val>>b.val)
		}
		if a.lo>>b.val == a.hi>>b.val {
			return mkConst(a.w, a.lo>>b.val)
		}
		return tt.mk(OLShr, a.w, 0, "", a.lo>>b.val, a.hi>>b.val, a, b)
	}
	return tt.mk(OLShr, a.w, 0, "", 0, a.hi, a, b)
}
func (tt *TermTable) AShr(a, b *Term) *Term {
	if r := tt.each2(a, b, tt.AShr); r != nil {
		return r
	}
	if b.isConst() {
		v := b.val
		if v == 0 {
			return a
		}
		if v >= uint64(a.w) {
			v = uint64(a.w) - 1
			b = mkConst(a.w, v)
		}
		if a.isConst() {
			return mkConst(a.w, uint64(sx(a.val, a.w)>>v))
		}
	}
	if a.hi < uint64(1)<<(a.w-1) {
		return tt.LShr(a, b)
	}
	return tt.mk(OAShr, a.w, 0, "", 0, mask(a.w), a, b)
}

func (tt *TermTable) ZExt(a *Term, w uint8) *Term {
	if r := tt.each1(a, func(a *Term) *Term { return tt.ZExt(a, w) }); r != nil {
		return r
	}
	if a.w == w {
		return a
	}
	if a.isConst() {
		return mkConst(w, a.val)
	}
	if a.op == OZExt {
		return tt.ZExt(a.args[0], w)
	}
	return tt.mk(OZExt, w, 0, "", a.lo, a.hi, a)
}
func (tt *TermTable) SExt(a *Term, w uint8) *Term {
	if r := tt.each1(a, func(a *Term) *Term { return tt.SExt(a, w) }); r != nil {
		return r
	}
	if a.w == w {
		return a
	}
	if a.isConst() {
		return mkConst(w, uint64(sx(a.val, a.w)))
	}
	if a.hi < uint64(1)<<(a.w-1) {
		return tt.ZExt(a, w)
	}
	if a.op == ONeg && a.args[0].hi < uint64(1)<<(a.w-1) {
		return tt.Neg(tt.ZExt(a.args[0], w))
	}
	return tt.mk(OSExt, w, 0, "", 0, mask(w), a)
}
func (tt *TermTable) Trunc(a *Term, w uint8) *Term {
	if r := tt.each1(a, func(a *Term) *Term { return tt.Trunc(a, w) }); r != nil {
		return r
	}
	if a.w == w {
		return a
	}
	if a.isConst() {
		return mkConst(w, a.val)
	}
	switch a.op {
	case OZExt, OSExt:
		if a.args[0].w == w {
			return a.args[0]
		}
		if a.args[0].w > w {
			return tt.Trunc(a.args[0], w)
		}
		if a.op == OZExt {
			return tt.ZExt(a.args[0], w)
		}
		return tt.SExt(a.args[0], w)
	case OTrunc:
		return tt.Trunc(a.args[0], w)
	case ONeg:
		return tt.Neg(tt.Trunc(a.args[0], w))
	case OLShr:
		// byte extraction from a shifted zext etc.: keep
	case OBAnd:
		if a.args[1].isConst() && a.args[1].val&mask(w) == mask(w) {
			return tt.Trunc(a.args[0], w)
		}
	case OIte:
		if a.args[1].isConst() || a.args[2].isConst() {
			return tt.Ite(a.args[0], tt.Trunc(a.args[1], w), tt.Trunc(a.args[2], w))
		}
	}
	lo, hi := uint64(0), mask(w)
	if a.hi <= hi {
		lo, hi = a.lo, a.hi
	}
	return tt.mk(OTrunc, w, 0, "", lo, hi, a)
}

// ---- floats (values are IEEE bit patterns) ----

func fval(t *Term) float64 {
	if t.w == 32 {
		return float64(math.Float32frombits(uint32(t.val)))
	}
	return math.Float64frombits(t.val)
}
func fconst(w uint8, f float64) *Term {
	if w == 32 {
		return mkConst(32, uint64(math.Float32bits(float32(f))))
	}
	return mkConst(64, math.Float64bits(f))
}
func foldF(op Op, w uint8, x, y float64) *Term {
	if w == 32 {
		a, b := float32(x), float32(y)
		var r float32
		switch op {
		case OFAdd:
			r = a + b
		case OFSub:
			r = a - b
		case OFMul:
			r = a * b
		case OFDiv:
			r = a / b
		}
		return mkConst(32, uint64(math.Float32bits(r)))
	}
	switch op {
	case OFAdd:
		return fconst(w, x+y)
	case OFSub:
		return fconst(w, x-y)
	case OFMul:
		return fconst(w, x*y)
	}
	return fconst(w, x/y)
}
func (tt *TermTable) FBin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return foldF(op, a.w, fval(a), fval(b))
	}
	return tt.mk(op, a.w, 0, "", 0, mask(a.w), a, b)
}
func (tt *TermTable) FCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		switch op {
		case OFLt:
			return mkBool(fval(a) < fval(b))
		case OFLe:
			return mkBool(fval(a) <= fval(b))
		}
		return mkBool(fval(a) == fval(b))
	}
	// a converted integer is never NaN
	if a == b && (a.op == OIToF || a.op == OUToF) {
		return mkBool(op != OFLt)
	}
	return tt.mk(op, 0, 0, "", 0, 1, a, b)
}
func (tt *TermTable) FNeg(a *Term) *Term {
	return tt.BXor(a, mkConst(a.w, 1<<(a.w-1)))
}
func (tt *TermTable) FConv(op Op, a *Term, w uint8, signed bool) *Term {
	if a.isConst() {
		switch op {
		case OFToI:
			return mkConst(w, uint64(int64(fval(a))))
		case OFToU:
			f := fval(a)
			return mkConst(w, uint64(f))
		case OIToF:
			if w == 32 {
				return mkConst(32, uint64(math.Float32bits(float32(sx(a.val, a.w)))))
			}
			return fconst(w, float64(sx(a.val, a.w)))
		case OUToF:
			if w == 32 {
				return mkConst(32, uint64(math.Float32bits(float32(a.val))))
			}
			return fconst(w, float64(a.val))
		case OFToF:
			return fconst(w, fval(a))
		}
	}
	return tt.mk(op, w, 0, "", 0, mask(w), a)
}

func (tt *TermTable) App(name string, w uint8, args ...*Term) *Term {
	return tt.mk(OApp, w, 0, name, 0, mask(w), args...)
}

// ---- evaluation ----

type Model map[string]uint64

func evalTerm(t *Term, m Model, memo map[*Term]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return m[t.name] & maskb(t.w)
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	ev := func(i int) uint64 { return evalTerm(t.args[i], m, memo) }
	b := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	switch t.op {
	case ONot:
		r = ev(0) ^ 1
	case OAnd:
		r = b(ev(0) != 0 && ev(1) != 0)
	case OOr:
		r = b(ev(0) != 0 || ev(1) != 0)
	case OEq:
		r = b(ev(0) == ev(1))
	case OULt:
		r = b(ev(0) < ev(1))
	case OULe:
		r = b(ev(0) <= ev(1))
	case OSLt:
		r = b(sx(ev(0), t.args[0].w) < sx(ev(1), t.args[0].w))
	case OSLe:
		r = b(sx(ev(0), t.args[0].w) <= sx(ev(1), t.args[0].w))
	case OIte:
		if ev(0) != 0 {
			r = ev(1)
		} else {
			r = ev(2)
		}
	case OAdd:
		r = ev(0) + ev(1)
	case OSub:
		r = ev(0) - ev(1)
	case OMul:
		r = ev(0) * ev(1)
	case OUDiv:
		if y := ev(1); y == 0 {
			r = ^uint64(0)
		} else {
			r = ev(0) / y
		}
	case OURem:
		if y := ev(1); y == 0 {
			r = ev(0)
		} else {
			r = ev(0) % y
		}
	case OSDiv:
		x, y := sx(ev(0), t.w), sx(ev(1), t.w)
		if y == 0 {
			if x < 0 {
				r = 1
			} else {
				r = ^uint64(0)
			}
		} else if y == -1 {
			r = uint64(-x)
		} else {
			r = uint64(x / y)
		}
	case OSRem:
		x, y := sx(ev(0), t.w), sx(ev(1), t.w)
		if y == 0 {
			r = uint64(x)
		} else if y == -1 {
			r = 0
		} else {
			r = uint64(x % y)
		}
	case OBAnd:
		r = ev(0) & ev(1)
	case OBOr:
		r = ev(0) | ev(1)
	case OBXor:
		r = ev(0) ^ ev(1)
	case OBNot:
		r = ^ev(0)
	case ONeg:
		r = -ev(0)
	case OShl:
		if y := ev(1); y < 64 {
			r = ev(0) << y
		}
	case OLShr:
		if y := ev(1); y < 64 {
			r = ev(0) >> y
		}
	case OAShr:
		y := ev(1)
		if y > 63 {
			y = 63
		}
		r = uint64(sx(ev(0), t.w) >> y)
	case OZExt:
		r = ev(0)
	case OSExt:
		r = uint64(sx(ev(0), t.args[0].w))
	case OTrunc:
		r = ev(0)
	case OFAdd, OFSub, OFMul, OFDiv:
		r = foldF(t.op, t.w, fval(mkConst(t.w, ev(0))), fval(mkConst(t.w, ev(1)))).val
	case OFLt, OFLe, OFEq:
		x, y := fval(mkConst(t.args[0].w, ev(0))), fval(mkConst(t.args[0].w, ev(1)))
		switch t.op {
		case OFLt:
			r = b(x < y)
		case OFLe:
			r = b(x <= y)
		default:
			r = b(x == y)
		}
	case OFToI, OFToU, OIToF, OUToF, OFToF:
		r = (&TermTable{}).FConv(t.op, mkConst(t.args[0].w, ev(0)), t.w, true).val
	default:
		panic("eval: op " + opNames[t.op])
	}
	r &= maskb(t.w)
	memo[t] = r
	return r
}

func maskb(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

// ---- SMT printing ----

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func constStr(t *Term) string {
	if t.w == 0 {
		if t.val != 0 {
			return "true"
		}
		return "false"
	}
	return "(_ bv" + strconv.FormatUint(t.val, 10) + " " + strconv.Itoa(int(t.w)) + ")"
}

func fpSort(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}
func fpWrap(s string, w uint8) string { return "((_ to_fp " + fpSort(w) + ") " + s + ")" }

// body prints t with its arguments already named.
func (t *Term) body(ref func(*Term) string) string {
	a := func(i int) string { return ref(t.args[i]) }
	switch t.op {
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, a(0))
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, a(0))
	case OTrunc:
		return fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, a(0))
	case OFAdd, OFSub, OFMul, OFDiv:
		return fmt.Sprintf("(fp.to_ieee_bv (%s RNE %s %s))", opNames[t.op], fpWrap(a(0), t.w), fpWrap(a(1), t.w))
	case OFLt, OFLe, OFEq:
		w := t.args[0].w
		return fmt.Sprintf("(%s %s %s)", opNames[t.op], fpWrap(a(0), w), fpWrap(a(1), w))
	case OFToI:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, fpWrap(a(0), t.args[0].w))
	case OFToU:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.w, fpWrap(a(0), t.args[0].w))
	case OIToF:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpSort(t.w), a(0))
	case OUToF:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp_unsigned %s) RNE %s))", fpSort(t.w), a(0))
	case OFToF:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpSort(t.w), fpWrap(a(0), t.args[0].w))
	case OApp:
		var sb strings.Builder
		sb.WriteString("(" + t.name)
		for i := range t.args {
			sb.WriteString(" " + a(i))
		}
		sb.WriteString(")")
		return sb.String()
	}
	var sb strings.Builder
	sb.WriteString("(" + opNames[t.op])
	for i := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(a(i))
	}
	sb.WriteByte(')')
	return sb.String()
}
