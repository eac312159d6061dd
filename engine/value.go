package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// value is one of: *Term (bool, ints, floats as bit patterns), string, *SStr
// (string with symbolic bytes), structure, array, *value (pointer), *symPtr,
// []value (slice), *smap, iface, *closure, tuple, *schan, *rangeIter.
type value any

type structure []value
type array []value
type tuple []value

type SStr struct{ b []*Term }

type iface struct {
	t types.Type
	v value
}

type closure struct {
	fn  *ssa.Function
	env []value
	// native, when set, is an engine-level function value.
	native func(th *thread, args []value) value
}

// symPtr is the address of element idx of base for a symbolic idx.
type symPtr struct {
	base []value
	idx  *Term
}

type builtinVal struct{ b *ssa.Builtin }

// ---- types ----

var canonMu sync.Mutex
var canonMap typeutil.Map
var canonFast sync.Map

func canon(t types.Type) types.Type {
	if c, ok := canonFast.Load(t); ok {
		return c.(types.Type)
	}
	canonMu.Lock()
	defer canonMu.Unlock()
	u := types.Unalias(t)
	c := canonMap.At(u)
	if c == nil {
		canonMap.Set(u, u)
		c = u
	}
	canonFast.Store(t, c)
	return c.(types.Type)
}

func under(t types.Type) types.Type { return t.Underlying() }

type numInfo struct {
	w      uint8
	signed bool
	float  bool
}

func basicNum(t types.Type) (numInfo, bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return numInfo{}, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return numInfo{0, false, false}, true
	case types.Int8:
		return numInfo{8, true, false}, true
	case types.Int16:
		return numInfo{16, true, false}, true
	case types.Int32, types.UntypedRune:
		return numInfo{32, true, false}, true
	case types.Int, types.Int64, types.UntypedInt:
		return numInfo{64, true, false}, true
	case types.Uint8:
		return numInfo{8, false, false}, true
	case types.Uint16:
		return numInfo{16, false, false}, true
	case types.Uint32:
		return numInfo{32, false, false}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return numInfo{64, false, false}, true
	case types.Float32:
		return numInfo{32, true, true}, true
	case types.Float64, types.UntypedFloat:
		return numInfo{64, true, true}, true
	}
	return numInfo{}, false
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func zero(t types.Type) value {
	switch u := under(t).(type) {
	case *types.Basic:
		if n, ok := basicNum(u); ok {
			return mkConst(n.w, 0)
		}
		if u.Info()&types.IsString != 0 {
			return ""
		}
		if u.Kind() == types.UnsafePointer {
			return (*value)(nil)
		}
		if u.Kind() == types.UntypedNil {
			return nil
		}
		if u.Info()&types.IsComplex != 0 {
			return tuple{mkConst(64, 0), mkConst(64, 0)}
		}
		panic(unsupported("zero of " + t.String()))
	case *types.Pointer:
		return (*value)(nil)
	case *types.Slice:
		return []value(nil)
	case *types.Map:
		return (*smap)(nil)
	case *types.Chan:
		return (*schan)(nil)
	case *types.Signature:
		return (*closure)(nil)
	case *types.Interface:
		return iface{}
	case *types.Struct:
		s := make(structure, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(array, u.Len())
		if u.Len() > 0 {
			z := zero(u.Elem())
			for i := range a {
				if i > 0 {
					z = copyVal(z)
				}
				a[i] = z
			}
		}
		return a
	case *types.Tuple:
		if u.Len() == 1 {
			return zero(u.At(0).Type())
		}
		s := make(tuple, u.Len())
		for i := range s {
			s[i] = zero(u.At(i).Type())
		}
		return s
	}
	panic(unsupported("zero of " + t.String()))
}

func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		c := make(structure, len(v))
		for i := range v {
			c[i] = copyVal(v[i])
		}
		return c
	case array:
		c := make(array, len(v))
		for i := range v {
			c[i] = copyVal(v[i])
		}
		return c
	}
	return v
}

// storeInto stores v at addr keeping the identity of nested cells.
func storeInto(addr *value, v value) {
	switch v := v.(type) {
	case structure:
		if d, ok := (*addr).(structure); ok && len(d) == len(v) {
			for i := range v {
				storeInto(&d[i], v[i])
			}
			return
		}
		*addr = copyVal(v)
	case array:
		if d, ok := (*addr).(array); ok && len(d) == len(v) {
			for i := range v {
				storeInto(&d[i], v[i])
			}
			return
		}
		*addr = copyVal(v)
	default:
		*addr = v
	}
}

func constValue(c *ssa.Const) value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		panic(unsupported("const of type param " + tp.String()))
	}
	if n, ok := basicNum(t); ok {
		if n.float {
			f, _ := constant.Float64Val(c.Value)
			if n.w == 32 {
				f32, _ := constant.Float32Val(c.Value)
				return mkConst(32, uint64(math.Float32bits(f32)))
			}
			return mkConst(64, math.Float64bits(f))
		}
		if n.w == 0 {
			return mkBool(constant.BoolVal(c.Value))
		}
		if n.signed {
			return mkConst(n.w, uint64(c.Int64()))
		}
		return mkConst(n.w, c.Uint64())
	}
	if isString(t) {
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	}
	if b, ok := under(t).(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return (*value)(nil)
	}
	if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
		return tuple{mkConst(64, 0), mkConst(64, 0)}
	}
	panic(unsupported("const " + c.String()))
}

// ---- strings ----

func strLen(v value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen of %T", v))
}

func strByte(v value, i int) *Term {
	switch s := v.(type) {
	case string:
		return mkConst(8, uint64(s[i]))
	case *SStr:
		return s.b[i]
	}
	panic("strByte")
}

func strBytes(v value) []*Term {
	switch s := v.(type) {
	case string:
		b := make([]*Term, len(s))
		for i := range b {
			b[i] = mkConst(8, uint64(s[i]))
		}
		return b
	case *SStr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes of %T", v))
}

func mkStr(b []*Term) value {
	for _, t := range b {
		if !t.isConst() {
			return &SStr{b}
		}
	}
	r := make([]byte, len(b))
	for i, t := range b {
		r[i] = byte(t.val)
	}
	return string(r)
}

func strSlice(v value, lo, hi int) value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SStr:
		return mkStr(s.b[lo:hi:hi])
	}
	panic("strSlice")
}

func strConcat(a, b value) value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x + y
	}
	if ok1 && x == "" {
		return b
	}
	if ok2 && y == "" {
		return a
	}
	p, q := strBytes(a), strBytes(b)
	r := make([]*Term, 0, len(p)+len(q))
	r = append(r, p...)
	r = append(r, q...)
	return mkStr(r)
}

func (tt *TermTable) strEq(a, b value) *Term {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return mkBool(x == y)
	}
	if strLen(a) != strLen(b) {
		return tFalse
	}
	if a == b {
		return tTrue
	}
	return tt.bytesEq(strBytes(a), strBytes(b))
}

func (tt *TermTable) bytesEq(p, q []*Term) *Term {
	if len(p) != len(q) {
		return tFalse
	}
	r := tTrue
	for i := range p {
		e := tt.Eq(p[i], q[i])
		if e == tFalse {
			return tFalse
		}
		r = tt.And(r, e)
	}
	return r
}

// strLess gives a < b (lexicographic).
func (tt *TermTable) bytesLess(p, q []*Term) *Term {
	n := min(len(p), len(q))
	r := mkBool(len(p) < len(q))
	for i := n - 1; i >= 0; i-- {
		r = tt.Or(tt.ULt(p[i], q[i]), tt.And(tt.Eq(p[i], q[i]), r))
	}
	return r
}

// ---- equality ----

func (in *interp) eq(a, b value) *Term {
	tt := in.tt
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			panic(fmt.Sprintf("eq *Term vs %T", b))
		}
		return tt.Eq(x, y)
	case string, *SStr:
		return tt.strEq(a, b)
	case iface:
		y := b.(iface)
		if x.t == nil || y.t == nil {
			return mkBool(x.t == nil && y.t == nil)
		}
		if x.t != y.t {
			return tFalse
		}
		if !types.Comparable(x.t) {
			in.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return in.eq(x.v, y.v)
	case structure:
		y := b.(structure)
		r := tTrue
		for i := range x {
			r = tt.And(r, in.eq(x[i], y[i]))
			if r == tFalse {
				return r
			}
		}
		return r
	case array:
		y := b.(array)
		r := tTrue
		for i := range x {
			r = tt.And(r, in.eq(x[i], y[i]))
			if r == tFalse {
				return r
			}
		}
		return r
	case *value:
		if y, ok := b.(*value); ok {
			return mkBool(x == y)
		}
		return tFalse
	case []value:
		y := b.([]value)
		if x == nil || y == nil {
			return mkBool(x == nil && y == nil)
		}
	case *smap:
		return mkBool(x == b.(*smap))
	case *schan:
		return mkBool(x == b.(*schan))
	case *closure:
		y := b.(*closure)
		if x == nil || y == nil {
			return mkBool(x == nil && y == nil)
		}
	case tuple:
		y := b.(tuple)
		r := tTrue
		for i := range x {
			r = tt.And(r, in.eq(x[i], y[i]))
		}
		return r
	case nil:
		return mkBool(b == nil)
	}
	panic(unsupported(fmt.Sprintf("eq %T %T", a, b)))
}

// ---- maps ----

type mapEntry struct {
	k, v    value
	deleted bool
}

type smap struct {
	ents []*mapEntry
	idx  map[string]*mapEntry // concrete keys only
	nsym int                  // live entries with symbolic keys
	n    int
	reg  bool
	cell value // stands for the map in race detection
}

func newMap() *smap { return &smap{idx: map[string]*mapEntry{}} }

func concKey(v value, sb *strings.Builder) bool {
	switch x := v.(type) {
	case *Term:
		if !x.isConst() {
			return false
		}
		sb.WriteString(strconv.FormatUint(x.val, 16))
		sb.WriteByte(',')
		return true
	case string:
		sb.WriteString(strconv.Itoa(len(x)))
		sb.WriteByte(':')
		sb.WriteString(x)
		return true
	case *SStr:
		return false
	case iface:
		if x.t == nil {
			sb.WriteString("nil;")
			return true
		}
		fmt.Fprintf(sb, "%p/", x.t)
		return concKey(x.v, sb)
	case structure:
		for _, e := range x {
			if !concKey(e, sb) {
				return false
			}
		}
		return true
	case array:
		for _, e := range x {
			if !concKey(e, sb) {
				return false
			}
		}
		return true
	case *value:
		fmt.Fprintf(sb, "p%p;", x)
		return true
	case *schan:
		fmt.Fprintf(sb, "c%p;", x)
		return true
	}
	panic(unsupported(fmt.Sprintf("map key %T", v)))
}

func (in *interp) mapFind(m *smap, k value) *mapEntry {
	if m == nil {
		return nil
	}
	var sb strings.Builder
	if concKey(k, &sb) {
		if e, ok := m.idx[sb.String()]; ok {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
		for _, e := range m.ents {
			if e.deleted {
				continue
			}
			if c := in.eq(e.k, k); in.branch(c) {
				return e
			}
		}
		return nil
	}
	for _, e := range m.ents {
		if e.deleted {
			continue
		}
		if in.branch(in.eq(e.k, k)) {
			return e
		}
	}
	return nil
}

func (in *interp) mapSet(m *smap, k, v value) {
	if m == nil {
		in.rtPanic("assignment to entry in nil map")
	}
	if e := in.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	e := &mapEntry{k: k, v: v}
	m.ents = append(m.ents, e)
	m.n++
	var sb strings.Builder
	if concKey(k, &sb) {
		m.idx[sb.String()] = e
	} else {
		m.nsym++
	}
}

func (in *interp) mapDelete(m *smap, k value) {
	if m == nil {
		return
	}
	e := in.mapFind(m, k)
	if e == nil {
		return
	}
	e.deleted = true
	m.n--
	var sb strings.Builder
	if concKey(e.k, &sb) {
		delete(m.idx, sb.String())
	} else {
		m.nsym--
	}
	if len(m.ents) > 32 && m.n < len(m.ents)/2 {
		var l []*mapEntry
		for _, e := range m.ents {
			if !e.deleted {
				l = append(l, e)
			}
		}
		m.ents = l
	}
}

func (m *smap) clear() {
	if m == nil {
		return
	}
	for _, e := range m.ents {
		e.deleted = true
	}
	m.ents = nil
	m.idx = map[string]*mapEntry{}
	m.nsym, m.n = 0, 0
}

func (m *smap) live() []*mapEntry {
	if m == nil {
		return nil
	}
	var l []*mapEntry
	for _, e := range m.ents {
		if !e.deleted {
			l = append(l, e)
		}
	}
	return l
}

type rangeIter struct {
	// maps
	ents []*mapEntry
	i    int
	// strings
	s   value
	str bool
}

// ---- channels ----

type schan struct {
	buf     []value
	cap     int
	closed  bool
	taken   int
	sent    int
	recvers int
}

// ---- printing ----

func vstr(v value, m Model) string {
	return vstrD(v, m, 0, map[*Term]uint64{})
}

func vstrD(v value, m Model, d int, memo map[*Term]uint64) string {
	if d > 6 {
		return "..."
	}
	switch x := v.(type) {
	case *Term:
		u := evalTerm(x, m, memo)
		if x.w == 0 {
			return strconv.FormatBool(u != 0)
		}
		return strconv.FormatUint(u, 10)
	case string:
		return strconv.Quote(x)
	case *SStr:
		b := make([]byte, len(x.b))
		for i, t := range x.b {
			b[i] = byte(evalTerm(t, m, memo))
		}
		return strconv.Quote(string(b))
	case structure:
		var l []string
		for _, e := range x {
			l = append(l, vstrD(e, m, d+1, memo))
		}
		return "{" + strings.Join(l, " ") + "}"
	case array:
		return vstrD(structure(x), m, d, memo)
	case tuple:
		return vstrD(structure(x), m, d, memo)
	case []value:
		var l []string
		for _, e := range x {
			l = append(l, vstrD(e, m, d+1, memo))
		}
		return "[" + strings.Join(l, " ") + "]"
	case *value:
		if x == nil {
			return "nil"
		}
		return "&" + vstrD(*x, m, d+1, memo)
	case iface:
		if x.t == nil {
			return "nil"
		}
		return vstrD(x.v, m, d+1, memo)
	case *smap:
		var l []string
		for _, e := range x.live() {
			l = append(l, vstrD(e.k, m, d+1, memo)+":"+vstrD(e.v, m, d+1, memo))
		}
		sort.Strings(l)
		return "map[" + strings.Join(l, " ") + "]"
	}
	return fmt.Sprintf("%T", v)
}

type unsupportedErr struct{ msg string }

func unsupported(m string) unsupportedErr { return unsupportedErr{m} }
