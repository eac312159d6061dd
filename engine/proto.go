package main

import (
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"
)

// Models of the protobuf runtime on generated message structs, driven by their
// struct tags: deep copy, equality, reset and the wire encoding.

type protoField struct {
	idx    int
	num    int
	wire   string // bytes, varint, fixed64, fixed32, zigzag32, zigzag64
	packed bool
	opt    bool // explicit presence (pointer or oneof member)
	oneof  bool
	t      types.Type
}

var protoMu sync.Mutex
var protoCache = map[types.Type][]protoField{}

func protoTag(tag string) (protoField, bool) {
	st := reflect.StructTag(tag)
	p := st.Get("protobuf")
	if p == "" {
		return protoField{}, false
	}
	l := strings.Split(p, ",")
	f := protoField{wire: l[0]}
	f.num, _ = strconv.Atoi(l[1])
	for _, x := range l[2:] {
		switch x {
		case "packed":
			f.packed = true
		case "oneof":
			f.opt = true
		}
	}
	return f, true
}

func protoFields(t types.Type) []protoField {
	protoMu.Lock()
	defer protoMu.Unlock()
	if l, ok := protoCache[t]; ok {
		return l
	}
	st, ok := under(t).(*types.Struct)
	if !ok {
		panic(unsupported("protobuf message of type " + t.String()))
	}
	var l []protoField
	any := false
	for i := 0; i < st.NumFields(); i++ {
		f, ok := protoTag(st.Tag(i))
		if !ok {
			if reflect.StructTag(st.Tag(i)).Get("protobuf_oneof") == "" {
				if strings.Contains(st.Field(i).Type().String(), "protoimpl") || strings.Contains(st.Field(i).Type().String(), "internal/impl") {
					any = true
				}
				continue
			}
			f = protoField{oneof: true, num: 1 << 20}
		}
		any = true
		f.idx = i
		f.t = st.Field(i).Type()
		if _, ok := under(f.t).(*types.Map); ok {
			panic(unsupported("protobuf map field in " + t.String()))
		}
		l = append(l, f)
	}
	if !any {
		panic(unsupported("not a protobuf message: " + t.String()))
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].num < l[j].num })
	protoCache[t] = l
	return l
}

// protoMsg splits a proto.Message into its struct type and pointer.
func protoMsg(m value) (types.Type, *value) {
	x := m.(iface)
	if x.t == nil {
		return nil, nil
	}
	p, ok := under(x.t).(*types.Pointer)
	if !ok {
		panic(unsupported("protobuf message of type " + x.t.String()))
	}
	v, _ := x.v.(*value)
	return p.Elem(), v
}

func isMsg(t types.Type) (types.Type, bool) {
	p, ok := under(t).(*types.Pointer)
	if !ok {
		return nil, false
	}
	_, ok = under(p.Elem()).(*types.Struct)
	return p.Elem(), ok
}

func (in *interp) protoClone(t types.Type, p *value) *value {
	if p == nil {
		return nil
	}
	out := zero(t).(structure)
	src := (*p).(structure)
	for _, f := range protoFields(t) {
		v := src[f.idx]
		if f.oneof {
			w := v.(iface)
			if w.t == nil {
				continue
			}
			wt := under(w.t).(*types.Pointer).Elem()
			wp, _ := w.v.(*value)
			if wp == nil {
				continue
			}
			ws := (*wp).(structure)
			st := under(wt).(*types.Struct)
			var nv value = structure{in.protoCloneVal(st.Field(0).Type(), ws[0], true)}
			out[f.idx] = iface{w.t, &nv}
			continue
		}
		out[f.idx] = in.protoCloneVal(f.t, v, f.opt)
	}
	var r value = out
	return &r
}

func (in *interp) protoCloneVal(t types.Type, v value, opt bool) value {
	switch x := v.(type) {
	case *value:
		if x == nil {
			return x
		}
		if mt, ok := isMsg(t); ok {
			return in.protoClone(mt, x)
		}
		var c value = copyVal(*x)
		return &c
	case []value:
		if len(x) == 0 && !(opt && x != nil) {
			return []value(nil)
		}
		et := under(t).(*types.Slice).Elem()
		o := make([]value, len(x))
		for i := range x {
			o[i] = in.protoCloneVal(et, x[i], false)
			if p, ok := o[i].(*value); ok && p == nil {
				if mt, ok := isMsg(et); ok {
					z := zero(mt)
					o[i] = &z
				}
			}
		}
		return o
	}
	return copyVal(v)
}

func (in *interp) protoEq(t types.Type, a, b *value) *Term {
	if a == nil || b == nil {
		return mkBool(a == b)
	}
	if a == b {
		return tTrue
	}
	x, y := (*a).(structure), (*b).(structure)
	r := tTrue
	for _, f := range protoFields(t) {
		var c *Term
		if f.oneof {
			w, z := x[f.idx].(iface), y[f.idx].(iface)
			wp, _ := w.v.(*value)
			zp, _ := z.v.(*value)
			if wp == nil || zp == nil {
				c = mkBool(wp == nil && zp == nil)
			} else if w.t != z.t {
				c = tFalse
			} else {
				st := under(under(w.t).(*types.Pointer).Elem()).(*types.Struct)
				c = in.protoEqVal(st.Field(0).Type(), (*wp).(structure)[0], (*zp).(structure)[0])
			}
		} else {
			c = in.protoEqVal(f.t, x[f.idx], y[f.idx])
		}
		r = in.tt.And(r, c)
		if r == tFalse {
			return r
		}
	}
	return r
}

func (in *interp) protoEqVal(t types.Type, a, b value) *Term {
	switch x := a.(type) {
	case *value:
		y := b.(*value)
		if mt, ok := isMsg(t); ok {
			return in.protoEq(mt, x, y)
		}
		if x == nil || y == nil {
			return mkBool(x == nil && y == nil)
		}
		return in.protoEqVal(under(t).(*types.Pointer).Elem(), *x, *y)
	case []value:
		y := b.([]value)
		if len(x) != len(y) {
			return tFalse
		}
		et := under(t).(*types.Slice).Elem()
		r := tTrue
		for i := range x {
			r = in.tt.And(r, in.protoEqVal(et, x[i], y[i]))
			if r == tFalse {
				return r
			}
		}
		return r
	case *Term:
		y := b.(*Term)
		if n, _ := basicNum(t); n.float && x != y {
			tt := in.tt
			nan := func(z *Term) *Term { return tt.Not(tt.FCmp(OFEq, z, z)) }
			return tt.Or(tt.FCmp(OFEq, x, y), tt.And(nan(x), nan(y)))
		}
	}
	return in.eq(a, b)
}

func (in *interp) protoVarint(v *Term) []*Term {
	if v.w == 0 {
		v = in.tt.Ite(v, mkConst(64, 1), mkConst(64, 0))
	}
	if v.w < 64 {
		v = in.tt.SExt(v, 64)
	}
	n := 1
	for n < 10 && !in.branch(in.tt.ULt(v, mkConst(64, uint64(1)<<(7*n)))) {
		n++
	}
	var o []*Term
	for i := 0; i < n; i++ {
		b := in.tt.Trunc(in.tt.LShr(v, mkConst(64, uint64(7*i))), 8)
		if i < n-1 {
			b = in.tt.BOr(b, mkConst(8, 0x80))
		} else {
			b = in.tt.BAnd(b, mkConst(8, 0x7f))
		}
		o = append(o, b)
	}
	return o
}

func (in *interp) protoScalar(f protoField, t types.Type, v value) ([]*Term, int) {
	switch f.wire {
	case "varint":
		return in.protoVarint(v.(*Term)), 0
	case "zigzag32", "zigzag64":
		x := v.(*Term)
		if x.w < 64 {
			x = in.tt.SExt(x, 64)
		}
		return in.protoVarint(in.tt.BXor(in.tt.Shl(x, mkConst(64, 1)), in.tt.AShr(x, mkConst(64, 63)))), 0
	case "fixed64", "fixed32":
		x := v.(*Term)
		var o []*Term
		for i := 0; i < int(x.w)/8; i++ {
			o = append(o, in.tt.Trunc(in.tt.LShr(x, mkConst(x.w, uint64(8*i))), 8))
		}
		if f.wire == "fixed32" {
			return o, 5
		}
		return o, 1
	}
	var body []*Term
	if mt, ok := isMsg(t); ok {
		body = in.protoMarshal(mt, v.(*value))
	} else if s, ok := v.([]value); ok {
		body = asBytes(s)
	} else {
		body = strBytes(v)
		if str, ok := concreteStr(body); ok && !utf8.ValidString(str) {
			panic(protoInvalid{})
		}
	}
	return append(in.protoVarint(mkConst(64, uint64(len(body)))), body...), 2
}

func (in *interp) protoField(f protoField, t types.Type, v value, out []*Term) []*Term {
	b, w := in.protoScalar(f, t, v)
	out = append(out, in.protoVarint(mkConst(64, uint64(f.num<<3|w)))...)
	return append(out, b...)
}

func (in *interp) protoMarshal(t types.Type, p *value) []*Term {
	var out []*Term
	if p == nil {
		return nil
	}
	src := (*p).(structure)
	for _, f := range protoFields(t) {
		v := src[f.idx]
		if f.oneof {
			w := v.(iface)
			wp, _ := w.v.(*value)
			if wp == nil {
				continue
			}
			st := under(under(w.t).(*types.Pointer).Elem()).(*types.Struct)
			g, ok := protoTag(st.Tag(0))
			if !ok {
				panic(unsupported("oneof wrapper " + w.t.String()))
			}
			out = in.protoField(g, st.Field(0).Type(), (*wp).(structure)[0], out)
			continue
		}
		switch x := v.(type) {
		case *value:
			if x == nil {
				continue
			}
			if _, ok := isMsg(f.t); ok {
				out = in.protoField(f, f.t, x, out)
			} else {
				out = in.protoField(f, under(f.t).(*types.Pointer).Elem(), *x, out)
			}
		case []value:
			if len(x) == 0 && !(f.opt && x != nil) {
				continue
			}
			et := under(f.t).(*types.Slice).Elem()
			if b, ok := under(et).(*types.Basic); ok && b.Kind() == types.Uint8 {
				out = in.protoField(f, f.t, x, out)
				continue
			}
			if f.packed {
				var body []*Term
				for _, e := range x {
					b, _ := in.protoScalar(f, et, e)
					body = append(body, b...)
				}
				out = append(out, in.protoVarint(mkConst(64, uint64(f.num<<3|2)))...)
				out = append(out, in.protoVarint(mkConst(64, uint64(len(body))))...)
				out = append(out, body...)
				continue
			}
			for _, e := range x {
				out = in.protoField(f, et, e, out)
			}
		case *Term:
			if x.w == 0 {
				if !in.branch(x) {
					continue
				}
			} else if in.branch(in.tt.Eq(x, mkConst(x.w, 0))) {
				continue
			}
			out = in.protoField(f, f.t, v, out)
		default:
			if len(strBytes(v)) > 0 {
				out = in.protoField(f, f.t, v, out)
			}
		}
	}
	return out
}

// protoInvalid unwinds the encoding of a message that cannot be encoded.
type protoInvalid struct{}

func concreteStr(b []*Term) (string, bool) {
	o := make([]byte, len(b))
	for i, t := range b {
		if !t.isConst() {
			return "", false
		}
		o[i] = byte(t.val)
	}
	return string(o), true
}

func initProtoIntrinsics(I map[string]intrinsic) {
	const p = "google.golang.org/protobuf/proto."
	const mo = "(google.golang.org/protobuf/proto.MarshalOptions)."
	nilErr := iface{}
	I[p+"Clone"] = fn1(func(th *thread, a []value) value {
		t, v := protoMsg(a[0])
		if t == nil {
			return iface{}
		}
		return iface{a[0].(iface).t, th.in.protoClone(t, v)}
	})
	I[p+"Equal"] = fn1(func(th *thread, a []value) value {
		t, x := protoMsg(a[0])
		u, y := protoMsg(a[1])
		if t == nil || u == nil {
			return mkBool(t == nil && u == nil)
		}
		if t != u {
			return tFalse
		}
		return th.in.protoEq(t, x, y)
	})
	I[p+"Reset"] = fn1(func(th *thread, a []value) value {
		t, x := protoMsg(a[0])
		if x == nil {
			th.in.nilDeref()
		}
		storeInto(x, zero(t))
		return nil
	})
	marshal := func(th *thread, m value) (o []value, err value) {
		t, v := protoMsg(m)
		if t == nil {
			return nil, nilErr
		}
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(protoInvalid); !ok {
					panic(r)
				}
				o, err = nil, iface{t: canon(types.NewPointer(th.in.ex.namedType("errors", "errorString"))), v: ptrTo(structure{"string field contains invalid UTF-8"})}
			}
		}()
		return bytesVal(th.in.protoMarshal(t, v)), nilErr
	}
	I[p+"Marshal"] = fn1(func(th *thread, a []value) value {
		b, err := marshal(th, a[0])
		return tuple{th.in.appendVals0(make([]value, 0), b), err}
	})
	I[mo+"Marshal"] = fn1(func(th *thread, a []value) value {
		b, err := marshal(th, a[1])
		return tuple{th.in.appendVals0(make([]value, 0), b), err}
	})
	I[mo+"MarshalAppend"] = fn1(func(th *thread, a []value) value {
		b, err := marshal(th, a[2])
		return tuple{th.appendRace(a[1].([]value), b), err}
	})
	I[p+"Size"] = fn1(func(th *thread, a []value) value {
		b, _ := marshal(th, a[0])
		return mkConst(64, uint64(len(b)))
	})
}

func ptrTo(v value) *value { return &v }
