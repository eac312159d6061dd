package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"

	"github.com/cespare/xxhash/v2"
	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/gernest/requiemdb"
const vsymPath = modPath + "/internal/vsym"

var intrinsics map[string]intrinsic
var models = map[string]*ssa.Function{}
var pkgIntrinsics map[string]intrinsic

func c64(v uint64) *Term { return mkConst(64, v) }

func goStr(th *thread, v value) string {
	switch s := v.(type) {
	case string:
		return s
	case *SStr:
		b := make([]byte, len(s.b))
		for i, t := range s.b {
			b[i] = byte(th.in.concretize(t))
		}
		return string(b)
	}
	panic(unsupported(fmt.Sprintf("string expected, got %T", v)))
}

func noop(th *thread, fi *fnInfo, args []value) value {
	res := fi.fn.Signature.Results()
	if res.Len() == 0 {
		return nil
	}
	return zero(res)
}

func unmodelled(th *thread, fi *fnInfo, args []value) value {
	if fi.fn.Blocks != nil && (fi.fn.Synthetic != "" || fi.fn.Name() == "init") {
		panic(unsupported("library wrapper " + fi.key))
	}
	panic(unsupported("no model of " + fi.key))
}

func zeroResults(fn *ssa.Function) value {
	res := fn.Signature.Results()
	if res.Len() == 0 {
		return nil
	}
	return zero(res)
}

func bytesOf(v value) []*Term {
	s := v.([]value)
	b := make([]*Term, len(s))
	for i := range s {
		b[i] = s[i].(*Term)
	}
	return b
}

func bytesVal(b []*Term) []value {
	r := make([]value, len(b))
	for i := range b {
		r[i] = b[i]
	}
	return r
}

func strVal(s string) []value {
	r := make([]value, len(s))
	for i := range r {
		r[i] = mkConst(8, uint64(s[i]))
	}
	return r
}

// ---- locks ----

type lockState struct {
	w       bool
	readers int
	owner   *thread
	vc      vclock // released by writers
	rvc     vclock // released by readers
}

func (in *interp) lock(p *value) *lockState {
	if p == nil {
		in.nilDeref()
	}
	if l, ok := in.ext[p]; ok {
		return l.(*lockState)
	}
	l := &lockState{}
	in.ext[p] = l
	return l
}

func mutexLock(th *thread, fi *fnInfo, args []value) value {
	l := th.in.lock(args[0].(*value))
	th.schedPoint()
	th.block(func() bool { return !l.w && l.readers == 0 })
	l.w = true
	l.owner = th
	th.acquire(l.vc)
	th.acquire(l.rvc)
	return nil
}

func mutexUnlock(th *thread, fi *fnInfo, args []value) value {
	l := th.in.lock(args[0].(*value))
	if !l.w {
		panic(&targetPanic{v: th.in.mkError("fatal error: sync: unlock of unlocked mutex"), pos: th.in.where()})
	}
	l.w = false
	l.vc = th.release(l.vc)
	th.schedPoint()
	return nil
}

func rLock(th *thread, fi *fnInfo, args []value) value {
	l := th.in.lock(args[0].(*value))
	th.schedPoint()
	th.block(func() bool { return !l.w })
	l.readers++
	th.acquire(l.vc)
	return nil
}

func rUnlock(th *thread, fi *fnInfo, args []value) value {
	l := th.in.lock(args[0].(*value))
	if l.readers == 0 {
		panic(&targetPanic{v: th.in.mkError("fatal error: sync: RUnlock of unlocked RWMutex"), pos: th.in.where()})
	}
	l.readers--
	l.rvc = th.release(l.rvc)
	th.schedPoint()
	return nil
}

// ---- vector clocks ----

type vclock []int

func (v vclock) at(i int) int {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func vmax(a, b vclock) vclock {
	n := max(len(a), len(b))
	r := make(vclock, n)
	for i := range r {
		r[i] = max(a.at(i), b.at(i))
	}
	return r
}

func (th *thread) acquire(v vclock) {
	if len(v) > 0 {
		th.vc = vmax(th.vc, v)
	}
}

func (th *thread) tick() {
	for len(th.vc) <= th.id {
		th.vc = append(th.vc, 0)
	}
	n := append(vclock(nil), th.vc...)
	n[th.id]++
	th.vc = n
}

func (th *thread) release(old vclock) vclock {
	if len(th.in.threads) < 2 {
		return old
	}
	r := vmax(old, th.vc)
	th.tick()
	return r
}

type access struct {
	wT, wC int // last writer
	wPos   string
	r      map[int]int
	rPos   string
}

// The accesses of models stand for those of a library that locks: only what
// they read from the caller's slices is checked.
func (th *thread) racing() bool { return th.in.races && len(th.in.threads) > 1 }

func (th *thread) raceSlice(s []value, write bool) {
	if !th.racing() || write && th.frame != nil && th.frame.fi.isModel {
		return
	}
	for i := range s {
		th.raceCheck(&s[i], write)
	}
}

// raceArgs records that an intrinsic function reads the bytes it is given.
func (th *thread) raceArgs(args []value) {
	for _, a := range args {
		s, ok := a.([]value)
		if !ok || len(s) == 0 {
			continue
		}
		if t, ok := s[0].(*Term); ok && t.w == 8 {
			th.raceSlice(s, false)
		}
	}
}

// appendRace is append by an intrinsic function.
func (th *thread) appendRace(s, add []value) value {
	if n := len(s) + len(add); n <= cap(s) {
		th.raceSlice(s[len(s):n], true)
	}
	return th.in.appendVals0(s, add)
}

func (th *thread) raceMap(m *smap, write bool) {
	if m != nil && th.racing() && !th.frame.fi.isModel {
		th.raceCheck(&m.cell, write)
	}
}

// raceCheck records an access to a memory cell and reports a data race.
func (th *thread) raceCheck(p *value, write bool) {
	in := th.in
	a := in.shadow[p]
	if a == nil {
		a = &access{wT: -1, r: map[int]int{}}
		in.shadow[p] = a
	}
	if a.wT >= 0 && a.wT != th.id && th.vc.at(a.wT) < a.wC {
		in.candidate("race", "data race: write and "+rw(write), in.where()+" || "+a.wPos)
		panic(abortPath{abViolation, "race"})
	}
	if write {
		for t, c := range a.r {
			if t != th.id && th.vc.at(t) < c {
				in.candidate("race", "data race: read and write", in.where()+" || "+a.rPos)
				panic(abortPath{abViolation, "race"})
			}
		}
		a.wT, a.wC = th.id, th.vc.at(th.id)
		a.wPos = in.where()
		a.r = map[int]int{}
		return
	}
	a.r[th.id] = th.vc.at(th.id)
	a.rPos = in.where()
}

func rw(w bool) string {
	if w {
		return "write"
	}
	return "read"
}

// ---- hashing: an injective function of the bytes ----

// digState is the immutable state of an xxhash.Digest, kept in its first
// field so that copies of the struct behave as values.
type digState struct {
	reset bool
	b     []*Term
}

func (in *interp) hash(dom string, b []*Term) *Term {
	conc := true
	for _, t := range b {
		if !t.isConst() {
			conc = false
			break
		}
	}
	for _, e := range in.hashTab {
		if e.dom == dom && len(e.in) == len(b) {
			eq := true
			for i := range b {
				if !same(e.in[i], b[i]) {
					eq = false
					break
				}
			}
			if eq {
				return e.out
			}
		}
	}
	var out *Term
	real := func() uint64 {
		raw := make([]byte, len(b))
		for i, t := range b {
			raw[i] = byte(in.eval(t))
		}
		if dom == "" {
			return xxhash.Sum64(raw)
		}
		var d xxhash.Digest
		d.Write(raw)
		return d.Sum64()
	}
	if conc {
		out = c64(real())
	} else {
		in.uniq++
		name := fmt.Sprintf("hash!%d", in.uniq)
		out = in.tt.Var(name, 64, 0, ^uint64(0))
		m := Model{}
		for k, v := range in.model {
			m[k] = v
		}
		if _, ok := m[name]; !ok || len(in.decs) >= len(in.prefix) {
			m[name] = real()
		}
		in.model = m
		in.memo = map[*Term]uint64{}
	}
	for _, e := range in.hashTab {
		if conc && e.conc {
			continue
		}
		var eq *Term
		if e.dom != dom {
			eq = tFalse
		} else {
			eq = in.tt.bytesEq(e.in, b)
		}
		oe := in.tt.Eq(e.out, out)
		var c *Term
		if eq == tFalse {
			c = in.tt.Not(oe)
		} else {
			c = in.tt.Or(in.tt.And(eq, oe), in.tt.And(in.tt.Not(eq), in.tt.Not(oe)))
		}
		in.assume(c)
	}
	in.hashTab = append(in.hashTab, hashEnt{dom: dom, in: b, out: out, conc: conc})
	return out
}

func digest(th *thread, p value) (*value, *digState) {
	pp := p.(*value)
	if pp == nil {
		th.in.nilDeref()
	}
	s := (*pp).(structure)
	if d, ok := s[0].(*digState); ok {
		return &s[0], d
	}
	return &s[0], &digState{}
}

func (in *interp) digSum(d *digState) *Term {
	dom := ""
	if !d.reset && len(d.b) >= 32 {
		dom = "unreset"
	}
	return in.hash(dom, d.b)
}

// ---- formatting ----

func (th *thread) format(f string, args []value) value {
	in := th.in
	var out []*Term
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, mkConst(8, uint64(s[i])))
		}
	}
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit(f[i : i+1])
			continue
		}
		i++
		from := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		flags := f[from:i]
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			lit("%")
			continue
		}
		if k >= len(args) {
			lit("%!missing")
			continue
		}
		a := args[k].(iface)
		k++
		verb := f[i]
		if flags != "" && a.t != nil {
			dir := "%" + flags + string(verb)
			if t, ok := a.v.(*Term); ok && t.w > 0 && strings.IndexByte("dxXobc", verb) >= 0 {
				n, _ := basicNum(a.t)
				if t.op != OConst && verb == 'd' && strings.Trim(flags, "0123456789") == "" {
					b := in.decimal(t, n.signed)
					w, _ := strconv.Atoi(strings.TrimLeft(flags, "0"))
					pad := byte(' ')
					if flags[0] == '0' {
						pad = '0'
						if len(b) < w && len(b) > 0 && b[0].op == OConst && b[0].val == '-' {
							panic(unsupported("padding a negative symbolic number"))
						}
					}
					for j := len(b); j < w; j++ {
						out = append(out, mkConst(8, uint64(pad)))
					}
					out = append(out, b...)
					continue
				}
				x := in.concretize(t)
				if n.signed {
					lit(fmt.Sprintf(dir, sx(x, t.w)))
				} else {
					lit(fmt.Sprintf(dir, x))
				}
				continue
			}
			if str, ok := concreteStr(th.fmtVal(verb, a)); ok && verb == 's' {
				lit(fmt.Sprintf(dir, str))
				continue
			}
		}
		out = append(out, th.fmtVal(verb, a)...)
	}
	return mkStr(out)
}

// decimal is the base 10 representation of v. Wide symbolic values fork on
// the number of digits only; the digits are fresh variables tied to v by their
// weighted sum, which determines them.
func (in *interp) decimal(v *Term, signed bool) []*Term {
	if v.op != OConst && signed {
		if in.branch(in.tt.SLt(v, mkConst(v.w, 0))) {
			return append([]*Term{mkConst(8, '-')}, in.decimal(in.tt.Neg(v), false)...)
		}
	}
	if v.op == OConst {
		if signed {
			return strBytes(strconv.FormatInt(sx(v.val, v.w), 10))
		}
		return strBytes(strconv.FormatUint(v.val, 10))
	}
	if v.hi-v.lo < 32 {
		return strBytes(strconv.FormatUint(in.concretize(v), 10))
	}
	if v.w < 64 {
		v = in.tt.ZExt(v, 64)
	}
	if d := in.decimals[v]; d != nil {
		return d
	}
	n, p := 1, uint64(10)
	for n < 20 && !in.branch(in.tt.ULt(v, mkConst(64, p))) {
		n++
		if n < 20 {
			p *= 10
		}
	}
	s := strconv.FormatUint(in.eval(v), 10)
	sum := mkConst(64, 0)
	out := make([]*Term, n)
	m := Model{}
	for k, x := range in.model {
		m[k] = x
	}
	w := uint64(1)
	for i := n - 1; i >= 0; i-- {
		lo, hi := uint64(0), uint64(9)
		if i == 0 && n > 1 {
			lo = 1
		}
		if i == 0 && n == 20 {
			hi = 1
		}
		k := in.freshKey("dec")
		if len(s) == n {
			m[k] = uint64(s[i] - '0')
		}
		d := in.tt.Var(k, 8, lo, hi)
		in.order = append(in.order, ndRec{k, d})
		if len(s) == n {
			in.model, in.memo = m, map[*Term]uint64{}
		}
		if lo > 0 {
			in.pcRaw(OULe, mkConst(8, lo), d)
		}
		in.pcRaw(OULe, d, mkConst(8, hi))
		out[i] = in.tt.Add(d, mkConst(8, '0'))
		sum = in.tt.Add(sum, in.tt.Mul(in.tt.ZExt(d, 64), mkConst(64, w)))
		if i > 0 {
			w *= 10
		}
	}
	in.assume(in.tt.Eq(sum, v))
	if in.decimals == nil {
		in.decimals = map[*Term][]*Term{}
	}
	in.decimals[v] = out
	return out
}

func (th *thread) fmtVal(verb byte, a iface) []*Term {
	in := th.in
	if a.t == nil {
		return strBytes("<nil>")
	}
	if verb == 'T' {
		return strBytes(a.t.String())
	}
	if verb != 'd' && verb != 'p' {
		for _, m := range []string{"Error", "String"} {
			sel := types.NewMethodSet(a.t).Lookup(nil, m)
			if sel == nil {
				continue
			}
			sig := sel.Type().(*types.Signature)
			if sig.Params().Len() != 0 || sig.Results().Len() != 1 || !isString(sig.Results().At(0).Type()) {
				continue
			}
			if p, ok := a.v.(*value); ok && p == nil {
				return strBytes("<nil>")
			}
			fn := in.lookupMethod(a, sel.Obj().(*types.Func))
			return strBytes(th.callFn(fn, []value{copyVal(a.v)}, nil))
		}
	}
	switch v := a.v.(type) {
	case string, *SStr:
		if verb == 'q' {
			return strBytes(strconv.Quote(goStr(th, v)))
		}
		if verb == 'x' {
			return strBytes(fmt.Sprintf("%x", goStr(th, v)))
		}
		return strBytes(v)
	case *Term:
		n, _ := basicNum(a.t)
		switch {
		case n.float:
			x := in.concretize(v)
			if n.w == 32 {
				return strBytes(fmt.Sprint(math.Float32frombits(uint32(x))))
			}
			return strBytes(fmt.Sprint(math.Float64frombits(x)))
		case n.w == 0:
			return strBytes(fmt.Sprint(in.branch(v)))
		case verb == 'x':
			return strBytes(strconv.FormatUint(in.concretize(v), 16))
		}
		return in.decimal(v, n.signed)
	case []value:
		if verb == 's' || verb == 'x' {
			var b []*Term
			ok := true
			for _, e := range v {
				t, isT := e.(*Term)
				if !isT || t.w != 8 {
					ok = false
					break
				}
				b = append(b, t)
			}
			if ok {
				if verb == 'x' {
					return strBytes(fmt.Sprintf("%x", goStr(th, mkStr(b))))
				}
				return b
			}
		}
	}
	return strBytes(vstr(a.v, in.model))
}

// ---- helpers for named types of the target ----

func (ex *explorer) namedType(pkg, name string) types.Type {
	p := ex.prog.ImportedPackage(pkg)
	if p == nil {
		return nil
	}
	m := p.Type(name)
	if m == nil {
		return nil
	}
	return m.Type()
}

func (in *interp) branchEqBytes(a, b []*Term) bool { return in.branch(in.tt.bytesEq(a, b)) }

func asBytes(v value) []*Term {
	if s, ok := v.([]value); ok {
		return bytesOf(s)
	}
	return strBytes(v)
}

func indexByte(th *thread, fi *fnInfo, args []value) value {
	b := asBytes(args[0])
	c := args[1].(*Term)
	for i := range b {
		if th.in.branch(th.in.tt.Eq(b[i], c)) {
			return c64(uint64(i))
		}
	}
	return c64(^uint64(0))
}

func countByte(th *thread, fi *fnInfo, args []value) value {
	b := asBytes(args[0])
	c := args[1].(*Term)
	r := c64(0)
	for i := range b {
		r = th.in.tt.Add(r, th.in.tt.Ite(th.in.tt.Eq(b[i], c), c64(1), c64(0)))
	}
	return r
}

func indexBytes(th *thread, fi *fnInfo, args []value) value {
	b, s := asBytes(args[0]), asBytes(args[1])
	for i := 0; i+len(s) <= len(b); i++ {
		if th.in.branchEqBytes(b[i:i+len(s)], s) {
			return c64(uint64(i))
		}
	}
	return c64(^uint64(0))
}

func compareBytes(th *thread, fi *fnInfo, args []value) value {
	tt := th.in.tt
	a, b := asBytes(args[0]), asBytes(args[1])
	return tt.Ite(tt.bytesEq(a, b), c64(0), tt.Ite(tt.bytesLess(a, b), c64(^uint64(0)), c64(1)))
}

func fn1(f func(th *thread, a []value) value) intrinsic {
	return func(th *thread, fi *fnInfo, args []value) value { return f(th, args) }
}

func label(th *thread, v value) string { return goStr(th, v) }

type extKey struct{ v value }

func init() {
	I := map[string]intrinsic{}
	intrinsics = I
	initProtoIntrinsics(I)

	// vsym
	v := func(name string, f func(th *thread, a []value) value) { I[vsymPath+"."+name] = fn1(f) }
	nd := func(name string, w uint8) {
		hi := mask(w)
		if w == 0 {
			hi = 1
		}
		v(name, func(th *thread, a []value) value { return th.in.nondet(label(th, a[0]), w, 0, hi) })
	}
	nd("Bool", 0)
	nd("U8", 8)
	nd("U16", 16)
	nd("U32", 32)
	nd("U64", 64)
	nd("I64", 64)
	nd("F64", 64)
	rng := func(th *thread, a []value) value {
		lo, hi := th.in.concretize(a[1].(*Term)), th.in.concretize(a[2].(*Term))
		if lo == hi {
			th.in.record(label(th, a[0]), c64(lo))
			return c64(lo)
		}
		return th.in.nondet(label(th, a[0]), 64, lo, hi)
	}
	v("U64In", rng)
	v("IntIn", rng)
	v("Choose", func(th *thread, a []value) value {
		return c64(uint64(th.in.choose(label(th, a[0]), th.in.concInt(a[1].(*Term)))))
	})
	symBytes := func(th *thread, a []value) []*Term {
		l := label(th, a[0])
		n := th.in.concInt(a[1].(*Term))
		b := make([]*Term, n)
		for i := range b {
			b[i] = th.in.nondet(l, 8, 0, 255)
		}
		return b
	}
	v("Bytes", func(th *thread, a []value) value { return bytesVal(symBytes(th, a)) })
	v("Str", func(th *thread, a []value) value { return mkStr(symBytes(th, a)) })
	v("Assume", func(th *thread, a []value) value { th.in.assume(a[0].(*Term)); return nil })
	v("Assert", func(th *thread, a []value) value {
		th.in.assert(a[0].(*Term), goStr(th, a[1]))
		return nil
	})
	v("Fail", func(th *thread, a []value) value {
		th.in.assert(tFalse, goStr(th, a[0]))
		return nil
	})
	v("Reach", func(th *thread, a []value) value { th.in.reached[goStr(th, a[0])] = true; return nil })
	v("Observe", func(th *thread, a []value) value {
		th.in.obs = append(th.in.obs, obsRec{name: goStr(th, a[0]), v: snapshot(a[1], 0)})
		return nil
	})
	v("And", func(th *thread, a []value) value { return th.in.tt.And(a[0].(*Term), a[1].(*Term)) })
	v("Or", func(th *thread, a []value) value { return th.in.tt.Or(a[0].(*Term), a[1].(*Term)) })
	v("Not", func(th *thread, a []value) value { return th.in.tt.Not(a[0].(*Term)) })
	v("Implies", func(th *thread, a []value) value {
		return th.in.tt.Or(th.in.tt.Not(a[0].(*Term)), a[1].(*Term))
	})
	v("Iff", func(th *thread, a []value) value { return th.in.tt.Eq(a[0].(*Term), a[1].(*Term)) })
	ite := func(th *thread, a []value) value {
		return th.in.tt.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
	}
	v("IteU64", ite)
	v("IteI64", ite)
	v("EqBytes", func(th *thread, a []value) value { return th.in.tt.bytesEq(asBytes(a[0]), asBytes(a[1])) })
	v("ConcU64", func(th *thread, a []value) value { return c64(th.in.concretize(a[0].(*Term))) })
	v("Const", func(th *thread, a []value) value { return mkBool(a[0].(*Term).isConst()) })
	v("Must", func(th *thread, a []value) value {
		c := a[0].(*Term)
		return mkBool(c == tTrue || th.in.pcSet[c])
	})
	v("Symbolic", func(th *thread, a []value) value { return tTrue })
	v("Bound", func(th *thread, a []value) value {
		if th.in.ex.tier == "thorough" {
			return a[1]
		}
		return a[0]
	})
	v("Go", func(th *thread, a []value) value {
		th.spawn(a[0], nil, true)
		return nil
	})
	v("Wait", func(th *thread, a []value) value {
		in := th.in
		th.block(func() bool {
			for _, t := range in.threads {
				if t != th && !t.done && t.waited {
					return false
				}
			}
			return true
		})
		for _, t := range in.threads {
			if t != th && t.waited {
				th.acquire(t.vc)
			}
		}
		return nil
	})
	v("Yield", func(th *thread, a []value) value { th.schedPoint(); return nil })
	v("Preempt", func(th *thread, a []value) value { th.in.preemptB = th.in.concInt(a[0].(*Term)); return nil })
	v("MapOrder", func(th *thread, a []value) value { th.in.mapOrder = th.in.branch(a[0].(*Term)); return nil })
	v("Races", func(th *thread, a []value) value { th.in.races = th.in.branch(a[0].(*Term)); return nil })
	v("NowIs", func(th *thread, a []value) value { th.in.now = a[0].(*Term); return nil })
	v("Atomic", func(th *thread, a []value) value {
		th.in.noSched++
		defer func() { th.in.noSched-- }()
		th.call(a[0], nil)
		return nil
	})
	v("TempDir", func(th *thread, a []value) value { return "/vsym/tmp" })
	v("After", func(th *thread, a []value) value { return nil })

	// sync
	I["(*sync.Mutex).Lock"] = mutexLock
	I["(*sync.Mutex).Unlock"] = mutexUnlock
	I["(*sync.Mutex).TryLock"] = fn1(func(th *thread, a []value) value {
		l := th.in.lock(a[0].(*value))
		th.schedPoint()
		if l.w || l.readers > 0 {
			return tFalse
		}
		l.w = true
		th.acquire(l.vc)
		return tTrue
	})
	I["(*sync.RWMutex).Lock"] = mutexLock
	I["(*sync.RWMutex).Unlock"] = mutexUnlock
	I["(*sync.RWMutex).RLock"] = rLock
	I["(*sync.RWMutex).RUnlock"] = rUnlock
	type wg struct {
		n  int
		vc vclock
	}
	getWG := func(th *thread, p value) *wg {
		pp := p.(*value)
		if pp == nil {
			th.in.nilDeref()
		}
		if w, ok := th.in.ext[pp]; ok {
			return w.(*wg)
		}
		w := &wg{}
		th.in.ext[pp] = w
		return w
	}
	I["(*sync.WaitGroup).Add"] = fn1(func(th *thread, a []value) value {
		w := getWG(th, a[0])
		w.n += th.in.concInt(a[1].(*Term))
		w.vc = th.release(w.vc)
		if w.n < 0 {
			th.in.rtPanic("sync: negative WaitGroup counter")
		}
		th.schedPoint()
		return nil
	})
	I["(*sync.WaitGroup).Done"] = fn1(func(th *thread, a []value) value {
		w := getWG(th, a[0])
		w.n--
		w.vc = th.release(w.vc)
		if w.n < 0 {
			th.in.rtPanic("sync: negative WaitGroup counter")
		}
		th.schedPoint()
		return nil
	})
	I["(*sync.WaitGroup).Wait"] = fn1(func(th *thread, a []value) value {
		w := getWG(th, a[0])
		th.block(func() bool { return w.n == 0 })
		th.acquire(w.vc)
		return nil
	})
	type pool struct {
		l  []value
		vc []vclock // of each item's Put
	}
	getPool := func(th *thread, p value) *pool {
		pp := p.(*value)
		if w, ok := th.in.ext[pp]; ok {
			return w.(*pool)
		}
		w := &pool{}
		th.in.ext[pp] = w
		return w
	}
	I["(*sync.Pool).Get"] = fn1(func(th *thread, a []value) value {
		p := getPool(th, a[0])
		if n := len(p.l); n > 0 {
			x := p.l[n-1]
			p.l = p.l[:n-1]
			th.acquire(p.vc[n-1])
			p.vc = p.vc[:n-1]
			return x
		}
		s := (*a[0].(*value)).(structure)
		f := s[len(s)-1].(*closure)
		if f == nil {
			return iface{}
		}
		return th.call(f, nil)
	})
	I["(*sync.Pool).Put"] = fn1(func(th *thread, a []value) value {
		if a[1].(iface).t == nil {
			return nil
		}
		p := getPool(th, a[0])
		p.l = append(p.l, a[1])
		p.vc = append(p.vc, th.release(nil))
		th.schedPoint()
		return nil
	})
	I["(*sync.Once).doSlow"] = fn1(func(th *thread, a []value) value {
		// f runs once; the flag is the first word
		p := a[0].(*value)
		l := th.in.lock(p)
		th.block(func() bool { return !l.w })
		l.w = true
		defer func() { l.w = false; l.vc = th.release(l.vc) }()
		th.acquire(l.vc)
		s := (*p).(structure)
		done := func() *value {
			w := &s[0]
			for {
				st, ok := (*w).(structure)
				if !ok {
					return w
				}
				w = &st[len(st)-1]
			}
		}()
		if th.in.branch(th.in.tt.Eq((*done).(*Term), mkConst((*done).(*Term).w, 0))) {
			defer func() { *done = mkConst((*done).(*Term).w, 1) }()
			th.call(a[1], nil)
		}
		return nil
	})
	// atomics
	at := func(name string, f func(th *thread, a []value) value) {
		I["sync/atomic."+name] = func(th *thread, fi *fnInfo, args []value) value {
			p, _ := args[0].(*value)
			if p == nil {
				th.in.nilDeref()
			}
			th.schedPoint()
			l := th.in.atomicVC[p]
			th.acquire(l)
			r := f(th, args)
			if len(th.in.threads) > 1 {
				th.in.atomicVC[p] = th.release(l)
			}
			return r
		}
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		at("Load"+ty, func(th *thread, a []value) value { return *a[0].(*value) })
		at("Store"+ty, func(th *thread, a []value) value { *a[0].(*value) = a[1]; return nil })
		at("Swap"+ty, func(th *thread, a []value) value {
			p := a[0].(*value)
			o := *p
			*p = a[1]
			return o
		})
		at("CompareAndSwap"+ty, func(th *thread, a []value) value {
			p := a[0].(*value)
			if th.in.branch(th.in.eq(*p, a[1])) {
				*p = a[2]
				return tTrue
			}
			return tFalse
		})
		at("Add"+ty, func(th *thread, a []value) value {
			p := a[0].(*value)
			*p = th.in.tt.Add((*p).(*Term), a[1].(*Term))
			return *p
		})
		at("And"+ty, func(th *thread, a []value) value {
			p := a[0].(*value)
			o := (*p).(*Term)
			*p = th.in.tt.BAnd(o, a[1].(*Term))
			return o
		})
		at("Or"+ty, func(th *thread, a []value) value {
			p := a[0].(*value)
			o := (*p).(*Term)
			*p = th.in.tt.BOr(o, a[1].(*Term))
			return o
		})
	}
	I["(*sync/atomic.Value).Load"] = fn1(func(th *thread, a []value) value {
		th.schedPoint()
		return (*a[0].(*value)).(structure)[0]
	})
	I["(*sync/atomic.Value).Store"] = fn1(func(th *thread, a []value) value {
		th.schedPoint()
		if a[1].(iface).t == nil {
			th.in.rtPanic("sync/atomic: store of nil value into Value")
		}
		(*a[0].(*value)).(structure)[0] = a[1]
		return nil
	})
	for _, n := range []string{"runtime.SetFinalizer", "runtime.KeepAlive", "runtime.GC", "runtime.Gosched", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable", "internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange", "time.initLocal", "(*strings.Builder).copyCheck", "runtime/debug.FreeOSMemory"} {
		I[n] = noop
	}

	// hashing
	const xx = "github.com/cespare/xxhash/v2"
	sum := fn1(func(th *thread, a []value) value { return th.in.hash("", asBytes(a[0])) })
	I[xx+".Sum64"] = sum
	I[xx+".Sum64String"] = sum
	I["(*"+xx+".Digest).Reset"] = fn1(func(th *thread, a []value) value {
		p, _ := digest(th, a[0])
		*p = &digState{reset: true}
		return nil
	})
	wr := fn1(func(th *thread, a []value) value {
		p, d := digest(th, a[0])
		b := asBytes(a[1])
		nb := make([]*Term, 0, len(d.b)+len(b))
		nb = append(append(nb, d.b...), b...)
		*p = &digState{reset: d.reset, b: nb}
		return tuple{c64(uint64(len(b))), iface{}}
	})
	I["(*"+xx+".Digest).Write"] = wr
	I["(*"+xx+".Digest).WriteString"] = wr
	I["(*"+xx+".Digest).Sum64"] = fn1(func(th *thread, a []value) value {
		_, d := digest(th, a[0])
		return th.in.digSum(d)
	})
	I[xx+".New"] = func(th *thread, fi *fnInfo, args []value) value {
		p := new(value)
		*p = zero(fi.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		(*p).(structure)[0] = &digState{reset: true}
		return p
	}

	// bytealg
	const ba = "internal/bytealg"
	I[ba+".IndexByte"] = indexByte
	I[ba+".IndexByteString"] = indexByte
	I[ba+".Count"] = countByte
	I[ba+".CountString"] = countByte
	I[ba+".Index"] = indexBytes
	I[ba+".IndexString"] = indexBytes
	I["strings.Index"] = indexBytes
	I["bytes.Index"] = indexBytes
	I[ba+".Compare"] = compareBytes
	I[ba+".CompareString"] = compareBytes
	I["bytes.Compare"] = compareBytes
	I["strings.Compare"] = compareBytes
	I[ba+".Equal"] = fn1(func(th *thread, a []value) value { return th.in.tt.bytesEq(asBytes(a[0]), asBytes(a[1])) })
	I["bytes.Equal"] = I[ba+".Equal"]
	I[ba+".MakeNoZero"] = fn1(func(th *thread, a []value) value {
		n := th.in.concInt(a[0].(*Term))
		r := make([]value, n)
		for i := range r {
			r[i] = mkConst(8, 0)
		}
		return r
	})
	I["strings.Clone"] = fn1(func(th *thread, a []value) value { return a[0] })
	I["(*strings.Builder).String"] = fn1(func(th *thread, a []value) value {
		s := (*a[0].(*value)).(structure)
		b, _ := s[len(s)-1].([]value)
		return mkStr(bytesOf(b))
	})

	// math
	m1 := func(name string, f func(th *thread, x *Term) value) {
		I["math."+name] = fn1(func(th *thread, a []value) value { return f(th, a[0].(*Term)) })
	}
	for _, n := range []string{"Float64bits", "Float64frombits", "Float32bits", "Float32frombits"} {
		m1(n, func(th *thread, x *Term) value { return x })
	}
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Log": math.Log, "Exp": math.Exp, "Log2": math.Log2, "archFloor": math.Floor, "archCeil": math.Ceil, "archTrunc": math.Trunc, "archLog": math.Log, "archExp": math.Exp} {
		m1(n, func(th *thread, x *Term) value {
			v := th.in.concretize(x)
			return c64(math.Float64bits(f(math.Float64frombits(v))))
		})
	}
	m1("Abs", func(th *thread, x *Term) value { return th.in.tt.BAnd(x, c64(^uint64(1<<63))) })
	b1 := func(name string, f func(uint64) int, w uint8) {
		I["math/bits."+name] = fn1(func(th *thread, a []value) value {
			x := a[0].(*Term)
			if x.isConst() {
				return c64(uint64(f(x.val)))
			}
			return th.in.bitsFn(name, x)
		})
	}
	b1("Len64", func(x uint64) int { return bits.Len64(x) }, 64)
	b1("Len32", func(x uint64) int { return bits.Len32(uint32(x)) }, 32)
	b1("Len", func(x uint64) int { return bits.Len64(x) }, 64)
	b1("LeadingZeros64", func(x uint64) int { return bits.LeadingZeros64(x) }, 64)
	b1("LeadingZeros", func(x uint64) int { return bits.LeadingZeros64(x) }, 64)
	b1("TrailingZeros64", func(x uint64) int { return bits.TrailingZeros64(x) }, 64)
	b1("TrailingZeros", func(x uint64) int { return bits.TrailingZeros64(x) }, 64)
	b1("OnesCount64", func(x uint64) int { return bits.OnesCount64(x) }, 64)

	// formatting
	I["fmt.Sprintf"] = fn1(func(th *thread, a []value) value { return th.format(goStr(th, a[0]), a[1].([]value)) })
	I["strconv.Itoa"] = fn1(func(th *thread, a []value) value { return mkStr(th.in.decimal(a[0].(*Term), true)) })
	fb := func(signed, app bool) func(th *thread, a []value) value {
		return func(th *thread, a []value) value {
			var dst []value
			if app {
				dst, a = a[0].([]value), a[1:]
			}
			v, base := a[0].(*Term), th.in.concretize(a[1].(*Term))
			var d []*Term
			switch {
			case base == 10:
				d = th.in.decimal(v, signed)
			case signed:
				d = strBytes(strconv.FormatInt(sx(th.in.concretize(v), v.w), int(base)))
			default:
				d = strBytes(strconv.FormatUint(th.in.concretize(v), int(base)))
			}
			if app {
				return th.appendRace(dst, bytesVal(d))
			}
			return mkStr(d)
		}
	}
	I["strconv.FormatInt"] = fn1(fb(true, false))
	I["strconv.FormatUint"] = fn1(fb(false, false))
	I["strconv.AppendInt"] = fn1(fb(true, true))
	I["strconv.AppendUint"] = fn1(fb(false, true))
	I["fmt.Appendf"] = fn1(func(th *thread, a []value) value {
		s := th.format(goStr(th, a[1]), a[2].([]value))
		return th.appendRace(a[0].([]value), bytesVal(strBytes(s)))
	})
	sprint := func(th *thread, l []value, ln bool) value {
		var out []*Term
		for i, x := range l {
			f := x.(iface)
			if i > 0 {
				_, s1 := f.v.(string)
				_, s2 := l[i-1].(iface).v.(string)
				if ln || !(s1 || s2) {
					out = append(out, mkConst(8, ' '))
				}
			}
			out = append(out, th.fmtVal('v', f)...)
		}
		if ln {
			out = append(out, mkConst(8, '\n'))
		}
		return mkStr(out)
	}
	I["fmt.Sprint"] = fn1(func(th *thread, a []value) value { return sprint(th, a[0].([]value), false) })
	I["fmt.Sprintln"] = fn1(func(th *thread, a []value) value { return sprint(th, a[0].([]value), true) })
	fpr := func(th *thread, w iface, s value) value {
		fn := th.in.methodByName(w, "Write")
		return th.callFn(fn, []value{copyVal(w.v), bytesVal(strBytes(s))}, nil)
	}
	I["fmt.Fprintf"] = fn1(func(th *thread, a []value) value {
		return fpr(th, a[0].(iface), th.format(goStr(th, a[1]), a[2].([]value)))
	})
	I["fmt.Fprint"] = fn1(func(th *thread, a []value) value {
		return fpr(th, a[0].(iface), sprint(th, a[1].([]value), false))
	})
	I["fmt.Fprintln"] = fn1(func(th *thread, a []value) value {
		return fpr(th, a[0].(iface), sprint(th, a[1].([]value), true))
	})
	I["fmt.Println"] = fn1(func(th *thread, a []value) value { return tuple{c64(0), iface{}} })
	I["fmt.Printf"] = I["fmt.Println"]
	I["fmt.Print"] = I["fmt.Println"]
	I["fmt.Errorf"] = fn1(func(th *thread, a []value) value {
		f := goStr(th, a[0])
		l := a[1].([]value)
		msg := th.format(strings.ReplaceAll(f, "%w", "%v"), l)
		ex := th.in.ex
		k := 0
		for i := 0; i+1 < len(f); i++ {
			if f[i] != '%' {
				continue
			}
			i++
			if f[i] == '%' {
				continue
			}
			if f[i] == 'w' && k < len(l) {
				if t := ex.namedType("fmt", "wrapError"); t != nil {
					p := new(value)
					*p = structure{msg, l[k]}
					return iface{t: canon(types.NewPointer(t)), v: p}
				}
			}
			k++
		}
		t := ex.namedType("errors", "errorString")
		p := new(value)
		*p = structure{msg}
		return iface{t: canon(types.NewPointer(t)), v: p}
	})

	// reflection-based corners
	I["errors.is"] = func(th *thread, fi *fnInfo, args []value) value {
		err, target := args[0].(iface), args[1].(iface)
		return mkBool(th.errIs(err, target))
	}
	I["errors.Is"] = fn1(func(th *thread, a []value) value {
		return mkBool(th.errIs(a[0].(iface), a[1].(iface)))
	})
	swapper := fn1(func(th *thread, a []value) value {
		s := a[0].(iface).v.([]value)
		return &closure{native: func(th *thread, args []value) value {
			i, j := th.in.concInt(args[0].(*Term)), th.in.concInt(args[1].(*Term))
			x, y := copyVal(s[i]), copyVal(s[j])
			storeInto(&s[i], y)
			storeInto(&s[j], x)
			return nil
		}}
	})
	I["reflect.Swapper"] = swapper
	// reflect.Value of arrays, slices and strings: field 1 holds the value
	reflVal := func(x iface) value {
		p := new(value)
		*p = x
		return structure{(*value)(nil), p, c64(0)}
	}
	reflOf := func(v value) iface {
		p, _ := v.(structure)[1].(*value)
		if p == nil {
			return iface{}
		}
		return (*p).(iface)
	}
	I["reflect.ValueOf"] = fn1(func(th *thread, a []value) value {
		x := a[0].(iface)
		x.v = copyVal(x.v)
		return reflVal(x)
	})
	I["(reflect.Value).Len"] = fn1(func(th *thread, a []value) value {
		switch v := reflOf(a[0]).v.(type) {
		case array:
			return c64(uint64(len(v)))
		case []value:
			return c64(uint64(len(v)))
		case string:
			return c64(uint64(len(v)))
		case *SStr:
			return c64(uint64(len(v.b)))
		}
		panic(unsupported("reflect.Value.Len"))
	})
	I["(reflect.Value).Index"] = fn1(func(th *thread, a []value) value {
		x := reflOf(a[0])
		i := th.in.concInt(a[1].(*Term))
		switch v := x.v.(type) {
		case array:
			if i < 0 || i >= len(v) {
				panic(unsupported("reflect.Value.Index out of range"))
			}
			return reflVal(iface{t: canon(under(x.t).(*types.Array).Elem()), v: copyVal(v[i])})
		case []value:
			if i < 0 || i >= len(v) {
				panic(unsupported("reflect.Value.Index out of range"))
			}
			return reflVal(iface{t: canon(under(x.t).(*types.Slice).Elem()), v: copyVal(v[i])})
		}
		panic(unsupported("reflect.Value.Index"))
	})
	I["(reflect.Value).Interface"] = fn1(func(th *thread, a []value) value {
		x := reflOf(a[0])
		if x.t == nil {
			panic(unsupported("reflect.Value.Interface of an interface element"))
		}
		x.v = copyVal(x.v)
		return x
	})
	I["internal/reflectlite.Swapper"] = swapper
	I["os.Exit"] = fn1(func(th *thread, a []value) value {
		th.in.candidate("exit", "os.Exit called", th.in.where())
		panic(abortPath{abViolation, "exit"})
	})
	I["time.Now"] = func(th *thread, fi *fnInfo, args []value) value {
		in := th.in
		n := in.now
		if n == nil {
			n = c64(1_700_000_000_000_000_000)
		}
		tt := in.tt
		sec := tt.UDiv(n, c64(1e9))
		nsec := tt.URem(n, c64(1e9))
		loc := in.globalAddr(fi.fn.Pkg.Var("localLoc"))
		return structure{nsec, tt.Add(sec, c64(62135596800)), loc}
	}
	I["time.Sleep"] = fn1(func(th *thread, a []value) value { th.schedPoint(); return nil })
	I["time.runtimeNano"] = fn1(func(th *thread, a []value) value { return c64(1) })
	I["runtime.Callers"] = fn1(func(th *thread, a []value) value { return c64(0) })
	I["os.Getpid"] = fn1(func(th *thread, a []value) value { return c64(42) })

	pkgIntrinsics = map[string]intrinsic{
		"github.com/RoaringBitmap/roaring/roaring64":     unmodelled,
		"github.com/gernest/roaring":                     unmodelled,
		"github.com/gernest/rbf":                         unmodelled,
		"github.com/dgraph-io/badger/v4":                 unmodelled,
		"github.com/dgraph-io/ristretto":                 unmodelled,
		"github.com/gernest/arrow3":                      unmodelled,
		"log/slog":                                       noop,
		"log":                                            noop,
		"go.opentelemetry.io/otel":                       noop,
		"go.opentelemetry.io/otel/metric/noop":           noop,
		"github.com/prometheus/client_golang/prometheus": noop,
	}
}

func (in *interp) appendVals0(s []value, add []value) value {
	if len(add) == 0 {
		return s
	}
	return in.appendVals(s, add)
}

func (in *interp) methodByName(w iface, name string) *ssa.Function {
	if w.t == nil {
		in.nilDeref()
	}
	sel := types.NewMethodSet(w.t).Lookup(nil, name)
	if sel == nil {
		panic(unsupported("no method " + name + " on " + w.t.String()))
	}
	return in.lookupMethod(w, sel.Obj().(*types.Func))
}

func (th *thread) errIs(err, target iface) bool {
	in := th.in
	for depth := 0; depth < 20; depth++ {
		if err.t == nil || target.t == nil {
			return err.t == nil && target.t == nil
		}
		if types.Comparable(target.t) && err.t == target.t && in.branch(in.eq(err, target)) {
			return true
		}
		ms := types.NewMethodSet(err.t)
		if s := ms.Lookup(nil, "Is"); s != nil {
			fn := in.lookupMethod(err, s.Obj().(*types.Func))
			if in.branch(th.callFn(fn, []value{copyVal(err.v), target}, nil).(*Term)) {
				return true
			}
		}
		s := ms.Lookup(nil, "Unwrap")
		if s == nil {
			return false
		}
		fn := in.lookupMethod(err, s.Obj().(*types.Func))
		r := th.callFn(fn, []value{copyVal(err.v)}, nil)
		switch r := r.(type) {
		case iface:
			err = r
		case []value:
			for _, e := range r {
				if th.errIs(e.(iface), target) {
					return true
				}
			}
			return false
		}
	}
	return false
}

// bitsFn encodes the bit-counting functions on symbolic arguments.
func (in *interp) bitsFn(name string, x *Term) value {
	tt := in.tt
	w := int(x.w)
	bit := func(i int) *Term {
		return tt.Not(tt.Eq(tt.BAnd(x, mkConst(x.w, 1<<uint(i))), mkConst(x.w, 0)))
	}
	switch {
	case strings.HasPrefix(name, "Len"):
		r := c64(0)
		for i := 0; i < w; i++ {
			r = tt.Ite(bit(i), c64(uint64(i+1)), r)
		}
		return r
	case strings.HasPrefix(name, "LeadingZeros"):
		r := c64(uint64(w))
		for i := 0; i < w; i++ {
			r = tt.Ite(bit(i), c64(uint64(w-1-i)), r)
		}
		return r
	case strings.HasPrefix(name, "TrailingZeros"):
		r := c64(uint64(w))
		for i := w - 1; i >= 0; i-- {
			r = tt.Ite(bit(i), c64(uint64(i)), r)
		}
		return r
	}
	r := c64(0)
	for i := 0; i < w; i++ {
		r = tt.Add(r, tt.Ite(bit(i), c64(1), c64(0)))
	}
	return r
}

// snapshot copies an observed value so that later mutation does not show.
func snapshot(v value, d int) value {
	if d > 6 {
		return v
	}
	switch x := v.(type) {
	case structure:
		c := make(structure, len(x))
		for i := range x {
			c[i] = snapshot(x[i], d+1)
		}
		return c
	case array:
		c := make(array, len(x))
		for i := range x {
			c[i] = snapshot(x[i], d+1)
		}
		return c
	case []value:
		c := make([]value, len(x))
		for i := range x {
			c[i] = snapshot(x[i], d+1)
		}
		return c
	case *value:
		if x == nil {
			return x
		}
		p := new(value)
		*p = snapshot(*x, d+1)
		return p
	case iface:
		return iface{t: x.t, v: snapshot(x.v, d+1)}
	case *smap:
		if x == nil {
			return x
		}
		c := newMap()
		for _, e := range x.live() {
			c.ents = append(c.ents, &mapEntry{k: snapshot(e.k, d+1), v: snapshot(e.v, d+1)})
		}
		return c
	}
	return v
}
