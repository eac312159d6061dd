package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// interp is the per-worker engine; the fields below "path state" are reset
// for each explored path.
type interp struct {
	ex     *explorer
	tt     *TermTable
	solver *Solver

	stdGlobals map[*ssa.Global]*value // concrete, shared by all paths of the worker

	// path state
	globals    map[*ssa.Global]*value
	ext        map[*value]value
	sliceOf    map[*value][]value
	pc         []*Term
	decimals   map[*Term][]*Term // digits of the values formatted on this path
	pcSet      map[*Term]bool
	model      Model
	memo       map[*Term]uint64
	prefix     []decision
	decs       []decision
	steps      int64
	inits      map[string]*Term // nondet values in creation order
	order      []ndRec
	count      map[string]int
	obs        []obsRec
	reached    map[string]bool
	threads    []*thread
	cur        *thread
	preempts   int
	preemptB   int
	mapOrder   bool
	faults     int
	faultSeq   int
	crashOn    bool
	loggedFn   map[*fnInfo]bool
	hashTab    []hashEnt
	now        *Term
	depthInit  int
	inModel    int
	uniq       int
	notes      map[string]bool
	noSched    int
	failure    any
	trace      []string
	waits      []value
	races      bool
	shadow     map[*value]*access
	atomicVC   map[*value]vclock
	threadExit chan struct{}
}

type ndRec struct {
	key string
	t   *Term
}

type obsRec struct {
	name string
	v    value
	pcN  int
}

type hashEnt struct {
	dom  string
	in   []*Term
	out  *Term
	conc bool
}

type thread struct {
	in      *interp
	id      int
	wake    chan bool
	done    bool
	blocked func() bool
	frame   *frame
	depth   int
	waited  bool // started by vsym.Go
	vc      vclock
}

type frame struct {
	caller    *frame
	fi        *fnInfo
	regs      []value
	blk, prev int
	defers    *deferred
	result    value
	panicking bool
	panicVal  any
	recovered bool
	cur       *instr
	idefer    bool
}

type deferred struct {
	fn   value
	args []value
	blt  *ssa.Builtin
	inv  *instr
	next *deferred
}

// targetPanic is a Go panic of the interpreted program.
type targetPanic struct {
	v   value // iface
	pos string
}

type abortKind int

const (
	abInfeasible abortKind = iota
	abUnsupported
	abLimit
	abStop
	abViolation
	abUnknown
	abEnd
)

type abortPath struct {
	kind abortKind
	msg  string
}

func (in *interp) rtPanic(msg string) {
	panic(&targetPanic{v: in.mkError("runtime error: " + msg), pos: in.where()})
}

func (in *interp) mkError(msg string) value {
	if in.ex.rtErrType != nil {
		return iface{t: in.ex.rtErrType, v: msg}
	}
	return iface{t: canon(types.Typ[types.String]), v: msg}
}

func (in *interp) where() string {
	if in.cur == nil || in.cur.frame == nil {
		return "?"
	}
	var parts []string
	for f := in.cur.frame; f != nil && len(parts) < 6; f = f.caller {
		s := f.fi.key
		if f.cur != nil && f.cur.i != nil {
			if p := f.cur.i.Pos(); p.IsValid() {
				pp := in.ex.prog.Fset.Position(p)
				fn := pp.Filename
				if i := strings.LastIndex(fn, "/"); i >= 0 {
					fn = fn[i+1:]
				}
				s += fmt.Sprintf(" (%s:%d)", fn, pp.Line)
			}
		}
		parts = append(parts, s)
	}
	return strings.Join(parts, " <- ")
}

func (fr *frame) get(in *interp, o opnd) value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	if o.glob != nil {
		return in.globalAddr(o.glob)
	}
	switch c := o.c.(type) {
	case structure, array:
		return copyVal(c)
	}
	return o.c
}

const maxDepth = 400

func (th *thread) call(fv value, args []value) value {
	c, ok := fv.(*closure)
	if !ok {
		panic(unsupported(fmt.Sprintf("call of %T", fv)))
	}
	if c == nil {
		th.in.rtPanic("invalid memory address or nil pointer dereference (nil func)")
	}
	if c.native != nil {
		return c.native(th, args)
	}
	return th.callFn(c.fn, args, c.env)
}

func (th *thread) callFn(fn *ssa.Function, args []value, env []value) value {
	in := th.in
	fi := getFn(fn)
	if fi.intr != nil {
		if !fi.isModel && th.racing() {
			th.raceArgs(args)
		}
		return fi.intr(th, fi, args)
	}
	if fi.model != nil {
		return th.callModel(fi, args)
	}
	if fi.blocks == nil {
		panic(unsupported("function without body: " + fi.key))
	}
	if !in.loggedFn[fi] {
		in.loggedFn[fi] = true
	}
	th.depth++
	if th.depth > maxDepth {
		panic(abortPath{abLimit, "call depth"})
	}
	fr := &frame{caller: th.frame, fi: fi, regs: make([]value, fi.nregs), prev: -1}
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], env)
	th.frame = fr
	if !fi.hasDefer {
		th.run(fr)
	} else {
		th.runWithDefers(fr)
	}
	th.frame = fr.caller
	th.depth--
	return fr.result
}

// callModel calls the Go model of a function, adapting parameter and result
// types where the model is declared with interface types.
func (th *thread) callModel(fi *fnInfo, args []value) value {
	m := fi.model
	ms := m.Signature
	rs := fi.fn.Signature
	var rtypes []types.Type
	if rs.Recv() != nil {
		rtypes = append(rtypes, rs.Recv().Type())
	}
	for i := 0; i < rs.Params().Len(); i++ {
		rtypes = append(rtypes, rs.Params().At(i).Type())
	}
	if ms.Params().Len() != len(args) {
		panic(unsupported("model arity mismatch for " + fi.key))
	}
	nargs := make([]value, len(args))
	for i, a := range args {
		mt := ms.Params().At(i).Type()
		if types.IsInterface(mt) && !types.IsInterface(rtypes[i]) {
			a = iface{t: canon(rtypes[i]), v: a}
		}
		nargs[i] = a
	}
	th.in.inModel++
	r := th.callFn(m, nargs, nil)
	th.in.inModel--
	nres := rs.Results().Len()
	if nres != ms.Results().Len() {
		panic(unsupported("model result mismatch for " + fi.key))
	}
	adapt := func(v value, mt, rt types.Type) value {
		if types.IsInterface(mt) && !types.IsInterface(rt) {
			x := v.(iface)
			if x.t == nil {
				return zero(rt)
			}
			return x.v
		}
		return v
	}
	switch nres {
	case 0:
		return nil
	case 1:
		return adapt(r, ms.Results().At(0).Type(), rs.Results().At(0).Type())
	}
	t := r.(tuple)
	o := make(tuple, len(t))
	for i := range t {
		o[i] = adapt(t[i], ms.Results().At(i).Type(), rs.Results().At(i).Type())
	}
	return o
}

func (th *thread) runWithDefers(fr *frame) {
	depth, frame0 := th.depth, fr
	inModel := th.in.inModel
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			tp, ok := r.(*targetPanic)
			if !ok {
				panic(r)
			}
			th.depth = depth
			th.in.inModel = inModel
			th.frame = frame0
			fr.panicking = true
			fr.panicVal = tp
		}()
		th.run(fr)
	}()
	if !fr.panicking {
		return
	}
	th.runDefers(fr)
	if fr.panicking {
		panic(fr.panicVal)
	}
	// recovered
	if fr.fi.recover >= 0 {
		fr.prev = fr.blk
		fr.blk = fr.fi.recover
		th.run(fr)
	} else {
		res := fr.fi.fn.Signature.Results()
		if res.Len() == 0 {
			fr.result = nil
		} else {
			fr.result = zero(res)
		}
	}
}

func (th *thread) runDefers(fr *frame) {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.next
		func() {
			depth := th.depth
			inModel := th.in.inModel
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				tp, ok := r.(*targetPanic)
				if !ok {
					panic(r)
				}
				th.depth = depth
				th.in.inModel = inModel
				th.frame = fr
				fr.panicking = true
				fr.panicVal = tp
			}()
			if d.blt != nil {
				th.builtin(fr, d.blt, d.args, nil)
				return
			}
			fr.idefer = true
			th.call(d.fn, d.args)
		}()
	}
}

func (th *thread) run(fr *frame) {
	in := th.in
	fi := fr.fi
	for {
		b := &fi.blocks[fr.blk]
		if len(b.phis) > 0 {
			k := -1
			for i, p := range b.preds {
				if p == fr.prev {
					k = i
					break
				}
			}
			if len(b.phis) == 1 {
				fr.regs[b.phis[0].dst] = fr.get(in, b.phis[0].ops[k])
			} else {
				tmp := make([]value, len(b.phis))
				for i := range b.phis {
					tmp[i] = fr.get(in, b.phis[i].ops[k])
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = tmp[i]
				}
			}
		}
		in.steps += int64(len(b.ins))
		if in.steps > in.ex.maxSteps {
			panic(abortPath{abLimit, "instruction limit"})
		}
		for k := range b.ins {
			is := &b.ins[k]
			fr.cur = is
			switch x := is.i.(type) {
			case *ssa.If:
				c := fr.get(in, is.ops[0]).(*Term)
				fr.prev = fr.blk
				if in.branch(c) {
					fr.blk = b.succs[0]
				} else {
					fr.blk = b.succs[1]
				}
			case *ssa.Jump:
				fr.prev = fr.blk
				fr.blk = b.succs[0]
			case *ssa.Return:
				switch len(is.ops) {
				case 0:
				case 1:
					fr.result = fr.get(in, is.ops[0])
				default:
					t := make(tuple, len(is.ops))
					for i := range t {
						t[i] = fr.get(in, is.ops[i])
					}
					fr.result = t
				}
				return
			case *ssa.RunDefers:
				th.runDefers(fr)
				if fr.panicking {
					panic(fr.panicVal)
				}
			case *ssa.Panic:
				panic(&targetPanic{v: fr.get(in, is.ops[0]), pos: in.where()})
			default:
				th.exec(fr, is)
				_ = x
			}
		}
	}
}

func (th *thread) exec(fr *frame, is *instr) {
	in := th.in
	tt := in.tt
	switch x := is.i.(type) {
	case nil:
		panic(unsupported(is.ops[0].c.(string)))
	case *ssa.Alloc:
		p := new(value)
		*p = zero(x.Type().Underlying().(*types.Pointer).Elem())
		fr.regs[is.dst] = p
	case *ssa.UnOp:
		v := fr.get(in, is.ops[0])
		switch x.Op {
		case token.MUL:
			if th.racing() && !fr.fi.isModel {
				if p, ok := v.(*value); ok && p != nil {
					th.raceCheck(p, false)
				}
			}
			fr.regs[is.dst] = in.load(v)
		case token.NOT:
			fr.regs[is.dst] = tt.Not(v.(*Term))
		case token.SUB:
			if is.num.float {
				fr.regs[is.dst] = tt.FNeg(v.(*Term))
			} else {
				fr.regs[is.dst] = tt.Neg(v.(*Term))
			}
		case token.XOR:
			fr.regs[is.dst] = tt.BNot(v.(*Term))
		case token.ARROW:
			r, ok := th.recv(v.(*schan), x.X.Type().Underlying().(*types.Chan).Elem())
			if x.CommaOk {
				fr.regs[is.dst] = tuple{r, mkBool(ok)}
			} else {
				fr.regs[is.dst] = r
			}
		default:
			panic(unsupported("unop " + x.Op.String()))
		}
	case *ssa.BinOp:
		fr.regs[is.dst] = in.binop(x, is.num, fr.get(in, is.ops[0]), fr.get(in, is.ops[1]))
	case *ssa.Call:
		fr.regs[is.dst] = th.doCall(fr, is, x.Common())
	case *ssa.ChangeInterface:
		fr.regs[is.dst] = fr.get(in, is.ops[0])
	case *ssa.ChangeType:
		fr.regs[is.dst] = fr.get(in, is.ops[0])
	case *ssa.Convert:
		v := fr.get(in, is.ops[0])
		if s, ok := v.([]value); ok {
			th.raceSlice(s, false)
		}
		fr.regs[is.dst] = in.convert(x.X.Type(), x.Type(), v)
	case *ssa.MultiConvert:
		fr.regs[is.dst] = in.convert(x.X.Type(), x.Type(), fr.get(in, is.ops[0]))
	case *ssa.MakeInterface:
		fr.regs[is.dst] = iface{t: is.t, v: copyVal(fr.get(in, is.ops[0]))}
	case *ssa.Extract:
		fr.regs[is.dst] = fr.get(in, is.ops[0]).(tuple)[x.Index]
	case *ssa.Slice:
		fr.regs[is.dst] = in.slice(x, fr, is)
	case *ssa.FieldAddr:
		p := fr.get(in, is.ops[0])
		fr.regs[is.dst] = in.fieldAddr(p, x.Field)
	case *ssa.Field:
		fr.regs[is.dst] = copyVal(fr.get(in, is.ops[0]).(structure)[x.Field])
	case *ssa.IndexAddr:
		c := fr.get(in, is.ops[0])
		idx := fr.get(in, is.ops[1]).(*Term)
		p := in.indexAddr(c, idx, x.Index.Type())
		if refs := x.Referrers(); refs != nil && len(*refs) == 1 && idx.isConst() {
			// &s[i] for unsafe.String and unsafe.Slice
			if call, ok := (*refs)[0].(*ssa.Call); ok {
				if b, ok := call.Call.Value.(*ssa.Builtin); ok && (b.Name() == "String" || b.Name() == "Slice") {
					if s, ok := c.([]value); ok {
						if pv, ok := any(p).(*value); ok {
							in.sliceOf[pv] = s[idx.val:]
						}
					}
				}
			}
		}
		fr.regs[is.dst] = p
	case *ssa.Index:
		c := fr.get(in, is.ops[0])
		idx := fr.get(in, is.ops[1]).(*Term)
		switch c := c.(type) {
		case array:
			p := in.indexAddr([]value(c), idx, x.Index.Type())
			fr.regs[is.dst] = in.load(p)
		default:
			fr.regs[is.dst] = in.strIndex(c, idx, x.Index.Type())
		}
	case *ssa.Lookup:
		c := fr.get(in, is.ops[0])
		k := fr.get(in, is.ops[1])
		if m, ok := c.(*smap); ok {
			th.raceMap(m, false)
			e := in.mapFind(m, k)
			var v value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = zero(x.X.Type().Underlying().(*types.Map).Elem())
			}
			if x.CommaOk {
				fr.regs[is.dst] = tuple{v, mkBool(e != nil)}
			} else {
				fr.regs[is.dst] = v
			}
		} else {
			fr.regs[is.dst] = in.strIndex(c, k.(*Term), x.Index.Type())
		}
	case *ssa.MapUpdate:
		th.raceMap(fr.get(in, is.ops[0]).(*smap), true)
		in.mapSet(fr.get(in, is.ops[0]).(*smap), fr.get(in, is.ops[1]), copyVal(fr.get(in, is.ops[2])))
	case *ssa.MakeMap:
		fr.regs[is.dst] = newMap()
	case *ssa.MakeChan:
		n := in.concInt(fr.get(in, is.ops[0]).(*Term))
		fr.regs[is.dst] = &schan{cap: n}
	case *ssa.MakeSlice:
		n := in.concInt(fr.get(in, is.ops[0]).(*Term))
		c := in.concInt(fr.get(in, is.ops[1]).(*Term))
		if n < 0 || c < n {
			in.rtPanic("makeslice: len out of range")
		}
		if c > 1<<20 {
			panic(abortPath{abLimit, "allocation size"})
		}
		z := zero(x.Type().Underlying().(*types.Slice).Elem())
		s := make([]value, n, c)
		full := s[:c]
		switch z.(type) {
		case structure, array:
			for i := range full {
				full[i] = copyVal(z)
			}
		default:
			for i := range full {
				full[i] = z
			}
		}
		fr.regs[is.dst] = s
	case *ssa.MakeClosure:
		env := make([]value, len(x.Bindings))
		for i := range env {
			env[i] = fr.get(in, is.ops[i+1])
		}
		fr.regs[is.dst] = &closure{fn: x.Fn.(*ssa.Function), env: env}
	case *ssa.Store:
		if th.racing() && !fr.fi.isModel {
			if p, ok := fr.get(in, is.ops[0]).(*value); ok && p != nil {
				th.raceCheck(p, true)
			}
		}
		in.store(fr.get(in, is.ops[0]), fr.get(in, is.ops[1]))
	case *ssa.TypeAssert:
		fr.regs[is.dst] = in.typeAssert(x, is.t, fr.get(in, is.ops[0]).(iface))
	case *ssa.Range:
		v := fr.get(in, is.ops[0])
		if m, ok := v.(*smap); ok {
			th.raceMap(m, false)
			fr.regs[is.dst] = in.mapRange(m, fr)
		} else {
			fr.regs[is.dst] = &rangeIter{s: v, str: true}
		}
	case *ssa.Next:
		it := fr.get(in, is.ops[0]).(*rangeIter)
		if it.str {
			fr.regs[is.dst] = in.strNext(th, it)
		} else {
			for it.i < len(it.ents) && it.ents[it.i].deleted {
				it.i++
			}
			if it.i >= len(it.ents) {
				tp := x.Type().(*types.Tuple)
				fr.regs[is.dst] = tuple{tFalse, zeroOrNil(tp.At(1).Type()), zeroOrNil(tp.At(2).Type())}
			} else {
				e := it.ents[it.i]
				it.i++
				fr.regs[is.dst] = tuple{tTrue, copyVal(e.k), copyVal(e.v)}
			}
		}
	case *ssa.Defer:
		d := &deferred{next: fr.defers}
		c := x.Common()
		for _, a := range is.args {
			d.args = append(d.args, fr.get(in, a))
		}
		if c.IsInvoke() {
			recv := fr.get(in, is.ops[0]).(iface)
			fn := in.lookupMethod(recv, c.Method)
			d.fn = &closure{fn: fn}
			d.args = append([]value{recv.v}, d.args...)
		} else if b, ok := c.Value.(*ssa.Builtin); ok {
			d.blt = b
		} else if is.fn != nil {
			d.fn = &closure{fn: is.fn}
		} else {
			d.fn = fr.get(in, is.ops[0])
		}
		fr.defers = d
	case *ssa.Go:
		c := x.Common()
		var args []value
		for _, a := range is.args {
			args = append(args, fr.get(in, a))
		}
		var fv value
		if c.IsInvoke() {
			recv := fr.get(in, is.ops[0]).(iface)
			fv = &closure{fn: in.lookupMethod(recv, c.Method)}
			args = append([]value{recv.v}, args...)
		} else if is.fn != nil {
			fv = &closure{fn: is.fn}
		} else {
			fv = fr.get(in, is.ops[0])
		}
		th.spawn(fv, args, false)
	case *ssa.Send:
		th.send(fr.get(in, is.ops[0]).(*schan), copyVal(fr.get(in, is.ops[1])))
	case *ssa.Select:
		fr.regs[is.dst] = th.sel(x, fr, is)
	case *ssa.SliceToArrayPointer:
		s := fr.get(in, is.ops[0]).([]value)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			in.rtPanic("slice to array pointer: length out of range")
		}
		p := new(value)
		*p = array(s[:n:n])
		fr.regs[is.dst] = p
	default:
		panic(unsupported(fmt.Sprintf("instr %T", x)))
	}
}

func zeroOrNil(t types.Type) value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return zero(t)
}

func (in *interp) nilDeref() {
	in.rtPanic("invalid memory address or nil pointer dereference")
}

func (in *interp) load(p value) value {
	switch p := p.(type) {
	case *value:
		if p == nil {
			in.nilDeref()
		}
		switch v := (*p).(type) {
		case structure, array:
			return copyVal(v)
		default:
			return v
		}
	case *symPtr:
		r := p.base[len(p.base)-1]
		rt, ok := r.(*Term)
		if !ok {
			panic("symPtr of non-term")
		}
		lo := int(min(p.idx.lo, uint64(len(p.base)-1)))
		hi := int(min(p.idx.hi, uint64(len(p.base)-1)))
		rt = p.base[hi].(*Term)
		for i := hi - 1; i >= lo; i-- {
			rt = in.tt.Ite(in.tt.Eq(p.idx, mkConst(64, uint64(i))), p.base[i].(*Term), rt)
		}
		return rt
	}
	panic(unsupported(fmt.Sprintf("load from %T", p)))
}

func (in *interp) store(p, v value) {
	switch p := p.(type) {
	case *value:
		if p == nil {
			in.nilDeref()
		}
		storeInto(p, v)
		return
	case *symPtr:
		for i := range p.base {
			p.base[i] = in.tt.Ite(in.tt.Eq(p.idx, mkConst(64, uint64(i))), v.(*Term), p.base[i].(*Term))
		}
		return
	}
	panic(unsupported(fmt.Sprintf("store to %T", p)))
}

func (in *interp) fieldAddr(p value, f int) value {
	pp, ok := p.(*value)
	if !ok {
		panic(unsupported(fmt.Sprintf("fieldaddr of %T", p)))
	}
	if pp == nil {
		in.nilDeref()
	}
	s, ok := (*pp).(structure)
	if !ok {
		panic(unsupported(fmt.Sprintf("fieldaddr in %T", *pp)))
	}
	return &s[f]
}

func (in *interp) ext64(t *Term, ty types.Type) *Term {
	n, _ := basicNum(ty)
	if t.w == 64 {
		return t
	}
	if n.signed {
		return in.tt.SExt(t, 64)
	}
	return in.tt.ZExt(t, 64)
}

func (in *interp) indexAddr(c value, idx *Term, ity types.Type) value {
	var base []value
	switch c := c.(type) {
	case []value:
		base = c
	case *value:
		if c == nil {
			in.nilDeref()
		}
		a, ok := (*c).(array)
		if !ok {
			panic(unsupported(fmt.Sprintf("indexaddr in %T", *c)))
		}
		base = a
	default:
		panic(unsupported(fmt.Sprintf("indexaddr of %T", c)))
	}
	i := in.ext64(idx, ity)
	if i.isConst() {
		if i.val >= uint64(len(base)) {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.val), len(base)))
		}
		return &base[i.val]
	}
	if !in.branch(in.tt.ULt(i, mkConst(64, uint64(len(base))))) {
		in.rtPanic(fmt.Sprintf("index out of range [?] with length %d", len(base)))
	}
	allTerm := true
	for _, v := range base {
		if _, ok := v.(*Term); !ok {
			allTerm = false
			break
		}
	}
	if allTerm && len(base) <= 512 {
		return &symPtr{base: base, idx: i}
	}
	n := in.concretize(i)
	return &base[n]
}

func (in *interp) strIndex(s value, idx *Term, ity types.Type) value {
	n := strLen(s)
	i := in.ext64(idx, ity)
	if i.isConst() {
		if i.val >= uint64(n) {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.val), n))
		}
		return strByte(s, int(i.val))
	}
	if !in.branch(in.tt.ULt(i, mkConst(64, uint64(n)))) {
		in.rtPanic("string index out of range")
	}
	r := strByte(s, n-1)
	for k := n - 2; k >= 0; k-- {
		r = in.tt.Ite(in.tt.Eq(i, mkConst(64, uint64(k))), strByte(s, k), r)
	}
	return r
}

func (in *interp) slice(x *ssa.Slice, fr *frame, is *instr) value {
	c := fr.get(in, is.ops[0])
	n, capv := 0, 0
	var base []value
	isStr := false
	switch c := c.(type) {
	case []value:
		base = c
		n, capv = len(c), cap(c)
	case *value:
		if c == nil {
			in.nilDeref()
		}
		base = []value((*c).(array))
		n, capv = len(base), len(base)
	case string, *SStr:
		isStr = true
		n = strLen(c)
		capv = n
	default:
		panic(unsupported(fmt.Sprintf("slice of %T", c)))
	}
	// operand order: X, Low, High, Max (nil ones skipped by Operands as nil)
	lo, hi, mx := 0, n, capv
	k := 1
	get := func(v ssa.Value) (int, bool) {
		if v == nil {
			return 0, false
		}
		return in.concInt(in.ext64(fr.valueOf(in, v, is, k).(*Term), v.Type())), true
	}
	if v, ok := get(x.Low); ok {
		lo = v
	}
	k = 2
	if v, ok := get(x.High); ok {
		hi = v
	}
	k = 3
	if v, ok := get(x.Max); ok {
		mx = v
	}
	if isStr {
		if lo < 0 || hi < lo || hi > n {
			in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		return strSlice(c, lo, hi)
	}
	if lo < 0 || hi < lo || mx < hi || mx > capv {
		in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, capv))
	}
	if base == nil {
		return []value(nil)
	}
	return base[lo:hi:mx]
}

func (fr *frame) valueOf(in *interp, v ssa.Value, is *instr, k int) value {
	return fr.get(in, is.ops[k])
}

func (in *interp) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if v, ok := implCache.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, it)
	implCache.Store(k, r)
	return r
}

func (in *interp) typeAssert(x *ssa.TypeAssert, at types.Type, v iface) value {
	ok := false
	if v.t != nil {
		if it, isI := at.Underlying().(*types.Interface); isI {
			ok = in.implements(v.t, it)
			if ok {
				if x.CommaOk {
					return tuple{v, tTrue}
				}
				return v
			}
		} else {
			ok = v.t == at
			if ok {
				if x.CommaOk {
					return tuple{copyVal(v.v), tTrue}
				}
				return copyVal(v.v)
			}
		}
	}
	if x.CommaOk {
		return tuple{zero(at), tFalse}
	}
	n := "nil"
	if v.t != nil {
		n = v.t.String()
	}
	in.rtPanic("interface conversion: interface is " + n + ", not " + at.String())
	return nil
}

func (in *interp) lookupMethod(recv iface, m *types.Func) *ssa.Function {
	if recv.t == nil {
		in.nilDeref()
	}
	k := methKey{recv.t, m}
	if f, ok := methCache.Load(k); ok {
		return f.(*ssa.Function)
	}
	prog := in.ex.prog
	in.ex.buildMu.Lock()
	fn := prog.LookupMethod(recv.t, m.Pkg(), m.Name())
	in.ex.buildMu.Unlock()
	if fn == nil {
		panic(unsupported("no method " + m.Name() + " on " + recv.t.String()))
	}
	methCache.Store(k, fn)
	return fn
}

func (th *thread) doCall(fr *frame, is *instr, c *ssa.CallCommon) value {
	in := th.in
	args := make([]value, len(is.args), len(is.args)+1)
	for i, a := range is.args {
		args[i] = fr.get(in, a)
	}
	if is.fn != nil {
		return th.callFn(is.fn, args, nil)
	}
	if c.IsInvoke() {
		recv := fr.get(in, is.ops[0]).(iface)
		fn := in.lookupMethod(recv, c.Method)
		return th.callFn(fn, append([]value{copyVal(recv.v)}, args...), nil)
	}
	fv := fr.get(in, is.ops[0])
	if b, ok := fv.(builtinVal); ok {
		return th.builtin(fr, b.b, args, c)
	}
	return th.call(fv, args)
}

func (in *interp) mapRange(m *smap, fr *frame) *rangeIter {
	l := m.live()
	if in.mapOrder && len(l) > 1 && len(l) <= 4 && fr.fi.isRepo {
		// any order: pick a permutation by successive choices
		rest := append([]*mapEntry(nil), l...)
		var o []*mapEntry
		for len(rest) > 0 {
			k := 0
			if len(rest) > 1 {
				k = in.choose("maporder", len(rest))
			}
			o = append(o, rest[k])
			rest = append(rest[:k:k], rest[k+1:]...)
		}
		l = o
	}
	return &rangeIter{ents: l}
}

func (in *interp) strNext(th *thread, it *rangeIter) value {
	n := strLen(it.s)
	if it.i >= n {
		return tuple{tFalse, mkConst(64, 0), mkConst(32, 0)}
	}
	pos := it.i
	b := strByte(it.s, pos)
	if in.branch(in.tt.ULt(b, mkConst(8, 0x80))) {
		it.i++
		return tuple{tTrue, mkConst(64, uint64(pos)), in.tt.ZExt(b, 32)}
	}
	fn := in.ex.funcByName("unicode/utf8", "DecodeRuneInString")
	r := th.callFn(fn, []value{strSlice(it.s, pos, n)}, nil).(tuple)
	it.i += in.concInt(r[1].(*Term))
	return tuple{tTrue, mkConst(64, uint64(pos)), r[0]}
}

func (in *interp) binop(x *ssa.BinOp, num numInfo, a, b value) value {
	tt := in.tt
	switch x.Op {
	case token.EQL:
		if num.float {
			return tt.FCmp(OFEq, a.(*Term), b.(*Term))
		}
		return in.eq(a, b)
	case token.NEQ:
		if num.float {
			return tt.Not(tt.FCmp(OFEq, a.(*Term), b.(*Term)))
		}
		return tt.Not(in.eq(a, b))
	}
	p, ok := a.(*Term)
	if !ok {
		switch x.Op {
		case token.ADD:
			return strConcat(a, b)
		case token.LSS:
			return in.strLess(a, b)
		case token.GTR:
			return in.strLess(b, a)
		case token.LEQ:
			return tt.Not(in.strLess(b, a))
		case token.GEQ:
			return tt.Not(in.strLess(a, b))
		}
		panic(unsupported("binop " + x.Op.String() + fmt.Sprintf(" on %T", a)))
	}
	q := b.(*Term)
	if num.float {
		switch x.Op {
		case token.ADD:
			return tt.FBin(OFAdd, p, q)
		case token.SUB:
			return tt.FBin(OFSub, p, q)
		case token.MUL:
			return tt.FBin(OFMul, p, q)
		case token.QUO:
			return tt.FBin(OFDiv, p, q)
		case token.LSS:
			return tt.FCmp(OFLt, p, q)
		case token.LEQ:
			return tt.FCmp(OFLe, p, q)
		case token.GTR:
			return tt.FCmp(OFLt, q, p)
		case token.GEQ:
			return tt.FCmp(OFLe, q, p)
		}
		panic(unsupported("float binop " + x.Op.String()))
	}
	switch x.Op {
	case token.ADD:
		return tt.Add(p, q)
	case token.SUB:
		return tt.Sub(p, q)
	case token.MUL:
		return tt.Mul(p, q)
	case token.QUO, token.REM:
		if !in.branch(tt.Not(tt.Eq(q, mkConst(q.w, 0)))) {
			in.rtPanic("integer divide by zero")
		}
		if x.Op == token.QUO {
			if num.signed {
				return tt.SDiv(p, q)
			}
			return tt.UDiv(p, q)
		}
		if num.signed {
			return tt.SRem(p, q)
		}
		return tt.URem(p, q)
	case token.AND:
		if p.w == 0 {
			return tt.And(p, q)
		}
		return tt.BAnd(p, q)
	case token.OR:
		if p.w == 0 {
			return tt.Or(p, q)
		}
		return tt.BOr(p, q)
	case token.XOR:
		return tt.BXor(p, q)
	case token.AND_NOT:
		return tt.BAnd(p, tt.BNot(q))
	case token.SHL, token.SHR:
		yn, _ := basicNum(x.Y.Type())
		if yn.signed && !q.isConst() {
			if in.branch(tt.SLt(q, mkConst(q.w, 0))) {
				in.rtPanic("negative shift amount")
			}
		}
		var sh *Term
		if q.isConst() {
			v := q.val
			if v > 64 {
				v = 64
			}
			if v >= uint64(p.w) {
				if x.Op == token.SHR && num.signed {
					return tt.AShr(p, mkConst(p.w, uint64(p.w)-1))
				}
				return mkConst(p.w, 0)
			}
			sh = mkConst(p.w, v)
		} else {
			// bring the amount to the width of p, saturating
			if q.w > p.w {
				big := tt.ULe(mkConst(q.w, uint64(p.w)), q)
				sh = tt.Ite(big, mkConst(p.w, uint64(p.w)), tt.Trunc(q, p.w))
			} else {
				sh = tt.ZExt(q, p.w)
			}
		}
		if x.Op == token.SHL {
			return tt.Shl(p, sh)
		}
		if num.signed {
			return tt.AShr(p, sh)
		}
		return tt.LShr(p, sh)
	case token.LSS:
		if num.signed {
			return tt.SLt(p, q)
		}
		return tt.ULt(p, q)
	case token.LEQ:
		if num.signed {
			return tt.SLe(p, q)
		}
		return tt.ULe(p, q)
	case token.GTR:
		if num.signed {
			return tt.SLt(q, p)
		}
		return tt.ULt(q, p)
	case token.GEQ:
		if num.signed {
			return tt.SLe(q, p)
		}
		return tt.ULe(q, p)
	}
	panic(unsupported("binop " + x.Op.String()))
}

func (in *interp) strLess(a, b value) *Term {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return mkBool(x < y)
	}
	return in.tt.bytesLess(strBytes(a), strBytes(b))
}

func (in *interp) convert(from, to types.Type, v value) value {
	tt := in.tt
	uf, ut := from.Underlying(), to.Underlying()
	fn, fok := basicNum(uf)
	tn, tok := basicNum(ut)
	if fok && tok {
		t := v.(*Term)
		switch {
		case fn.float && tn.float:
			if fn.w == tn.w {
				return t
			}
			return tt.FConv(OFToF, t, tn.w, true)
		case fn.float:
			if tn.signed {
				return tt.Trunc(tt.FConv(OFToI, t, 64, true), tn.w)
			}
			return tt.Trunc(tt.FConv(OFToU, t, 64, false), tn.w)
		case tn.float:
			if fn.signed {
				return tt.FConv(OIToF, tt.SExt(t, 64), tn.w, true)
			}
			return tt.FConv(OUToF, tt.ZExt(t, 64), tn.w, false)
		}
		if tn.w < fn.w {
			return tt.Trunc(t, tn.w)
		}
		if fn.signed {
			return tt.SExt(t, tn.w)
		}
		return tt.ZExt(t, tn.w)
	}
	if isString(uf) {
		if isString(ut) {
			return v
		}
		if s, ok := ut.(*types.Slice); ok {
			en, _ := basicNum(s.Elem())
			if en.w == 8 {
				n := strLen(v)
				r := make([]value, n)
				for i := range r {
					r[i] = strByte(v, i)
				}
				return r
			}
			// []rune
			it := &rangeIter{s: v, str: true}
			r := []value{}
			for {
				t := in.strNext(in.cur, it).(tuple)
				if !in.branch(t[0].(*Term)) {
					return r
				}
				r = append(r, t[2])
			}
		}
	}
	if isString(ut) {
		if s, ok := uf.(*types.Slice); ok {
			en, _ := basicNum(s.Elem())
			sv := v.([]value)
			if en.w == 8 {
				b := make([]*Term, len(sv))
				for i := range b {
					b[i] = sv[i].(*Term)
				}
				return mkStr(b)
			}
			var sb strings.Builder
			for _, r := range sv {
				sb.WriteRune(rune(in.concretize(r.(*Term))))
			}
			return sb.String()
		}
		if fok {
			return string(rune(in.concretize(v.(*Term))))
		}
	}
	// pointers and unsafe.Pointer: identity
	switch uf.(type) {
	case *types.Pointer:
		return v
	}
	if b, ok := uf.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if _, ok := ut.(*types.Pointer); ok {
			return v
		}
	}
	if types.Identical(uf, ut) {
		return v
	}
	switch uf.(type) {
	case *types.Slice, *types.Signature, *types.Map, *types.Chan, *types.Struct, *types.Array, *types.Interface:
		return v
	}
	panic(unsupported("convert " + from.String() + " to " + to.String()))
}

func (in *interp) concInt(t *Term) int {
	if t.isConst() {
		return int(sx(t.val, t.w))
	}
	return int(sx(in.concretize(t), t.w))
}

func (th *thread) builtin(fr *frame, b *ssa.Builtin, args []value, c *ssa.CallCommon) value {
	in := th.in
	tt := in.tt
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s, _ := args[0].([]value)
		var add []value
		switch y := args[1].(type) {
		case []value:
			add = y
			th.raceSlice(y, false)
		case string, *SStr:
			n := strLen(y)
			add = make([]value, n)
			for i := range add {
				add[i] = strByte(y, i)
			}
		}
		if len(add) == 0 {
			return s
		}
		if n := len(s) + len(add); n <= cap(s) {
			th.raceSlice(s[len(s):n], true)
		} else {
			th.raceSlice(s, false)
		}
		return in.appendVals(s, add)
	case "copy":
		d := args[0].([]value)
		if y, ok := args[1].([]value); ok {
			th.raceSlice(y[:min(len(d), len(y))], false)
			th.raceSlice(d[:min(len(d), len(y))], true)
		} else {
			th.raceSlice(d[:min(len(d), strLen(args[1]))], true)
		}
		switch y := args[1].(type) {
		case []value:
			n := min(len(d), len(y))
			tmp := make([]value, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyVal(y[i])
			}
			for i := 0; i < n; i++ {
				storeInto(&d[i], tmp[i])
			}
			return mkConst(64, uint64(n))
		default:
			n := min(len(d), strLen(y))
			for i := 0; i < n; i++ {
				d[i] = strByte(y, i)
			}
			return mkConst(64, uint64(n))
		}
	case "len":
		switch x := args[0].(type) {
		case []value:
			return mkConst(64, uint64(len(x)))
		case array:
			return mkConst(64, uint64(len(x)))
		case *value:
			return mkConst(64, uint64(len((*x).(array))))
		case string, *SStr:
			return mkConst(64, uint64(strLen(x)))
		case *smap:
			if x == nil {
				return mkConst(64, 0)
			}
			th.raceMap(x, false)
			return mkConst(64, uint64(x.n))
		case *schan:
			if x == nil {
				return mkConst(64, 0)
			}
			return mkConst(64, uint64(len(x.buf)))
		}
	case "cap":
		switch x := args[0].(type) {
		case []value:
			return mkConst(64, uint64(cap(x)))
		case array:
			return mkConst(64, uint64(len(x)))
		case *value:
			return mkConst(64, uint64(len((*x).(array))))
		case *schan:
			return mkConst(64, uint64(x.cap))
		}
	case "delete":
		th.raceMap(args[0].(*smap), true)
		in.mapDelete(args[0].(*smap), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *smap:
			x.clear()
		case []value:
			if len(x) > 0 {
				z := zero(b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem())
				for i := range x {
					storeInto(&x[i], copyVal(z))
				}
			}
		}
		return nil
	case "close":
		ch := args[0].(*schan)
		if ch == nil || ch.closed {
			in.rtPanic("close of nil or closed channel")
		}
		ch.closed = true
		return nil
	case "panic":
		panic(&targetPanic{v: args[0], pos: in.where()})
	case "recover":
		// the frame that called us must be a deferred call of a panicking frame
		f := fr.caller
		if f != nil && f.panicking && f.idefer {
			f.panicking = false
			tp := f.panicVal.(*targetPanic)
			return tp.v
		}
		return iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		if _, ok := r.(*Term); !ok {
			for _, a := range args[1:] {
				if in.branch(in.strLess(a, r)) == (b.Name() == "min") {
					r = a
				}
			}
			return r
		}
		n, _ := basicNum(b.Type().(*types.Signature).Params().At(0).Type())
		acc := r.(*Term)
		for _, a := range args[1:] {
			y := a.(*Term)
			var lt *Term
			switch {
			case n.float:
				lt = tt.FCmp(OFLt, y, acc)
				if b.Name() == "max" {
					lt = tt.FCmp(OFLt, acc, y)
				}
			case n.signed:
				lt = tt.SLt(y, acc)
				if b.Name() == "max" {
					lt = tt.SLt(acc, y)
				}
			default:
				lt = tt.ULt(y, acc)
				if b.Name() == "max" {
					lt = tt.ULt(acc, y)
				}
			}
			acc = tt.Ite(lt, y, acc)
		}
		return acc
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p == nil {
			in.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "SliceData":
		s := args[0].([]value)
		if cap(s) == 0 {
			return (*value)(nil)
		}
		p := &s[:1][0]
		in.sliceOf[p] = s[:cap(s)]
		return p
	case "StringData":
		n := strLen(args[0])
		if n == 0 {
			return (*value)(nil)
		}
		s := make([]value, n)
		for i := range s {
			s[i] = strByte(args[0], i)
		}
		in.sliceOf[&s[0]] = s
		return &s[0]
	case "String":
		n := in.concInt(in.ext64(args[1].(*Term), types.Typ[types.Int]))
		if n == 0 {
			return ""
		}
		s := in.sliceOf[args[0].(*value)]
		if len(s) < n {
			panic(unsupported("unsafe.String"))
		}
		bs := make([]*Term, n)
		for i := range bs {
			bs[i] = s[i].(*Term)
		}
		return mkStr(bs)
	case "Slice":
		n := in.concInt(in.ext64(args[1].(*Term), types.Typ[types.Int]))
		if n == 0 {
			return []value{}
		}
		s := in.sliceOf[args[0].(*value)]
		if len(s) < n {
			panic(unsupported("unsafe.Slice"))
		}
		return s[:n:n]
	}
	panic(unsupported("builtin " + b.Name()))
}

// appendVals follows the runtime's growth policy closely enough that spare
// capacity (and with it aliasing) is realistic.
func (in *interp) appendVals(s []value, add []value) []value {
	n := len(s) + len(add)
	tmp := make([]value, len(add))
	for i := range add {
		tmp[i] = copyVal(add[i])
	}
	if n <= cap(s) {
		r := s[:n]
		for i := range tmp {
			if r[len(s)+i] == nil {
				r[len(s)+i] = tmp[i]
			} else {
				storeInto(&r[len(s)+i], tmp[i])
			}
		}
		return r
	}
	c := cap(s)
	newcap := c
	double := c * 2
	if n > double {
		newcap = n
	} else if c < 256 {
		newcap = double
	} else {
		for newcap < n {
			newcap += (newcap + 3*256) / 4
		}
	}
	// size-class rounding for small byte slices
	if t, ok := tmp[0].(*Term); ok && t.w == 8 {
		for _, sc := range []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256} {
			if newcap <= sc {
				newcap = sc
				break
			}
		}
	}
	r := make([]value, n, newcap)
	copy(r, s)
	copy(r[len(s):], tmp)
	full := r[:newcap]
	if newcap > n {
		z := zeroLike(tmp[0])
		for i := n; i < newcap; i++ {
			full[i] = copyVal(z)
		}
	}
	return r
}

func zeroLike(v value) value {
	switch x := v.(type) {
	case *Term:
		return mkConst(x.w, 0)
	case string, *SStr:
		return ""
	case structure:
		c := make(structure, len(x))
		for i := range x {
			c[i] = zeroLike(x[i])
		}
		return c
	case array:
		c := make(array, len(x))
		for i := range x {
			c[i] = zeroLike(x[i])
		}
		return c
	case *value, *symPtr:
		return (*value)(nil)
	case []value:
		return []value(nil)
	case *smap:
		return (*smap)(nil)
	case iface:
		return iface{}
	case *closure:
		return (*closure)(nil)
	case *schan:
		return (*schan)(nil)
	case tuple:
		c := make(tuple, len(x))
		for i := range x {
			c[i] = zeroLike(x[i])
		}
		return c
	}
	return nil
}
