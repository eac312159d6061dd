package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type decKind uint8

const (
	dBranch decKind = iota
	dChoice
	dConc
)

type decision struct {
	kind decKind
	val  uint64 // branch: 0/1; choice: index; conc: candidate value
	yes  bool   // conc: equal to the candidate?
}

type workItem struct {
	prefix []decision
	model  Model
}

type implKey struct {
	t types.Type
	i *types.Interface
}
type methKey struct {
	t types.Type
	m *types.Func
}

var implCache, methCache sync.Map

// Candidate is a counterexample found by the solver, before native replay.
type Candidate struct {
	Harness string            `json:"harness"`
	Kind    string            `json:"kind"` // assert, panic
	Msg     string            `json:"msg"`
	Pos     string            `json:"pos"`
	Values  map[string]uint64 `json:"values"`
	Trace   []string          `json:"trace,omitempty"`
	Obs     []string          `json:"obs,omitempty"`
}

// PathSample is a completed path with concrete inputs, for native validation.
type PathSample struct {
	Values map[string]uint64 `json:"values"`
	Obs    []string          `json:"obs"`
	// the engine could not follow the path to its end: the run of the real
	// code on these inputs is only looked at for failures
	Partial bool `json:"partial,omitempty"`
}

type explorer struct {
	prog      *ssa.Program
	entry     *ssa.Function
	name      string
	tier      string
	rtErrType types.Type
	maxSteps  int64
	maxPaths  int
	deadline  time.Time
	timeoutMS int
	workers   int
	buildMu   sync.Mutex
	seed      int64
	nSamples  int

	mu      sync.Mutex
	cond    *sync.Cond
	work    []workItem
	active  int
	stopped bool

	// results
	paths, infeasible, forks int
	decisions                int64
	asserts, assertConst     int64
	unsupported              map[string]int
	limits                   map[string]int
	unknowns                 int
	cands                    []*Candidate
	candKeys                 map[string]int
	reached                  map[string]int
	samples                  []PathSample
	seenSamples              int
	seenPartial, nPartial    int
	queries                  int
	solverTime               time.Duration
	funcs                    map[string]int
	steps                    int64
	timedOut                 bool
	notes                    map[string]bool
	traceOn                  bool
}

func (ex *explorer) funcByName(pkg, name string) *ssa.Function {
	p := ex.prog.ImportedPackage(pkg)
	if p == nil {
		panic(unsupported("package " + pkg + " not loaded"))
	}
	return p.Func(name)
}

func (ex *explorer) run() {
	ex.cond = sync.NewCond(&ex.mu)
	ex.unsupported = map[string]int{}
	ex.limits = map[string]int{}
	ex.candKeys = map[string]int{}
	ex.reached = map[string]int{}
	ex.funcs = map[string]int{}
	ex.notes = map[string]bool{}
	ex.work = []workItem{{model: Model{}}}
	var wg sync.WaitGroup
	for i := 0; i < ex.workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ex.worker(i)
		}(i)
	}
	wg.Wait()
}

func (ex *explorer) worker(id int) {
	in := &interp{ex: ex, tt: newTermTable(), solver: newSolver(ex.timeoutMS), stdGlobals: map[*ssa.Global]*value{}}
	in.solver.where = in.where
	in.threadExit = make(chan struct{})
	in.loggedFn = map[*fnInfo]bool{}
	defer func() {
		ex.mu.Lock()
		ex.queries += in.solver.queries
		ex.solverTime += in.solver.time
		ex.unknowns += in.solver.unknown
		for f := range in.loggedFn {
			ex.funcs[f.key]++
		}
		ex.mu.Unlock()
		in.solver.stop()
	}()
	for {
		ex.mu.Lock()
		for len(ex.work) == 0 && ex.active > 0 && !ex.stopped {
			ex.cond.Wait()
		}
		if ex.stopped || len(ex.work) == 0 {
			ex.mu.Unlock()
			ex.cond.Broadcast()
			return
		}
		if time.Now().After(ex.deadline) || (ex.maxPaths > 0 && ex.paths >= ex.maxPaths) {
			ex.timedOut = true
			ex.stopped = true
			ex.mu.Unlock()
			ex.cond.Broadcast()
			return
		}
		w := ex.work[len(ex.work)-1]
		ex.work = ex.work[:len(ex.work)-1]
		ex.active++
		ex.mu.Unlock()
		in.runPath(w)
		ex.mu.Lock()
		ex.active--
		ex.mu.Unlock()
		ex.cond.Broadcast()
		if in.tt.nextID > 2_000_000 {
			in.tt = newTermTable()
			in.solver.stop()
			in.stdGlobals = map[*ssa.Global]*value{}
		}
	}
}

func (ex *explorer) push(w workItem) {
	ex.mu.Lock()
	ex.work = append(ex.work, w)
	ex.forks++
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (in *interp) runPath(w workItem) {
	ex := in.ex
	in.globals = map[*ssa.Global]*value{}
	in.ext = map[*value]value{}
	in.sliceOf = map[*value][]value{}
	in.pc = in.pc[:0:0]
	in.pcSet = map[*Term]bool{}
	in.decimals = nil
	in.model = w.model
	in.memo = map[*Term]uint64{}
	in.prefix = w.prefix
	in.decs = append([]decision(nil), w.prefix...)[:0]
	in.steps = 0
	in.order = nil
	in.count = map[string]int{}
	in.obs = nil
	in.reached = map[string]bool{}
	in.preempts = 0
	in.preemptB = 2
	in.mapOrder = false
	in.faults = 0
	in.hashTab = nil
	in.inModel = 0
	in.uniq = 0
	in.noSched = 0
	in.failure = nil
	in.trace = nil
	in.waits = nil
	in.races = false
	in.shadow = map[*value]*access{}
	in.atomicVC = map[*value]vclock{}
	in.now = nil
	in.depthInit = 0
	in.crashOn = false
	main := &thread{in: in, id: 0, wake: make(chan bool)}
	in.threads = []*thread{main}
	in.cur = main

	kind := abEnd
	msg := ""
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch e := r.(type) {
			case abortPath:
				kind, msg = e.kind, e.msg
			case unsupportedErr:
				kind, msg = abUnsupported, e.msg+" @ "+in.where()
			case *targetPanic:
				kind = abViolation
				msg = "panic: " + in.panicStr(e.v)
				in.candidate("panic", msg, e.pos)
			default:
				kind, msg = abUnsupported, fmt.Sprintf("engine: %v @ %s", r, in.where())
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "engine panic: %v\n%s\n", r, debug.Stack())
				}
			}
		}()
		main.callFn(ex.entry, nil, nil)
	}()
	in.killThreads()
	ex.mu.Lock()
	ex.steps += in.steps
	ex.decisions += int64(len(in.decs))
	switch kind {
	case abEnd:
		ex.paths++
	case abInfeasible:
		ex.infeasible++
	case abUnsupported:
		ex.unsupported[msg]++
		ex.paths++
	case abLimit:
		ex.limits[msg]++
		ex.paths++
	case abViolation, abStop:
		ex.paths++
	case abUnknown:
		ex.limits["solver unknown"]++
	}
	for r := range in.reached {
		ex.reached[r]++
	}
	for n := range in.notes {
		ex.notes[n] = true
	}
	take := false
	if kind == abEnd && len(in.obs) > 0 {
		ex.seenSamples++
		n := ex.seenSamples
		// keep a spread: first few and then every power-of-two-ish step
		if len(ex.samples) < ex.nSamples+ex.nPartial && (n <= ex.nSamples/2 || n&(n-1) == 0 || n%97 == 0) {
			take = true
		}
	}
	part := false
	if kind == abUnsupported || kind == abLimit {
		ex.seenPartial++
		n := ex.seenPartial
		if ex.nPartial < 24 && (n <= 12 || n&(n-1) == 0 || n%41 == 0) {
			ex.nPartial++
			part = true
		}
	}
	ex.mu.Unlock()
	if part {
		s := PathSample{Values: in.values(in.model), Partial: true}
		ex.mu.Lock()
		ex.samples = append(ex.samples, s)
		ex.mu.Unlock()
	}
	if take {
		if s, ok := in.sample(); ok {
			ex.mu.Lock()
			ex.samples = append(ex.samples, s)
			ex.mu.Unlock()
		}
	}
}

func (in *interp) panicStr(v value) string {
	if i, ok := v.(iface); ok {
		if i.t == nil {
			return "nil"
		}
		s := vstr(i.v, in.model)
		return i.t.String() + " " + s
	}
	return vstr(v, in.model)
}

func (in *interp) values(m Model) map[string]uint64 {
	r := map[string]uint64{}
	memo := map[*Term]uint64{}
	for _, o := range in.order {
		r[o.key] = evalTerm(o.t, m, memo)
	}
	return r
}

func (in *interp) sample() (PathSample, bool) {
	memo := map[*Term]uint64{}
	_ = memo
	var obs []string
	for _, o := range in.obs {
		obs = append(obs, o.name+"="+vstr(o.v, in.model))
	}
	return PathSample{Values: in.values(in.model), Obs: obs}, true
}

// ---- decisions ----

func (in *interp) eval(t *Term) uint64 { return evalTerm(t, in.model, in.memo) }

func (in *interp) setModel(m Model) {
	// keep values of variables the solver has not seen
	n := Model{}
	for k, v := range in.model {
		n[k] = v
	}
	for k, v := range m {
		n[k] = v
	}
	in.model = n
	in.memo = map[*Term]uint64{}
}

func (in *interp) addPC(t *Term) {
	if t == tTrue || in.pcSet[t] {
		return
	}
	in.pc = append(in.pc, t)
	in.learn(t)
}

// learn notes that t and the conjuncts of t hold on the path.
func (in *interp) learn(t *Term) {
	in.pcSet[t] = true
	if t.op == OAnd {
		in.learn(t.args[0])
		in.learn(t.args[1])
	}
}

// rest drops the conjuncts of t that are known to hold on the path.
func (in *interp) rest(t *Term) *Term {
	if in.pcSet[t] {
		return tTrue
	}
	if t.op == OAnd {
		return in.tt.And(in.rest(t.args[0]), in.rest(t.args[1]))
	}
	return t
}

func (in *interp) checkTime() {
	if time.Now().After(in.ex.deadline) {
		in.ex.mu.Lock()
		in.ex.timedOut = true
		in.ex.stopped = true
		in.ex.mu.Unlock()
		panic(abortPath{abStop, "time"})
	}
}

func (in *interp) pushAlt(d decision, m Model) {
	p := make([]decision, len(in.decs)+1)
	copy(p, in.decs)
	p[len(in.decs)] = d
	n := Model{}
	for k, v := range in.model {
		n[k] = v
	}
	for k, v := range m {
		n[k] = v
	}
	in.ex.push(workItem{prefix: p, model: n})
}

// branch decides a symbolic condition, exploring both sides when feasible.
func (in *interp) branch(c *Term) bool {
	if c.op == OConst {
		return c.val != 0
	}
	if in.pcSet[c] {
		return true
	}
	nc := in.tt.Not(c)
	if in.pcSet[nc] {
		return false
	}
	if len(in.decs) < len(in.prefix) {
		d := in.prefix[len(in.decs)]
		if d.kind != dBranch {
			panic(abortPath{abUnsupported, "replay mismatch (branch)"})
		}
		in.decs = append(in.decs, d)
		if d.val&2 == 0 { // not forced
			if d.val&1 != 0 {
				in.addPC(c)
			} else {
				in.addPC(nc)
			}
		} else if d.val&1 != 0 {
			in.pcSet[c] = true
		} else {
			in.pcSet[nc] = true
		}
		return d.val&1 != 0
	}
	in.checkTime()
	side := in.eval(c) != 0
	other := nc
	if !side {
		other = c
	}
	res, m := in.solver.check(in.pc, other)
	var d decision
	d.kind = dBranch
	if side {
		d.val = 1
	}
	switch res {
	case resUnsat:
		d.val |= 2
		in.decs = append(in.decs, d)
		// implied by the path condition: remember syntactically
		if side {
			in.pcSet[c] = true
		} else {
			in.pcSet[nc] = true
		}
		return side
	case resSat:
		in.pushAlt(decision{kind: dBranch, val: (d.val & 1) ^ 1}, m)
	case resUnknown:
		in.ex.mu.Lock()
		if os.Getenv("VSYM_DEBUG") != "" {
			in.ex.limits["solver unknown at "+in.where()]++
		}
		in.ex.limits["solver unknown on a branch"]++
		in.ex.mu.Unlock()
	}
	in.decs = append(in.decs, d)
	if side {
		in.addPC(c)
	} else {
		in.addPC(nc)
	}
	return side
}

// choose picks one of n alternatives; all are explored.
func (in *interp) choose(label string, n int) int {
	if n <= 1 {
		in.record(label, mkConst(64, 0))
		return 0
	}
	if len(in.decs) < len(in.prefix) {
		d := in.prefix[len(in.decs)]
		if d.kind != dChoice {
			panic(abortPath{abUnsupported, "replay mismatch (choice)"})
		}
		in.decs = append(in.decs, d)
		in.record(label, mkConst(64, d.val))
		return int(d.val)
	}
	in.checkTime()
	for i := n - 1; i > 0; i-- {
		in.pushAlt(decision{kind: dChoice, val: uint64(i)}, nil)
	}
	in.decs = append(in.decs, decision{kind: dChoice})
	in.record(label, mkConst(64, 0))
	return 0
}

// concretize enumerates the feasible values of t, one path each.
func (in *interp) concretize(t *Term) uint64 {
	for n := 0; ; n++ {
		if t.op == OConst {
			return t.val
		}
		if n > 4096 {
			panic(abortPath{abLimit, "concretization"})
		}
		if len(in.decs) < len(in.prefix) {
			d := in.prefix[len(in.decs)]
			if d.kind != dConc {
				panic(abortPath{abUnsupported, "replay mismatch (conc)"})
			}
			in.decs = append(in.decs, d)
			e := in.tt.Eq(t, mkConst(t.w, d.val))
			if d.yes {
				in.addPC(e)
				return d.val
			}
			in.addPC(in.tt.Not(e))
			continue
		}
		in.checkTime()
		v := in.eval(t)
		e := in.tt.Eq(t, mkConst(t.w, v))
		if e == tTrue {
			return v
		}
		res, m := in.solver.check(in.pc, in.tt.Not(e))
		if res == resSat {
			in.pushAlt(decision{kind: dConc, val: v, yes: false}, m)
		} else if res == resUnknown {
			in.ex.mu.Lock()
			in.ex.limits["solver unknown on a concretization"]++
			in.ex.mu.Unlock()
		}
		in.decs = append(in.decs, decision{kind: dConc, val: v, yes: true})
		in.addPC(e)
		return v
	}
}

func (in *interp) assume(c *Term) {
	if c.op == OConst {
		if c.val == 0 {
			panic(abortPath{abInfeasible, ""})
		}
		return
	}
	if in.pcSet[c] {
		return
	}
	if in.eval(c) == 0 {
		res, m := in.solver.check(in.pc, c)
		switch res {
		case resUnsat:
			panic(abortPath{abInfeasible, ""})
		case resUnknown:
			panic(abortPath{abUnknown, "assume"})
		}
		in.setModel(m)
	}
	in.addPC(c)
}

func (in *interp) assert(c *Term, msg string) {
	ex := in.ex
	ex.mu.Lock()
	ex.asserts++
	if c.op == OConst {
		ex.assertConst++
	}
	ex.mu.Unlock()
	if c = in.rest(c); c == tTrue {
		return
	}
	if c == tFalse {
		in.candidate("assert", msg, in.where())
		panic(abortPath{abViolation, msg})
	}
	nc := in.tt.Not(c)
	if in.eval(c) == 0 {
		in.candidate("assert", msg, in.where())
	} else {
		res, m := in.solver.check(in.pc, nc)
		switch res {
		case resSat:
			save, memo := in.model, in.memo
			in.setModel(m)
			in.candidate("assert", msg, in.where())
			in.model, in.memo = save, memo
		case resUnknown:
			ex.mu.Lock()
			ex.limits["solver unknown on assertion: "+msg]++
			ex.mu.Unlock()
		case resUnsat:
			in.learn(c)
			return
		}
	}
	// continue under the assertion
	if in.eval(c) == 0 {
		res, m := in.solver.check(in.pc, c)
		if res != resSat {
			panic(abortPath{abViolation, msg})
		}
		in.setModel(m)
	}
	in.addPC(c)
}

func (in *interp) candidate(kind, msg, pos string) {
	ex := in.ex
	key := kind + "|" + msg
	if kind == "panic" {
		key += "|" + pos
	}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.candKeys[key]++
	n := ex.candKeys[key]
	if n > 6 && !(n < 2000 && n&(n-1) == 0) {
		return
	}
	c := &Candidate{Harness: ex.name, Kind: kind, Msg: msg, Pos: pos, Values: in.values(in.model)}
	for _, o := range in.obs {
		c.Obs = append(c.Obs, o.name+"="+vstr(o.v, in.model))
	}
	c.Trace = append(c.Trace, in.trace...)
	ex.cands = append(ex.cands, c)
	if len(ex.cands) >= 40 {
		ex.stopped = true
		ex.cond.Broadcast()
	}
}

// ---- nondeterministic inputs ----

func (in *interp) freshKey(label string) string {
	n := in.count[label]
	in.count[label] = n + 1
	return fmt.Sprintf("%s#%d", label, n)
}

func (in *interp) nondet(label string, w uint8, lo, hi uint64) *Term {
	k := in.freshKey(label)
	t := in.tt.Var(k, w, lo, hi)
	in.order = append(in.order, ndRec{k, t})
	if w > 0 {
		full := in.tt
		_ = full
		v, ok := in.model[k]
		if !ok || v < lo || v > hi {
			m := Model{}
			for kk, vv := range in.model {
				m[kk] = vv
			}
			m[k] = lo
			in.model = m
			in.memo = map[*Term]uint64{}
		}
		if lo > 0 {
			in.pcRaw(OULe, mkConst(w, lo), t)
		}
		if hi < mask(w) {
			in.pcRaw(OULe, t, mkConst(w, hi))
		}
	}
	return t
}

// pcRaw asserts a range constraint without interval folding.
func (in *interp) pcRaw(op Op, a, b *Term) {
	in.addPC(in.tt.mk(op, 0, 0, "", 0, 1, a, b))
}

func (in *interp) record(label string, t *Term) {
	k := in.freshKey(label)
	in.order = append(in.order, ndRec{k, t})
}

func (ex *explorer) summary() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "paths=%d infeasible=%d forks=%d queries=%d solver=%.1fs steps=%d asserts=%d(const %d) cands=%d", ex.paths, ex.infeasible, ex.forks, ex.queries, ex.solverTime.Seconds(), ex.steps, ex.asserts, ex.assertConst, len(ex.cands))
	if ex.timedOut {
		sb.WriteString(" TIMEOUT")
	}
	pr := func(n string, m map[string]int) {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(&sb, "\n   %s: %s x%d", n, k, m[k])
		}
	}
	pr("unsupported", ex.unsupported)
	pr("limit", ex.limits)
	pr("reached", ex.reached)
	pr("cand", ex.candKeys)
	return sb.String()
}
