package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Interpreted goroutines run one at a time, each on its own Go goroutine,
// handing over a baton at schedule points.

func (th *thread) spawn(fv value, args []value, waited bool) {
	in := th.in
	if len(in.threads) > 6 {
		panic(abortPath{abLimit, "thread count"})
	}
	nt := &thread{in: in, id: len(in.threads), wake: make(chan bool), waited: waited}
	in.threads = append(in.threads, nt)
	nt.vc = append(vclock(nil), th.vc...)
	nt.tick()
	th.tick()
	go func() {
		if !<-nt.wake {
			nt.done = true
			in.threadExit <- struct{}{}
			return
		}
		defer func() {
			r := recover()
			nt.done = true
			if r == errKilled {
				in.threadExit <- struct{}{}
				return
			}
			if r != nil {
				// hand the failure to the main thread
				in.failure = r
				in.cur = in.threads[0]
				in.threads[0].wake <- true
				return
			}
			nt.finish()
		}()
		nt.call(fv, args)
	}()
	th.schedPoint()
}

var errKilled = fmt.Errorf("killed")

// finish hands the baton to another runnable thread.
func (th *thread) finish() {
	in := th.in
	var failure any
	var next *thread
	func() {
		defer func() { failure = recover() }()
		next = in.pickNext(nil)
	}()
	if failure != nil || next == nil {
		if failure == nil {
			failure = &targetPanic{v: in.mkError("deadlock: all goroutines are asleep"), pos: "scheduler"}
		}
		in.failure = failure
		next = in.threads[0]
	}
	in.cur = next
	next.wake <- true
}

// pickNext chooses among the runnable threads other than cur.
func (in *interp) pickNext(cur *thread) *thread {
	var l []*thread
	for _, t := range in.threads {
		if t == cur || t.done {
			continue
		}
		if t.blocked != nil && !t.blocked() {
			continue
		}
		l = append(l, t)
	}
	if len(l) == 0 {
		return nil
	}
	k := 0
	if len(l) > 1 {
		k = in.choose("sched", len(l))
	}
	return l[k]
}

func (th *thread) switchTo(next *thread) {
	in := th.in
	in.cur = next
	next.wake <- true
	if !<-th.wake {
		panic(errKilled)
	}
	if th == in.threads[0] && in.failure != nil {
		f := in.failure
		in.failure = nil
		panic(f)
	}
}

// schedPoint may preempt the current thread.
func (th *thread) schedPoint() {
	in := th.in
	if len(in.threads) < 2 || in.noSched > 0 {
		return
	}
	if in.preempts >= in.preemptB {
		return
	}
	var l []*thread
	for _, t := range in.threads {
		if t == th || t.done {
			continue
		}
		if t.blocked != nil && !t.blocked() {
			continue
		}
		l = append(l, t)
	}
	if len(l) == 0 {
		return
	}
	k := in.choose("sched", len(l)+1)
	if k == 0 {
		return
	}
	in.preempts++
	th.switchTo(l[k-1])
}

// block waits until ready() holds.
func (th *thread) block(ready func() bool) {
	in := th.in
	for !ready() {
		th.blocked = ready
		next := in.pickNext(th)
		if next == nil {
			panic(&targetPanic{v: in.mkError("deadlock: all goroutines are asleep"), pos: in.where()})
		}
		th.switchTo(next)
		th.blocked = nil
	}
}

func (in *interp) killThreads() {
	for _, t := range in.threads[1:] {
		if !t.done {
			t.wake <- false
			<-in.threadExit
		}
	}
}

func (th *thread) recv(c *schan, elem types.Type) (value, bool) {
	if c == nil {
		th.block(func() bool { return false })
	}
	th.schedPoint()
	c.recvers++
	th.block(func() bool { return len(c.buf) > 0 || c.closed })
	c.recvers--
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		c.taken++
		return v, true
	}
	return zero(elem), false
}

func (th *thread) send(c *schan, v value) {
	if c == nil {
		th.block(func() bool { return false })
	}
	th.schedPoint()
	if c.cap > 0 {
		th.block(func() bool { return len(c.buf) < c.cap || c.closed })
	}
	if c.closed {
		th.in.rtPanic("send on closed channel")
	}
	c.buf = append(c.buf, v)
	c.sent++
	if c.cap == 0 {
		n := c.sent
		th.block(func() bool { return c.taken >= n })
	}
}

func (th *thread) sel(x *ssa.Select, fr *frame, is *instr) value {
	in := th.in
	type st struct {
		c    *schan
		send bool
		v    value
	}
	var l []st
	k := 0
	for _, s := range x.States {
		e := st{c: fr.get(in, is.ops[k]).(*schan), send: s.Dir == types.SendOnly}
		k++
		if s.Send != nil {
			e.v = copyVal(fr.get(in, is.ops[k]))
		}
		k++
		l = append(l, e)
	}
	ready := func() []int {
		var r []int
		for i, e := range l {
			if e.c == nil {
				continue
			}
			if e.send {
				if e.c.closed || len(e.c.buf) < e.c.cap || (e.c.cap == 0 && e.c.recvers > 0) {
					r = append(r, i)
				}
			} else if len(e.c.buf) > 0 || e.c.closed {
				r = append(r, i)
			}
		}
		return r
	}
	th.schedPoint()
	r := ready()
	idx := -1
	if len(r) == 0 {
		if x.Blocking {
			for _, e := range l {
				if e.c != nil && !e.send {
					e.c.recvers++
				}
			}
			th.block(func() bool { return len(ready()) > 0 })
			for _, e := range l {
				if e.c != nil && !e.send {
					e.c.recvers--
				}
			}
			r = ready()
		}
	}
	if len(r) > 0 {
		k := 0
		if len(r) > 1 {
			k = in.choose("select", len(r))
		}
		idx = r[k]
	}
	res := tuple{mkConst(64, uint64(idx)), tFalse}
	for i, s := range x.States {
		if s.Dir == types.SendOnly {
			continue
		}
		et := s.Chan.Type().Underlying().(*types.Chan).Elem()
		v := zero(et)
		if i == idx {
			c := l[i].c
			if len(c.buf) > 0 {
				v = c.buf[0]
				c.buf = c.buf[1:]
				c.taken++
				res[1] = tTrue
			}
		}
		res = append(res, v)
	}
	if idx >= 0 && l[idx].send {
		c := l[idx].c
		if c.closed {
			in.rtPanic("send on closed channel")
		}
		c.buf = append(c.buf, l[idx].v)
		c.sent++
	}
	return res
}
