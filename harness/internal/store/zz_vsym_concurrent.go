package store

import (
	"context"
	"slices"
	"sync/atomic"
	"time"

	"google.golang.org/protobuf/types/known/timestamppb"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/vsym"
)

// vRead is one call that reads, of kinds from a number on. The call returns
// the check of its answer.
func vRead(v *vStore, q *vQuery, old, all []*vSample, from int) (int, func() func()) {
	scan := q.scan()
	old = slices.Clone(old)
	was := func(s *vSample) bool { return slices.Contains(old, s) && q.match(s) }
	read := from + vsym.Choose("read", 3-from)
	switch read {
	case 0:
		scan.TimeRange = vRange()
		return read, func() func() {
			d, err := v.s.Scan(context.Background(), scan)
			return func() {
				vsym.Assert(err == nil, "a scan fails when other calls run")
				vCheck(d, all, was, q.match)
			}
		}
	case 1:
		scan.Now = timestamppb.New(vT0.Add(20 * time.Minute))
		return read, func() func() {
			d, err := v.s.Scan(context.Background(), scan)
			return func() {
				vsym.Assert(err == nil, "a scan fails when other calls run")
				vLast(d, all, was, q.match)
			}
		}
	}
	w := "std_2024123123"
	want, err := v.s.Labels(w, 0)
	vsym.Assert(err == nil && (len(old) == 0 || len(want) > 4), "reading labels fails")
	return read, func() func() {
		got, err := v.s.Labels(w, 0)
		return func() {
			vsym.Assert(err == nil, "reading labels fails when other calls run")
			vsym.Assert(slices.Equal(got, want) || len(old) == 0 && len(got) > 4, "labels change when other calls run")
		}
	}
}

// vLast checks that an instant scan returns the last sample of a set between
// must and may.
func vLast(d *v1.Data, all []*vSample, must, may func(*vSample) bool) {
	var last *vSample
	for _, s := range all {
		if must(s) {
			last = s
		}
	}
	n := len(vItems(d))
	if last == nil && n == 0 {
		return
	}
	vsym.Assert(n == 1, "an instant scan does not return one sample")
	none := func(*vSample) bool { return false }
	vCheck(d, all, none, func(s *vSample) bool {
		return may(s) && (last == nil || s.id >= last.id)
	})
}

// VsymConcurrent scans while samples are saved and scanned.
//
//vsym:harness C35 time=300 ttime=850 race=yes mods=yes repeat=40 samples=5
//vsym:bound no sample or one of any kind saved before, with or without a restart since; then a ranged or instant scan with up to 1 filter (quick: on 1 field, thorough: on 4) for an arbitrary character or the lookup of labels, next to the save of a sample in the same hour, or next to another such call; up to one preemption (thorough: two) at lock, pool and store operations, happens-before races anywhere
//vsym:assume characters are printable, without = and backslash (encoded specially, decided by C28)
//vsym:assume saves do not run next to one another (the service serialises them, decided by C17); single operations of the two stores are atomic, and their transactions isolated
func VsymConcurrent() {
	v := vOpen(vsym.TempDir())
	g := &vGen{}
	kind := vsym.Choose("kind", 3)
	q := vNewQuery(kind, 1, vsym.Bound(1, 4))
	state := vsym.Choose("state", 3)
	if state > 0 {
		s := g.add(kind, 0)
		g.symbolic(s, q)
		vsym.Assert(v.save(s) == nil, "saving fails")
	}
	if state > 1 {
		v.close()
		v.open()
	}
	old := g.all
	var f, h func() func()
	first := 0 // the order of the goroutines does not matter
	if vsym.Choose("next to", 2) == 0 {
		s := g.add(kind, 0)
		g.symbolic(s, q)
		h = func() func() {
			err := v.save(s)
			return func() { vsym.Assert(err == nil, "saving fails when other calls run") }
		}
	} else {
		first, h = vRead(v, q, old, g.all, 0)
	}
	_, f = vRead(v, q, old, g.all, first)
	vQuiet = true
	vsym.Races(true)
	vsym.Preempt(vsym.Bound(1, 2))
	var over atomic.Bool
	vsym.Go(func() {
		f()()
		// more chances to meet the other call when it is replayed
		for i := 0; i < 1<<20 && !vsym.Symbolic() && !over.Load(); i++ {
			f()
		}
	})
	vsym.Go(func() {
		h()()
		over.Store(true)
	})
	vsym.Wait()
	vsym.Races(false)
	vQuiet = false
	vScanAll(v, q, g.all, func(*vSample) bool { return true })
	v.close()
	vsym.Reach("done")
}
