package store

import (
	"context"
	"slices"
	"strings"
	"time"

	"google.golang.org/protobuf/types/known/timestamppb"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/view"
	"github.com/gernest/requiemdb/internal/vmodel"
	"github.com/gernest/requiemdb/internal/vsym"
)

func vRange() *v1.Scan_TimeRange {
	return &v1.Scan_TimeRange{Start: timestamppb.New(vT0), End: timestamppb.New(vT0.Add(4 * time.Hour))}
}

// vScanAll checks a scan of every sample.
func vScanAll(v *vStore, q *vQuery, all []*vSample, must func(*vSample) bool) {
	scan := q.scan()
	scan.TimeRange = vRange()
	d, err := v.s.Scan(context.Background(), scan)
	vsym.Assert(err == nil, "a scan fails")
	vCheck(d, all, func(s *vSample) bool { return q.match(s) && must(s) }, q.match)
}

// vFailing runs f with any one operation of the stores failing. It returns
// whether there was one.
func vFailing(f func()) bool {
	hit := false
	vmodel.SetFault(func(op string) error {
		if !hit && vsym.Choose("fails", 2) == 1 {
			hit = true
			return vmodel.ErrFault
		}
		return nil
	})
	f()
	vmodel.SetFault(nil)
	return hit
}

func vTwo() (*vStore, *vGen, *vQuery, int) {
	v := vOpen(vsym.TempDir())
	g := &vGen{}
	kind := vsym.Choose("kind", 3)
	q := vNewQuery(kind, 1, vsym.Bound(2, 4))
	s := g.add(kind, 0)
	g.symbolic(s, q)
	vsym.Assert(v.save(s) == nil, "saving fails")
	return v, g, q, kind
}

// VsymSaveError lets an operation of the stores fail during a save.
//
//vsym:harness C20 time=300 ttime=850 paths=200000 tpaths=2000000 mods=yes samples=10
//vsym:bound one saved sample of any kind; a save of another of the same or the next kind, in the same hour or 3 hours later, with an optional filter field (quick: of 2, thorough: of 4) arbitrary; any one of the reads, writes, commits, opens of the two stores during the save fails; then another save
//vsym:assume characters are printable, without = and backslash (encoded specially, decided by C28)
func VsymSaveError() {
	v, g, q, kind := vTwo()
	s := g.add((kind+vsym.Choose("next kind", 2))%3, 3*vsym.Choose("hour", 2))
	if vsym.Choose("own texts", 2) == 1 {
		s.name, s.attr, s.res, s.lib = "n2", "v2", "w2", "l2"
	}
	g.symbolic(s, q)
	var err error
	hit := vFailing(func() { err = v.save(s) })
	vsym.Assume(hit)
	if err == nil {
		vScanAll(v, q, g.all, func(*vSample) bool { return true })
	}
	vsym.Observe("err", err != nil)
	saved := err == nil
	n := g.add(kind, 0)
	n.name, n.attr, n.res, n.lib = s.name, s.attr, s.res, s.lib
	vsym.Assert(v.save(n) == nil, "saving fails after a failed save")
	vScanAll(v, q, g.all, func(x *vSample) bool { return x != s || saved })
	v.close()
	vsym.Reach("done")
}

// VsymReadError lets an operation of the stores fail during a scan or the
// lookup of labels.
//
//vsym:harness C20 time=300 ttime=850 paths=200000 tpaths=2000000 mods=yes samples=10
//vsym:bound two saved samples of one kind, in one hour or 3 hours apart; a ranged or instant scan with up to 1 filter (quick: on 2 fields, thorough: on 4) for an arbitrary character, or the lookup of labels; any one of the operations of the two stores during it fails
//vsym:assume characters are printable, without = and backslash (encoded specially, decided by C28)
func VsymReadError() {
	v, g, q, kind := vTwo()
	s := g.add(kind, 3*vsym.Choose("hour", 2))
	g.symbolic(s, q)
	vsym.Assert(v.save(s) == nil, "saving fails")
	if vsym.Choose("restart", 2) == 1 {
		v.close()
		v.open()
	}
	scan := q.scan()
	var err error
	var hit bool
	switch vsym.Choose("what", 3) {
	case 0:
		scan.TimeRange = vRange()
		var d *v1.Data
		hit = vFailing(func() { d, err = v.s.Scan(context.Background(), scan) })
		if err == nil {
			vCheck(d, g.all, q.match, q.match)
		}
	case 1:
		scan.Now = timestamppb.New(vT0.Add(20 * time.Minute))
		var d *v1.Data
		hit = vFailing(func() { d, err = v.s.Scan(context.Background(), scan) })
		if err == nil {
			var last *vSample
			for _, s := range g.all {
				if s.ts < uint64(vT0.Add(time.Hour).UnixNano()) && q.match(s) {
					last = s
				}
			}
			is := func(s *vSample) bool { return s == last }
			vCheck(d, g.all, is, is)
		}
	case 2:
		w := view.Std(time.Unix(0, int64(s.ts)).UTC())[vsym.Choose("view", vsym.Bound(1, 4))]
		want, werr := v.s.Labels(w, s.id)
		vsym.Assert(werr == nil && len(want) > 0, "reading labels fails")
		if vsym.Choose("again", vsym.Bound(1, 2)) == 1 {
			v.close()
			v.open()
		}
		var got []string
		hit = vFailing(func() { got, err = v.s.Labels(w, s.id) })
		vsym.Assert(err != nil || slices.Equal(got, want), "labels are missing after an error")
	}
	vsym.Assume(hit)
	vsym.Observe("err", err != nil)
	vScanAll(v, q, g.all, func(*vSample) bool { return true })
	v.close()
	vsym.Reach("done")
}

type vCrash struct{}

// vCrashing runs f and ends the process before any one write of a store
// reaches the disk. It returns whether there was one.
func vCrashing(f func()) (hit bool) {
	vmodel.SetFault(func(op string) error {
		if strings.HasSuffix(op, ".commit") && !hit {
			hit = vsym.Choose("crash", 2) == 1
		}
		if hit {
			panic(vCrash{})
		}
		return nil
	})
	defer vmodel.SetFault(nil)
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(vCrash); !ok {
				panic(e)
			}
		}
	}()
	f()
	return
}

// VsymCrash ends the process between any two writes of a save.
//
//vsym:harness C18 time=300 ttime=850 paths=200000 tpaths=2000000 mods=yes repeat=5 samples=10
//vsym:bound one saved sample of any kind; a crash before any one of the commits to the two stores during the save of one or two more samples of the same or the next kind, in the same hour or 3 hours later; a restart; scans with up to 1 filter (quick: on 2 fields, thorough: on 4) for arbitrary characters; then the save of another sample; map iteration in any of up to 4 orders
//vsym:assume characters are printable, without = and backslash (encoded specially, decided by C28)
//vsym:assume a committed transaction of either store survives, an uncommitted one leaves no trace (the stores' own guarantee)
func VsymCrash() {
	v, g, q, kind := vTwo()
	var l []*vSample
	for i, n := 0, 1+vsym.Choose("samples", 2); i < n; i++ {
		s := g.add((kind+vsym.Choose("next kind", 2))%3, 3*vsym.Choose("hour", 2))
		s.lib = []string{"l", "l2"}[i]
		g.symbolic(s, q)
		l = append(l, s)
	}
	hit := vCrashing(func() { v.save(l...) })
	vsym.Assume(hit)
	v.rdb.Close()
	v.db.Close()
	v.open()
	first := g.all[0]
	vScanAll(v, q, g.all, func(s *vSample) bool { return s == first })
	n := g.add(kind, 0)
	n.name, n.attr, n.res, n.lib = l[0].name, l[0].attr, l[0].res, l[0].lib
	vsym.Assert(v.save(n) == nil, "saving fails after a crash")
	vScanAll(v, q, g.all, func(s *vSample) bool { return s == first || s == n })
	x, err := v.s.Labels("std_2024123123", n.id)
	vsym.Assert(err == nil && len(x) > 4, "a sample has no labels")
	v.close()
	vsym.Reach("done")
}
