package store

import (
	"context"
	"slices"

	"google.golang.org/protobuf/types/known/timestamppb"

	"github.com/gernest/requiemdb/internal/seq"
	"github.com/gernest/requiemdb/internal/vmodel"
	"github.com/gernest/requiemdb/internal/vsym"
)

// VsymIDs issues sample ids and saves samples under them, over restarts.
//
//vsym:harness C34 time=200 ttime=800 mods=yes samples=10
//vsym:bound 5 (thorough 7) steps out of: issue an id, issue one and save a sample of one kind (under the next small id, as each id that a crash skips costs a blank row), a clean restart, a restart without releasing anything; the name of every sample an arbitrary character; then a scan for an arbitrary name over all, and an instant scan
//vsym:assume characters are printable, without = and backslash (encoded specially, decided by C28)
func VsymIDs() {
	v := vOpen(vsym.TempDir())
	ids, err := seq.New(v.db)
	vsym.Assert(err == nil, "opening the sequence fails")
	g := &vGen{}
	kind := vsym.Choose("kind", vsym.Bound(1, 3))
	q := &vQuery{kind: kind, fs: []vFilter{{0, vPlain("filter")}}}
	seen := map[uint64]bool{}
	var last uint64
	next := func() uint64 {
		id := ids.SampleID()
		vsym.Assert(!seen[id], "a sample id is handed out twice")
		vsym.Assert(len(seen) == 0 || id > last, "sample ids do not grow")
		seen[id] = true
		last = id
		return id
	}
	n := vsym.Bound(5, 7)
	for i := 0; i < n; i++ {
		switch vsym.Choose("step", 4) {
		case 0:
			next()
		case 1:
			// Blank rows up to the next million are only work for the engine.
			next()
			s := g.add(kind, 0)
			g.symbolic(s, q)
			vsym.Assert(v.save(s) == nil, "saving fails")
		case 2:
			vsym.Assert(ids.Release() == nil, "releasing the sequence fails")
			v.close()
			v.open()
			ids, err = seq.New(v.db)
		case 3:
			v.rdb.Close()
			v.db.Close()
			v.open()
			ids, err = seq.New(v.db)
		}
		vsym.Assert(err == nil, "opening the sequence fails")
	}
	next()
	vScanAll(v, q, g.all, func(*vSample) bool { return true })
	scan := (&vQuery{kind: kind}).scan()
	scan.Now = timestamppb.New(vT0.Add(59*60*1e9 + 59*1e9))
	d, err := v.s.Scan(context.Background(), scan)
	vsym.Assert(err == nil, "a scan fails")
	var newest *vSample
	for _, s := range g.all {
		newest = s
	}
	is := func(s *vSample) bool { return s == newest }
	vCheck(d, g.all, is, is)
	vsym.Observe("ids", len(seen))
	vsym.Assert(ids.Release() == nil, "releasing the sequence fails")
	v.close()
	vsym.Reach("done")
}

// VsymIDsConcurrent issues sample ids from goroutines.
//
//vsym:harness C34 time=60 ttime=300 race=yes repeat=40
//vsym:bound two goroutines that issue two ids each, after one id, up to two preemptions (thorough: three); then a clean or unclean restart and another id
func VsymIDsConcurrent() {
	dir := vsym.TempDir()
	db := vmodel.OpenDB(dir)
	ids, err := seq.New(db)
	vsym.Assert(err == nil, "opening the sequence fails")
	first := ids.SampleID()
	vsym.Races(true)
	vsym.Preempt(vsym.Bound(2, 3))
	var got [2][2]uint64
	for i := range got {
		vsym.Go(func() {
			for j := range got[i] {
				got[i][j] = ids.SampleID()
			}
		})
	}
	vsym.Wait()
	vsym.Races(false)
	if vsym.Choose("release", 2) == 1 {
		vsym.Assert(ids.Release() == nil, "releasing the sequence fails")
	}
	db.Close()
	db = vmodel.OpenDB(dir)
	ids, err = seq.New(db)
	vsym.Assert(err == nil, "opening the sequence fails")
	l := []uint64{first, ids.SampleID(), got[0][0], got[0][1], got[1][0], got[1][1]}
	last := l[1]
	slices.Sort(l)
	vsym.Assert(len(slices.Compact(slices.Clone(l))) == len(l), "a sample id is handed out twice")
	vsym.Assert(l[0] == first && l[5] == last, "sample ids do not grow")
	vsym.Assert(got[0][0] < got[0][1] && got[1][0] < got[1][1], "sample ids do not grow")
	vsym.Observe("ids", len(l))
	db.Close()
	vsym.Reach("done")
}
