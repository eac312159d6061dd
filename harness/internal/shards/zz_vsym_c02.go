package shards

import (
	"time"

	"github.com/gernest/rbf"

	"github.com/gernest/requiemdb/internal/batch"
	"github.com/gernest/requiemdb/internal/bitmaps"
	"github.com/gernest/requiemdb/internal/view"
	"github.com/gernest/requiemdb/internal/vsym"
)

// vBlocks are 65536-blocks of label ids on both sides of shard boundaries.
var vBlocks = []uint64{0, 15, 16, 18, 32}

// vColumns is a list of n different label ids.
func vColumns(n, step int) (l []uint64) {
	blk := 0
	for i := 0; i < n; i++ {
		blk += vsym.Choose("block", min(step, len(vBlocks)-blk))
		c := vBlocks[blk]<<16 + vsym.U64In("label", 0, 65535)
		if len(l) > 0 {
			vsym.Assume(c > l[len(l)-1])
		}
		l = append(l, c)
	}
	return
}

type vRow struct {
	id  uint64
	ts  time.Time
	has []bool
}

// vSave stores samples as the store does.
func vSave(s *Shards, cols []uint64, l []vRow) {
	b := batch.New()
	for _, r := range l {
		ls := bitmaps.New()
		for i, c := range cols {
			if r.has[i] {
				ls.Add(c)
			}
		}
		b.Add(r.id, r.ts, ls)
	}
	f, err := b.Build()
	vsym.Assert(err == nil, "building the index of a batch fails")
	for shard, view := range f {
		err := s.Update(shard, func(tx *rbf.Tx) error {
			for name, bm := range view {
				if _, err := tx.AddRoaring(name, bm); err != nil {
					return err
				}
			}
			return nil
		})
		vsym.Assert(err == nil, "writing the index fails")
	}
}

// vRows checks the answer for any set of columns.
func vRows(s *Shards, cols []uint64, all []vRow, start, end time.Time, in func(vRow) bool) {
	q := bitmaps.New()
	want := make([]bool, len(cols))
	any := false
	for i, c := range cols {
		want[i] = vsym.Choose("asked", 2) == 1
		if want[i] {
			q.Add(c)
			any = true
		}
	}
	vsym.Assume(any)
	r, err := s.Rows(start, end, q)
	vsym.Assert(err == nil, "searching the index fails")
	var n uint64
	for _, x := range all {
		match := in(x)
		for i := range cols {
			if want[i] && !x.has[i] {
				match = false
			}
		}
		got := r != nil && r.Contains(x.id)
		vsym.Assert(!match || got, "a sample with all the labels is not found")
		vsym.Assert(match || !got, "a sample without all the labels is found")
		if match {
			n++
		}
	}
	var m uint64
	if r != nil {
		m = r.GetCardinality()
	}
	vsym.Assert(m == n, "something is found that was not stored")
	vsym.Observe("n", n)
}

// VsymRows searches the index for samples having several labels.
//
//vsym:harness C01,C02 time=250 ttime=850 paths=200000 tpaths=2000000
//vsym:bound 2 samples of any ids up to 2^40 of one or two hours in one or two batches, one hour asked, with any subset of 2 (thorough 3) label ids; label ids anywhere in 5 blocks of 65536 on both sides of shard boundaries; every non-empty set of them asked; map iteration in any order
func VsymRows() {
	s := New(vsym.TempDir(), nil)
	defer s.Close()
	cols := vColumns(vsym.Bound(2, 3), 3)
	ts := time.Unix(1714140000, 0).UTC()
	var all []vRow
	for i := 0; i < 2; i++ {
		r := vRow{id: vsym.U64In("id", 0, 1<<40), ts: ts, has: make([]bool, len(cols))}
		for j := range r.has {
			r.has[j] = vsym.Choose("has", 2) == 1
		}
		all = append(all, r)
	}
	vsym.Assume(all[0].id < all[1].id)
	all[vsym.Choose("other", 2)].ts = ts.Add(time.Duration(vsym.Choose("hours", 2)) * 3 * time.Hour)
	if vsym.Choose("batches", 2) == 0 {
		vSave(s, cols, all)
	} else {
		vSave(s, cols, all[:1])
		vSave(s, cols, all[1:])
	}
	vsym.MapOrder(true)
	vRows(s, cols, all, ts, ts, func(r vRow) bool { return r.ts.Equal(ts) })
	vsym.Reach("done")
}

// VsymRestart asks the index after it was closed and opened again.
//
//vsym:harness C19 time=250 ttime=850 paths=200000 tpaths=2000000
//vsym:bound 2 samples as for the search of rows (ids up to 2^40, 2 label ids anywhere in 3, thorough 5, blocks); closed and opened again before or after the first of two batches, and after the last; searches and the labels of every sample
func VsymRestart() {
	dir := vsym.TempDir()
	s := New(dir, nil)
	reopen := func() {
		err := s.Close()
		vsym.Assert(err == nil, "closing the index fails")
		s = New(dir, nil)
	}
	cols := vColumns(2, vsym.Bound(2, 3))
	ts := time.Unix(1714140000, 0).UTC()
	var all []vRow
	for i := 0; i < 2; i++ {
		r := vRow{id: vsym.U64In("id", 0, 1<<40), ts: ts, has: make([]bool, len(cols))}
		n := 0
		for j := range r.has {
			r.has[j] = vsym.Choose("has", 2) == 1
			if r.has[j] {
				n++
			}
		}
		vsym.Assume(n > 0)
		all = append(all, r)
	}
	vsym.Assume(all[0].id < all[1].id)
	all[1].ts = ts.Add(time.Duration(vsym.Choose("hours", 2)) * 3 * time.Hour)
	mode := vsym.Choose("reopen", 3)
	if mode == 0 {
		reopen()
	}
	vSave(s, cols, all[:1])
	if mode == 1 {
		reopen()
	}
	vSave(s, cols, all[1:])
	reopen()
	if vsym.Choose("labels first", 2) == 1 {
		vLabels(s, cols, all)
		vRows(s, cols, all, ts, ts, func(r vRow) bool { return r.ts.Equal(ts) })
	} else {
		vRows(s, cols, all, ts, ts, func(r vRow) bool { return r.ts.Equal(ts) })
		vLabels(s, cols, all)
	}
	s.Close()
	vsym.Reach("done")
}

// VsymRestartFar asks the index for labels of later shards after it was closed
// and opened again.
//
//vsym:harness C19 time=60 ttime=100
//vsym:bound one sample of any id up to 2^40 with two labels anywhere in the first 65536 of any of the shards 0, 7, 9, 10, 16, 99, 255, 2^20 and 2^43; closed and opened again; any of them searched, and the labels of the sample
func VsymRestartFar() {
	dir := vsym.TempDir()
	s := New(dir, nil)
	far := []uint64{0, 7, 9, 10, 16, 99, 255, 1 << 20, 1 << 43}
	i := vsym.Choose("shard", len(far))
	j := i + vsym.Choose("next", min(3, len(far)-i))
	cols := []uint64{far[i]<<20 + vsym.U64In("label", 0, 65535), far[j]<<20 + vsym.U64In("label", 0, 65535)}
	vsym.Assume(cols[0] < cols[1])
	ts := time.Unix(1714140000, 0).UTC()
	all := []vRow{{id: vsym.U64In("id", 0, 1<<40), ts: ts, has: []bool{true, true}}}
	vSave(s, cols, all)
	vsym.Assert(s.Close() == nil, "closing the index fails")
	s = New(dir, nil)
	if vsym.Choose("labels first", 2) == 1 {
		vLabels(s, cols, all)
	}
	vRows(s, cols, all, ts, ts, func(r vRow) bool { return r.ts.Equal(ts) })
	vLabels(s, cols, all)
	s.Close()
	vsym.Reach("done")
}

// vLabels checks the labels of every sample.
func vLabels(s *Shards, cols []uint64, all []vRow) {
	for _, x := range all {
		row, err := s.Row(view.Std(x.ts)[3], x.id)
		vsym.Assert(err == nil, "reading the labels of a sample fails")
		got := row.Columns()
		n := 0
		for i, c := range cols {
			if x.has[i] {
				vsym.Assert(n < len(got) && got[n] == c, "a sample has other labels")
				n++
			}
		}
		vsym.Assert(n == len(got), "a sample has other labels")
	}
}
