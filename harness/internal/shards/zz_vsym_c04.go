package shards

import (
	"sort"
	"strings"
	"time"

	"github.com/gernest/rbf"

	"github.com/gernest/requiemdb/internal/batch"
	"github.com/gernest/requiemdb/internal/bitmaps"
	"github.com/gernest/requiemdb/internal/view"
	"github.com/gernest/requiemdb/internal/vsym"
)

const vHour = 3600

// vAnchors are full hours next to boundaries of days, months and years.
var vAnchors = []time.Time{
	time.Date(2024, 4, 3, 13, 0, 0, 0, time.UTC),
	time.Date(2024, 2, 28, 22, 0, 0, 0, time.UTC),
	time.Date(2023, 2, 28, 23, 0, 0, 0, time.UTC),
	time.Date(2024, 12, 31, 23, 0, 0, 0, time.UTC),
	time.Date(2024, 1, 31, 5, 0, 0, 0, time.UTC),
	time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC),
	time.Date(2023, 11, 1, 0, 0, 0, 0, time.UTC),
	time.Date(2024, 2, 29, 1, 0, 0, 0, time.UTC),
}

// vHours are window lengths in hours.
var vHours = []int{0, 1, 2, 23, 24, 25, 48, 28*24 + 3, 29 * 24, 30*24 - 1, 30 * 24, 31*24 + 2, 61 * 24, 359*24 + 23, 360 * 24, 365 * 24, 366*24 + 5, 800 * 24}

// vTime is any instant of the given hour.
func vTime(l string, h int64) time.Time {
	sec := vsym.U64In(l+".s", 0, vHour-1)
	ns := vsym.U64In(l+".ns", 0, 999999999)
	return time.Unix(h*vHour+int64(sec), int64(ns)).UTC()
}

// vWindow is a window and an instant in it.
func vWindow(anchors, lengths, steps int) (start, end, t time.Time) {
	a := vAnchors[vsym.Choose("anchor", anchors)].Unix() / vHour
	n := int64(vHours[vsym.Choose("hours", lengths)])
	start, end = vTime("start", a), vTime("end", a+n)
	var at int64
	switch vsym.Choose("at", steps) {
	case 0:
		at = a
	case 1:
		at = a + n
	case 2:
		at = a + 1
	case 3:
		at = a + n - 1
	case 4:
		at = a + n/2
	case 5:
		at = a + 24
	case 6:
		at = a + n - 24
	case 7:
		at = a + n - 30*24
	}
	vsym.Assume(at >= a && at <= a+n)
	t = vTime("t", at)
	vsym.Assume(vsym.And(!t.Before(start), !t.After(end)))
	return
}

func vViews(t time.Time) []string {
	q := batch.NeqQuantumTime()
	defer q.Release()
	q.Set(t)
	v, err := q.Views(batch.Quantum)
	vsym.Assert(err == nil, "an instant has no partitions")
	return v
}

func vJoin(l []string) string {
	l = append([]string{}, l...)
	sort.Strings(l)
	return strings.Join(l, " ")
}

// VsymSearchViews: the partitions of an instant and the partitions searched
// for a window around it have exactly one in common.
//
//vsym:harness C04 time=150 ttime=600 paths=60000
//vsym:bound windows starting in any nanosecond of 6 (thorough 8) hours next to day, month, leap day and year boundaries, ending in any nanosecond of the hour 0 hours to 800 days later (18 lengths); instants in any nanosecond of 8 hours inside
func VsymSearchViews() {
	start, end, t := vWindow(vsym.Bound(6, 8), len(vHours), 8)
	search := view.Search(start, end)
	n := 0
	for _, v := range vViews(t) {
		for _, s := range search {
			if s == v {
				n++
			}
		}
	}
	vsym.Assert(n > 0, "no partition searched for a window covers an instant in it")
	vsym.Assert(n == 1, "an instant of a window is searched twice")
	std := view.Std(t)
	mine := vViews(t)
	vsym.Assert(len(std) == len(mine), "the two lists of partitions of an instant differ")
	vsym.Assert(vJoin(std) == vJoin(mine), "the two lists of partitions of an instant differ")
	vsym.Observe("n", n)
	vsym.Reach("done")
}

// VsymRowsWindow: the index finds a sample at an instant of the window.
//
//vsym:harness C04 time=150 ttime=600 paths=20000
//vsym:bound windows as above with 4 (thorough 8) starting hours; one indexed sample at an instant of 5 hours inside
func VsymRowsWindow() {
	start, end, t := vWindow(vsym.Bound(4, 8), len(vHours), 5)
	s := New(vsym.TempDir(), nil)
	defer s.Close()
	b := batch.New()
	ls := bitmaps.New()
	ls.Add(7)
	b.Add(3, t, ls)
	f, err := b.Build()
	vsym.Assert(err == nil, "building an index fails")
	for shard, views := range f {
		err := s.Update(shard, func(tx *rbf.Tx) error {
			for name, bm := range views {
				if _, err := tx.AddRoaring(name, bm); err != nil {
					return err
				}
			}
			return nil
		})
		vsym.Assert(err == nil, "writing the index fails")
	}
	cols := bitmaps.New()
	cols.Add(7)
	r, err := s.Rows(start, end, cols)
	vsym.Assert(err == nil, "searching the index fails")
	vsym.Assert(r != nil, "a sample inside the window is not found in the index")
	vsym.Assert(vsym.And(r.Contains(3), r.GetCardinality() == 1), "a sample inside the window is not found in the index")
	vsym.Reach("done")
}

// VsymTimeReuse: the partitions of an instant are its own, whatever the
// quantised time was used for before.
//
//vsym:harness C04,C08 time=100 ttime=400
//vsym:bound any nanosecond of 8 hours, in a quantised time set before to any nanosecond of 3 hours and reused from the pool, set twice, or cloned
func VsymTimeReuse() {
	a := vAnchors[vsym.Choose("a", len(vAnchors))].Unix() / vHour
	ta, tb := vTime("a", a), vTime("b", vAnchors[vsym.Choose("b", 3)].Unix()/vHour+int64(vsym.Choose("b.h", 3)))
	q := batch.NeqQuantumTime()
	q.Set(tb)
	switch vsym.Choose("how", 3) {
	case 0:
		q.Release()
		q = batch.NeqQuantumTime()
	case 1:
		q = q.Clone()
	}
	q.Set(ta)
	v, err := q.Views(batch.Quantum)
	vsym.Assert(err == nil, "an instant has no partitions")
	c := q.Clone()
	q.Set(tb)
	q.Release()
	w, err := c.Views(batch.Quantum)
	vsym.Assert(err == nil, "an instant has no partitions")
	std := view.Std(ta)
	vsym.Assert(vJoin(std) == vJoin(v), "the partitions of an instant depend on an earlier one")
	vsym.Assert(vJoin(std) == vJoin(w), "the partitions of a copied instant depend on the original")
	vsym.Observe("views", v)
	vsym.Reach("done")
}
