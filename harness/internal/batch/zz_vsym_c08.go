package batch

import (
	"time"

	"github.com/gernest/roaring"
	"github.com/gernest/roaring/shardwidth"

	"github.com/gernest/requiemdb/internal/bitmaps"
	"github.com/gernest/requiemdb/internal/view"
	"github.com/gernest/requiemdb/internal/vsym"
)

const vW = shardwidth.ShardWidth

type vSample struct {
	id     uint64
	ts     time.Time
	labels []uint64
}

var vHours = []time.Time{
	time.Date(2024, 12, 31, 23, 0, 0, 0, time.UTC),
	time.Date(2025, 1, 1, 0, 0, 0, 0, time.UTC),
	time.Date(2024, 12, 31, 22, 0, 0, 0, time.UTC),
	time.Date(2024, 11, 30, 23, 0, 0, 0, time.UTC),
}

// vPlace spreads labels over blocks of the index: the last id of the first
// one, the ids of the second, the first of the third, and some far ones.
func vLabel(l string) uint64 {
	lo := vsym.U64In(l, 0, vW-1)
	switch vsym.Choose(l+".block", vsym.Bound(3, 4)) {
	case 0:
		return lo
	case 1:
		return vW + lo
	case 2:
		return 5*vW + lo
	}
	return vsym.U64In(l+".any", 0, 1<<44-1)
}

func vBatch(l string, n, labels int) (all []vSample) {
	for i := 0; i < n; i++ {
		s := vSample{
			id: vsym.U64In(l+"id", 0, 1<<40),
			ts: time.Unix(vHours[vsym.Choose(l+"hour", vsym.Bound(2, 4))].Unix()+int64(vsym.U64In(l+"sec", 0, 3599)), int64(vsym.U64In(l+"ns", 0, 999999999))).UTC(),
		}
		if i > 0 {
			vsym.Assume(all[i-1].id < s.id)
		}
		for j, m := 0, vsym.Choose(l+"labels", labels+1); j < m; j++ {
			x := vLabel(l + "label")
			if j > 0 {
				vsym.Assume(s.labels[j-1] < x)
			}
			s.labels = append(s.labels, x)
		}
		all = append(all, s)
	}
	return
}

func vAdd(b *Batch, all []vSample) {
	for _, s := range all {
		var ls *bitmaps.Bitmap
		if len(s.labels) > 0 || vsym.Bool("empty, not nil") {
			ls = bitmaps.New()
			for _, x := range s.labels {
				ls.Add(x)
			}
		}
		b.Add(s.id, s.ts, ls)
	}
}

func vViewNames(t time.Time) []string {
	var r []string
	for _, f := range []string{"2006", "200601", "20060102", "2006010215"} {
		r = append(r, view.StdView+"_"+t.Format(f))
	}
	return r
}

type vWant struct {
	shard uint64
	view  string
	pos   []uint64
}

func vCheck(f Fragments, all []vSample) {
	var want []*vWant
	for _, s := range all {
		for _, x := range s.labels {
			shard := x / vW
			for _, v := range vViewNames(s.ts) {
				pos := s.id*vW + x%vW
				var e *vWant
				for _, w := range want {
					if w.shard == shard && w.view == v {
						e = w
					}
				}
				if e == nil {
					e = &vWant{shard: shard, view: v}
					want = append(want, e)
				}
				e.pos = append(e.pos, pos)
			}
		}
	}
	n := 0
	for _, views := range f {
		for _, b := range views {
			if b.Count() > 0 {
				n++
			}
		}
	}
	vsym.Assert(n == len(want), "the index of a batch has other shards or partitions than its samples")
	for _, w := range want {
		var b *roaring.Bitmap
		if views := f[w.shard]; views != nil {
			b = views[w.view]
		}
		vsym.Assert(b != nil, "the index of a batch lacks a shard or partition of a sample")
		vsym.Assert(b.Count() == uint64(len(w.pos)), "the index of a batch has more or fewer positions than (sample, label) pairs")
		for _, p := range w.pos {
			vsym.Assert(b.Contains(p), "the index of a batch lacks a (sample, label) pair")
		}
	}
}

// VsymBatchBuild builds two batches with one builder.
//
//vsym:harness C08 time=200 ttime=800
//vsym:bound batches of 2 (thorough 3) samples and then 1 with ids up to 2^40, up to 2 labels each, a label anywhere in 3 blocks of 2^20 ids (thorough: or anywhere up to 2^44), any nanosecond of 2 (thorough 4) hours on both sides of a year; a nil or empty label set
func VsymBatchBuild() {
	b := New()
	first := vBatch("", vsym.Bound(2, 3), 2)
	vAdd(b, first)
	f, err := b.Build()
	vsym.Assert(err == nil, "building an index fails")
	vCheck(f, first)
	second := vBatch("2.", vsym.Choose("second", 2), 1)
	vAdd(b, second)
	g, err := b.Build()
	vsym.Assert(err == nil, "building an index fails")
	vCheck(g, second)
	vCheck(f, first)
	vsym.Observe("shards", len(f))
	vsym.Reach("done")
}
