package translate

import (
	"errors"

	"github.com/dgraph-io/badger/v4"

	"github.com/gernest/requiemdb/internal/vmodel"
	"github.com/gernest/requiemdb/internal/vsym"
)

// VsymTranslateConcurrent runs lookups and at most one registration at the
// same time.
//
//vsym:harness C07 time=200 ttime=800 race=yes repeat=300
//vsym:bound 2 (thorough 3) concurrent calls out of find, reverse, bulk reverse and at most one registration (of a new or of a known label), after 2 labels were registered; labels of 1 or 2 bytes, every byte symbolic; 2 (thorough 3) preemptions at lock, pool and store operations, happens-before races anywhere; namespace of 1 byte with a spare capacity of 0 or 8
//vsym:assume at most one of the concurrent calls registers a label: of two transactions that register the same new label the store aborts one, and the caller gets its error
func VsymTranslateConcurrent() {
	db := vmodel.OpenDB("")
	t, err := New(db, make([]byte, 1, 1+8*vsym.Choose("spare", 2)))
	vsym.Assert(err == nil, "opening fails")
	var all []vPair
	for i := 0; i < 2; i++ {
		k := vsym.Str("known", i+1)
		id, err := t.TranslateKey([]byte(k))
		vsym.Assert(err == nil, "registering fails")
		all = vAdd(all, k, id)
	}
	fresh := vsym.Str("fresh", 1+vsym.Choose("len", vsym.Bound(1, 2)))
	for _, p := range all {
		vsym.Assume(p.k != fresh)
	}
	vsym.Races(true)
	vsym.Preempt(vsym.Bound(2, 3))
	var id uint64
	wrote := false
	n := vsym.Bound(2, 3)
	last := 0
	for i := 0; i < n; i++ {
		op := vsym.Choose("op", 5)
		// the order of the goroutines does not matter
		vsym.Assume(op >= last)
		last = op
		switch op {
		case 0:
			p := all[vsym.Choose("which", 2)]
			vsym.Go(func() {
				got, err := t.Find([]byte(p.k))
				vsym.Assert(err == nil && got == p.id, "a lookup is disturbed")
			})
		case 1:
			p := all[vsym.Choose("which", 2)]
			vsym.Go(func() {
				got, err := t.TranslateID(p.id)
				vsym.Assert(err == nil && got == p.k, "a reverse lookup is disturbed")
			})
		case 2:
			vsym.Go(func() {
				j := 0
				err := t.TranslateBulkID([]uint64{all[0].id, all[1].id}, func(k []byte) error {
					vsym.Assert(string(k) == all[j].k, "a bulk lookup is disturbed")
					j++
					return nil
				})
				vsym.Assert(err == nil && j == 2, "a bulk lookup is disturbed")
			})
		case 3:
			vsym.Go(func() {
				_, err := t.Find([]byte("\x00none"))
				vsym.Assert(errors.Is(err, badger.ErrKeyNotFound), "a label is found that was never registered")
			})
		case 4:
			if wrote {
				vsym.Assume(false)
			}
			wrote = true
			if vsym.Bool("known") {
				p := all[vsym.Choose("which", 2)]
				id = p.id
				vsym.Go(func() {
					got, err := t.TranslateKey([]byte(p.k))
					vsym.Assert(err == nil && got == p.id, "a registered label gets another id")
				})
				break
			}
			vsym.Go(func() {
				var err error
				id, err = t.TranslateKey([]byte(fresh))
				vsym.Assert(err == nil, "registering fails")
			})
		}
	}
	vsym.Wait()
	if wrote && id != all[0].id && id != all[1].id {
		all = vAdd(all, fresh, id)
	}
	vCheckAll(t, all)
	vsym.Observe("all", len(all))
	vsym.Reach("done")
}
