package translate

import (
	"errors"
	"strings"

	"github.com/dgraph-io/badger/v4"

	"github.com/gernest/requiemdb/internal/vmodel"
	"github.com/gernest/requiemdb/internal/vsym"
)

type vPair struct {
	k  string
	id uint64
}

// vPrefix is a namespace whose slice has any spare capacity.
func vPrefix() []byte {
	p := make([]byte, vsym.Choose("prefix", 3), 3+8)
	for i := range p {
		p[i] = "Nab"[i]
	}
	switch vsym.Choose("spare", 3) {
	case 0:
		return p[:len(p):len(p)]
	case 1:
		return p[: len(p) : len(p)+4]
	}
	return p
}

func vKey(n int) string { return vPad + vsym.Str("key", vsym.Choose("len", n)) }

// vPad is what every label starts with.
var vPad string

// VsymTranslateLong registers and finds long labels.
//
//vsym:harness C06 time=60 ttime=200
//vsym:bound two or three labels that start with the same 64, 255, 256, 1024 or 30000 bytes and end with one or two symbolic ones, registered, then found as they are and after reopening, with a third one
func VsymTranslateLong() {
	db := vmodel.OpenDB("")
	vPad = strings.Repeat("x", []int{64, 255, 256, 1024, 30000}[vsym.Choose("long", 5)])
	prefix := []byte{1}
	t, err := New(db, prefix)
	vsym.Assert(err == nil, "opening fails")
	var all []vPair
	for i := 0; i < 3; i++ {
		k := vPad + vsym.Str("key", 1+vsym.Choose("len", 2))
		id, err := t.TranslateKey([]byte(k))
		vsym.Assert(err == nil, "registering fails")
		all = vAdd(all, k, id)
		vCheckAll(t, all)
		if i == 1 {
			vsym.Assert(t.Close() == nil, "closing fails")
			t, err = New(db, prefix)
			vsym.Assert(err == nil, "opening again fails")
			vCheckAll(t, all)
		}
	}
	_, err = t.Find([]byte(vPad))
	vsym.Assert(errors.Is(err, badger.ErrKeyNotFound), "a label that was never registered is found")
	vsym.Observe("all", len(all))
	vsym.Reach("done")
}

// vCheckAll: every registered label is found, under its own id.
func vCheckAll(t *Translate, all []vPair) {
	var ids []uint64
	for _, p := range all {
		id, err := t.Find([]byte(p.k))
		vsym.Assert(err == nil, "a registered label is not found")
		vsym.Assert(id == p.id, "a label is found under another id")
		k, err := t.TranslateID(p.id)
		vsym.Assert(err == nil, "an id of a label has no label")
		vsym.Assert(k == p.k, "an id gives another label")
	}
	if len(all) == 0 {
		return
	}
	want := []vPair{all[0]}
	for i := range all {
		want = append(want, all[len(all)-1-i])
	}
	for _, p := range want {
		ids = append(ids, p.id)
	}
	n := 0
	err := t.TranslateBulkID(ids, func(k []byte) error {
		vsym.Assert(n < len(want) && string(k) == want[n].k, "ids give other labels in bulk")
		n++
		return nil
	})
	vsym.Assert(err == nil && n == len(want), "ids give other labels in bulk")
}

func vAdd(all []vPair, k string, id uint64) []vPair {
	for _, p := range all {
		vsym.Assert(vsym.Iff(p.k == k, p.id == id), "two labels share an id, or one label has two")
	}
	for _, p := range all {
		if p.id == id {
			return all
		}
	}
	return append(all, vPair{k, id})
}

// VsymTranslate runs any sequence of operations.
//
//vsym:harness C06 time=200 ttime=850 paths=400000 tpaths=3000000
//vsym:bound 4 (thorough 5) operations out of register, find, reverse, reopen after close, reopen without close; labels of 0 to 2 (thorough 3) bytes, every byte symbolic; namespace of 0 to 2 bytes with a spare capacity of 0, 4 or more
func VsymTranslate() {
	db := vmodel.OpenDB("")
	prefix := vPrefix()
	t, err := New(db, prefix)
	vsym.Assert(err == nil, "opening fails")
	var all []vPair
	for i := 0; i < vsym.Bound(4, 5); i++ {
		switch vsym.Choose("op", 5) {
		case 0:
			k := vKey(vsym.Bound(3, 4))
			b := []byte(k)
			id, err := t.TranslateKey(b)
			vsym.Assert(err == nil, "registering fails")
			for j := range b { // the caller reuses its buffer
				b[j] = 'z'
			}
			all = vAdd(all, k, id)
		case 1:
			k := vKey(vsym.Bound(3, 4))
			id, err := t.Find([]byte(k))
			known, want := false, uint64(0)
			for _, p := range all {
				if p.k == k {
					known, want = true, p.id
				}
			}
			if known {
				vsym.Assert(err == nil && id == want, "a registered label is not found")
			} else {
				vsym.Assert(errors.Is(err, badger.ErrKeyNotFound), "a label that was never registered is found")
			}
		case 2:
			id := vsym.U64In("id", 0, 5)
			k, err := t.TranslateID(id)
			known, want := false, ""
			for _, p := range all {
				if p.id == id {
					known, want = true, p.k
				}
			}
			if known {
				vsym.Assert(err == nil && k == want, "an id gives another label")
			} else {
				vsym.Assert(err != nil, "an id that was never given has a label")
			}
		case 3:
			vsym.Assert(t.Close() == nil, "closing fails")
			t, err = New(db, prefix)
			vsym.Assert(err == nil, "opening again fails")
		case 4:
			t, err = New(db, vPrefixCopy(prefix))
			vsym.Assert(err == nil, "opening again fails")
		}
		vCheckAll(t, all)
	}
	vsym.Observe("all", len(all))
	vsym.Reach("done")
}

func vPrefixCopy(p []byte) []byte { return append(make([]byte, 0, len(p)), p...) }

// VsymTranslateLease: ids stay unique when the sequence needs another lease.
//
//vsym:harness C06 time=200 ttime=400 samples=1
//vsym:bound labels registered just before and after the first 4096 ids are used up, and after reopening
func VsymTranslateLease() {
	db := vmodel.OpenDB("")
	prefix := vPrefix()
	t, err := New(db, prefix)
	vsym.Assert(err == nil, "opening fails")
	a := vsym.Str("a", 2)
	b := vsym.Str("b", 2)
	var all []vPair
	id, err := t.TranslateKey([]byte(a))
	vsym.Assert(err == nil, "registering fails")
	all = vAdd(all, a, id)
	n := uint64(4096 - 2)
	for i := uint64(0); i < n; i++ {
		_, err := t.seq.Next()
		vsym.Assert(err == nil, "no more ids")
	}
	for i := 0; i < 3; i++ {
		k := b + string(rune('0'+i))
		id, err := t.TranslateKey([]byte(k))
		vsym.Assert(err == nil, "registering fails")
		all = vAdd(all, k, id)
	}
	vCheckAll(t, all)
	if vsym.Bool("close") {
		vsym.Assert(t.Close() == nil, "closing fails")
	}
	t, err = New(db, vPrefixCopy(prefix))
	vsym.Assert(err == nil, "opening again fails")
	k := b + "x"
	id, err = t.TranslateKey([]byte(k))
	vsym.Assert(err == nil, "registering fails")
	all = vAdd(all, k, id)
	vCheckAll(t, all)
	vsym.Reach("done")
}
