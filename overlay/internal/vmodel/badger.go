package vmodel

import (
	"encoding/binary"
	"errors"
	"os"
	"sync"

	"github.com/dgraph-io/badger/v4"

	"github.com/gernest/requiemdb/internal/vsym"
)

// ---- badger: a key/value store with optimistic snapshot transactions ----

type kvEnt struct {
	k   string
	v   []byte
	del bool
	ver int
}

// kvDisk is the committed content. Ents is never changed in place.
type kvDisk struct {
	ents []kvEnt
	ver  int
}

var kvDisks = map[string]*kvDisk{}

type kvDB struct {
	mu     sync.Mutex // as the library's oracle
	disk   *kvDisk
	closed bool
}

var kvDBs = map[*badger.DB]*kvDB{}

type kvWrite struct {
	k, v []byte
	del  bool
}

type kvTxn struct {
	db      *kvDB
	ents    []kvEnt
	ver     int
	update  bool
	done    bool
	reads   []string
	pending []kvWrite
}

var kvTxns = map[*badger.Txn]*kvTxn{}
var kvVals = map[*badger.Item][]byte{}
var kvKeys = map[*badger.Item][]byte{}

// fault is called before every operation of the stores.
var fault func(op string) error

var nativeFault func(f func(op string) error)

// ErrFault is an injected failure.
var ErrFault = errors.New("injected failure")

// SetFault installs a function that is called before every operation of the
// stores: kv.get, kv.value, kv.set, kv.commit, index.open, index.begin,
// index.add, index.filter, index.range and index.commit. The operation fails
// with the error it returns. It works natively in harnesses with mods=yes.
func SetFault(f func(op string) error) {
	if vsym.Symbolic() {
		fault = f
	} else if nativeFault != nil {
		nativeFault(f)
	} else {
		panic("the harness needs mods=yes")
	}
}

func fails(op string) error {
	if fault == nil {
		return nil
	}
	return fault(op)
}

// OpenDB opens the store in dir, in memory when dir is empty. It runs
// natively, too.
func OpenDB(dir string) *badger.DB {
	if !vsym.Symbolic() {
		o := badger.DefaultOptions(dir).WithLogger(nil)
		if dir == "" {
			o = o.WithInMemory(true)
		} else {
			o = o.WithMemTableSize(1 << 20).WithValueLogFileSize(1 << 22).WithNumMemtables(2).WithValueThreshold(1 << 15)
			os.MkdirAll(dir, 0o755)
		}
		db, err := badger.Open(o)
		if err != nil {
			panic(err)
		}
		vsym.After(func() {
			if !db.IsClosed() {
				db.Close()
			}
		})
		return db
	}
	db := &badger.DB{}
	d := &kvDisk{}
	if dir != "" {
		if e := kvDisks[dir]; e != nil {
			d = e
		}
		kvDisks[dir] = d
	}
	kvDBs[db] = &kvDB{disk: d}
	return db
}

//vsym:model (*github.com/dgraph-io/badger/v4.DB).Close
func kvClose(db *badger.DB) error {
	kvDBs[db].closed = true
	return nil
}

//vsym:model (*github.com/dgraph-io/badger/v4.DB).IsClosed
func kvIsClosed(db *badger.DB) bool { return kvDBs[db].closed }

//vsym:model (*github.com/dgraph-io/badger/v4.DB).Sync
func kvSync(db *badger.DB) error { return nil }

//vsym:model (*github.com/dgraph-io/badger/v4.DB).NewTransaction
func kvNewTxn(db *badger.DB, update bool) *badger.Txn {
	m := kvDBs[db]
	t := &badger.Txn{}
	m.mu.Lock()
	defer m.mu.Unlock()
	kvTxns[t] = &kvTxn{db: m, ents: m.disk.ents, ver: m.disk.ver, update: update}
	return t
}

//vsym:model (*github.com/dgraph-io/badger/v4.Txn).Discard
func kvDiscard(t *badger.Txn) { kvTxns[t].done = true }

//vsym:model (*github.com/dgraph-io/badger/v4.DB).View
func kvView(db *badger.DB, f func(*badger.Txn) error) error {
	if kvDBs[db].closed {
		return badger.ErrDBClosed
	}
	t := kvNewTxn(db, false)
	defer kvDiscard(t)
	return f(t)
}

//vsym:model (*github.com/dgraph-io/badger/v4.DB).Update
func kvUpdate(db *badger.DB, f func(*badger.Txn) error) error {
	if kvDBs[db].closed {
		return badger.ErrDBClosed
	}
	t := kvNewTxn(db, true)
	defer kvDiscard(t)
	if err := f(t); err != nil {
		return err
	}
	return kvCommit(t)
}

//vsym:model (*github.com/dgraph-io/badger/v4.Txn).Commit
func kvCommit(t *badger.Txn) error {
	x := kvTxns[t]
	if len(x.pending) == 0 {
		return nil
	}
	x.db.mu.Lock()
	defer x.db.mu.Unlock()
	if x.db.closed {
		return badger.ErrDBClosed
	}
	if err := fails("kv.commit"); err != nil {
		return err
	}
	d := x.db.disk
	for _, k := range x.reads {
		for i := range d.ents {
			if d.ents[i].ver > x.ver && d.ents[i].k == k {
				return badger.ErrConflict
			}
		}
	}
	d.ver++
	ents := append([]kvEnt(nil), d.ents...)
	for _, w := range x.pending {
		e := kvEnt{k: string(w.k), v: append([]byte{}, w.v...), del: w.del, ver: d.ver}
		j := -1
		for i := range ents {
			if ents[i].k == e.k {
				j = i
				break
			}
		}
		if j >= 0 {
			ents[j] = e
		} else {
			ents = append(ents, e)
		}
	}
	d.ents = ents
	x.done = true
	return nil
}

//vsym:model (*github.com/dgraph-io/badger/v4.Txn).Get
func kvGet(t *badger.Txn, key []byte) (*badger.Item, error) {
	x := kvTxns[t]
	if len(key) == 0 {
		return nil, badger.ErrEmptyKey
	}
	if x.done {
		return nil, badger.ErrDiscardedTxn
	}
	vsym.Yield()
	if err := fails("kv.get"); err != nil {
		return nil, err
	}
	k := string(key)
	for i := len(x.pending) - 1; i >= 0; i-- {
		if string(x.pending[i].k) == k {
			if x.pending[i].del {
				return nil, badger.ErrKeyNotFound
			}
			it := &badger.Item{}
			kvVals[it] = x.pending[i].v
			kvKeys[it] = key
			return it, nil
		}
	}
	if x.update {
		x.reads = append(x.reads, k)
	}
	for i := range x.ents {
		if x.ents[i].k == k {
			if x.ents[i].del {
				return nil, badger.ErrKeyNotFound
			}
			it := &badger.Item{}
			kvVals[it] = x.ents[i].v
			kvKeys[it] = key
			return it, nil
		}
	}
	return nil, badger.ErrKeyNotFound
}

func kvModify(t *badger.Txn, w kvWrite) error {
	x := kvTxns[t]
	if !x.update {
		return badger.ErrReadOnlyTxn
	}
	if x.done {
		return badger.ErrDiscardedTxn
	}
	if len(w.k) == 0 {
		return badger.ErrEmptyKey
	}
	if err := fails("kv.set"); err != nil {
		return err
	}
	for i := range x.pending {
		if string(x.pending[i].k) == string(w.k) {
			x.pending[i] = w
			return nil
		}
	}
	x.pending = append(x.pending, w)
	return nil
}

//vsym:model (*github.com/dgraph-io/badger/v4.Txn).Set
func kvSet(t *badger.Txn, key, val []byte) error { return kvModify(t, kvWrite{k: key, v: val}) }

//vsym:model (*github.com/dgraph-io/badger/v4.Txn).Delete
func kvDelete(t *badger.Txn, key []byte) error { return kvModify(t, kvWrite{k: key, del: true}) }

//vsym:model github.com/dgraph-io/badger/v4.NewEntry
func kvNewEntry(key, val []byte) *badger.Entry { return &badger.Entry{Key: key, Value: val} }

//vsym:model (*github.com/dgraph-io/badger/v4.Txn).SetEntry
func kvSetEntry(t *badger.Txn, e *badger.Entry) error {
	return kvModify(t, kvWrite{k: e.Key, v: e.Value})
}

//vsym:model (*github.com/dgraph-io/badger/v4.Item).Value
func kvValue(it *badger.Item, f func([]byte) error) error {
	if err := fails("kv.value"); err != nil {
		return err
	}
	if f == nil {
		return nil
	}
	return f(kvVals[it])
}

//vsym:model (*github.com/dgraph-io/badger/v4.Item).ValueCopy
func kvValueCopy(it *badger.Item, dst []byte) ([]byte, error) {
	return append(dst[:0], kvVals[it]...), nil
}

//vsym:model (*github.com/dgraph-io/badger/v4.Item).Key
func kvKey(it *badger.Item) []byte { return kvKeys[it] }

// ---- sequences, as in the library ----

type kvSeq struct {
	mu           sync.Mutex
	db           *badger.DB
	key          []byte
	next, leased uint64
	bandwidth    uint64
}

var kvSeqs = map[*badger.Sequence]*kvSeq{}

//vsym:model (*github.com/dgraph-io/badger/v4.DB).GetSequence
func kvGetSequence(db *badger.DB, key []byte, bandwidth uint64) (*badger.Sequence, error) {
	if len(key) == 0 {
		return nil, badger.ErrEmptyKey
	}
	if bandwidth == 0 {
		return nil, badger.ErrZeroBandwidth
	}
	q := &badger.Sequence{}
	s := &kvSeq{db: db, key: key, bandwidth: bandwidth}
	kvSeqs[q] = s
	return q, s.lease()
}

func (s *kvSeq) lease() error {
	return kvUpdate(s.db, func(t *badger.Txn) error {
		it, err := kvGet(t, s.key)
		switch {
		case err == badger.ErrKeyNotFound:
			s.next = 0
		case err != nil:
			return err
		default:
			if err := kvValue(it, nil); err != nil {
				return err
			}
			s.next = binary.BigEndian.Uint64(kvVals[it])
		}
		l := s.next + s.bandwidth
		var buf [8]byte
		binary.BigEndian.PutUint64(buf[:], l)
		if err := kvSet(t, s.key, buf[:]); err != nil {
			return err
		}
		s.leased = l
		return nil
	})
}

//vsym:model (*github.com/dgraph-io/badger/v4.Sequence).Next
func kvSeqNext(q *badger.Sequence) (uint64, error) {
	s := kvSeqs[q]
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.next >= s.leased {
		if err := s.lease(); err != nil {
			return 0, err
		}
	}
	v := s.next
	s.next++
	return v, nil
}

//vsym:model (*github.com/dgraph-io/badger/v4.Sequence).Release
func kvSeqRelease(q *badger.Sequence) error {
	s := kvSeqs[q]
	s.mu.Lock()
	defer s.mu.Unlock()
	err := kvUpdate(s.db, func(t *badger.Txn) error {
		it, err := kvGet(t, s.key)
		if err != nil {
			return err
		}
		if err := kvValue(it, nil); err != nil {
			return err
		}
		if binary.BigEndian.Uint64(kvVals[it]) == s.leased {
			var buf [8]byte
			binary.BigEndian.PutUint64(buf[:], s.next)
			return kvSet(t, s.key, buf[:])
		}
		return nil
	})
	if err != nil {
		return err
	}
	s.leased = s.next
	return nil
}
