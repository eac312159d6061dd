package vmodel

import (
	"sync"

	"github.com/gernest/rbf"
	rcfg "github.com/gernest/rbf/cfg"
	"github.com/gernest/roaring"

	"github.com/gernest/requiemdb/internal/vsym"
)

// ---- rbf: named bitmaps per directory, with transactions ----

// rbfDisk is the durable content of one directory.
type rbfDisk struct {
	bm    map[string]*Set
	names []string
}

var rbfDisks = map[string]*rbfDisk{}

// rbfDB is a handle: it has its own view of the pages, so that two handles on
// one directory overwrite each other.
type rbfDB struct {
	disk   *rbfDisk
	bm     map[string]*Set
	names  []string
	opened bool
	rw     sync.Mutex
}

var rbfDBs = map[*rbf.DB]*rbfDB{}

type rbfTx struct {
	db       *rbfDB
	writable bool
	done     bool
	bm       map[string]*Set
	names    []string
}

var rbfTxs = map[*rbf.Tx]*rbfTx{}

func RbfDisk(path string) *rbfDisk {
	d := rbfDisks[path]
	if d == nil {
		d = &rbfDisk{bm: map[string]*Set{}}
		rbfDisks[path] = d
	}
	return d
}

//vsym:model github.com/gernest/rbf.NewDB
func rbfNewDB(path string, cfg *rcfg.Config) *rbf.DB {
	d := &rbf.DB{Path: path}
	rbfDBs[d] = &rbfDB{}
	return d
}

//vsym:model (*github.com/gernest/rbf.DB).Open
func rbfOpen(d *rbf.DB) error {
	vsym.Yield()
	if err := fails("index.open"); err != nil {
		return err
	}
	fsMkdir(d.Path)
	m := rbfDBs[d]
	m.disk = RbfDisk(d.Path)
	m.bm, m.names = m.disk.bm, m.disk.names
	m.opened = true
	return nil
}

//vsym:model (*github.com/gernest/rbf.DB).Close
func rbfClose(d *rbf.DB) error {
	rbfDBs[d].opened = false
	return nil
}

//vsym:model (*github.com/gernest/rbf.DB).Begin
func rbfBegin(d *rbf.DB, writable bool) (*rbf.Tx, error) {
	vsym.Yield()
	m := rbfDBs[d]
	if !m.opened {
		return nil, rbf.ErrClosed
	}
	if err := fails("index.begin"); err != nil {
		return nil, err
	}
	if writable {
		m.rw.Lock()
	}
	t := &rbf.Tx{}
	x := &rbfTx{db: m, writable: writable, bm: map[string]*Set{}}
	x.names = append(x.names, m.names...)
	for _, n := range x.names {
		x.bm[n] = m.bm[n]
	}
	rbfTxs[t] = x
	return t, nil
}

//vsym:model (*github.com/gernest/rbf.Tx).Rollback
func rbfRollback(t *rbf.Tx) {
	x := rbfTxs[t]
	if x.done {
		return
	}
	x.done = true
	if x.writable {
		x.db.rw.Unlock()
	}
}

//vsym:model (*github.com/gernest/rbf.Tx).Commit
func rbfCommit(t *rbf.Tx) error {
	vsym.Yield()
	x := rbfTxs[t]
	if x.done {
		return rbf.ErrTxClosed
	}
	if err := fails("index.commit"); err != nil {
		return err
	}
	x.done = true
	if x.writable {
		x.db.bm, x.db.names = x.bm, x.names
		x.db.disk.bm, x.db.disk.names = x.bm, x.names
		x.db.rw.Unlock()
	}
	return nil
}

func (x *rbfTx) get(name string) *Set {
	if x.done {
		panic("rbf: use of a closed transaction")
	}
	return x.bm[name]
}

//vsym:model (*github.com/gernest/rbf.Tx).AddRoaring
func rbfAddRoaring(t *rbf.Tx, name string, b *roaring.Bitmap) (bool, error) {
	x := rbfTxs[t]
	if x.done {
		return false, rbf.ErrTxClosed
	}
	if !x.writable {
		return false, rbf.ErrTxNotWritable
	}
	if name == "" {
		return false, rbf.ErrBitmapNameRequired
	}
	if err := fails("index.add"); err != nil {
		return false, err
	}
	s := x.bm[name]
	if s == nil {
		s = &Set{}
		x.names = append(x.names, name)
	}
	s = s.Clone()
	s.OrWith(RS(b))
	x.bm[name] = s
	return true, nil
}

//vsym:model (*github.com/gernest/rbf.Tx).Add
func rbfAdd(t *rbf.Tx, name string, a ...uint64) (int, error) {
	_, err := rbfAddRoaring(t, name, newR(a...))
	return len(a), err
}

//vsym:model (*github.com/gernest/rbf.Tx).ApplyFilter
func rbfApplyFilter(t *rbf.Tx, name string, key uint64, f roaring.BitmapFilter) error {
	if err := fails("index.filter"); err != nil {
		return err
	}
	s := rbfTxs[t].get(name)
	if s == nil {
		return nil
	}
	r, ok := f.(*rowFilter)
	if !ok || key != 0 {
		panic("vmodel: only row filters from key 0 are modelled")
	}
	return r.apply(s)
}

//vsym:model (*github.com/gernest/rbf.Tx).OffsetRange
func rbfOffsetRange(t *rbf.Tx, name string, offset, start, end uint64) (*roaring.Bitmap, error) {
	if err := fails("index.range"); err != nil {
		return nil, err
	}
	s := rbfTxs[t].get(name)
	if s == nil {
		s = &Set{}
	}
	return fromR(offsetRange(s, offset, start, end)), nil
}

//vsym:model (*github.com/gernest/rbf.Tx).RoaringBitmap
func rbfRoaringBitmap(t *rbf.Tx, name string) (*roaring.Bitmap, error) {
	s := rbfTxs[t].get(name)
	if s == nil {
		return nil, rbf.ErrBitmapNotFound
	}
	return fromR(s.Clone()), nil
}

//vsym:model (*github.com/gernest/rbf.Tx).Contains
func rbfContains(t *rbf.Tx, name string, v uint64) (bool, error) {
	s := rbfTxs[t].get(name)
	if s == nil {
		return false, nil
	}
	return s.Has(v), nil
}

//vsym:model (*github.com/gernest/rbf.Tx).BitmapNames
func rbfBitmapNames(t *rbf.Tx) ([]string, error) {
	var l []string
	for _, n := range rbfTxs[t].names {
		l = append(l, n)
	}
	return l, nil
}
