// Package varrow models the columnar library.
package varrow

import (
	"context"
	"errors"
	"fmt"
	"io"

	"github.com/apache/arrow/go/v17/arrow"
	"github.com/apache/arrow/go/v17/arrow/memory"
	"github.com/apache/arrow/go/v17/parquet"
	pschema "github.com/apache/arrow/go/v17/parquet/schema"
	"github.com/gernest/arrow3"
	"google.golang.org/protobuf/proto"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/vmodel"
)

// ---- arrow3: a record is a list of messages, a file an encoding of one ----

type a3Schema = arrow3.Schema[*v1.Data]

// a3Rows are the rows a schema has buffered.
var a3Rows = map[*a3Schema][]*v1.Data{}

type a3Record struct {
	arrow.Record
	rows []*v1.Data
	cols []int // all when nil
	refs int
}

func (r *a3Record) NumRows() int64 { return int64(len(r.rows)) }
func (r *a3Record) NumCols() int64 { return a3Cols }
func (r *a3Record) Retain()        { r.refs++ }
func (r *a3Record) Release()       { r.refs-- }

// live fails when the columns of r were already freed.
func (r *a3Record) live() {
	if r.refs <= 0 {
		panic("runtime error: index out of range [0] with length 0")
	}
}

// Each kind of payload has two of the columns.
const a3Cols = 6

var a3Paths = []string{"metrics.a", "metrics.b", "logs.a", "logs.b", "traces.a", "traces.b"}

// A3Fail, when set, decides whether an operation fails.
var A3Fail func(op string) bool

var errA3 = errors.New("arrow3: injected failure")

func a3Fails(op string) bool { return A3Fail != nil && A3Fail(op) }

//vsym:model github.com/gernest/arrow3.New
func a3New(mem memory.Allocator) (*a3Schema, error) { return &a3Schema{}, nil }

//vsym:model (*github.com/gernest/arrow3.Schema[T]).Append
func a3Append(s *a3Schema, v *v1.Data) {
	a3Rows[s] = append(a3Rows[s], proto.Clone(v).(*v1.Data))
}

//vsym:model (*github.com/gernest/arrow3.Schema[T]).NewRecord
func a3NewRecord(s *a3Schema) arrow.Record {
	r := &a3Record{rows: a3Rows[s], refs: 1}
	a3Rows[s] = nil
	return r
}

//vsym:model (*github.com/gernest/arrow3.Schema[T]).WriteParquet
func a3Write(s *a3Schema, w io.Writer) error {
	return a3WriteRecords(s, w, a3NewRecord(s))
}

//vsym:model (*github.com/gernest/arrow3.Schema[T]).WriteParquetRecords
func a3WriteRecords(s *a3Schema, w io.Writer, records ...arrow.Record) error {
	o := &a3Record{}
	if records[0].(*a3Record).refs <= 0 {
		// freed records have no columns, a file without columns is unreadable
		_, err := w.Write(vmodel.Blob("no columns"))
		return err
	}
	for _, r := range records {
		x := r.(*a3Record)
		x.live()
		if x.cols != nil {
			panic("vmodel: writing a record with some of the columns only")
		}
		o.rows = append(o.rows, x.rows...)
	}
	if a3Fails("write") {
		return errA3
	}
	_, err := w.Write(vmodel.Blob(o))
	return err
}

//vsym:model (*github.com/gernest/arrow3.Schema[T]).Read
func a3Read(s *a3Schema, ctx context.Context, r parquet.ReaderAtSeeker, columns []int) (arrow.Record, error) {
	n, err := r.Seek(0, io.SeekEnd)
	if err != nil {
		return nil, err
	}
	b := make([]byte, n)
	if _, err := r.ReadAt(b, 0); err != nil && err != io.EOF {
		return nil, err
	}
	if a3Fails("read") {
		return nil, errA3
	}
	v, ok := vmodel.Unblob(b)
	if !ok {
		return nil, errA3
	}
	x, ok := v.(*a3Record)
	if !ok {
		return nil, errA3
	}
	o := &a3Record{rows: x.rows, refs: 1}
	if columns != nil {
		o.cols = append([]int{}, columns...)
	}
	return o, nil
}

func (r *a3Record) has(kind int) bool {
	if r.cols == nil {
		return true
	}
	n := 0
	for c := 2 * kind; c < 2*kind+2; c++ {
		for _, x := range r.cols {
			if x == c {
				n++
				break
			}
		}
	}
	if n == 1 {
		panic("vmodel: reading some of the columns of a kind only")
	}
	return n == 2
}

//vsym:model (*github.com/gernest/arrow3.Schema[T]).Proto
func a3Proto(s *a3Schema, rec arrow.Record, rows []int) []*v1.Data {
	r := rec.(*a3Record)
	r.live()
	if rows == nil {
		for i := range r.rows {
			rows = append(rows, i)
		}
	}
	var o []*v1.Data
	for _, i := range rows {
		if i < 0 || i >= len(r.rows) {
			panic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, len(r.rows)))
		}
		d := proto.Clone(r.rows[i]).(*v1.Data)
		keep := false
		switch d.Data.(type) {
		case *v1.Data_Metrics:
			keep = r.has(0)
		case *v1.Data_Logs:
			keep = r.has(1)
		case *v1.Data_Traces:
			keep = r.has(2)
		}
		if !keep {
			d = &v1.Data{}
		}
		o = append(o, d)
	}
	return o
}

//vsym:model (*github.com/gernest/arrow3.Schema[T]).Release
func a3Release(s *a3Schema) { a3Rows[s] = nil }

//vsym:model (*github.com/gernest/arrow3.Schema[T]).Parquet
func a3Parquet(s *a3Schema) *pschema.Schema { return &pschema.Schema{} }

//vsym:model (*github.com/apache/arrow/go/v17/parquet/schema.Schema).NumColumns
func a3NumColumns(s *pschema.Schema) int { return a3Cols }

var a3ColPath = map[*pschema.Column]string{}

//vsym:model (*github.com/apache/arrow/go/v17/parquet/schema.Schema).Column
func a3Column(s *pschema.Schema, i int) *pschema.Column {
	c := &pschema.Column{}
	a3ColPath[c] = a3Paths[i]
	return c
}

//vsym:model (*github.com/apache/arrow/go/v17/parquet/schema.Column).Path
func a3Path(c *pschema.Column) string { return a3ColPath[c] }
