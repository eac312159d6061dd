package arena

import (
	"bytes"
	"io"
	"strings"

	"github.com/gernest/requiemdb/internal/compress"
	"github.com/gernest/requiemdb/internal/vsym"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	"google.golang.org/protobuf/proto"
)

// vPiece is what one step put into the arena, and what the arena gave back.
type vPiece struct {
	want, got []byte
	note      []byte
}

func vKV(l string, n int) *commonv1.KeyValue {
	k := vsym.Str(l, n)
	if vLong && vsym.Choose("long", 2) == 1 {
		k = strings.Repeat("x", 9000) + k
	}
	for i := 0; i < len(k); i++ {
		vsym.Assume(k[i] < 0x80)
	}
	return &commonv1.KeyValue{Key: k}
}

// vStep does one thing with the arena. w is the open writer, if any, and cur
// what was written to it.
func vStep(a *Arena, w io.Writer, cur []byte, n int) (io.Writer, []byte, *vPiece) {
	switch vsym.Choose("op", 5) {
	case 0: // begin a writer
		w = a.NewWriter()
		vsym.Assert(len(a.Bytes()) == 0, "a new arena writer is not empty")
		return w, nil, nil
	case 1:
		if w == nil {
			w, cur = a.NewWriter(), nil
		}
		p := vsym.Bytes("data", vsym.Choose("len", n))
		if vLong && vsym.Choose("long", 2) == 1 {
			p = append(bytes.Repeat([]byte{'x'}, 9000), p...)
		}
		m, err := w.Write(p)
		vsym.Assert(m == len(p) && err == nil, "an arena fails a write")
		for i := range p {
			cur = append(cur, p[i])
		}
		return w, cur, &vPiece{want: append([]byte{}, cur...), got: a.Bytes(), note: cur}
	case 4: // a message that cannot be encoded
		m := &commonv1.KeyValue{Key: "\xff"}
		if vsym.Bool("compress") {
			_, err := a.Compress(m)
			vsym.Assert(err != nil, "an arena compresses an invalid message")
		} else {
			_, err := a.Marshal(m)
			vsym.Assert(err != nil, "an arena marshals an invalid message")
		}
		return nil, nil, nil
	case 2:
		m := vKV("key", vsym.Choose("klen", n))
		b, err := a.Marshal(m)
		vsym.Assert(err == nil, "an arena fails to marshal")
		want, _ := proto.Marshal(m)
		return nil, nil, &vPiece{want: want, got: b, note: want}
	default:
		m := vKV("key", vsym.Choose("klen", n))
		b, err := a.Compress(m)
		vsym.Assert(err == nil, "an arena fails to compress")
		d, err := compress.Decompress(b)
		vsym.Assert(err == nil, "an arena compresses to garbage")
		want, _ := proto.Marshal(m)
		vsym.Assert(vsym.EqBytes(d, want), "an arena compresses something else")
		return nil, nil, &vPiece{want: append([]byte{}, b...), got: b, note: want}
	}
}

func vUse(a *Arena, steps, n int) {
	var w io.Writer
	var cur []byte
	var all []*vPiece
	for i := 0; i < steps; i++ {
		var p *vPiece
		w, cur, p = vStep(a, w, cur, n)
		if w != nil {
			vsym.Assert(vsym.EqBytes(a.Bytes(), cur), "an arena writer does not hold what was written to it")
		}
		if p != nil {
			all = append(all, p)
		}
		for _, x := range all {
			vsym.Assert(vsym.EqBytes(x.got, x.want), "bytes an arena gave out change before its release")
		}
	}
	for _, x := range all {
		vsym.Observe("bytes", x.note)
	}
}

// vLong: pieces may be long.
var vLong bool

// VsymArenaLong uses one arena for pieces of any length.
//
//vsym:harness C29 time=60 ttime=300
//vsym:bound 3 (thorough 4) steps like those of VsymArena with pieces of 0 or 1 bytes, any of them after nothing or 9000 more
func VsymArenaLong() {
	vLong = true
	a := New()
	vUse(a, vsym.Bound(3, 4), 2)
	a.Release()
	vLong = false
	vsym.Reach("done")
}

// VsymArena uses one arena.
//
//vsym:harness C29 time=100 ttime=600
//vsym:bound 3 (thorough 4) steps out of: begin a writer, write 0 to 3 bytes, marshal or compress a message with a key of 0 to 3 bytes, or one that cannot be encoded; any bytes
func VsymArena() {
	a := New()
	vsym.Assert(len(a.Bytes()) == 0, "a new arena is not empty")
	vUse(a, vsym.Bound(3, 4), 4)
	a.Release()
	vsym.Reach("done")
}

// VsymArenaReuse uses an arena after another one was released.
//
//vsym:harness C29 time=100 ttime=600
//vsym:bound 2 (thorough 3) steps in an arena taken from the pool after another one with 2 such steps was released, next to one in use
func VsymArenaReuse() {
	keep := New()
	k := vsym.Bytes("keep", 2)
	keep.NewWriter().Write(k)
	a := New()
	vUse(a, 2, 2)
	a.Release()
	b := New()
	vsym.Assert(b != keep, "the pool gives out an arena that is in use")
	vsym.Assert(len(b.Bytes()) == 0, "an arena from the pool is not empty")
	vUse(b, vsym.Bound(2, 3), 2)
	vsym.Assert(vsym.EqBytes(keep.Bytes(), k), "an arena changes through another one")
	b.Release()
	keep.Release()
	vsym.Reach("done")
}
