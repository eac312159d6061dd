package compress

import (
	"bytes"
	"errors"
	"io"

	"github.com/gernest/requiemdb/internal/vmodel"
	"github.com/gernest/requiemdb/internal/vsym"
)

var errV = errors.New("write failed")

// vSink fails every write.
type vSink struct{}

func (vSink) Write(p []byte) (int, error) { return 0, errV }

// vSlow gives one byte per read.
type vSlow struct{ b []byte }

func (s *vSlow) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	p[0] = s.b[0]
	s.b = s.b[1:]
	return 1, nil
}

func vEncode(how int, data []byte) []byte {
	var b bytes.Buffer
	switch how {
	case 0:
		o, err := Compress(data)
		vsym.Assert(err == nil, "compressing fails")
		return o
	case 1:
		vsym.Assert(To(&b, data) == nil, "compressing to a writer fails")
	default:
		w, err := codec{}.Compress(&b)
		vsym.Assert(err == nil, "the codec refuses a writer")
		h := len(data) / 2
		for _, p := range [][]byte{data[:h], data[h:]} {
			n, err := w.Write(p)
			vsym.Assert(err == nil && n == len(p), "the codec fails a write")
		}
		vsym.Assert(w.Close() == nil, "the codec fails to close")
	}
	return b.Bytes()
}

func vDecode(how int, data []byte) ([]byte, error) {
	switch how {
	case 0:
		return Decompress(data)
	case 1:
		r, err := codec{}.Decompress(&vSlow{b: data})
		if err != nil {
			return nil, err
		}
		return io.ReadAll(r)
	}
	r, err := codec{}.Decompress(bytes.NewReader(data))
	if err != nil {
		return nil, err
	}
	var o []byte
	p := make([]byte, how-1)
	for i := 0; i < 64; i++ {
		n, err := r.Read(p)
		o = append(o, p[:n]...)
		if err == io.EOF {
			return o, nil
		}
		if err != nil {
			return o, err
		}
	}
	return o, errors.New("no end of stream")
}

// vDisturb leaves pooled coders in some state.
func vDisturb(l string) {
	switch vsym.Choose(l, 8) {
	case 1:
		vsym.Assert(To(vSink{}, []byte("lost")) != nil, "a failed write is reported as success")
	case 2:
		w, _ := codec{}.Compress(vSink{})
		w.Write([]byte("lost"))
		vsym.Assert(w.Close() != nil, "a failed write is reported as success")
	case 3:
		_, err := Decompress([]byte("not compressed"))
		vsym.Assert(err != nil, "garbage decompresses")
	case 4:
		o, _ := Compress([]byte("some text"))
		_, err := vDecode(vsym.Choose(l+".how", 3), o[:len(o)-1])
		vsym.Assert(err != nil, "a truncated stream decompresses")
	case 5:
		// given up half way
		o, _ := Compress([]byte("some text"))
		r, err := codec{}.Decompress(bytes.NewReader(o))
		if err == nil {
			r.Read(make([]byte, 2))
		}
	case 6:
		o, _ := Compress([]byte("some text"))
		d, err := Decompress(o)
		vsym.Assert(err == nil && string(d) == "some text", "text does not survive compression")
	case 7:
		o := vEncode(2, []byte("some text"))
		d, err := vDecode(4, o)
		vsym.Assert(err == nil && string(d) == "some text", "text does not survive compression")
	}
}

// VsymRoundTrip compresses and decompresses after other uses of the coders.
//
//vsym:harness C30 time=120 ttime=500
//vsym:bound any 0 to 3 (thorough 6) bytes; each of three ways to compress and five to decompress, after one (thorough two) of 8 earlier uses of the pooled coders
//vsym:assume zstd itself encodes and decodes faithfully
func VsymRoundTrip() {
	vmodel.ZstdLateEOF = vsym.Bool("late")
	for i := 0; i < vsym.Bound(1, 2); i++ {
		vDisturb("use")
	}
	data := vsym.Bytes("data", vsym.Choose("len", vsym.Bound(4, 7)))
	enc := vEncode(vsym.Choose("enc", 3), data)
	keep := append([]byte{}, enc...)
	vDisturb("between")
	vsym.Assert(vsym.EqBytes(enc, keep), "compressed bytes change later")
	dec, err := vDecode(vsym.Choose("dec", 5), enc)
	vsym.Assert(err == nil, "compressed bytes do not decompress")
	vsym.Assert(vsym.EqBytes(dec, data), "bytes do not survive compression")
	again := append([]byte{}, dec...)
	vDisturb("after")
	vsym.Assert(vsym.EqBytes(dec, again), "decompressed bytes change later")
	vsym.Observe("dec", dec)
	vsym.Reach("done")
}

// VsymLong compresses and decompresses long data.
//
//vsym:harness C30 time=60 ttime=200 steps=40000000
//vsym:bound 0 or 1 (thorough: up to 3) bytes after 4096 or 70000 others; each of three ways to compress and two to decompress, after one of 8 earlier uses of the pooled coders
//vsym:assume zstd itself encodes and decodes faithfully
func VsymLong() {
	vmodel.ZstdLateEOF = vsym.Bool("late")
	n := []int{4096, 70000}[vsym.Choose("long", 2)]
	tail := vsym.Bytes("data", vsym.Choose("len", vsym.Bound(2, 4)))
	data := append(bytes.Repeat([]byte{'x'}, n), tail...)
	vDisturb("use")
	enc := vEncode(vsym.Choose("enc", 3), data)
	dec, err := vDecode([]int{0, 32 << 10}[vsym.Choose("dec", 2)], enc)
	vsym.Assert(err == nil, "compressed bytes do not decompress")
	vsym.Assert(vsym.EqBytes(dec, data), "bytes do not survive compression")
	vsym.Observe("len", len(dec))
	vsym.Reach("done")
}

// VsymPastEnd keeps reading after the end.
//
//vsym:harness C30 time=60 ttime=200
//vsym:bound 0 to 3 bytes, reads of 1 to 4 bytes, two reads after the end or after an error; WriteTo as well
//vsym:assume zstd itself encodes and decodes faithfully
func VsymPastEnd() {
	vmodel.ZstdLateEOF = vsym.Bool("late")
	data := vsym.Bytes("data", vsym.Choose("len", 4))
	enc := vEncode(0, data)
	cut := len(data) > 0 && vsym.Bool("cut")
	if cut {
		enc = enc[:len(enc)-1]
	}
	r, err := codec{}.Decompress(bytes.NewReader(enc))
	vsym.Assert(err == nil, "the codec refuses a reader")
	var end error
	if w, ok := r.(io.WriterTo); ok && vsym.Bool("writeto") {
		var b bytes.Buffer
		_, end = w.WriteTo(&b)
		vsym.Assert((end != nil) == cut, "a truncated stream decompresses")
		if !cut {
			vsym.Assert(vsym.EqBytes(b.Bytes(), data), "bytes do not survive compression")
			end = io.EOF
		}
	} else {
		p := make([]byte, 1+vsym.Choose("size", 4))
		for i := 0; i < 16 && end == nil; i++ {
			_, end = r.Read(p)
		}
		vsym.Assert((end == io.EOF) == !cut, "a stream ends wrongly")
	}
	for i := 0; i < 2; i++ {
		n, err := r.Read(make([]byte, 2))
		vsym.Assert(n == 0 && err != nil, "a read past the end returns data")
		if !cut {
			vsym.Assert(err == io.EOF, "a read past the end does not report it")
		}
	}
	vsym.Reach("done")
}
