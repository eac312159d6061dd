package vmodel

import (
	"errors"
	"io"

	"github.com/klauspost/compress/zstd"
)

// ---- zstd: frames of magic, length, content and a check byte ----
//
// As in the library, an empty stream encodes to nothing, an encoder writes its
// frame when closed, a decoder reads concatenated frames until its input ends,
// and Reset(nil) leaves either of them without input or output.

// ZstdLateEOF: the end of stream is reported by a read of its own.
var ZstdLateEOF bool

type zEnc struct {
	w    io.Writer
	buf  []byte
	done bool
	err  error
}

type zDec struct {
	r      io.Reader
	out    []byte
	err    error
	loaded bool
	closed bool
}

var zEncs = map[*zstd.Encoder]*zEnc{}
var zDecs = map[*zstd.Decoder]*zDec{}

var errZ = errors.New("zstd: invalid input")

func zCheck(b []byte) byte {
	c := byte(len(b))
	for _, x := range b {
		c ^= x
	}
	return c
}

func zFrame(dst, b []byte) []byte {
	n := len(b)
	dst = append(dst, 0x28, 0xb5, 0x2f, 0xfd, byte(n>>16), byte(n>>8), byte(n))
	dst = append(dst, b...)
	return append(dst, zCheck(b))
}

func zParse(in []byte) (out []byte, err error) {
	for len(in) > 0 {
		if len(in) < 7 {
			return out, io.ErrUnexpectedEOF
		}
		if in[0] != 0x28 || in[1] != 0xb5 || in[2] != 0x2f || in[3] != 0xfd {
			return out, zstd.ErrMagicMismatch
		}
		n := int(in[4])<<16 | int(in[5])<<8 | int(in[6])
		if len(in) < n+8 {
			return out, io.ErrUnexpectedEOF
		}
		b := in[7 : 7+n]
		if zCheck(b) != in[7+n] {
			return out, errZ
		}
		out = append(out, b...)
		in = in[n+8:]
	}
	return out, nil
}

//vsym:model github.com/klauspost/compress/zstd.NewWriter
func zNewWriter(w io.Writer, opts ...zstd.EOption) (*zstd.Encoder, error) {
	e := &zstd.Encoder{}
	zEncs[e] = &zEnc{w: w, done: w == nil}
	return e, nil
}

//vsym:model (*github.com/klauspost/compress/zstd.Encoder).Reset
func zReset(e *zstd.Encoder, w io.Writer) { *zEncs[e] = zEnc{w: w} }

//vsym:model (*github.com/klauspost/compress/zstd.Encoder).Write
func zWrite(e *zstd.Encoder, p []byte) (int, error) {
	x := zEncs[e]
	x.buf = append(x.buf, p...)
	return len(p), nil
}

//vsym:model (*github.com/klauspost/compress/zstd.Encoder).ReadFrom
func zReadFrom(e *zstd.Encoder, r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	x := zEncs[e]
	x.buf = append(x.buf, b...)
	return int64(len(b)), err
}

//vsym:model (*github.com/klauspost/compress/zstd.Encoder).Flush
func zFlush(e *zstd.Encoder) error {
	x := zEncs[e]
	if len(x.buf) == 0 || x.err != nil {
		return x.err
	}
	_, x.err = x.w.Write(zFrame(nil, x.buf))
	x.buf = nil
	return x.err
}

//vsym:model (*github.com/klauspost/compress/zstd.Encoder).Close
func zClose(e *zstd.Encoder) error {
	x := zEncs[e]
	if x.done {
		return x.err
	}
	x.done = true
	return zFlush(e)
}

//vsym:model (*github.com/klauspost/compress/zstd.Encoder).EncodeAll
func zEncodeAll(e *zstd.Encoder, src, dst []byte) []byte {
	if len(src) == 0 {
		return dst
	}
	return zFrame(dst, src)
}

//vsym:model github.com/klauspost/compress/zstd.NewReader
func zNewReader(r io.Reader, opts ...zstd.DOption) (*zstd.Decoder, error) {
	d := &zstd.Decoder{}
	zDecs[d] = &zDec{}
	return d, zDReset(d, r)
}

//vsym:model (*github.com/klauspost/compress/zstd.Decoder).Reset
func zDReset(d *zstd.Decoder, r io.Reader) error {
	x := zDecs[d]
	if x.closed {
		return zstd.ErrDecoderClosed
	}
	*x = zDec{r: r}
	if r == nil {
		x.loaded, x.err = true, zstd.ErrDecoderNilInput
	}
	return nil
}

func (x *zDec) load() {
	if x.loaded {
		return
	}
	x.loaded = true
	b, err := io.ReadAll(x.r)
	x.out, x.err = zParse(b)
	if x.err == nil {
		x.err = err
	}
	if x.err == nil {
		x.err = io.EOF
	}
}

//vsym:model (*github.com/klauspost/compress/zstd.Decoder).Read
func zRead(d *zstd.Decoder, p []byte) (int, error) {
	x := zDecs[d]
	x.load()
	n := copy(p, x.out)
	x.out = x.out[n:]
	if len(x.out) > 0 || (n > 0 && ZstdLateEOF) || (len(p) == 0 && x.err == io.EOF) {
		return n, nil
	}
	return n, x.err
}

//vsym:model (*github.com/klauspost/compress/zstd.Decoder).WriteTo
func zWriteTo(d *zstd.Decoder, w io.Writer) (int64, error) {
	x := zDecs[d]
	x.load()
	var n int64
	if len(x.out) > 0 {
		m, err := w.Write(x.out)
		n = int64(m)
		x.out = nil
		if err != nil && x.err == io.EOF {
			x.err = err
		}
	}
	if x.err == io.EOF {
		return n, nil
	}
	return n, x.err
}

//vsym:model (*github.com/klauspost/compress/zstd.Decoder).Close
func zDClose(d *zstd.Decoder) {
	x := zDecs[d]
	x.closed, x.loaded, x.err = true, true, zstd.ErrDecoderClosed
}

//vsym:model (*github.com/klauspost/compress/zstd.Decoder).DecodeAll
func zDecodeAll(d *zstd.Decoder, in, dst []byte) ([]byte, error) {
	b, err := zParse(in)
	return append(dst, b...), err
}
