// Package hbloom holds the harnesses of the bloom filter.
package hbloom

import (
	"encoding/binary"
	"errors"
	"hash"
	"io"
	"unsafe"

	"github.com/bits-and-blooms/bitset"
	"github.com/bits-and-blooms/bloom/v3"
	"github.com/go-bond/bond/zzverif/nd"
	"github.com/klauspost/compress/zstd"
	"github.com/lithammer/go-jump-consistent-hash"
)

// The hash functions are arbitrary functions of their bytes.
func init() {
	bloom.ZZHash = func(data []byte) [4]uint64 {
		return [4]uint64{nd.UF64("h0", data), nd.UF64("h1", data), nd.UF64("h2", data), nd.UF64("h3", data)}
	}
	jump.ZZJump = func(key uint64, buckets int32) int32 {
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], key)
		return int32(nd.UF64("jump", b[:]) % uint64(buckets))
	}
	jump.ZZCRC = func() hash.Hash32 { return &crc{} }
	bitset.ZZPoint = nd.P
}

type crc struct{ b []byte }

func (c *crc) Write(p []byte) (int, error) {
	c.b = append(c.b, p...)
	return len(p), nil
}
func (c *crc) Sum(b []byte) []byte { return binary.BigEndian.AppendUint32(b, c.Sum32()) }
func (c *crc) Reset()              { c.b = nil }
func (c *crc) Size() int           { return 4 }
func (c *crc) BlockSize() int      { return 1 }
func (c *crc) Sum32() uint32       { return uint32(nd.UF64("crc", c.b)) }

// ---- compression: a frame is a marker, the data and an end marker ----

type zenc struct {
	w      io.Writer
	b      []byte
	closed bool
}

//verif:redirect github.com/klauspost/compress/zstd.NewWriter
func NewWriter(w io.Writer, _ ...zstd.EOption) (*zstd.Encoder, error) {
	return (*zstd.Encoder)(unsafe.Pointer(&zenc{w: w})), nil
}

//verif:redirect (*github.com/klauspost/compress/zstd.Encoder).Write
func EncWrite(p *zstd.Encoder, b []byte) (int, error) {
	e := (*zenc)(unsafe.Pointer(p))
	e.b = append(e.b, b...)
	return len(b), nil
}

//verif:redirect (*github.com/klauspost/compress/zstd.Encoder).Flush
func EncFlush(p *zstd.Encoder) error { return nil }

//verif:redirect (*github.com/klauspost/compress/zstd.Encoder).Close
func EncClose(p *zstd.Encoder) error {
	e := (*zenc)(unsafe.Pointer(p))
	if e.closed {
		return nil
	}
	e.closed = true
	_, err := e.w.Write(append(append([]byte{0x28, 0xB5}, e.b...), 0xFD))
	return err
}

//verif:redirect (*github.com/klauspost/compress/zstd.Encoder).Reset
func EncReset(p *zstd.Encoder, w io.Writer) { *(*zenc)(unsafe.Pointer(p)) = zenc{w: w} }

//verif:redirect (*github.com/klauspost/compress/zstd.Encoder).EncodeAll
func EncodeAll(p *zstd.Encoder, src, dst []byte) []byte {
	return append(append(append(dst, 0x28, 0xB5), src...), 0xFD)
}

type zdec struct {
	r   io.Reader
	b   []byte
	got bool
	err error
}

//verif:redirect github.com/klauspost/compress/zstd.NewReader
func NewReader(r io.Reader, _ ...zstd.DOption) (*zstd.Decoder, error) {
	return (*zstd.Decoder)(unsafe.Pointer(&zdec{r: r})), nil
}

func unframe(b []byte) ([]byte, error) {
	if len(b) == 0 {
		return nil, nil
	}
	if len(b) < 3 || b[0] != 0x28 || b[1] != 0xB5 {
		return nil, errors.New("zstd: invalid magic")
	}
	if b[len(b)-1] != 0xFD {
		return nil, io.ErrUnexpectedEOF
	}
	return b[2 : len(b)-1], nil
}

//verif:redirect (*github.com/klauspost/compress/zstd.Decoder).Read
func DecRead(p *zstd.Decoder, b []byte) (int, error) {
	d := (*zdec)(unsafe.Pointer(p))
	if !d.got {
		d.got = true
		all, err := io.ReadAll(d.r)
		if err == nil {
			all, err = unframe(all)
		}
		d.b, d.err = all, err
	}
	if d.err != nil {
		return 0, d.err
	}
	if len(d.b) == 0 {
		return 0, io.EOF
	}
	n := copy(b, d.b)
	d.b = d.b[n:]
	return n, nil
}

//verif:redirect (*github.com/klauspost/compress/zstd.Decoder).Close
func DecClose(p *zstd.Decoder) {}

//verif:redirect (*github.com/klauspost/compress/zstd.Decoder).Reset
func DecReset(p *zstd.Decoder, r io.Reader) error {
	*(*zdec)(unsafe.Pointer(p)) = zdec{r: r}
	return nil
}

//verif:redirect (*github.com/klauspost/compress/zstd.Decoder).DecodeAll
func DecodeAll(p *zstd.Decoder, src, dst []byte) ([]byte, error) {
	b, err := unframe(src)
	return append(dst, b...), err
}
