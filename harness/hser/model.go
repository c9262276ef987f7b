package hser

import (
	"errors"
	"io"
	"unsafe"

	"github.com/fxamacker/cbor/v2"
	"github.com/vmihailenco/msgpack/v5"
)

// ---- the reflection driven codecs: what they make of a Row ----

var errFormat = errors.New("codec: invalid data")

func row(v any) *Row {
	switch r := v.(type) {
	case *Row:
		return r
	case **Row:
		return *r
	}
	return nil
}

func encode(mark byte, v any) ([]byte, error) {
	r := row(v)
	if r == nil {
		return nil, errFormat
	}
	b, err := r.MarshalVT()
	if err != nil {
		return nil, err
	}
	return append([]byte{mark, byte(len(b))}, b...), nil
}

func decode(mark byte, b []byte, v any) error {
	if len(b) < 2 || b[0] != mark || len(b) < 2+int(b[1]) {
		return errFormat
	}
	if p, ok := v.(**Row); ok && *p == nil {
		*p = &Row{}
	}
	r := row(v)
	if r == nil {
		return errFormat
	}
	return r.UnmarshalVT(b[2 : 2+int(b[1])])
}

func all(mark byte, b []byte, v any) error {
	if err := decode(mark, b, v); err != nil {
		return err
	}
	if len(b) != 2+int(b[1]) {
		return errFormat
	}
	return nil
}

//verif:redirect encoding/json.Marshal
func jsonMarshal(v any) ([]byte, error) { return encode('{', v) }

//verif:redirect encoding/json.Unmarshal
func jsonUnmarshal(b []byte, v any) error { return all('{', b, v) }

//verif:redirect github.com/fxamacker/cbor/v2.Marshal
func cborMarshal(v any) ([]byte, error) { return encode(0x82, v) }

//verif:redirect github.com/fxamacker/cbor/v2.Unmarshal
func cborUnmarshal(b []byte, v any) error { return all(0x82, b, v) }

//verif:redirect (*github.com/fxamacker/cbor/v2.encMode).Marshal
func modeMarshal(_ unsafe.Pointer, v any) ([]byte, error) { return encode(0x82, v) }

//verif:redirect (*github.com/fxamacker/cbor/v2.decMode).Unmarshal
func modeUnmarshal(_ unsafe.Pointer, b []byte, v any) error { return all(0x82, b, v) }

type stream struct{ w io.Writer }

//verif:redirect github.com/fxamacker/cbor/v2.NewEncoder
func cborEncoder(w io.Writer) *cbor.Encoder {
	return (*cbor.Encoder)(unsafe.Pointer(&stream{w}))
}

//verif:redirect (*github.com/fxamacker/cbor/v2.encMode).NewEncoder
func modeEncoder(_ unsafe.Pointer, w io.Writer) *cbor.Encoder {
	return (*cbor.Encoder)(unsafe.Pointer(&stream{w}))
}

//verif:redirect (*github.com/fxamacker/cbor/v2.Encoder).Encode
func cborEncode(e *cbor.Encoder, v any) error {
	b, err := encode(0x82, v)
	if err == nil {
		_, err = (*stream)(unsafe.Pointer(e)).w.Write(b)
	}
	return err
}

//verif:redirect github.com/vmihailenco/msgpack/v5.Marshal
func msgpackMarshal(v any) ([]byte, error) { return encode(0x92, v) }

//verif:redirect github.com/vmihailenco/msgpack/v5.Unmarshal
func msgpackUnmarshal(b []byte, v any) error { return decode(0x92, b, v) }

//verif:redirect github.com/vmihailenco/msgpack/v5.NewEncoder
func msgpackEncoder(w io.Writer) *msgpack.Encoder {
	return (*msgpack.Encoder)(unsafe.Pointer(&stream{w}))
}

//verif:redirect (*github.com/vmihailenco/msgpack/v5.Encoder).Reset
func msgpackReset(e *msgpack.Encoder, w io.Writer) { (*stream)(unsafe.Pointer(e)).w = w }

//verif:redirect (*github.com/vmihailenco/msgpack/v5.Encoder).Encode
func msgpackEncode(e *msgpack.Encoder, v any) error {
	w := (*stream)(unsafe.Pointer(e)).w
	b, err := encode(0x92, v)
	if err != nil {
		w.Write([]byte{0x92}) // fields are written one by one
		return err
	}
	_, err = w.Write(b)
	return err
}
