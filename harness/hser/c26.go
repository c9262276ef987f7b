// Package hser holds the harnesses of the bundled serializers.
package hser

import (
	"bytes"
	"context"
	"encoding/hex"
	"errors"

	"github.com/fxamacker/cbor/v2"
	"github.com/go-bond/bond"
	"github.com/go-bond/bond/serializers"
	"github.com/go-bond/bond/utils"
	"github.com/go-bond/bond/zzverif/h"
	"github.com/go-bond/bond/zzverif/nd"
	"github.com/tinylib/msgp/msgp"
	"github.com/vmihailenco/msgpack/v5"
)

func init() {
	h.Registry["C26Seq"] = C26Seq
	h.Registry["C26Table"] = C26Table
	h.Registry["C26Race"] = C26Race
}

var errBad = errors.New("a value that cannot be encoded")

// Row encodes itself in each of the formats; a bad row fails after its first
// field.
type Row struct {
	A   uint8
	S   string
	bad bool
}

func (r *Row) EncodeMsg(w *msgp.Writer) error {
	if err := w.WriteUint8(r.A); err != nil {
		return err
	}
	if r.bad {
		return errBad
	}
	return w.WriteString(r.S)
}

func (r *Row) DecodeMsg(d *msgp.Reader) (err error) {
	if r.A, err = d.ReadUint8(); err != nil {
		return err
	}
	r.S, err = d.ReadString()
	return err
}

func (r *Row) EncodeMsgpack(e *msgpack.Encoder) error {
	if err := e.EncodeUint8(r.A); err != nil {
		return err
	}
	if r.bad {
		return errBad
	}
	return e.EncodeString(r.S)
}

func (r *Row) DecodeMsgpack(d *msgpack.Decoder) (err error) {
	if r.A, err = d.DecodeUint8(); err != nil {
		return err
	}
	r.S, err = d.DecodeString()
	return err
}

func (r *Row) MarshalVT() ([]byte, error) {
	if r.bad {
		return nil, errBad
	}
	if r.A == 0 && len(r.S) == 0 {
		return nil, nil // as protobuf does
	}
	return append([]byte{r.A}, r.S...), nil
}

func (r *Row) UnmarshalVT(b []byte) error {
	if len(b) == 0 {
		r.A, r.S = 0, ""
		return nil
	}
	r.A, r.S = b[0], string(b[1:])
	return nil
}

func (r *Row) MarshalCBOR() ([]byte, error) {
	b, err := r.MarshalVT()
	if err != nil {
		return nil, err
	}
	return append([]byte{0x40 | byte(len(b))}, b...), nil
}

func (r *Row) UnmarshalCBOR(b []byte) error {
	if len(b) < 1 || b[0] != 0x40|byte(len(b)-1) {
		return errBad
	}
	return r.UnmarshalVT(b[1:])
}

func (r *Row) MarshalJSON() ([]byte, error) {
	b, err := r.MarshalVT()
	return []byte(`"` + hex.EncodeToString(b) + `"`), err
}

func (r *Row) UnmarshalJSON(b []byte) error {
	if len(b) < 2 {
		return errBad
	}
	d, err := hex.DecodeString(string(b[1 : len(b)-1]))
	if err != nil {
		return err
	}
	return r.UnmarshalVT(d)
}

// Old is a message of the standard protobuf interface.
type Old struct{ Row }

func (o *Old) Reset()         {}
func (o *Old) String() string { return "" }
func (o *Old) ProtoMessage()  {}
func (o *Old) MarshalVT()     {}
func (o *Old) UnmarshalVT()   {}

type codec struct{}

func (codec) Marshal(m serializers.ProtobufMessageV1) ([]byte, error) {
	return m.(*Old).Row.MarshalVT()
}
func (codec) Unmarshal(b []byte, m serializers.ProtobufMessageV1) error {
	return m.(*Old).Row.UnmarshalVT(b)
}

type pool[T any] struct {
	items []T
	make  func() T
}

func (p *pool[T]) Get() T {
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	return p.make()
}

func (p *pool[T]) Put(x T) { p.items = append(p.items, x) }

func buffers() utils.SyncPool[bytes.Buffer] {
	return &pool[bytes.Buffer]{make: func() bytes.Buffer { return bytes.Buffer{} }}
}

func encoders() utils.SyncPool[*msgpack.Encoder] {
	return &pool[*msgpack.Encoder]{make: func() *msgpack.Encoder { return msgpack.NewEncoder(nil) }}
}

func serializer(kind int) bond.Serializer[any] {
	switch kind {
	case 0, 1:
		return &serializers.ProtobufSerializer{Encoder: codec{}, Decoder: codec{}}
	case 2:
		return &serializers.MsgpackGenSerializer{}
	case 3:
		return &serializers.MsgpackGenSerializer{Buffer: buffers()}
	case 4:
		return &serializers.MsgpackSerializer{}
	case 5:
		return &serializers.MsgpackSerializer{Encoder: encoders()}
	case 6:
		return &serializers.MsgpackSerializer{Encoder: encoders(), Buffer: buffers()}
	case 7:
		return &serializers.CBORSerializer{}
	case 8:
		enc, err := cbor.CanonicalEncOptions().EncMode()
		nd.Assert(err == nil, "mode")
		dec, err := cbor.DecOptions{}.DecMode()
		nd.Assert(err == nil, "mode")
		return &serializers.CBORSerializer{EncMode: enc, DecMode: dec}
	}
	return &serializers.JsonSerializer{}
}

// C26Seq: m values, one after the other; how is 0 Serialize, 1
// SerializerWithCloseable, 2 SerializeFuncWithBuffer. ptr stores pointers.
func C26Seq(kind, how, m, ptr int) {
	s := serializer(kind)
	var bb bytes.Buffer
	bb.WriteString("old")
	var fn func(any) ([]byte, error)
	if how == 2 {
		fn = s.(bond.SerializerWithBuffer[any]).SerializeFuncWithBuffer(&bb)
	}
	type stored struct {
		row  Row
		b, c []byte
	}
	var keep []stored
	check := func(x stored) {
		used := Row{A: 7, S: "used"}
		r := used
		var err error
		switch {
		case kind == 1:
			o := Old{used}
			err = s.Deserialize(x.b, &o)
			r = o.Row
		case ptr == 1:
			p := &used
			err = s.Deserialize(x.b, &p)
			nd.Assert(err == nil && p != nil, "the value is read back")
			r = *p
		default:
			err = s.Deserialize(x.b, &r)
		}
		nd.Assert(err == nil, "the value is read back")
		nd.Assert(nd.And(r.A == x.row.A, r.S == x.row.S), "the value that was stored is read back")
	}
	for i := 0; i < m; i++ {
		r := Row{A: nd.U8(), S: nd.Str(nd.Choose(3)), bad: nd.Choose(3) == 0}
		var in any = &r
		p := &r
		if ptr == 1 {
			in = &p
		}
		if kind == 1 {
			in = &Old{r}
		}
		var b []byte
		var err error
		done := func() {}
		switch how {
		case 0:
			b, err = s.Serialize(in)
		case 1:
			b, done, err = s.(bond.SerializerWithClosable[any]).SerializerWithCloseable(in)
		case 2:
			b, err = fn(in)
		}
		nd.Assert((err != nil) == r.bad, "an error exactly for a value that cannot be encoded")
		if err != nil {
			nd.Assert(errors.Is(err, errBad), "the error of the value's own encoder")
			continue
		}
		x := stored{r, b, append([]byte{}, b...)}
		check(x)
		if how == 1 && nd.Bool() {
			done()
			continue
		}
		if how != 2 {
			keep = append(keep, x)
		}
	}
	for _, x := range keep {
		nd.Assert(bytes.Equal(x.b, x.c), "serialized bytes do not change while they are in use")
		check(x)
	}
	nd.Reach("end")
}

var bg = context.Background()

// C26Table: a table with the serializer; a call with a row that cannot be
// encoded writes nothing.
func C26Table(kind, op, m int) {
	db, done := h.NewDBWith(serializer(kind))
	t := bond.NewTable[Row](bond.TableOptions[Row]{DB: db, TableID: 3, TableName: "t",
		TablePrimaryKeyFunc: func(b bond.KeyBuilder, r Row) []byte { return b.AddByteField(r.A).Bytes() }})
	ok := func(err error, what string) { nd.Assert(err == nil, what+" succeeds") }
	want := []Row{{A: 1, S: "one"}, {A: 2, S: nd.Str(nd.Choose(3))}, {A: 3, S: "three"}}
	ok(t.Insert(bg, want), "insert")
	var in []Row
	bad := false
	for i := 0; i < m; i++ {
		r := Row{A: uint8(2 + i), S: nd.Str(nd.Choose(3)), bad: nd.Bool()}
		if op == 0 {
			r.A += 10
		}
		in = append(in, r)
		bad = bad || r.bad
	}
	var err error
	switch op {
	case 0:
		err = t.Insert(bg, in)
	case 1:
		err = t.Update(bg, in)
	case 2:
		err = t.Upsert(bg, in, bond.TableUpsertOnConflictReplace[Row])
	case 3:
		err = t.(bond.TableUnsafeUpdater[Row]).UnsafeUpdate(bg, in, want[1:1+m])
	case 4:
		for i := range in {
			in[i].A += 20
		}
		err = t.(bond.TableUnsafeInserter[Row]).UnsafeInsert(bg, in)
	}
	nd.Assert((err != nil) == bad, "an error exactly for a value that cannot be encoded")
	if err != nil {
		nd.Assert(errors.Is(err, errBad), "the error of the value's own encoder")
	} else if op == 0 || op == 4 {
		want = append(want, in...)
	} else {
		for i := range in {
			want[1+i] = in[i]
		}
	}
	var got []Row
	ok(t.Scan(bg, &got, false), "scan")
	nd.Assert(len(got) == len(want), "number of rows")
	for i := range want {
		nd.Assert(nd.And(got[i].A == want[i].A, got[i].S == want[i].S), "the stored rows are read back")
	}
	done()
}

// C26Race: two goroutines store values with one serializer at the same time.
func C26Race(kind, how, preempt, m int) {
	s := serializer(kind)
	bufs := func() utils.SyncPool[bytes.Buffer] {
		return utils.NewPreAllocatedPool[bytes.Buffer](func() any { return bytes.Buffer{} }, 1)
	}
	encs := func() utils.SyncPool[*msgpack.Encoder] {
		return utils.NewPreAllocatedPool[*msgpack.Encoder](func() any { return msgpack.NewEncoder(nil) }, 1)
	}
	switch kind {
	case 3:
		s = &serializers.MsgpackGenSerializer{Buffer: bufs()}
	case 5:
		s = &serializers.MsgpackSerializer{Encoder: encs()}
	case 6:
		s = &serializers.MsgpackSerializer{Encoder: encs(), Buffer: bufs()}
	}
	rows := [2][]Row{}
	for i := range rows {
		for j := 0; j < m; j++ {
			rows[i] = append(rows[i], Row{A: nd.U8(), S: nd.Str(2)})
		}
	}
	done := 0
	for i := range rows {
		i := i
		nd.Go(func() {
			var bb bytes.Buffer
			var fn func(any) ([]byte, error)
			if how == 2 {
				fn = s.(bond.SerializerWithBuffer[any]).SerializeFuncWithBuffer(&bb)
			}
			for j := range rows[i] {
				r := rows[i][j]
				var in any = &r
				if kind == 1 {
					in = &Old{r}
				}
				var b []byte
				var err error
				free := func() {}
				switch how {
				case 0:
					b, err = s.Serialize(in)
				case 1:
					b, free, err = s.(bond.SerializerWithClosable[any]).SerializerWithCloseable(in)
				case 2:
					b, err = fn(in)
				}
				nd.Assert(err == nil, "the value is stored")
				var got Row
				if kind == 1 {
					var o Old
					err = s.Deserialize(b, &o)
					got = o.Row
				} else {
					err = s.Deserialize(b, &got)
				}
				nd.Assert(err == nil, "the value is read back")
				nd.Assert(nd.And(got.A == r.A, got.S == r.S), "the value that was stored is read back")
				free()
			}
			done++
		})
	}
	nd.Interleave(preempt)
	nd.Join()
	nd.Interleave(-1)
	nd.Assert(done == 2, "both goroutines end")
}
