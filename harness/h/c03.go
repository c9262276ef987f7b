package h

import (
	"bytes"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/zzverif/nd"
)

func init() {
	Registry["C03Round"] = C03Round
	Registry["C03Raw"] = C03Raw
	Registry["C03Rows"] = C03Rows
	Registry["C03Long"] = C03Long
}

func eqB(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = nd.And(ok, a[i] == b[i])
	}
	return ok
}

// dirty returns an empty buffer over memory that holds old bytes.
func dirty(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = 0xA5
	}
	return b[:0]
}

// C03Round: keys with li index bytes, lo order bytes and lp primary bytes.
func C03Round(li, lo, lp int) {
	k := bond.Key{
		TableID: bond.TableID(nd.U8()), IndexID: bond.IndexID(nd.U8()),
		Index: nd.Bytes(li), IndexOrder: nd.Bytes(lo), PrimaryKey: nd.Bytes(lp),
	}
	enc := bond.KeyEncode(k)
	nd.Observe("key", enc)
	for _, buf := range [][]byte{nil, dirty(2), dirty(64)} {
		nd.Assert(eqB(enc, bond.KeyEncode(k, buf)), "the encoding does not depend on the buffer")
	}
	want := []byte{byte(k.TableID), byte(k.IndexID), 0, 0, 0, byte(li)}
	want = append(want, k.Index...)
	split := bond.DefaultKeyComparer().Split(enc)
	nd.Assert(split == len(want), "the prefix ends where the index value ends")
	pre := bond.KeyEncode(k.ToKeyPrefix())
	nd.Assert(eqB(pre, enc[:split]), "the prefix of the key is the encoding of its prefix key")
	nd.Assert(bond.DefaultKeyComparer().Split(pre) == len(pre), "the split of a prefix is the prefix")
	kb := bond.KeyBytes(enc)
	nd.Assert(kb.TableID() == k.TableID, "table id of the raw key")
	nd.Assert(kb.IndexID() == k.IndexID, "index id of the raw key")
	nd.Assert(eqB(kb.Index(), k.Index), "index of the raw key")
	nd.Assert(kb.IsDataKey() == (k.IndexID == bond.PrimaryIndexID), "data key test")
	nd.Assert(kb.IsIndexKey() == (k.IndexID != bond.PrimaryIndexID), "index key test")
	if lp > 0 {
		for i, d := range []bond.Key{bond.KeyDecode(enc), kb.ToKey()} {
			_ = i
			nd.Assert(nd.And(d.TableID == k.TableID, d.IndexID == k.IndexID), "decoded ids")
			nd.Assert(eqB(d.Index, k.Index), "decoded index")
			nd.Assert(eqB(d.IndexOrder, k.IndexOrder), "decoded index order")
			nd.Assert(eqB(d.PrimaryKey, k.PrimaryKey), "decoded primary key")
			nd.Assert(!d.IsKeyPrefix(), "a full key is no prefix")
		}
		data := bond.KeyEncode(k.ToDataKey())
		for _, buf := range [][]byte{nil, dirty(2), dirty(64)} {
			nd.Assert(eqB(data, kb.ToDataKeyBytes(buf)), "row key of an index key")
		}
		nd.Assert(eqB(data, kb.ToDataKeyBytes()), "row key of an index key")
		nd.Assert(bond.KeyBytes(data).IsDataKey(), "a row key is a data key")
	}
	nd.Reach("end")
}

// C03Raw: KeyEncodeRaw agrees with KeyEncode.
func C03Raw(li, lo, lp int) {
	k := bond.Key{
		TableID: bond.TableID(nd.U8()), IndexID: bond.IndexID(nd.U8()),
		Index: nd.Bytes(li), IndexOrder: nd.Bytes(lo), PrimaryKey: nd.Bytes(lp),
	}
	app := func(x []byte) func([]byte) []byte {
		return func(b []byte) []byte { return append(b, x...) }
	}
	fi, fo, fp := app(k.Index), app(k.IndexOrder), app(k.PrimaryKey)
	if li == 0 && nd.Bool() {
		fi = nil
	}
	if lo == 0 && nd.Bool() {
		fo = nil
	}
	for _, buf := range [][]byte{nil, dirty(3), dirty(64)} {
		nd.Assert(eqB(bond.KeyEncode(k), bond.KeyEncodeRaw(k.TableID, k.IndexID, fi, fo, fp, buf)), "both encoders agree")
		nd.Assert(eqB(bond.KeyEncode(k.ToKeyPrefix()), bond.KeyEncodeRaw(k.TableID, k.IndexID, fi, nil, nil, buf)), "both encoders agree on prefixes")
	}
	s := nd.Str(lp)
	d := bond.KeyDecode(bond.NewUserKey(s))
	nd.Assert(string(d.PrimaryKey) == s, "user keys decode to the name")
	nd.Assert(nd.And(d.TableID == 0, d.IndexID == 255), "user keys live in the user space")
	nd.Reach("end")
}

// VRow has fields of variable length.
type VRow struct {
	K, X, O string
}

type vrowSer struct{}

func (vrowSer) Serialize(x any) ([]byte, error) {
	r := x.(*VRow)
	b := []byte{byte(len(r.K)), byte(len(r.X)), byte(len(r.O))}
	b = append(b, r.K...)
	b = append(b, r.X...)
	return append(b, r.O...), nil
}

func (vrowSer) Deserialize(b []byte, x any) error {
	if len(b) < 3 || len(b) != 3+int(b[0])+int(b[1])+int(b[2]) {
		return errDecode
	}
	r := x.(*VRow)
	n, m := 3+int(b[0]), 3+int(b[0])+int(b[1])
	r.K, r.X, r.O = string(b[3:n]), string(b[n:m]), string(b[m:])
	return nil
}

// C03Rows: the entry of a row in an index of variable-length values leads back
// to the row.
func C03Rows(lk, lx, lo int) {
	w := newWorld(vrowSer{})
	tid := bond.TableID(nd.U8())
	iid := bond.IndexID(nd.U8())
	nd.Assume(tid != 0)
	nd.Assume(iid != 0)
	t := bond.NewTable[VRow](bond.TableOptions[VRow]{
		DB: w.db, TableID: tid, TableName: "v",
		TablePrimaryKeyFunc: func(b bond.KeyBuilder, r VRow) []byte { return b.AddStringField(r.K).Bytes() },
	})
	idx := bond.NewIndex[VRow](bond.IndexOptions[VRow]{
		IndexID: iid, IndexName: "x",
		IndexKeyFunc: func(b bond.KeyBuilder, r VRow) []byte { return b.AddStringField(r.X).Bytes() },
		IndexOrderFunc: func(o bond.IndexOrder, r VRow) bond.IndexOrder {
			return o.OrderBytes([]byte(r.O), bond.IndexOrderTypeDESC)
		},
	})
	must(t.AddIndex([]*bond.Index[VRow]{idx}))
	r := VRow{nd.Str(lk), nd.Str(lx), nd.Str(lo)}
	noErr(t.Insert(bg, []VRow{r}), "insert")
	n := 0
	var keys [][]byte
	noErr(t.ScanForEach(bg, func(k bond.KeyBytes, l bond.Lazy[VRow]) (bool, error) {
		keys = append(keys, append([]byte{}, k...))
		return true, nil
	}, false), "scan")
	nd.Assert(len(keys) == 1, "one row")
	noErr(t.ScanIndexForEach(bg, idx, bond.NewSelectorPoint(r), func(k bond.KeyBytes, l bond.Lazy[VRow]) (bool, error) {
		n++
		nd.Assert(eqB(k.ToDataKeyBytes(), keys[0]), "the index entry leads to the key of the row")
		nd.Assert(nd.And(k.TableID() == tid, k.IndexID() == iid), "ids of the index entry")
		nd.Observe("entry", k)
		var got VRow
		var err error
		got, err = l.Get()
		noErr(err, "reading the row")
		nd.Assert(got.K == r.K && got.X == r.X && got.O == r.O, "the row is returned unchanged")
		return true, nil
	}, false), "index scan")
	nd.Assert(n == 1, "one index entry")
	w.end()
}

var _ = bytes.Equal

var longLens = []int{0, 1, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 65535, 65536, 65537}

// long returns n bytes of which the first and the last are arbitrary.
func long(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8)
	}
	if n > 0 {
		b[0], b[n-1] = nd.U8(), nd.U8()
	}
	return b
}

// C03Long: parts whose lengths need more than one byte.
func C03Long(li, lo, lp int) {
	k := bond.Key{
		TableID: bond.TableID(nd.U8()), IndexID: bond.IndexID(nd.U8()),
		Index: long(longLens[li]), IndexOrder: long(longLens[lo]), PrimaryKey: long(longLens[lp]),
	}
	eq := func(a, b []byte) bool { return len(a) == len(b) && bytes.Equal(a, b) }
	enc := bond.KeyEncode(k)
	nd.Assert(len(enc) == 10+len(k.Index)+len(k.IndexOrder)+len(k.PrimaryKey), "size of the encoding")
	split := bond.DefaultKeyComparer().Split(enc)
	nd.Assert(split == 6+len(k.Index), "the prefix ends where the index value ends")
	nd.Assert(eq(bond.KeyEncode(k.ToKeyPrefix()), enc[:split]), "the prefix of the key is the encoding of its prefix key")
	app := func(x []byte) func([]byte) []byte {
		return func(b []byte) []byte { return append(b, x...) }
	}
	raw := bond.KeyEncodeRaw(k.TableID, k.IndexID, app(k.Index), app(k.IndexOrder), app(k.PrimaryKey))
	nd.Assert(eq(raw, enc), "both encoders agree")
	for _, d := range []bond.Key{bond.KeyDecode(enc), bond.KeyBytes(enc).ToKey()} {
		nd.Assert(nd.And(d.TableID == k.TableID, d.IndexID == k.IndexID), "decoded ids")
		nd.Assert(eq(d.Index, k.Index), "decoded index")
		nd.Assert(eq(d.IndexOrder, k.IndexOrder), "decoded index order")
		nd.Assert(eq(d.PrimaryKey, k.PrimaryKey), "decoded primary key")
	}
	nd.Assert(eq(bond.KeyBytes(enc).Index(), k.Index), "index of the raw key")
	nd.Assert(eq(bond.KeyBytes(enc).ToDataKeyBytes(), bond.KeyEncode(k.ToDataKey())), "row key of an index key")
	nd.Reach("end")
}
