package h

import (
	"encoding/binary"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/zzverif/nd"
)

func init() {
	Registry["C07Wide"] = C07Wide
	Registry["C08Wide"] = C08Wide
	Registry["C07Iter"] = C07Iter
	Registry["C06Wide"] = C06Wide
}

// WRow has wide and signed fields and a primary key of two fields.
type WRow struct {
	G  uint8
	ID uint16
	A  int16
	U  uint16
	B  int32
}

type wrowSer struct{}

func (wrowSer) Serialize(x any) ([]byte, error) {
	r := x.(*WRow)
	b := make([]byte, 11)
	b[0] = r.G
	binary.BigEndian.PutUint16(b[1:], r.ID)
	binary.BigEndian.PutUint16(b[3:], uint16(r.A))
	binary.BigEndian.PutUint16(b[5:], r.U)
	binary.BigEndian.PutUint32(b[7:], uint32(r.B))
	return b, nil
}

func (wrowSer) Deserialize(b []byte, x any) error {
	if len(b) != 11 {
		return errDecode
	}
	r := x.(*WRow)
	*r = WRow{b[0], binary.BigEndian.Uint16(b[1:]), int16(binary.BigEndian.Uint16(b[3:])), binary.BigEndian.Uint16(b[5:]), int32(binary.BigEndian.Uint32(b[7:]))}
	return nil
}

func drawW() WRow {
	r := WRow{nd.U8(), nd.U16(), nd.I16(), nd.U16(), nd.I32()}
	nd.Assume(r.B != -1<<31)
	return r
}

func (r WRow) pk() uint64  { return uint64(r.G)<<16 | uint64(r.ID) }
func (r WRow) val() uint64 { return uint64(uint16(r.A)^0x8000)<<16 | uint64(r.U) }
func (r WRow) pre() uint64 { return r.val()<<32 | uint64(^(uint32(r.B) ^ 0x80000000)) }

func wLE(x, y WRow) bool {
	return nd.Or(x.pre() < y.pre(), nd.And(x.pre() == y.pre(), x.pk() <= y.pk()))
}

func wEq(x, y WRow) bool {
	return nd.And(x.G == y.G, x.ID == y.ID, x.A == y.A, x.U == y.U, x.B == y.B)
}

type wtab struct {
	bond.Table[WRow]
	idx *bond.Index[WRow]
	w   *World
}

func newWide() *wtab {
	w := newWorld(wrowSer{})
	t := &wtab{w: w}
	t.Table = bond.NewTable[WRow](bond.TableOptions[WRow]{DB: w.db, TableID: 255, TableName: "w",
		TablePrimaryKeyFunc: func(b bond.KeyBuilder, r WRow) []byte { return b.AddByteField(r.G).AddUint16Field(r.ID).Bytes() }})
	t.idx = bond.NewIndex[WRow](bond.IndexOptions[WRow]{IndexID: 255, IndexName: "w",
		IndexKeyFunc:   func(b bond.KeyBuilder, r WRow) []byte { return b.AddInt16Field(r.A).AddUint16Field(r.U).Bytes() },
		IndexOrderFunc: func(o bond.IndexOrder, r WRow) bond.IndexOrder { return o.OrderInt32(r.B, bond.IndexOrderTypeDESC) }})
	must(t.AddIndex([]*bond.Index[WRow]{t.idx}))
	return t
}

// seed stores n rows that are in index order and have distinct keys.
func (t *wtab) seed(n int) []WRow {
	var rows []WRow
	for i := 0; i < n; i++ {
		x := drawW()
		for _, y := range rows {
			nd.Assume(x.pk() != y.pk())
		}
		if i > 0 {
			nd.Assume(wLE(rows[i-1], x))
		}
		rows = append(rows, x)
	}
	if n > 0 {
		noErr(t.Insert(bg, rows), "seed insert")
	}
	return rows
}

func (t *wtab) check(primary bool, sel bond.Selector[WRow], want []WRow, what string) {
	idx := t.idx
	if primary {
		idx = t.PrimaryIndex()
	}
	for _, rv := range []bool{false, true} {
		var got []WRow
		noErr(t.ScanIndex(bg, idx, sel, &got, rv), what)
		nd.Assert(len(got) == len(want), what+": number of rows")
		for i := range want {
			x := want[i]
			if rv {
				x = want[len(want)-1-i]
			}
			nd.Assert(wEq(got[i], x), what+": the expected rows in order")
		}
	}
}

func wKeep(rows []WRow, f func(WRow) bool) []WRow {
	var out []WRow
	for _, r := range rows {
		if f(r) {
			out = append(out, r)
		}
	}
	return out
}

func wByPK(rows []WRow) []WRow {
	out := append([]WRow{}, rows...)
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j].pk() < out[j-1].pk(); j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

// C07Wide: point selectors over wide and signed fields.
func C07Wide(n, m, mode int) {
	t := newWide()
	rows := t.seed(n)
	var pts []WRow
	var want []WRow
	for i := 0; i < m; i++ {
		p := drawW()
		pts = append(pts, p)
		if mode&1 == 1 {
			continue
		}
		want = append(want, wKeep(rows, func(r WRow) bool { return nd.And(r.val() == p.val(), wLE(p, r)) })...)
	}
	switch mode {
	case 0:
		t.check(false, bond.NewSelectorPoint(pts[0]), want, "point")
		t.w.end()
		return
	case 1:
		t.check(true, bond.NewSelectorPoint(pts[0]), wByPK(wKeep(rows, func(r WRow) bool { return r.pk() >= pts[0].pk() })), "primary point")
		t.w.end()
		return
	case 2:
		t.check(false, bond.NewSelectorPoints(pts...), want, "points")
		t.w.end()
		return
	}
	want = nil
	for _, p := range pts {
		want = append(want, wKeep(rows, func(r WRow) bool { return r.pk() == p.pk() })...)
	}
	t.check(true, bond.NewSelectorPoints(pts...), want, "primary points")
	t.w.end()
}

// C08Wide: a range selector over wide and signed fields.
func C08Wide(n, mode int) {
	t := newWide()
	rows := t.seed(n)
	lo, hi := drawW(), drawW()
	if mode == 0 {
		t.check(false, bond.NewSelectorRange(lo, hi), wKeep(rows, func(r WRow) bool { return nd.And(wLE(lo, r), wLE(r, hi)) }), "range")
		t.w.end()
		return
	}
	t.check(true, bond.NewSelectorRange(lo, hi), wByPK(wKeep(rows, func(r WRow) bool { return nd.And(lo.pk() <= r.pk(), r.pk() <= hi.pk()) })), "primary range")
	t.w.end()
}

// C06Wide: updates move rows of wide and signed fields to their new place.
func C06Wide(n int) {
	t := newWide()
	rows := t.seed(n)
	x := drawW()
	k := nd.Choose(n)
	x.G, x.ID = rows[k].G, rows[k].ID
	noErr(t.Update(bg, []WRow{x}), "update")
	rows[k] = x
	for i := 1; i < len(rows); i++ {
		for j := i; j > 0 && wLE(rows[j], rows[j-1]); j-- {
			rows[j], rows[j-1] = rows[j-1], rows[j]
		}
	}
	lo, hi := WRow{A: -1 << 15, B: 1<<31 - 1}, WRow{255, 65535, 1<<15 - 1, 65535, -1<<31 + 1}
	t.check(false, bond.NewSelectorRange(lo, hi), rows, "all rows by index")
	t.check(true, bond.NewSelectorRange(lo, hi), wByPK(rows), "all rows")
	t.w.end()
}

// C07Iter: an iterator over m points is a cursor over the selected entries,
// whatever the order of moves.
func C07Iter(n, m, k int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	s := t.shape(1)
	t.addIndexes(s.mask)
	rows := s.sorted(t.seed(n))
	pts := drawRows(m)
	var want []Row
	for _, p := range pts {
		want = append(want, s.point(rows, p)...)
	}
	it := s.idx.Iter(t, bond.NewSelectorPoints(pts...))
	pos := 0
	var ok bool
	if nd.Bool() {
		ok = it.First()
	} else {
		ok = it.Last()
		pos = len(want) - 1
	}
	for i := 0; ; i++ {
		in := pos >= 0 && pos < len(want)
		nd.Assert(ok == in && it.Valid() == in, "the iterator is valid while entries remain")
		if in {
			kb := bond.KeyBytes(it.Key())
			nd.Assert(eqB(kb.ToDataKeyBytes(), bond.KeyEncode(bond.Key{TableID: tableID, PrimaryKey: pkByte(bond.NewKeyBuilder(nil), want[pos])})), "the iterator is at the expected entry")
		}
		nd.Assert(it.Error() == nil, "no error")
		if i == k {
			break
		}
		if nd.Bool() {
			ok = it.Next()
			if pos < len(want) {
				pos++
			}
		} else {
			ok = it.Prev()
			if pos >= 0 {
				pos--
			}
		}
	}
	noErr(it.Close(), "close")
	w.end()
}
