package h

import (
	"strings"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/zzverif/nd"
)

func init() { Registry["LongKeys"] = LongKeys }

// lens are the lengths of index keys; fields longer than a byte, two bytes and
// the working buffers can tell.
var lens = []int{0, 1, 15, 16, 17, 255, 256, 257, 2047, 2049}

// longTab is a table whose primary keys are pl bytes longer than their id and
// whose index keys have the length lens[A] (A is its place in the list).
func longTab(w *World, pl int) (*Tab, *bond.Index[Row]) {
	fill := strings.Repeat("p", pl)
	t := &Tab{}
	t.Table = bond.NewTable[Row](bond.TableOptions[Row]{
		DB: w.db, TableID: tableID, TableName: "t",
		TablePrimaryKeyFunc: func(b bond.KeyBuilder, r Row) []byte {
			return b.AddByteField(r.ID).AddStringField(fill).Bytes()
		},
	})
	idx := bond.NewIndex[Row](bond.IndexOptions[Row]{
		IndexID: idxAll, IndexName: "long",
		IndexKeyFunc: func(b bond.KeyBuilder, r Row) []byte {
			n := lens[int(r.A)%len(lens)]
			if n == 0 {
				return b.Bytes()
			}
			return b.AddStringField(string([]byte{r.B}) + strings.Repeat("k", n-1)).Bytes()
		},
		IndexOrderFunc: func(o bond.IndexOrder, r Row) bond.IndexOrder {
			return o.OrderByte(r.V, bond.IndexOrderTypeDESC)
		},
	})
	t.all = idx
	return t, idx
}

// lessLong: shorter index keys come first.
func lessLong(x, y Row) bool {
	if x.A != y.A {
		return x.A < y.A
	}
	b, c := x.B, y.B
	if lens[x.A] == 0 {
		b, c = 0, 0
	}
	return u3(b, ^x.V, x.ID) < u3(c, ^y.V, y.ID)
}

func drawLong(id uint8) Row {
	return Row{ID: id, A: uint8(nd.Choose(len(lens))), B: nd.U8(), V: nd.U8()}
}

// LongKeys: one call on a table with keys of many lengths, then every way of
// reading it. kind: 0 insert 1 update 2,4 upsert 3 delete, 5 the index is
// rebuilt over outdated entries, 6 dumped and restored.
func LongKeys(kind, n, pl int) {
	var w *World
	if kind == 6 {
		w = newDiskWorld()
	} else {
		w = newWorld(RowSer{})
	}
	t, idx := longTab(w, pl)
	must(t.AddIndex([]*bond.Index[Row]{idx}))
	var rows []Row
	for i := 0; i < n; i++ {
		rows = append(rows, drawLong(uint8(i+1)))
	}
	noErr(t.Insert(bg, rows), "insert")
	x := drawLong(1)
	switch kind {
	case 0:
		x.ID = 200
		rows = t.apply(0, rows, []Row{x})
	case 1, 2, 3:
		rows = t.apply(kind, rows, []Row{x})
	case 4:
		// mixAB would leave the list of lengths
		noErr(t.Upsert(bg, []Row{x}, bond.TableUpsertOnConflictReplace[Row]), "upsert")
		rows[0] = x
	case 5:
		blind, _ := longTab(w, pl)
		rows = blind.apply(1, rows, []Row{x})
		noErr(t.ReIndex([]*bond.Index[Row]{idx}), "reindex")
	case 6:
		dir := dumpDir()
		noErr(w.db.Dump(bg, dir, []bond.TableID{tableID}, true), "dump")
		w.end()
		w = newDiskWorld()
		noErr(w.db.Restore(bg, dir, []bond.TableID{tableID}, true), "restore")
		t, idx = longTab(w, pl)
		must(t.AddIndex([]*bond.Index[Row]{idx}))
	}
	nd.Assert(len(w.dump(0)) == 2*len(rows)+1, "one entry per row")
	var got []Row
	noErr(t.Scan(bg, &got, false), "scan")
	sameSet(got, rows, lessPK, "table")
	got = nil
	all := bond.NewSelectorRange(Row{A: 0, V: 255}, Row{A: uint8(len(lens) - 1), B: 255, ID: 255})
	noErr(t.ScanIndex(bg, idx, all, &got, false), "index scan")
	sameSet(got, rows, lessLong, "index")
	if len(rows) > 0 {
		p := rows[nd.Choose(len(rows))]
		got = nil
		noErr(t.ScanIndex(bg, idx, bond.NewSelectorPoint(p), &got, false), "index point")
		sameSet(got, filterRows(rows, func(r Row) bool {
			return r.A == p.A && (lens[p.A] == 0 || r.B == p.B) && !lessLong(r, p)
		}), lessLong, "index point")
		got = nil
		noErr(t.ScanIndex(bg, idx, bond.NewSelectorRange(p, p), &got, true), "index range")
		sameSet(got, filterRows(rows, func(r Row) bool {
			return r.A == p.A && (lens[p.A] == 0 || r.B == p.B) && r.V == p.V && r.ID == p.ID
		}), reversed(lessLong), "index range")
		r, err := t.GetPoint(bg, Row{ID: p.ID})
		noErr(err, "get")
		nd.Assert(rowEq(r, p), "a stored row is found")
		got = nil
		noErr(t.Query().With(idx, all).After(p).Limit(9).Execute(bg, &got), "query")
		sameSet(got, filterRows(rows, func(r Row) bool { return lessLong(p, r) }), lessLong, "page")
	}
	w.end()
}
