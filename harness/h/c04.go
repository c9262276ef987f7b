package h

import (
	"github.com/go-bond/bond"
	"github.com/go-bond/bond/zzverif/nd"
)

func init() {
	Registry["C04Tables"] = C04Tables
	Registry["C04Indexes"] = C04Indexes
	Registry["C04Rebuild"] = C04Rebuild
}

func twoIDs() (bond.TableID, bond.TableID) {
	a, b := nd.U8(), nd.U8()
	nd.Assume(nd.And(a != 0, b != 0, a < b))
	return bond.TableID(a), bond.TableID(b)
}

// C04Tables: two tables with arbitrary ids hold their own rows whatever the
// other one does.
func C04Tables(n, m, op, which int) {
	w := newWorld(RowSer{})
	ia, ib := twoIDs()
	if nd.Bool() {
		ia, ib = ib, ia
	}
	a, b := newTabID(w, ia, nil), newTabID(w, ib, nil)
	a.addIndexes(which)
	b.addIndexes(which)
	ra, rb := a.seed(n), b.seed(m)
	a.checkTable(ra, which)
	b.checkTable(rb, which)
	x := drawRow()
	switch op {
	case 0:
		noErr(b.Upsert(bg, []Row{x}, bond.TableUpsertOnConflictReplace[Row]), "upsert")
		rb = put(rb, x)
	case 1:
		noErr(b.Delete(bg, rb), "delete")
		rb = nil
	case 2:
		var l []*bond.Index[Row]
		for _, i := range b.SecondaryIndexes() {
			l = append(l, i)
		}
		noErr(b.ReIndex(l), "reindex")
	}
	a.checkTable(ra, which)
	b.checkTable(rb, which)
	w.end()
}

// C04Indexes: two indexes with arbitrary ids over the same or different
// values.
func C04Indexes(n int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	x, y := nd.U8(), nd.U8()
	nd.Assume(nd.And(x != 0, y != 0, x != y))
	i1 := bond.NewIndex[Row](bond.IndexOptions[Row]{IndexID: bond.IndexID(x), IndexName: "x", IndexKeyFunc: keyA})
	i2 := bond.NewIndex[Row](bond.IndexOptions[Row]{IndexID: bond.IndexID(y), IndexName: "y",
		IndexKeyFunc:    func(b bond.KeyBuilder, r Row) []byte { return b.AddByteField(r.B).Bytes() },
		IndexFilterFunc: inPart,
	})
	must(t.AddIndex([]*bond.Index[Row]{i1, i2}))
	rows := t.seed(n)
	chk := func() {
		var got []Row
		noErr(t.ScanIndex(bg, i1, bond.NewSelectorRange(rowMin, rowMax), &got, false), "scan")
		sameSet(got, rows, lessAll, "first index")
		got = nil
		noErr(t.ScanIndex(bg, i2, bond.NewSelectorRange(rowMin, rowMax), &got, false), "scan")
		sameSet(got, filterRows(rows, inPart), lessOrd, "second index")
	}
	chk()
	noErr(t.ReIndex([]*bond.Index[Row]{i1}), "reindex")
	chk()
	w.end()
}

// C04Rebuild: a table created over existing data of a neighbour sees nothing;
// full scans in both directions stay inside.
func C04Rebuild(n int) {
	w := newWorld(RowSer{})
	ia, ib := twoIDs()
	a, b := newTabID(w, ia, nil), newTabID(w, ib, nil)
	ra, rb := a.seed(n), b.seed(n)
	for _, rev := range []bool{false, true} {
		for i, t := range []*Tab{a, b} {
			want := ra
			if i == 1 {
				want = rb
			}
			var got []Row
			noErr(t.Scan(bg, &got, rev), "scan")
			less := lessPK
			if rev {
				less = reversed(lessPK)
			}
			sameSet(got, want, less, "full scan")
			got = nil
			noErr(t.Query().Execute(bg, &got), "query")
			sameSet(got, want, lessPK, "full query")
			q := Row{ID: nd.U8()}
			r, err := t.GetPoint(bg, q)
			has := false
			for _, x := range want {
				has = nd.Or(has, x.ID == q.ID)
			}
			nd.Assert(nd.Iff(err == nil, has), "point read finds exactly the rows of its table")
			nd.Assert(t.Exist(q) == has, "existence is per table")
			if err == nil {
				in := false
				for _, x := range want {
					in = nd.Or(in, rowEq(x, r))
				}
				nd.Assert(in, "point read returns a row of its table")
			}
		}
	}
	w.end()
}
