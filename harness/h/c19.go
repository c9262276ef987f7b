package h

import (
	"bytes"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/zzverif/env"
	"github.com/go-bond/bond/zzverif/nd"
)

func init() {
	Registry["C19Reindex"] = C19Reindex
	Registry["C19Ids"] = C19Ids
	Registry["C19Add"] = C19Add
	Registry["C19Fault"] = C19Fault
	Registry["C25Add"] = C25Add
	Registry["C25Order"] = C25Order
}

type entry struct{ k, v []byte }

// dump copies everything stored outside the given indexes of a table.
func (w *World) dump(id bond.TableID, without ...bond.IndexID) []entry {
	var out []entry
	it := w.db.Iter(&bond.IterOptions{})
	for it.First(); it.Valid(); it.Next() {
		k := bond.KeyBytes(it.Key())
		skip := false
		for _, i := range without {
			skip = skip || k.TableID() == id && k.IndexID() == i
		}
		if !skip {
			out = append(out, entry{append([]byte{}, it.Key()...), append([]byte{}, it.Value()...)})
		}
	}
	noErr(it.Close(), "raw iteration")
	return out
}

func sameDump(a, b []entry, what string) {
	nd.Assert(len(a) == len(b), what+": number of entries")
	eq := true
	for i := range a {
		eq = nd.And(eq, bytes.Equal(a[i].k, b[i].k), bytes.Equal(a[i].v, b[i].v))
	}
	nd.Assert(eq, what+": entries")
}

// C19Reindex: a table whose indexes (mask which) went out of step: k calls
// were made through a handle that does not know them, and a stray entry was
// added; redo is the mask of indexes rebuilt.
func C19Reindex(n, k, which, redo, stray int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	t.addIndexes(which)
	blind := newTab(w, nil)
	model := t.seed(n)
	for i := 0; i < k; i++ {
		model = blind.apply(anyOp(), model, drawRows(1))
	}
	if stray == 1 {
		ids := []bond.IndexID{idxAll, idxPart, idxOrd}
		id := ids[nd.Choose(3)]
		nd.Assume(redo&(1<<(id-1)) != 0)
		noErr(w.db.Set(bond.KeyEncode(bond.Key{
			TableID: t.ID(), IndexID: id,
			Index: nd.Bytes(nd.Choose(3)), IndexOrder: nd.Bytes(nd.Choose(2)), PrimaryKey: nd.Bytes(1),
		}), nil, bond.Sync), "stray entry")
	}
	var without []bond.IndexID
	for i := 0; i < 3; i++ {
		if redo&(1<<i) != 0 {
			without = append(without, bond.IndexID(i+1))
		}
	}
	before := w.dump(t.ID(), without...)
	noErr(t.ReIndex(t.list(redo)), "reindex")
	sameDump(before, w.dump(t.ID(), without...), "what is not rebuilt stays")
	t.checkTable(model, redo)
	t.checkRaw(w, model, redo)
	w.end()
}

// C19Ids: an index with an arbitrary id of a table with an arbitrary id; a
// neighbouring table and index keep their entries.
func C19Ids(n int) {
	w := newWorld(RowSer{})
	ia, ib := twoIDs()
	if nd.Bool() {
		ia, ib = ib, ia
	}
	x, y := nd.U8(), nd.U8()
	nd.Assume(nd.And(x != 0, y != 0, x != y))
	mk := func(id bond.TableID, ids ...uint8) *Tab {
		t := newTabID(w, id, nil)
		for i, j := range ids {
			idx := bond.NewIndex[Row](bond.IndexOptions[Row]{IndexID: bond.IndexID(j), IndexName: "x", IndexKeyFunc: keyA})
			must(t.AddIndex([]*bond.Index[Row]{idx}))
			if i == 0 {
				t.all = idx
			}
		}
		return t
	}
	a, b := mk(ia, x, y), mk(ib, x)
	rows := a.seed(n)
	b.seed(1)
	before := w.dump(0)
	noErr(a.ReIndex([]*bond.Index[Row]{a.all}), "reindex")
	sameDump(before, w.dump(0), "reindexing a correct index changes nothing")
	noErr(w.db.Set(bond.KeyEncode(bond.Key{
		TableID: ia, IndexID: bond.IndexID(x),
		Index: nd.Bytes(nd.Choose(2)), IndexOrder: []byte{}, PrimaryKey: nd.Bytes(1),
	}), nil, bond.Sync), "stray entry")
	noErr(a.ReIndex([]*bond.Index[Row]{a.all}), "reindex")
	sameDump(before, w.dump(0), "reindexing removes outdated entries")
	var got []Row
	noErr(a.ScanIndex(bg, a.all, bond.NewSelectorRange(rowMin, rowMax), &got, false), "scan")
	sameSet(got, rows, lessAll, "rebuilt index")
	w.end()
}

// C19Add: indexes are added with reindexing to a table of n rows, after one
// that is there from the start; then k calls.
func C19Add(n, k, first, then int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	t.addIndexes(first)
	model := t.seed(n)
	noErr(t.AddIndex(t.list(then), true), "adding an index")
	t.checkTable(model, first|then)
	t.checkRaw(w, model, first|then)
	for i := 0; i < k; i++ {
		model = t.apply(anyOp(), model, drawRows(1))
	}
	t.checkTable(model, first|then)
	t.checkRaw(w, model, first|then)
	w.end()
}

// C19Fault: a storage operation fails while reindexing; rows and the other
// index stay, repeating it completes.
func C19Fault(n, kind int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	t.addIndexes(1)
	if kind == 0 {
		t.addIndexes(4)
	}
	rows := t.seed(n)
	env.Arm(nd.Choose(2*n+5), "")
	var err error
	if kind == 0 {
		err = t.ReIndex(t.list(4))
	} else {
		err = t.AddIndex(t.list(4), true)
	}
	fired := env.Disarm()
	if err == nil {
		t.checkTable(rows, 5)
		t.checkRaw(w, rows, 5)
	} else {
		nd.Assert(fired, "reindexing succeeds without a fault")
		nd.Reach("error")
		t.checkTable(rows, 1)
		t.checkRaw(w, rows, 1)
	}
	noErr(t.ReIndex(t.list(4)), "reindex after the fault")
	t.checkTable(rows, 5)
	t.checkRaw(w, rows, 5)
	w.end()
}

func idOf(l []*bond.Index[Row]) []bond.IndexID {
	var out []bond.IndexID
	for _, i := range l {
		out = append(out, i.IndexID)
	}
	return out
}

// C25Add: k additions of up to two indexes each with arbitrary ids; then a
// row is written and every registered index, no other, has its entry.
func C25Add(k, n, re int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	var have []*bond.Index[Row]
	holds := func(l []*bond.Index[Row], id uint8) bool {
		in := false
		for _, i := range l {
			in = nd.Or(in, uint8(i.IndexID) == id)
		}
		return in
	}
	for i := 0; i < k; i++ {
		var l []*bond.Index[Row]
		bad := false
		for j := nd.Choose(3); j > 0; j-- {
			id := nd.U8()
			bad = nd.Or(bad, id == 0, holds(have, id), holds(l, id))
			l = append(l, bond.NewIndex[Row](bond.IndexOptions[Row]{IndexID: bond.IndexID(id), IndexName: "x", IndexKeyFunc: keyA}))
		}
		var err error
		if re == 1 {
			err = t.AddIndex(l, true)
		} else {
			err = t.AddIndex(l)
		}
		if bad {
			nd.Assert(err != nil, "an id in use is refused")
			nd.Reach("refused")
		} else {
			noErr(err, "adding indexes")
			have = append(have, l...)
			nd.Reach("added")
		}
		got := t.SecondaryIndexes()
		nd.Assert(len(got) == len(have), "exactly the indexes added are registered")
		for _, x := range have {
			in := false
			for _, y := range got {
				in = in || x == y
			}
			nd.Assert(in, "exactly the indexes added are registered")
		}
		infos := t.Indexes()
		nd.Assert(len(infos) == len(have)+1, "the table lists its indexes")
		for j := 1; j < len(infos); j++ {
			nd.Assert(infos[j-1].ID() < infos[j].ID(), "the table lists its indexes in order")
		}
	}
	rows := t.seed(n)
	for _, x := range have {
		var got []Row
		noErr(t.ScanIndex(bg, x, bond.NewSelectorRange(rowMin, rowMax), &got, false), "scan")
		sameSet(got, rows, lessAll, "index added")
		nd.Assert(t.entries(w, x.IndexID) == n, "entries of the index added")
	}
	nd.Assert(len(w.dump(0)) == n*(1+len(have))+1, "nothing else is stored")
	t.checkTable(rows, 0)
	w.end()
}

// C25Order: writes before and after an index is added; a refused addition in
// between changes nothing.
func C25Order(n, k, which int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	t.addIndexes(1)
	model := t.seed(n)
	err := t.AddIndex(append(t.list(which), newTab(w, nil).all), nd.Bool())
	nd.Assert(err != nil, "an id in use is refused")
	nd.Assert(len(t.Indexes()) == 2, "a refused addition registers nothing")
	for i := 0; i < k; i++ {
		model = t.apply(anyOp(), model, drawRows(1))
	}
	t.checkTable(model, 1)
	nd.Assert(len(w.dump(0)) == 2*len(model)+1, "a refused addition has no effect on later writes")
	noErr(t.AddIndex(t.list(which), true), "adding the indexes")
	t.checkTable(model, 1|which)
	t.checkRaw(w, model, 1|which)
	w.end()
}
