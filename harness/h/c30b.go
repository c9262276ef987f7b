package h

import (
	"github.com/go-bond/bond"
	"github.com/go-bond/bond/cond"
	"github.com/go-bond/bond/zzverif/nd"
)

func init() {
	Registry["C30Pair"] = C30Pair
	Registry["C25Race"] = C25Race
}

// C30Pair: two goroutines make one call each, of any kind, on one table or on
// two tables of one database; whatever one of them accesses, the other does not
// without being ordered with it.
//
// a is the first call, the second is any (see call); two: the calls are made on
// two tables; filter: the table has a filter.
func C30Pair(kind, preempt, a, lo, hi, two, filter int) {
	w := newWorld(RowSer{})
	var f bond.Filter
	var init *bond.FilterInitializable
	var inner *advFilter
	if filter == 1 {
		inner = &advFilter{exact: true, loadErr: errFilter}
		init = &bond.FilterInitializable{Filter: inner}
		f = init
	}
	t := newTab(w, f)
	if init != nil {
		must(init.Initialize(bg, w.db, []bond.TableScanner[any]{bond.TableAnyScanner[Row](t.Table)}))
	}
	t.addIndexes(1)
	rows := []Row{{ID: 1, A: 1, V: 1}, {ID: 2, A: 2, B: 1}, {ID: 3, A: 1, B: 2, V: 3}, {ID: 4, A: 7, V: 1}}
	must(t.Insert(bg, rows))
	u, urows := t, rows
	if two == 1 {
		u = newTabID(w, tableID+1, f)
		u.addIndexes(1)
		must(u.Insert(bg, rows))
	}
	b := lo + nd.Choose(hi-lo+1)
	done := 0
	var fa, fb func([]Row) []Row
	nd.Go(func() {
		fa = t.call(w, a, rows, 0)
		done++
	})
	nd.Go(func() {
		fb = u.call(w, b, urows, 1)
		done++
	})
	interleave(kind, preempt)
	nd.Join()
	nd.Interleave(-1)
	nd.Assert(done == 2, "both calls return")
	if two == 1 {
		t.checkTable(fa(rows), 1)
		u.checkTable(fb(urows), 1)
	} else {
		t.checkTable(fb(fa(rows)), 1)
	}
	w.end()
}

// call makes one call as caller k (0 or 1), whose row is the one with key k+1,
// and returns its effect.
func (t *Tab) call(w *World, op int, rows []Row, k int) func([]Row) []Row {
	mine := rows[k]
	fresh := Row{ID: uint8(10 + k), A: 3, V: 1}
	next := Row{ID: mine.ID, A: 9, B: 4, V: 3}
	none := func(m []Row) []Row { return m }
	write := func(o int, in Row) func([]Row) []Row {
		return func(m []Row) []Row {
			out, _ := effect(o, m, []Row{in})
			return out
		}
	}
	switch op {
	case 0:
		noErr(t.do(bg, 0, rows, []Row{fresh}), "insert")
		return write(0, fresh)
	case 1, 2, 3, 4:
		noErr(t.do(bg, op, rows, []Row{next}), opNames[op])
		return write(op, next)
	case 5:
		noErr(t.Table.(bond.TableUnsafeInserter[Row]).UnsafeInsert(bg, []Row{fresh}), "unsafe insert")
		return write(0, fresh)
	case 6:
		noErr(t.Table.(bond.TableUnsafeUpdater[Row]).UnsafeUpdate(bg, []Row{next}, []Row{mine}), "unsafe update")
		return write(1, next)
	case 7:
		if k == 0 {
			noErr(t.AddIndex(t.list(2)), "add index")
		} else {
			noErr(t.AddIndex(t.list(4)), "add index")
		}
	case 8:
		nd.Assert(len(t.Indexes()) >= 2, "the table lists its indexes")
		nd.Assert(len(t.SecondaryIndexes()) >= 1, "the table lists its indexes")
		t.EntryType()
		t.SelectorPointType()
	case 9:
		r, err := t.GetPoint(bg, rows[2])
		noErr(err, "get")
		nd.Assert(rowEq(r, rows[2]), "a stored row is found")
		nd.Assert(t.Exist(rows[3]), "a stored row is found")
	case 10:
		got, err := t.Get(bg, bond.NewSelectorPoints(rows[3], rows[2]))
		noErr(err, "get of points")
		nd.Assert(len(got) == 2 && rowEq(got[0], rows[3]) && rowEq(got[1], rows[2]), "stored rows are found")
	case 11:
		got, err := t.Get(bg, bond.NewSelectorRange(rows[2], rows[3]))
		noErr(err, "get of a range")
		nd.Assert(len(got) == 2 && rowEq(got[0], rows[2]) && rowEq(got[1], rows[3]), "stored rows are found")
	case 12:
		var got []Row
		noErr(t.Query().With(t.all, bond.NewSelectorRange(Row{A: 7}, Row{A: 7, ID: 9})).
			Filter(cond.Func(inPart)).Order(lessPK).Limit(3).Execute(bg, &got), "query")
		nd.Assert(len(got) == 1 && rowEq(got[0], rows[3]), "stored rows are found")
	case 13:
		var got []Row
		noErr(t.Query().With(t.all, bond.NewSelectorRange(Row{A: 7}, Row{A: 7, ID: 9})).
			Intersects(t.Query().With(t.PrimaryIndex(), bond.NewSelectorRange(rows[2], rows[3]))).Execute(bg, &got), "intersection")
		nd.Assert(len(got) == 1 && rowEq(got[0], rows[3]), "stored rows are found")
	case 14:
		n := 0
		noErr(t.ScanIndexForEach(bg, t.PrimaryIndex(), bond.NewSelectorRange(rows[2], rows[3]), func(_ bond.KeyBytes, l bond.Lazy[Row]) (bool, error) {
			r, err := l.Get()
			noErr(err, "row of a scan")
			nd.Assert(rowEq(r, rows[2+n]), "stored rows are found")
			n++
			return true, nil
		}, false), "scan")
		nd.Assert(n == 2, "stored rows are found")
	case 15:
		b := w.db.Batch(bond.BatchTypeReadWrite)
		noErr(t.do(bg, 2, rows, []Row{next}, b), "upsert in a batch")
		nd.Assert(t.Exist(next, b), "a batch sees its writes")
		noErr(b.Commit(bond.Sync), "commit")
		noErr(b.Close(), "close")
		return write(2, next)
	case 16:
		newTabID(w, tableID+5+bond.TableID(k), nil).addIndexes(3)
	}
	return none
}

// C25Race: two goroutines add one index each, of any ids, while a third looks
// at the table; a later row has an entry in every index that was added.
func C25Race(kind, preempt, re int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	t.seed(0)
	ids := [2]uint8{nd.U8(), nd.U8()}
	nd.Assume(nd.And(ids[0] != 0, ids[1] != 0))
	var errs [2]error
	var ix [2]*bond.Index[Row]
	for i := range ids {
		ix[i] = bond.NewIndex[Row](bond.IndexOptions[Row]{IndexID: bond.IndexID(ids[i]), IndexName: "x", IndexKeyFunc: keyA})
	}
	for i := range ids {
		i := i
		nd.Go(func() {
			if re == 1 {
				errs[i] = t.AddIndex(ix[i:i+1], true)
			} else {
				errs[i] = t.AddIndex(ix[i : i+1])
			}
		})
	}
	nd.Go(func() {
		nd.Assert(len(t.Indexes()) >= 1, "the table lists its indexes")
		nd.Assert(len(t.SecondaryIndexes()) <= 2, "the table lists its indexes")
	})
	interleave(kind, preempt)
	nd.Join()
	nd.Interleave(-1)
	same := ids[0] == ids[1]
	n := 0
	got := t.SecondaryIndexes()
	for i, err := range errs {
		if err == nil {
			n++
			in := false
			for _, x := range got {
				in = in || x == ix[i]
			}
			nd.Assert(in, "exactly the indexes added are registered")
		}
	}
	if same {
		nd.Reach("same")
		nd.Assert(n == 1, "one of two indexes with the same id is added")
	} else {
		nd.Reach("different")
		nd.Assert(n == 2, "indexes with different ids are added")
	}
	nd.Assert(len(got) == n, "exactly the indexes added are registered")
	noErr(t.Insert(bg, []Row{{ID: 1, A: 2}}), "insert")
	nd.Assert(len(w.dump(0)) == 2+n, "a row has an entry in every index")
	w.end()
}
