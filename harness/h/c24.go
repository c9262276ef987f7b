package h

import (
	"context"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/cond"
	"github.com/go-bond/bond/utils"
	"github.com/go-bond/bond/zzverif/env"
	"github.com/go-bond/bond/zzverif/nd"
)

func init() {
	Registry["C24Use"] = C24Use
	Registry["C24Rows"] = C24Rows
	Registry["C24Pool"] = C24Pool
}

// watch plays the other users of the pools: what is put is overwritten at once,
// as whoever takes it next may do, and must not be put again before it is taken.
func watch() {
	var free [][]byte
	var arrs [][][]byte
	scratch := []byte{0xDB, 0xDB, 0xDB}
	at := func(b []byte) *byte { return &b[:1][0] }
	env.Lending()
	nd.WatchPools(func(v any) {
		switch b := v.(type) {
		case []byte:
			if cap(b) == 0 {
				return
			}
			nd.Assert(!env.Lent(b), "memory of the backend is not put into a pool")
			for _, x := range free {
				nd.Assert(at(x) != at(b), "no buffer is put into a pool twice")
			}
			free = append(free, b)
			b = b[:cap(b)]
			for i := 0; i < len(b) && i < 48; i++ {
				b[i] = 0xDB
			}
		case [][]byte:
			if cap(b) == 0 {
				return
			}
			for _, x := range arrs {
				nd.Assert(&x[:1][0] != &b[:1][0], "no array is put into a pool twice")
			}
			arrs = append(arrs, b)
			b = b[:cap(b)]
			for i := 0; i < len(b) && i < 8; i++ {
				b[i] = scratch
			}
		}
	}, func(v any) {
		switch b := v.(type) {
		case []byte:
			for i, x := range free {
				if cap(b) > 0 && at(x) == at(b) {
					free = append(free[:i], free[i+1:]...)
					return
				}
			}
		case [][]byte:
			for i, x := range arrs {
				if cap(b) > 0 && &x[:1][0] == &b[:1][0] {
					arrs = append(arrs[:i], arrs[i+1:]...)
					return
				}
			}
		}
	})
}

// C24Use: one call, of any outcome, while other users write to whatever is in
// the pools; fault is 1 to let one storage operation fail.
func C24Use(op, n, fault int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	t.addIndexes(7)
	var rows []Row
	for i := 0; i < n; i++ {
		rows = append(rows, Row{ID: uint8(16 * (i + 1)), A: uint8(i), B: uint8(2 - i), V: nd.U8()})
	}
	noErr(t.Insert(bg, rows), "insert")
	drawRow := func() Row { return Row{nd.U8(), nd.U8(), 1, 1} }
	drawRows := func(int) []Row { return []Row{drawRow(), {ID: nd.U8(), A: 1}} }
	watch()
	model := append([]Row{}, rows...)
	read := func(want []Row, what string, f func(got *[]Row) error) {
		var got []Row
		if f(&got) == nil {
			same(got, want, what)
		} else {
			nd.Assert(fault == 1, what+" succeeds")
		}
	}
	if fault == 1 {
		env.Arm(nd.Choose(3*n+6), "")
	}
	var err error
	switch op {
	case 0, 1:
		in := drawRows(2)
		if op == 0 {
			err = t.Insert(bg, in)
		} else {
			err = t.Update(bg, in)
		}
		if err == nil {
			for _, r := range in {
				model = put(model, r)
			}
		}
	case 2:
		in := drawRow()
		if err = t.Upsert(bg, []Row{in}, addV); err == nil {
			model = upsert(model, in, addV)
		}
	case 3:
		if err = t.Delete(bg, rows[:1]); err == nil {
			model = model[1:]
		}
	case 4:
		in := drawRow()
		nd.Assume(!hasKey(model, in.ID))
		if err = t.Table.(bond.TableUnsafeInserter[Row]).UnsafeInsert(bg, []Row{in}); err == nil {
			model = append(model, in)
		}
	case 5:
		in := drawRow()
		in.ID = rows[0].ID
		if err = t.Table.(bond.TableUnsafeUpdater[Row]).UnsafeUpdate(bg, []Row{in}, rows[:1]); err == nil {
			model[0] = in
		}
	case 6:
		p := drawRow()
		r, err := t.GetPoint(bg, p)
		if err == nil {
			nd.Assert(hasKey(rows, p.ID), "finds stored rows only")
			same([]Row{r}, filterRows(rows, func(x Row) bool { return x.ID == p.ID }), "get")
		}
		if fault == 0 {
			nd.Assert(t.Exist(p) == (err == nil), "exist")
		}
	case 7:
		read([]Row{rows[n-1], rows[0]}, "get of points", func(got *[]Row) (err error) {
			*got, err = t.Get(bg, bond.NewSelectorPoints(rows[n-1], rows[0]))
			return
		})
	case 8:
		read(rows, "get of a range", func(got *[]Row) (err error) {
			*got, err = t.Get(bg, bond.NewSelectorRange(rowMin, rowMax))
			return
		})
	case 9:
		stop, how := nd.Choose(n), nd.Choose(3)
		i := 0
		err = t.ScanIndexForEach(bg, t.all, bond.NewSelectorPoints(rowMin, Row{A: 1}, Row{A: 2}), func(k bond.KeyBytes, l bond.Lazy[Row]) (bool, error) {
			key := append([]byte{}, k...)
			if how != 2 {
				r, err := l.Get()
				if err != nil {
					return false, err
				}
				nd.Assert(hasKey(rows, r.ID), "a stored row")
			}
			nd.Assert(eqB(key, k), "the key stays while its row is read")
			i++
			if i > stop && how == 1 {
				return false, errCallback
			}
			return i <= stop, nil
		}, nd.Bool())
	case 10:
		ctx, cancel := context.WithCancel(bg)
		var got []Row
		cancel()
		nd.Assert(t.Insert(ctx, drawRows(2)) != nil && t.Scan(ctx, &got, false) != nil, "a finished context ends the call")
		nd.Assert(t.ScanIndex(ctx, t.all, bond.NewSelectorRanges([]Row{rowMin, rowMax}, []Row{rowMin, rowMin}), &got, true) != nil, "a finished context ends the call")
	case 11:
		fv := nd.U8()
		read(sortRows(filterRows(rows, func(r Row) bool { return r.V >= fv }), byV), "query", func(got *[]Row) error {
			return t.Query().With(t.all, bond.NewSelectorRange(rowMin, rowMax)).Filter(cond.Func(func(r Row) bool { return r.V >= fv })).Order(byV).Execute(bg, got)
		})
	case 12:
		read(rows[1:], "query after a row", func(got *[]Row) error { return t.Query().After(rows[0]).Execute(bg, got) })
	case 13:
		read(filterRows(rows, func(r Row) bool { return r.A == rows[0].A && r.B == rows[0].B }), "intersection", func(got *[]Row) error {
			q := t.Query().With(t.ord, bond.NewSelectorRange(Row{B: rows[0].B}, Row{B: rows[0].B, ID: 255}))
			return t.Query().With(t.all, bond.NewSelectorPoint(Row{A: rows[0].A})).Intersects(q).Order(lessPK).Execute(bg, got)
		})
	case 14:
		sels := []bond.Selector[Row]{bond.NewSelectorPoint(rows[0]), bond.NewSelectorPoints(rowMin, rows[0]),
			bond.NewSelectorRange(rowMin, rows[0]), bond.NewSelectorRanges([]Row{rowMin, rows[0]}, []Row{rowMax, rowMin})}
		idx := []*bond.Index[Row]{t.PrimaryIndex(), t.all}[nd.Choose(2)]
		it := idx.Iter(t, sels[nd.Choose(4)])
		it2 := idx.Iter(t, sels[0])
		for ok := it.First(); ok; ok = it.Next() {
			nd.Assert(bond.KeyBytes(it.Key()).TableID() == tableID, "a key of the table")
		}
		err = it.Close()
		if !nd.Bool() {
			it2.First()
		}
		if e := it2.Close(); err == nil {
			err = e
		}
	case 15:
		err = t.ReIndex([]*bond.Index[Row]{t.all, t.part})
	case 16:
		b := w.db.Batch(bond.BatchType(nd.Choose(2)))
		in := drawRow()
		err = t.Upsert(bg, []Row{in}, addV, b)
		if err == nil && nd.Bool() {
			if err = b.Commit(bond.Sync); err == nil {
				model = upsert(model, in, addV)
			}
		}
		if e := b.Close(); err == nil && e != nil {
			nd.Assert(fault == 1, "close")
		}
	}
	fired := env.Disarm()
	nd.Assert(err == nil || fault == 0 || fired || op < 2 || op == 9 || op == 10, "fails only for a fault")
	if fired {
		nd.Reach("fault")
	}
	in := Row{ID: 16, A: nd.U8(), V: 3}
	if op != 15 || err == nil { // a failed rebuild leaves the index incomplete
		if op < 4 || op == 16 {
			t.checkTable(model, 1)
		}
		noErr(t.Upsert(bg, []Row{in, {ID: in.ID ^ 1, A: in.A}}, bond.TableUpsertOnConflictReplace[Row]), "upsert")
		model = put(put(model, in), Row{ID: in.ID ^ 1, A: in.A})
		t.checkTable(model, 7)
	}
	w.end()
}

// C24Rows: rows that were returned, or given, are nobody else's.
func C24Rows(n, op int) {
	w := newWorld(RowSer{})
	t := bond.NewTable[*Row](bond.TableOptions[*Row]{
		DB: w.db, TableID: tableID, TableName: "p",
		TablePrimaryKeyFunc: func(b bond.KeyBuilder, r *Row) []byte { return b.AddByteField(r.ID).Bytes() },
	})
	idx := bond.NewIndex[*Row](bond.IndexOptions[*Row]{IndexID: idxAll, IndexName: "all",
		IndexKeyFunc: func(b bond.KeyBuilder, r *Row) []byte { return b.AddByteField(r.A).Bytes() }})
	must(t.AddIndex([]*bond.Index[*Row]{idx}))
	var in []*Row
	var rows []Row
	for i := 0; i < n; i++ {
		r := drawRow()
		if i > 0 {
			nd.Assume(rows[i-1].ID < r.ID)
		}
		rows = append(rows, r)
		in = append(in, &Row{r.ID, r.A, r.B, r.V})
	}
	noErr(t.Insert(bg, in), "insert")
	for i := range in {
		nd.Assert(rowEq(*in[i], rows[i]), "rows given to a call are left alone")
		*in[i] = Row{1, 2, 3, 4} // the caller's to reuse
	}
	watch()
	var got []*Row
	var pts []*Row
	for i := range rows {
		pts = append(pts, &Row{ID: rows[i].ID})
	}
	var err error
	switch op {
	case 0:
		err = t.Scan(bg, &got, false)
	case 1:
		got, err = t.Get(bg, bond.NewSelectorPoints(pts...))
	case 2:
		err = t.ScanIndex(bg, idx, bond.NewSelectorRange(&rowMin, &rowMax), &got, false)
	case 3:
		err = t.Query().With(idx, bond.NewSelectorRange(&rowMin, &rowMax)).Execute(bg, &got)
	case 4:
		for _, p := range pts {
			r, e := t.GetPoint(bg, p)
			noErr(e, "get")
			got = append(got, r)
		}
	}
	noErr(err, "read")
	nd.Assert(len(got) == n, "all rows")
	var kept []Row
	for i, p := range got {
		kept = append(kept, *p)
		for _, q := range got[:i] {
			nd.Assert(p != q, "each row is its own")
		}
	}
	x := drawRow()
	switch nd.Choose(3) {
	case 0:
		noErr(t.Upsert(bg, []*Row{{x.ID, x.A, x.B, x.V}}, bond.TableUpsertOnConflictReplace[*Row]), "upsert")
	case 1:
		noErr(t.Delete(bg, []*Row{got[0]}), "delete")
	case 2:
		got[0].V++ // what the caller does to its rows stays with it
		kept[0].V++
		r, err := t.GetPoint(bg, &Row{ID: kept[0].ID})
		noErr(err, "get")
		nd.Assert(r.V+1 == kept[0].V, "the stored row is not the caller's")
	}
	var again []*Row
	noErr(t.Scan(bg, &again, false), "scan")
	for i, p := range got {
		nd.Assert(rowEq(*p, kept[i]), "a returned row does not change")
		for _, q := range again {
			nd.Assert(p != q, "a later read returns rows of its own")
		}
	}
	w.end()
}

// C24Pool: two users of one pool; each writes its mark into what it takes.
func C24Pool(preempt, size, k int) {
	made := 0
	p := utils.NewPreAllocatedPool[[]byte](func() any { made++; return make([]byte, 0, 4) }, size)
	user := func(id byte) func() {
		return func() {
			var have [][]byte
			for i := 0; i < k; i++ {
				b := append(p.Get()[:0], id, byte(i))
				have = append(have, b)
			}
			for i, b := range have {
				nd.Assert(b[0] == id && b[1] == byte(i), "nobody else writes to a buffer in use")
				p.Put(b[:0])
			}
			b := append(p.Get()[:0], id)
			nd.P()
			nd.Assert(len(b) == 1 && b[0] == id, "nobody else writes to a buffer in use")
			p.Put(b[:0])
		}
	}
	nd.Go(user(1))
	nd.Go(user(2))
	nd.Interleave(preempt)
	nd.Join()
	nd.Interleave(-1)
	var all [][]byte
	for i := 0; i < 2*k+size; i++ {
		b := p.Get()[:0]
		for _, x := range all {
			nd.Assert(&x[:1][0] != &b[:1][0], "every buffer is in the pool once")
		}
		all = append(all, b)
	}
	nd.Reach("end")
}
