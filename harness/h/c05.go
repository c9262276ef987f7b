package h

import (
	"context"
	"errors"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/zzverif/nd"
)

func init() {
	Registry["C05Step"] = C05Step
	Registry["C05Seq"] = C05Seq
	Registry["C05Read"] = C05Read
	Registry["C05Many"] = C05Many
	Registry["C05Big"] = C05Big
	Registry["C05Ptr"] = C05Ptr
	Registry["C05Empty"] = C05Empty
	Registry["C05Unsafe"] = C05Unsafe
}

func hasKey(rows []Row, id uint8) bool {
	has := false
	for _, y := range rows {
		has = nd.Or(has, y.ID == id)
	}
	return has
}

func addV(old, new Row) Row {
	new.V += old.V
	return new
}

// mixAB is a conflict function that moves the row in every index.
func mixAB(old, new Row) Row {
	return Row{new.ID, old.A ^ new.A, old.B + new.B, new.V ^ old.V<<1}
}

// do performs one operation; deletions name rows as they are stored.
func (t *Tab) do(ctx context.Context, op int, model, in []Row, batch ...bond.Batch) error {
	switch op {
	case 0:
		return t.Insert(ctx, in, batch...)
	case 1:
		return t.Update(ctx, in, batch...)
	case 2:
		return t.Upsert(ctx, in, addV, batch...)
	case 4:
		return t.Upsert(ctx, in, mixAB, batch...)
	}
	var del []Row
	for _, x := range in {
		stored := x
		for _, y := range model {
			if x.ID == y.ID {
				stored = y
			}
		}
		del = append(del, stored)
	}
	return t.Delete(ctx, del, batch...)
}

// effect is the specification: the resulting map, or that it must be refused.
func effect(op int, model, in []Row) (out []Row, bad bool) {
	out = append([]Row{}, model...)
	for i, x := range in {
		switch op {
		case 0:
			bad = nd.Or(bad, hasKey(model, x.ID), hasKey(in[:i], x.ID))
		case 1:
			bad = nd.Or(bad, !hasKey(model, x.ID))
		}
	}
	if bad {
		return model, true
	}
	for _, x := range in {
		switch op {
		case 0:
			out = append(out, x)
		case 1:
			out = put(out, x)
		case 2:
			out = upsert(out, x, addV)
		case 4:
			out = upsert(out, x, mixAB)
		case 3:
			out = filterRows(out, func(r Row) bool { return r.ID != x.ID })
		}
	}
	return out, false
}

var opNames = []string{"insert", "update", "upsert", "delete", "upsert"}

// apply performs one operation and returns the resulting map.
func (t *Tab) apply(op int, model, in []Row, batch ...bond.Batch) []Row {
	err := t.do(bg, op, model, in, batch...)
	out, bad := effect(op, model, in)
	if bad {
		nd.Assert(err != nil, opNames[op]+" of a repeated, existing or missing key fails")
		nd.Reach(opNames[op] + " rejected")
	} else {
		noErr(err, opNames[op])
		nd.Reach(opNames[op] + " done")
	}
	return out
}

func drawRows(n int) []Row {
	var in []Row
	for i := 0; i < n; i++ {
		in = append(in, drawRow())
	}
	return in
}

// C05Step: from any state of n rows, one operation with m rows.
func C05Step(op, n, m, which int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	t.addIndexes(which)
	model := t.seed(n)
	in := drawRows(m)
	model = t.apply(op, model, in)
	t.checkTable(model, which)
	w.end()
}

// C05Seq: k operations of one row each, chosen freely.
func C05Seq(n, k, which int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	t.addIndexes(which)
	model := t.seed(n)
	for i := 0; i < k; i++ {
		model = t.apply(nd.Choose(4), model, drawRows(1))
	}
	t.checkTable(model, which)
	w.end()
}

// C05Big: distinct increasing rows; calls longer than the round size (with
// repeated keys allowed only where said).
func C05Big(op, n, m, dup int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	t.addIndexes(1)
	model := t.seed(n)
	in := drawRows(m)
	for i := 1; i < m; i++ {
		if i != dup {
			nd.Assume(in[i-1].ID < in[i].ID)
		}
	}
	model = t.apply(op, model, in)
	t.checkTable(model, 1)
	w.end()
}

// C05Many: m rows in one round, in one of some orders of their keys, which
// repeat: more rows than sorting handles by insertion.
func C05Many(op, n, m int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	pat := nd.Choose(4)
	id := func(i int) uint8 {
		switch pat {
		case 0: // falling, in pairs
			return uint8((m - i) / 2)
		case 1:
			return uint8(i * 7 % 5)
		case 2: // two halves
			return uint8(i % ((m + 1) / 2))
		}
		return uint8(i & 1)
	}
	var model, in []Row
	for i := 0; i < n; i++ {
		model = append(model, Row{uint8(i), nd.U8(), nd.U8(), nd.U8()})
	}
	if n > 0 {
		noErr(t.Insert(bg, model), "insert")
	}
	for i := 0; i < m; i++ {
		in = append(in, Row{id(i), nd.U8(), nd.U8(), nd.U8()})
	}
	if op == 5 {
		rs, err := t.Get(bg, bond.NewSelectorPoints(in...))
		noErr(err, "Get of points")
		nd.Assert(len(rs) == m, "Get of points: one result per point")
		for i, p := range in {
			var want Row
			for _, x := range model {
				if x.ID == p.ID {
					want = x
				}
			}
			nd.Assert(rowEq(rs[i], want), "Get of points: the stored row or the empty row, in the order of the points")
		}
	} else {
		model = t.apply(op, model, in)
	}
	var got []Row
	noErr(t.Scan(bg, &got, false), "scan")
	same(got, sortRows(model, lessPK), "scan")
	w.end()
}

// C05Read: point reads, multi-point reads and existence checks.
func C05Read(n, m int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	rows := t.seed(n)
	want := func(id uint8) Row {
		var r Row
		for _, x := range rows {
			if x.ID == id {
				r = x
			}
		}
		return r
	}
	q := drawRow()
	has := hasKey(rows, q.ID)
	nd.Assert(t.Exist(q) == has, "Exist")
	r, err := t.GetPoint(bg, q)
	if has {
		noErr(err, "GetPoint of a stored key")
		nd.Assert(rowEq(r, want(q.ID)), "GetPoint returns the stored row")
		nd.Observe("row", r.bytes())
	} else {
		nd.Assert(errors.Is(err, bond.ErrNotFound), "GetPoint of a missing key is ErrNotFound")
	}
	rs, err := t.Get(bg, bond.NewSelectorPoint(q))
	if has {
		noErr(err, "Get of a stored key")
		nd.Assert(len(rs) == 1 && rowEq(rs[0], want(q.ID)), "Get returns the stored row")
	} else {
		nd.Assert(errors.Is(err, bond.ErrNotFound) && len(rs) == 0, "Get of a missing key is ErrNotFound")
	}
	var pts []Row
	for i := 0; i < m; i++ {
		pts = append(pts, Row{ID: nd.U8()})
	}
	rs, err = t.Get(bg, bond.NewSelectorPoints(pts...))
	noErr(err, "Get of points")
	nd.Assert(len(rs) == m, "Get of points: one result per point")
	for i, p := range pts {
		nd.Assert(rowEq(rs[i], want(p.ID)), "Get of points: the stored row or the empty row, in the order of the points")
	}
	lo, hi := Row{ID: nd.U8()}, Row{ID: nd.U8()}
	rs, err = t.Get(bg, bond.NewSelectorRange(lo, hi))
	noErr(err, "Get of a range")
	sameSet(rs, filterRows(rows, func(x Row) bool { return nd.And(lo.ID <= x.ID, x.ID <= hi.ID) }), lessPK, "Get of a range")
	for _, rev := range []bool{false, true} {
		var got []Row
		less := lessPK
		if rev {
			less = reversed(lessPK)
		}
		noErr(t.Scan(bg, &got, rev), "scan")
		sameSet(got, rows, less, "scan")
	}
	ctx, cancel := context.WithCancel(bg)
	cancel()
	var got []Row
	nd.Assert(n == 0 || t.Scan(ctx, &got, false) != nil, "a scan with a finished context fails")
	w.end()
}

// C05Ptr: a table of pointers behaves the same.
func C05Ptr(op, n, m int) {
	w := newWorld(RowSer{})
	t := bond.NewTable[*Row](bond.TableOptions[*Row]{
		DB: w.db, TableID: tableID, TableName: "p",
		TablePrimaryKeyFunc: func(b bond.KeyBuilder, r *Row) []byte { return b.AddByteField(r.ID).Bytes() },
	})
	idx := bond.NewIndex[*Row](bond.IndexOptions[*Row]{IndexID: idxAll, IndexName: "all",
		IndexKeyFunc: func(b bond.KeyBuilder, r *Row) []byte { return b.AddByteField(r.A).Bytes() }})
	must(t.AddIndex([]*bond.Index[*Row]{idx}))
	ptrs := func(rs []Row) (out []*Row) {
		for _, r := range rs {
			r := r
			out = append(out, &r)
		}
		return
	}
	var model []Row
	for i := 0; i < n; i++ {
		model = append(model, drawRow())
		if i > 0 {
			nd.Assume(model[i-1].ID < model[i].ID)
		}
	}
	if n > 0 {
		noErr(t.Insert(bg, ptrs(model)), "seed insert")
	}
	in := drawRows(m)
	for i := 1; i < m; i++ {
		nd.Assume(in[i-1].ID != in[i].ID)
	}
	switch op {
	case 1:
		for _, x := range in {
			nd.Assume(hasKey(model, x.ID))
		}
		noErr(t.Update(bg, ptrs(in)), "update")
		for _, x := range in {
			model = put(model, x)
		}
	case 2:
		noErr(t.Upsert(bg, ptrs(in), func(old, new *Row) *Row {
			r := addV(*old, *new)
			return &r
		}), "upsert")
		for _, x := range in {
			model = upsert(model, x, addV)
		}
	}
	chk := func(got []*Row, less func(x, y Row) bool, what string) {
		var vals []Row
		for i, p := range got {
			for _, q := range got[:i] {
				nd.Assert(p != q, what+": every row is its own value")
			}
			vals = append(vals, *p)
		}
		sameSet(vals, model, less, what)
	}
	var got []*Row
	noErr(t.Scan(bg, &got, false), "scan")
	chk(got, lessPK, "scan of pointers")
	var gi []*Row
	noErr(t.ScanIndex(bg, idx, bond.NewSelectorRange(&rowMin, &rowMax), &gi, false), "index scan")
	chk(gi, lessAll, "index scan of pointers")
	var pts []*Row
	for i := range model {
		pts = append(pts, &Row{ID: model[i].ID})
	}
	gp, err := t.Get(bg, bond.NewSelectorPoints(pts...))
	noErr(err, "Get of points")
	for i := range model {
		nd.Assert(rowEq(*gp[i], model[i]), "points of pointers")
	}
	w.end()
}

// C05Unsafe: the unchecked variants agree with the checked ones when their
// preconditions hold.
func C05Unsafe(op, n, m, which, batch int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	t.addIndexes(which)
	model := t.seed(n)
	var b []bond.Batch
	if batch > 0 {
		b = append(b, w.db.Batch(bond.BatchType(batch-1)))
	}
	switch op {
	case 0:
		in := drawRows(m)
		for i, x := range in {
			nd.Assume(!hasKey(model, x.ID))
			nd.Assume(!hasKey(in[:i], x.ID))
		}
		noErr(t.Table.(bond.TableUnsafeInserter[Row]).UnsafeInsert(bg, in, b...), "unsafe insert")
		model = append(model, in...)
	case 1:
		var in, old []Row
		for i := 0; i < m; i++ {
			x := drawRow()
			x.ID = model[i].ID
			in, old = append(in, x), append(old, model[i])
		}
		noErr(t.Table.(bond.TableUnsafeUpdater[Row]).UnsafeUpdate(bg, in, old, b...), "unsafe update")
		for _, x := range in {
			model = put(model, x)
		}
	}
	if batch > 0 {
		noErr(b[0].Commit(bond.Sync), "commit")
		noErr(b[0].Close(), "close")
	}
	t.checkTable(model, which)
	w.end()
}

func put(rows []Row, x Row) []Row {
	out := append([]Row{}, rows...)
	for i, y := range out {
		if x.ID == y.ID {
			out[i] = x
			return out
		}
	}
	return append(out, x)
}

func upsert(rows []Row, x Row, f func(old, new Row) Row) []Row {
	for _, y := range rows {
		if x.ID == y.ID {
			x = f(y, x)
			break
		}
	}
	return put(rows, x)
}

// tightSer leaves out trailing zero fields, so that a row can be stored as no
// bytes at all.
type tightSer struct{}

func (tightSer) Serialize(x any) ([]byte, error) {
	r := *x.(**Row)
	b := r.bytes()
	for len(b) > 0 && b[len(b)-1] == 0 {
		b = b[:len(b)-1]
	}
	return b, nil
}

func (tightSer) Deserialize(b []byte, x any) error {
	if len(b) > 4 {
		return errDecode
	}
	f := make([]byte, 4)
	copy(f, b)
	*x.(**Row) = &Row{f[0], f[1], f[2], f[3]}
	return nil
}

// C05Empty: rows stored as few bytes, possibly none, are rows like any other.
func C05Empty(n, m int) {
	w := newWorld(tightSer{})
	t := bond.NewTable[*Row](bond.TableOptions[*Row]{
		DB: w.db, TableID: tableID, TableName: "e",
		TablePrimaryKeyFunc: func(b bond.KeyBuilder, r *Row) []byte { return b.AddByteField(r.ID).Bytes() },
	})
	var rows []Row
	var in []*Row
	for i := 0; i < n; i++ {
		r := Row{ID: nd.U8(), A: nd.U8() & 1}
		if i > 0 {
			nd.Assume(rows[i-1].ID < r.ID)
		}
		rows = append(rows, r)
		in = append(in, &r)
	}
	noErr(t.Insert(bg, in), "insert")
	same := func(got *Row, id uint8, what string) {
		var want *Row
		for i := range rows {
			if rows[i].ID == id {
				want = &rows[i]
			}
		}
		nd.Assert((got == nil) == (want == nil), what+": finds exactly the stored rows")
		if want != nil {
			nd.Assert(rowEq(*got, *want), what+": the row as stored")
		}
	}
	var pts []*Row
	for i := 0; i < m; i++ {
		pts = append(pts, &Row{ID: nd.U8()})
	}
	got, err := t.Get(bg, bond.NewSelectorPoints(pts...))
	noErr(err, "get of points")
	nd.Assert(len(got) == m, "get of points: a result for each point")
	for i, p := range pts {
		same(got[i], p.ID, "get of points")
		r, err := t.GetPoint(bg, p)
		if err != nil {
			r = nil
		}
		same(r, p.ID, "get")
		nd.Assert(t.Exist(p) == (r != nil), "exist")
	}
	var all []*Row
	noErr(t.Scan(bg, &all, false), "scan")
	nd.Assert(len(all) == n, "scan: number of rows")
	for i := range rows {
		nd.Assert(rowEq(*all[i], rows[i]), "scan: the rows as stored")
	}
	noErr(t.Update(bg, all), "update")
	noErr(t.Delete(bg, all), "delete")
	all = nil
	noErr(t.Scan(bg, &all, false), "scan")
	nd.Assert(len(all) == 0, "no row is left")
	w.end()
}
