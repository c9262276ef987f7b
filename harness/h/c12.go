package h

import (
	"errors"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/zzverif/nd"
)

func init() {
	Registry["C12View"] = C12View
	Registry["C12Query"] = C12Query
	Registry["C12Intersect"] = C12Intersect
	Registry["C12Point"] = C12Point
	Registry["C12Two"] = C12Two
}

func anyOp() int {
	op := nd.Choose(4)
	if op == 2 {
		op = 4
	}
	return op
}

// C12View: k calls through a batch; fin: 0 commit, 1 close, 2 reset.
func C12View(n, k, which, fin int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	t.addIndexes(which)
	old := t.seed(n)
	b := w.db.Batch(bond.BatchTypeReadWrite)
	other := w.db.Batch(bond.BatchTypeReadWrite)
	model := old
	for i := 0; i < k; i++ {
		model = t.apply(anyOp(), model, drawRows(1), b)
	}
	t.checkTable(model, which, b)
	t.checkTable(old, which)
	t.checkTable(old, which, other)
	noErr(other.Close(), "close of the other batch")
	switch fin {
	case 0:
		noErr(b.Commit(bond.Sync), "commit")
		old = model
	case 2:
		b.Reset()
		t.checkTable(old, which, b)
	}
	noErr(b.Close(), "close")
	t.checkTable(old, which)
	w.end()
}

// C12Query: queries through the batch.
func C12Query(n, k, i, kind, mask int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	s := t.shape(i)
	t.addIndexes(s.mask)
	old := t.seed(n)
	b := w.db.Batch(bond.BatchTypeReadWrite)
	model := old
	for j := 0; j < k; j++ {
		model = t.apply(anyOp(), model, drawRows(1), b)
	}
	sel, base := t.selection(kind, s, i, s.sorted(model))
	o := drawOpts(mask)
	q := o.on(t.Query().With(s.idx, sel))
	var got []Row
	noErr(q.Execute(bg, &got, b), "query through the batch")
	same(got, o.of(base), "query through the batch")
	noErr(b.Close(), "close")
	w.end()
}

// C12Intersect: intersections through the batch and beside it.
func C12Intersect(n, k, ki, kj, mask int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	t.addIndexes(5)
	old := t.seed(n)
	b := w.db.Batch(bond.BatchTypeReadWrite)
	model := old
	for j := 0; j < k; j++ {
		model = t.apply(anyOp(), model, drawRows(1), b)
	}
	si, sj := t.shape(1), t.shape(3)
	x, y := drawRow(), drawRow()
	sel := func(kind int, v Row, s shape) (bond.Selector[Row], func(rows []Row) []Row) {
		if kind == 0 {
			return bond.NewSelectorPoint(v), func(rows []Row) []Row { return s.point(s.sorted(rows), v) }
		}
		return bond.NewSelectorRange(v, rowMax), func(rows []Row) []Row { return s.rng(s.sorted(rows), v, rowMax) }
	}
	s1, f1 := sel(ki, x, si)
	s2, f2 := sel(kj, y, sj)
	o := drawOpts(mask)
	q := o.on(t.Query().With(si.idx, s1).Intersects(t.Query().With(sj.idx, s2)))
	var got []Row
	noErr(q.Execute(bg, &got, b), "intersection through the batch")
	same(got, o.of(common(f1(model), f2(model))), "intersection through the batch")
	noErr(q.Execute(bg, &got), "intersection beside the batch")
	same(got, o.of(common(f1(old), f2(old))), "intersection beside the batch")
	noErr(b.Close(), "close")
	w.end()
}

// point asserts the point reads of key id against rows.
func (t *Tab) point(rows []Row, id uint8, what string, batch ...bond.Batch) {
	var want Row
	for _, x := range rows {
		if x.ID == id {
			want = x
		}
	}
	has := hasKey(rows, id)
	q := Row{ID: id}
	nd.Assert(t.Exist(q, batch...) == has, what+": Exist")
	r, err := t.GetPoint(bg, q, batch...)
	if has {
		noErr(err, what+": GetPoint")
		nd.Assert(rowEq(r, want), what+": GetPoint")
	} else {
		nd.Assert(errors.Is(err, bond.ErrNotFound), what+": GetPoint of a missing key")
	}
	rs, err := t.Get(bg, bond.NewSelectorPoints(q, Row{ID: id ^ 1}), batch...)
	noErr(err, what+": Get of points")
	nd.Assert(len(rs) == 2 && rowEq(rs[0], want), what+": Get of points")
}

// C12Point: point reads through the batch and beside it; lo..hi range reads.
func C12Point(n, k int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	old := t.seed(n)
	b := w.db.Batch(bond.BatchTypeReadWrite)
	model := old
	for j := 0; j < k; j++ {
		model = t.apply(anyOp(), model, drawRows(1), b)
	}
	id := nd.U8()
	t.point(model, id, "through the batch", b)
	t.point(old, id, "beside the batch")
	t.point(old, id, "with a nil batch", nil)
	lo, hi := Row{ID: nd.U8()}, Row{ID: nd.U8()}
	rs, err := t.Get(bg, bond.NewSelectorRange(lo, hi), b)
	noErr(err, "Get of a range through the batch")
	sameSet(rs, filterRows(model, func(x Row) bool { return nd.And(lo.ID <= x.ID, x.ID <= hi.ID) }), lessPK, "Get of a range through the batch")
	var got []Row
	noErr(t.Scan(bg, &got, true, b), "scan through the batch")
	sameSet(got, model, reversed(lessPK), "scan through the batch")
	noErr(w.db.Apply(b, bond.Sync), "apply")
	t.point(model, id, "after the commit")
	noErr(b.Close(), "close")
	w.end()
}

// C12Two: two batches over two tables; one is committed, one is dropped, and
// one batch is applied to another.
func C12Two(n, which int) {
	w := newWorld(RowSer{})
	t, u := newTab(w, nil), newTabID(w, 8, nil)
	t.addIndexes(which)
	u.addIndexes(which)
	mt, mu := t.seed(n), u.seed(n)
	b1, b2 := w.db.Batch(bond.BatchTypeReadWrite), w.db.Batch(bond.BatchTypeReadWrite)
	t1 := t.apply(anyOp(), mt, drawRows(1), b1)
	u1 := u.apply(anyOp(), mu, drawRows(1), b1)
	t2 := t.apply(2, mt, drawRows(1), b2)
	t.checkTable(t1, which, b1)
	u.checkTable(u1, which, b1)
	t.checkTable(t2, which, b2)
	u.checkTable(mu, which, b2)
	u.checkTable(mu, which)
	noErr(b2.Close(), "close")
	if nd.Bool() {
		b3 := w.db.Batch(bond.BatchTypeReadWrite)
		noErr(b3.Apply(b1, bond.Sync), "apply of a batch to a batch")
		t.checkTable(t1, which, b3)
		u.checkTable(u1, which, b3)
		t.checkTable(mt, which)
		noErr(b3.Commit(bond.Sync), "commit")
		noErr(b3.Close(), "close")
		noErr(b1.Close(), "close")
		nd.Reach("applied")
	} else {
		noErr(b1.Commit(bond.NoSync), "commit")
		noErr(b1.Close(), "close")
		nd.Reach("committed")
	}
	t.checkTable(t1, which)
	u.checkTable(u1, which)
	w.end()
}
