package h

import (
	"errors"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/zzverif/env"
	"github.com/go-bond/bond/zzverif/nd"
)

func init() {
	Registry["C14Read"] = C14Read
	Registry["C14Scan"] = C14Scan
	Registry["C14Query"] = C14Query
	Registry["C14Intersect"] = C14Intersect
	Registry["C14Write"] = C14Write
	Registry["C14Reindex"] = C14Reindex
	Registry["C14Exist"] = C14Exist
	Registry["C14Iter"] = C14Iter
}

// faulty runs f twice, first with the k-th storage read failing, and checks
// the outcomes: an error comes from the fault, success gives the true result.
func faulty(limit int, what string, f func() error, right func()) {
	env.Arm(nd.Choose(limit), "r")
	err := f()
	fired := env.Disarm()
	if err != nil {
		nd.Assert(fired, what+" succeeds without a fault")
		nd.Assert(!errors.Is(err, bond.ErrNotFound), what+": a failed read is not a missing record")
		nd.Reach("error")
	} else {
		right()
		if !fired {
			nd.Reach("no fault")
		}
	}
	noErr(f(), what+" after the fault")
	right()
}

// batchFor returns the optional read-write batch of a harness, holding the
// last row of rows.
func (t *Tab) seedVia(w *World, n, batch int) ([]Row, []bond.Batch) {
	if batch == 0 {
		return t.seed(n), nil
	}
	rows := drawRows(n)
	for i := 1; i < n; i++ {
		nd.Assume(rows[i-1].ID < rows[i].ID)
	}
	if n > 1 {
		noErr(t.Insert(bg, rows[:n-1]), "seed insert")
	}
	b := w.db.Batch(bond.BatchTypeReadWrite)
	noErr(t.Insert(bg, rows[n-1:], b), "insert into the batch")
	return rows, []bond.Batch{b}
}

func closeAll(bs []bond.Batch) {
	for _, b := range bs {
		noErr(b.Close(), "close of the batch")
	}
}

// C14Read: kind 0 GetPoint, 1 Get point, 2 Get points, 3 Get range, 4 Get
// ranges, 5 Scan, 6 reverse Scan, 7 ScanForEach without reading rows.
func C14Read(kind, n, batch int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	rows, bs := t.seedVia(w, n, batch)
	s := t.shape(0)
	var got, want []Row
	var f func() error
	switch kind {
	case 0, 1:
		p := rows[nd.Choose(n)]
		want = []Row{p}
		f = func() (err error) {
			if kind == 0 {
				var r Row
				r, err = t.GetPoint(bg, Row{ID: p.ID}, bs...)
				got = []Row{r}
			} else {
				got, err = t.Get(bg, bond.NewSelectorPoint(p), bs...)
			}
			return
		}
	case 2:
		pts := drawRows(2)
		for _, p := range pts {
			var r Row
			for _, x := range rows {
				if x.ID == p.ID {
					r = x
				}
			}
			want = append(want, r)
		}
		f = func() (err error) { got, err = t.Get(bg, bond.NewSelectorPoints(pts...), bs...); return }
	case 3:
		lo, hi := drawRow(), drawRow()
		want = s.rng(rows, lo, hi)
		f = func() (err error) { got, err = t.Get(bg, bond.NewSelectorRange(lo, hi), bs...); return }
	case 4:
		a, b := drawRows(2), drawRows(2)
		want = append(s.rng(rows, a[0], a[1]), s.rng(rows, b[0], b[1])...)
		f = func() (err error) { got, err = t.Get(bg, bond.NewSelectorRanges(a, b), bs...); return }
	case 5, 6:
		want = rows
		if kind == 6 {
			want = rev(rows)
		}
		f = func() error { got = nil; return t.Scan(bg, &got, kind == 6, bs...) }
	case 7:
		want = make([]Row, n)
		f = func() error {
			got = nil
			return t.ScanForEach(bg, func(bond.KeyBytes, bond.Lazy[Row]) (bool, error) {
				got = append(got, Row{})
				return true, nil
			}, false, bs...)
		}
	}
	faulty(2*n+5, "read", f, func() { same(got, want, "read") })
	closeAll(bs)
	w.end()
}

// C14Scan: a scan of index i with a selector of the kind; mode 0 reads every
// row, 1 reads none, 2 reads them all twice.
func C14Scan(n, i, kind, reverse, mode, batch int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	s := t.shape(i)
	t.addIndexes(s.mask)
	rows, bs := t.seedVia(w, n, batch)
	sel, want := t.selection(kind, s, i, s.sorted(rows))
	if reverse == 1 {
		want = rev(want)
	}
	var got []Row
	f := func() error {
		got = nil
		return t.ScanIndexForEach(bg, s.idx, sel, func(_ bond.KeyBytes, l bond.Lazy[Row]) (bool, error) {
			var r Row
			var err error
			for k := 0; k < []int{1, 0, 2}[mode]; k++ {
				if r, err = l.Get(); err != nil {
					return false, err
				}
			}
			got = append(got, r)
			return true, nil
		}, reverse == 1, bs...)
	}
	faulty(3*n+6, "index scan", f, func() {
		if mode == 1 {
			nd.Assert(len(got) == len(want), "index scan: number of rows")
		} else {
			same(got, want, "index scan")
		}
	})
	closeAll(bs)
	w.end()
}

// C14Query: a query with options.
func C14Query(n, i, kind, mask, after int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	s := t.shape(i)
	t.addIndexes(s.mask)
	sel, base := t.selection(kind, s, i, s.sorted(t.seed(n)))
	o := drawOpts(mask)
	q := o.on(t.Query().With(s.idx, sel))
	full := o
	full.offset, full.limit = false, false
	all := full.of(base)
	if after == 1 {
		nd.Assume(len(all) > 0)
		q = q.After(all[0])
		all = all[1:]
	}
	want := o.cut(all)
	var got []Row
	faulty(3*n+6, "query", func() error { got = nil; return q.Execute(bg, &got) }, func() { same(got, want, "query") })
	w.end()
}

// C14Intersect: an intersection of three ranges.
func C14Intersect(n, mask, batch int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	t.addIndexes(5)
	rows, bs := t.seedVia(w, n, batch)
	x := drawRow()
	s1, s3 := t.shape(1), t.shape(3)
	want := common(s1.rng(s1.sorted(rows), x, rowMax), s3.sorted(rows))
	o := drawOpts(mask)
	q := o.on(t.Query().With(t.all, bond.NewSelectorRange(x, rowMax)).Intersects(t.Query().With(t.ord, bond.NewSelectorRange(rowMin, rowMax))))
	var got []Row
	faulty(5*n+8, "intersection", func() error { got = nil; return q.Execute(bg, &got, bs...) }, func() { same(got, o.of(want), "intersection") })
	closeAll(bs)
	w.end()
}

// C14Write: a failing read during a write is no reason for a change.
func C14Write(op, n, m, which, batch int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	t.addIndexes(which)
	model, bs := t.seedVia(w, n, batch)
	in := drawRows(m)
	out, bad := effect(op, model, in)
	env.Arm(nd.Choose(2*m+2), "r")
	err := t.do(bg, op, model, in, bs...)
	fired := env.Disarm()
	if err != nil {
		nd.Assert(fired || bad, "a valid write succeeds without a fault")
		if batch == 1 {
			bs[0].Close()
			w.end()
			return
		}
		out = model
		nd.Reach("error")
	} else {
		nd.Assert(!bad, "an invalid write fails")
	}
	t.checkTable(out, which, bs...)
	// the table remains usable
	next := t.apply(2, out, drawRows(1), bs...)
	t.checkTable(next, 0, bs...)
	closeAll(bs)
	w.end()
}

// C14Reindex: kind 0 ReIndex, 1 AddIndex with reindexing.
func C14Reindex(kind, n, which int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	if kind == 0 {
		t.addIndexes(which)
	}
	rows := t.seed(n)
	l := t.list(which)
	first := true
	faulty(n+3, "reindex", func() error {
		if kind == 1 && first {
			first = false
			return t.AddIndex(l, true)
		}
		return t.ReIndex(l)
	}, func() { t.checkTable(rows, which) })
	w.end()
}

// C14Exist: an existence check whose read fails.
func C14Exist() {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	rows := t.seed(1)
	env.Arm(0, "r")
	ok := t.Exist(rows[0])
	fired := env.Disarm()
	nd.Assert(ok || !fired, "a failed read is not a missing record")
	w.end()
}

// C14Iter: the iterator of a selection reports a failed read.
func C14Iter(n, i, kind, reverse int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	s := t.shape(i)
	t.addIndexes(s.mask)
	sel, want := t.selection(kind, s, i, s.sorted(t.seed(n)))
	got := 0
	faulty(n+5, "iteration", func() error {
		got = 0
		it := s.idx.Iter(t, sel)
		first, next := it.First, it.Next
		if reverse == 1 {
			first, next = it.Last, it.Prev
		}
		for ok := first(); ok; ok = next() {
			got++
		}
		err := it.Error()
		if cerr := it.Close(); err == nil {
			err = cerr
		}
		return err
	}, func() { nd.Assert(got == len(want), "iteration: number of rows") })
	w.end()
}
