package h

import (
	"bytes"
	"errors"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/zzverif/env"
	"github.com/go-bond/bond/zzverif/nd"
)

func init() {
	Registry["C22Each"] = C22Each
	Registry["C22Stop"] = C22Stop
	Registry["C22Write"] = C22Write
	Registry["C22Any"] = C22Any
	Registry["C22Fault"] = C22Fault
	Registry["C22Bad"] = C22Bad
}

// item is a selected row and the key a scan reports for it.
type item struct {
	r Row
	k []byte
}

// items pairs the rows, in the order of the index, with the stored keys.
func (t *Tab) items(w *World, s shape, rows []Row, batch ...bond.Batch) []item {
	var out []item
	it := w.db.Iter(&bond.IterOptions{}, batch...)
	sorted := s.sorted(rows)
	for it.First(); it.Valid(); it.Next() {
		k := bond.KeyBytes(it.Key())
		if k.TableID() == t.ID() && k.IndexID() == s.idx.IndexID {
			nd.Assert(len(out) < len(sorted), "no keys beyond those of the rows")
			out = append(out, item{sorted[len(out)], append([]byte{}, k...)})
		}
	}
	noErr(it.Close(), "raw iteration")
	nd.Assert(len(out) == len(sorted), "every row has a key")
	return out
}

// chosen draws a selector (0 range of everything, 1 point, 2 two ranges, 3 two
// points) and returns it with what it selects.
func (s shape) chosen(kind int, l []item) (bond.Selector[Row], []item) {
	keep := func(f func(Row) bool) (out []item) {
		for _, x := range l {
			if f(x.r) {
				out = append(out, x)
			}
		}
		return
	}
	at := func(p Row) func(Row) bool {
		return func(r Row) bool {
			if s.idx.IndexID == bond.PrimaryIndexID && kind == 3 {
				return r.ID == p.ID
			}
			return nd.And(s.pre(r) == s.pre(p), s.full(r) >= s.full(p))
		}
	}
	in := func(lo, hi Row) func(Row) bool {
		return func(r Row) bool { return nd.And(s.full(lo) <= s.full(r), s.full(r) <= s.full(hi)) }
	}
	switch kind {
	case 1:
		p := drawRow()
		return bond.NewSelectorPoint(p), keep(at(p))
	case 2:
		a, b, c, d := drawRow(), drawRow(), drawRow(), drawRow()
		return bond.NewSelectorRanges([]Row{a, b}, []Row{c, d}), append(keep(in(a, b)), keep(in(c, d))...)
	case 3:
		a, b := drawRow(), drawRow()
		return bond.NewSelectorPoints(a, b), append(keep(at(a)), keep(at(b))...)
	}
	lo, hi := rowMin, rowMax
	if s.idx.IndexID == idxPart {
		lo, hi = partMin, partMax
	}
	return bond.NewSelectorRange(lo, hi), l
}

func turn(l []item, reverse bool) []item {
	if !reverse {
		return l
	}
	out := make([]item, len(l))
	for i, x := range l {
		out[len(l)-1-i] = x
	}
	return out
}

// setup22 stores n rows, some of them through an uncommitted batch if asked.
func setup22(idx, n, viaBatch int) (w *World, t *Tab, s shape, l []item, bs []bond.Batch) {
	w = newWorld(RowSer{})
	t = newTab(w, nil)
	s = t.shape(idx)
	t.addIndexes(s.mask)
	rows := t.seed(n)
	if viaBatch > 0 {
		b := w.db.Batch(bond.BatchTypeReadWrite)
		bs = []bond.Batch{b}
		in := drawRows(viaBatch)
		rows = t.apply(3, rows, in, b)
	}
	return w, t, s, t.items(w, s, rows, bs...), bs
}

func end22(w *World, bs []bond.Batch) {
	for _, b := range bs {
		noErr(b.Close(), "close of the batch")
	}
	w.end()
}

// C22Each: every row is read none, one or two times in its callback.
func C22Each(idx, kind, n, reverse, viaBatch int) {
	w, t, s, l, bs := setup22(idx, n, viaBatch)
	sel, want := s.chosen(kind, l)
	want = turn(want, reverse == 1)
	i := 0
	err := t.ScanIndexForEach(bg, s.idx, sel, func(k bond.KeyBytes, z bond.Lazy[Row]) (bool, error) {
		nd.Assert(i < len(want), "one callback per selected row")
		nd.Assert(bytes.Equal(k, want[i].k), "the key is the row's own")
		for j := nd.Choose(3); j > 0; j-- {
			r, err := z.Get()
			noErr(err, "reading the row")
			nd.Assert(rowEq(r, want[i].r), "the row is the callback's own")
		}
		nd.Assert(bytes.Equal(k, want[i].k), "the key stays the row's own")
		i++
		return true, nil
	}, reverse == 1, bs...)
	noErr(err, "scan")
	nd.Assert(i == len(want), "a callback for every selected row")
	end22(w, bs)
}

var errStop = errors.New("stop")

// C22Stop: some callback stops the scan, with or without an error.
func C22Stop(idx, n, reverse, viaBatch int) {
	w, t, s, l, bs := setup22(idx, n, viaBatch)
	sel, want := s.chosen(0, l)
	want = turn(want, reverse == 1)
	at, how := nd.Choose(n+1), nd.Choose(3)
	i := 0
	err := t.ScanIndexForEach(bg, s.idx, sel, func(k bond.KeyBytes, z bond.Lazy[Row]) (bool, error) {
		nd.Assert(i <= at, "no callback after the scan was stopped")
		nd.Assert(i < len(want) && bytes.Equal(k, want[i].k), "the key is the row's own")
		if nd.Bool() {
			r, err := z.Get()
			nd.Assert(err == nil && rowEq(r, want[i].r), "the row is the callback's own")
		}
		i++
		if i <= at {
			return true, nil
		}
		switch how {
		case 0:
			return false, nil
		case 1:
			return false, errStop
		}
		return true, errStop
	}, reverse == 1, bs...)
	if at >= len(want) {
		nd.Assert(err == nil && i == len(want), "a scan that is not stopped visits every row")
	} else if how == 0 {
		nd.Assert(err == nil && i == at+1, "stopping ends the scan without an error")
	} else {
		nd.Assert(errors.Is(err, errStop) && i == at+1, "the callback's error ends the scan and is returned")
	}
	end22(w, bs)
}

// C22Write: callbacks change or delete the row they were called for.
func C22Write(idx, n, reverse, viaBatch int) {
	w, t, s, l, bs := setup22(idx, n, viaBatch)
	sel, want := s.chosen(0, l)
	want = turn(want, reverse == 1)
	rows := make([]Row, 0, len(want))
	i := 0
	err := t.ScanIndexForEach(bg, s.idx, sel, func(k bond.KeyBytes, z bond.Lazy[Row]) (bool, error) {
		nd.Assert(i < len(want), "one callback per selected row")
		nd.Assert(bytes.Equal(k, want[i].k), "the key is the row's own")
		r, err := z.Get()
		nd.Assert(err == nil && rowEq(r, want[i].r), "the row is the callback's own")
		switch nd.Choose(3) {
		case 0:
			noErr(t.Delete(bg, []Row{r}, bs...), "delete in a callback")
		case 1:
			r.A, r.B = r.A+1, r.B^1
			noErr(t.Update(bg, []Row{r}, bs...), "update in a callback")
			rows = append(rows, r)
		default:
			rows = append(rows, r)
		}
		nd.Assert(bytes.Equal(k, want[i].k), "the key stays the row's own")
		i++
		return true, nil
	}, reverse == 1, bs...)
	noErr(err, "scan")
	nd.Assert(i == len(want), "a callback for every selected row")
	if idx != 2 {
		t.checkTable(rows, s.mask, bs...)
	}
	end22(w, bs)
}

// C22Any: the untyped scanner of a table against the expected rows.
func C22Any(idx, kind, n, reverse, viaBatch int) {
	w, t, s, l, bs := setup22(idx, n, viaBatch)
	sel, want := s.chosen(kind, l)
	want = turn(want, reverse == 1)
	a := bond.TableAnyScanner[Row](t.Table)
	o := bond.IndexOptions[any]{
		IndexID: s.idx.IndexID, IndexName: "any",
		IndexKeyFunc: func(b bond.KeyBuilder, r any) []byte { return s.idx.IndexKeyFunction(b, r.(Row)) },
	}
	if s.idx.IndexOrderFunction != nil {
		o.IndexOrderFunc = func(o bond.IndexOrder, r any) bond.IndexOrder {
			return s.idx.IndexOrderFunction(o, r.(Row))
		}
	}
	ix := bond.NewIndex[any](o)
	check := func(rows []any, err error, what string) {
		noErr(err, what)
		nd.Assert(len(rows) == len(want), what+": number of rows")
		for i, r := range rows {
			nd.Assert(rowEq(r.(Row), want[i].r), what+": the rows in order")
		}
	}
	var rows []any
	err := a.ScanIndex(bg, ix, sel, &rows, reverse == 1, bs...)
	check(rows, err, "ScanIndex")
	each := func(out *[]any) func(k bond.KeyBytes, z bond.Lazy[any]) (bool, error) {
		return func(k bond.KeyBytes, z bond.Lazy[any]) (bool, error) {
			i := len(*out)
			nd.Assert(i < len(want) && bytes.Equal(k, want[i].k), "the key is the row's own")
			var r any = want[i].r
			if nd.Bool() {
				var err error
				r, err = z.Get()
				noErr(err, "reading the row")
			}
			*out = append(*out, r)
			return true, nil
		}
	}
	rows = nil
	err = a.ScanIndexForEach(bg, ix, sel, each(&rows), reverse == 1, bs...)
	check(rows, err, "ScanIndexForEach")
	if idx == 0 && kind == 0 {
		rows = nil
		err = a.Scan(bg, &rows, reverse == 1, bs...)
		check(rows, err, "Scan")
		rows = nil
		err = a.ScanForEach(bg, each(&rows), reverse == 1, bs...)
		check(rows, err, "ScanForEach")
	}
	end22(w, bs)
}

// C22Fault: a storage operation fails and the callbacks carry on regardless.
func C22Fault(idx, kind, n, reverse, viaBatch int) {
	w, t, s, l, bs := setup22(idx, n, viaBatch)
	sel, want := s.chosen(kind, l)
	want = turn(want, reverse == 1)
	i := 0
	env.Arm(nd.Choose(3*n+4), "r")
	err := t.ScanIndexForEach(bg, s.idx, sel, func(k bond.KeyBytes, z bond.Lazy[Row]) (bool, error) {
		nd.Assert(i < len(want) && bytes.Equal(k, want[i].k), "the key is the row's own")
		if nd.Bool() {
			r, err := z.Get()
			nd.Assert(err != nil || rowEq(r, want[i].r), "the row is the callback's own")
		}
		i++
		return true, nil
	}, reverse == 1, bs...)
	if fired := env.Disarm(); !fired {
		nd.Assert(err == nil && i == len(want), "a callback for every selected row")
	} else if err == nil {
		nd.Assert(i == len(want), "a scan that skips rows after a failed read returns an error")
	} else {
		nd.Reach("error")
	}
	end22(w, bs)
}

// C22Bad: one stored row cannot be decoded: reading it fails, and only it.
func C22Bad(idx, n, reverse int) {
	w, t, s, l, bs := setup22(idx, n, 0)
	sel, want := s.chosen(0, l)
	want = turn(want, reverse == 1)
	bad := nd.Choose(n)
	if bad < len(want) {
		key := bond.KeyBytes(want[bad].k).ToDataKeyBytes(nil)
		noErr(w.db.Set(key, []byte{1, 2}, bond.Sync), "damage")
	}
	i := 0
	err := t.ScanIndexForEach(bg, s.idx, sel, func(k bond.KeyBytes, z bond.Lazy[Row]) (bool, error) {
		nd.Assert(i < len(want) && bytes.Equal(k, want[i].k), "the key is the row's own")
		for j := nd.Choose(3); j > 0; j-- {
			r, err := z.Get()
			nd.Assert((err != nil) == (i == bad), "reading fails for the damaged row only")
			nd.Assert(i == bad || rowEq(r, want[i].r), "the row is the callback's own")
		}
		i++
		return true, nil
	}, reverse == 1, bs...)
	noErr(err, "scan")
	nd.Assert(i == len(want), "a callback for every selected row")
	var rows []Row
	err = t.ScanIndex(bg, s.idx, sel, &rows, reverse == 1)
	nd.Assert((err != nil) == (bad < len(want)), "a damaged row is an error of the scan")
	end22(w, bs)
}
