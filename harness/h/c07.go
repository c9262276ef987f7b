package h

import (
	"github.com/go-bond/bond"
	"github.com/go-bond/bond/zzverif/nd"
)

func init() {
	Registry["C07Point"] = C07Point
	Registry["C07Points"] = C07Points
	Registry["C08Range"] = C08Range
	Registry["C08Ranges"] = C08Ranges
}

// sel describes one of the indexes of Tab: 0 primary, 1 all, 2 part, 3 ord.
type shape struct {
	idx  *bond.Index[Row]
	in   func(Row) bool
	pre  func(Row) uint64 // index value
	full func(Row) uint64 // index value, order value and primary key
	mask int
}

func (t *Tab) shape(i int) shape {
	yes := func(Row) bool { return true }
	switch i {
	case 0:
		return shape{t.PrimaryIndex(), yes, func(Row) uint64 { return 0 }, func(r Row) uint64 { return uint64(r.ID) }, 0}
	case 1:
		return shape{t.all, yes, func(r Row) uint64 { return uint64(r.A) }, func(r Row) uint64 { return u3(r.A, 0, r.ID) }, 1}
	case 2:
		return shape{t.part, inPart, func(r Row) uint64 { return uint64(r.A) }, func(r Row) uint64 { return u3(r.A, ^r.B, r.ID) }, 2}
	}
	return shape{t.ord, yes, func(r Row) uint64 { return 0 }, func(r Row) uint64 { return u3(0, r.B, r.ID) }, 4}
}

func (s shape) less(x, y Row) bool { return s.full(x) < s.full(y) }

// sorted returns the rows of the index in index order.
func (s shape) sorted(rows []Row) []Row {
	out := filterRows(rows, s.in)
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && s.less(out[j], out[j-1]); j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

// point is what a point selector yields from the sorted rows.
func (s shape) point(sorted []Row, p Row) []Row {
	return filterRows(sorted, func(r Row) bool {
		return nd.And(s.pre(r) == s.pre(p), s.full(r) >= s.full(p))
	})
}

func (s shape) rng(sorted []Row, lo, hi Row) []Row {
	return filterRows(sorted, func(r Row) bool {
		return nd.And(s.full(lo) <= s.full(r), s.full(r) <= s.full(hi))
	})
}

func rev(rows []Row) []Row {
	out := make([]Row, len(rows))
	for i, r := range rows {
		out[len(rows)-1-i] = r
	}
	return out
}

// same asserts that got is exactly want, in order.
func same(got, want []Row, what string) {
	nd.Assert(len(got) == len(want), what+": number of rows")
	for i := range want {
		nd.Assert(rowEq(got[i], want[i]), what+": the expected rows in order")
	}
}

// checkSel scans and reads with the selector in both directions.
func (t *Tab) checkSel(s shape, sel bond.Selector[Row], want []Row, what string, batch ...bond.Batch) {
	var got []Row
	noErr(t.ScanIndex(bg, s.idx, sel, &got, false, batch...), what)
	same(got, want, what)
	for _, r := range got {
		nd.Observe("row", r.bytes())
	}
	got = nil
	noErr(t.ScanIndex(bg, s.idx, sel, &got, true, batch...), what+" reversed")
	same(got, rev(want), what+" reversed")
}

// C07Point: a point selector over n rows on index i.
func C07Point(n, i int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	s := t.shape(i)
	t.addIndexes(s.mask)
	rows := s.sorted(t.seed(n))
	p := drawRow()
	want := s.point(rows, p)
	sel := bond.NewSelectorPoint(p)
	if n%2 == 0 { // a selector may be given another point
		sel = bond.NewSelectorPoint(rowMax)
		sel.SetPoint(p)
	}
	nd.Assert(rowEq(sel.Point(), p), "a selector tells its point")
	t.checkSel(s, sel, want, "point")
	w.end()
}

// C07Points: m points over n rows on index i.
func C07Points(n, m, i int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	s := t.shape(i)
	t.addIndexes(s.mask)
	rows := s.sorted(t.seed(n))
	pts := drawRows(m)
	var want []Row
	for _, p := range pts {
		if i == 0 {
			want = append(want, filterRows(rows, func(r Row) bool { return r.ID == p.ID })...)
		} else {
			want = append(want, s.point(rows, p)...)
		}
	}
	sel := bond.NewSelectorPoints(pts...)
	if n%2 == 0 {
		sel = bond.NewSelectorPoints(rowMax)
		sel.SetPoints(pts...)
	}
	same(sel.Points(), pts, "a selector tells its points")
	t.checkSel(s, sel, want, "points")
	w.end()
}

// C08Range: one range over n rows on index i.
func C08Range(n, i int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	s := t.shape(i)
	t.addIndexes(s.mask)
	rows := s.sorted(t.seed(n))
	lo, hi := drawRow(), drawRow()
	want := s.rng(rows, lo, hi)
	sel := bond.NewSelectorRange(lo, hi)
	if n%2 == 0 {
		sel = bond.NewSelectorRange(rowMin, rowMax)
		sel.SetRange(lo, hi)
	}
	a, b := sel.Range()
	nd.Assert(nd.And(rowEq(a, lo), rowEq(b, hi)), "a selector tells its range")
	t.checkSel(s, sel, want, "range")
	if i == 0 {
		got, err := t.Get(bg, bond.NewSelectorRange(lo, hi))
		noErr(err, "Get of a range")
		same(got, want, "Get of a range")
	}
	w.end()
}

// C08Ranges: m ranges over n rows on index i.
func C08Ranges(n, m, i int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	s := t.shape(i)
	t.addIndexes(s.mask)
	rows := s.sorted(t.seed(n))
	var rs [][]Row
	var want []Row
	for j := 0; j < m; j++ {
		r := drawRows(2)
		rs = append(rs, r)
		want = append(want, s.rng(rows, r[0], r[1])...)
	}
	sel := bond.NewSelectorRanges(rs...)
	if n%2 == 0 {
		sel = bond.NewSelectorRanges([]Row{rowMin, rowMax})
		sel.SetRanges(rs...)
	}
	nd.Assert(len(sel.Ranges()) == len(rs), "a selector tells its ranges")
	t.checkSel(s, sel, want, "ranges")
	if i == 0 {
		got, err := t.Get(bg, bond.NewSelectorRanges(rs...))
		noErr(err, "Get of ranges")
		same(got, want, "Get of ranges")
	}
	w.end()
}
