package h

import (
	"github.com/go-bond/bond"
	"github.com/go-bond/bond/cond"
	"github.com/go-bond/bond/zzverif/nd"
)

func init() {
	Registry["C09Query"] = C09Query
	Registry["C09Default"] = C09Default
	Registry["C10Page"] = C10Page
	Registry["C10Walk"] = C10Walk
	Registry["C10Intersect"] = C10Intersect
	Registry["C11Two"] = C11Two
	Registry["C11Three"] = C11Three
	Registry["C11Share"] = C11Share
}

// qopts are the options of a query beyond its selection.
type qopts struct {
	filter, order, reverse, offset, limit bool
	fv                                    uint8
	off, lim                              uint64
}

// drawOpts draws the options of mask; mask 32 is any mask.
func drawOpts(mask int) qopts {
	if mask == 32 {
		mask = nd.Choose(32)
	}
	o := qopts{filter: mask&1 != 0, order: mask&2 != 0, reverse: mask&4 != 0, offset: mask&8 != 0, limit: mask&16 != 0}
	if o.filter {
		o.fv = nd.U8()
	}
	if o.offset {
		o.off = nd.U64()
	}
	if o.limit {
		o.lim = nd.U64()
	}
	return o
}

func (o qopts) accept(r Row) bool { return r.V >= o.fv }

// byV is an order of the rows that agrees with no index.
func byV(x, y Row) bool { return u3(^x.V, x.B, x.ID) < u3(^y.V, y.B, y.ID) }

func (o qopts) on(q bond.Query[Row]) bond.Query[Row] {
	if o.filter {
		q = q.Filter(cond.Func(o.accept))
	}
	if o.order {
		q = q.Order(byV)
	}
	if o.reverse {
		q = q.Reverse()
	}
	if o.offset {
		q = q.Offset(o.off)
	}
	if o.limit {
		q = q.Limit(o.lim)
	}
	return q
}

func sortRows(rows []Row, less func(x, y Row) bool) []Row {
	out := append([]Row{}, rows...)
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && less(out[j], out[j-1]); j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

// of is the specification: what the options make of the selection.
func (o qopts) of(sel []Row) []Row {
	out := sel
	if o.reverse {
		out = rev(out)
	}
	if o.filter {
		out = filterRows(out, o.accept)
	}
	if o.order {
		out = sortRows(out, byV)
	}
	return o.cut(out)
}

func (o qopts) cut(out []Row) []Row {
	if o.offset {
		n := 0
		for n < len(out) && uint64(n) < o.off {
			n++
		}
		out = out[n:]
	}
	if o.limit && o.lim != 0 {
		n := 0
		for n < len(out) && uint64(n) < o.lim {
			n++
		}
		out = out[:n]
	}
	return out
}

// selection draws a selector of the kind for index i with what it selects.
// Lists do not overlap.
func (t *Tab) selection(kind int, s shape, i int, sorted []Row) (bond.Selector[Row], []Row) {
	switch kind {
	case 0:
		p := drawRow()
		return bond.NewSelectorPoint(p), s.point(sorted, p)
	case 1:
		var want []Row
		pts := drawRows(2)
		for _, p := range pts {
			if i == 0 {
				want = append(want, filterRows(sorted, func(r Row) bool { return r.ID == p.ID })...)
			} else {
				want = append(want, s.point(sorted, p)...)
			}
		}
		if i == 0 {
			nd.Assume(pts[0].ID != pts[1].ID)
		} else {
			nd.Assume(s.pre(pts[0]) != s.pre(pts[1]))
		}
		return bond.NewSelectorPoints(pts...), want
	case 2:
		lo, hi := drawRow(), drawRow()
		return bond.NewSelectorRange(lo, hi), s.rng(sorted, lo, hi)
	}
	a, b := drawRows(2), drawRows(2)
	nd.Assume(nd.And(s.full(a[0]) <= s.full(a[1]), s.full(b[0]) <= s.full(b[1])))
	nd.Assume(nd.Or(s.full(a[1]) < s.full(b[0]), s.full(b[1]) < s.full(a[0])))
	return bond.NewSelectorRanges(a, b), append(s.rng(sorted, a[0], a[1]), s.rng(sorted, b[0], b[1])...)
}

// C09Query: a query with the options of mask.
func C09Query(n, i, kind, mask int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	s := t.shape(i)
	t.addIndexes(s.mask)
	sel, base := t.selection(kind, s, i, s.sorted(t.seed(n)))
	o := drawOpts(mask)
	var got []Row
	noErr(o.on(t.Query().With(s.idx, sel)).Execute(bg, &got), "query")
	same(got, o.of(base), "query")
	for _, r := range got {
		nd.Observe("row", r.bytes())
	}
	w.end()
}

// C09Default: a query without selection is over the whole table.
func C09Default(n, mask int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	rows := t.seed(n)
	o := drawOpts(mask)
	got := drawRows(1)
	noErr(o.on(t.Query()).Execute(bg, &got), "query")
	same(got, o.of(rows), "query without selection")
	w.end()
}

// C10Page: continuing after any row of the result with any options.
func C10Page(n, i, kind, mask int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	s := t.shape(i)
	t.addIndexes(s.mask)
	sel, base := t.selection(kind, s, i, s.sorted(t.seed(n)))
	o := drawOpts(mask)
	full := o
	full.offset, full.limit = false, false
	all := full.of(base)
	nd.Assume(len(all) > 0)
	k := nd.Choose(n)
	nd.Assume(k < len(all))
	var got []Row
	noErr(o.on(t.Query().With(s.idx, sel)).After(all[k]).Execute(bg, &got), "query after a row")
	same(got, o.cut(all[k+1:]), "query after a row")
	w.end()
}

// C10Walk: pages of arbitrary sizes concatenate to the full result.
func C10Walk(n, i, kind, mask int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	s := t.shape(i)
	t.addIndexes(s.mask)
	sel, base := t.selection(kind, s, i, s.sorted(t.seed(n)))
	o := drawOpts(mask &^ 24)
	all := o.of(base)
	size := nd.U8()
	nd.Assume(size > 0)
	var got, page []Row
	for p := 0; ; p++ {
		nd.Assert(p <= n+1, "paging ends")
		q := o.on(t.Query().With(s.idx, sel)).Limit(uint64(size))
		if len(got) > 0 {
			q = q.After(got[len(got)-1])
		}
		noErr(q.Execute(bg, &page), "page")
		nd.Assert(len(page) <= int(size), "a page is not longer than its limit")
		if len(page) == 0 {
			break
		}
		got = append(got, page...)
	}
	same(got, all, "pages")
	w.end()
}

// common are the rows in both lists, in primary key order.
func common(a, b []Row) []Row {
	return sortRows(filterRows(a, func(r Row) bool { return hasKey(b, r.ID) }), lessPK)
}

// C11Two: an intersection of a selection on index i with one on index j.
func C11Two(n, i, ki, j, kj, mask int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	si, sj := t.shape(i), t.shape(j)
	t.addIndexes(si.mask | sj.mask)
	rows := t.seed(n)
	selI, baseI := t.selection(ki, si, i, si.sorted(rows))
	selJ, baseJ := t.selection(kj, sj, j, sj.sorted(rows))
	o := drawOpts(mask)
	var got []Row
	noErr(o.on(t.Query().With(si.idx, selI).Intersects(t.Query().With(sj.idx, selJ))).Execute(bg, &got), "intersection")
	same(got, o.of(common(baseI, baseJ)), "intersection")
	w.end()
}

// C11Three: three selections.
func C11Three(n, ki, kj, kk, mask int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	t.addIndexes(7)
	rows := t.seed(n)
	s1, s2, s3 := t.shape(1), t.shape(2), t.shape(3)
	q1, b1 := t.selection(ki, s1, 1, s1.sorted(rows))
	q2, b2 := t.selection(kj, s2, 2, s2.sorted(rows))
	q3, b3 := t.selection(kk, s3, 3, s3.sorted(rows))
	o := drawOpts(mask)
	var got []Row
	noErr(o.on(t.Query().With(s1.idx, q1).Intersects(t.Query().With(s2.idx, q2), t.Query().With(s3.idx, q3))).Execute(bg, &got), "intersection")
	same(got, o.of(common(common(b1, b2), b3)), "intersection")
	w.end()
}

// C11Share: queries derived from one intersection do not affect one another.
func C11Share(n, pre int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	t.addIndexes(1)
	rows := t.seed(n)
	s := t.shape(1)
	q := t.Query().With(t.all, bond.NewSelectorRange(rowMin, rowMax))
	for k := 0; k < pre; k++ {
		q = q.Intersects(t.Query().With(t.all, bond.NewSelectorRange(rowMin, rowMax)))
	}
	x, y := drawRow(), drawRow()
	sx := t.Query().With(t.all, bond.NewSelectorPoint(x))
	sy := t.Query().With(t.all, bond.NewSelectorPoint(y))
	qx := q.Intersects(sx)
	qy := q.Intersects(sy)
	qr := qx.Reverse().Limit(1)
	var got []Row
	sorted := s.sorted(rows)
	noErr(qx.Execute(bg, &got), "first derived query")
	same(got, sortRows(s.point(sorted, x), lessPK), "first derived query")
	noErr(qy.Execute(bg, &got), "second derived query")
	same(got, sortRows(s.point(sorted, y), lessPK), "second derived query")
	want := rev(sortRows(s.point(sorted, x), lessPK))
	if len(want) > 1 {
		want = want[:1]
	}
	noErr(qr.Execute(bg, &got), "third derived query")
	same(got, want, "third derived query")
	// intersected queries with options of their own are refused
	for k := 0; k < 5; k++ {
		b := sx
		switch k {
		case 0:
			b = b.Filter(cond.Func(func(Row) bool { return true }))
		case 1:
			b = b.Order(lessPK)
		case 2:
			b = b.After(x)
		case 3:
			b = b.Offset(1)
		case 4:
			b = b.Limit(1)
		}
		nd.Assert(q.Intersects(b).Execute(bg, &got) != nil, "an intersected query with own options is refused")
	}
	w.end()
}

// C10Intersect: continuing an intersection after any row of its result.
func C10Intersect(n, i, ki, j, kj, mask int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	si, sj := t.shape(i), t.shape(j)
	t.addIndexes(si.mask | sj.mask)
	rows := t.seed(n)
	selI, baseI := t.selection(ki, si, i, si.sorted(rows))
	selJ, baseJ := t.selection(kj, sj, j, sj.sorted(rows))
	o := drawOpts(mask)
	full := o
	full.offset, full.limit = false, false
	all := full.of(common(baseI, baseJ))
	nd.Assume(len(all) > 0)
	k := nd.Choose(n)
	nd.Assume(k < len(all))
	var got []Row
	noErr(o.on(t.Query().With(si.idx, selI).Intersects(t.Query().With(sj.idx, selJ))).After(all[k]).Execute(bg, &got), "intersection after a row")
	same(got, o.cut(all[k+1:]), "intersection after a row")
	w.end()
}
