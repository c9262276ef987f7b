package h

import (
	"github.com/go-bond/bond"
	"github.com/go-bond/bond/zzverif/nd"
)

func init() {
	Registry["C05Str"] = C05Str
	Registry["C06Str"] = C06Str
	Registry["C07Str"] = C07Str
	Registry["C08Str"] = C08Str
	Registry["C10Str"] = C10Str
	Registry["C12Str"] = C12Str
}

// stab is a table whose primary key is a string, with an index over a string.
type stab struct {
	bond.Table[VRow]
	idx *bond.Index[VRow]
	w   *World
}

func newStr() *stab {
	t := &stab{w: newWorld(vrowSer{})}
	t.Table = bond.NewTable[VRow](bond.TableOptions[VRow]{DB: t.w.db, TableID: 9, TableName: "s",
		TablePrimaryKeyFunc: func(b bond.KeyBuilder, r VRow) []byte { return b.AddStringField(r.K).Bytes() }})
	t.idx = bond.NewIndex[VRow](bond.IndexOptions[VRow]{IndexID: 1, IndexName: "x",
		IndexKeyFunc: func(b bond.KeyBuilder, r VRow) []byte { return b.AddStringField(r.X).Bytes() }})
	must(t.AddIndex([]*bond.Index[VRow]{t.idx}))
	return t
}

func drawStr(max int) string { return nd.Str(nd.Choose(max + 1)) }

// drawV draws a row whose key and value have up to lk and lx bytes; the third
// field tells rows apart.
func drawV(lk, lx int) VRow { return VRow{drawStr(lk), drawStr(lx), nd.Str(1)} }

func vEq(a, b VRow) bool { return a.K == b.K && a.X == b.X && a.O == b.O }

// seed stores n rows with increasing keys.
func (t *stab) seed(n, lk, lx int) []VRow {
	var rows []VRow
	for i := 0; i < n; i++ {
		rows = append(rows, drawV(lk, lx))
		if i > 0 {
			nd.Assume(rows[i-1].K < rows[i].K)
		}
	}
	if n > 0 {
		noErr(t.Insert(bg, rows), "seed insert")
	}
	return rows
}

func sameV(got, want []VRow, what string) {
	nd.Assert(len(got) == len(want), what+": number of rows")
	for i := range want {
		nd.Assert(vEq(got[i], want[i]), what+": the expected rows in order")
	}
}

func vKeep(rows []VRow, f func(VRow) bool) []VRow {
	var out []VRow
	for _, r := range rows {
		if f(r) {
			out = append(out, r)
		}
	}
	return out
}

func vRev(rows []VRow) []VRow {
	out := make([]VRow, 0, len(rows))
	for i := len(rows) - 1; i >= 0; i-- {
		out = append(out, rows[i])
	}
	return out
}

func (t *stab) scan(idx *bond.Index[VRow], sel bond.Selector[VRow], want []VRow, what string, b ...bond.Batch) {
	var got []VRow
	noErr(t.ScanIndex(bg, idx, sel, &got, false, b...), what)
	sameV(got, want, what)
	got = nil
	noErr(t.ScanIndex(bg, idx, sel, &got, true, b...), what)
	sameV(got, vRev(want), what+" in reverse")
}

// check asserts that the table and its index hold exactly want, in key order.
func (t *stab) check(want []VRow, b ...bond.Batch) {
	var got []VRow
	noErr(t.Scan(bg, &got, false, b...), "scan")
	sameV(got, want, "scan")
	for i, r := range want {
		first := true
		for _, p := range want[:i] {
			if p.X == r.X {
				first = false
			}
		}
		if first {
			t.scan(t.idx, bond.NewSelectorPoint(VRow{X: r.X}), vKeep(want, func(x VRow) bool { return x.X == r.X }), "index scan", b...)
		}
	}
}

func vPut(rows []VRow, r VRow) []VRow {
	out := []VRow{}
	done := false
	for _, x := range rows {
		if !done && r.K <= x.K {
			out, done = append(out, r), true
		}
		if x.K != r.K {
			out = append(out, x)
		}
	}
	if !done {
		out = append(out, r)
	}
	return out
}

// step is one operation on the table and its model.
func (t *stab) step(op int, rows []VRow, lk, lx int, b ...bond.Batch) []VRow {
	in := drawV(lk, lx)
	has := len(vKeep(rows, func(r VRow) bool { return r.K == in.K })) > 0
	switch op {
	case 0:
		err := t.Insert(bg, []VRow{in}, b...)
		nd.Assert((err == nil) == !has, "insert succeeds exactly for a new key")
		if has {
			return rows
		}
		return vPut(rows, in)
	case 1:
		err := t.Update(bg, []VRow{in}, b...)
		nd.Assert((err == nil) == has, "update succeeds exactly for a known key")
		if !has {
			return rows
		}
		return vPut(rows, in)
	case 2:
		noErr(t.Upsert(bg, []VRow{in}, bond.TableUpsertOnConflictReplace[VRow], b...), "upsert")
		return vPut(rows, in)
	}
	if has {
		// entries are removed by what the given row says
		for _, r := range rows {
			if r.K == in.K {
				in = r
			}
		}
	}
	noErr(t.Delete(bg, []VRow{in}, b...), "delete")
	return vKeep(rows, func(r VRow) bool { return r.K != in.K })
}

// C05Str: one write to a table keyed by strings of up to two bytes.
func C05Str(n, op, lk int) {
	t := newStr()
	rows := t.step(op, t.seed(n, lk, 0), lk, 0)
	var got []VRow
	noErr(t.Scan(bg, &got, false), "scan")
	sameV(got, rows, "scan")
	p, q := drawStr(lk), drawStr(lk)
	find := func(k string) []VRow { return vKeep(rows, func(r VRow) bool { return r.K == k }) }
	w := find(p)
	nd.Assert(t.Exist(VRow{K: p}) == (len(w) == 1), "exist")
	x, err := t.GetPoint(bg, VRow{K: p})
	nd.Assert((err == nil) == (len(w) == 1), "get finds exactly the stored keys")
	if err == nil {
		nd.Assert(vEq(x, w[0]), "get returns the row")
	}
	got, err = t.Get(bg, bond.NewSelectorPoints(VRow{K: p}, VRow{K: q}))
	noErr(err, "get of points")
	nd.Assert(len(got) == 2, "a result for each point")
	for i, k := range []string{p, q} {
		if w := find(k); len(w) == 1 {
			nd.Assert(vEq(got[i], w[0]), "get of points returns the row")
		} else {
			nd.Assert(vEq(got[i], VRow{}), "no row for a missing point")
		}
	}
	t.w.end()
}

// C06Str: one write to a table with an index over strings.
func C06Str(n, op, lk, lx int) {
	t := newStr()
	t.check(t.step(op, t.seed(n, lk, lx), lk, lx))
	t.w.end()
}

// C07Str: point selectors over strings.
func C07Str(n, m, mode int) {
	t := newStr()
	rows := t.seed(n, 2, 1)
	var pts, want []VRow
	for i := 0; i < m; i++ {
		p := VRow{K: drawStr(2)}
		if mode < 2 {
			p.X = drawStr(1)
		}
		pts = append(pts, p)
		want = append(want, vKeep(rows, func(r VRow) bool {
			if mode < 2 {
				return r.X == p.X && r.K >= p.K
			}
			return r.K == p.K
		})...)
	}
	switch mode {
	case 0:
		t.scan(t.idx, bond.NewSelectorPoint(pts[0]), want, "point")
	case 1:
		t.scan(t.idx, bond.NewSelectorPoints(pts...), want, "points")
	case 2:
		t.scan(t.PrimaryIndex(), bond.NewSelectorPoints(pts...), want, "primary points")
	}
	t.w.end()
}

// C08Str: range selectors over strings; of the index within one value.
func C08Str(n, mode int) {
	t := newStr()
	rows := t.seed(n, 2, 1)
	lo, hi := VRow{K: drawStr(2)}, VRow{K: drawStr(2)}
	in := func(lo, hi VRow) []VRow {
		return vKeep(rows, func(r VRow) bool { return lo.K <= r.K && r.K <= hi.K && (mode == 0 || r.X == lo.X) })
	}
	switch mode {
	case 0:
		t.scan(t.PrimaryIndex(), bond.NewSelectorRange(lo, hi), in(lo, hi), "primary range")
		got, err := t.Get(bg, bond.NewSelectorRange(lo, hi))
		noErr(err, "get of a range")
		sameV(got, in(lo, hi), "get of a range")
	case 1:
		lo.X = drawStr(1)
		hi.X = lo.X
		t.scan(t.idx, bond.NewSelectorRange(lo, hi), in(lo, hi), "range")
	case 2:
		lo.X = drawStr(1)
		hi.X = lo.X
		lo2, hi2 := VRow{K: drawStr(1), X: lo.X}, VRow{K: drawStr(1), X: lo.X}
		t.scan(t.idx, bond.NewSelectorRanges([]VRow{lo, hi}, []VRow{lo2, hi2}), append(in(lo, hi), in(lo2, hi2)...), "ranges")
	}
	t.w.end()
}

// C10Str: a query over string keys continued after any of its rows.
func C10Str(n, mode, lim int) {
	t := newStr()
	rows := t.seed(n, 2, 1)
	q := t.Query()
	want := rows
	if mode&1 != 0 {
		x := drawStr(1)
		q = q.With(t.idx, bond.NewSelectorPoint(VRow{X: x}))
		want = vKeep(rows, func(r VRow) bool { return r.X == x })
	}
	if mode&2 != 0 {
		q = q.Reverse()
		want = vRev(want)
	}
	if mode&4 != 0 {
		less := func(x, y VRow) bool { return x.O > y.O }
		for i := range rows {
			for j := range rows[:i] {
				nd.Assume(rows[i].O != rows[j].O)
			}
		}
		q = q.Order(less)
		want = append([]VRow{}, want...)
		for i := 1; i < len(want); i++ {
			for j := i; j > 0 && less(want[j], want[j-1]); j-- {
				want[j], want[j-1] = want[j-1], want[j]
			}
		}
	}
	nd.Assume(len(want) > 0)
	k := nd.Choose(n)
	nd.Assume(k < len(want))
	left := want[k+1:]
	if lim > 0 {
		q = q.Limit(uint64(lim))
		if len(left) > lim {
			left = left[:lim]
		}
	}
	var got []VRow
	noErr(q.After(want[k]).Execute(bg, &got), "query after a row")
	sameV(got, left, "query after a row")
	t.w.end()
}

// C12Str: a batch over string keys sees its own writes, the table only after
// the commit.
func C12Str(n, o1, o2 int) {
	t := newStr()
	rows := t.seed(n, 1, 1)
	b := t.w.db.Batch(bond.BatchTypeReadWrite)
	m := t.step(o1, rows, 1, 1, b)
	m = t.step(o2, m, 1, 1, b)
	t.check(m, b)
	t.check(rows)
	noErr(b.Commit(bond.Sync), "commit")
	noErr(b.Close(), "close")
	t.check(m)
	t.w.end()
}
