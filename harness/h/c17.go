package h

import (
	"bytes"
	"context"
	"errors"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/zzverif/env"
	"github.com/go-bond/bond/zzverif/nd"
)

func init() {
	Registry["C17Step"] = C17Step
	Registry["C17Batch"] = C17Batch
	Registry["C17Unsafe"] = C17Unsafe
	Registry["C17Init"] = C17Init
	Registry["C17InitFault"] = C17InitFault
	Registry["C17InitCon"] = C17InitCon
	Registry["C17Stale"] = C17Stale
}

// advFilter is the weakest filter the contract allows: maybe for keys it was
// given, anything for the others.
type advFilter struct {
	keys     [][]byte
	exact    bool // deny what was not given
	log      []string
	loadErr  error
	clearErr error
	saved    [][]byte
	during   func() // called while the filter is loaded, cleared or filled
}

func (f *advFilter) now() {
	if f.during != nil {
		f.during()
	}
}

func (f *advFilter) has(key []byte) bool {
	r := false
	for _, k := range f.keys {
		r = nd.Or(r, bytes.Equal(k, key))
	}
	return r
}

func (f *advFilter) Add(_ context.Context, key []byte) {
	f.now()
	f.keys = append(f.keys, append([]byte{}, key...))
}

func (f *advFilter) MayContain(_ context.Context, key []byte) bool {
	maybe := f.has(key)
	if !f.exact {
		maybe = nd.Or(maybe, nd.Bool())
	}
	if !maybe {
		nd.Reach("denied")
		return false
	}
	return true
}

func (f *advFilter) Load(_ context.Context, _ bond.FilterStorer) error {
	f.log = append(f.log, "load")
	f.now()
	if f.loadErr == nil {
		f.keys = append(f.keys, f.saved...)
	}
	return f.loadErr
}

func (f *advFilter) Save(_ context.Context, _ bond.FilterStorer) error {
	f.log = append(f.log, "save")
	f.saved = append([][]byte{}, f.keys...)
	return nil
}

func (f *advFilter) Clear(_ context.Context, _ bond.FilterStorer) error {
	f.log = append(f.log, "clear")
	f.now()
	return f.clearErr
}

// anyPoint asserts one of the point reads of key id.
func (t *Tab) anyPoint(rows []Row, id uint8, what string, batch ...bond.Batch) {
	var want Row
	for _, x := range rows {
		if x.ID == id {
			want = x
		}
	}
	has := hasKey(rows, id)
	q := Row{ID: id}
	switch nd.Choose(3) {
	case 0:
		nd.Assert(t.Exist(q, batch...) == has, what+": Exist")
	case 1:
		r, err := t.GetPoint(bg, q, batch...)
		if has {
			noErr(err, what+": GetPoint")
			nd.Assert(rowEq(r, want), what+": GetPoint")
		} else {
			nd.Assert(errors.Is(err, bond.ErrNotFound), what+": GetPoint of a missing key")
		}
	default:
		rs, err := t.Get(bg, bond.NewSelectorPoints(q, Row{ID: id ^ 1}), batch...)
		noErr(err, what+": Get of points")
		nd.Assert(len(rs) == 2 && rowEq(rs[0], want), what+": Get of points")
	}
}

// C17Step: writes and reads of a table with any filter.
func C17Step(op, n, m, which int) {
	w := newWorld(RowSer{})
	adv := &advFilter{exact: true}
	t := newTab(w, adv)
	t.addIndexes(which)
	model := t.seed(n)
	adv.exact = false
	model = t.apply(op, model, drawRows(m))
	if nd.Choose(2) == 0 {
		t.checkTable(model, which)
	} else {
		t.anyPoint(model, nd.U8(), "with a filter")
	}
	w.end()
}

// C17Batch: writes through a batch, read through it, beside it and after the
// commit or close.
func C17Batch(n, k, fin int) {
	w := newWorld(RowSer{})
	adv := &advFilter{exact: true}
	t := newTab(w, adv)
	t.addIndexes(1)
	old := t.seed(n)
	adv.exact = false
	b := w.db.Batch(bond.BatchTypeReadWrite)
	model := old
	for i := 0; i < k; i++ {
		model = t.apply(anyOp(), model, drawRows(1), b)
	}
	id := nd.U8()
	part := nd.Choose(4)
	switch part {
	case 0:
		t.anyPoint(model, id, "through the batch", b)
	case 1:
		t.anyPoint(old, id, "beside the batch")
	}
	if fin == 0 {
		noErr(b.Commit(bond.Sync), "commit")
		old = model
	}
	noErr(b.Close(), "close")
	switch part {
	case 2:
		t.anyPoint(old, id, "after the batch")
	case 3:
		t.checkTable(old, 1)
	}
	w.end()
}

// C17Unsafe: unchecked writes, directly or through a batch.
func C17Unsafe(op, n, m, batch int) {
	w := newWorld(RowSer{})
	adv := &advFilter{exact: true}
	t := newTab(w, adv)
	t.addIndexes(1)
	model := t.seed(n)
	adv.exact = false
	var b []bond.Batch
	if batch > 0 {
		b = append(b, w.db.Batch(bond.BatchType(batch-1)))
	}
	if op == 0 {
		in := drawRows(m)
		for i, x := range in {
			nd.Assume(!hasKey(model, x.ID))
			nd.Assume(!hasKey(in[:i], x.ID))
		}
		noErr(t.Table.(bond.TableUnsafeInserter[Row]).UnsafeInsert(bg, in, b...), "unsafe insert")
		model = append(model, in...)
	} else {
		x := drawRow()
		x.ID = model[0].ID
		noErr(t.Table.(bond.TableUnsafeUpdater[Row]).UnsafeUpdate(bg, []Row{x}, []Row{model[0]}, b...), "unsafe update")
		model = put(model, x)
	}
	if batch > 0 {
		noErr(b[0].Commit(bond.Sync), "commit")
		noErr(b[0].Close(), "close")
	}
	if nd.Choose(2) == 0 {
		t.checkTable(model, 1)
	} else {
		t.anyPoint(model, nd.U8(), "with a filter")
	}
	w.end()
}

var errFilter = errors.New("filter")

// C17Init: rows stored before the filter exists; the saved filter cannot be
// loaded (or is complete), then the filter is initialised over two tables.
func C17Init(n, m, load int) {
	w := newWorld(RowSer{})
	t0 := newTabID(w, 7, nil)
	u0 := newTabID(w, 8, nil)
	rows := t0.seed(n)
	other := u0.seed(m)
	inner := &advFilter{exact: true, loadErr: errFilter}
	if load == 1 {
		inner.loadErr = nil
		for _, r := range rows {
			inner.saved = append(inner.saved, dataKey(7, r))
		}
		for _, r := range other {
			inner.saved = append(inner.saved, dataKey(8, r))
		}
	}
	f := &bond.FilterInitializable{Filter: inner}
	t, u := newTabID(w, 7, f), newTabID(w, 8, f)
	id := nd.U8()
	part := nd.Choose(4)
	nd.Assert(f.MayContain(bg, nd.Bytes(6)), "maybe before the initialisation")
	if part == 0 {
		t.anyPoint(rows, id, "before the initialisation")
	}
	nd.Assert(f.Save(bg, w.db) != nil, "a filter that is not initialised is not saved")
	some := nd.Bytes(3)
	inner.during = func() { nd.Assert(f.MayContain(bg, some), "maybe during the initialisation") }
	noErr(f.Initialize(bg, w.db, []bond.TableScanner[any]{bond.TableAnyScanner[Row](t.Table), bond.TableAnyScanner[Row](u.Table)}), "initialisation")
	inner.during = nil
	for _, r := range rows {
		nd.Assert(inner.has(dataKey(7, r)), "every stored key is given to the filter")
	}
	for _, r := range other {
		nd.Assert(inner.has(dataKey(8, r)), "every stored key of every table is given to the filter")
	}
	noErr(f.Save(bg, w.db), "save")
	switch part {
	case 1:
		t.anyPoint(rows, id, "after the initialisation")
	case 2:
		u.anyPoint(other, id, "after the initialisation")
	case 3:
		rows = t.apply(anyOp(), rows, drawRows(1))
		t.anyPoint(rows, id, "after a write")
	}
	w.end()
}

// dataKey is the stored key of a row.
func dataKey(table bond.TableID, r Row) []byte {
	return bond.KeyEncode(bond.Key{TableID: table, IndexID: bond.PrimaryIndexID, Index: []byte{}, IndexOrder: []byte{},
		PrimaryKey: bond.NewKeyBuilder(nil).AddByteField(r.ID).Bytes()})
}

// C17InitFault: the initialisation fails; the filter keeps answering maybe.
func C17InitFault(n, kind int) {
	w := newWorld(RowSer{})
	rows := newTab(w, nil).seed(n)
	inner := &advFilter{exact: true, loadErr: errFilter}
	f := &bond.FilterInitializable{Filter: inner}
	inner.during = func() { nd.Assert(f.MayContain(bg, dataKey(tableID, Row{ID: 1})), "maybe during the initialisation") }
	t := newTab(w, f)
	fired := false
	if kind == 0 {
		inner.clearErr = errFilter
		fired = true
	} else {
		env.Arm(nd.Choose(n+4), "r")
	}
	err := f.Initialize(bg, w.db, []bond.TableScanner[any]{bond.TableAnyScanner[Row](t.Table)})
	inner.during = nil
	fired = env.Disarm() || fired
	if fired {
		nd.Reach("fault")
		nd.Assert(err != nil, "a failed initialisation is an error")
	} else {
		noErr(err, "initialisation")
	}
	t.anyPoint(rows, nd.U8(), "after the initialisation")
	t.apply(anyOp(), rows, drawRows(1))
	w.end()
}

// C17InitCon: rows are written while the filter is initialised.
func C17InitCon(preempt, n, op int) {
	w := newWorld(RowSer{})
	rows := newTab(w, nil).seed(n)
	inner := &advFilter{exact: true, loadErr: errFilter}
	f := &bond.FilterInitializable{Filter: inner}
	t := newTab(w, f)
	in := drawRows(1)
	nd.Assume(!hasKey(rows, in[0].ID))
	var e1, e2 error
	nd.Go(func() {
		e1 = f.Initialize(bg, w.db, []bond.TableScanner[any]{bond.TableAnyScanner[Row](t.Table)})
	})
	stored := rows
	nd.Go(func() {
		if op == 5 {
			r, err := t.GetPoint(bg, stored[0])
			noErr(err, "read during the initialisation")
			nd.Assert(rowEq(r, stored[0]), "read during the initialisation")
			nd.Assert(t.Exist(stored[0]), "read during the initialisation")
			in = nil
			return
		}
		e2 = t.do(bg, op, rows, in)
	})
	nd.InterleaveOps(preempt)
	nd.Join()
	nd.Interleave(-1)
	noErr(e1, "initialisation")
	if op < 5 {
		noErr(e2, opNames[op])
		rows, _ = effect(op, rows, in)
	}
	for _, r := range rows {
		nd.Assert(inner.has(dataKey(tableID, r)), "every stored key is given to the filter")
	}
	t.anyPoint(rows, nd.U8(), "after the initialisation")
	w.end()
}

// C17Stale: a filter saved earlier loads although rows were written since.
func C17Stale() {
	w := newWorld(RowSer{})
	inner := &advFilter{exact: true, loadErr: errFilter}
	f := &bond.FilterInitializable{Filter: inner}
	t := newTab(w, f)
	must(f.Initialize(bg, w.db, []bond.TableScanner[any]{bond.TableAnyScanner[Row](t.Table)}))
	must(f.Save(bg, w.db))
	rows := t.seed(1)
	w.crash() // no Save at the end
	again := &advFilter{exact: true, saved: inner.saved}
	g := &bond.FilterInitializable{Filter: again}
	t = newTab(w, g)
	must(g.Initialize(bg, w.db, []bond.TableScanner[any]{bond.TableAnyScanner[Row](t.Table)}))
	nd.Assert(again.has(dataKey(tableID, rows[0])), "a filter saved before the last writes is not trusted")
	w.end()
}
