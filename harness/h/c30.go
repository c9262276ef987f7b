package h

import (
	"errors"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/cond"
	"github.com/go-bond/bond/zzverif/nd"
)

func init() {
	Registry["C30Writers"] = C30Writers
	Registry["C30Reader"] = C30Reader
	Registry["C30ScanDelete"] = C30ScanDelete
	Registry["C30Index"] = C30Index
}

// rowFor draws a row for one call: with the key of old, or, to insert, with a
// key that is not stored.
func rowFor(op int, model []Row, old Row) Row {
	r := drawRow()
	if op == 0 {
		nd.Assume(!hasKey(model, r.ID))
	} else {
		r.ID = old.ID
	}
	return r
}

func pick30(rows []Row, i int) Row {
	if len(rows) == 0 {
		return Row{}
	}
	return rows[i]
}

func interleave(kind, preempt int) {
	if kind == 0 {
		nd.Interleave(preempt)
	} else {
		nd.InterleaveOps(preempt)
	}
}

// C30Writers: two goroutines write one row each, of different keys.
//
// kind 0 preempts at any statement of the code under test, kind 1 at storage
// operations.
func C30Writers(kind, preempt, opA, opB, n, which int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	t.addIndexes(which)
	model := t.seed(n)
	ops := [2]int{opA, opB}
	in := [2]Row{rowFor(opA, model, pick30(model, 0)), rowFor(opB, model, pick30(model, n-1))}
	nd.Assume(in[0].ID != in[1].ID)
	if opA == opB {
		nd.Assume(in[0].ID < in[1].ID)
	}
	want := model
	for i, op := range ops {
		var bad bool
		want, bad = effect(op, want, in[i:i+1])
		nd.Assert(!bad, "harness: the call is allowed")
	}
	done := 0
	for i := range ops {
		i := i
		nd.Go(func() {
			noErr(t.do(bg, ops[i], model, in[i:i+1]), "write")
			done++
		})
	}
	interleave(kind, preempt)
	nd.Join()
	nd.Interleave(-1)
	nd.Assert(done == 2, "both calls return")
	t.checkTable(want, which)
	t.checkRaw(w, want, which)
	w.end()
}

// equalRows tells whether got holds the rows of want.
func equalRows(got, want []Row) bool {
	if len(got) != len(want) {
		return false
	}
	ok := true
	for _, x := range want {
		in := false
		for _, y := range got {
			in = nd.Or(in, rowEq(x, y))
		}
		ok = nd.And(ok, in)
	}
	return ok
}

func storedRow(before, after []Row, r Row) bool {
	in := false
	for _, x := range before {
		in = nd.Or(in, rowEq(x, r))
	}
	for _, x := range after {
		in = nd.Or(in, rowEq(x, r))
	}
	return in
}

// gone30 tells whether an index scan met the entry of a row that was deleted
// before it was read (known finding F-scan-deleted, see C30ScanDelete).
func gone30(err error, op int) bool { return op == 3 && errors.Is(err, bond.ErrNotFound) }

// C30ScanDelete: a row is deleted while an index scan visits it.
func C30ScanDelete(preempt int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	t.addIndexes(1)
	before := t.seed(1)
	var err error
	nd.Go(func() { noErr(t.Delete(bg, before), "delete") })
	nd.Go(func() {
		var got []Row
		err = t.ScanIndex(bg, t.all, bond.NewSelectorRange(rowMin, rowMax), &got, false)
	})
	nd.InterleaveOps(preempt)
	nd.Join()
	nd.Interleave(-1)
	nd.Assert(err == nil, "an index scan succeeds while a row is deleted")
	w.end()
}

// C30Reader: one goroutine writes a row, another reads.
func C30Reader(kind, preempt, op, read, which int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	t.addIndexes(which)
	before := t.seed(2)
	in := rowFor(op, before, before[nd.Choose(2)])
	after, bad := effect(op, before, []Row{in})
	nd.Assert(!bad, "harness: the call is allowed")
	done := 0
	nd.Go(func() {
		noErr(t.do(bg, op, before, []Row{in}), "write")
		done++
	})
	nd.Go(func() {
		switch read {
		case 0:
			got, err := t.Get(bg, bond.NewSelectorPoint(in))
			nd.Assert(err == nil || errors.Is(err, bond.ErrNotFound), "get succeeds")
			if err == nil {
				nd.Assert(len(got) == 1, "get returns one row")
				nd.Assert(storedRow(before, after, got[0]), "get returns a stored row")
				nd.Assert(got[0].ID == in.ID, "get returns the row of the key")
			} else {
				nd.Assert(nd.Or(!hasKey(before, in.ID), !hasKey(after, in.ID)), "a stored row is found")
			}
		case 1:
			got, err := t.Get(bg, bond.NewSelectorRange(rowMin, rowMax))
			noErr(err, "get of a range")
			nd.Assert(nd.Or(equalRows(got, before), equalRows(got, after)), "a range read returns the rows before or after a write")
			ordered(got, lessPK, "range read")
		case 2:
			var got []Row
			err := t.ScanIndex(bg, t.all, bond.NewSelectorRange(rowMin, rowMax), &got, false)
			if !gone30(err, op) {
				noErr(err, "index scan")
			}
			for _, r := range got {
				nd.Assert(storedRow(before, after, r), "index scan returns stored rows")
			}
		case 3:
			var got []Row
			err := t.Query().With(t.all, bond.NewSelectorRange(rowMin, rowMax)).Filter(cond.Func(inPart)).Execute(bg, &got)
			if !gone30(err, op) {
				noErr(err, "query")
			}
			for _, r := range got {
				nd.Assert(storedRow(before, after, r), "query returns stored rows")
			}
		case 4:
			got := t.Exist(in)
			nd.Assert(nd.Or(got == hasKey(before, in.ID), got == hasKey(after, in.ID)), "exist tells what was stored")
		case 5:
			got, err := t.Get(bg, bond.NewSelectorPoints(before[0], in))
			noErr(err, "get of points")
			nd.Assert(len(got) == 2, "get of points returns one row per point")
			for _, r := range got {
				nd.Assert(nd.Or(storedRow(before, after, r), rowEq(r, Row{})), "get of points returns stored rows")
			}
		}
		done++
	})
	interleave(kind, preempt)
	nd.Join()
	nd.Interleave(-1)
	nd.Assert(done == 2, "both calls return")
	t.checkTable(after, which)
	t.checkRaw(w, after, which)
	w.end()
}

// C30Index: a goroutine declares an index while another writes; once both are
// done the index is built.
func C30Index(kind, preempt, op int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	t.addIndexes(1)
	before := t.seed(2)
	in := rowFor(op, before, before[0])
	after, _ := effect(op, before, []Row{in})
	done := 0
	nd.Go(func() {
		noErr(t.do(bg, op, before, []Row{in}), "write")
		done++
	})
	nd.Go(func() {
		noErr(t.AddIndex(t.list(2)), "add index")
		done++
	})
	interleave(kind, preempt)
	nd.Join()
	nd.Interleave(-1)
	nd.Assert(done == 2, "both calls return")
	noErr(t.ReIndex(t.list(2)), "reindex")
	t.checkTable(after, 3)
	t.checkRaw(w, after, 3)
	w.end()
}
