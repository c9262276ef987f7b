package h

import (
	"github.com/go-bond/bond"
	"github.com/go-bond/bond/zzverif/nd"
)

func init() {
	Registry["C06Step"] = C06Step
	Registry["C06Seq"] = C06Seq
	Registry["C06Stale"] = C06Stale
	Registry["C06Batch"] = C06Batch
}

// entries counts everything stored under the index, dangling entries included.
func (t *Tab) entries(w *World, id bond.IndexID) int {
	n := 0
	it := w.db.Iter(&bond.IterOptions{})
	for it.First(); it.Valid(); it.Next() {
		k := bond.KeyBytes(it.Key())
		if k.TableID() == t.ID() && k.IndexID() == id {
			n++
		}
	}
	noErr(it.Close(), "raw iteration")
	return n
}

// checkRaw asserts that no index holds entries beyond the expected ones.
func (t *Tab) checkRaw(w *World, want []Row, which int) {
	if which&1 != 0 {
		nd.Assert(t.entries(w, idxAll) == len(want), "entries of the plain index")
	}
	if which&2 != 0 {
		nd.Assert(t.entries(w, idxPart) == len(filterRows(want, inPart)), "entries of the partial index")
	}
	if which&4 != 0 {
		nd.Assert(t.entries(w, idxOrd) == len(want), "entries of the order index")
	}
}

// C06Step: one call with m rows over n stored rows, all index shapes.
func C06Step(op, n, m, which int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	t.addIndexes(which)
	model := t.apply(op, t.seed(n), drawRows(m))
	t.checkTable(model, which)
	t.checkRaw(w, model, which)
	w.end()
}

// C06Seq: k calls of one row each.
func C06Seq(n, k, which int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	t.addIndexes(which)
	model := t.seed(n)
	for i := 0; i < k; i++ {
		op := nd.Choose(4)
		if op == 2 {
			op = 4
		}
		model = t.apply(op, model, drawRows(1))
	}
	t.checkTable(model, which)
	t.checkRaw(w, model, which)
	w.end()
}

// C06Batch: k calls of one row each through one batch.
func C06Batch(n, k, which, typ int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	t.addIndexes(which)
	model := t.seed(n)
	b := w.db.Batch(bond.BatchType(typ))
	var used []Row
	for i := 0; i < k; i++ {
		op := nd.Choose(4)
		if op == 2 {
			op = 4
		}
		in := drawRows(1)
		if typ == int(bond.BatchTypeWriteOnly) {
			// a write-only batch does not show its rows to later calls
			nd.Assume(!hasKey(used, in[0].ID))
			used = append(used, in...)
		}
		model = t.apply(op, model, in, b)
	}
	noErr(b.Commit(bond.Sync), "commit")
	noErr(b.Close(), "close")
	t.checkTable(model, which)
	t.checkRaw(w, model, which)
	w.end()
}

// C06Stale: deleting with a row that differs from the stored one.
func C06Stale() {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	t.addIndexes(1)
	model := t.seed(1)
	x := drawRow()
	nd.Assume(x.ID == model[0].ID)
	noErr(t.Delete(bg, []Row{x}), "delete")
	var got []Row
	err := t.ScanIndex(bg, t.all, bond.NewSelectorRange(rowMin, rowMax), &got, false)
	nd.Assert(err == nil && len(got) == 0, "no index entry survives the deletion of its row")
	w.end()
}
