package h

import (
	"context"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/zzverif/env"
	"github.com/go-bond/bond/zzverif/nd"
)

func init() {
	Registry["C13Fault"] = C13Fault
	Registry["C13Ctx"] = C13Ctx
	Registry["C13Batch"] = C13Batch
	Registry["C13Crash"] = C13Crash
	Registry["C13CrashBatch"] = C13CrashBatch
}

// C13Fault: one storage operation of the call (any, or none) fails.
func C13Fault(op, n, m, which int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	t.addIndexes(which)
	model := t.seed(n)
	in := drawRows(m)
	k := nd.Choose(3*m + 4)
	env.Arm(k, "")
	err := t.do(bg, op, model, in)
	fired := env.Disarm()
	out, bad := effect(op, model, in)
	if fired {
		nd.Reach("fault")
	}
	if err == nil {
		nd.Assert(!bad, "an invalid write fails")
		model = out
	} else {
		nd.Assert(bad || fired, "a valid write succeeds")
	}
	t.checkTable(model, which)
	t.checkRaw(w, model, which)
	w.end()
}

// ctxAt is a context that ends when it is asked for the k-th time.
type ctxAt struct {
	context.Context
	k    int
	open chan struct{}
	done chan struct{}
}

func newCtxAt(k int) *ctxAt {
	c := &ctxAt{bg, k, make(chan struct{}), make(chan struct{})}
	close(c.done)
	return c
}

func (c *ctxAt) Done() <-chan struct{} {
	c.k--
	if c.k < 0 {
		return c.done
	}
	return c.open
}

func (c *ctxAt) Err() error {
	if c.k < 0 {
		return context.Canceled
	}
	return nil
}

// C13Ctx: the context ends during the call.
func C13Ctx(op, n, m, which int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	t.addIndexes(which)
	model := t.seed(n)
	in := drawRows(m)
	c := newCtxAt(nd.Choose(m + 1))
	err := t.do(c, op, model, in)
	out, bad := effect(op, model, in)
	if err == nil {
		nd.Assert(!bad, "an invalid write fails")
		model = out
	} else {
		nd.Assert(bad || c.k < 0, "a valid write succeeds")
		if c.k < 0 {
			nd.Reach("ended")
		}
	}
	t.checkTable(model, which)
	t.checkRaw(w, model, which)
	w.end()
}

// C13Batch: k calls through a batch, a fault anywhere, also in the commit.
func C13Batch(typ, n, k, which int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	t.addIndexes(which)
	old := t.seed(n)
	model := old
	b := w.db.Batch(bond.BatchType(typ))
	env.Arm(nd.Choose(4*k+2), "")
	var err error
	var used []Row
	for i := 0; i < k && err == nil; i++ {
		op, in := anyOp(), drawRows(1)
		if typ == int(bond.BatchTypeWriteOnly) {
			nd.Assume(!hasKey(used, in[0].ID))
			used = append(used, in...)
		}
		if err = t.do(bg, op, model, in, b); err == nil {
			model, _ = effect(op, model, in)
		}
	}
	if err == nil {
		err = b.Commit(bond.Sync)
		if err != nil {
			nd.Reach("commit failed")
		}
	}
	env.Disarm()
	b.Close()
	if err != nil {
		model = old
	}
	t.checkTable(model, which)
	t.checkRaw(w, model, which)
	w.end()
}

// sameRows tells whether got is want, in key order.
func sameRows(got, want []Row) bool {
	if len(got) != len(want) {
		return false
	}
	eq := true
	for i, x := range sortRows(want, lessPK) {
		eq = nd.And(eq, rowEq(got[i], x))
	}
	return eq
}

// recovered reopens after a crash and asserts that the table is as it was
// before or after the interrupted call.
func recovered(w *World, which int, before, after []Row, interrupted bool) {
	w.crash()
	t := newTab(w, nil)
	t.addIndexes(which)
	var got []Row
	noErr(t.Scan(bg, &got, false), "scan after the restart")
	if interrupted {
		nd.Assert(nd.Or(sameRows(got, before), sameRows(got, after)), "the interrupted write is present in full or not at all, the earlier ones in full")
	} else {
		nd.Assert(sameRows(got, after), "completed writes are present in full")
	}
	t.checkTable(got, which)
	t.checkRaw(w, got, which)
	w.end()
}

// C13Crash: the process stops at some write to the storage during or after
// the second call.
func C13Crash(op, n, m, which int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	t.addIndexes(which)
	model := t.seed(n)
	model = t.apply(2, model, drawRows(1))
	in := drawRows(m)
	at := nd.Choose(m + 2)
	env.ArmCrash(at, func() { w.fs.SetIgnoreSyncs(true) })
	err := t.do(bg, op, model, in)
	hit := env.Crashed()
	env.DisarmCrash()
	out, bad := effect(op, model, in)
	nd.Assert((err != nil) == bad, "the write succeeds exactly if it is valid")
	if hit {
		nd.Reach("crash")
	} else {
		w.fs.SetIgnoreSyncs(true)
	}
	recovered(w, which, model, out, hit)
}

// C13CrashBatch: the same for the commit of a batch of k calls.
func C13CrashBatch(typ, n, k, which int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	t.addIndexes(which)
	old := t.seed(n)
	model := old
	b := w.db.Batch(bond.BatchType(typ))
	env.ArmCrash(nd.Choose(k+2), func() { w.fs.SetIgnoreSyncs(true) })
	for i := 0; i < k; i++ {
		in := drawRows(1)
		nd.Assume(!hasKey(old, in[0].ID) || i == 0)
		nd.Assume(i == 0 || in[0].ID > 3)
		if i == 0 {
			nd.Assume(in[0].ID <= 3)
		}
		noErr(t.do(bg, 2, model, in, b), "write")
		model, _ = effect(2, model, in)
	}
	noErr(b.Commit(bond.Sync), "commit")
	hit := env.Crashed()
	env.DisarmCrash()
	if !hit {
		w.fs.SetIgnoreSyncs(true)
	}
	b.Close()
	recovered(w, which, old, model, hit)
}
