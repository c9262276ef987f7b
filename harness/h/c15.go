package h

import (
	"errors"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/zzverif/env"
	"github.com/go-bond/bond/zzverif/nd"
)

func init() {
	Registry["C15Commit"] = C15Commit
	Registry["C15Retry"] = C15Retry
	Registry["C15Reset"] = C15Reset
	Registry["C15Apply"] = C15Apply
	Registry["C15Ids"] = C15Ids
}

var errCallback = errors.New("callback")

// events counts the callbacks of one batch.
type events struct {
	commit, committed, failed, closed []int
	order                             []byte
	fail                              int // index of the failing commit callback, or -1
	onCommit, onCommitted             func()
	err                               error
}

func (e *events) on(b bond.Batch, n int) {
	e.commit, e.committed, e.failed, e.closed = make([]int, n), make([]int, n), make([]int, n), make([]int, n)
	for i := 0; i < n; i++ {
		i := i
		b.OnCommit(func(x bond.Batch) error {
			nd.Assert(x == b, "callbacks get their batch")
			e.commit[i]++
			e.order = append(e.order, 'c', byte(i))
			if e.onCommit != nil {
				e.onCommit()
			}
			if e.fail == i {
				return errCallback
			}
			return nil
		})
		b.OnCommitted(func(x bond.Batch) {
			nd.Assert(x == b, "callbacks get their batch")
			e.committed[i]++
			e.order = append(e.order, 'd', byte(i))
			if e.onCommitted != nil {
				e.onCommitted()
			}
		})
		b.OnError(func(x bond.Batch, err error) {
			nd.Assert(x == b, "callbacks get their batch")
			e.failed[i]++
			e.err = err
			e.order = append(e.order, 'e', byte(i))
		})
		b.OnClose(func(x bond.Batch) {
			nd.Assert(x == b, "callbacks get their batch")
			e.closed[i]++
			e.order = append(e.order, 'z', byte(i))
		})
	}
}

func all(l []int, n int) bool {
	for _, x := range l {
		if x != n {
			return false
		}
	}
	return true
}

// settled asserts the events of one commit with the given outcome.
func (e *events) settled(err error, fault bool, times int) {
	switch {
	case e.fail >= 0:
		nd.Assert(errors.Is(err, errCallback), "an error of a commit callback is returned")
		nd.Assert(all(e.committed, 0), "no committed callback without a commit")
		nd.Assert(all(e.failed, 0), "error callbacks run only when the write fails")
		for i, n := range e.commit {
			if i < e.fail {
				nd.Assert(n == 1, "commit callbacks run up to the failing one")
			}
		}
		nd.Assert(e.commit[e.fail] == 1, "commit callbacks run up to the failing one")
		nd.Reach("prevented")
	case fault:
		nd.Assert(errors.Is(err, env.ErrInjected), "the error of the write is returned")
		nd.Assert(all(e.commit, 1), "every commit callback runs once")
		nd.Assert(all(e.committed, 0), "no committed callback without a commit")
		nd.Assert(all(e.failed, 1), "every error callback runs once")
		nd.Assert(errors.Is(e.err, env.ErrInjected), "error callbacks get the error")
		nd.Reach("failed")
	default:
		noErr(err, "commit")
		nd.Assert(all(e.commit, 1), "every commit callback runs once")
		nd.Assert(all(e.committed, times), "every committed callback runs once")
		nd.Assert(all(e.failed, 0), "error callbacks run only when the write fails")
		nd.Reach("committed")
	}
	nd.Assert(all(e.closed, 0), "close callbacks run at close")
}

// C15Commit: cb callbacks of each kind; any commit callback and the write may
// fail. via: 0 Commit, 1 DB.Apply.
func C15Commit(typ, cb, via int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	t.addIndexes(1)
	x := drawRow()
	b := w.db.Batch(bond.BatchType(typ))
	e := &events{fail: nd.Choose(cb+1) - 1}
	e.on(b, cb)
	e.onCommit = func() { nd.Assert(!t.Exist(x), "commit callbacks run before the write") }
	e.onCommitted = func() { nd.Assert(t.Exist(x), "committed callbacks run after the write") }
	noErr(t.Insert(bg, []Row{x}, b), "insert")
	nd.Assert(!b.Empty(), "a batch with content is not empty")
	nd.Assert(len(e.order) == 0, "no callback before its event")
	fault := nd.Bool()
	if fault {
		env.Arm(0, "w")
	}
	var err error
	if via == 0 {
		err = b.Commit(bond.Sync)
	} else {
		err = w.db.Apply(b, bond.NoSync)
	}
	env.Disarm()
	e.settled(err, fault, 1)
	nd.Assert(t.Exist(x) == (err == nil), "the batch is written exactly if the commit succeeds")
	for i := 0; i+3 < len(e.order); i += 2 {
		nd.Assert(e.order[i] < e.order[i+2] || e.order[i] == e.order[i+2] && e.order[i+1] < e.order[i+3], "callbacks run in the order of their registration, commit before the outcome")
	}
	noErr(b.Close(), "close")
	nd.Assert(all(e.closed, 1), "every close callback runs once")
	times := 0
	if err == nil {
		times = 1
	}
	nd.Assert(all(e.committed, times), "closing is not committing")
	w.end()
}

// C15Retry: a commit that failed is tried again.
func C15Retry(typ int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	x := drawRow()
	b := w.db.Batch(bond.BatchType(typ))
	e := &events{fail: -1}
	e.on(b, 2)
	noErr(t.Insert(bg, []Row{x}, b), "insert")
	env.Arm(0, "w")
	err := b.Commit(bond.Sync)
	env.Disarm()
	e.settled(err, true, 0)
	noErr(b.Commit(bond.Sync), "second commit")
	nd.Assert(t.Exist(x), "second commit writes")
	nd.Assert(nd.And(all(e.committed, 1), all(e.failed, 1)), "each outcome is reported once")
	noErr(b.Close(), "close")
	nd.Assert(all(e.closed, 1), "every close callback runs once")
	w.end()
}

// C15Reset: reset before or after a commit or its failure.
func C15Reset(typ, when int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	t.addIndexes(1)
	x, y := drawRow(), drawRow()
	nd.Assume(x.ID != y.ID)
	b := w.db.Batch(bond.BatchType(typ))
	e := &events{fail: -1}
	e.on(b, 2)
	id := b.ID()
	noErr(t.Insert(bg, []Row{x}, b), "insert")
	var want []Row
	switch when {
	case 1:
		noErr(b.Commit(bond.Sync), "commit")
		want = append(want, x)
	case 2:
		env.Arm(0, "w")
		nd.Assert(b.Commit(bond.Sync) != nil, "a failing commit")
		env.Disarm()
	}
	n := len(e.order)
	b.Reset()
	nd.Assert(b.Empty(), "a reset batch is empty")
	nd.Assert(b.ID() != id, "a reset batch has a new id")
	nd.Assert(b.Type() == bond.BatchType(typ), "a reset batch keeps its type")
	e2 := &events{fail: -1}
	if nd.Bool() {
		e2.on(b, 1)
	}
	noErr(t.Insert(bg, []Row{y}, b), "insert")
	if fault := nd.Bool(); fault {
		env.Arm(0, "w")
		nd.Assert(b.Commit(bond.Sync) != nil, "a failing commit")
		env.Disarm()
		nd.Assert(all(e2.failed, 1), "new callbacks run")
		nd.Assert(all(e2.committed, 0), "new callbacks run")
	} else {
		noErr(b.Commit(bond.Sync), "commit")
		want = append(want, y)
		nd.Assert(all(e2.commit, 1), "new callbacks run")
		nd.Assert(all(e2.committed, 1), "new callbacks run")
	}
	noErr(b.Close(), "close")
	nd.Assert(all(e2.closed, 1), "new callbacks run")
	nd.Assert(len(e.order) == n, "callbacks from before the reset never run")
	t.checkTable(want, 1)
	w.end()
}

// C15Apply: one batch applied to another.
func C15Apply(typ int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	x, y := drawRow(), drawRow()
	nd.Assume(x.ID != y.ID)
	b, c := w.db.Batch(bond.BatchType(typ)), w.db.Batch(bond.BatchType(typ))
	nd.Assert(b.ID() != c.ID(), "batches have different ids")
	e := &events{fail: nd.Choose(3) - 1}
	e.on(b, 2)
	noErr(t.Insert(bg, []Row{x}, b), "insert")
	noErr(t.Insert(bg, []Row{y}, c), "insert")
	fault := nd.Bool()
	if fault {
		env.Arm(0, "w")
	}
	err := c.Apply(b, bond.Sync)
	env.Disarm()
	e.settled(err, fault, 1)
	nd.Assert(!nd.Or(t.Exist(x), t.Exist(y)), "applying to a batch commits nothing")
	noErr(c.Commit(bond.Sync), "commit")
	nd.Assert(t.Exist(y), "the outer batch is written")
	nd.Assert(t.Exist(x) == (err == nil), "the inner batch is written exactly if it was applied")
	if err == nil {
		nd.Assert(all(e.committed, 1), "every committed callback runs once")
	}
	noErr(b.Close(), "close")
	noErr(c.Close(), "close")
	nd.Assert(all(e.closed, 1), "every close callback runs once")
	w.end()
}

// C15Ids: ids of batches and resets are all different, whatever the clock.
func C15Ids(k int) {
	w := newWorld(RowSer{})
	secs := make([]int64, k+1)
	for i := range secs {
		secs[i] = nd.I64()
		nd.Assume(nd.And(secs[i] > 1600000000, secs[i] < 1600000000+1<<31))
	}
	nd.PushClock(secs...)
	b := w.db.Batch(bond.BatchTypeWriteOnly)
	ids := []uint64{b.ID()}
	for i := 0; i < k; i++ {
		id := uint64(0)
		if nd.Bool() {
			b.Reset()
			id = b.ID()
		} else {
			c := w.db.Batch(bond.BatchTypeReadWrite)
			id = c.ID()
			noErr(c.Close(), "close")
		}
		for _, x := range ids {
			nd.Assert(x != id, "ids are never repeated")
		}
		ids = append(ids, id)
	}
	noErr(b.Close(), "close")
	w.end()
}
