package h

import (
	"bytes"
	"context"
	"errors"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/zzverif/nd"
)

func init() {
	Registry["C28Sync"] = C28Sync
	Registry["C28Table"] = C28Table
	Registry["C28Context"] = C28Context
}

var errOwn = [3]error{errors.New("0"), errors.New("1"), errors.New("2")}

func value28(b bond.Batch, k []byte) uint8 {
	v, c, err := b.Get(k)
	if err != nil {
		return 0
	}
	x := v[0]
	noErr(c.Close(), "close of the value")
	return x
}

// guard runs f and tells whether it panicked.
func guard(f func()) (panicked bool) {
	defer func() {
		if x := recover(); x != nil {
			if x != errStop {
				panic(x)
			}
			panicked = true
		}
	}()
	f()
	return false
}

// C28Sync: several users count in one batch; each succeeds, fails or panics.
// Half of them find the batch in a context.
func C28Sync(preempt, users, calls int) {
	w := newWorld(RowSer{})
	b := w.db.Batch(bond.BatchTypeReadWrite)
	s := bond.NewSyncBatch(b)
	ctx := bond.ContextWithSyncBatch(bg, s)
	key := bond.KeyEncode(bond.Key{TableID: 1, PrimaryKey: []byte{1}})
	busy, done := 0, 0
	for u := 0; u < users; u++ {
		u := u
		how := nd.Choose(3)
		nd.Go(func() {
			for i := 0; i < calls; i++ {
				var err error
				sb := s
				if u == 1 {
					sb = bond.ContextRetrieveSyncBatch(ctx)
				}
				p := guard(func() {
					err = sb.WithSync(func(x bond.Batch) error {
						nd.Assert(busy == 0, "functions run through a synchronised batch do not overlap")
						busy++
						nd.Assert(x == b, "the function gets the batch")
						n := value28(x, key)
						nd.P()
						noErr(x.Set(key, []byte{n + 1}, bond.Sync), "set")
						nd.P()
						busy--
						switch how {
						case 1:
							return errOwn[u]
						case 2:
							panic(errStop)
						}
						return nil
					})
				})
				nd.Assert(p == (how == 2), "a panic reaches its own caller")
				if !p {
					if how == 0 {
						nd.Assert(err == nil, "no error of somebody else is returned")
					} else {
						nd.Assert(err == errOwn[u], "an error is returned to its own caller")
					}
				}
				nd.P()
			}
			done++
		})
	}
	nd.Interleave(preempt)
	nd.Join()
	nd.Interleave(-1)
	nd.Assert(done == users, "nobody is blocked")
	nd.Assert(int(value28(b, key)) == users*calls, "no effect is lost")
	noErr(b.Commit(bond.Sync), "commit")
	noErr(b.Close(), "close")
	v, c, err := w.db.Get(key)
	nd.Assert(err == nil && int(v[0]) == users*calls, "the effects are committed")
	noErr(c.Close(), "close of the value")
	w.end()
}

// C28Table: two users insert a row each through one batch.
func C28Table(preempt, op int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	t.addIndexes(1)
	b := w.db.Batch(bond.BatchTypeReadWrite)
	s := bond.NewSyncBatch(b)
	in := drawRows(2)
	nd.Assume(in[0].ID < in[1].ID)
	for u := 0; u < 2; u++ {
		u := u
		nd.Go(func() {
			err := s.WithSync(func(x bond.Batch) error {
				return t.do(bg, op, nil, in[u:u+1], x)
			})
			noErr(err, "write")
		})
	}
	nd.Interleave(preempt)
	nd.Join()
	nd.Interleave(-1)
	noErr(b.Commit(bond.Sync), "commit")
	noErr(b.Close(), "close")
	t.checkTable(in, 1)
	t.checkRaw(w, in, 1)
	w.end()
}

type otherKey struct{}

// C28Context: the batch last put into a context is found, whatever else the
// context carries, and contexts derived from one another keep their own.
func C28Context() {
	w := newWorld(RowSer{})
	x, y := w.db.Batch(bond.BatchTypeReadWrite), w.db.Batch(bond.BatchTypeWriteOnly)
	s, u := bond.NewSyncBatch(x), bond.NewSyncBatch(y)
	nd.Assert(bond.ContextRetrieveBatch(bg) == nil && bond.ContextRetrieveSyncBatch(bg) == nil, "a plain context carries no batch")
	var ctxs []context.Context
	var bs []bond.Batch
	var ss []*bond.SyncBatch
	ctx, b, sb := bg, bond.Batch(nil), (*bond.SyncBatch)(nil)
	for i := 0; i < 4; i++ {
		switch nd.Choose(5) {
		case 0:
			ctx, b = bond.ContextWithBatch(ctx, x), x
		case 1:
			ctx, b = bond.ContextWithBatch(ctx, y), y
		case 2:
			ctx, sb = bond.ContextWithSyncBatch(ctx, s), s
		case 3:
			ctx, sb = bond.ContextWithSyncBatch(ctx, u), u
		default:
			ctx = context.WithValue(ctx, otherKey{}, i)
		}
		ctxs, bs, ss = append(ctxs, ctx), append(bs, b), append(ss, sb)
	}
	for i, c := range ctxs {
		nd.Assert(bond.ContextRetrieveBatch(c) == bs[i], "the batch of the context is retrieved")
		nd.Assert(bond.ContextRetrieveSyncBatch(c) == ss[i], "the synchronised batch of the context is retrieved")
	}
	k := bond.KeyEncode(bond.Key{TableID: 1, PrimaryKey: []byte{1}})
	noErr(s.WithSync(func(b bond.Batch) error { return b.Set(k, []byte{1}, bond.Sync) }), "set")
	nd.Assert(!x.Empty() && y.Empty() && bytes.Equal([]byte{1}, []byte{value28(x, k)}), "the write is in the batch it was made through")
	x.Close()
	y.Close()
	w.end()
}
