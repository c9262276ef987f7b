package h

import (
	"bytes"
	"os"
	"path/filepath"
	"strconv"

	"github.com/cockroachdb/pebble"
	"github.com/go-bond/bond"
	"github.com/go-bond/bond/zzverif/env"
	"github.com/go-bond/bond/zzverif/nd"
)

func init() {
	Registry["C21Reopen"] = C21Reopen
	Registry["C21Data"] = C21Data
	Registry["C21Format"] = C21Format
	Registry["C21Migrate"] = C21Migrate
	Registry["C21Fault"] = C21Fault
	Registry["C21Locked"] = C21Locked
}

func versionKey() []byte {
	return bond.KeyEncode(bond.Key{
		TableID: bond.BOND_DB_DATA_TABLE_ID, PrimaryKey: []byte("__bond_db_data_version__"),
	})
}

func (w *World) versionFile() string { return filepath.Join(w.dir, "bond", bond.PebbleFormatFile) }

// tryOpen opens the database again; on failure it stays closed.
func (w *World) tryOpen() bool {
	db, err := bond.Open(w.dir, w.opts())
	nd.Assert((err == nil) == (db != nil), "Open returns a database or an error")
	if err != nil {
		return false
	}
	w.db = db
	cleanups = append(cleanups, func() {
		if w.db == db {
			db.Close()
		}
	})
	return true
}

// raw gives direct access to the closed database: it must not be locked.
func (w *World) raw(f func(*pebble.DB)) {
	o := w.opts().PebbleOptions
	o.Comparer = bond.DefaultKeyComparer()
	p, err := pebble.Open(w.dir, o)
	nd.Assert(err == nil, "a database that was refused is not left locked")
	f(p)
	nd.Assert(p.Close() == nil, "the storage closes cleanly")
}

func (w *World) rawDump() []entry {
	var out []entry
	w.raw(func(p *pebble.DB) {
		it, err := p.NewIter(nil)
		must(err)
		for it.First(); it.Valid(); it.Next() {
			out = append(out, entry{append([]byte{}, it.Key()...), append([]byte{}, it.Value()...)})
		}
		must(it.Close())
	})
	return out
}

func (w *World) shut() {
	err := w.db.Close()
	w.db = nil
	noErr(err, "close")
}

// C21Reopen: writes of any kind, synced or not, survive closing and opening;
// the close callbacks run once, in order, while the database is usable.
func C21Reopen(op, n, m, which int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	t.addIndexes(which)
	model := t.seed(n)
	model = t.apply(op, model, drawRows(m))
	b := w.db.Batch(bond.BatchTypeReadWrite)
	r := drawRows(1)
	noErr(t.do(bg, 3, model, r, b), "upsert")
	sync := bond.WriteOptions{Sync: nd.Bool()}
	noErr(b.Commit(sync), "commit")
	noErr(b.Close(), "close of the batch")
	model, _ = effect(3, model, r)
	calls := 0
	for i := 0; i < 2; i++ {
		i := i
		w.db.OnClose(func(db bond.DB) {
			nd.Assert(calls == i, "close callbacks run once and in order")
			calls++
			_, c, err := db.Get(versionKey())
			nd.Assert(err == nil, "the database is usable in close callbacks")
			noErr(c.Close(), "close of the value")
		})
	}
	before := w.dump(0)
	w.shut()
	nd.Assert(calls == 2, "close callbacks run")
	w.open()
	sameDump(w.dump(0), before, "the reopened database")
	t = newTab(w, nil)
	t.addIndexes(which)
	t.checkTable(model, which)
	t.checkRaw(w, model, which)
	w.end()
}

// C21Data: the recorded data version is any text of the given length.
func C21Data(n, l int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	model := t.seed(n)
	v := nd.Bytes(l)
	x, err := strconv.ParseInt(string(v), 10, 32)
	nd.Assume(err != nil || x != 0)
	noErr(w.db.Set(versionKey(), v, bond.Sync), "set")
	before := w.dump(0)
	w.shut()
	if w.tryOpen() {
		nd.Assert(err == nil && x == bond.BOND_DB_DATA_VERSION, "a database of another data version is refused")
		nd.Reach("same version")
	} else {
		nd.Assert(err != nil || x != bond.BOND_DB_DATA_VERSION, "a database of the same data version opens")
		nd.Reach("refused")
		sameDump(w.rawDump(), before, "the refused database")
		w.raw(func(p *pebble.DB) { must(p.Set(versionKey(), []byte("1"), pebble.Sync)) })
		w.open()
	}
	t = newTab(w, nil)
	t.checkTable(model, 0)
	w.end()
}

var formats = []pebble.FormatMajorVersion{
	pebble.FormatPrePebblev1MarkedCompacted, pebble.FormatDeleteSizedAndObsolete, pebble.FormatVirtualSSTables,
}

// C21Format: the recorded storage format is any text of the given length, -1:
// missing; the requested one is one of three.
func C21Format(n, l int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	model := t.seed(n)
	before := w.dump(0)
	w.shut()
	have := w.format
	w.format = formats[nd.Choose(3)]
	var v []byte
	ok := true
	if l >= 0 {
		v = nd.Bytes(l)
		must(os.WriteFile(w.versionFile(), v, os.ModePerm))
		x, err := strconv.ParseUint(string(v), 10, 64)
		ok = err == nil && x == uint64(w.format)
	} else {
		must(os.Remove(w.versionFile()))
	}
	if w.tryOpen() {
		nd.Assert(ok, "a database of another storage format is refused")
		sameDump(w.dump(0), before, "the opened database")
		t = newTab(w, nil)
		t.checkTable(model, 0)
		nd.Reach("opened")
		if l < 0 {
			f, err := os.ReadFile(w.versionFile())
			nd.Assert(err == nil && string(f) == strconv.Itoa(int(w.format)), "the format is recorded")
		}
		w.end()
		return
	}
	nd.Assert(!ok, "a database of the requested storage format opens")
	nd.Reach("refused")
	f, err := os.ReadFile(w.versionFile())
	nd.Assert(err == nil && bytes.Equal(f, v), "a refused database keeps its recorded format")
	w.format = have
	w.raw(func(p *pebble.DB) {
		nd.Assert(p.FormatMajorVersion() == have, "a refused database keeps its storage format")
	})
	sameDump(w.rawDump(), before, "the refused database")
	nd.Reach("end")
}

// C21Migrate: the recorded format may be damaged before (l bytes, -1: intact).
func C21Migrate(n, which, l int) {
	i := nd.Choose(3)
	w := makeWorldAt(RowSer{}, true, formats[i])
	t := newTab(w, nil)
	t.addIndexes(which)
	model := t.seed(n)
	before := w.dump(0)
	w.shut()
	if l >= 0 {
		must(os.WriteFile(w.versionFile(), nd.Bytes(l), os.ModePerm))
	}
	j := nd.Choose(3)
	nd.Assume(i <= j)
	noErr(bond.MigratePebbleFormatVersion(w.dir, uint64(formats[j])), "migration")
	f, err := bond.PebbleFormatVersion(w.dir)
	nd.Assert(err == nil && f == uint64(formats[j]), "the migrated format is reported")
	k := nd.Choose(3)
	w.format = formats[k]
	if k == j {
		w.open()
		nd.Assert(w.db.Backend().FormatMajorVersion() == formats[j], "the storage has the new format")
		sameDump(w.dump(0), before, "the migrated database")
		t = newTab(w, nil)
		t.addIndexes(which)
		t.checkTable(model, which)
		w.end()
		return
	}
	nd.Assert(!w.tryOpen(), "another format is refused after the migration")
	w.format = formats[j]
	nd.Assert(w.tryOpen(), "the new format opens")
	w.end()
}

// C21Fault: the recorded data version is v; a storage operation during Open
// fails.
func C21Fault(v, n int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	model := t.seed(n)
	if v > 0 {
		noErr(w.db.Set(versionKey(), []byte{'0' + byte(v)}, bond.Sync), "set")
	} else {
		noErr(w.db.Delete(versionKey(), bond.Sync), "delete")
	}
	before := w.dump(0)
	w.shut()
	env.Arm(nd.Choose(3), "")
	ok := w.tryOpen()
	fired := env.Disarm()
	if !ok {
		nd.Assert(fired || v > 1, "Open succeeds without a fault")
		sameDump(w.rawDump(), before, "a database that could not be opened")
		nd.Reach("failed")
		if v > 1 {
			nd.Assert(!w.tryOpen(), "a database of another data version is refused")
			nd.Reach("end")
			return
		}
		w.open()
	} else {
		nd.Assert(v <= 1, "a database of another data version is refused")
		w.shut()
		w.open()
	}
	d, c, err := w.db.Get(versionKey())
	nd.Assert(err == nil && string(d) == "1", "the data version is recorded")
	noErr(c.Close(), "close of the value")
	t = newTab(w, nil)
	t.checkTable(model, 0)
	w.end()
}

// C21Locked: an open database cannot be opened a second time, and the attempt
// does not disturb it.
func C21Locked(n int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	model := t.seed(n)
	before := w.dump(0)
	_, err := bond.Open(w.dir, w.opts())
	nd.Assert(err != nil, "a database that is open cannot be opened again")
	sameDump(w.dump(0), before, "the open database")
	model = t.apply(3, model, drawRows(1))
	t.checkTable(model, 0)
	w.shut()
	w.open()
	t = newTab(w, nil)
	t.checkTable(model, 0)
	w.end()
}
