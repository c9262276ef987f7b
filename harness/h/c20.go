package h

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/zzverif/env"
	"github.com/go-bond/bond/zzverif/nd"
)

func init() {
	Registry["C20Dump"] = C20Dump
	Registry["C20Ids"] = C20Ids
	Registry["C20Errors"] = C20Errors
	Registry["C20Fault"] = C20Fault
	Registry["C20Con"] = C20Con
}

func dumpDir() string {
	d, err := os.MkdirTemp("", "dump")
	must(err)
	must(os.RemoveAll(d))
	cleanups = append(cleanups, func() { os.RemoveAll(d) })
	return d
}

// of keeps the entries of the given tables, without index entries unless idx.
func of(l []entry, ids []bond.TableID, idx bool) []entry {
	var out []entry
	for _, e := range l {
		k := bond.KeyBytes(e.k)
		in := false
		for _, i := range ids {
			in = in || k.TableID() == i
		}
		if in && (idx || k.IndexID() == bond.PrimaryIndexID) {
			out = append(out, e)
		}
	}
	return out
}

// user leaves out what the database keeps for itself.
func (w *World) user() []entry {
	var out []entry
	for _, e := range w.dump(0) {
		if e.k[0] != 0 {
			out = append(out, e)
		}
	}
	return out
}

func pick(ids []bond.TableID, mask int) []bond.TableID {
	var out []bond.TableID
	for i, id := range ids {
		if mask&(1<<i) != 0 {
			out = append(out, id)
		}
	}
	return out
}

// C20Dump: two tables of n and m rows with indexes; dumped and restored are
// masks of tables, idx: bit 0 dump, bit 1 restore with indexes.
func C20Dump(n, m, dumped, restored, idx int) {
	w := newDiskWorld()
	ids := []bond.TableID{1, 12}
	a, b := newTabID(w, ids[0], nil), newTabID(w, ids[1], nil)
	a.addIndexes(3)
	b.addIndexes(4)
	ra, rb := a.seed(n), b.seed(m)
	src := w.user()
	dir := dumpDir()
	noErr(w.db.Dump(bg, dir, pick(ids, dumped), idx&1 != 0), "dump")
	sameDump(w.user(), src, "the dumped database")
	w.end()

	v := newDiskWorld()
	noErr(v.db.Restore(bg, dir, pick(ids, restored), idx&2 != 0), "restore")
	sameDump(v.user(), of(src, pick(ids, restored), idx == 3), "restored content")
	a, b = newTabID(v, ids[0], nil), newTabID(v, ids[1], nil)
	a.addIndexes(3)
	b.addIndexes(4)
	if restored&1 == 0 {
		ra = nil
	}
	if restored&2 == 0 {
		rb = nil
	}
	if idx == 3 {
		a.checkTable(ra, 3)
		b.checkTable(rb, 4)
	} else {
		a.checkTable(ra, 0)
		b.checkTable(rb, 0)
	}
	// it is an ordinary database again
	ra = a.apply(4, nil, drawRows(0))
	v.end()
}

var someTables = []bond.TableID{1, 2, 11, 12, 25, 255}
var someIndexes = []bond.IndexID{1, 2, 11, 25, 254, 255}

// C20Ids: the tables and indexes have ids out of a list whose decimal forms
// are prefixes of one another; one of them is restored.
func C20Ids(one int) {
	w := newDiskWorld()
	x, y := someTables[nd.Choose(6)], someTables[nd.Choose(6)]
	nd.Assume(x != y)
	i, j := someIndexes[nd.Choose(6)], someIndexes[nd.Choose(6)]
	nd.Assume(i != j)
	mk := func(id bond.TableID, ids ...bond.IndexID) *Tab {
		t := newTabID(w, id, nil)
		for _, k := range ids {
			must(t.AddIndex([]*bond.Index[Row]{bond.NewIndex[Row](bond.IndexOptions[Row]{IndexID: k, IndexName: "x", IndexKeyFunc: keyA})}))
		}
		return t
	}
	mk(x, i, j).seed(1)
	mk(y, j).seed(1)
	src := w.user()
	dir := dumpDir()
	noErr(w.db.Dump(bg, dir, []bond.TableID{x, y}, true), "dump")
	w.end()
	v := newDiskWorld()
	ids := []bond.TableID{x, y}
	if one == 1 {
		ids = ids[:1]
	}
	noErr(v.db.Restore(bg, dir, ids, true), "restore")
	sameDump(v.user(), of(src, ids, true), "restored content")
	v.end()
}

// C20Errors: restoring what was not dumped, a dump of another version or a
// damaged one, or over an existing directory.
func C20Errors(kind int) {
	w := newDiskWorld()
	a, b := newTabID(w, 1, nil), newTabID(w, 12, nil)
	a.addIndexes(1)
	b.addIndexes(1)
	a.seed(1)
	b.seed(1)
	dir := dumpDir()
	noErr(w.db.Dump(bg, dir, []bond.TableID{1}, true), "dump")
	before := w.user()
	nd.Assert(w.db.Dump(bg, dir, []bond.TableID{1}, true) != nil, "dumping into an existing directory fails")
	w.end()
	v := newDiskWorld()
	ids := []bond.TableID{1}
	switch kind {
	case 0:
		ids = []bond.TableID{1, 12}
	case 1:
		ids = []bond.TableID{12}
	case 2:
		ver := nd.Bytes(4)
		nd.Assume(!bytes.Equal(ver, []byte{0, 0, 0, bond.BOND_DB_DATA_VERSION}))
		must(os.WriteFile(filepath.Join(dir, "VERSION"), ver, 0644))
	case 3:
		must(os.WriteFile(filepath.Join(dir, "VERSION"), nd.Bytes(nd.Choose(4)), 0644))
	case 4:
		must(os.Remove(filepath.Join(dir, "VERSION")))
	case 5:
		must(os.RemoveAll(dir))
	case 6: // damaged table file
		must(os.WriteFile(filepath.Join(dir, "table_1", "1.sst"), []byte{1, 2, 3}, 0644))
	case 7: // damaged index file
		must(os.WriteFile(filepath.Join(dir, "table_1_index_1", "1.sst"), []byte{1, 2, 3}, 0644))
	case 8: // nothing wrong
		noErr(v.db.Restore(bg, dir, ids, true), "restore")
		sameDump(v.user(), of(before, ids, true), "restored content")
		v.end()
		return
	}
	nd.Assert(v.db.Restore(bg, dir, ids, true) != nil, "restoring fails")
	nd.Assert(len(v.user()) == 0, "a failed restore leaves nothing")
	v.end()
}

// C20Fault: a storage operation fails during the dump (0) or the restore (1).
func C20Fault(kind, n int) {
	w := newDiskWorld()
	t := newTabID(w, 1, nil)
	t.addIndexes(5)
	t.seed(n)
	src := w.user()
	dir := dumpDir()
	if kind == 0 {
		env.Arm(nd.Choose(4*n+12), "")
	}
	err := w.db.Dump(bg, dir, []bond.TableID{1}, true)
	fired := env.Disarm()
	sameDump(w.user(), src, "the dumped database")
	w.end()
	if err != nil {
		nd.Assert(kind == 0 && fired, "dumping succeeds without a fault")
		nd.Reach("error")
		return
	}
	v := newDiskWorld()
	if kind == 1 {
		env.Arm(nd.Choose(2), "")
	}
	err = v.db.Restore(bg, dir, []bond.TableID{1}, true)
	fired = env.Disarm()
	if err != nil {
		nd.Assert(kind == 1 && fired, "restoring succeeds without a fault")
		nd.Reach("error")
		nd.Assert(len(v.user()) == 0, "a failed restore leaves nothing")
		noErr(v.db.Restore(bg, dir, []bond.TableID{1}, true), "restore after the fault")
	}
	sameDump(v.user(), src, "restored content")
	v.end()
}

// C20Con: a call runs beside the dump; the dump is the state before or after.
func C20Con(preempt, n, op int) {
	w := newDiskWorld()
	t := newTabID(w, 1, nil)
	t.addIndexes(1)
	model := t.seed(n)
	in := drawRows(1)
	before := w.user()
	dir := dumpDir()
	var err, werr error
	nd.Go(func() { err = w.db.Dump(bg, dir, []bond.TableID{1}, true) })
	nd.Go(func() { werr = t.do(bg, op, model, in) })
	nd.InterleaveOps(preempt)
	nd.Join()
	nd.Interleave(-1)
	noErr(err, "dump")
	_, bad := effect(op, model, in)
	nd.Assert((werr != nil) == bad, "the call beside the dump")
	after := w.user()
	w.end()
	v := newDiskWorld()
	noErr(v.db.Restore(bg, dir, []bond.TableID{1}, true), "restore")
	got := v.user()
	nd.Assert(nd.Or(equalDump(got, before), equalDump(got, after)), "the dump is the state before or after the call")
	v.end()
}

func equalDump(a, b []entry) bool {
	if len(a) != len(b) {
		return false
	}
	eq := true
	for i := range a {
		eq = nd.And(eq, bytes.Equal(a[i].k, b[i].k), bytes.Equal(a[i].v, b[i].v))
	}
	return eq
}

var _ = fmt.Sprint

// Commands: the tables named on the command line are dumped and restored; ids
// is what is named: 0 and 1 the first and both tables, 2 and 3 no table id for
// dump and restore; idx as above.
func Commands(run func(...string), n, m, ids, idx int) {
	w := makeWorldAt(RowSer{}, true, bond.DefaultPebbleOptions().FormatMajorVersion)
	all := []bond.TableID{1, 12}
	a, b := newTabID(w, all[0], nil), newTabID(w, all[1], nil)
	a.addIndexes(3)
	b.addIndexes(4)
	a.seed(n)
	b.seed(m)
	src := w.user()
	w.shut()
	dir := dumpDir()
	named := [][]string{{"1"}, {"1,12"}, {"1", "12"}}
	strange := []string{"257", "-255", "1,268", "4294967297"}
	flags := func(tables []string, idx bool) []string {
		out := []string{"--bond-dir", w.dir, "--dir", dir}
		for _, t := range tables {
			out = append(out, "--tables", t)
		}
		if idx {
			out = append(out, "--with-index")
		}
		return out
	}
	which, dumped := 1+nd.Choose(2), all
	if ids == 0 {
		which, dumped = 0, all[:1]
	}
	tables := named[which]
	if ids == 2 {
		tables, dumped = []string{strange[nd.Choose(4)]}, nil
	}
	run(append([]string{"dump"}, flags(tables, idx&1 != 0)...)...)
	w.open()
	sameDump(w.user(), src, "the dumped database")
	w.end()

	v := makeWorldAt(RowSer{}, true, bond.DefaultPebbleOptions().FormatMajorVersion)
	v.shut()
	w.dir = v.dir
	if ids >= 2 {
		tables = tables[:0]
		if ids == 3 {
			tables, dumped = []string{strange[nd.Choose(4)]}, nil
		} else {
			tables = named[0]
		}
	}
	run(append([]string{"restore"}, flags(tables, idx&2 != 0)...)...)
	v.open()
	sameDump(v.user(), of(src, dumped, idx == 3), "restored content")
	v.end()
}
