package h

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"

	"github.com/cockroachdb/pebble"
	"github.com/cockroachdb/pebble/vfs"
	"github.com/go-bond/bond"
	"github.com/go-bond/bond/zzverif/env"
	"github.com/go-bond/bond/zzverif/nd"
)

var bg = context.Background()

// Row is the record of the harness tables.
type Row struct {
	ID, A, B, V uint8
}

var errDecode = errors.New("row: cannot decode")

// RowSer is a fixed-width serializer for Row.
type RowSer struct{}

func (RowSer) Serialize(x any) ([]byte, error) {
	switch r := x.(type) {
	case *Row:
		return []byte{r.ID, r.A, r.B, r.V}, nil
	case **Row:
		return []byte{(*r).ID, (*r).A, (*r).B, (*r).V}, nil
	}
	return nil, fmt.Errorf("row: cannot encode")
}

func (RowSer) Deserialize(b []byte, x any) error {
	if len(b) != 4 {
		return errDecode
	}
	switch r := x.(type) {
	case *Row:
		r.ID, r.A, r.B, r.V = b[0], b[1], b[2], b[3]
		return nil
	case **Row:
		if *r == nil {
			*r = &Row{}
		}
		(*r).ID, (*r).A, (*r).B, (*r).V = b[0], b[1], b[2], b[3]
		return nil
	}
	return errDecode
}

func drawRow() Row { return Row{nd.U8(), nd.U8(), nd.U8(), nd.U8()} }

func rowEq(a, b Row) bool {
	return nd.And(a.ID == b.ID, a.A == b.A, a.B == b.B, a.V == b.V)
}

func (r Row) bytes() []byte { return []byte{r.ID, r.A, r.B, r.V} }

// World is one database under test.
type World struct {
	dir string
	fs  *vfs.MemFS // nil: the real file system
	ser bond.Serializer[any]
	db  bond.DB

	format pebble.FormatMajorVersion
}

// newDiskWorld opens a database whose files are real ones in native replays.
func newDiskWorld() *World { return makeWorld(RowSer{}, true) }

func newWorld(ser bond.Serializer[any]) *World { return makeWorld(ser, false) }

func makeWorld(ser bond.Serializer[any], onDisk bool) *World {
	return makeWorldAt(ser, onDisk, pebble.FormatPrePebblev1MarkedCompacted)
}

func makeWorldAt(ser bond.Serializer[any], onDisk bool, format pebble.FormatMajorVersion) *World {
	env.Reset()
	dir, err := os.MkdirTemp("", "bond")
	must(err)
	w := &World{dir: dir, ser: ser, format: format}
	if !onDisk {
		w.fs = vfs.NewStrictMem()
	}
	if !nd.IsSymbolic() && !onDisk {
		// make the database directory itself durable
		must(w.fs.MkdirAll(dir, 0755))
		for d := dir; ; d = filepath.Dir(d) {
			f, err := w.fs.OpenDir(d)
			must(err)
			must(f.Sync())
			f.Close()
			if d == filepath.Dir(d) {
				break
			}
		}
	}
	cleanups = append(cleanups, func() { os.RemoveAll(dir) })
	w.open()
	return w
}

func (w *World) opts() *bond.Options {
	po := &pebble.Options{FS: w.fs, MemTableSize: 1 << 20}
	if w.fs == nil {
		po.FS = vfs.Default
	}
	po.EnsureDefaults()
	po.FormatMajorVersion = w.format
	return &bond.Options{PebbleOptions: po, Serializer: w.ser}
}

func (w *World) open() {
	db, err := bond.Open(w.dir, w.opts())
	must(err)
	w.db = db
	cleanups = append(cleanups, func() {
		if w.db == db {
			db.Close()
		}
	})
}

// crash brings back what was durable when the syncs stopped.
func (w *World) crash() {
	w.db.Close()
	w.db = nil
	w.fs.ResetToSyncedState()
	w.fs.SetIgnoreSyncs(false)
	w.open()
}

// end closes the database; leaked iterators surface here.
func (w *World) end() {
	err := w.db.Close()
	w.db = nil
	nd.Assert(err == nil, "the database closes cleanly (no leaked iterators)")
	nd.Reach("end")
}

// NewDB opens a database for harnesses of other packages.
func NewDB() (bond.DB, func()) {
	w := newWorld(RowSer{})
	return w.db, w.end
}

// NewDBWith is NewDB with a serializer.
func NewDBWith(ser bond.Serializer[any]) (bond.DB, func()) {
	w := newWorld(ser)
	return w.db, w.end
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
}

func noErr(err error, what string) { nd.Assert(err == nil, what+" succeeds") }

const (
	tableID = bond.TableID(7)
	idxAll  = bond.IndexID(1)
	idxPart = bond.IndexID(2)
	idxOrd  = bond.IndexID(3)
)

// Tab is a table with a plain, a partial ordered and an order-only index.
type Tab struct {
	bond.Table[Row]
	all, part, ord *bond.Index[Row]
}

func pkByte(b bond.KeyBuilder, r Row) []byte { return b.AddByteField(r.ID).Bytes() }

func keyA(b bond.KeyBuilder, r Row) []byte { return b.AddByteField(r.A).Bytes() }

func newTab(w *World, filter bond.Filter) *Tab { return newTabID(w, tableID, filter) }

func newTabID(w *World, id bond.TableID, filter bond.Filter) *Tab {
	t := &Tab{}
	t.Table = bond.NewTable[Row](bond.TableOptions[Row]{
		DB: w.db, TableID: id, TableName: "t", TablePrimaryKeyFunc: pkByte, Filter: filter,
	})
	t.all = bond.NewIndex[Row](bond.IndexOptions[Row]{IndexID: idxAll, IndexName: "all", IndexKeyFunc: keyA})
	t.part = bond.NewIndex[Row](bond.IndexOptions[Row]{
		IndexID: idxPart, IndexName: "part", IndexKeyFunc: keyA,
		IndexOrderFunc: func(o bond.IndexOrder, r Row) bond.IndexOrder {
			return o.OrderByte(r.B, bond.IndexOrderTypeDESC)
		},
		IndexFilterFunc: inPart,
	})
	t.ord = bond.NewIndex[Row](bond.IndexOptions[Row]{
		IndexID: idxOrd, IndexName: "ord",
		IndexKeyFunc:   func(b bond.KeyBuilder, r Row) []byte { return b.Bytes() },
		IndexOrderFunc: func(o bond.IndexOrder, r Row) bond.IndexOrder { return o.OrderByte(r.B, bond.IndexOrderTypeASC) },
	})
	return t
}

func (t *Tab) list(which int) []*bond.Index[Row] {
	var l []*bond.Index[Row]
	if which&1 != 0 {
		l = append(l, t.all)
	}
	if which&2 != 0 {
		l = append(l, t.part)
	}
	if which&4 != 0 {
		l = append(l, t.ord)
	}
	return l
}

func (t *Tab) addIndexes(which int) { must(t.AddIndex(t.list(which))) }

func inPart(r Row) bool { return r.V&1 == 1 }

// lessAll, lessPart and lessOrd are the intended index orders.
func u3(a, b, c uint8) uint64 { return uint64(a)<<16 | uint64(b)<<8 | uint64(c) }

func lessPK(x, y Row) bool   { return x.ID < y.ID }
func lessAll(x, y Row) bool  { return u3(x.A, 0, x.ID) < u3(y.A, 0, y.ID) }
func lessPart(x, y Row) bool { return u3(x.A, ^x.B, x.ID) < u3(y.A, ^y.B, y.ID) }
func lessOrd(x, y Row) bool  { return u3(x.B, 0, x.ID) < u3(y.B, 0, y.ID) }

// sameSet asserts that got holds exactly want (rows of want have distinct
// keys), in the given order.
func sameSet(got, want []Row, less func(x, y Row) bool, what string) {
	nd.Assert(len(got) == len(want), what+": number of rows")
	for _, x := range want {
		in := false
		for _, y := range got {
			in = nd.Or(in, rowEq(x, y))
		}
		nd.Assert(in, what+": every expected row is returned unchanged")
	}
	ordered(got, less, what)
}

func ordered(got []Row, less func(x, y Row) bool, what string) {
	for i := 1; i < len(got); i++ {
		nd.Assert(less(got[i-1], got[i]), what+": in order, without duplicates")
	}
}

func reversed(less func(x, y Row) bool) func(x, y Row) bool {
	return func(x, y Row) bool { return less(y, x) }
}

func filterRows(rows []Row, f func(Row) bool) []Row {
	var out []Row
	for _, r := range rows {
		if f(r) {
			out = append(out, r)
		}
	}
	return out
}

var rowMin, rowMax = Row{0, 0, 0, 0}, Row{255, 255, 255, 255}

// partMin and partMax bound the partial index, whose order is descending in B.
var partMin, partMax = Row{0, 0, 255, 0}, Row{255, 255, 0, 255}

// checkTable asserts that the table and the chosen indexes hold exactly want.
func (t *Tab) checkTable(want []Row, which int, batch ...bond.Batch) {
	var got []Row
	noErr(t.ScanIndex(bg, t.PrimaryIndex(), bond.NewSelectorRange(rowMin, rowMax), &got, false, batch...), "primary scan")
	sameSet(got, want, lessPK, "primary scan")
	for _, r := range got {
		nd.Observe("row", r.bytes())
	}
	if which&1 != 0 {
		got = nil
		noErr(t.ScanIndex(bg, t.all, bond.NewSelectorRange(rowMin, rowMax), &got, false, batch...), "index scan")
		sameSet(got, want, lessAll, "index scan")
	}
	if which&2 != 0 {
		got = nil
		noErr(t.ScanIndex(bg, t.part, bond.NewSelectorRange(partMin, partMax), &got, false, batch...), "partial index scan")
		sameSet(got, filterRows(want, inPart), lessPart, "partial index scan")
	}
	if which&4 != 0 {
		got = nil
		noErr(t.ScanIndex(bg, t.ord, bond.NewSelectorRange(rowMin, rowMax), &got, false, batch...), "order index scan")
		sameSet(got, want, lessOrd, "order index scan")
	}
}

// seed stores n arbitrary rows with distinct keys and returns them.
func (t *Tab) seed(n int) []Row {
	var rows []Row
	for i := 0; i < n; i++ {
		rows = append(rows, drawRow())
		if i > 0 {
			nd.Assume(rows[i-1].ID < rows[i].ID)
		}
	}
	if n > 0 {
		noErr(t.Insert(bg, rows), "seed insert")
	}
	return rows
}

var _ = bytes.Equal
