// Package hins holds the harnesses of the inspection interface.
package hins

import (
	"context"
	"fmt"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/cond"
	"github.com/go-bond/bond/inspect"
	"github.com/go-bond/bond/zzverif/h"
	"github.com/go-bond/bond/zzverif/nd"
)

func init() {
	h.Registry["C27Meta"] = C27Meta
	h.Registry["C27Query"] = C27Query
	h.Registry["C27Err"] = C27Err
	h.Registry["C27Two"] = C27Two
}

var bg = context.Background()

// Tag is a string kind of its own.
type Tag string

// Rec is the inspected row. The note is not exported and not reported.
type Rec struct {
	ID   uint8
	A    uint16
	N    int32
	T    Tag
	S    string
	note uint8
}

type recSer struct{}

func (recSer) Serialize(x any) ([]byte, error) {
	var r *Rec
	switch v := x.(type) {
	case *Rec:
		r = v
	case **Rec:
		r = *v
	default:
		return nil, fmt.Errorf("rec: cannot encode")
	}
	b := []byte{r.ID, byte(r.A >> 8), byte(r.A), byte(r.N >> 24), byte(r.N >> 16), byte(r.N >> 8), byte(r.N), r.note, byte(len(r.T))}
	b = append(b, r.T...)
	return append(b, r.S...), nil
}

func (recSer) Deserialize(b []byte, x any) error {
	if len(b) < 9 || len(b) < 9+int(b[8]) {
		return fmt.Errorf("rec: cannot decode")
	}
	v := Rec{ID: b[0], A: uint16(b[1])<<8 | uint16(b[2]),
		N:    int32(uint32(b[3])<<24 | uint32(b[4])<<16 | uint32(b[5])<<8 | uint32(b[6])),
		note: b[7], T: Tag(b[9 : 9+int(b[8])]), S: string(b[9+int(b[8]):])}
	switch r := x.(type) {
	case *Rec:
		*r = v
	case **Rec:
		*r = &v
	default:
		return fmt.Errorf("rec: cannot decode")
	}
	return nil
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
}

// vary lets the strings be empty.
func drawRec(id uint8, vary bool) Rec {
	k, l := 1, 1
	if vary {
		k, l = nd.Choose(2), nd.Choose(2)
	}
	return Rec{ID: id, A: nd.U16(), N: int32(nd.U32()), T: Tag(nd.Str(k)), S: nd.Str(l), note: nd.U8()}
}

// table is a table of T under inspection, T being Rec or *Rec.
type table[T any] struct {
	bond.Table[T]
	byA, byN *bond.Index[T]
	of       func(Rec) T
	rec      func(T) Rec
	remote   func(request, []T)
}

func newTable[T any](db bond.DB, id bond.TableID, name string, of func(Rec) T, rec func(T) Rec) *table[T] {
	t := &table[T]{of: of, rec: rec}
	t.Table = bond.NewTable[T](bond.TableOptions[T]{DB: db, TableID: id, TableName: name,
		TablePrimaryKeyFunc: func(b bond.KeyBuilder, r T) []byte { return b.AddByteField(rec(r).ID).Bytes() }})
	t.byA = bond.NewIndex[T](bond.IndexOptions[T]{IndexID: 1, IndexName: "a",
		IndexKeyFunc: func(b bond.KeyBuilder, r T) []byte { return b.AddUint16Field(rec(r).A).Bytes() }})
	t.byN = bond.NewIndex[T](bond.IndexOptions[T]{IndexID: 2, IndexName: "n",
		IndexKeyFunc:   func(b bond.KeyBuilder, r T) []byte { return b.AddByteField(byte(rec(r).A)).Bytes() },
		IndexOrderFunc: func(o bond.IndexOrder, r T) bond.IndexOrder { return o.OrderInt32(rec(r).N, bond.IndexOrderTypeDESC) }})
	must(t.AddIndex([]*bond.Index[T]{t.byA, t.byN}))
	return t
}

func plain(db bond.DB, id bond.TableID, name string) *table[Rec] {
	return newTable[Rec](db, id, name, func(r Rec) Rec { return r }, func(r Rec) Rec { return r })
}

func pointers(db bond.DB, id bond.TableID, name string) *table[*Rec] {
	return newTable[*Rec](db, id, name, func(r Rec) *Rec { return &r }, func(r *Rec) Rec { return *r })
}

func sameNames(got, want []string, what string) {
	nd.Assert(len(got) == len(want), what+": as many as there are")
	for i := range got {
		nd.Assert(got[i] == want[i], what)
	}
}

// C27Meta: names of tables, indexes and fields.
func C27Meta(n int) {
	db, end := h.NewDBWith(recSer{})
	names := []string{"x", "y", "z"}
	var infos []bond.TableInfo
	for i := 0; i < n; i++ {
		if nd.Bool() {
			infos = append(infos, plain(db, bond.TableID(i+1), names[i]))
		} else {
			infos = append(infos, pointers(db, bond.TableID(i+1), names[i]))
		}
	}
	in, err := inspect.NewInspect(infos)
	nd.Assert(err == nil, "inspection starts")
	ts, err := in.Tables()
	nd.Assert(err == nil, "tables are listed")
	sameNames(ts, names[:n], "tables are the registered ones")
	for i := range names {
		is, err := in.Indexes(names[i])
		fs, err2 := in.EntryFields(names[i])
		if i >= n {
			nd.Assert(err != nil && is == nil, "indexes of an unknown table are an error")
			nd.Assert(err2 != nil && fs == nil, "fields of an unknown table are an error")
			continue
		}
		nd.Assert(err == nil, "indexes are listed")
		sameNames(is, []string{"primary", "a", "n"}, "indexes are those of the table")
		nd.Assert(err2 == nil, "fields are listed")
		nd.Assert(len(fs) == 5, "fields are the exported ones")
		nd.Assert(fs["ID"] == "uint8" && fs["A"] == "uint16" && fs["N"] == "int32" && fs["T"] == "string" && fs["S"] == "string", "fields have their kinds")
	}
	end()
}

// value gives the operand as the type of the field or as another one that
// converts to it.
func value(field string, r Rec, other int) any {
	if other == 2 { // the way numbers arrive in JSON
		switch field {
		case "ID":
			return float64(r.ID)
		case "A":
			return float64(r.A)
		case "N":
			return float64(r.N)
		}
	}
	if other == 3 { // types that hold less than the field
		switch field {
		case "A":
			return uint8(r.A)
		case "N":
			return int8(r.N)
		}
	}
	switch field {
	case "ID":
		if other > 0 {
			return int(r.ID)
		}
		return r.ID
	case "A":
		if other > 0 {
			return uint64(r.A)
		}
		return r.A
	case "N":
		if other > 0 {
			return int64(r.N)
		}
		return r.N
	case "T":
		if other > 0 {
			return string(r.T)
		}
		return r.T
	}
	if other > 0 {
		return Tag(r.S)
	}
	return r.S
}

var fields = [5]string{"ID", "A", "N", "T", "S"}

// operands describes some of the fields of a row.
func operands(mask int, r Rec, other int) map[string]any {
	m := map[string]any{}
	for i, f := range fields {
		if mask&(1<<i) != 0 {
			m[f] = value(f, r, other)
		}
	}
	return m
}

// only keeps the fields of the mask.
func only(mask int, r Rec) Rec {
	var o Rec
	if mask&1 != 0 {
		o.ID = r.ID
	}
	if mask&2 != 0 {
		o.A = r.A
	}
	if mask&4 != 0 {
		o.N = r.N
	}
	if mask&8 != 0 {
		o.T = r.T
	}
	if mask&16 != 0 {
		o.S = r.S
	}
	return o
}

func agree(mask int, x, y Rec) bool {
	ok := true
	if mask&1 != 0 {
		ok = nd.And(ok, x.ID == y.ID)
	}
	if mask&2 != 0 {
		ok = nd.And(ok, x.A == y.A)
	}
	if mask&4 != 0 {
		ok = nd.And(ok, x.N == y.N)
	}
	if mask&8 != 0 {
		ok = nd.And(ok, x.T == y.T)
	}
	if mask&16 != 0 {
		ok = nd.And(ok, x.S == y.S)
	}
	return ok
}

// request is one request to the inspection interface.
type request struct {
	index              string
	sel, filter, after map[string]any
	limit              uint64
}

// compare asks the inspection interface and the table the same question.
func (t *table[T]) compare(in inspect.Inspect, name string, index, selMask, filterMask, afterMask, other int, s Rec, limit uint64) {
	if other == 3 {
		nd.Assume(nd.And(s.A < 256, s.N >= -128, s.N <= 127))
	}
	req := request{limit: limit}
	q := t.Query()
	switch index {
	case 0:
		req.index = ""
	case 1:
		req.index = "primary"
	case 2:
		req.index = "a"
		q = q.With(t.byA, bond.NewSelectorPoint(t.of(only(selMask, s))))
	default:
		req.index = "n"
		q = q.With(t.byN, bond.NewSelectorPoint(t.of(only(selMask, s))))
	}
	if selMask != 0 {
		req.sel = operands(selMask, s, other)
	}
	if filterMask >= 0 {
		req.filter = operands(filterMask, s, other)
		q = q.Filter(cond.Func(func(r T) bool { return agree(filterMask, t.rec(r), s) }))
	}
	if limit > 0 {
		q = q.Limit(limit)
	}
	if afterMask >= 0 {
		req.after = operands(afterMask, s, other)
		q = q.After(t.of(only(afterMask, s)))
	}
	var want []T
	err := q.Execute(bg, &want)
	nd.Assert(err == nil, "the table query succeeds")
	if t.remote != nil {
		t.remote(req, want)
		return
	}
	got, err := in.Query(bg, name, req.index, req.sel, req.filter, req.limit, req.after)
	nd.Assert(err == nil, "the inspection query succeeds")
	nd.Assert(len(got) == len(want), "the inspection query returns as many rows as the table query")
	for i := range got {
		g, w := got[i], t.rec(want[i])
		nd.Assert(len(g) == 5, "a reported row has the exported fields")
		id, ok1 := g["ID"].(uint8)
		a, ok2 := g["A"].(uint16)
		n, ok3 := g["N"].(int32)
		tg, ok4 := g["T"].(Tag)
		st, ok5 := g["S"].(string)
		nd.Assert(ok1 && ok2 && ok3 && ok4 && ok5, "a reported row has the field types")
		nd.Assert(agree(31, Rec{ID: id, A: a, N: n, T: tg, S: st}, w), "a reported row is the row of the table query")
	}
	if len(got) > 0 {
		nd.Reach("rows")
	}
}

func (t *table[T]) fill(n int, vary bool) []Rec {
	var rows []Rec
	for i := 0; i < n; i++ {
		r := drawRec(nd.U8(), vary)
		for _, o := range rows {
			nd.Assume(o.ID != r.ID)
		}
		rows = append(rows, r)
		must(t.Insert(bg, []T{t.of(r)}))
	}
	return rows
}

func mask(m int) int {
	if m == 32 {
		return nd.Choose(32)
	}
	return m
}

// C27Query: a query through the inspection interface is the table's query.
func C27Query(ptr, n, index, selMask, filterMask, afterMask, other int) {
	db, end := h.NewDBWith(recSer{})
	selMask, filterMask, afterMask = mask(selMask), mask(filterMask), mask(afterMask)
	limit := nd.U64()
	run := func() {}
	if ptr&1 != 0 {
		t := pointers(db, 5, "x")
		t.fill(n, ptr&2 != 0)
		s := drawRec(nd.U8(), ptr&2 != 0)
		in, _ := inspect.NewInspect([]bond.TableInfo{t})
		run = func() { t.compare(in, "x", index, selMask, filterMask, afterMask, other, s, limit) }
	} else {
		t := plain(db, 5, "x")
		t.fill(n, ptr&2 != 0)
		s := drawRec(nd.U8(), ptr&2 != 0)
		in, _ := inspect.NewInspect([]bond.TableInfo{t})
		run = func() { t.compare(in, "x", index, selMask, filterMask, afterMask, other, s, limit) }
	}
	run()
	end()
}

// C27Two: of two tables with the same index names the named one is asked.
func C27Two(n, index int) {
	db, end := h.NewDBWith(recSer{})
	x, y := plain(db, 5, "x"), pointers(db, 6, "y")
	x.fill(n, false)
	y.fill(n, false)
	s := drawRec(nd.U8(), false)
	in, _ := inspect.NewInspect([]bond.TableInfo{x, y})
	if nd.Bool() {
		x.compare(in, "x", index, 3, -1, -1, 0, s, 0)
	} else {
		y.compare(in, "y", index, 3, -1, -1, 0, s, 0)
	}
	end()
}

// C27Err: what does not exist or fit is an error, never a panic.
func C27Err(ptr, n int) {
	db, end := h.NewDBWith(recSer{})
	var ti bond.TableInfo
	if ptr != 0 {
		t := pointers(db, 5, "x")
		t.fill(n, false)
		ti = t
	} else {
		t := plain(db, 5, "x")
		t.fill(n, false)
		ti = t
	}
	in, _ := inspect.NewInspect([]bond.TableInfo{ti})
	sel := map[string]any{"A": nd.U16()}
	table, index := "x", "a"
	var filter, after map[string]any
	bad := []any{nil, []string{"q"}, map[string]any{"A": 1}, struct{}{}}
	what := ""
	switch nd.Choose(9) {
	case 0:
		table, what = "", "no table"
	case 1:
		table, what = "other", "an unknown table"
	case 2:
		index, what = "other", "an unknown index"
	case 3:
		sel["Q"], what = 1, "an unknown field of the selector"
	case 4:
		after, what = map[string]any{"Q": 1}, "an unknown field of the row to start after"
	case 5:
		sel["A"], what = bad[nd.Choose(len(bad))], "a selector value that is no number"
	case 6:
		after, what = map[string]any{"S": bad[nd.Choose(len(bad))]}, "a value to start after that is no string"
	case 7:
		sel["note"], what = uint8(1), "a field that is not exported"
	case 8:
		// no row can have it
		filter = map[string]any{fields[nd.Choose(5)]: bad[nd.Choose(len(bad))]}
		if nd.Bool() {
			filter = map[string]any{"Q": nil}
		}
		got, err := in.Query(bg, table, "", nil, filter, 0, nil)
		nd.Assert(err != nil || len(got) == 0, "a filter that no row can pass yields no rows")
		end()
		return
	}
	got, err := in.Query(bg, table, index, sel, filter, 0, after)
	nd.Assert(err != nil, what+" is an error")
	nd.Assert(len(got) == 0, "a failed inspection query returns no rows")
	end()
}
