package h

import (
	"bytes"

	"github.com/go-bond/bond/cond"
	"github.com/go-bond/bond/zzverif/nd"
	"golang.org/x/exp/constraints"
)

func init() {
	Registry["C23Int"] = C23Int
	Registry["C23Text"] = C23Text
	Registry["C23Struct"] = C23Struct
	Registry["C23Tree"] = C23Tree
	Registry["C23Query"] = C23Query
	Registry["C23Guard"] = C23Guard
}

type pair struct {
	A uint8
	B uint16
}

type rec struct {
	I64 int64
	I32 int32
	I16 int16
	I8  int8
	U64 uint64
	U32 uint32
	U16 uint16
	U8  uint8
	S   string
	B   []byte
	P   pair
	Q   *pair
}

func ordered23[V constraints.Ordered](get func(r rec) V, r rec, x V) {
	v := get(r)
	nd.Assert(cond.Eq(cond.RecordValueGetter[rec, V](get), x).Eval(r) == (v == x), "Eq")
	nd.Assert(cond.Gt(cond.RecordValueGetter[rec, V](get), x).Eval(r) == (v > x), "Gt")
	nd.Assert(cond.Gte(cond.RecordValueGetter[rec, V](get), x).Eval(r) == (v >= x), "Gte")
	nd.Assert(cond.Lt(cond.RecordValueGetter[rec, V](get), x).Eval(r) == (v < x), "Lt")
	nd.Assert(cond.Lte(cond.RecordValueGetter[rec, V](get), x).Eval(r) == (v <= x), "Lte")
}

// C23Int: comparisons of every integer type.
func C23Int(t int) {
	var r rec
	switch t {
	case 0:
		r.I64 = nd.I64()
		ordered23(func(r rec) int64 { return r.I64 }, r, nd.I64())
	case 1:
		r.I32 = nd.I32()
		ordered23(func(r rec) int32 { return r.I32 }, r, nd.I32())
	case 2:
		r.I16 = nd.I16()
		ordered23(func(r rec) int16 { return r.I16 }, r, nd.I16())
	case 3:
		r.I8 = nd.I8()
		ordered23(func(r rec) int8 { return r.I8 }, r, nd.I8())
	case 4:
		r.U64 = nd.U64()
		ordered23(func(r rec) uint64 { return r.U64 }, r, nd.U64())
	case 5:
		r.U32 = nd.U32()
		ordered23(func(r rec) uint32 { return r.U32 }, r, nd.U32())
	case 6:
		r.U16 = nd.U16()
		ordered23(func(r rec) uint16 { return r.U16 }, r, nd.U16())
	case 7:
		r.U8 = nd.U8()
		ordered23(func(r rec) uint8 { return r.U8 }, r, nd.U8())
	}
	nd.Reach("end")
}

// C23Text: comparisons of strings and equality of byte slices.
func C23Text(l, m int) {
	r := rec{S: nd.Str(l), B: nd.Bytes(l)}
	ordered23(func(r rec) string { return r.S }, r, nd.Str(m))
	x := nd.Bytes(m)
	get := cond.RecordValueGetter[rec, []byte](func(r rec) []byte { return r.B })
	nd.Assert(cond.Eq(get, x).Eval(r) == bytes.Equal(r.B, x), "Eq of byte slices")
	nd.Reach("end")
}

// C23Struct: equality of composite values.
func C23Struct() {
	r := rec{P: pair{nd.U8(), nd.U16()}}
	q := pair{nd.U8(), nd.U16()}
	x := pair{nd.U8(), nd.U16()}
	r.Q = &q
	p := cond.RecordValueGetter[rec, pair](func(r rec) pair { return r.P })
	nd.Assert(cond.Eq(p, x).Eval(r) == nd.And(r.P.A == x.A, r.P.B == x.B), "Eq of structs")
	d := cond.RecordValueGetter[rec, *pair](func(r rec) *pair { return r.Q })
	nd.Assert(cond.Eq(d, &x).Eval(r) == nd.And(q.A == x.A, q.B == x.B), "Eq of pointers compares what they point to")
	b := cond.RecordValueGetter[rec, bool](func(r rec) bool { return r.P.A > 7 })
	y := nd.Bool()
	nd.Assert(cond.Eq(b, y).Eval(r) == ((r.P.A > 7) == y), "Eq of booleans")
	nd.Reach("end")
}

// tree draws an expression of the given depth over r and returns it with its
// value.
func tree(depth, width int, r Row) (cond.Cond[Row], bool) {
	kinds := 5
	if depth == 0 {
		kinds = 2
	}
	switch nd.Choose(kinds) {
	case 0:
		x := nd.U8()
		op := nd.Choose(5)
		get := cond.RecordValueGetter[Row, uint8](func(r Row) uint8 { return r.A })
		switch op {
		case 0:
			return cond.Eq(get, x), r.A == x
		case 1:
			return cond.Gt(get, x), r.A > x
		case 2:
			return cond.Gte(get, x), r.A >= x
		case 3:
			return cond.Lt(get, x), r.A < x
		}
		return cond.Lte(get, x), r.A <= x
	case 1:
		x := nd.U8()
		return cond.Func(func(r Row) bool { return r.B&x != 0 }), r.B&x != 0
	case 2:
		c, v := tree(depth-1, width, r)
		return cond.Not(c), !v
	case 3:
		var cs []cond.Cond[Row]
		all := true
		for n := nd.Choose(width + 1); n > 0; n-- {
			c, v := tree(depth-1, width, r)
			cs = append(cs, c)
			all = nd.And(all, v)
		}
		c := cond.And(cs...)
		for i := range cs {
			cs[i] = cond.Func(func(Row) bool { return false })
		}
		return c, all
	}
	var cs []cond.Cond[Row]
	some := false
	for n := nd.Choose(width + 1); n > 0; n-- {
		c, v := tree(depth-1, width, r)
		cs = append(cs, c)
		some = nd.Or(some, v)
	}
	c := cond.Or(cs...)
	for i := range cs {
		cs[i] = cond.Func(func(Row) bool { return true })
	}
	return c, some
}

// C23Tree: nested expressions; a condition can be evaluated again.
func C23Tree(depth, width int) {
	r := drawRow()
	c, v := tree(depth, width, r)
	nd.Assert(c.Eval(r) == v, "the condition has the value of its expression")
	s := drawRow()
	c.Eval(s)
	nd.Assert(c.Eval(r) == v, "evaluating a condition does not change it")
	nd.Reach("end")
}

// C23Guard: a list of conditions is evaluated from the left and only as far as
// its value is open, so that a condition can guard the ones after it.
func C23Guard(n int) {
	r := drawRow()
	or := nd.Bool()
	asked := 0
	decided := false
	var cs []cond.Cond[Row]
	for i := 0; i < n; i++ {
		i, x := i, nd.U8()
		cs = append(cs, cond.Func(func(r Row) bool {
			nd.Assert(i == asked && !decided, "a condition is asked only if the ones before it left the value open")
			asked++
			v := r.B&x != 0
			decided = v == or
			return v
		}))
	}
	c := cond.And(cs...)
	if or {
		c = cond.Or(cs...)
	}
	nd.Assert(c.Eval(r) == (decided == or), "the value is that of the last one asked")
	nd.Assert(decided || asked == n, "all are asked while the value is open")
	nd.Reach("end")
}

// C23Query: a condition as the filter of a query.
func C23Query(n, depth int) {
	w := newWorld(RowSer{})
	t := newTab(w, nil)
	rows := t.seed(n)
	c, v := tree(depth, 2, rows[0])
	var got []Row
	noErr(t.Query().Filter(c).Execute(bg, &got), "query")
	in := false
	for _, g := range got {
		in = in || g.ID == rows[0].ID
		nd.Assert(c.Eval(g), "a filtered query returns only rows that satisfy the condition")
	}
	nd.Assert(in == v, "a row is returned exactly if it satisfies the condition")
	w.end()
}
