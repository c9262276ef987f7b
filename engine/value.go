package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a target-program value. The zero Value is the zero value of every type.
//
//	integers/bool : o==nil, n = masked bits       symbolic: o=*Term
//	floats        : o==nil, n = Float64bits
//	string        : o==nil "" | string | *SymStr | *AliasStr
//	pointer       : o==nil | (*Agg, index)
//	struct/array  : o==nil (zero) | *SAgg
//	slice         : o==nil | *Slice
//	map/chan/func : *Map / *Chan / *Closure
//	interface     : *Iface
type Value struct {
	o any
	n uint64
}

type Agg struct {
	cells []Value
	n     int
	ext   any // engine-private payload (mutexes, pools, ...)
	dead  bool
}

type SAgg struct{ Agg }

func (a *Agg) at(i int) *Value {
	if i >= len(a.cells) {
		if i >= a.n {
			panic(fmt.Sprintf("engine: cell %d of %d", i, a.n))
		}
		k := 2 * len(a.cells)
		if k < i+1 {
			k = i + 1
		}
		if k < 8 {
			k = 8
		}
		if k > a.n {
			k = a.n
		}
		nc := make([]Value, k)
		copy(nc, a.cells)
		a.cells = nc
	}
	return &a.cells[i]
}

func (a *Agg) get(i int) Value {
	if i < len(a.cells) {
		return a.cells[i]
	}
	return Value{}
}

// child returns the container of the aggregate stored in cell i.
func (a *Agg) child(i int, n int) *Agg {
	c := a.at(i)
	if c.o == nil {
		s := &SAgg{Agg{n: n}}
		c.o = s
		return &s.Agg
	}
	s, ok := c.o.(*SAgg)
	if !ok {
		panic(unsupported{fmt.Sprintf("aggregate access to a %T cell", c.o)})
	}
	return &s.Agg
}

func copyVal(v Value) Value {
	if s, ok := v.o.(*SAgg); ok {
		n := &SAgg{Agg{n: s.n}}
		if len(s.cells) > 0 {
			n.cells = make([]Value, len(s.cells))
			for i, c := range s.cells {
				n.cells[i] = copyVal(c)
			}
		}
		n.ext = s.ext
		return Value{o: n}
	}
	return v
}

func storeCell(c *Value, v Value) {
	if s, ok := v.o.(*SAgg); ok {
		if d, ok := c.o.(*SAgg); ok {
			// keep interior pointers valid
			if d == s {
				return
			}
			assignAgg(&d.Agg, &s.Agg)
			return
		}
		*c = copyVal(v)
		return
	}
	if d, ok := c.o.(*SAgg); ok && v.o == nil {
		assignAgg(&d.Agg, &Agg{n: d.n})
		return
	}
	*c = v
}

func assignAgg(d, s *Agg) {
	d.ext = s.ext
	for i := 0; i < d.n; i++ {
		if i >= len(s.cells) && i >= len(d.cells) {
			break
		}
		storeCell(d.at(i), s.get(i))
	}
}

type Slice struct {
	arr           *Agg
	off, len, cap int
}

type SymStr struct{ b []Value }

type AliasStr struct{ s *Slice }

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *Fn
	env []Value
}

type Tuple []Value

type Map struct {
	keys, vals []Value
	live       []bool
	idx        map[any]int
	n          int
	sym        bool // some key symbolic
	kt         types.Type
}

type Chan struct {
	buf    []Value
	cap    int
	closed bool
	recvq  int
	// rendezvous
	sendq []*sendWait
}

type sendWait struct {
	v    Value
	done bool
	g    *gor
}

// engine control-flow panics
type unsupported struct{ msg string }
type pathEnd struct{ why string }
type targetPanic struct {
	v     Value // interface value
	msg   string
	stack string
}

func cint(v uint64) Value { return Value{n: v} }
func cbool(b bool) Value {
	if b {
		return Value{n: 1}
	}
	return Value{}
}

func cstr(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{o: s}
}

func cfloat(f float64) Value { return Value{n: math.Float64bits(f)} }

// strBytes returns the bytes of a string value.
func strLen(v Value) int {
	switch s := v.o.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	case *AliasStr:
		return s.s.len
	}
	panic(unsupported{fmt.Sprintf("strLen of %T", v.o)})
}

func strBytes(v Value) []Value {
	switch s := v.o.(type) {
	case nil:
		return nil
	case string:
		out := make([]Value, len(s))
		for i := range out {
			out[i].n = uint64(s[i])
		}
		return out
	case *SymStr:
		return s.b
	case *AliasStr:
		return sliceVals(s.s)
	}
	panic(unsupported{fmt.Sprintf("strBytes of %T", v.o)})
}

func sliceVals(s *Slice) []Value {
	if s == nil {
		return nil
	}
	out := make([]Value, s.len)
	for i := range out {
		out[i] = s.arr.get(s.off + i)
	}
	return out
}

// mkStr builds a string from bytes, concrete when possible.
func mkStr(b []Value) Value {
	for _, x := range b {
		if x.o != nil {
			return Value{o: &SymStr{append([]Value{}, b...)}}
		}
	}
	if len(b) == 0 {
		return Value{}
	}
	r := make([]byte, len(b))
	for i := range b {
		r[i] = byte(b[i].n)
	}
	return Value{o: string(r)}
}

// concStr returns the Go string when fully concrete.
func concStr(v Value) (string, bool) {
	switch s := v.o.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	case *SymStr:
		return "", false
	case *AliasStr:
		m := mkStr(sliceVals(s.s))
		if m.o == nil {
			return "", true
		}
		r, ok := m.o.(string)
		return r, ok
	}
	return "", false
}

func asSlice(v Value) *Slice {
	switch s := v.o.(type) {
	case nil:
		return nil
	case *Slice:
		return s
	}
	panic(unsupported{fmt.Sprintf("asSlice of %T", v.o)})
}

func newSlice(vals []Value) Value {
	return Value{o: &Slice{arr: &Agg{cells: vals, n: len(vals)}, len: len(vals), cap: len(vals)}}
}

func bytesSlice(b []byte) Value {
	vals := make([]Value, len(b))
	for i := range b {
		vals[i].n = uint64(b[i])
	}
	return newSlice(vals)
}

// ---- type helpers ----

func intInfo(t types.Type) (w int, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func fieldCount(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		return u.NumFields()
	case *types.Array:
		return int(u.Len())
	}
	return -1
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func fnName(f *ssa.Function) string { return f.String() }

// debug formatting
func (m *M) dbg(v Value, depth int) string {
	switch o := v.o.(type) {
	case nil:
		return fmt.Sprintf("%d", v.n)
	case string:
		return fmt.Sprintf("%q", o)
	case *Term:
		return "sym"
	case *Slice:
		if depth <= 0 {
			return "[...]"
		}
		var sb strings.Builder
		sb.WriteByte('[')
		for i := 0; i < o.len && i < 16; i++ {
			sb.WriteString(m.dbg(o.arr.get(o.off+i), depth-1) + " ")
		}
		sb.WriteByte(']')
		return sb.String()
	case *Iface:
		return fmt.Sprintf("%s(%s)", o.t, m.dbg(o.v, depth-1))
	case *SAgg:
		if depth <= 0 {
			return "{...}"
		}
		var sb strings.Builder
		sb.WriteByte('{')
		for i := 0; i < len(o.cells) && i < 16; i++ {
			sb.WriteString(m.dbg(o.cells[i], depth-1) + " ")
		}
		sb.WriteByte('}')
		return sb.String()
	}
	return fmt.Sprintf("%T", v.o)
}
