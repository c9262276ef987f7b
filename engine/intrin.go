package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const ndPkg = "github.com/go-bond/bond/zzverif/nd"

var intrinsics map[string]intrinsic
var genIntrinsics map[string]func(f *ssa.Function) intrinsic

func nop(m *M, fr *frame, a []Value) Value { return Value{} }

func argBytes(v Value) []Value {
	switch v.o.(type) {
	case nil:
		return nil
	case *Slice:
		return sliceVals(v.o.(*Slice))
	}
	return strBytes(v)
}

func mathf(f func(float64) float64) intrinsic {
	return func(m *M, fr *frame, a []Value) Value {
		return cfloat(f(m.float(a[0])))
	}
}

func floatEq(a, b Value) Value {
	return cbool(math.Float64frombits(a.n) == math.Float64frombits(b.n))
}

// fint is a float that holds a symbolic integer of at most 32 bits exactly.
type fint struct{ t *Term } // signed, 64 bits

// float concretises a float.
func (m *M) float(v Value) float64 {
	switch o := v.o.(type) {
	case nil:
		return math.Float64frombits(v.n)
	case *fint:
		return float64(int64(m.conc(Value{o: o.t}, 64)))
	}
	panic(unsupported{"symbolic float"})
}

// fterm is a float as an integer, if it is one.
func (m *M) fterm(v Value) (*Term, bool) {
	switch o := v.o.(type) {
	case nil:
		f := math.Float64frombits(v.n)
		if f == math.Trunc(f) && math.Abs(f) < 1<<53 {
			return m.b.BV(uint64(int64(f)), 64), true
		}
	case *fint:
		return o.t, true
	}
	return nil, false
}

// floatCmp compares floats of which one is symbolic.
func (m *M) floatCmp(op token.Token, a, b Value) Value {
	x, ok1 := m.fterm(a)
	y, ok2 := m.fterm(b)
	if !ok1 || !ok2 {
		a, b = cfloat(m.float(a)), cfloat(m.float(b))
		if op == token.EQL {
			return floatEq(a, b)
		}
		return floatOp(op, math.Float64frombits(a.n), math.Float64frombits(b.n), false)
	}
	switch op {
	case token.EQL:
		return m.tv(m.b.Eq(x, y))
	case token.LSS:
		return m.tv(m.b.Slt(x, y))
	case token.GTR:
		return m.tv(m.b.Slt(y, x))
	case token.LEQ:
		return m.tv(m.b.Not(m.b.Slt(y, x)))
	}
	return m.tv(m.b.Not(m.b.Slt(x, y)))
}

func ident(m *M, fr *frame, a []Value) Value { return a[0] }

func ret(v Value) intrinsic { return func(m *M, fr *frame, a []Value) Value { return v } }

func (m *M) load(p Value) Value {
	return copyVal(m.ptr(p).get(int(p.n)))
}

func (m *M) storeP(p, v Value) {
	storeCell(m.ptr(p).at(int(p.n)), v)
}

func atomics(tab map[string]intrinsic) {
	for _, t := range []struct {
		n string
		w int
	}{{"Int32", 32}, {"Uint32", 32}, {"Int64", 64}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", -1}} {
		w := t.w
		tab["sync/atomic.Load"+t.n] = func(m *M, fr *frame, a []Value) Value {
			m.both(avKey{a[0]})
			return m.load(a[0])
		}
		tab["sync/atomic.Store"+t.n] = func(m *M, fr *frame, a []Value) Value {
			m.both(avKey{a[0]})
			m.storeP(a[0], a[1])
			return Value{}
		}
		tab["sync/atomic.Swap"+t.n] = func(m *M, fr *frame, a []Value) Value {
			m.both(avKey{a[0]})
			o := m.load(a[0])
			m.storeP(a[0], a[1])
			return o
		}
		tab["sync/atomic.CompareAndSwap"+t.n] = func(m *M, fr *frame, a []Value) Value {
			m.both(avKey{a[0]})
			o := m.load(a[0])
			var eq Value
			if w < 0 {
				eq = cbool(o.o == a[1].o && o.n == a[1].n)
			} else {
				eq = m.tv(m.b.Eq(m.term(o, w), m.term(a[1], w)))
			}
			if m.truth(eq) {
				m.storeP(a[0], a[2])
				return cbool(true)
			}
			return cbool(false)
		}
		if w > 0 {
			tab["sync/atomic.Add"+t.n] = func(m *M, fr *frame, a []Value) Value {
				m.both(avKey{a[0]})
				r := m.arith(OAdd, m.load(a[0]), a[1], w)
				m.storeP(a[0], r)
				return r
			}
		}
	}
	// names used by internal/runtime/atomic-like linknames
	for _, k := range []string{"Load", "Store", "Swap", "CompareAndSwap"} {
		tab["sync/atomic.(*Value)."+k] = nil
		delete(tab, "sync/atomic.(*Value)."+k)
	}
	tab["(*sync/atomic.Value).Load"] = func(m *M, fr *frame, a []Value) Value {
		m.acquire(avKey{a[0]})
		c := m.side[avKey{a[0]}]
		if c == nil {
			return Value{}
		}
		return c.(Value)
	}
	tab["(*sync/atomic.Value).Store"] = func(m *M, fr *frame, a []Value) Value {
		if a[1].o == nil {
			m.rtPanic("sync/atomic: store of nil value into Value")
		}
		m.release(avKey{a[0]})
		m.side[avKey{a[0]}] = a[1]
		return Value{}
	}
}

type avKey struct{ p Value }

type poolState struct{ items []Value }

func (m *M) nextVar(kind string, w int) Value {
	name := fmt.Sprintf("v%d_%s", m.nvar, kind)
	m.nvar++
	return Value{o: m.b.Var(name, w)}
}

func (m *M) scalarND(kind string, w int) intrinsic { return nil }

func ndScalar(kind string, w int) intrinsic {
	return func(m *M, fr *frame, a []Value) Value {
		v := m.nextVar(kind, w)
		m.nd = append(m.nd, ndval{Kind: kind, W: w, t: []*Term{v.o.(*Term)}})
		return v
	}
}

func iface(t types.Type, v Value) Value { return Value{o: &Iface{t: t, v: v}} }

func (m *M) errorsNew(msg string) Value {
	pt := m.p.pkgs["errors"]
	t := types.NewPointer(pt.Type("errorString").Type())
	pt2 := m.p.ptrTo(pt.Type("errorString").Type())
	_ = t
	s := &SAgg{Agg{n: 1, cells: []Value{cstr(msg)}}}
	return iface(pt2, Value{o: &Agg{n: 1, cells: []Value{{o: s}}}})
}

// ptrTo returns a canonical pointer type.
func (p *Prog) ptrTo(t types.Type) types.Type {
	p.initMu.Lock()
	defer p.initMu.Unlock()
	if p.ptrs == nil {
		p.ptrs = map[types.Type]types.Type{}
	}
	if r, ok := p.ptrs[t]; ok {
		return r
	}
	r := types.NewPointer(t)
	p.ptrs[t] = r
	return r
}

func (m *M) findMethod(t types.Type, name string) *Fn {
	k := methNameKey{t, name}
	m.p.mu.RLock()
	f, ok := m.p.methNm[k]
	m.p.mu.RUnlock()
	if ok {
		return f
	}
	ms := m.p.ssa.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name && s.Obj().Exported() {
			sf := m.p.ssa.MethodValue(s)
			if sf != nil {
				f = m.p.fn(sf)
			}
			break
		}
	}
	m.p.mu.Lock()
	m.p.methNm[k] = f
	m.p.mu.Unlock()
	return f
}

type methNameKey struct {
	t types.Type
	n string
}

// fmtArg renders one argument for a formatting verb.
func (m *M) fmtArg(fr *frame, v Value, verb byte) string {
	if v.o == nil {
		if verb == 'd' {
			return "%!d(<nil>)"
		}
		return "<nil>"
	}
	i, ok := v.o.(*Iface)
	if !ok {
		return "?"
	}
	if verb == 'T' {
		return i.t.String()
	}
	if verb == 'v' || verb == 's' || verb == 'w' || verb == 'q' {
		for _, nm := range []string{"Error", "String"} {
			if f := m.findMethod(i.t, nm); f != nil && f.ssa.Signature.Params().Len() == 0 && f.ssa.Signature.Results().Len() == 1 && isString(f.ssa.Signature.Results().At(0).Type()) {
				if _, isP := i.t.Underlying().(*types.Pointer); isP && i.v.o == nil {
					return "<nil>"
				}
				s, ok := concStr(m.call(f, []Value{i.v}, nil, fr))
				if !ok {
					return "<sym>"
				}
				return s
			}
		}
	}
	return m.fmtVal(i.t, i.v, verb)
}

func (m *M) fmtVal(t types.Type, v Value, verb byte) string {
	if _, isT := v.o.(*Term); isT {
		m.side["symfmt"] = true
		return "<sym>"
	}
	if isString(t) {
		s, ok := concStr(v)
		if !ok {
			m.side["symfmt"] = true
			return "<sym>"
		}
		if verb == 'q' {
			return strconv.Quote(s)
		}
		if verb == 'x' {
			return fmt.Sprintf("%x", s)
		}
		return s
	}
	if w, sg, ok := intInfo(t); ok {
		if w == 0 {
			return fmt.Sprint(v.n != 0)
		}
		f := "%" + string(verb)
		if verb == 'v' || verb == 's' {
			f = "%d"
		}
		if sg {
			return fmt.Sprintf(f, sext64(v.n, w))
		}
		return fmt.Sprintf(f, v.n)
	}
	if isFloat(t) {
		return fmt.Sprint(m.float(v))
	}
	if isByteSlice(t) {
		s := mkStr(sliceVals(asSlice(v)))
		if cs, ok := concStr(s); ok {
			if verb == 'x' {
				return fmt.Sprintf("%x", cs)
			}
			if verb == 's' {
				return cs
			}
			return fmt.Sprint([]byte(cs))
		}
		m.side["symfmt"] = true
		return "<sym>"
	}
	switch v.o.(type) {
	case nil:
		return "<nil>"
	}
	return "<" + t.String() + ">"
}

// sprintf formats and collects %w operands.
func (m *M) sprintf(fr *frame, format string, args []Value, exact bool) (Value, []Value) {
	var out, wrapped []Value
	put := func(t string) {
		for k := 0; k < len(t); k++ {
			out = append(out, Value{n: uint64(t[k])})
		}
	}
	n := 0
	for i := 0; i < len(format); i++ {
		c := format[i]
		if c != '%' {
			out = append(out, Value{n: uint64(c)})
			continue
		}
		i++
		flags := ""
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			flags += string(format[i])
			i++
		}
		if i >= len(format) {
			break
		}
		verb := format[i]
		if verb == '%' {
			put("%")
			continue
		}
		if n >= len(args) {
			put("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[n]
		n++
		if verb == 'w' {
			wrapped = append(wrapped, a)
		}
		out = append(out, m.fmtBytes(fr, a, verb, flags, exact)...)
	}
	return mkStr(out), wrapped
}

// fmtBytes renders one argument; with exact set, symbolic strings keep their
// bytes and symbolic bytes are concretised.
func (m *M) fmtBytes(fr *frame, a Value, verb byte, flags string, exact bool) []Value {
	if it, ok := a.o.(*Iface); ok {
		hasM := false
		if verb == 'v' || verb == 's' || verb == 'w' || verb == 'q' || verb == 'x' {
			hasM = m.findMethod(it.t, "Error") != nil || m.findMethod(it.t, "String") != nil
		}
		if !hasM && verb != 'T' {
			if exact && flags == "" {
				var bs []Value
				if _, sl := it.v.o.(*Slice); sl && isByteSlice(it.t) {
					bs = sliceVals(asSlice(it.v))
				} else if isString(it.t) {
					bs = strBytes(it.v)
				}
				if verb == 's' || verb == 'v' && isString(it.t) {
					if bs != nil {
						return bs
					}
				}
				if verb == 'x' && bs != nil {
					var out []Value
					for _, b := range bs {
						for _, sh := range []int{4, 0} {
							nib := Value{n: b.n >> uint(sh) & 15}
							if b.o != nil {
								nib = m.tv(m.b.ZExt(m.b.Extract(m.term(b, 8), sh+3, sh), 8))
							}
							d := m.arith(OAdd, nib, Value{n: '0'}, 8)
							l := m.arith(OAdd, nib, Value{n: 'a' - 10}, 8)
							out = append(out, m.ite(m.less(nib, Value{n: 10}, 8, false), d, l, 8))
						}
					}
					return out
				}
				if w, _, ok := intInfo(it.t); ok && w > 0 && w <= 8 && it.v.o != nil {
					it = &Iface{t: it.t, v: Value{n: m.conc(it.v, w)}}
					a = Value{o: it}
				}
			}
			if g, ok := m.nativeArg(it.t, it.v); ok {
				return strBytes(cstr(fmt.Sprintf("%"+flags+string(verb), g)))
			}
		}
	}
	t := m.fmtArg(fr, a, verb)
	if flags != "" && (verb == 's' || verb == 'v' || verb == 'q') {
		t = fmt.Sprintf("%"+flags+"s", t)
	}
	return strBytes(cstr(t))
}

// nativeArg converts a concrete value of a basic type, or a slice or array of
// such, for formatting.
func (m *M) nativeArg(t types.Type, v Value) (any, bool) {
	if _, sym := v.o.(*Term); sym {
		return nil, false
	}
	if m.findMethod(t, "Error") != nil || m.findMethod(t, "String") != nil {
		return nil, false
	}
	if isString(t) {
		return firstOK(concStr(v))
	}
	if w, sg, ok := intInfo(t); ok {
		if v.o != nil {
			return nil, false
		}
		if w == 0 {
			return v.n != 0, true
		}
		if sg {
			if w == 32 {
				return int32(v.n), true
			}
			return sext64(v.n, w), true
		}
		if w == 8 {
			return uint8(v.n), true
		}
		return v.n, true
	}
	if isFloat(t) {
		if v.o != nil {
			return nil, false
		}
		return m.float(v), true
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		sl := asSlice(v)
		if isByteSlice(t) {
			cs, ok := concStr(mkStr(sliceVals(sl)))
			return []byte(cs), ok
		}
		if _, isI := u.Elem().Underlying().(*types.Interface); isI {
			return nil, false
		}
		r := []any{}
		for _, x := range sliceVals(sl) {
			g, ok := m.nativeArg(u.Elem(), x)
			if !ok {
				return nil, false
			}
			r = append(r, g)
		}
		return r, true
	}
	return nil, false
}

func firstOK(s string, ok bool) (any, bool) { return s, ok }

func (m *M) errorsIs(fr *frame, err, target Value) bool {
	for depth := 0; depth < 50; depth++ {
		if err.o == nil || target.o == nil {
			return err.o == nil && target.o == nil
		}
		e, t := err.o.(*Iface), target.o.(*Iface)
		if types.Identical(e.t, t.t) && types.Comparable(t.t) && m.truth(m.eq(e.v, t.v, e.t)) {
			return true
		}
		if f := m.findMethod(e.t, "Is"); f != nil && f.ssa.Signature.Params().Len() == 1 {
			if m.truth(m.call(f, []Value{e.v, target}, nil, fr)) {
				return true
			}
		}
		f := m.findMethod(e.t, "Unwrap")
		if f == nil {
			return false
		}
		r := m.call(f, []Value{e.v}, nil, fr)
		if r.o == nil {
			return false
		}
		if s, ok := r.o.(*Slice); ok {
			for _, x := range sliceVals(s) {
				if m.errorsIs(fr, x, target) {
					return true
				}
			}
			return false
		}
		err = r
	}
	return false
}

func (m *M) indexByte(b []Value, c Value) Value {
	for i, x := range b {
		if m.truth(m.eq8(x, c)) {
			return Value{n: uint64(i)}
		}
	}
	return Value{n: ^uint64(0)}
}

func (m *M) eq8(a, b Value) Value {
	if a.o == nil && b.o == nil {
		return cbool(a.n&0xff == b.n&0xff)
	}
	return m.tv(m.b.Eq(m.term(a, 8), m.term(b, 8)))
}

func (m *M) indexSub(s, sub []Value) Value {
	for i := 0; i+len(sub) <= len(s); i++ {
		if m.truth(m.bytesEq(s[i:i+len(sub)], sub)) {
			return Value{n: uint64(i)}
		}
	}
	return Value{n: ^uint64(0)}
}

// uf is an Ackermannised uninterpreted function over byte strings and scalars.
func (m *M) uf(name string, args []Value, w int) Value {
	if m.ufs == nil {
		m.ufs = map[string][]ufEntry{}
	}
	// flatten args to a single comparable list of bytes
	for _, e := range m.ufs[name] {
		if len(e.args) != len(args) {
			continue
		}
		same := true
		for i := range args {
			if e.args[i] != args[i] {
				same = false
				break
			}
		}
		if same {
			return e.res
		}
	}
	v := m.nextVar("uf_"+name, w)
	for _, e := range m.ufs[name] {
		if len(e.args) != len(args) {
			continue
		}
		same := m.bytesEq(e.args, args)
		m.assumeNoCheck(m.b.Implies(m.term(same, 0), m.b.Eq(m.term(e.res, w), v.o.(*Term))))
	}
	m.ufs[name] = append(m.ufs[name], ufEntry{append([]Value{}, args...), v})
	return v
}

// assumeNoCheck adds a constraint known to be satisfiable in extension.
func (m *M) assumeNoCheck(c *Term) { m.assume(m.tv(c)) }

func init() {
	tab := map[string]intrinsic{}
	intrinsics = tab
	gen := map[string]func(f *ssa.Function) intrinsic{}
	genIntrinsics = gen
	atomics(tab)

	cmp := func(m *M, fr *frame, a []Value) Value { return m.bytesCompare(argBytes(a[0]), argBytes(a[1])) }
	eq := func(m *M, fr *frame, a []Value) Value { return m.bytesEq(argBytes(a[0]), argBytes(a[1])) }
	tab["internal/bytealg.Compare"] = cmp
	tab["bytes.Compare"] = cmp
	tab["strings.Compare"] = cmp
	tab["bytes.Equal"] = eq
	tab["internal/bytealg.Equal"] = eq
	ib := func(m *M, fr *frame, a []Value) Value { return m.indexByte(argBytes(a[0]), a[1]) }
	tab["internal/bytealg.IndexByte"] = ib
	tab["internal/bytealg.IndexByteString"] = ib
	tab["strings.IndexByte"] = ib
	tab["bytes.IndexByte"] = ib
	isub := func(m *M, fr *frame, a []Value) Value { return m.indexSub(argBytes(a[0]), argBytes(a[1])) }
	tab["strings.Index"] = isub
	tab["bytes.Index"] = isub
	tab["internal/bytealg.MakeNoZero"] = func(m *M, fr *frame, a []Value) Value {
		n := int(m.conc(a[0], 64))
		return Value{o: &Slice{arr: &Agg{n: n}, len: n, cap: n}}
	}
	cnt := func(m *M, fr *frame, a []Value) Value {
		n := uint64(0)
		for _, x := range argBytes(a[0]) {
			if m.truth(m.eq8(x, a[1])) {
				n++
			}
		}
		return Value{n: n}
	}
	tab["internal/bytealg.Count"] = cnt
	tab["internal/bytealg.CountString"] = cnt
	tab["strings.noescape"] = ident
	tab["internal/abi.NoEscape"] = ident
	tab["(*strings.Builder).copyCheck"] = nop
	tab["internal/race.Acquire"] = nop
	tab["runtime.GOMAXPROCS"] = ret(Value{n: 8})
	tab["runtime.NumCPU"] = ret(Value{n: 8})
	tab["runtime.Gosched"] = func(m *M, fr *frame, a []Value) Value {
		if n := m.pick(m.cur); n != nil {
			m.switchTo(n)
		}
		return Value{}
	}
	tab["runtime.KeepAlive"] = nop
	tab["runtime.SetFinalizer"] = nop
	tab["runtime.GC"] = nop

	// ---- sync ----
	tab["(*sync.Mutex).Lock"] = func(m *M, fr *frame, a []Value) Value { m.lock(a[0]); return Value{} }
	tab["(*sync.Mutex).Unlock"] = func(m *M, fr *frame, a []Value) Value { m.unlock(a[0]); return Value{} }
	tab["(*sync.Mutex).TryLock"] = func(m *M, fr *frame, a []Value) Value {
		s := m.mutex(a[0])
		if s.w {
			return cbool(false)
		}
		s.w = true
		m.acquire(relKey{s, false})
		m.acquire(relKey{s, true})
		return cbool(true)
	}
	tab["(*sync.RWMutex).Lock"] = tab["(*sync.Mutex).Lock"]
	tab["(*sync.RWMutex).Unlock"] = tab["(*sync.Mutex).Unlock"]
	tab["(*sync.RWMutex).TryLock"] = func(m *M, fr *frame, a []Value) Value {
		s := m.mutex(a[0])
		if s.w || s.readers > 0 {
			return cbool(false)
		}
		s.w = true
		m.acquire(relKey{s, false})
		m.acquire(relKey{s, true})
		return cbool(true)
	}
	tab["(*sync.RWMutex).TryRLock"] = func(m *M, fr *frame, a []Value) Value {
		s := m.mutex(a[0])
		if s.w {
			return cbool(false)
		}
		s.readers++
		m.acquire(relKey{s, false})
		return cbool(true)
	}
	overlaps := func(m *M, fr *frame, a []Value) Value {
		x, y := asSlice(a[0]), asSlice(a[1])
		return cbool(x != nil && y != nil && x.arr == y.arr && x.off < y.off+y.len && y.off < x.off+x.len)
	}
	tab["slices.overlaps"] = overlaps
	tab["golang.org/x/exp/slices.overlaps"] = overlaps
	startIdx := func(m *M, fr *frame, a []Value) Value {
		x, y := asSlice(a[0]), asSlice(a[1])
		return Value{n: uint64(y.off - x.off)}
	}
	tab["slices.startIdx"] = startIdx
	tab["golang.org/x/exp/slices.startIdx"] = startIdx
	tab["maps.clone"] = func(m *M, fr *frame, a []Value) Value {
		f := a[0].o.(*Iface)
		if f.v.o == nil {
			return a[0]
		}
		o := f.v.o.(*Map)
		m.mapAcc(fr, o, false)
		c := &Map{idx: map[any]int{}, kt: o.kt}
		for i, k := range o.keys {
			if o.live[i] {
				m.mapSet(c, copyVal(k), copyVal(o.vals[i]))
			}
		}
		return Value{o: &Iface{t: f.t, v: Value{o: c}}}
	}
	tab["(*sync.RWMutex).RLock"] = func(m *M, fr *frame, a []Value) Value { m.rlock(a[0]); return Value{} }
	tab["(*sync.RWMutex).RUnlock"] = func(m *M, fr *frame, a []Value) Value { m.runlock(a[0]); return Value{} }
	tab["(*sync.Pool).Get"] = func(m *M, fr *frame, a []Value) Value {
		k := avKey{a[0]}
		m.acquire(k)
		ps, _ := m.side[k].(*poolState)
		if ps != nil && len(ps.items) > 0 {
			v := ps.items[len(ps.items)-1]
			ps.items = ps.items[:len(ps.items)-1]
			if m.poolGot != nil {
				m.call(m.poolGot.fn, []Value{v}, m.poolGot.env, fr)
			}
			return v
		}
		pt := m.p.pkgs["sync"].Type("Pool").Type()
		st := pt.Underlying().(*types.Struct)
		fi := -1
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				fi = i
			}
		}
		nf := m.ptr(a[0]).child(int(a[0].n), st.NumFields()).get(fi)
		if nf.o == nil {
			return Value{}
		}
		cl := nf.o.(*Closure)
		return m.call(cl.fn, nil, cl.env, fr)
	}
	tab["(*sync.Pool).Put"] = func(m *M, fr *frame, a []Value) Value {
		if a[1].o == nil {
			return Value{}
		}
		if m.poolPut != nil {
			m.call(m.poolPut.fn, []Value{a[1]}, m.poolPut.env, fr)
		}
		k := avKey{a[0]}
		m.release(k)
		ps, _ := m.side[k].(*poolState)
		if ps == nil {
			ps = &poolState{}
			m.side[k] = ps
		}
		ps.items = append(ps.items, a[1])
		return Value{}
	}
	type wg struct{ n int64 }
	wgOf := func(m *M, p Value) *wg {
		w, _ := m.side[avKey{p}].(*wg)
		if w == nil {
			w = &wg{}
			m.side[avKey{p}] = w
		}
		return w
	}
	tab["(*sync.WaitGroup).Add"] = func(m *M, fr *frame, a []Value) Value {
		w := wgOf(m, a[0])
		m.release(avKey{a[0]})
		w.n += int64(m.conc(a[1], 64))
		if w.n < 0 {
			m.targetPanic(iface(types.Typ[types.String], cstr("sync: negative WaitGroup counter")))
		}
		return Value{}
	}
	tab["(*sync.WaitGroup).Done"] = func(m *M, fr *frame, a []Value) Value {
		w := wgOf(m, a[0])
		m.release(avKey{a[0]})
		w.n--
		if w.n < 0 {
			m.targetPanic(iface(types.Typ[types.String], cstr("sync: negative WaitGroup counter")))
		}
		return Value{}
	}
	tab["(*sync.WaitGroup).Wait"] = func(m *M, fr *frame, a []Value) Value {
		w := wgOf(m, a[0])
		m.block(func() bool { return w.n == 0 })
		m.acquire(avKey{a[0]})
		return Value{}
	}
	tab["(*sync.Once).Do"] = func(m *M, fr *frame, a []Value) Value {
		k := avKey{a[0]}
		o, _ := m.side[k].(*int)
		if o == nil {
			o = new(int)
			m.side[k] = o
		}
		if *o == 0 {
			*o = 1
			defer func() { *o = 2; m.release(k) }()
			cl := a[1].o
			if c, ok := cl.(*Closure); ok {
				m.call(c.fn, nil, c.env, fr)
			} else {
				cl.(nativeFn)(m, fr, nil)
			}
		} else if *o == 1 {
			m.block(func() bool { return *o == 2 })
		}
		m.acquire(k)
		return Value{}
	}

	// ---- sync.Cond ----
	type condState struct{ waiting, tickets int }
	condOf := func(m *M, p Value) *condState {
		c, _ := m.side[avKey{p}].(*condState)
		if c == nil {
			c = &condState{}
			m.side[avKey{p}] = c
		}
		return c
	}
	tab["(*sync.Cond).Wait"] = func(m *M, fr *frame, a []Value) Value {
		c := condOf(m, a[0])
		st := m.p.pkgs["sync"].Type("Cond").Type().Underlying().(*types.Struct)
		var lk *Iface
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "L" {
				lk = m.ptr(a[0]).child(int(a[0].n), st.NumFields()).get(i).o.(*Iface)
			}
		}
		call := func(nm string) {
			f := m.findMethod(lk.t, nm)
			m.call(f, []Value{lk.v}, nil, fr)
		}
		c.waiting++
		call("Unlock")
		m.block(func() bool { return c.tickets > 0 })
		c.tickets--
		c.waiting--
		call("Lock")
		return Value{}
	}
	tab["(*sync.Cond).Signal"] = func(m *M, fr *frame, a []Value) Value {
		if c := condOf(m, a[0]); c.tickets < c.waiting {
			c.tickets++
		}
		return Value{}
	}
	tab["(*sync.Cond).Broadcast"] = func(m *M, fr *frame, a []Value) Value {
		c := condOf(m, a[0])
		c.tickets = c.waiting
		return Value{}
	}

	// ---- time and randomness: a clock that advances a microsecond per reading,
	// timers that do not fire, a fixed random sequence ----
	tick := func(m *M) int64 {
		n, _ := m.side["clock"].(int64)
		n++
		m.side["clock"] = n
		return n * 1000
	}
	tab["time.now"] = func(m *M, fr *frame, a []Value) Value {
		n := tick(m)
		return Value{o: Tuple{{n: 1700000000}, {n: uint64(n)}, {n: uint64(n) + 1}}}
	}
	tab["time.runtimeNano"] = func(m *M, fr *frame, a []Value) Value { return Value{n: uint64(tick(m)) + 1} }
	tab["time.startTimer"] = nop
	tab["time.stopTimer"] = ret(cbool(true))
	tab["time.resetTimer"] = ret(cbool(true))
	tab["time.Sleep"] = tab["runtime.Gosched"]
	frand := func(m *M, fr *frame, a []Value) Value { return Value{n: uint64(tick(m)) * 2654435761 & 0x7fffffff} }
	for _, n := range []string{"math/rand.fastrand64", "math/rand.runtime_rand", "os.fastrand", "hash/maphash.runtime_fastrand64", "math/rand/v2.runtime_rand"} {
		tab[n] = frand
	}

	// ---- math ----
	tab["math.Float64bits"] = func(m *M, fr *frame, a []Value) Value { return Value{n: math.Float64bits(m.float(a[0]))} }
	tab["math.Float64frombits"] = ident
	tab["math.Float32bits"] = func(m *M, fr *frame, a []Value) Value {
		return Value{n: uint64(math.Float32bits(float32(m.float(a[0]))))}
	}
	tab["math.Float32frombits"] = func(m *M, fr *frame, a []Value) Value {
		return cfloat(float64(math.Float32frombits(uint32(a[0].n))))
	}
	tab["math.Log"] = mathf(math.Log)
	tab["math.Ceil"] = mathf(math.Ceil)
	tab["math.Floor"] = mathf(math.Floor)
	tab["math.Sqrt"] = mathf(math.Sqrt)
	tab["math.Exp"] = mathf(math.Exp)
	tab["math.Abs"] = mathf(math.Abs)
	tab["math.Pow"] = func(m *M, fr *frame, a []Value) Value {
		return cfloat(math.Pow(m.float(a[0]), m.float(a[1])))
	}

	// ---- errors / fmt ----
	tab["errors.Is"] = func(m *M, fr *frame, a []Value) Value { return cbool(m.errorsIs(fr, a[0], a[1])) }
	tab["errors.As"] = func(m *M, fr *frame, a []Value) Value {
		err := a[0]
		t := a[1].o.(*Iface)
		tt := deref(t.t)
		for err.o != nil {
			e := err.o.(*Iface)
			if it, ok := tt.Underlying().(*types.Interface); ok {
				if types.Implements(e.t, it) {
					m.storeP(t.v, err)
					return cbool(true)
				}
			} else if types.Identical(e.t, tt) {
				m.storeP(t.v, e.v)
				return cbool(true)
			}
			f := m.findMethod(e.t, "Unwrap")
			if f == nil {
				return cbool(false)
			}
			err = m.call(f, []Value{e.v}, nil, fr)
			if _, ok := err.o.(*Slice); ok {
				return cbool(false)
			}
		}
		return cbool(false)
	}
	tab["fmt.Errorf"] = func(m *M, fr *frame, a []Value) Value {
		f, _ := concStr(a[0])
		sv0, w := m.sprintf(fr, f, sliceVals(asSlice(a[1])), false)
		s, _ := concStr(sv0)
		if len(w) == 0 || w[0].o == nil {
			return m.errorsNew(s)
		}
		pk := m.p.pkgs["fmt"]
		if len(w) == 1 {
			sv := &SAgg{Agg{n: 2, cells: []Value{cstr(s), w[0]}}}
			return iface(m.p.ptrTo(pk.Type("wrapError").Type()), Value{o: &Agg{n: 1, cells: []Value{{o: sv}}}})
		}
		sv := &SAgg{Agg{n: 2, cells: []Value{cstr(s), newSlice(w)}}}
		return iface(m.p.ptrTo(pk.Type("wrapErrors").Type()), Value{o: &Agg{n: 1, cells: []Value{{o: sv}}}})
	}
	tab["fmt.Sprintf"] = func(m *M, fr *frame, a []Value) Value {
		f, _ := concStr(a[0])
		s, _ := m.sprintf(fr, f, sliceVals(asSlice(a[1])), true)
		return s
	}
	tab["fmt.Sprint"] = func(m *M, fr *frame, a []Value) Value {
		var out []Value
		str := true
		for i, x := range sliceVals(asSlice(a[0])) {
			it, _ := x.o.(*Iface)
			isStr := it != nil && isString(it.t)
			if i > 0 && !isStr && !str {
				out = append(out, Value{n: ' '})
			}
			str = isStr
			out = append(out, m.fmtBytes(fr, x, 'v', "", true)...)
		}
		return mkStr(out)
	}
	tab["fmt.Sprintln"] = func(m *M, fr *frame, a []Value) Value {
		var out []Value
		for i, x := range sliceVals(asSlice(a[0])) {
			if i > 0 {
				out = append(out, Value{n: ' '})
			}
			out = append(out, m.fmtBytes(fr, x, 'v', "", true)...)
		}
		return mkStr(append(out, Value{n: '\n'}))
	}
	tab["fmt.Println"] = ret(Value{o: Tuple{{}, {}}})
	tab["fmt.Printf"] = ret(Value{o: Tuple{{}, {}}})
	tab["fmt.Print"] = ret(Value{o: Tuple{{}, {}}})

	// ---- strconv ----
	tab["strconv.Itoa"] = func(m *M, fr *frame, a []Value) Value {
		return cstr(strconv.Itoa(int(m.conc(a[0], 64))))
	}
	tab["strconv.FormatInt"] = func(m *M, fr *frame, a []Value) Value {
		return cstr(strconv.FormatInt(int64(m.conc(a[0], 64)), int(a[1].n)))
	}
	tab["strconv.FormatUint"] = func(m *M, fr *frame, a []Value) Value {
		return cstr(strconv.FormatUint(m.conc(a[0], 64), int(a[1].n)))
	}

	// ---- sort.Slice support ----
	swapper := func(m *M, fr *frame, a []Value) Value {
		s := asSlice(a[0].o.(*Iface).v)
		return Value{o: nativeFn(func(m *M, fr *frame, a []Value) Value {
			i, j := int(m.conc(a[0], 64)), int(m.conc(a[1], 64))
			if s == nil || i < 0 || j < 0 || i >= s.len || j >= s.len {
				m.rtPanic("reflect: slice index out of range")
			}
			x, y := copyVal(s.arr.get(s.off+i)), copyVal(s.arr.get(s.off+j))
			storeCell(s.arr.at(s.off+i), y)
			storeCell(s.arr.at(s.off+j), x)
			return Value{}
		})}
	}
	tab["internal/reflectlite.Swapper"] = swapper
	tab["reflect.Swapper"] = swapper
	reflectIntrinsics(tab)

	// ---- nondeterminism interface ----
	for _, k := range []struct {
		n string
		w int
	}{{"U8", 8}, {"U16", 16}, {"U32", 32}, {"U64", 64}, {"I8", 8}, {"I16", 16}, {"I32", 32}, {"I64", 64}, {"Bool", 0}} {
		tab[ndPkg+"."+k.n] = ndScalar(k.n, k.w)
	}
	tab[ndPkg+".Int"] = ndScalar("I64", 64)
	ndb := func(str bool) intrinsic {
		return func(m *M, fr *frame, a []Value) Value {
			n := int(m.conc(a[0], 64))
			vals := make([]Value, n)
			ts := make([]*Term, n)
			for i := range vals {
				vals[i] = m.nextVar("b", 8)
				ts[i] = vals[i].o.(*Term)
			}
			m.nd = append(m.nd, ndval{Kind: "Bytes", n: n, t: ts})
			if str {
				return mkStr(vals)
			}
			return newSlice(vals)
		}
	}
	tab[ndPkg+".Bytes"] = ndb(false)
	tab[ndPkg+".Str"] = ndb(true)
	tab[ndPkg+".Choose"] = func(m *M, fr *frame, a []Value) Value {
		n := int(m.conc(a[0], 64))
		k := m.choose(n)
		m.nd = append(m.nd, ndval{Kind: "Choose", val: []uint64{uint64(k)}})
		return Value{n: uint64(k)}
	}
	tab[ndPkg+".Assume"] = func(m *M, fr *frame, a []Value) Value { m.assume(a[0]); return Value{} }
	tab[ndPkg+".Assert"] = func(m *M, fr *frame, a []Value) Value {
		l, _ := concStr(a[1])
		m.assert(a[0], l)
		return Value{}
	}
	tab[ndPkg+".And"] = func(m *M, fr *frame, a []Value) Value {
		r := cbool(true)
		for _, x := range sliceVals(asSlice(a[0])) {
			r = m.and(r, x)
		}
		return r
	}
	tab[ndPkg+".Or"] = func(m *M, fr *frame, a []Value) Value {
		r := cbool(false)
		for _, x := range sliceVals(asSlice(a[0])) {
			r = m.or(r, x)
		}
		return r
	}
	tab[ndPkg+".Iff"] = func(m *M, fr *frame, a []Value) Value {
		return m.tv(m.b.Eq(m.term(a[0], 0), m.term(a[1], 0)))
	}
	tab[ndPkg+".Reach"] = func(m *M, fr *frame, a []Value) Value {
		l, _ := concStr(a[0])
		m.reached[l] = true
		return Value{}
	}
	tab[ndPkg+".Observe"] = func(m *M, fr *frame, a []Value) Value {
		l, _ := concStr(a[0])
		m.obs = append(m.obs, obsRec{l, sliceVals(asSlice(a[1]))})
		return Value{}
	}
	tab[ndPkg+".ObserveU"] = func(m *M, fr *frame, a []Value) Value {
		l, _ := concStr(a[0])
		var bs []Value
		if a[1].o == nil {
			for i := 7; i >= 0; i-- {
				bs = append(bs, Value{n: a[1].n >> uint(8*i) & 0xff})
			}
		} else {
			t := a[1].o.(*Term)
			for i := 7; i >= 0; i-- {
				bs = append(bs, m.tv(m.b.Extract(t, 8*i+7, 8*i)))
			}
		}
		m.obs = append(m.obs, obsRec{l, bs})
		return Value{}
	}
	tab[ndPkg+".IsSymbolic"] = ret(cbool(true))
	tab[ndPkg+".Interleave"] = func(m *M, fr *frame, a []Value) Value {
		m.inter = int(m.conc(a[0], 64))
		m.interOn, m.interOps = m.inter >= 0, false
		return Value{}
	}
	tab[ndPkg+".InterleaveOps"] = func(m *M, fr *frame, a []Value) Value {
		m.inter = int(m.conc(a[0], 64))
		m.interOn, m.interOps = m.inter >= 0, true
		return Value{}
	}
	tab[ndPkg+".P"] = func(m *M, fr *frame, a []Value) Value { m.syncPoint(false); return Value{} }
	tab[ndPkg+".WatchPools"] = func(m *M, fr *frame, a []Value) Value {
		m.poolPut, m.poolGot = nil, nil
		if a[0].o != nil {
			m.poolPut = a[0].o.(*Closure)
		}
		if a[1].o != nil {
			m.poolGot = a[1].o.(*Closure)
		}
		return Value{}
	}
	tab[ndPkg+".Calm"] = func(m *M, fr *frame, a []Value) Value { m.calm = a[0].n != 0; return Value{} }
	tab[ndPkg+".Op"] = func(m *M, fr *frame, a []Value) Value { m.syncPoint(true); return Value{} }
	tab[ndPkg+".Go"] = func(m *M, fr *frame, a []Value) Value {
		f := a[0].o
		m.spawn(func(fr *frame) {
			if c, ok := f.(*Closure); ok {
				m.call(c.fn, nil, c.env, fr)
			} else {
				f.(nativeFn)(m, fr, nil)
			}
		}, fr)
		return Value{}
	}
	tab[ndPkg+".Join"] = func(m *M, fr *frame, a []Value) Value {
		me := m.cur
		m.block(func() bool {
			for _, g := range m.gs {
				if g != me && !g.done {
					return false
				}
			}
			return true
		})
		m.joined()
		return Value{}
	}
	tab[ndPkg+".IteU64"] = func(m *M, fr *frame, a []Value) Value { return m.ite(a[0], a[1], a[2], 64) }
	tab[ndPkg+".Concrete"] = func(m *M, fr *frame, a []Value) Value { return Value{n: m.conc(a[0], 64)} }
	tab[ndPkg+".UF64"] = func(m *M, fr *frame, a []Value) Value {
		l, _ := concStr(a[0])
		return m.uf(l, argBytes(a[1]), 64)
	}
}
