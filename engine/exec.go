package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"math/bits"
	"os"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	m         *M
	fn        *Fn
	regs      []Value
	defers    []func(fr *frame)
	panicking *targetPanic
	caller    *frame
	result    Value
	pos       token.Pos
	blk       int
	rt        uint8 // see race.go
}

// Dec is one recorded decision of a path.
type Dec struct {
	kind uint8 // 0 branch, 1 conc-eq, 2 conc-neq, 3 choice
	fc   bool  // forced: the other side is infeasible
	val  uint64
	h    uint32
}

const (
	dBranch = iota
	dConcEq
	dConcNeq
	dChoice
)

type ndval struct {
	Kind string `json:"k"`
	W    int    `json:"w,omitempty"`
	t    []*Term
	val  []uint64
	n    int
}

type obsRec struct {
	label string
	v     []Value
}

// M is one worker's machine; path state is reset per path.
type M struct {
	p   *Prog
	b   *Builder
	ev  evaluator
	sol *Solver
	sh  *Shared
	ex  *Explorer

	globals  map[*ssa.Global]*Agg
	initing  map[*ssa.Global]bool
	prefix   []Dec
	pos      int
	trace    []Dec
	pc       []*Term
	facts    map[*Term]bool
	model    Assign
	steps    int64
	maxSteps int64
	nd       []ndval
	nvar     int
	obs      []obsRec
	depth    int
	gs       []*gor
	cur      *gor
	abort    any
	killed   bool
	ngor     int
	ufs      map[string][]ufEntry
	stack    []Value
	inter    int // remaining preemptions when interleaving, -1 off
	interOn  bool
	interOps bool
	calm     bool
	race     *racer
	poolPut  *Closure
	poolGot  *Closure
	sched    []int
	reached  map[string]bool
	clock    func(m *M) Value
	side     map[any]any // engine-private per-path side tables
	asserts  int
	concN    int
	tags     []string
	hashSeed int
	noFork   bool
	crossed  int
}

type ufEntry struct {
	args []Value
	res  Value
}

func (m *M) tv(t *Term) Value {
	if t.Op == OConst {
		return Value{n: t.Val}
	}
	return Value{o: t}
}

func (m *M) term(v Value, w int) *Term {
	if v.o == nil {
		if w == 0 {
			return m.b.Bool(v.n != 0)
		}
		return m.b.BV(v.n, w)
	}
	t, ok := v.o.(*Term)
	if !ok {
		panic(unsupported{fmt.Sprintf("term of %T", v.o)})
	}
	return t
}

func (m *M) not(v Value) Value {
	if v.o == nil {
		return Value{n: v.n ^ 1}
	}
	return m.tv(m.b.Not(v.o.(*Term)))
}

func (m *M) truth(v Value) bool {
	if v.o == nil {
		return v.n != 0
	}
	return m.branch(v.o.(*Term))
}

func (m *M) arith(op Op, a, b Value, w int) Value {
	return m.tv(m.b.Arith(op, m.term(a, w), m.term(b, w)))
}

func (m *M) less(a, b Value, w int, sg bool) Value {
	if sg {
		return m.tv(m.b.Slt(m.term(a, w), m.term(b, w)))
	}
	return m.tv(m.b.Ult(m.term(a, w), m.term(b, w)))
}

func (m *M) ite(c, x, y Value, w int) Value {
	if c.o == nil {
		if c.n != 0 {
			return x
		}
		return y
	}
	return m.tv(m.b.Ite(c.o.(*Term), m.term(x, w), m.term(y, w)))
}

func (m *M) shift(op token.Token, x, y Value, w int, sg bool, wy int, sgy bool) Value {
	if sgy {
		if y.o == nil {
			if sext64(y.n, wy) < 0 {
				m.rtPanic("negative shift amount")
			}
		} else if m.branch(m.b.Slt(y.o.(*Term), m.b.BV(0, wy))) {
			m.rtPanic("negative shift amount")
		}
	}
	if x.o == nil && y.o == nil {
		k := y.n
		if op == token.SHL {
			if k >= uint64(w) {
				return Value{}
			}
			return Value{n: x.n << k & mask(w)}
		}
		if sg {
			if k >= 64 {
				k = 63
			}
			return Value{n: uint64(sext64(x.n, w)>>k) & mask(w)}
		}
		if k >= uint64(w) {
			return Value{}
		}
		return Value{n: x.n >> k}
	}
	so := OShl
	if op == token.SHR {
		so = OLshr
		if sg {
			so = OAshr
		}
	}
	tx := m.term(x, w)
	if y.o == nil {
		k := y.n
		if k > uint64(w) {
			k = uint64(w)
		}
		if k == uint64(w) && w == 8 || k > mask(w) {
			k = uint64(w)
		}
		return m.tv(m.b.Shift(so, tx, m.b.BV(k, w)))
	}
	ty := y.o.(*Term)
	if wy > w {
		big := m.b.Not(m.b.Ult(ty, m.b.BV(uint64(w), wy)))
		sat := m.b.BV(0, w)
		if so == OAshr {
			sat = m.b.Shift(OAshr, tx, m.b.BV(uint64(w-1), w))
		}
		return m.tv(m.b.Ite(big, sat, m.b.Shift(so, tx, m.b.Extract(ty, w-1, 0))))
	}
	return m.tv(m.b.Shift(so, tx, m.b.ZExt(ty, w)))
}

// ---- decisions ----

func (m *M) addFact(c *Term, v bool) {
	if v {
		m.facts[c] = true
		m.facts[m.b.Not(c)] = false
		if c.Op == OAnd {
			for _, a := range c.Args {
				m.addFact(a, true)
			}
		}
		if c.Op == ONot && c.Args[0].Op == OOr {
			for _, a := range c.Args[0].Args {
				m.addFact(a, false)
			}
		}
		if c.Op == OUlt || c.Op == OSlt {
			m.facts[m.b.mk(&Term{Op: c.Op, Args: []*Term{c.Args[1], c.Args[0]}})] = false
			m.facts[m.b.Eq(c.Args[0], c.Args[1])] = false
		}
		if c.Op == OEq && c.Args[0].W > 0 {
			m.facts[m.b.mk(&Term{Op: OUlt, Args: []*Term{c.Args[0], c.Args[1]}})] = false
			m.facts[m.b.mk(&Term{Op: OUlt, Args: []*Term{c.Args[1], c.Args[0]}})] = false
		}
	} else {
		m.addFact(m.b.Not(c), true)
	}
}

func (m *M) assumeTerm(c *Term) {
	if c.Op == OAnd {
		for _, a := range c.Args {
			m.assumeTerm(a)
		}
		return
	}
	if c == m.b.True {
		return
	}
	m.pc = append(m.pc, c)
	m.addFact(c, true)
}

func (m *M) lookupFact(c *Term) (bool, bool) {
	if v, ok := m.facts[c]; ok {
		return v, true
	}
	switch c.Op {
	case ONot:
		v, ok := m.lookupFact(c.Args[0])
		return !v, ok
	case OAnd:
		all := true
		for _, a := range c.Args {
			v, ok := m.lookupFact(a)
			if ok && !v {
				return false, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return true, true
		}
	case OOr:
		all := true
		for _, a := range c.Args {
			v, ok := m.lookupFact(a)
			if ok && v {
				return true, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return false, true
		}
	}
	return false, false
}

// slice returns the constraints of pc connected to c through shared variables.
func (m *M) sliceFor(c *Term) []*Term {
	need := append([]uint64{}, c.Vars()...)
	used := make([]bool, len(m.pc))
	out := []*Term{c}
	for changed := true; changed; {
		changed = false
		for i, p := range m.pc {
			if used[i] {
				continue
			}
			vs := p.Vars()
			hit := false
			for k, w := range vs {
				if k < len(need) && w&need[k] != 0 {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, p)
				for len(need) < len(vs) {
					need = append(need, 0)
				}
				for k, w := range vs {
					need[k] |= w
				}
			}
		}
	}
	return out
}

func (m *M) query(c *Term) *qres {
	if c == m.b.False {
		return &qres{sat: 0}
	}
	return m.sol.Check(m.sliceFor(c))
}

func mergeModel(base, over Assign) Assign {
	r := make(Assign, len(base)+len(over))
	for k, v := range base {
		r[k] = v
	}
	for k, v := range over {
		r[k] = v
	}
	return r
}

func (m *M) next(kind uint8, h uint64) (Dec, bool) {
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		if d.h != uint32(h) || (d.kind != kind && !(kind == dConcEq && d.kind == dConcNeq)) {
			panic(unsupported{"engine: replay divergence"})
		}
		m.pos++
		m.trace = append(m.trace, d)
		return d, true
	}
	return Dec{}, false
}

func (m *M) fork(d Dec, model Assign) {
	pre := make([]Dec, len(m.trace)+1)
	copy(pre, m.trace)
	pre[len(m.trace)] = d
	m.ex.push(work{prefix: pre, model: model})
}

func (m *M) push(d Dec) {
	m.trace = append(m.trace, d)
	m.pos++
	m.prefix = m.trace // keep pos==len(prefix)
}

func (m *M) branch(c *Term) bool {
	if c.Op == OConst {
		return c.Val != 0
	}
	if v, ok := m.lookupFact(c); ok {
		return v
	}
	if m.steps > m.maxSteps {
		panic(pathEnd{"steps"})
	}
	if d, ok := m.next(dBranch, c.h1); ok {
		v := d.val != 0
		lit := c
		if !v {
			lit = m.b.Not(c)
		}
		if !d.fc {
			m.assumeTerm(lit)
		} else {
			m.addFact(lit, true)
		}
		return v
	}
	v := m.ev.u(c) != 0
	lit := c
	if !v {
		lit = m.b.Not(c)
	}
	other := m.b.Not(lit)
	r := m.query(other)
	d := Dec{kind: dBranch, val: b2u(v), h: uint32(c.h1)}
	switch r.sat {
	case 0:
		d.fc = true
	case 1:
		m.fork(Dec{kind: dBranch, val: b2u(!v), h: d.h}, mergeModel(m.model, r.model))
	default:
		atomic.AddInt64(&m.ex.lost, 1)
	}
	m.push(d)
	if d.fc {
		m.addFact(lit, true)
	} else {
		m.assumeTerm(lit)
	}
	return v
}

// choose returns a value in [0,n) exploring all of them.
func (m *M) choose(n int) int {
	if n <= 1 {
		return 0
	}
	h := uint64(n) * 7919
	if d, ok := m.next(dChoice, h); ok {
		return int(d.val)
	}
	for k := n - 1; k >= 1; k-- {
		m.fork(Dec{kind: dChoice, val: uint64(k), h: uint32(h)}, m.model)
	}
	m.push(Dec{kind: dChoice, val: 0, h: uint32(h)})
	return 0
}

// conc concretises an integer, forking over its feasible values.
func (m *M) conc(v Value, w int) uint64 {
	if v.o == nil {
		return v.n
	}
	t, ok := v.o.(*Term)
	if !ok {
		panic(unsupported{fmt.Sprintf("concretise %T", v.o)})
	}
	if t.Op == OConst {
		return t.Val
	}
	for {
		m.concN++
		if m.concN > 5000 {
			panic(unsupported{"too many concretisations"})
		}
		// the model satisfies the whole prefix, so this also holds when replaying
		val := m.ev.u(t)
		e := m.b.Eq(t, m.b.BV(val, w))
		if f, ok := m.lookupFact(e); ok && f {
			return val
		}
		if d, ok := m.next(dConcEq, t.h1); ok {
			e := m.b.Eq(t, m.b.BV(d.val, w))
			if d.kind == dConcEq {
				if d.fc {
					m.addFact(e, true)
				} else {
					m.assumeTerm(e)
				}
				return d.val
			}
			m.assumeTerm(m.b.Not(e))
			continue
		}
		r := m.query(m.b.Not(e))
		d := Dec{kind: dConcEq, val: val, h: uint32(t.h1)}
		switch r.sat {
		case 0:
			d.fc = true
		case 1:
			m.fork(Dec{kind: dConcNeq, val: val, h: d.h}, mergeModel(m.model, r.model))
		default:
			atomic.AddInt64(&m.ex.lost, 1)
		}
		m.push(d)
		if d.fc {
			m.addFact(e, true)
		} else {
			m.assumeTerm(e)
		}
		return val
	}
}

func (m *M) setModel(a Assign) {
	m.model = a
	m.ev.reset(a)
}

func (m *M) assume(v Value) {
	if v.o == nil {
		if v.n == 0 {
			panic(pathEnd{"assume"})
		}
		return
	}
	c := v.o.(*Term)
	if f, ok := m.lookupFact(c); ok {
		if !f {
			panic(pathEnd{"assume"})
		}
		return
	}
	if m.pos < len(m.prefix) {
		m.assumeTerm(c)
		return
	}
	if m.ev.u(c) == 0 {
		r := m.query(c)
		if r.sat == 0 {
			panic(pathEnd{"assume"})
		}
		if r.sat < 0 {
			atomic.AddInt64(&m.ex.lost, 1)
			panic(pathEnd{"assume-unknown"})
		}
		m.setModel(mergeModel(m.model, r.model))
	}
	m.assumeTerm(c)
}

func (m *M) assert(v Value, label string) {
	m.asserts++
	atomic.AddInt64(&m.ex.asserts, 1)
	if v.o == nil {
		if v.n == 0 {
			if m.pos == len(m.prefix) {
				m.ex.violation(m, label, m.model)
			}
			panic(pathEnd{"assert"})
		}
		return
	}
	c := v.o.(*Term)
	if f, ok := m.lookupFact(c); ok && f {
		return
	}
	if m.pos < len(m.prefix) {
		m.assumeTerm(c)
		return
	}
	atomic.AddInt64(&m.ex.assertQ, 1)
	r := m.query(m.b.Not(c))
	switch r.sat {
	case 0:
		m.addFact(c, true)
		return
	case 1:
		m.ex.violation(m, label, mergeModel(m.model, r.model))
	default:
		atomic.AddInt64(&m.ex.lost, 1)
	}
	// continue where the assertion holds
	m.assume(v)
}

// ---- calls ----

func (m *M) call(fn *Fn, a []Value, env []Value, caller *frame) Value {
	if fn.intr != nil {
		return fn.intr(m, caller, a)
	}
	fn.prep()
	if fn.external {
		d := ""
		if os.Getenv("GOSYM_STACK") != "" {
			for f := caller; f != nil; f = f.caller {
				d += " < " + f.fn.name
			}
		}
		panic(unsupported{"external function " + fn.name + d})
	}
	m.depth++
	if m.depth > 2000 {
		panic(pathEnd{"depth"})
	}
	if fn.covered == 0 {
		atomic.StoreInt32(&fn.covered, 1)
	}
	fr := &frame{m: m, fn: fn, caller: caller, rt: raceState(fn, caller)}
	// register window
	st := m.cur.stack
	base := len(st)
	if base+fn.nregs > cap(st) {
		n := 2*cap(st) + fn.nregs + 1024
		ns := make([]Value, base, n)
		_ = ns
		st = ns[:0]
		base = 0
	}
	saved := m.cur.stack
	st = st[:base+fn.nregs]
	fr.regs = st[base : base+fn.nregs : base+fn.nregs]
	for i := range fr.regs {
		fr.regs[i] = Value{}
	}
	m.cur.stack = st
	g := m.cur
	copy(fr.regs, a)
	copy(fr.regs[len(a):], env)
	if fn.hasDefer {
		m.execDefer(fr)
	} else {
		m.exec(fr, 0)
	}
	g.stack = saved
	m.depth--
	return fr.result
}

func (m *M) exec(fr *frame, b int) {
	fn := fr.fn
	prev := -1
	for {
		blk := fn.blocks[b]
		m.steps += blk.n
		if m.steps > m.maxSteps {
			panic(pathEnd{"steps"})
		}
		if len(blk.phis) > 0 {
			e := 0
			for k, p := range blk.preds {
				if p == prev {
					e = k
					break
				}
			}
			if len(blk.phis) == 1 {
				fr.regs[blk.phis[0].dst] = blk.phis[0].edges[e].get(fr)
			} else {
				var tmp [8]Value
				t := tmp[:0]
				for k := range blk.phis {
					t = append(t, blk.phis[k].edges[e].get(fr))
				}
				for k := range blk.phis {
					fr.regs[blk.phis[k].dst] = t[k]
				}
			}
		}
		for _, i := range blk.body {
			i(fr)
		}
		n := blk.term(fr)
		if n < 0 {
			return
		}
		prev, b = b, n
	}
}

func (m *M) execDefer(fr *frame) {
	depth, g := m.depth, m.cur
	top := g.stack
	tp := m.protect(func() { m.exec(fr, 0) })
	if tp == nil {
		return
	}
	m.depth = depth
	g.stack = top
	fr.panicking = tp
	for fr.panicking != nil || len(fr.defers) > 0 {
		if len(fr.defers) == 0 {
			panic(fr.panicking)
		}
		t2 := m.protect(func() { m.runDefers(fr) })
		m.depth = depth
		g.stack = top
		if t2 != nil {
			fr.panicking = t2
		}
	}
	// recovered
	fr.result = Value{}
	if fr.fn.recover >= 0 {
		m.exec(fr, fr.fn.recover)
	}
}

func (m *M) protect(f func()) (tp *targetPanic) {
	defer func() {
		if r := recover(); r != nil {
			t, ok := r.(*targetPanic)
			if !ok {
				panic(r)
			}
			tp = t
		}
	}()
	f()
	return nil
}

func (m *M) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		d(fr)
	}
}

func (m *M) recoverPanic(fr *frame) Value {
	c := fr.caller
	if c != nil && c.panicking != nil {
		v := c.panicking.v
		c.panicking = nil
		return v
	}
	return Value{}
}

func (m *M) targetPanic(v Value) {
	panic(&targetPanic{v: v, msg: m.panicMsg(v)})
}

func (m *M) panicMsg(v Value) string {
	if v.o == nil {
		return "nil"
	}
	i := v.o.(*Iface)
	if s, ok := concStr(i.v); ok && isString(i.t) {
		return s
	}
	return m.dbg(v, 3)
}

func (m *M) rtPanic(msg string) {
	v := Value{o: &Iface{t: m.p.errStr, v: cstr(msg)}}
	panic(&targetPanic{v: v, msg: "runtime error: " + msg})
}

func (m *M) ptr(v Value) *Agg {
	if v.o == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	a, ok := v.o.(*Agg)
	if !ok {
		panic(unsupported{fmt.Sprintf("deref of %T", v.o)})
	}
	return a
}

func (m *M) index(v Value, w int, sg bool, n int) int {
	if v.o == nil {
		k := v.n
		if sg {
			k = uint64(sext64(k, w))
		}
		if k >= uint64(n) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(k), n))
		}
		return int(k)
	}
	t := v.o.(*Term)
	if w < 64 {
		if sg {
			t = m.b.SExt(t, 64)
		} else {
			t = m.b.ZExt(t, 64)
		}
	}
	m.inRange(t, n)
	return int(m.conc(m.tv(t), 64))
}

func (m *M) inRange(t *Term, n int) {
	if !m.branch(m.b.Ult(t, m.b.BV(uint64(n), 64))) {
		m.rtPanic(fmt.Sprintf("index out of range [sym] with length %d", n))
	}
}

// tableLoad reads a table of concrete integers at a symbolic index as one term
// instead of forking over the index; ok is false where that does not apply.
func (m *M) tableLoad(ix Value, w int, sg bool, n, min int, ew int, at func(int) Value) (Value, bool) {
	t, isT := ix.o.(*Term)
	if !isT || t.Op == OConst || n < min || n > 1024 {
		return Value{}, false
	}
	vals := make([]uint64, n)
	for i := range vals {
		v := at(i)
		if v.o != nil {
			return Value{}, false
		}
		vals[i] = v.n
	}
	if w < 64 {
		if sg {
			t = m.b.SExt(t, 64)
		} else {
			t = m.b.ZExt(t, 64)
		}
	}
	m.inRange(t, n)
	var rec func(bit, base int) Value
	rec = func(bit, base int) Value {
		if bit < 0 {
			return Value{n: vals[base]}
		}
		lo := rec(bit-1, base)
		if base+1<<bit >= n {
			return lo
		}
		hi := rec(bit-1, base+1<<bit)
		if lo == hi {
			return lo
		}
		return m.ite(m.tv(m.b.Eq(m.b.Extract(t, bit, bit), m.b.BV(1, 1))), hi, lo, ew)
	}
	return rec(bits.Len(uint(n-1))-1, 0), true
}

// selRes stands for the address of a table entry that only the next
// instruction reads.
type selRes struct{ v Value }

func (m *M) stringAsSlice(v Value) Value {
	switch o := v.o.(type) {
	case nil:
		return Value{}
	case *AliasStr:
		return Value{o: o.s}
	}
	return newSlice(append([]Value{}, strBytes(v)...))
}

// ---- bytes ----

// catTerm concatenates bytes into one wide term.
func (m *M) catTerm(b []Value) *Term {
	ts := make([]*Term, len(b))
	for i, x := range b {
		ts[i] = m.term(x, 8)
	}
	return m.b.Concat(ts...)
}

func (m *M) bytesEq(a, b []Value) Value {
	if len(a) != len(b) {
		return Value{}
	}
	sym := false
	for i := range a {
		if a[i].o == nil && b[i].o == nil {
			if a[i].n != b[i].n {
				return Value{}
			}
		} else if a[i] != b[i] {
			sym = true
		}
	}
	if !sym {
		return cbool(true)
	}
	// trim equal prefix/suffix
	for len(a) > 0 && a[0] == b[0] {
		a, b = a[1:], b[1:]
	}
	for len(a) > 0 && a[len(a)-1] == b[len(a)-1] {
		a, b = a[:len(a)-1], b[:len(b)-1]
	}
	if len(a) == 0 {
		return cbool(true)
	}
	return m.tv(m.b.Eq(m.catTerm(a), m.catTerm(b)))
}

// bytesLess returns lexicographic a<b.
func (m *M) bytesLess(a, b []Value) Value {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	shorter := len(a) < len(b)
	i := 0
	for i < n && a[i] == b[i] {
		i++
	}
	if i == n {
		return cbool(shorter)
	}
	if a[i].o == nil && b[i].o == nil {
		return cbool(a[i].n < b[i].n)
	}
	// stop at the first definite difference after i
	j := i + 1
	for j < n && !(a[j].o == nil && b[j].o == nil && a[j].n != b[j].n) {
		j++
	}
	if j < n {
		j++
	}
	for j > i && a[j-1] == b[j-1] {
		j--
	}
	ta, tb := m.catTerm(a[i:j]), m.catTerm(b[i:j])
	lt := m.b.Ult(ta, tb)
	if shorter {
		// equal on the common prefix counts as less
		return m.tv(m.b.Not(m.b.Ult(tb, ta)))
	}
	return m.tv(lt)
}

func (m *M) bytesCompare(a, b []Value) Value {
	lt := m.bytesLess(a, b)
	gt := m.bytesLess(b, a)
	if lt.o == nil && lt.n != 0 {
		return Value{n: ^uint64(0)}
	}
	if gt.o == nil && gt.n != 0 {
		return Value{n: 1}
	}
	return m.ite(lt, Value{n: ^uint64(0)}, m.ite(gt, Value{n: 1}, Value{}, 64), 64)
}

func (m *M) strOp(op token.Token, a, b Value) Value {
	if op == token.ADD {
		x, ok1 := concStr(a)
		y, ok2 := concStr(b)
		if ok1 && ok2 {
			return cstr(x + y)
		}
		return mkStr(append(append([]Value{}, strBytes(a)...), strBytes(b)...))
	}
	x, y := strBytes(a), strBytes(b)
	switch op {
	case token.LSS:
		return m.bytesLess(x, y)
	case token.GTR:
		return m.bytesLess(y, x)
	case token.LEQ:
		return m.not(m.bytesLess(y, x))
	case token.GEQ:
		return m.not(m.bytesLess(x, y))
	}
	panic(unsupported{"string op"})
}

// ---- equality ----

func (m *M) eq(a, b Value, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if x, ok := a.o.(string); ok {
				if y, ok := b.o.(string); ok {
					return cbool(x == y)
				}
			}
			return m.bytesEq(strBytes(a), strBytes(b))
		}
		if u.Info()&types.IsFloat != 0 {
			if a.o != nil || b.o != nil {
				return m.floatCmp(token.EQL, a, b)
			}
			return floatEq(a, b)
		}
		if w, _, ok := intInfo(t); ok {
			if a.o == nil && b.o == nil {
				return cbool(a.n == b.n)
			}
			return m.tv(m.b.Eq(m.term(a, w), m.term(b, w)))
		}
		return cbool(a == b)
	case *types.Pointer, *types.Chan, *types.Map:
		return cbool(a.o == b.o && a.n == b.n)
	case *types.Slice, *types.Signature:
		return cbool(a.o == nil && b.o == nil)
	case *types.Interface:
		if a.o == nil || b.o == nil {
			return cbool(a.o == nil && b.o == nil)
		}
		x, ok1 := a.o.(*Iface)
		y, ok2 := b.o.(*Iface)
		if !ok1 || !ok2 {
			panic(unsupported{"interface equality"})
		}
		if x == y {
			return cbool(true)
		}
		if !types.Identical(x.t, y.t) {
			return cbool(false)
		}
		if !types.Comparable(x.t) {
			m.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return m.eq(x.v, y.v, x.t)
	case *types.Struct:
		r := cbool(true)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = m.and(r, m.eq(fieldOf(a, i), fieldOf(b, i), u.Field(i).Type()))
			if r.o == nil && r.n == 0 {
				return r
			}
		}
		return r
	case *types.Array:
		if bt, ok := u.Elem().Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
			n := int(u.Len())
			x, y := make([]Value, n), make([]Value, n)
			for i := range x {
				x[i], y[i] = fieldOf(a, i), fieldOf(b, i)
			}
			return m.bytesEq(x, y)
		}
		r := cbool(true)
		for i := 0; i < int(u.Len()); i++ {
			r = m.and(r, m.eq(fieldOf(a, i), fieldOf(b, i), u.Elem()))
			if r.o == nil && r.n == 0 {
				return r
			}
		}
		return r
	}
	panic(unsupported{"equality of " + t.String()})
}

func fieldOf(v Value, i int) Value {
	if v.o == nil {
		return Value{}
	}
	return v.o.(*SAgg).get(i)
}

func (m *M) and(a, b Value) Value {
	if a.o == nil {
		if a.n == 0 {
			return a
		}
		return b
	}
	return m.tv(m.b.And(m.term(a, 0), m.term(b, 0)))
}

func (m *M) or(a, b Value) Value {
	if a.o == nil {
		if a.n != 0 {
			return a
		}
		return b
	}
	return m.tv(m.b.Or(m.term(a, 0), m.term(b, 0)))
}

// ---- maps ----

// hkey returns a Go-comparable key for a concrete target key.
func hkey(v Value) (any, bool) {
	switch o := v.o.(type) {
	case nil:
		return v.n, true
	case string:
		return o, true
	case *Term, *SymStr, *fint:
		return nil, false
	case *AliasStr:
		s, ok := concStr(v)
		if s == "" {
			return uint64(0), ok
		}
		return s, ok
	case *Agg:
		return v, true
	case *Iface:
		k, ok := hkey(o.v)
		return [2]any{o.t.String(), k}, ok
	case *SAgg:
		var sb strings.Builder
		for _, c := range o.cells {
			k, ok := hkey(c)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%v|", k)
		}
		return strings.TrimRight(sb.String(), "0|"), true
	}
	return v.o, true
}

func (m *M) mapFind(mp *Map, k Value) int {
	if mp == nil || mp.n == 0 {
		return -1
	}
	h, conc := hkey(k)
	if conc && !mp.sym {
		if i, ok := mp.idx[h]; ok {
			return i
		}
		return -1
	}
	if conc {
		if i, ok := mp.idx[h]; ok {
			return i
		}
	}
	for i := range mp.keys {
		if !mp.live[i] {
			continue
		}
		if m.truth(m.eq(mp.keys[i], k, mp.kt)) {
			return i
		}
	}
	return -1
}

func (m *M) mapGet(mp *Map, k Value) (Value, bool) {
	if mp != nil && isIface(mp.kt) && k.o != nil {
		if !types.Comparable(k.o.(*Iface).t) {
			m.rtPanic("hash of unhashable type")
		}
	}
	i := m.mapFind(mp, k)
	if i < 0 {
		return Value{}, false
	}
	return mp.vals[i], true
}

func (m *M) mapSet(mp *Map, k, v Value) {
	i := m.mapFind(mp, k)
	if i >= 0 {
		mp.vals[i] = v
		return
	}
	mp.keys = append(mp.keys, k)
	mp.vals = append(mp.vals, v)
	mp.live = append(mp.live, true)
	mp.n++
	if h, ok := hkey(k); ok {
		mp.idx[h] = len(mp.keys) - 1
	} else {
		mp.sym = true
	}
}

func (m *M) mapDelete(mp *Map, k Value) {
	i := m.mapFind(mp, k)
	if i < 0 {
		return
	}
	mp.live[i] = false
	mp.n--
	if h, ok := hkey(mp.keys[i]); ok {
		delete(mp.idx, h)
	}
}

type rangeIter struct {
	m     *Map
	i     int
	str   Value
	isStr bool
}

// decodeRune is the first rune of b and its length.
func (m *M) decodeRune(fr *frame, b []Value) (Value, int) {
	x := b[0]
	if x.o == nil && x.n < 0x80 {
		return x, 1
	}
	if x.o != nil && m.branch(m.b.Ult(x.o.(*Term), m.b.BV(0x80, 8))) {
		return m.tv(m.b.ZExt(x.o.(*Term), 32)), 1
	}
	if len(b) > 4 {
		b = b[:4]
	}
	t := m.call(m.utf8("DecodeRuneInString"), []Value{mkStr(b)}, nil, fr).o.(Tuple)
	return t[0], int(m.conc(t[1], 64))
}

// encodeRune is the encoding of a rune.
func (m *M) encodeRune(fr *frame, r Value) []Value {
	if r.o == nil {
		return strBytes(cstr(string(rune(r.n))))
	}
	return sliceVals(asSlice(m.call(m.utf8("AppendRune"), []Value{{}, r}, nil, fr)))
}

func (m *M) utf8(name string) *Fn {
	p := m.p.pkgs["unicode/utf8"]
	if p == nil || p.Func(name) == nil {
		panic(unsupported{"unicode/utf8 is not loaded"})
	}
	return m.p.fn(p.Func(name))
}

func (m *M) rangeNext(fr *frame, r *rangeIter) Tuple {
	if r.isStr {
		s, ok := concStr(r.str)
		if !ok {
			b := strBytes(r.str)
			if r.i >= len(b) {
				return Tuple{Value{}, Value{}, Value{}}
			}
			c, n := m.decodeRune(fr, b[r.i:])
			r.i += n
			return Tuple{cbool(true), Value{n: uint64(r.i - n)}, c}
		}
		if r.i >= len(s) {
			return Tuple{Value{}, Value{}, Value{}}
		}
		for k, c := range s[r.i:] {
			_ = k
			at := r.i
			r.i += len(string(c))
			if c == 0xFFFD && s[at] != 0xEF {
				r.i = at + 1
			}
			return Tuple{cbool(true), Value{n: uint64(at)}, Value{n: uint64(uint32(c))}}
		}
	}
	if r.m != nil {
		m.mapAcc(fr, r.m, false)
		for r.i < len(r.m.keys) {
			k := r.i
			r.i++
			if r.m.live[k] {
				return Tuple{cbool(true), r.m.keys[k], copyVal(r.m.vals[k])}
			}
		}
	}
	return Tuple{Value{}, Value{}, Value{}}
}

// ---- model extraction helpers ----

func (m *M) evalBytes(b []Value, e *evaluator) []byte {
	out := make([]byte, len(b))
	for i, x := range b {
		if x.o == nil {
			out[i] = byte(x.n)
		} else {
			out[i] = byte(e.u(x.o.(*Term)))
		}
	}
	return out
}

var _ = big.NewInt
