package main

// Translation of go/ssa functions into executable closures. One Fn is shared
// by all workers; closures receive the running frame.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	reg int // >=0 register
	g   *ssa.Global
	c   Value
}

func (o *opnd) get(fr *frame) Value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	if o.g != nil {
		return Value{o: fr.m.globalAgg(o.g)}
	}
	return o.c
}

type ins func(fr *frame)

type phiT struct {
	dst   int
	edges []opnd
}

type block struct {
	phis  []phiT
	body  []ins
	term  func(fr *frame) int
	preds []int
	n     int64
}

type Fn struct {
	ssa      *ssa.Function
	name     string
	once     sync.Once
	blocks   []*block
	nregs    int
	nparams  int
	hasDefer bool
	recover  int
	intr     intrinsic
	prog     *Prog
	covered  int32 // executed at least once (atomic)
	external bool
	inRepo   bool
	rkind    uint8
}

type intrinsic func(m *M, fr *frame, a []Value) Value

type methKey struct {
	t types.Type
	m *types.Func
}

// Prog is the loaded program, shared by all workers.
type Prog struct {
	ssa    *ssa.Program
	pkgs   map[string]*ssa.Package
	mu     sync.RWMutex
	fns    map[*ssa.Function]*Fn
	meth   map[methKey]*Fn
	redir  map[string]*ssa.Function
	sizes  types.Sizes
	errStr types.Type // runtime.errorString
	initSl map[*ssa.Global]*initSlice
	initMu sync.Mutex
	comp   map[[2]types.Type]bool
	modPfx string
	ptrs   map[types.Type]types.Type
	rts    map[types.Type]*rType
	methNm map[methNameKey]*Fn
}

func (p *Prog) fn(f *ssa.Function) *Fn {
	p.mu.RLock()
	r := p.fns[f]
	p.mu.RUnlock()
	if r != nil {
		return r
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if r := p.fns[f]; r != nil {
		return r
	}
	name := f.String()
	tgt := f
	if t, ok := p.redir[name]; ok {
		tgt = t
	} else if o := f.Origin(); o != nil {
		if t, ok := p.redir[o.String()]; ok {
			tgt = t
		}
	}
	r = &Fn{ssa: tgt, name: name, prog: p, recover: -1, rkind: raceKind(tgt, p.modPfx)}
	if f.Pkg != nil && len(f.Pkg.Pkg.Path()) >= len(p.modPfx) && f.Pkg.Pkg.Path()[:len(p.modPfx)] == p.modPfx {
		r.inRepo = true
	} else if o := f.Origin(); o != nil && o.Pkg != nil && len(o.Pkg.Pkg.Path()) >= len(p.modPfx) && o.Pkg.Pkg.Path()[:len(p.modPfx)] == p.modPfx {
		r.inRepo = true
	}
	if tgt == f {
		if in, ok := intrinsics[name]; ok {
			r.intr = in
		} else if o := f.Origin(); o != nil {
			if in, ok := intrinsics[o.String()]; ok {
				r.intr = in
			} else if in, ok := genIntrinsics[o.String()]; ok {
				r.intr = in(f)
			}
		} else if in, ok := genIntrinsics[name]; ok {
			r.intr = in(f)
		}
	}
	if r.intr == nil && tgt == f && f.Signature.Recv() != nil && (strings.HasPrefix(name, "(reflect.Value).") || strings.HasPrefix(name, "(*reflect.rtype).")) {
		r.intr = func(m *M, fr *frame, a []Value) Value { panic(unsupported{name}) }
	}
	p.fns[f] = r
	return r
}

// method resolves a dynamic call on concrete type t.
func (p *Prog) method(t types.Type, m *types.Func) *Fn {
	k := methKey{t, m}
	p.mu.RLock()
	r := p.meth[k]
	p.mu.RUnlock()
	if r != nil {
		return r
	}
	sf := p.ssa.LookupMethod(t, m.Pkg(), m.Name())
	if sf == nil {
		panic(unsupported{fmt.Sprintf("no method %s on %s", m.Name(), t)})
	}
	r = p.fn(sf)
	p.mu.Lock()
	p.meth[k] = r
	p.mu.Unlock()
	return r
}

func (f *Fn) prep() {
	f.once.Do(func() { f.compile() })
}

type compiler struct {
	f    *Fn
	regs map[ssa.Value]int
}

func (c *compiler) reg(v ssa.Value) int {
	r, ok := c.regs[v]
	if !ok {
		r = len(c.regs)
		c.regs[v] = r
	}
	return r
}

func constVal(k *ssa.Const) Value {
	if k.Value == nil {
		return Value{}
	}
	t := k.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		// generic-instantiated constants of type parameter types are resolved
		panic(fmt.Sprintf("const of type %s", t))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return cbool(constant.BoolVal(k.Value))
	case b.Info()&types.IsString != 0:
		if k.Value.Kind() == constant.String {
			return cstr(constant.StringVal(k.Value))
		}
		return cstr(string(rune(k.Int64())))
	case b.Info()&types.IsInteger != 0:
		w, _, _ := intInfo(t)
		v := constant.ToInt(k.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Value{n: uint64(i) & mask(w)}
		}
		u, _ := constant.Uint64Val(v)
		return Value{n: u & mask(w)}
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(constant.ToFloat(k.Value))
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return Value{n: math.Float64bits(f)}
	case b.Kind() == types.UnsafePointer, b.Kind() == types.UntypedNil:
		return Value{}
	}
	return Value{o: unsupported{"constant " + k.String()}}
}

func (c *compiler) op(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{reg: -1, c: constVal(v)}
	case *ssa.Global:
		return opnd{reg: -1, g: v}
	case *ssa.Function:
		return opnd{reg: -1, c: Value{o: &Closure{fn: c.f.prog.fn(v)}}}
	case *ssa.Builtin:
		return opnd{reg: -1}
	}
	return opnd{reg: c.reg(v)}
}

func (f *Fn) compile() {
	sf := f.ssa
	if len(sf.Blocks) == 0 {
		f.external = true
		return
	}
	c := &compiler{f: f, regs: map[ssa.Value]int{}}
	for _, p := range sf.Params {
		c.reg(p)
	}
	for _, v := range sf.FreeVars {
		c.reg(v)
	}
	f.nparams = len(sf.Params)
	for _, b := range sf.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				c.reg(v)
			}
			if _, ok := i.(*ssa.Defer); ok {
				f.hasDefer = true
			}
		}
	}
	if sf.Recover != nil {
		f.recover = sf.Recover.Index
	}
	for _, b := range sf.Blocks {
		nb := &block{n: int64(len(b.Instrs))}
		for _, p := range b.Preds {
			nb.preds = append(nb.preds, p.Index)
		}
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Phi:
				ph := phiT{dst: c.reg(i)}
				for _, e := range i.Edges {
					ph.edges = append(ph.edges, c.op(e))
				}
				nb.phis = append(nb.phis, ph)
			case *ssa.DebugRef:
			case *ssa.If:
				cond := c.op(i.Cond)
				t, e := b.Succs[0].Index, b.Succs[1].Index
				nb.term = func(fr *frame) int {
					v := cond.get(fr)
					if v.o == nil {
						if v.n != 0 {
							return t
						}
						return e
					}
					if fr.m.branch(v.o.(*Term)) {
						return t
					}
					return e
				}
			case *ssa.Jump:
				t := b.Succs[0].Index
				nb.term = func(fr *frame) int { return t }
			case *ssa.Return:
				var rs []opnd
				for _, r := range i.Results {
					rs = append(rs, c.op(r))
				}
				switch len(rs) {
				case 0:
					nb.term = func(fr *frame) int { return -1 }
				case 1:
					r := rs[0]
					nb.term = func(fr *frame) int { fr.result = r.get(fr); return -1 }
				default:
					nb.term = func(fr *frame) int {
						t := make(Tuple, len(rs))
						for i := range rs {
							t[i] = rs[i].get(fr)
						}
						fr.result = Value{o: t}
						return -1
					}
				}
			case *ssa.Panic:
				x := c.op(i.X)
				nb.term = func(fr *frame) int {
					fr.m.targetPanic(x.get(fr))
					return -1
				}
			default:
				nb.body = append(nb.body, c.instr(i))
			}
		}
		if nb.term == nil {
			nb.term = func(fr *frame) int { panic("fallthrough block") }
		}
		f.blocks = append(f.blocks, nb)
	}
	f.nregs = len(c.regs)
}

func (c *compiler) unsup(s string) ins {
	return func(fr *frame) { panic(unsupported{s + " in " + fr.fn.name}) }
}

func (c *compiler) instr(i ssa.Instruction) ins {
	switch i := i.(type) {
	case *ssa.Alloc:
		d := c.reg(i)
		return func(fr *frame) { fr.regs[d] = Value{o: &Agg{n: 1}} }
	case *ssa.BinOp:
		return c.binop(i)
	case *ssa.UnOp:
		return c.unop(i)
	case *ssa.Call:
		d := c.reg(i)
		f := c.callee(&i.Call)
		return func(fr *frame) { v := f(fr); fr.regs[d] = v }
	case *ssa.Defer:
		th := c.thunk(&i.Call)
		return func(fr *frame) { fr.defers = append(fr.defers, th(fr)) }
	case *ssa.Go:
		th := c.thunk(&i.Call)
		return func(fr *frame) { fr.m.spawn(th(fr), fr) }
	case *ssa.RunDefers:
		return func(fr *frame) { fr.m.runDefers(fr) }
	case *ssa.ChangeInterface, *ssa.ChangeType:
		v := i.(ssa.Value)
		d := c.reg(v)
		x := c.op(*i.Operands(nil)[0])
		return func(fr *frame) { fr.regs[d] = x.get(fr) }
	case *ssa.Convert:
		return c.convert(c.reg(i), c.op(i.X), i.X.Type(), i.Type())
	case *ssa.MultiConvert:
		return c.convert(c.reg(i), c.op(i.X), i.X.Type(), i.Type())
	case *ssa.Extract:
		d, x, ix := c.reg(i), c.op(i.Tuple), i.Index
		return func(fr *frame) { fr.regs[d] = x.get(fr).o.(Tuple)[ix] }
	case *ssa.Field:
		d, x, f := c.reg(i), c.op(i.X), i.Field
		return func(fr *frame) {
			v := x.get(fr)
			if v.o == nil {
				fr.regs[d] = Value{}
				return
			}
			fr.regs[d] = copyVal(v.o.(*SAgg).get(f))
		}
	case *ssa.FieldAddr:
		d, x, f := c.reg(i), c.op(i.X), i.Field
		n := fieldCount(deref(i.X.Type()))
		return func(fr *frame) {
			v := x.get(fr)
			a := fr.m.ptr(v)
			fr.regs[d] = Value{o: a.child(int(v.n), n), n: uint64(f)}
		}
	case *ssa.Index:
		d, x, ix := c.reg(i), c.op(i.X), c.op(i.Index)
		w, sg, _ := intInfo(i.Index.Type())
		if isString(i.X.Type()) {
			return func(fr *frame) {
				s := x.get(fr)
				n := strLen(s)
				if v, ok := fr.m.tableLoad(ix.get(fr), w, sg, n, 16, 8, func(k int) Value { return strAt(s, k) }); ok {
					fr.regs[d] = v
					return
				}
				k := fr.m.index(ix.get(fr), w, sg, n)
				fr.regs[d] = strAt(s, k)
			}
		}
		n := fieldCount(i.X.Type())
		return func(fr *frame) {
			v := x.get(fr)
			k := fr.m.index(ix.get(fr), w, sg, n)
			if v.o == nil {
				fr.regs[d] = Value{}
				return
			}
			fr.regs[d] = copyVal(v.o.(*SAgg).get(k))
		}
	case *ssa.IndexAddr:
		d, x, ix := c.reg(i), c.op(i.X), c.op(i.Index)
		w, sg, _ := intInfo(i.Index.Type())
		lazy := lazyIndex(i)
		ew, _, _ := intInfo(deref(i.Type()))
		if _, ok := i.X.Type().Underlying().(*types.Slice); ok {
			return func(fr *frame) {
				s := asSlice(x.get(fr))
				n := 0
				if s != nil {
					n = s.len
				}
				if lazy {
					if v, ok := fr.m.tableLoad(ix.get(fr), w, sg, n, 64, ew, func(k int) Value { return s.arr.get(s.off + k) }); ok {
						fr.regs[d] = Value{o: &selRes{v}}
						return
					}
				}
				k := fr.m.index(ix.get(fr), w, sg, n)
				fr.regs[d] = Value{o: s.arr, n: uint64(s.off + k)}
			}
		}
		n := fieldCount(deref(i.X.Type()))
		return func(fr *frame) {
			v := x.get(fr)
			a := fr.m.ptr(v).child(int(v.n), n)
			if lazy {
				if v, ok := fr.m.tableLoad(ix.get(fr), w, sg, n, 64, ew, a.get); ok {
					fr.regs[d] = Value{o: &selRes{v}}
					return
				}
			}
			k := fr.m.index(ix.get(fr), w, sg, n)
			fr.regs[d] = Value{o: a, n: uint64(k)}
		}
	case *ssa.Lookup:
		d, x, ix := c.reg(i), c.op(i.X), c.op(i.Index)
		if isString(i.X.Type()) {
			w, sg, _ := intInfo(i.Index.Type())
			return func(fr *frame) {
				s := x.get(fr)
				if v, ok := fr.m.tableLoad(ix.get(fr), w, sg, strLen(s), 16, 8, func(k int) Value { return strAt(s, k) }); ok {
					fr.regs[d] = v
					return
				}
				k := fr.m.index(ix.get(fr), w, sg, strLen(s))
				fr.regs[d] = strAt(s, k)
			}
		}
		commaOk := i.CommaOk
		return func(fr *frame) {
			mv := x.get(fr)
			var mp *Map
			if mv.o != nil {
				mp = mv.o.(*Map)
			}
			fr.m.mapAcc(fr, mp, false)
			v, ok := fr.m.mapGet(mp, ix.get(fr))
			if commaOk {
				fr.regs[d] = Value{o: Tuple{copyVal(v), cbool(ok)}}
			} else {
				fr.regs[d] = copyVal(v)
			}
		}
	case *ssa.MakeChan:
		d, sz := c.reg(i), c.op(i.Size)
		return func(fr *frame) { fr.regs[d] = Value{o: &Chan{cap: int(fr.m.conc(sz.get(fr), 64))}} }
	case *ssa.MakeClosure:
		d := c.reg(i)
		fn := c.f.prog.fn(i.Fn.(*ssa.Function))
		var bs []opnd
		for _, b := range i.Bindings {
			bs = append(bs, c.op(b))
		}
		return func(fr *frame) {
			env := make([]Value, len(bs))
			for k := range bs {
				env[k] = bs[k].get(fr)
			}
			fr.regs[d] = Value{o: &Closure{fn: fn, env: env}}
		}
	case *ssa.MakeInterface:
		d, x, t := c.reg(i), c.op(i.X), i.X.Type()
		return func(fr *frame) { fr.regs[d] = Value{o: &Iface{t: t, v: copyVal(x.get(fr))}} }
	case *ssa.MakeMap:
		d := c.reg(i)
		kt := i.Type().Underlying().(*types.Map).Key()
		return func(fr *frame) { fr.regs[d] = Value{o: &Map{idx: map[any]int{}, kt: kt}} }
	case *ssa.MakeSlice:
		d, l, cp := c.reg(i), c.op(i.Len), c.op(i.Cap)
		return func(fr *frame) {
			ln := int64(fr.m.conc(l.get(fr), 64))
			cn := int64(fr.m.conc(cp.get(fr), 64))
			if ln < 0 || ln > 1<<40 {
				fr.m.rtPanic("makeslice: len out of range")
			}
			if cn < ln || cn > 1<<40 {
				fr.m.rtPanic("makeslice: cap out of range")
			}
			if cn > 1<<26 {
				panic(unsupported{fmt.Sprintf("makeslice of %d", cn)})
			}
			fr.regs[d] = Value{o: &Slice{arr: &Agg{n: int(cn)}, len: int(ln), cap: int(cn)}}
		}
	case *ssa.MapUpdate:
		mp, k, v := c.op(i.Map), c.op(i.Key), c.op(i.Value)
		return func(fr *frame) {
			mv := mp.get(fr)
			if mv.o == nil {
				fr.m.rtPanic("assignment to entry in nil map")
			}
			fr.m.mapAcc(fr, mv.o.(*Map), true)
			fr.m.mapSet(mv.o.(*Map), copyVal(k.get(fr)), copyVal(v.get(fr)))
		}
	case *ssa.Next:
		d, it := c.reg(i), c.op(i.Iter)
		return func(fr *frame) { fr.regs[d] = Value{o: fr.m.rangeNext(fr, it.get(fr).o.(*rangeIter))} }
	case *ssa.Range:
		d, x := c.reg(i), c.op(i.X)
		str := isString(i.X.Type())
		return func(fr *frame) {
			v := x.get(fr)
			r := &rangeIter{}
			if str {
				r.str, r.isStr = v, true
			} else if v.o != nil {
				r.m = v.o.(*Map)
			}
			fr.regs[d] = Value{o: r}
		}
	case *ssa.Select:
		return c.selectIns(i)
	case *ssa.Send:
		ch, x := c.op(i.Chan), c.op(i.X)
		return func(fr *frame) { fr.m.chanSend(ch.get(fr), copyVal(x.get(fr))) }
	case *ssa.Slice:
		return c.sliceIns(i)
	case *ssa.SliceToArrayPointer:
		d, x := c.reg(i), c.op(i.X)
		n := fieldCount(deref(i.Type()))
		return func(fr *frame) {
			s := asSlice(x.get(fr))
			if s == nil && n == 0 {
				fr.regs[d] = Value{}
				return
			}
			if s == nil || s.len < n {
				fr.m.rtPanic("cannot convert slice to array pointer")
			}
			if s.arr.n > 1<<20 {
				panic(unsupported{"slice to array pointer"})
			}
			if s.arr.n > 0 {
				for len(s.arr.cells) < s.arr.n {
					s.arr.at(s.arr.n - 1)
				}
			}
			// a view sharing the (fully grown) backing cells
			view := &SAgg{Agg{cells: s.arr.cells[s.off : s.off+n : s.off+n], n: n}}
			fr.regs[d] = Value{o: &Agg{cells: []Value{{o: view}}, n: 1}}
		}
	case *ssa.Store:
		ad, v := c.op(i.Addr), c.op(i.Val)
		return func(fr *frame) {
			p := ad.get(fr)
			a := fr.m.ptr(p)
			if fr.m.race != nil && fr.m.racing(fr) {
				fr.m.cell(fr, a, int(p.n), true)
			}
			storeCell(a.at(int(p.n)), v.get(fr))
		}
	case *ssa.TypeAssert:
		return c.typeAssert(i)
	}
	return c.unsup(fmt.Sprintf("instruction %T", i))
}

// lazyIndex reports whether the address is used by nothing but a load of an
// integer in the very next instruction.
func lazyIndex(i *ssa.IndexAddr) bool {
	if _, _, ok := intInfo(deref(i.Type())); !ok {
		return false
	}
	var ld *ssa.UnOp
	for _, r := range *i.Referrers() {
		switch u := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if u.Op != token.MUL || ld != nil {
				return false
			}
			ld = u
		default:
			return false
		}
	}
	if ld == nil || ld.Block() != i.Block() {
		return false
	}
	after := false
	for _, x := range i.Block().Instrs {
		if x == ssa.Instruction(i) {
			after = true
			continue
		}
		if !after {
			continue
		}
		if _, ok := x.(*ssa.DebugRef); ok {
			continue
		}
		return x == ssa.Instruction(ld)
	}
	return false
}

func strAt(s Value, k int) Value {
	switch x := s.o.(type) {
	case string:
		return Value{n: uint64(x[k])}
	case *SymStr:
		return x.b[k]
	case *AliasStr:
		return x.s.arr.get(x.s.off + k)
	}
	panic("strAt")
}

func (c *compiler) typeAssert(i *ssa.TypeAssert) ins {
	d, x, t := c.reg(i), c.op(i.X), i.AssertedType
	it, isI := t.Underlying().(*types.Interface)
	p := c.f.prog
	commaOk := i.CommaOk
	return func(fr *frame) {
		v := x.get(fr)
		ok := false
		var res Value
		if v.o != nil {
			f := v.o.(*Iface)
			if isI {
				if p.implements(f.t, it, t) {
					ok, res = true, v
				}
			} else if f.t == t || types.Identical(f.t, t) {
				ok, res = true, copyVal(f.v)
			}
		}
		if commaOk {
			fr.regs[d] = Value{o: Tuple{res, cbool(ok)}}
			return
		}
		if !ok {
			msg := "interface conversion: interface is nil, not " + t.String()
			if v.o != nil {
				msg = "interface conversion: " + v.o.(*Iface).t.String() + " is not " + t.String()
			}
			fr.m.rtPanic(msg)
		}
		fr.regs[d] = res
	}
}

func (p *Prog) implements(t types.Type, it *types.Interface, named types.Type) bool {
	k := [2]types.Type{t, named}
	p.mu.RLock()
	r, ok := p.comp[k]
	p.mu.RUnlock()
	if ok {
		return r
	}
	r = types.Implements(t, it)
	p.mu.Lock()
	p.comp[k] = r
	p.mu.Unlock()
	return r
}

// callee compiles a call into a function returning its result.
func (c *compiler) callee(cc *ssa.CallCommon) func(fr *frame) Value {
	var args []opnd
	for _, a := range cc.Args {
		args = append(args, c.op(a))
	}
	eval := func(fr *frame, first int) []Value {
		out := make([]Value, first+len(args))
		for k := range args {
			out[first+k] = args[k].get(fr)
		}
		return out
	}
	if cc.IsInvoke() {
		recv, meth := c.op(cc.Value), cc.Method
		p := c.f.prog
		return func(fr *frame) Value {
			rv := recv.get(fr)
			if rv.o == nil {
				fr.m.rtPanic("invalid memory address or nil pointer dereference")
			}
			f := rv.o.(*Iface)
			fn := p.method(f.t, meth)
			a := eval(fr, 1)
			a[0] = f.v
			return fr.m.call(fn, a, nil, fr)
		}
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		return c.builtin(v, cc, args)
	case *ssa.Function:
		fn := c.f.prog.fn(v)
		return func(fr *frame) Value { return fr.m.call(fn, eval(fr, 0), nil, fr) }
	}
	fv := c.op(cc.Value)
	return func(fr *frame) Value {
		x := fv.get(fr)
		if x.o == nil {
			fr.m.rtPanic("invalid memory address or nil pointer dereference")
		}
		cl, ok := x.o.(*Closure)
		if !ok {
			if nf, ok := x.o.(nativeFn); ok {
				return nf(fr.m, fr, eval(fr, 0))
			}
			panic(unsupported{fmt.Sprintf("call of %T", x.o)})
		}
		return fr.m.call(cl.fn, eval(fr, 0), cl.env, fr)
	}
}

type nativeFn func(m *M, fr *frame, a []Value) Value

// thunk evaluates callee and arguments now and returns a deferred call.
func (c *compiler) thunk(cc *ssa.CallCommon) func(fr *frame) func(fr *frame) {
	var args []opnd
	for _, a := range cc.Args {
		args = append(args, c.op(a))
	}
	if cc.IsInvoke() {
		recv, meth := c.op(cc.Value), cc.Method
		p := c.f.prog
		return func(fr *frame) func(*frame) {
			rv := recv.get(fr)
			if rv.o == nil {
				fr.m.rtPanic("invalid memory address or nil pointer dereference")
			}
			f := rv.o.(*Iface)
			fn := p.method(f.t, meth)
			a := make([]Value, 1+len(args))
			a[0] = f.v
			for k := range args {
				a[k+1] = args[k].get(fr)
			}
			return func(fr *frame) { fr.m.call(fn, a, nil, fr) }
		}
	}
	ev := func(fr *frame) []Value {
		a := make([]Value, len(args))
		for k := range args {
			a[k] = args[k].get(fr)
		}
		return a
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		// evaluate through temporary operands
		tmp := make([]opnd, len(args))
		return func(fr *frame) func(*frame) {
			a := ev(fr)
			ops := append([]opnd{}, tmp...)
			for k := range a {
				ops[k] = opnd{reg: -1, c: a[k]}
			}
			f := c.builtin(v, cc, ops)
			return func(fr *frame) { f(fr) }
		}
	case *ssa.Function:
		fn := c.f.prog.fn(v)
		return func(fr *frame) func(*frame) {
			a := ev(fr)
			return func(fr *frame) { fr.m.call(fn, a, nil, fr) }
		}
	}
	fv := c.op(cc.Value)
	return func(fr *frame) func(*frame) {
		x := fv.get(fr)
		a := ev(fr)
		return func(fr *frame) {
			if x.o == nil {
				fr.m.rtPanic("invalid memory address or nil pointer dereference")
			}
			if nf, ok := x.o.(nativeFn); ok {
				nf(fr.m, fr, a)
				return
			}
			cl := x.o.(*Closure)
			fr.m.call(cl.fn, a, cl.env, fr)
		}
	}
}

func (c *compiler) unop(i *ssa.UnOp) ins {
	d, x := c.reg(i), c.op(i.X)
	t := i.X.Type()
	switch i.Op {
	case token.MUL:
		et := deref(t)
		chkStr := isString(et)
		_, chkSl := et.Underlying().(*types.Slice)
		lazy := false
		if ia, ok := i.X.(*ssa.IndexAddr); ok {
			lazy = lazyIndex(ia)
		}
		return func(fr *frame) {
			p := x.get(fr)
			if lazy {
				if r, ok := p.o.(*selRes); ok {
					fr.regs[d] = r.v
					return
				}
			}
			a := fr.m.ptr(p)
			if fr.m.race != nil && fr.m.racing(fr) {
				fr.m.cell(fr, a, int(p.n), false)
			}
			v := a.get(int(p.n))
			if v.o != nil {
				switch o := v.o.(type) {
				case *SAgg:
					v = copyVal(v)
				case *Slice:
					if chkStr {
						if o.len == 0 {
							v = Value{}
						} else {
							v = Value{o: &AliasStr{o}}
						}
					}
				case string, *SymStr, *AliasStr:
					if chkSl {
						v = fr.m.stringAsSlice(v)
					}
				}
			}
			fr.regs[d] = v
		}
	case token.NOT:
		return func(fr *frame) {
			v := x.get(fr)
			if v.o == nil {
				fr.regs[d] = Value{n: v.n ^ 1}
				return
			}
			fr.regs[d] = fr.m.tv(fr.m.b.Not(v.o.(*Term)))
		}
	case token.SUB:
		if isFloat(t) {
			return func(fr *frame) {
				fr.regs[d] = cfloat(-fr.m.float(x.get(fr)))
			}
		}
		w, _, ok := intInfo(t)
		if !ok {
			return c.unsup("neg")
		}
		return func(fr *frame) {
			v := x.get(fr)
			if v.o == nil {
				fr.regs[d] = Value{n: -v.n & mask(w)}
				return
			}
			fr.regs[d] = fr.m.tv(fr.m.b.Neg(v.o.(*Term)))
		}
	case token.XOR:
		w, _, ok := intInfo(t)
		if !ok {
			return c.unsup("xor")
		}
		return func(fr *frame) {
			v := x.get(fr)
			if v.o == nil {
				fr.regs[d] = Value{n: ^v.n & mask(w)}
				return
			}
			fr.regs[d] = fr.m.tv(fr.m.b.BNot(v.o.(*Term)))
		}
	case token.ARROW:
		commaOk := i.CommaOk
		return func(fr *frame) {
			v, ok := fr.m.chanRecv(x.get(fr))
			if commaOk {
				fr.regs[d] = Value{o: Tuple{v, cbool(ok)}}
			} else {
				fr.regs[d] = v
			}
		}
	}
	return c.unsup("unop " + i.Op.String())
}

func (c *compiler) binop(i *ssa.BinOp) ins {
	d, x, y := c.reg(i), c.op(i.X), c.op(i.Y)
	t := i.X.Type()
	op := i.Op
	switch op {
	case token.EQL, token.NEQ:
		neg := op == token.NEQ
		// nil comparisons need the non-nil side's type
		tt := t
		if k, ok := i.X.(*ssa.Const); ok && k.Value == nil {
			tt = i.Y.Type()
		}
		if w, _, ok := intInfo(tt); ok {
			return func(fr *frame) {
				a, b := x.get(fr), y.get(fr)
				if a.o == nil && b.o == nil {
					fr.regs[d] = cbool((a.n == b.n) != neg)
					return
				}
				m := fr.m
				r := m.b.Eq(m.term(a, w), m.term(b, w))
				if neg {
					r = m.b.Not(r)
				}
				fr.regs[d] = m.tv(r)
			}
		}
		return func(fr *frame) {
			r := fr.m.eq(x.get(fr), y.get(fr), tt)
			if neg {
				r = fr.m.not(r)
			}
			fr.regs[d] = r
		}
	case token.SHL, token.SHR:
		w, sg, ok := intInfo(t)
		if !ok {
			return c.unsup("shift")
		}
		wy, sgy, _ := intInfo(i.Y.Type())
		return func(fr *frame) { fr.regs[d] = fr.m.shift(op, x.get(fr), y.get(fr), w, sg, wy, sgy) }
	}
	if isString(t) {
		return func(fr *frame) { fr.regs[d] = fr.m.strOp(op, x.get(fr), y.get(fr)) }
	}
	if isFloat(t) {
		f32 := t.Underlying().(*types.Basic).Kind() == types.Float32
		return func(fr *frame) {
			a, b := x.get(fr), y.get(fr)
			if a.o != nil || b.o != nil {
				switch op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ:
					fr.regs[d] = fr.m.floatCmp(op, a, b)
					return
				}
			}
			fr.regs[d] = floatOp(op, fr.m.float(a), fr.m.float(b), f32)
		}
	}
	w, sg, ok := intInfo(t)
	if !ok {
		return c.unsup("binop " + op.String() + " on " + t.String())
	}
	msk := mask1(w)
	switch op {
	case token.ADD:
		return func(fr *frame) {
			a, b := x.get(fr), y.get(fr)
			if a.o == nil && b.o == nil {
				fr.regs[d] = Value{n: (a.n + b.n) & msk}
				return
			}
			fr.regs[d] = fr.m.arith(OAdd, a, b, w)
		}
	case token.SUB:
		return func(fr *frame) {
			a, b := x.get(fr), y.get(fr)
			if a.o == nil && b.o == nil {
				fr.regs[d] = Value{n: (a.n - b.n) & msk}
				return
			}
			fr.regs[d] = fr.m.arith(OSub, a, b, w)
		}
	case token.MUL:
		return func(fr *frame) {
			a, b := x.get(fr), y.get(fr)
			if a.o == nil && b.o == nil {
				fr.regs[d] = Value{n: (a.n * b.n) & msk}
				return
			}
			fr.regs[d] = fr.m.arith(OMul, a, b, w)
		}
	case token.QUO, token.REM:
		var sop Op
		switch {
		case op == token.QUO && sg:
			sop = OSDiv
		case op == token.QUO:
			sop = OUDiv
		case sg:
			sop = OSRem
		default:
			sop = OURem
		}
		return func(fr *frame) {
			a, b := x.get(fr), y.get(fr)
			m := fr.m
			if b.o == nil {
				if b.n == 0 {
					m.rtPanic("integer divide by zero")
				}
				if a.o == nil {
					v, _ := foldArith(sop, a.n, b.n, w)
					fr.regs[d] = Value{n: v & msk}
					return
				}
			} else if m.branch(m.b.Eq(b.o.(*Term), m.b.BV(0, w))) {
				m.rtPanic("integer divide by zero")
			}
			fr.regs[d] = m.arith(sop, a, b, w)
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if w == 0 {
			return func(fr *frame) {
				a, b := fr.m.term(x.get(fr), 0), fr.m.term(y.get(fr), 0)
				var r *Term
				switch op {
				case token.AND:
					r = fr.m.b.And(a, b)
				case token.OR:
					r = fr.m.b.Or(a, b)
				default:
					r = fr.m.b.Not(fr.m.b.Eq(a, b))
				}
				fr.regs[d] = fr.m.tv(r)
			}
		}
		return func(fr *frame) {
			a, b := x.get(fr), y.get(fr)
			if a.o == nil && b.o == nil {
				var r uint64
				switch op {
				case token.AND:
					r = a.n & b.n
				case token.OR:
					r = a.n | b.n
				case token.XOR:
					r = a.n ^ b.n
				default:
					r = a.n &^ b.n
				}
				fr.regs[d] = Value{n: r & msk}
				return
			}
			m := fr.m
			switch op {
			case token.AND:
				fr.regs[d] = m.arith(OBAnd, a, b, w)
			case token.OR:
				fr.regs[d] = m.arith(OBOr, a, b, w)
			case token.XOR:
				fr.regs[d] = m.arith(OBXor, a, b, w)
			default:
				fr.regs[d] = m.arith(OBAnd, a, m.tv(m.b.BNot(m.term(b, w))), w)
			}
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		swap := op == token.GTR || op == token.LEQ // a>b == b<a ; a<=b == !(b<a)
		neg := op == token.LEQ || op == token.GEQ
		return func(fr *frame) {
			a, b := x.get(fr), y.get(fr)
			if swap {
				a, b = b, a
			}
			if a.o == nil && b.o == nil {
				var r bool
				if sg {
					r = sext64(a.n, w) < sext64(b.n, w)
				} else {
					r = a.n < b.n
				}
				fr.regs[d] = cbool(r != neg)
				return
			}
			m := fr.m
			var r *Term
			if sg {
				r = m.b.Slt(m.term(a, w), m.term(b, w))
			} else {
				r = m.b.Ult(m.term(a, w), m.term(b, w))
			}
			if neg {
				r = m.b.Not(r)
			}
			fr.regs[d] = m.tv(r)
		}
	}
	return c.unsup("binop " + op.String())
}

// fewBits reports whether t is an extension of an integer of at most 32 bits.
func fewBits(t *Term) bool {
	switch t.Op {
	case OSExt:
		return t.Args[0].W <= 32
	case OConcat:
		return t.Args[0].isZero() && t.W-t.Args[0].W <= 32
	}
	return false
}

func floatOp(op token.Token, a, b float64, f32 bool) Value {
	r := func(f float64) Value {
		if f32 {
			f = float64(float32(f))
		}
		return cfloat(f)
	}
	switch op {
	case token.ADD:
		return r(a + b)
	case token.SUB:
		return r(a - b)
	case token.MUL:
		return r(a * b)
	case token.QUO:
		return r(a / b)
	case token.LSS:
		return cbool(a < b)
	case token.LEQ:
		return cbool(a <= b)
	case token.GTR:
		return cbool(a > b)
	case token.GEQ:
		return cbool(a >= b)
	}
	panic(unsupported{"float op " + op.String()})
}

func (c *compiler) sliceIns(i *ssa.Slice) ins {
	d, x := c.reg(i), c.op(i.X)
	has := func(v ssa.Value) (opnd, bool, int, bool) {
		if v == nil {
			return opnd{reg: -1}, false, 0, false
		}
		w, sg, _ := intInfo(v.Type())
		return c.op(v), true, w, sg
	}
	lo, hasLo, wl, sl := has(i.Low)
	hi, hasHi, wh, sh := has(i.High)
	mx, hasMx, wm, sm := has(i.Max)
	str := isString(i.X.Type())
	arrN := -1
	if _, ok := i.X.Type().Underlying().(*types.Pointer); ok {
		arrN = fieldCount(deref(i.X.Type()))
	}
	num := func(fr *frame, o *opnd, w int, sg bool) int {
		v := fr.m.conc(o.get(fr), w)
		if sg {
			return int(sext64(v, w))
		}
		if v > 1<<62 {
			return -1
		}
		return int(v)
	}
	return func(fr *frame) {
		m := fr.m
		v := x.get(fr)
		l, h, mxv := 0, 0, 0
		if hasLo {
			l = num(fr, &lo, wl, sl)
		}
		if str {
			n := strLen(v)
			h = n
			if hasHi {
				h = num(fr, &hi, wh, sh)
			}
			if h < 0 || h > n || l < 0 || l > h {
				m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, n))
			}
			if s, ok := v.o.(string); ok {
				fr.regs[d] = cstr(s[l:h])
			} else if a, ok := v.o.(*AliasStr); ok {
				if l == h {
					fr.regs[d] = Value{}
				} else {
					fr.regs[d] = Value{o: &AliasStr{&Slice{arr: a.s.arr, off: a.s.off + l, len: h - l, cap: h - l}}}
				}
			} else {
				fr.regs[d] = mkStr(strBytes(v)[l:h])
			}
			return
		}
		var s *Slice
		if arrN >= 0 {
			a := m.ptr(v).child(int(v.n), arrN)
			s = &Slice{arr: a, len: arrN, cap: arrN}
		} else {
			s = asSlice(v)
		}
		n, cp := 0, 0
		if s != nil {
			n, cp = s.len, s.cap
		}
		h, mxv = n, cp
		if hasHi {
			h = num(fr, &hi, wh, sh)
		}
		if hasMx {
			mxv = num(fr, &mx, wm, sm)
		}
		if mxv < 0 || mxv > cp || h < 0 || h > mxv || l < 0 || l > h {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, mxv, cp))
		}
		if s == nil {
			fr.regs[d] = Value{}
			return
		}
		fr.regs[d] = Value{o: &Slice{arr: s.arr, off: s.off + l, len: h - l, cap: mxv - l}}
	}
}

func (c *compiler) convert(d int, x opnd, from, to types.Type) ins {
	ut, uf := to.Underlying(), from.Underlying()
	if isString(to) {
		if isString(from) {
			return func(fr *frame) { fr.regs[d] = x.get(fr) }
		}
		if isByteSlice(from) {
			return func(fr *frame) { fr.regs[d] = mkStr(sliceVals(asSlice(x.get(fr)))) }
		}
		if _, ok := uf.(*types.Slice); ok { // []rune
			return func(fr *frame) {
				var b []Value
				for _, v := range sliceVals(asSlice(x.get(fr))) {
					b = append(b, fr.m.encodeRune(fr, v)...)
				}
				fr.regs[d] = mkStr(b)
			}
		}
		if w, _, ok := intInfo(from); ok {
			if w == 32 {
				return func(fr *frame) { fr.regs[d] = mkStr(fr.m.encodeRune(fr, x.get(fr))) }
			}
			return func(fr *frame) { fr.regs[d] = cstr(string(rune(fr.m.conc(x.get(fr), w)))) }
		}
	}
	if isString(from) {
		if isByteSlice(to) {
			return func(fr *frame) {
				b := strBytes(x.get(fr))
				fr.regs[d] = newSlice(append([]Value{}, b...))
			}
		}
		if _, ok := ut.(*types.Slice); ok {
			return func(fr *frame) {
				var vs []Value
				s, ok := concStr(x.get(fr))
				if !ok {
					for b := strBytes(x.get(fr)); len(b) > 0; {
						r, n := fr.m.decodeRune(fr, b)
						vs, b = append(vs, r), b[n:]
					}
				}
				for _, r := range s {
					vs = append(vs, Value{n: uint64(uint32(r))})
				}
				fr.regs[d] = newSlice(vs)
			}
		}
	}
	isPtrLike := func(t types.Type) bool {
		if _, ok := t.(*types.Pointer); ok {
			return true
		}
		b, ok := t.(*types.Basic)
		return ok && (b.Kind() == types.UnsafePointer || b.Kind() == types.Uintptr)
	}
	if isPtrLike(ut) && isPtrLike(uf) {
		return func(fr *frame) { fr.regs[d] = x.get(fr) }
	}
	if isFloat(from) && isFloat(to) {
		f32 := ut.(*types.Basic).Kind() == types.Float32
		return func(fr *frame) {
			v := x.get(fr)
			if f32 {
				v = cfloat(float64(float32(fr.m.float(v))))
			}
			fr.regs[d] = v
		}
	}
	wf, sf, okf := intInfo(from)
	wt, st, okt := intInfo(to)
	if okf && okt {
		return func(fr *frame) {
			v := x.get(fr)
			if v.o == nil {
				n := v.n
				if sf {
					n = uint64(sext64(n, wf))
				}
				fr.regs[d] = Value{n: n & mask(wt)}
				return
			}
			t, ok := v.o.(*Term)
			if !ok {
				fr.regs[d] = v // uintptr carrying a pointer
				return
			}
			b := fr.m.b
			switch {
			case wt < wf:
				t = b.Extract(t, wt-1, 0)
			case wt > wf && sf:
				t = b.SExt(t, wt)
			case wt > wf:
				t = b.ZExt(t, wt)
			}
			fr.regs[d] = fr.m.tv(t)
		}
	}
	if okf && isFloat(to) {
		f32 := ut.(*types.Basic).Kind() == types.Float32
		return func(fr *frame) {
			v := x.get(fr)
			if t, ok := v.o.(*Term); ok && !f32 && (wf <= 32 || fewBits(t)) {
				if wf < 64 && sf {
					t = fr.m.b.SExt(t, 64)
				} else if wf < 64 {
					t = fr.m.b.ZExt(t, 64)
				}
				if t.Op == OConst {
					fr.regs[d] = cfloat(float64(int64(t.Val)))
				} else {
					fr.regs[d] = Value{o: &fint{t}}
				}
				return
			}
			n := fr.m.conc(v, wf)
			var f float64
			if sf {
				f = float64(sext64(n, wf))
			} else {
				f = float64(n)
			}
			if f32 {
				f = float64(float32(f))
			}
			fr.regs[d] = cfloat(f)
		}
	}
	if isFloat(from) && okt {
		return func(fr *frame) {
			v := x.get(fr)
			if o, ok := v.o.(*fint); ok {
				fr.regs[d] = fr.m.tv(fr.m.b.Extract(o.t, wt-1, 0))
				return
			}
			f := fr.m.float(v)
			if st {
				fr.regs[d] = Value{n: uint64(int64(f)) & mask(wt)}
			} else {
				fr.regs[d] = Value{n: uint64(f) & mask(wt)}
			}
		}
	}
	if types.Identical(ut, uf) {
		return func(fr *frame) { fr.regs[d] = x.get(fr) }
	}
	return c.unsup(fmt.Sprintf("convert %s to %s", from, to))
}

func (c *compiler) builtin(b *ssa.Builtin, cc *ssa.CallCommon, a []opnd) func(fr *frame) Value {
	switch b.Name() {
	case "len", "cap":
		isCap := b.Name() == "cap"
		t := cc.Args[0].Type().Underlying()
		if n := fieldCount(deref(t)); n >= 0 {
			if _, ok := deref(t).Underlying().(*types.Array); ok {
				return func(fr *frame) Value { return Value{n: uint64(n)} }
			}
		}
		if isString(t) {
			return func(fr *frame) Value { return Value{n: uint64(strLen(a[0].get(fr)))} }
		}
		return func(fr *frame) Value {
			switch o := a[0].get(fr).o.(type) {
			case nil:
				return Value{}
			case *Slice:
				if isCap {
					return Value{n: uint64(o.cap)}
				}
				return Value{n: uint64(o.len)}
			case *Map:
				fr.m.mapAcc(fr, o, false)
				return Value{n: uint64(o.n)}
			case *Chan:
				if isCap {
					return Value{n: uint64(o.cap)}
				}
				return Value{n: uint64(len(o.buf))}
			default:
				panic(unsupported{fmt.Sprintf("len of %T", o)})
			}
		}
	case "append":
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		sz := int(c.f.prog.sizes.Sizeof(et))
		str := len(cc.Args) > 1 && isString(cc.Args[1].Type())
		return func(fr *frame) Value {
			if len(a) == 1 {
				return a[0].get(fr)
			}
			s := asSlice(a[0].get(fr))
			y := a[1].get(fr)
			if fr.m.race != nil {
				fr.m.appendAcc(fr, s, y, str)
			}
			if str {
				return appendVals(s, strBytes(y), sz)
			}
			ys := asSlice(y)
			if ys == nil || ys.len == 0 {
				if s == nil {
					return Value{}
				}
				return Value{o: s}
			}
			return appendVals(s, sliceVals(ys), sz)
		}
	case "copy":
		str := isString(cc.Args[1].Type())
		return func(fr *frame) Value {
			d := asSlice(a[0].get(fr))
			var src []Value
			if str {
				src = strBytes(a[1].get(fr))
			} else {
				src = sliceVals(asSlice(a[1].get(fr)))
			}
			n := len(src)
			if d == nil {
				n = 0
			} else if d.len < n {
				n = d.len
			}
			if fr.m.race != nil {
				if !str {
					fr.m.cellsAcc(fr, asSlice(a[1].get(fr)), 0, n, false)
				}
				fr.m.cellsAcc(fr, d, 0, n, true)
			}
			for k := 0; k < n; k++ {
				storeCell(d.arr.at(d.off+k), src[k])
			}
			return Value{n: uint64(n)}
		}
	case "delete":
		return func(fr *frame) Value {
			mv := a[0].get(fr)
			if mv.o != nil {
				fr.m.mapAcc(fr, mv.o.(*Map), true)
				fr.m.mapDelete(mv.o.(*Map), a[1].get(fr))
			}
			return Value{}
		}
	case "clear":
		return func(fr *frame) Value {
			switch o := a[0].get(fr).o.(type) {
			case *Map:
				fr.m.mapAcc(fr, o, true)
				*o = Map{idx: map[any]int{}, kt: o.kt}
			case *Slice:
				for k := 0; k < o.len; k++ {
					storeCell(o.arr.at(o.off+k), Value{})
				}
			}
			return Value{}
		}
	case "close":
		return func(fr *frame) Value {
			v := a[0].get(fr)
			if v.o == nil {
				fr.m.rtPanic("close of nil channel")
			}
			ch := v.o.(*Chan)
			if ch.closed {
				fr.m.rtPanic("close of closed channel")
			}
			ch.closed = true
			return Value{}
		}
	case "print", "println":
		return func(fr *frame) Value { return Value{} }
	case "recover":
		return func(fr *frame) Value { return fr.m.recoverPanic(fr) }
	case "min", "max":
		t := cc.Args[0].Type()
		isMin := b.Name() == "min"
		w, sg, ok := intInfo(t)
		return func(fr *frame) Value {
			r := a[0].get(fr)
			for k := 1; k < len(a); k++ {
				y := a[k].get(fr)
				if !ok {
					var lt Value
					switch {
					case isFloat(t):
						x1, x2 := y, r
						if !isMin {
							x1, x2 = r, y
						}
						lt = fr.m.floatCmp(token.LSS, x1, x2)
					case isString(t):
						x1, x2 := y, r
						if !isMin {
							x1, x2 = r, y
						}
						lt = fr.m.strOp(token.LSS, x1, x2)
					default:
						panic(unsupported{"min/max of " + t.String()})
					}
					if fr.m.truth(lt) {
						r = y
					}
					continue
				}
				lt := fr.m.less(y, r, w, sg)
				if !isMin {
					lt = fr.m.less(r, y, w, sg)
				}
				r = fr.m.ite(lt, y, r, w)
			}
			return r
		}
	case "ssa:wrapnilchk":
		return func(fr *frame) Value {
			v := a[0].get(fr)
			if v.o == nil {
				fr.m.rtPanic("invalid memory address or nil pointer dereference")
			}
			return v
		}
	case "String": // unsafe.String
		return func(fr *frame) Value {
			p, n := a[0].get(fr), int(fr.m.conc(a[1].get(fr), 64))
			if n == 0 {
				return Value{}
			}
			return Value{o: &AliasStr{&Slice{arr: fr.m.ptr(p), off: int(p.n), len: n, cap: n}}}
		}
	case "StringData":
		return func(fr *frame) Value {
			s := fr.m.stringAsSlice(a[0].get(fr))
			if s.o == nil {
				return Value{}
			}
			sl := s.o.(*Slice)
			return Value{o: sl.arr, n: uint64(sl.off)}
		}
	case "Sizeof":
		sz := uint64(types.SizesFor("gc", "amd64").Sizeof(cc.Args[0].Type()))
		return func(fr *frame) Value { return Value{n: sz} }
	case "SliceData":
		return func(fr *frame) Value {
			s := asSlice(a[0].get(fr))
			if s == nil {
				return Value{}
			}
			return Value{o: s.arr, n: uint64(s.off)}
		}
	case "Slice": // unsafe.Slice
		return func(fr *frame) Value {
			p, n := a[0].get(fr), int(fr.m.conc(a[1].get(fr), 64))
			if p.o == nil {
				return Value{}
			}
			return Value{o: &Slice{arr: fr.m.ptr(p), off: int(p.n), len: n, cap: n}}
		}
	}
	nm := b.Name()
	return func(fr *frame) Value { panic(unsupported{"builtin " + nm}) }
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundup(n int) int {
	if n <= 32768 {
		for _, c := range sizeClasses {
			if c >= n {
				return c
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

func growCap(old, need, sz int) int {
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	if sz == 0 {
		return nc
	}
	return roundup(nc*sz) / sz
}

func appendVals(s *Slice, ys []Value, sz int) Value {
	n, cp := 0, 0
	if s != nil {
		n, cp = s.len, s.cap
	}
	if len(ys) == 0 {
		if s == nil {
			return Value{}
		}
		return Value{o: s}
	}
	need := n + len(ys)
	if need <= cp {
		for k, v := range ys {
			storeCell(s.arr.at(s.off+n+k), v)
		}
		return Value{o: &Slice{arr: s.arr, off: s.off, len: need, cap: cp}}
	}
	nc := growCap(cp, need, sz)
	arr := &Agg{n: nc}
	arr.cells = make([]Value, need)
	for k := 0; k < n; k++ {
		arr.cells[k] = copyVal(s.arr.get(s.off + k))
	}
	for k, v := range ys {
		arr.cells[n+k] = copyVal(v)
	}
	return Value{o: &Slice{arr: arr, len: need, cap: nc}}
}
