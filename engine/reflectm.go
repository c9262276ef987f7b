package main

// A small model of package reflect: types, and values that are copies or
// addressable cells.

import (
	"go/types"
)

type rType struct{ t types.Type }

type rVal struct {
	t    types.Type
	v    Value // value, when !addr
	p    Value // address, when addr
	addr bool
}

func (m *M) rtypeIface(t types.Type) Value {
	pk := m.p.pkgs["reflect"]
	if pk == nil {
		panic(unsupported{"reflect not loaded"})
	}
	return iface(m.p.ptrTo(pk.Type("rtype").Type()), Value{o: m.p.rtypeOf(t)})
}

// rtypeOf returns a canonical rType pointer for identical types.
func (p *Prog) rtypeOf(t types.Type) *rType {
	p.initMu.Lock()
	defer p.initMu.Unlock()
	if r, ok := p.rts[t]; ok {
		return r
	}
	for k, r := range p.rts {
		if types.Identical(k, t) {
			p.rts[t] = r
			return r
		}
	}
	r := &rType{t}
	p.rts[t] = r
	return r
}

func kindOf(t types.Type) uint64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func mkRV(r *rVal) Value {
	return Value{o: &SAgg{Agg{n: 3, ext: r}}}
}

func rv(m *M, v Value) *rVal {
	s, ok := v.o.(*SAgg)
	if !ok || s.ext == nil {
		m.targetPanic(iface(types.Typ[types.String], cstr("reflect: call on zero Value")))
	}
	return s.ext.(*rVal)
}

func (r *rVal) get(m *M) Value {
	if r.addr {
		return m.load(r.p)
	}
	return r.v
}

func reflectIntrinsics(tab map[string]intrinsic) {
	typeOf := func(m *M, fr *frame, a []Value) Value {
		if a[0].o == nil {
			return Value{}
		}
		return m.rtypeIface(a[0].o.(*Iface).t)
	}
	tab["reflect.TypeOf"] = typeOf
	rt := func(v Value) types.Type { return v.o.(*rType).t }
	tab["(*reflect.rtype).Kind"] = func(m *M, fr *frame, a []Value) Value { return Value{n: kindOf(rt(a[0]))} }
	tab["(*reflect.rtype).String"] = func(m *M, fr *frame, a []Value) Value { return cstr(rt(a[0]).String()) }
	tab["(*reflect.rtype).Name"] = func(m *M, fr *frame, a []Value) Value {
		if n, ok := rt(a[0]).(*types.Named); ok {
			return cstr(n.Obj().Name())
		}
		return Value{}
	}
	tab["(*reflect.rtype).Size"] = func(m *M, fr *frame, a []Value) Value { return Value{n: uint64(m.p.sizes.Sizeof(rt(a[0])))} }
	tab["(*reflect.rtype).Comparable"] = func(m *M, fr *frame, a []Value) Value { return cbool(types.Comparable(rt(a[0]))) }
	tab["(*reflect.rtype).Elem"] = func(m *M, fr *frame, a []Value) Value {
		switch u := rt(a[0]).Underlying().(type) {
		case *types.Pointer:
			return m.rtypeIface(u.Elem())
		case *types.Slice:
			return m.rtypeIface(u.Elem())
		case *types.Array:
			return m.rtypeIface(u.Elem())
		case *types.Map:
			return m.rtypeIface(u.Elem())
		}
		m.targetPanic(iface(types.Typ[types.String], cstr("reflect: Elem of invalid type")))
		return Value{}
	}
	tab["reflect.ValueOf"] = func(m *M, fr *frame, a []Value) Value {
		if a[0].o == nil {
			return Value{}
		}
		i := a[0].o.(*Iface)
		return mkRV(&rVal{t: i.t, v: i.v})
	}
	tab["reflect.New"] = func(m *M, fr *frame, a []Value) Value {
		t := a[0].o.(*Iface).v.o.(*rType).t
		return mkRV(&rVal{t: m.p.ptrTo(t), v: Value{o: &Agg{n: 1}}})
	}
	tab["(reflect.Value).Elem"] = func(m *M, fr *frame, a []Value) Value {
		r := rv(m, a[0])
		v := r.get(m)
		switch u := r.t.Underlying().(type) {
		case *types.Pointer:
			if v.o == nil {
				return Value{}
			}
			return mkRV(&rVal{t: u.Elem(), p: v, addr: true})
		case *types.Interface:
			if v.o == nil {
				return Value{}
			}
			i := v.o.(*Iface)
			return mkRV(&rVal{t: i.t, v: i.v})
		}
		m.targetPanic(iface(types.Typ[types.String], cstr("reflect: Elem of invalid value")))
		return Value{}
	}
	tab["(reflect.Value).Interface"] = func(m *M, fr *frame, a []Value) Value {
		r := rv(m, a[0])
		v := r.get(m)
		if isIface(r.t) {
			return v
		}
		return iface(r.t, v)
	}
	tab["(reflect.Value).Set"] = func(m *M, fr *frame, a []Value) Value {
		r, x := rv(m, a[0]), rv(m, a[1])
		if !r.addr {
			m.targetPanic(iface(types.Typ[types.String], cstr("reflect: Set of unaddressable value")))
		}
		m.storeP(r.p, m.assignTo(x, r.t, "reflect.Set"))
		return Value{}
	}
	for _, n := range []string{"Int", "Uint", "Float", "Bool", "Bytes"} {
		n := n
		tab["(reflect.Value)."+n] = func(m *M, fr *frame, a []Value) Value {
			r := rv(m, a[0])
			w, sg, ok := intInfo(r.t)
			v := r.get(m)
			switch {
			case n == "Bool" && ok && w == 0, n == "Float" && isFloat(r.t), n == "Bytes" && isByteSlice(r.t):
				return v
			case n == "Int" && ok && sg, n == "Uint" && ok && w > 0 && !sg:
				if v.o == nil {
					if sg {
						return Value{n: uint64(sext64(v.n, w))}
					}
					return v
				}
				if sg {
					return m.tv(m.b.SExt(m.term(v, w), 64))
				}
				return m.tv(m.b.ZExt(m.term(v, w), 64))
			}
			panic(unsupported{"reflect.Value." + n + " of " + r.t.String()})
		}
		tab["(reflect.Value).Set"+n] = func(m *M, fr *frame, a []Value) Value {
			r := rv(m, a[0])
			w, sg, ok := intInfo(r.t)
			v := a[1]
			switch {
			case !r.addr:
			case n == "Bool" && ok && w == 0, n == "Float" && isFloat(r.t), n == "Bytes" && isByteSlice(r.t):
				m.storeP(r.p, v)
				return Value{}
			case n == "Int" && ok && sg, n == "Uint" && ok && w > 0 && !sg:
				if w < 64 {
					if v.o == nil {
						v.n &= 1<<uint(w) - 1
					} else {
						v = m.tv(m.b.Extract(m.term(v, 64), w-1, 0))
					}
				}
				m.storeP(r.p, v)
				return Value{}
			}
			panic(unsupported{"reflect.Value.Set" + n + " of " + r.t.String()})
		}
	}
	tab["(reflect.Value).SetString"] = func(m *M, fr *frame, a []Value) Value {
		r := rv(m, a[0])
		if !r.addr || !isString(r.t) {
			panic(unsupported{"reflect.Value.SetString of " + r.t.String()})
		}
		m.storeP(r.p, a[1])
		return Value{}
	}
	tab["(reflect.Value).Kind"] = func(m *M, fr *frame, a []Value) Value {
		if a[0].o == nil {
			return Value{}
		}
		return Value{n: kindOf(rv(m, a[0]).t)}
	}
	tab["(reflect.Value).IsValid"] = func(m *M, fr *frame, a []Value) Value { return cbool(a[0].o != nil) }
	tab["(reflect.Value).IsNil"] = func(m *M, fr *frame, a []Value) Value { return cbool(rv(m, a[0]).get(m).o == nil) }
	tab["(reflect.Value).Type"] = func(m *M, fr *frame, a []Value) Value { return m.rtypeIface(rv(m, a[0]).t) }
	tab["(reflect.Value).Len"] = func(m *M, fr *frame, a []Value) Value {
		v := rv(m, a[0]).get(m)
		switch o := v.o.(type) {
		case nil:
			return Value{}
		case *Slice:
			return Value{n: uint64(o.len)}
		case *Map:
			return Value{n: uint64(o.n)}
		}
		return Value{n: uint64(strLen(v))}
	}
	tab["reflect.Zero"] = func(m *M, fr *frame, a []Value) Value {
		return mkRV(&rVal{t: a[0].o.(*Iface).v.o.(*rType).t})
	}
	tab["reflect.DeepEqual"] = func(m *M, fr *frame, a []Value) Value { return m.deepIface(a[0], a[1], 0) }
	structIntrinsics(tab)
	// reflectlite: only what sort and context use
	tab["internal/reflectlite.ValueOf"] = tab["reflect.ValueOf"]
	tab["(internal/reflectlite.Value).Len"] = tab["(reflect.Value).Len"]
	tab["internal/reflectlite.TypeOf"] = func(m *M, fr *frame, a []Value) Value {
		if a[0].o == nil {
			return Value{}
		}
		pk := m.p.pkgs["internal/reflectlite"]
		return iface(m.p.ptrTo(pk.Type("rtype").Type()), Value{o: m.p.rtypeOf(a[0].o.(*Iface).t)})
	}
	for _, n := range []string{"Kind", "String", "Name", "Comparable"} {
		tab["(*internal/reflectlite.rtype)."+n] = tab["(*reflect.rtype)."+n]
		tab["(internal/reflectlite.rtype)."+n] = tab["(*reflect.rtype)."+n]
	}
}

// deepEqual is reflect.DeepEqual of two values of one type.
func (m *M) deepEqual(a, b Value, t types.Type, depth int) Value {
	if depth > 40 {
		panic(unsupported{"deep equality of a cyclic value"})
	}
	elems := func(x, y []Value, et types.Type) Value {
		r := cbool(len(x) == len(y))
		for i := 0; i < len(x) && (r.o != nil || r.n != 0); i++ {
			r = m.and(r, m.deepEqual(x[i], y[i], et, depth+1))
		}
		return r
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if (a.o == nil) != (b.o == nil) {
			return cbool(false)
		}
		if a.o == nil || a.o.(*Slice) == b.o.(*Slice) {
			return cbool(true)
		}
		x, y := sliceVals(a.o.(*Slice)), sliceVals(b.o.(*Slice))
		if isByteSlice(t) {
			return m.bytesEq(x, y)
		}
		return elems(x, y, u.Elem())
	case *types.Array:
		n := int(u.Len())
		x, y := make([]Value, n), make([]Value, n)
		for i := range x {
			x[i], y[i] = fieldOf(a, i), fieldOf(b, i)
		}
		return elems(x, y, u.Elem())
	case *types.Struct:
		r := cbool(true)
		for i := 0; i < u.NumFields() && (r.o != nil || r.n != 0); i++ {
			r = m.and(r, m.deepEqual(fieldOf(a, i), fieldOf(b, i), u.Field(i).Type(), depth+1))
		}
		return r
	case *types.Pointer:
		if a.o == b.o && a.n == b.n {
			return cbool(true)
		}
		if a.o == nil || b.o == nil {
			return cbool(false)
		}
		return m.deepEqual(m.load(a), m.load(b), u.Elem(), depth+1)
	case *types.Interface:
		return m.deepIface(a, b, depth+1)
	case *types.Map:
		x, _ := a.o.(*Map)
		y, _ := b.o.(*Map)
		if (x == nil) != (y == nil) {
			return cbool(false)
		}
		if x == nil || x == y {
			return cbool(true)
		}
		if x.n != y.n {
			return cbool(false)
		}
		r := cbool(true)
		for i, k := range x.keys {
			if !x.live[i] {
				continue
			}
			v, ok := m.mapGet(y, k)
			if !ok {
				return cbool(false)
			}
			r = m.and(r, m.deepEqual(x.vals[i], v, u.Elem(), depth+1))
		}
		return r
	case *types.Signature:
		return cbool(a.o == nil && b.o == nil)
	}
	return m.eq(a, b, t)
}

func (m *M) deepIface(a, b Value, depth int) Value {
	if a.o == nil || b.o == nil {
		return cbool(a.o == nil && b.o == nil)
	}
	x, y := a.o.(*Iface), b.o.(*Iface)
	if !types.Identical(x.t, y.t) {
		return cbool(false)
	}
	return m.deepEqual(x.v, y.v, x.t, depth)
}

func rpanic(m *M, msg string) { m.targetPanic(iface(types.Typ[types.String], cstr(msg))) }

// assignTo is the value of x as a value of type t.
func (m *M) assignTo(x *rVal, t types.Type, what string) Value {
	v := x.get(m)
	if !types.AssignableTo(x.t, t) {
		rpanic(m, what+": value of type "+x.t.String()+" is not assignable to type "+t.String())
	}
	if isIface(t) && !isIface(x.t) {
		return iface(x.t, v)
	}
	return v
}

func (m *M) convertTo(fr *frame, x *rVal, t types.Type) *rVal {
	v := x.get(m)
	if !types.ConvertibleTo(x.t, t) {
		rpanic(m, "reflect.Value.Convert: value of type "+x.t.String()+" cannot be converted to type "+t.String())
	}
	if isIface(t) {
		return &rVal{t: t, v: m.assignTo(x, t, "reflect.Value.Convert")}
	}
	if types.Identical(x.t.Underlying(), t.Underlying()) {
		return &rVal{t: t, v: v}
	}
	f2 := &frame{m: m, fn: fr.fn, caller: fr, rt: fr.rt, regs: make([]Value, 1)}
	(&compiler{}).convert(0, opnd{reg: -1, c: v}, x.t, t)(f2)
	return &rVal{t: t, v: f2.regs[0]}
}

func (m *M) rvals(vs []*rVal) Value {
	out := make([]Value, len(vs))
	for i, v := range vs {
		out[i] = mkRV(v)
	}
	return newSlice(out)
}

// callFunc calls a function value of signature sig the way reflect does.
func (m *M) callFunc(fr *frame, sig *types.Signature, f Value, args []Value) []*rVal {
	np := sig.Params().Len()
	fixed := np
	if sig.Variadic() {
		fixed--
	}
	if len(args) < fixed || !sig.Variadic() && len(args) > np {
		rpanic(m, "reflect: Call with wrong number of input arguments")
	}
	conv := func(a Value, t types.Type) Value {
		x := rv(m, a)
		if !types.AssignableTo(x.t, t) {
			rpanic(m, "reflect: Call using "+x.t.String()+" as type "+t.String())
		}
		return m.assignTo(x, t, "reflect: Call")
	}
	var in []Value
	for i := 0; i < fixed; i++ {
		in = append(in, conv(args[i], sig.Params().At(i).Type()))
	}
	if sig.Variadic() {
		et := sig.Params().At(fixed).Type().(*types.Slice).Elem()
		var rest []Value
		for _, a := range args[fixed:] {
			rest = append(rest, conv(a, et))
		}
		in = append(in, newSlice(rest))
	}
	var res Value
	switch c := f.o.(type) {
	case *Closure:
		res = m.call(c.fn, in, c.env, fr)
	case nativeFn:
		res = c(m, fr, in)
	default:
		rpanic(m, "reflect: call of nil function")
	}
	rs := sig.Results()
	out := make([]*rVal, rs.Len())
	for i := range out {
		v := res
		if rs.Len() > 1 {
			v = res.o.(Tuple)[i]
		}
		out[i] = &rVal{t: rs.At(i).Type(), v: v}
	}
	return out
}

func structIntrinsics(tab map[string]intrinsic) {
	rt := func(v Value) types.Type { return v.o.(*rType).t }
	itype := func(v Value) types.Type { return v.o.(*Iface).v.o.(*rType).t }
	structOf := func(m *M, t types.Type) *types.Struct {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			rpanic(m, "reflect: call of a struct method on "+t.String())
		}
		return st
	}
	tab["(*reflect.rtype).NumField"] = func(m *M, fr *frame, a []Value) Value {
		return Value{n: uint64(structOf(m, rt(a[0])).NumFields())}
	}
	tab["(*reflect.rtype).Field"] = func(m *M, fr *frame, a []Value) Value {
		st := structOf(m, rt(a[0]))
		i := int(a[1].n)
		if i < 0 || i >= st.NumFields() {
			rpanic(m, "reflect: Field index out of bounds")
		}
		f := st.Field(i)
		pkg := ""
		if !f.Exported() {
			pkg = f.Pkg().Path()
		}
		return Value{o: &SAgg{Agg{n: 7, cells: []Value{cstr(f.Name()), cstr(pkg), m.rtypeIface(f.Type()), cstr(st.Tag(i)),
			{}, newSlice([]Value{{n: uint64(i)}}), cbool(f.Embedded())}}}}
	}
	tab["reflect.SliceOf"] = func(m *M, fr *frame, a []Value) Value { return m.rtypeIface(types.NewSlice(itype(a[0]))) }
	tab["reflect.FuncOf"] = func(m *M, fr *frame, a []Value) Value {
		tup := func(v Value) *types.Tuple {
			var vs []*types.Var
			for _, t := range sliceVals(asSlice(v)) {
				vs = append(vs, types.NewParam(0, nil, "", itype(t)))
			}
			return types.NewTuple(vs...)
		}
		return m.rtypeIface(types.NewSignatureType(nil, nil, nil, tup(a[0]), tup(a[1]), a[2].n != 0))
	}
	tab["reflect.MakeFunc"] = func(m *M, fr *frame, a []Value) Value {
		t, f := itype(a[0]), a[1]
		sig := t.Underlying().(*types.Signature)
		return mkRV(&rVal{t: t, v: Value{o: nativeFn(func(m *M, fr *frame, in []Value) Value {
			var vs []*rVal
			for i, v := range in {
				vs = append(vs, &rVal{t: sig.Params().At(i).Type(), v: v})
			}
			var res Value
			switch c := f.o.(type) {
			case *Closure:
				res = m.call(c.fn, []Value{m.rvals(vs)}, c.env, fr)
			case nativeFn:
				res = c(m, fr, []Value{m.rvals(vs)})
			}
			outs := sliceVals(asSlice(res))
			if len(outs) != sig.Results().Len() {
				rpanic(m, "reflect: wrong return count from function created by MakeFunc")
			}
			var tp Tuple
			for i, o := range outs {
				tp = append(tp, m.assignTo(rv(m, o), sig.Results().At(i).Type(), "reflect: function created by MakeFunc"))
			}
			switch len(tp) {
			case 0:
				return Value{}
			case 1:
				return tp[0]
			}
			return Value{o: tp}
		})}})
	}
	field := func(m *M, r *rVal, i int) *rVal {
		st := structOf(m, r.t)
		ft := st.Field(i).Type()
		if r.addr {
			ag := m.ptr(r.p)
			return &rVal{t: ft, p: Value{o: ag.child(int(r.p.n), st.NumFields()), n: uint64(i)}, addr: true}
		}
		return &rVal{t: ft, v: fieldOf(r.v, i)}
	}
	tab["(reflect.Value).NumField"] = func(m *M, fr *frame, a []Value) Value {
		return Value{n: uint64(structOf(m, rv(m, a[0]).t).NumFields())}
	}
	tab["(reflect.Value).Field"] = func(m *M, fr *frame, a []Value) Value {
		r := rv(m, a[0])
		if i := int(a[1].n); i >= 0 && i < structOf(m, r.t).NumFields() {
			return mkRV(field(m, r, i))
		}
		rpanic(m, "reflect: Field index out of range")
		return Value{}
	}
	tab["(reflect.Value).FieldByName"] = func(m *M, fr *frame, a []Value) Value {
		r := rv(m, a[0])
		name, ok := concStr(a[1])
		if !ok {
			panic(unsupported{"field with a symbolic name"})
		}
		st := structOf(m, r.t)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return mkRV(field(m, r, i))
			}
			if st.Field(i).Embedded() {
				panic(unsupported{"reflection on embedded fields"})
			}
		}
		return Value{}
	}
	tab["(reflect.Value).Index"] = func(m *M, fr *frame, a []Value) Value {
		r := rv(m, a[0])
		v, i := r.get(m), int(a[1].n)
		switch u := r.t.Underlying().(type) {
		case *types.Slice:
			s := asSlice(v)
			if s == nil || i < 0 || i >= s.len {
				rpanic(m, "reflect: slice index out of range")
			}
			return mkRV(&rVal{t: u.Elem(), p: Value{o: s.arr, n: uint64(s.off + i)}, addr: true})
		case *types.Array:
			if i < 0 || i >= int(u.Len()) {
				rpanic(m, "reflect: array index out of range")
			}
			return mkRV(&rVal{t: u.Elem(), v: fieldOf(v, i)})
		}
		panic(unsupported{"reflect.Value.Index of " + r.t.String()})
	}
	tab["(reflect.Value).MapKeys"] = func(m *M, fr *frame, a []Value) Value {
		r := rv(m, a[0])
		mp, _ := r.get(m).o.(*Map)
		var vs []*rVal
		if mp != nil {
			for i, k := range mp.keys {
				if mp.live[i] {
					vs = append(vs, &rVal{t: r.t.Underlying().(*types.Map).Key(), v: k})
				}
			}
		}
		return m.rvals(vs)
	}
	tab["(reflect.Value).MapIndex"] = func(m *M, fr *frame, a []Value) Value {
		r := rv(m, a[0])
		mp, _ := r.get(m).o.(*Map)
		if mp == nil {
			return Value{}
		}
		v, ok := m.mapGet(mp, m.assignTo(rv(m, a[1]), r.t.Underlying().(*types.Map).Key(), "reflect.Value.MapIndex"))
		if !ok {
			return Value{}
		}
		return mkRV(&rVal{t: r.t.Underlying().(*types.Map).Elem(), v: v})
	}
	tab["(*reflect.rtype).Key"] = func(m *M, fr *frame, a []Value) Value {
		mt, ok := rt(a[0]).Underlying().(*types.Map)
		if !ok {
			rpanic(m, "reflect: Key of non-map type "+rt(a[0]).String())
		}
		return m.rtypeIface(mt.Key())
	}
	tab["reflect.MakeSlice"] = func(m *M, fr *frame, a []Value) Value {
		vs := make([]Value, int(a[2].n))
		s := newSlice(vs)
		sl := s.o.(*Slice)
		sl.len = int(a[1].n)
		return mkRV(&rVal{t: itype(a[0]), v: s})
	}
	makeMap := func(m *M, fr *frame, a []Value) Value {
		return mkRV(&rVal{t: itype(a[0]), v: Value{o: &Map{idx: map[any]int{}, kt: itype(a[0]).Underlying().(*types.Map).Key()}}})
	}
	tab["reflect.MakeMap"], tab["reflect.MakeMapWithSize"] = makeMap, makeMap
	tab["(reflect.Value).SetMapIndex"] = func(m *M, fr *frame, a []Value) Value {
		r := rv(m, a[0])
		mp, _ := r.get(m).o.(*Map)
		if mp == nil {
			rpanic(m, "assignment to entry in nil map")
		}
		mt := r.t.Underlying().(*types.Map)
		k := m.assignTo(rv(m, a[1]), mt.Key(), "reflect.Value.SetMapIndex")
		if a[2].o == nil {
			m.mapDelete(mp, k)
		} else {
			m.mapSet(mp, k, m.assignTo(rv(m, a[2]), mt.Elem(), "reflect.Value.SetMapIndex"))
		}
		return Value{}
	}
	tab["(reflect.Value).MethodByName"] = func(m *M, fr *frame, a []Value) Value {
		r := rv(m, a[0])
		name, ok := concStr(a[1])
		if !ok {
			panic(unsupported{"method with a symbolic name"})
		}
		t, v := r.t, r.get(m)
		if isIface(t) {
			if v.o == nil {
				rpanic(m, "reflect: Method on nil interface value")
			}
			i := v.o.(*Iface)
			t, v = i.t, i.v
		}
		fn := m.findMethod(t, name)
		if fn == nil {
			return Value{}
		}
		v = copyVal(v)
		sg := fn.ssa.Signature
		sig := types.NewSignatureType(nil, nil, nil, sg.Params(), sg.Results(), sg.Variadic())
		return mkRV(&rVal{t: sig, v: Value{o: nativeFn(func(m *M, fr *frame, in []Value) Value {
			return m.call(fn, append([]Value{copyVal(v)}, in...), nil, fr)
		})}})
	}
	tab["(reflect.Value).Call"] = func(m *M, fr *frame, a []Value) Value {
		r := rv(m, a[0])
		sig, ok := r.t.Underlying().(*types.Signature)
		if !ok {
			rpanic(m, "reflect: call of Call on "+r.t.String())
		}
		return m.rvals(m.callFunc(fr, sig, r.get(m), sliceVals(asSlice(a[1]))))
	}
	tab["(reflect.Value).Convert"] = func(m *M, fr *frame, a []Value) Value {
		return mkRV(m.convertTo(fr, rv(m, a[0]), itype(a[1])))
	}
	tab["(reflect.Value).CanConvert"] = func(m *M, fr *frame, a []Value) Value {
		return cbool(types.ConvertibleTo(rv(m, a[0]).t, itype(a[1])))
	}
	tab["(*reflect.rtype).AssignableTo"] = func(m *M, fr *frame, a []Value) Value {
		return cbool(types.AssignableTo(rt(a[0]), itype(a[1])))
	}
	tab["(*reflect.rtype).ConvertibleTo"] = func(m *M, fr *frame, a []Value) Value {
		return cbool(types.ConvertibleTo(rt(a[0]), itype(a[1])))
	}
	tab["(reflect.Value).CanInterface"] = func(m *M, fr *frame, a []Value) Value { return cbool(a[0].o != nil) }
	tab["(reflect.Value).CanSet"] = func(m *M, fr *frame, a []Value) Value {
		return cbool(a[0].o != nil && rv(m, a[0]).addr)
	}
	tab["(reflect.Value).CanAddr"] = tab["(reflect.Value).CanSet"]
	tab["(reflect.Value).Addr"] = func(m *M, fr *frame, a []Value) Value {
		r := rv(m, a[0])
		if !r.addr {
			rpanic(m, "reflect.Value.Addr of unaddressable value")
		}
		return mkRV(&rVal{t: m.p.ptrTo(r.t), v: r.p})
	}
	tab["(reflect.Value).String"] = func(m *M, fr *frame, a []Value) Value {
		if a[0].o == nil {
			return cstr("<invalid Value>")
		}
		r := rv(m, a[0])
		if isString(r.t) {
			return r.get(m)
		}
		return cstr("<" + r.t.String() + " Value>")
	}
	tab["reflect.Indirect"] = func(m *M, fr *frame, a []Value) Value {
		if r := rv(m, a[0]); kindOf(r.t) != 22 {
			return a[0]
		}
		return tab["(reflect.Value).Elem"](m, fr, a)
	}
	tab["(reflect.Value).IsZero"] = func(m *M, fr *frame, a []Value) Value {
		r := rv(m, a[0])
		return m.eq(r.get(m), Value{}, r.t)
	}
}
