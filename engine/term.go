package main

// Hash-consed bit-vector / boolean terms with local simplification.
// One Builder per worker: no locking.

import (
	"fmt"
	"math/big"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot // bool
	OAnd // bool n-ary
	OOr  // bool n-ary
	OEq  // -> bool
	OIte
	OUlt
	OSlt
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OConcat
	OExtract
	OSExt
)

var opName = [...]string{"const", "var", "not", "and", "or", "=", "ite", "bvult", "bvslt", "bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvnot", "bvneg", "bvshl", "bvlshr", "bvashr", "concat", "extract", "sext"}

type Term struct {
	Op     Op
	W      int // 0 = bool
	Args   []*Term
	Val    uint64   // const, W<=64 (bool: 0/1)
	Big    *big.Int // const, W>64
	Hi, Lo int
	Name   string
	VarIdx int
	ID     int
	h1, h2 uint64 // structural hash (stable across builders)
	vars   []uint64
	egen   uint64
	eval   uint64
	ebig   *big.Int
}

type Builder struct {
	tab   map[uint64][]*Term
	next  int
	vars  []*Term
	byNm  map[string]*Term
	True  *Term
	False *Term
}

func NewBuilder() *Builder {
	b := &Builder{tab: map[uint64][]*Term{}, byNm: map[string]*Term{}}
	b.True = b.mk(&Term{Op: OConst, W: 0, Val: 1})
	b.False = b.mk(&Term{Op: OConst, W: 0, Val: 0})
	return b
}

func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func (b *Builder) mk(t *Term) *Term {
	h := mix(uint64(t.Op)+77, uint64(t.W))
	h2 := mix(uint64(t.Op)*31+5, uint64(t.W)+13)
	h = mix(h, t.Val)
	h2 = mix(h2, t.Val+1)
	if t.Op == OExtract {
		h = mix(h, uint64(t.Hi)<<32|uint64(t.Lo))
		h2 = mix(h2, uint64(t.Hi)<<31|uint64(t.Lo))
	}
	if t.Big != nil {
		for _, w := range t.Big.Bits() {
			h = mix(h, uint64(w))
			h2 = mix(h2, uint64(w)+7)
		}
	}
	if t.Name != "" {
		h = mix(h, strHash(t.Name))
		h2 = mix(h2, strHash(t.Name)+99)
	}
	for _, a := range t.Args {
		h = mix(h, a.h1)
		h2 = mix(h2, a.h2)
	}
	for _, o := range b.tab[h] {
		if o.Op == t.Op && o.W == t.W && o.Val == t.Val && o.Hi == t.Hi && o.Lo == t.Lo && o.Name == t.Name && len(o.Args) == len(t.Args) {
			ok := true
			for i := range t.Args {
				if t.Args[i] != o.Args[i] {
					ok = false
					break
				}
			}
			if ok && (t.Big != nil || o.Big != nil) {
				ok = t.Big != nil && o.Big != nil && t.Big.Cmp(o.Big) == 0
			}
			if ok {
				return o
			}
		}
	}
	t.h1, t.h2 = h, h2
	t.ID = b.next
	b.next++
	b.tab[h] = append(b.tab[h], t)
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (b *Builder) BV(v uint64, w int) *Term {
	if w > 64 {
		return b.mk(&Term{Op: OConst, W: w, Big: new(big.Int).SetUint64(v)})
	}
	return b.mk(&Term{Op: OConst, W: w, Val: v & mask(w)})
}

func (b *Builder) BVBig(v *big.Int, w int) *Term {
	if w <= 64 {
		return b.BV(v.Uint64(), w)
	}
	return b.mk(&Term{Op: OConst, W: w, Big: v})
}

func (b *Builder) Bool(v bool) *Term {
	if v {
		return b.True
	}
	return b.False
}

func (b *Builder) Var(name string, w int) *Term {
	if t, ok := b.byNm[name]; ok {
		if t.W != w {
			panic("var width clash " + name)
		}
		return t
	}
	t := b.mk(&Term{Op: OVar, W: w, Name: name, VarIdx: len(b.vars)})
	b.vars = append(b.vars, t)
	b.byNm[name] = t
	return t
}

func (t *Term) IsConst() bool { return t.Op == OConst }

func (t *Term) big() *big.Int {
	if t.Big != nil {
		return t.Big
	}
	return new(big.Int).SetUint64(t.Val)
}

func (t *Term) isZero() bool {
	if t.Op != OConst {
		return false
	}
	if t.Big != nil {
		return t.Big.Sign() == 0
	}
	return t.Val == 0
}

// Vars returns the bitset of variables in t.
func (t *Term) Vars() []uint64 {
	if t.vars != nil {
		return t.vars
	}
	var s []uint64
	switch t.Op {
	case OConst:
		s = []uint64{}
	case OVar:
		s = make([]uint64, t.VarIdx/64+1)
		s[t.VarIdx/64] |= 1 << uint(t.VarIdx%64)
	default:
		n := 0
		for _, a := range t.Args {
			if l := len(a.Vars()); l > n {
				n = l
			}
		}
		s = make([]uint64, n)
		for _, a := range t.Args {
			for i, w := range a.Vars() {
				s[i] |= w
			}
		}
	}
	t.vars = s
	return s
}

// ---- boolean ----

func (b *Builder) Not(a *Term) *Term {
	if a.Op == OConst {
		return b.Bool(a.Val == 0)
	}
	if a.Op == ONot {
		return a.Args[0]
	}
	return b.mk(&Term{Op: ONot, Args: []*Term{a}})
}

func (b *Builder) And(xs ...*Term) *Term { return b.nary(OAnd, xs) }
func (b *Builder) Or(xs ...*Term) *Term  { return b.nary(OOr, xs) }

func (b *Builder) nary(op Op, xs []*Term) *Term {
	unit, zero := b.True, b.False
	if op == OOr {
		unit, zero = b.False, b.True
	}
	var out []*Term
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.Op == op {
			for _, a := range x.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		for _, o := range out {
			if o == x {
				return true
			}
			if b.Not(o) == x {
				return false
			}
		}
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	// order relations over the same operands
	if op == OAnd && len(out) <= 8 {
		for i := 0; i < len(out); i++ {
			for j := 0; j < len(out); j++ {
				if i == j {
					continue
				}
				p, q := out[i], out[j]
				// ult(a,b) & ult(b,a) = false ; ult(a,b) & !ult(b,a) = ult(a,b)
				if (p.Op == OUlt || p.Op == OSlt) && q.Op == p.Op && p.Args[0] == q.Args[1] && p.Args[1] == q.Args[0] {
					return b.False
				}
				if (p.Op == OUlt || p.Op == OSlt) && q.Op == ONot && q.Args[0].Op == p.Op && p.Args[0] == q.Args[0].Args[1] && p.Args[1] == q.Args[0].Args[0] {
					no := append(append([]*Term{}, out[:j]...), out[j+1:]...)
					return b.nary(op, no)
				}
				// !ult(a,b) & !ult(b,a) = eq
				if i < j && p.Op == ONot && q.Op == ONot && (p.Args[0].Op == OUlt || p.Args[0].Op == OSlt) && q.Args[0].Op == p.Args[0].Op &&
					p.Args[0].Args[0] == q.Args[0].Args[1] && p.Args[0].Args[1] == q.Args[0].Args[0] {
					var no []*Term
					for k, o := range out {
						if k != i && k != j {
							no = append(no, o)
						}
					}
					no = append(no, b.Eq(p.Args[0].Args[0], p.Args[0].Args[1]))
					return b.nary(op, no)
				}
			}
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	return b.mk(&Term{Op: op, Args: out})
}

func (b *Builder) Implies(a, c *Term) *Term { return b.Or(b.Not(a), c) }

func (b *Builder) Ite(c, x, y *Term) *Term {
	if c == b.True {
		return x
	}
	if c == b.False {
		return y
	}
	if x == y {
		return x
	}
	if x.W == 0 {
		if x == b.True && y == b.False {
			return c
		}
		if x == b.False && y == b.True {
			return b.Not(c)
		}
		if x == b.True {
			return b.Or(c, y)
		}
		if x == b.False {
			return b.And(b.Not(c), y)
		}
		if y == b.True {
			return b.Or(b.Not(c), x)
		}
		if y == b.False {
			return b.And(c, x)
		}
	}
	if c.Op == ONot {
		return b.Ite(c.Args[0], y, x)
	}
	return b.mk(&Term{Op: OIte, W: x.W, Args: []*Term{c, x, y}})
}

func constLeaves(t *Term, depth int) bool {
	if t.Op == OConst {
		return true
	}
	if t.Op == OIte && depth > 0 {
		return constLeaves(t.Args[1], depth-1) && constLeaves(t.Args[2], depth-1)
	}
	return false
}

func (b *Builder) mapLeaves(t *Term, f func(*Term) *Term) *Term {
	if t.Op == OIte {
		return b.Ite(t.Args[0], b.mapLeaves(t.Args[1], f), b.mapLeaves(t.Args[2], f))
	}
	return f(t)
}

func (t *Term) segs() []*Term {
	if t.Op == OConcat {
		return t.Args
	}
	return []*Term{t}
}

// align splits two equal-width segment lists at common boundaries where it is
// cheap to do so (constants and extracts split; other terms are kept whole).
func (b *Builder) align(x, y *Term) (xs, ys []*Term) {
	a := append([]*Term{}, x.segs()...)
	c := append([]*Term{}, y.segs()...)
	for len(a) > 0 {
		p, q := a[0], c[0]
		switch {
		case p.W == q.W:
			xs, ys = append(xs, p), append(ys, q)
			a, c = a[1:], c[1:]
		case p.W > q.W:
			xs, ys = append(xs, b.Extract(p, p.W-1, p.W-q.W)), append(ys, q)
			a[0] = b.Extract(p, p.W-q.W-1, 0)
			c = c[1:]
		default:
			ys, xs = append(ys, b.Extract(q, q.W-1, q.W-p.W)), append(xs, p)
			c[0] = b.Extract(q, q.W-p.W-1, 0)
			a = a[1:]
		}
	}
	return
}

func (b *Builder) Eq(x, y *Term) *Term {
	if x == y {
		return b.True
	}
	if x.W != y.W {
		panic(fmt.Sprintf("eq width %d %d", x.W, y.W))
	}
	if x.Op == OConst && y.Op == OConst {
		if x.W > 64 {
			return b.Bool(x.big().Cmp(y.big()) == 0)
		}
		return b.Bool(x.Val == y.Val)
	}
	if x.W == 0 {
		if x == b.True {
			return y
		}
		if y == b.True {
			return x
		}
		if x == b.False {
			return b.Not(y)
		}
		if y == b.False {
			return b.Not(x)
		}
		if x.Op == ONot && y.Op == ONot {
			return b.Eq(x.Args[0], y.Args[0])
		}
	}
	if x.Op == OConst {
		x, y = y, x
	}
	if y.Op == OConst && x.Op == OIte && constLeaves(x, 12) {
		return b.mapLeaves(x, func(l *Term) *Term { return b.Eq(l, y) })
	}
	if x.Op == OConcat || y.Op == OConcat {
		xs, ys := b.align(x, y)
		if len(xs) > 1 {
			var cs []*Term
			// constants first: quick refutation
			for i := range xs {
				if xs[i].Op == OConst && ys[i].Op == OConst && xs[i] != ys[i] {
					return b.False
				}
			}
			// group runs of non-identical segments to keep comparisons wide
			for i := range xs {
				if xs[i] == ys[i] {
					continue
				}
				cs = append(cs, b.Eq(xs[i], ys[i]))
			}
			return b.And(cs...)
		}
	}
	if y.Op == OConst && x.Op == OBNot {
		return b.Eq(x.Args[0], b.BNot(y))
	}
	if x.Op == OBNot && y.Op == OBNot {
		return b.Eq(x.Args[0], y.Args[0])
	}
	if x.h1 > y.h1 {
		x, y = y, x
	}
	return b.mk(&Term{Op: OEq, Args: []*Term{x, y}})
}

func (b *Builder) Ult(x, y *Term) *Term {
	if x == y {
		return b.False
	}
	if x.W != y.W {
		panic(fmt.Sprintf("ult width %d %d", x.W, y.W))
	}
	if x.Op == OConst && y.Op == OConst {
		return b.Bool(x.big().Cmp(y.big()) < 0)
	}
	if y.isZero() {
		return b.False
	}
	if x.isZero() {
		return b.Not(b.Eq(x, y))
	}
	if y.Op == OConst && x.Op == OIte && constLeaves(x, 12) {
		return b.mapLeaves(x, func(l *Term) *Term { return b.Ult(l, y) })
	}
	if x.Op == OConst && y.Op == OIte && constLeaves(y, 12) {
		return b.mapLeaves(y, func(l *Term) *Term { return b.Ult(x, l) })
	}
	if x.Op == OConcat || y.Op == OConcat {
		xs, ys := b.align(x, y)
		if len(xs) > 1 {
			i, j := 0, len(xs)
			for i < j && xs[i] == ys[i] {
				i++
			}
			if i < j && xs[i].Op == OConst && ys[i].Op == OConst {
				return b.Ult(xs[i], ys[i])
			}
			for j > i && xs[j-1] == ys[j-1] {
				j--
			}
			if i == j {
				return b.False
			}
			if i > 0 || j < len(xs) {
				return b.Ult(b.Concat(xs[i:j]...), b.Concat(ys[i:j]...))
			}
		}
	}
	if x.Op == OBNot && y.Op == OBNot {
		return b.Ult(y.Args[0], x.Args[0])
	}
	return b.mk(&Term{Op: OUlt, Args: []*Term{x, y}})
}

func sext64(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := uint(64 - w)
	return int64(v<<s) >> s
}

func (b *Builder) Slt(x, y *Term) *Term {
	if x == y {
		return b.False
	}
	if x.W > 64 {
		panic("slt wide")
	}
	if x.Op == OConst && y.Op == OConst {
		return b.Bool(sext64(x.Val, x.W) < sext64(y.Val, y.W))
	}
	if y.Op == OConst && x.Op == OIte && constLeaves(x, 12) {
		return b.mapLeaves(x, func(l *Term) *Term { return b.Slt(l, y) })
	}
	if x.Op == OConst && y.Op == OIte && constLeaves(y, 12) {
		return b.mapLeaves(y, func(l *Term) *Term { return b.Slt(x, l) })
	}
	// zero-extended operands: unsigned comparison
	zx := x.Op == OConcat && x.Args[0].isZero() || x.Op == OConst && x.Val>>uint(x.W-1) == 0
	zy := y.Op == OConcat && y.Args[0].isZero() || y.Op == OConst && y.Val>>uint(y.W-1) == 0
	if zx && zy {
		return b.Ult(x, y)
	}
	return b.mk(&Term{Op: OSlt, Args: []*Term{x, y}})
}

// ---- bit-vectors ----

func (b *Builder) Concat(xs ...*Term) *Term {
	var out []*Term
	push := func(t *Term) {
		if t.W == 0 {
			panic("concat bool")
		}
		for len(out) > 0 {
			l := out[len(out)-1]
			if l.Op == OConst && t.Op == OConst {
				v := new(big.Int).Lsh(l.big(), uint(t.W))
				v.Or(v, t.big())
				t = b.BVBig(v, l.W+t.W)
				out = out[:len(out)-1]
				continue
			}
			lb, lh, ll := l, l.W-1, 0
			if l.Op == OExtract {
				lb, lh, ll = l.Args[0], l.Hi, l.Lo
			}
			tb, th, tl := t, t.W-1, 0
			if t.Op == OExtract {
				tb, th, tl = t.Args[0], t.Hi, t.Lo
			}
			if lb == tb && ll == th+1 && lb.Op != OConst {
				t = b.Extract(lb, lh, tl)
				out = out[:len(out)-1]
				continue
			}
			break
		}
		out = append(out, t)
	}
	for _, x := range xs {
		if x.Op == OConcat {
			for _, a := range x.Args {
				push(a)
			}
		} else {
			push(x)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, o := range out {
		w += o.W
	}
	return b.mk(&Term{Op: OConcat, W: w, Args: out})
}

func (b *Builder) Extract(t *Term, hi, lo int) *Term {
	if lo == 0 && hi == t.W-1 {
		return t
	}
	w := hi - lo + 1
	switch t.Op {
	case OConst:
		if t.W <= 64 {
			return b.BV(t.Val>>uint(lo), w)
		}
		v := new(big.Int).Rsh(t.Big, uint(lo))
		m := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1))
		return b.BVBig(v.And(v, m), w)
	case OExtract:
		return b.Extract(t.Args[0], t.Lo+hi, t.Lo+lo)
	case OConcat:
		var out []*Term
		pos := t.W
		for _, a := range t.Args {
			top, bot := pos-1, pos-a.W
			pos = bot
			h, l := hi, lo
			if h > top {
				h = top
			}
			if l < bot {
				l = bot
			}
			if h >= l {
				out = append(out, b.Extract(a, h-bot, l-bot))
			}
		}
		return b.Concat(out...)
	case OSExt:
		in := t.Args[0]
		if hi < in.W {
			return b.Extract(in, hi, lo)
		}
		if lo == 0 {
			return b.SExt(in, w)
		}
	case OIte:
		if constLeaves(t, 12) {
			return b.mapLeaves(t, func(l *Term) *Term { return b.Extract(l, hi, lo) })
		}
	}
	return b.mk(&Term{Op: OExtract, W: w, Hi: hi, Lo: lo, Args: []*Term{t}})
}

func (b *Builder) ZExt(t *Term, w int) *Term {
	if w == t.W {
		return t
	}
	if constLeaves(t, 12) && t.Op == OIte {
		return b.mapLeaves(t, func(l *Term) *Term { return b.ZExt(l, w) })
	}
	return b.Concat(b.BV(0, w-t.W), t)
}

func (b *Builder) SExt(t *Term, w int) *Term {
	if w == t.W {
		return t
	}
	if t.Op == OConst && w <= 64 {
		return b.BV(uint64(sext64(t.Val, t.W)), w)
	}
	if t.Op == OIte && constLeaves(t, 12) && w <= 64 {
		return b.mapLeaves(t, func(l *Term) *Term { return b.SExt(l, w) })
	}
	if t.Op == OConcat && t.Args[0].isZero() {
		return b.ZExt(t, w)
	}
	if t.Op == OSExt {
		return b.SExt(t.Args[0], w)
	}
	return b.mk(&Term{Op: OSExt, W: w, Args: []*Term{t}})
}

func (b *Builder) BNot(t *Term) *Term {
	if t.Op == OConst {
		if t.W <= 64 {
			return b.BV(^t.Val, t.W)
		}
		m := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(t.W)), big.NewInt(1))
		return b.BVBig(new(big.Int).Xor(t.Big, m), t.W)
	}
	if t.Op == OBNot {
		return t.Args[0]
	}
	if t.Op == OConcat {
		out := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			out[i] = b.BNot(a)
		}
		return b.Concat(out...)
	}
	if t.Op == OExtract { // keep extraction outermost so that bytes re-merge
		return b.Extract(b.BNot(t.Args[0]), t.Hi, t.Lo)
	}
	return b.mk(&Term{Op: OBNot, W: t.W, Args: []*Term{t}})
}

func (b *Builder) Neg(t *Term) *Term {
	if t.Op == OConst {
		return b.BV(-t.Val, t.W)
	}
	if t.Op == ONeg {
		return t.Args[0]
	}
	return b.mk(&Term{Op: ONeg, W: t.W, Args: []*Term{t}})
}

// bitwise combines x and y segment-wise when every aligned segment simplifies.
func (b *Builder) bitwise(op Op, x, y *Term) *Term {
	if x.Op == OConst && y.Op == OConst && x.W <= 64 {
		switch op {
		case OBAnd:
			return b.BV(x.Val&y.Val, x.W)
		case OBOr:
			return b.BV(x.Val|y.Val, x.W)
		case OBXor:
			return b.BV(x.Val^y.Val, x.W)
		}
	}
	if x == y {
		if op == OBXor {
			return b.BV(0, x.W)
		}
		return x
	}
	if x.Op == OConst {
		x, y = y, x
	}
	// split constant masks into runs of 0s and 1s
	runs := func(c *Term) []*Term {
		var out []*Term
		i := c.W
		for i > 0 {
			bit := c.Val >> uint(i-1) & 1
			j := i
			for j > 0 && c.Val>>uint(j-1)&1 == bit {
				j--
			}
			out = append(out, b.BV(-bit, i-j))
			i = j
		}
		return out
	}
	seg1 := func(p, q *Term) *Term { // nil if no simplification
		if p.Op == OConst {
			p, q = q, p
		}
		if q.Op == OConst && q.W <= 64 {
			if p.Op == OConst {
				return b.bitwise(op, p, q)
			}
			z, o := q.Val == 0, q.Val == mask(q.W)
			switch op {
			case OBAnd:
				if z {
					return q
				}
				if o {
					return p
				}
			case OBOr:
				if z {
					return p
				}
				if o {
					return q
				}
			case OBXor:
				if z {
					return p
				}
				if o {
					return b.BNot(p)
				}
			}
		}
		if p == q {
			if op == OBXor {
				return b.BV(0, p.W)
			}
			return p
		}
		return nil
	}
	if r := seg1(x, y); r != nil {
		return r
	}
	ym := y
	if y.Op == OConst && y.W <= 64 && op != OBXor || y.Op == OConst && y.W <= 64 && (y.Val&(y.Val+1) == 0) {
		rs := runs(y)
		if len(rs) <= 6 {
			// pseudo concat of runs
			var out []*Term
			pos := x.W
			for _, r := range rs {
				p := b.Extract(x, pos-1, pos-r.W)
				pos -= r.W
				s := seg1(p, r)
				if s == nil {
					s = b.mk(&Term{Op: op, W: r.W, Args: []*Term{p, r}})
				}
				out = append(out, s)
			}
			return b.Concat(out...)
		}
	}
	if x.Op == OConcat || ym.Op == OConcat {
		xs, ys := b.align(x, ym)
		var out []*Term
		ok := true
		for i := range xs {
			s := seg1(xs[i], ys[i])
			if s == nil {
				ok = false
				break
			}
			out = append(out, s)
		}
		if ok {
			return b.Concat(out...)
		}
	}
	if x.h1 > y.h1 {
		x, y = y, x
	}
	return b.mk(&Term{Op: op, W: x.W, Args: []*Term{x, y}})
}

func (b *Builder) Shift(op Op, x, y *Term) *Term { // y same width
	if y.Op == OConst {
		k := y.Val
		if y.Big != nil {
			k = 1 << 62
		}
		if k == 0 {
			return x
		}
		if op != OAshr {
			if k >= uint64(x.W) {
				return b.BV(0, x.W)
			}
			n := int(k)
			if op == OShl {
				return b.Concat(b.Extract(x, x.W-1-n, 0), b.BV(0, n))
			}
			return b.Concat(b.BV(0, n), b.Extract(x, x.W-1, n))
		}
		if k >= uint64(x.W) {
			k = uint64(x.W - 1)
		}
		if x.Op == OConst {
			return b.BV(uint64(sext64(x.Val, x.W)>>k), x.W)
		}
		return b.SExt(b.Extract(x, x.W-1, int(k)), x.W)
	}
	return b.mk(&Term{Op: op, W: x.W, Args: []*Term{x, y}})
}

func (b *Builder) Arith(op Op, x, y *Term) *Term {
	if x.Op == OConst && y.Op == OConst && x.W <= 64 {
		if v, ok := foldArith(op, x.Val, y.Val, x.W); ok {
			return b.BV(v, x.W)
		}
	}
	switch op {
	case OBAnd, OBOr, OBXor:
		return b.bitwise(op, x, y)
	case OAdd:
		if x.isZero() {
			return y
		}
		if y.isZero() {
			return x
		}
		if x.Op == OConst {
			x, y = y, x
		}
		if y.Op == OConst && x.Op == OAdd && x.Args[1].Op == OConst {
			return b.Arith(OAdd, x.Args[0], b.BV(x.Args[1].Val+y.Val, x.W))
		}
		// disjoint bits: add = or
		if x.Op == OConcat || y.Op == OConcat {
			xs, ys := b.align(x, y)
			ok := true
			for i := range xs {
				if !xs[i].isZero() && !ys[i].isZero() {
					ok = false
					break
				}
			}
			if ok {
				return b.bitwise(OBOr, x, y)
			}
		}
		if x.Op == OIte && y.Op == OConst && constLeaves(x, 12) {
			return b.mapLeaves(x, func(l *Term) *Term { return b.Arith(OAdd, l, y) })
		}
		if y.Op != OConst && x.h1 > y.h1 {
			x, y = y, x
		}
	case OSub:
		if y.isZero() {
			return x
		}
		if x == y {
			return b.BV(0, x.W)
		}
		if y.Op == OConst {
			return b.Arith(OAdd, x, b.BV(-y.Val, x.W))
		}
		if x.isZero() {
			return b.Neg(y)
		}
	case OMul:
		if x.Op == OConst {
			x, y = y, x
		}
		if y.Op == OConst {
			if y.Val == 0 {
				return y
			}
			if y.Val == 1 {
				return x
			}
			if bits.OnesCount64(y.Val) == 1 {
				return b.Shift(OShl, x, b.BV(uint64(bits.TrailingZeros64(y.Val)), x.W))
			}
		}
	case OUDiv:
		if y.Op == OConst && y.Val != 0 && bits.OnesCount64(y.Val) == 1 {
			return b.Shift(OLshr, x, b.BV(uint64(bits.TrailingZeros64(y.Val)), x.W))
		}
	case OURem:
		if y.Op == OConst && y.Val != 0 && bits.OnesCount64(y.Val) == 1 {
			return b.bitwise(OBAnd, x, b.BV(y.Val-1, x.W))
		}
	}
	return b.mk(&Term{Op: op, W: x.W, Args: []*Term{x, y}})
}

func foldArith(op Op, x, y uint64, w int) (uint64, bool) {
	switch op {
	case OAdd:
		return x + y, true
	case OSub:
		return x - y, true
	case OMul:
		return x * y, true
	case OUDiv:
		if y == 0 {
			return mask(w), true
		}
		return x / y, true
	case OURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSDiv:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			return 0, false
		}
		if sy == -1 {
			return uint64(-sx), true
		}
		return uint64(sx / sy), true
	case OSRem:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			return 0, false
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx % sy), true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBXor:
		return x ^ y, true
	}
	return 0, false
}

// ---- evaluation under a model ----

// evaluator memoises per-term values in the terms themselves (one builder and
// one evaluator per worker), keyed by generation.
type evaluator struct {
	m   Assign
	gen uint64
}

func (e *evaluator) reset(m Assign) {
	e.m = m
	e.gen++
}

var bigZero = new(big.Int)
var bigOne = big.NewInt(1)

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// u evaluates a term of width <= 64.
func (e *evaluator) u(t *Term) uint64 {
	if t.Op == OConst {
		return t.Val
	}
	if t.egen == e.gen {
		return t.eval
	}
	if t.W > 64 {
		panic("eval width")
	}
	v := e.u1(t) & mask1(t.W)
	t.egen, t.eval = e.gen, v
	return v
}

func mask1(w int) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func (e *evaluator) big(t *Term) *big.Int {
	if t.W <= 64 {
		return new(big.Int).SetUint64(e.u(t))
	}
	if t.Op == OConst {
		return t.Big
	}
	if t.egen == e.gen {
		return t.ebig
	}
	v := e.big1(t)
	t.egen, t.ebig = e.gen, v
	return v
}

func (e *evaluator) u1(t *Term) uint64 {
	switch t.Op {
	case OVar:
		if v, ok := e.m[t.Name]; ok {
			return v.Uint64()
		}
		return 0
	case ONot:
		return e.u(t.Args[0]) ^ 1
	case OAnd:
		for _, a := range t.Args {
			if e.u(a) == 0 {
				return 0
			}
		}
		return 1
	case OOr:
		for _, a := range t.Args {
			if e.u(a) != 0 {
				return 1
			}
		}
		return 0
	case OIte:
		if e.u(t.Args[0]) != 0 {
			return e.u(t.Args[1])
		}
		return e.u(t.Args[2])
	case OConcat:
		var r uint64
		for _, a := range t.Args {
			r = r<<uint(a.W) | e.u(a)
		}
		return r
	case OExtract:
		if t.Args[0].W > 64 {
			x := e.big(t.Args[0])
			x = new(big.Int).Rsh(x, uint(t.Lo))
			m := new(big.Int).SetUint64(mask(t.W))
			return m.And(m, x).Uint64()
		}
		return e.u(t.Args[0]) >> uint(t.Lo)
	case OEq:
		if t.Args[0].W > 64 {
			return b2u(e.big(t.Args[0]).Cmp(e.big(t.Args[1])) == 0)
		}
		return b2u(e.u(t.Args[0]) == e.u(t.Args[1]))
	case OUlt:
		if t.Args[0].W > 64 {
			return b2u(e.big(t.Args[0]).Cmp(e.big(t.Args[1])) < 0)
		}
		return b2u(e.u(t.Args[0]) < e.u(t.Args[1]))
	case OSExt:
		return uint64(sext64(e.u(t.Args[0]), t.Args[0].W))
	case OBNot:
		return ^e.u(t.Args[0])
	case ONeg:
		return -e.u(t.Args[0])
	}
	w := t.Args[0].W
	x, y := e.u(t.Args[0]), e.u(t.Args[1])
	switch t.Op {
	case OSlt:
		return b2u(sext64(x, w) < sext64(y, w))
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return x << y
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w - 1)
		}
		return uint64(sext64(x, w) >> y)
	case OSDiv:
		if y == 0 {
			if sext64(x, w) < 0 {
				return 1
			}
			return ^uint64(0)
		}
	case OSRem:
		if y == 0 {
			return x
		}
	}
	v, ok := foldArith(t.Op, x, y, w)
	if !ok {
		panic("eval " + opName[t.Op])
	}
	return v
}

func (e *evaluator) big1(t *Term) *big.Int {
	m := func() *big.Int {
		m := new(big.Int).Lsh(bigOne, uint(t.W))
		return m.Sub(m, bigOne)
	}
	switch t.Op {
	case OVar:
		if v, ok := e.m[t.Name]; ok {
			return v
		}
		return bigZero
	case OIte:
		if e.u(t.Args[0]) != 0 {
			return e.big(t.Args[1])
		}
		return e.big(t.Args[2])
	case OConcat:
		r := new(big.Int)
		for _, x := range t.Args {
			r.Lsh(r, uint(x.W))
			r.Or(r, e.big(x))
		}
		return r
	case OExtract:
		r := new(big.Int).Rsh(e.big(t.Args[0]), uint(t.Lo))
		return r.And(r, m())
	case OBNot:
		x := m()
		return x.Xor(x, e.big(t.Args[0]))
	case OSExt:
		x := e.big(t.Args[0])
		w := t.Args[0].W
		if x.Bit(w-1) == 0 {
			return x
		}
		mm := m()
		lo := new(big.Int).Lsh(bigOne, uint(w))
		lo.Sub(lo, bigOne)
		mm.Xor(mm, lo)
		return mm.Or(mm, x)
	case OBAnd:
		return new(big.Int).And(e.big(t.Args[0]), e.big(t.Args[1]))
	case OBOr:
		return new(big.Int).Or(e.big(t.Args[0]), e.big(t.Args[1]))
	case OBXor:
		return new(big.Int).Xor(e.big(t.Args[0]), e.big(t.Args[1]))
	case OAdd:
		r := new(big.Int).Add(e.big(t.Args[0]), e.big(t.Args[1]))
		return r.And(r, m())
	case OSub:
		r := new(big.Int).Sub(e.big(t.Args[0]), e.big(t.Args[1]))
		mm := m()
		r.Add(r, mm)
		r.Add(r, bigOne)
		return r.And(r, mm)
	}
	panic("eval wide " + opName[t.Op])
}

// ---- printing ----

func (t *Term) constStr() string {
	if t.W == 0 {
		if t.Val != 0 {
			return "true"
		}
		return "false"
	}
	if t.W%4 == 0 {
		s := t.big().Text(16)
		return "#x" + strings.Repeat("0", t.W/4-len(s)) + s
	}
	s := t.big().Text(2)
	return "#b" + strings.Repeat("0", t.W-len(s)) + s
}

func sortStr(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

type printer struct {
	sb    *strings.Builder
	names map[*Term]string
	n     int
}

// emit prints define-funs for shared sub-terms and returns the text of t.
func (p *printer) emit(ts []*Term) []string {
	ref := map[*Term]int{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.Op == OConst || t.Op == OVar {
			return
		}
		ref[t]++
		if ref[t] > 1 {
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
		order = append(order, t)
	}
	for _, t := range ts {
		walk(t)
	}
	for _, t := range order {
		if ref[t] > 1 && p.names[t] == "" {
			s := p.str(t)
			p.n++
			nm := fmt.Sprintf("t!%d", p.n)
			fmt.Fprintf(p.sb, "(define-fun %s () %s %s)\n", nm, sortStr(t.W), s)
			p.names[t] = nm
		}
	}
	out := make([]string, len(ts))
	for i, t := range ts {
		out[i] = p.str(t)
	}
	return out
}

func (p *printer) str(t *Term) string {
	var sb strings.Builder
	p.write(&sb, t)
	return sb.String()
}

func (p *printer) write(sb *strings.Builder, t *Term) {
	if n := p.names[t]; n != "" {
		sb.WriteString(n)
		return
	}
	switch t.Op {
	case OConst:
		sb.WriteString(t.constStr())
		return
	case OVar:
		sb.WriteString("|" + t.Name + "|")
		return
	case OExtract:
		fmt.Fprintf(sb, "((_ extract %d %d) ", t.Hi, t.Lo)
	case OSExt:
		fmt.Fprintf(sb, "((_ sign_extend %d) ", t.W-t.Args[0].W)
	default:
		sb.WriteString("(" + opName[t.Op] + " ")
	}
	for i, a := range t.Args {
		if i > 0 {
			sb.WriteByte(' ')
		}
		p.write(sb, a)
	}
	sb.WriteByte(')')
}
