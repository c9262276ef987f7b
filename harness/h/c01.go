package h

import (
	"bytes"
	"math/big"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/zzverif/nd"
)

func init() {
	Registry["C01Scalar"] = C01Scalar
}

// field is one typed key field drawn from nondeterminism; enc appends it.
type field struct {
	kind int
	u    uint64
	i    int64
	b    []byte
}

func drawField(kind int, n int) field {
	f := field{kind: kind}
	switch kind {
	case 0:
		f.i = nd.I64()
	case 1:
		f.i = int64(nd.I32())
	case 2:
		f.i = int64(nd.I16())
	case 3:
		f.u = nd.U64()
	case 4:
		f.u = uint64(nd.U32())
	case 5:
		f.u = uint64(nd.U16())
	case 6:
		f.u = uint64(nd.U8())
	case 7, 8:
		f.b = nd.Bytes(n)
	}
	return f
}

func (f field) add(b bond.KeyBuilder) bond.KeyBuilder {
	switch f.kind {
	case 0:
		return b.AddInt64Field(f.i)
	case 1:
		return b.AddInt32Field(int32(f.i))
	case 2:
		return b.AddInt16Field(int16(f.i))
	case 3:
		return b.AddUint64Field(f.u)
	case 4:
		return b.AddUint32Field(uint32(f.u))
	case 5:
		return b.AddUint16Field(uint16(f.u))
	case 6:
		return b.AddByteField(byte(f.u))
	case 7:
		return b.AddStringField(string(f.b))
	}
	return b.AddBytesField(f.b)
}

// less and equal give the intended order of field values.
func (f field) less(g field) bool {
	switch f.kind {
	case 0, 1, 2:
		return f.i < g.i
	case 3, 4, 5, 6:
		return f.u < g.u
	}
	return bytes.Compare(f.b, g.b) < 0
}

func (f field) equal(g field) bool {
	switch f.kind {
	case 0, 1, 2:
		return f.i == g.i
	case 3, 4, 5, 6:
		return f.u == g.u
	}
	return bytes.Equal(f.b, g.b)
}

// C01Scalar: one field of each kind, all values.
func C01Scalar(kind int) {
	n, m := 0, 0
	if kind >= 7 {
		n, m = nd.Choose(4), nd.Choose(4)
	}
	x, y := drawField(kind, n), drawField(kind, m)
	ex := x.add(bond.NewKeyBuilder([]byte{})).Bytes()
	ey := y.add(bond.NewKeyBuilder([]byte{})).Bytes()
	nd.Observe("ex", ex)
	nd.Assert(nd.Iff(bytes.Compare(ex, ey) < 0, x.less(y)), "encoded order equals value order")
	nd.Assert(nd.Iff(bytes.Equal(ex, ey), x.equal(y)), "encoding is injective")
	nd.Reach("end")
}

func init() {
	Registry["C01Multi"] = C01Multi
	Registry["C01Big"] = C01Big
	Registry["C02Scalar"] = C02Scalar
	Registry["C02Big"] = C02Big
	Registry["C02Bytes"] = C02Bytes
	Registry["C02Multi"] = C02Multi
	Registry["C02MinInt"] = C02MinInt
}

// C01Multi: keys of two or three fields; only the last may vary in length.
func C01Multi(k1, k2, k3 int) {
	kinds := []int{k1, k2}
	if k3 >= 0 {
		kinds = append(kinds, k3)
	}
	var xs, ys []field
	bx, by := bond.NewKeyBuilder([]byte{}), bond.NewKeyBuilder(make([]byte, 0, 64))
	less, eq := false, true
	for i, k := range kinds {
		n, m := 0, 0
		if k >= 7 {
			n, m = nd.Choose(3), nd.Choose(3)
		}
		x, y := drawField(k, n), drawField(k, m)
		xs, ys = append(xs, x), append(ys, y)
		bx, by = x.add(bx), y.add(by)
		less = nd.Or(less, nd.And(eq, xs[i].less(ys[i])))
		eq = nd.And(eq, xs[i].equal(ys[i]))
	}
	ex, ey := bx.Bytes(), by.Bytes()
	nd.Observe("ex", ex)
	nd.Assert(nd.Iff(bytes.Compare(ex, ey) < 0, less), "encoded order equals field by field order")
	nd.Assert(nd.Iff(bytes.Equal(ex, ey), eq), "encoding is injective")
	nd.Reach("end")
}

// drawBig returns a big integer of at most bits bits, negative if neg, and its
// magnitude as bytes of fixed width.
func drawBig(bits int) (*big.Int, bool, []byte) {
	m := nd.Bytes(bits / 8)
	x := new(big.Int).SetBytes(append([]byte{}, m...))
	neg := nd.Choose(2) == 1
	if neg {
		x.Neg(x)
	}
	return x, neg, m
}

func zeroBytes(b []byte) bool {
	z := true
	for _, c := range b {
		z = nd.And(z, c == 0)
	}
	return z
}

func bigLess(n1 bool, m1 []byte, n2 bool, m2 []byte) bool {
	switch {
	case n1 && n2:
		return bytes.Compare(m2, m1) < 0
	case n1:
		return !nd.And(zeroBytes(m1), zeroBytes(m2))
	case n2:
		return false
	}
	return bytes.Compare(m1, m2) < 0
}

func bigEq(n1 bool, m1 []byte, n2 bool, m2 []byte) bool {
	if n1 == n2 {
		return bytes.Equal(m1, m2)
	}
	return nd.And(zeroBytes(m1), zeroBytes(m2))
}

// C01Big: big integer fields of the given width.
func C01Big(bits int) {
	x, xn, xm := drawBig(bits)
	y, yn, ym := drawBig(bits)
	ex := bond.NewKeyBuilder([]byte{}).AddBigIntField(x, bits).Bytes()
	ey := bond.NewKeyBuilder([]byte{}).AddBigIntField(y, bits).Bytes()
	nd.Observe("ex", ex)
	nd.Assert(nd.Iff(bytes.Compare(ex, ey) < 0, bigLess(xn, xm, yn, ym)), "encoded order equals value order")
	nd.Assert(nd.Iff(bytes.Equal(ex, ey), bigEq(xn, xm, yn, ym)), "encoding is injective")
	z := new(big.Int).SetBytes(xm)
	if xn {
		z.Neg(z)
	}
	nd.Assert(x.Cmp(z) == 0, "the value of the caller is unchanged")
	nd.Reach("end")
}

func order(o bond.IndexOrder, f field, ty bond.IndexOrderType) bond.IndexOrder {
	switch f.kind {
	case 0:
		return o.OrderInt64(f.i, ty)
	case 1:
		return o.OrderInt32(int32(f.i), ty)
	case 2:
		return o.OrderInt16(int16(f.i), ty)
	case 3:
		return o.OrderUint64(f.u, ty)
	case 4:
		return o.OrderUint32(uint32(f.u), ty)
	case 5:
		return o.OrderUint16(uint16(f.u), ty)
	case 6:
		return o.OrderByte(byte(f.u), ty)
	}
	return o.OrderBytes(f.b, ty)
}

var minOf = []int64{-1 << 63, -1 << 31, -1 << 15}

func orderType(desc int) bond.IndexOrderType {
	if desc == 1 {
		return bond.IndexOrderTypeDESC
	}
	return bond.IndexOrderTypeASC
}

func newOrder() bond.IndexOrder { return bond.IndexOrder{KeyBuilder: bond.NewKeyBuilder([]byte{})} }

// C02Scalar: one order field. The smallest signed value in descending mode is
// the subject of C02MinInt.
func C02Scalar(kind, desc int) {
	x, y := drawField(kind, 0), drawField(kind, 0)
	if kind <= 2 && desc == 1 {
		nd.Assume(nd.And(x.i != minOf[kind], y.i != minOf[kind]))
	}
	checkOrder(x, y, desc)
	nd.Reach("end")
}

func checkOrder(x, y field, desc int) {
	ex := order(newOrder(), x, orderType(desc)).Bytes()
	ey := order(newOrder(), y, orderType(desc)).Bytes()
	nd.Observe("ex", ex)
	want := x.less(y)
	if desc == 1 {
		want = y.less(x)
	}
	nd.Assert(nd.Iff(bytes.Compare(ex, ey) < 0, want), "order keys compare as declared")
	nd.Assert(nd.Iff(bytes.Equal(ex, ey), x.equal(y)), "order keys are injective")
}

// C02MinInt demonstrates the known finding on the smallest signed value.
func C02MinInt(kind int) {
	x, y := drawField(kind, 0), drawField(kind, 0)
	nd.Assume(nd.Or(x.i == minOf[kind], y.i == minOf[kind]))
	checkOrder(x, y, 1)
	nd.Reach("end")
}

// C02Bytes: byte strings, equal length when descending.
func C02Bytes(desc int) {
	n := nd.Choose(4)
	m := n
	if desc == 0 {
		m = nd.Choose(4)
	}
	x, y := field{kind: 8, b: nd.Bytes(n)}, field{kind: 8, b: nd.Bytes(m)}
	cx := append([]byte{}, x.b...)
	orig := field{kind: 8, b: cx}
	checkOrder(x, y, desc)
	nd.Assert(bytes.Equal(x.b, orig.b), "the bytes of the caller are unchanged")
	nd.Reach("end")
}

// C02Big: big integers in both modes.
func C02Big(bits, desc int) {
	x, xn, xm := drawBig(bits)
	y, yn, ym := drawBig(bits)
	ex := newOrder().OrderBigInt(x, bits, orderType(desc)).Bytes()
	ey := newOrder().OrderBigInt(y, bits, orderType(desc)).Bytes()
	nd.Observe("ex", ex)
	want := bigLess(xn, xm, yn, ym)
	if desc == 1 {
		want = bigLess(yn, ym, xn, xm)
	}
	nd.Assert(nd.Iff(bytes.Compare(ex, ey) < 0, want), "order keys compare as declared")
	nd.Assert(nd.Iff(bytes.Equal(ex, ey), bigEq(xn, xm, yn, ym)), "order keys are injective")
	z := new(big.Int).SetBytes(xm)
	if xn {
		z.Neg(z)
	}
	nd.Assert(x.Cmp(z) == 0, "the value of the caller is unchanged")
	nd.Reach("end")
}

// C02Multi: two order fields with independent modes.
func C02Multi(k1, d1, k2, d2 int) {
	x1, y1 := drawField(k1, 2), drawField(k1, 2)
	x2, y2 := drawField(k2, 2), drawField(k2, 2)
	for _, p := range []struct {
		k, d int
		a, b field
	}{{k1, d1, x1, y1}, {k2, d2, x2, y2}} {
		if p.k <= 2 && p.d == 1 {
			nd.Assume(nd.And(p.a.i != minOf[p.k], p.b.i != minOf[p.k]))
		}
	}
	cp := func(f field) field { f.b = append([]byte{}, f.b...); return f }
	x1c, x2c, y1c, y2c := cp(x1), cp(x2), cp(y1), cp(y2)
	ex := order(order(newOrder(), x1c, orderType(d1)), x2c, orderType(d2)).Bytes()
	ey := order(order(newOrder(), y1c, orderType(d1)), y2c, orderType(d2)).Bytes()
	nd.Observe("ex", ex)
	l1, l2 := x1.less(y1), x2.less(y2)
	if d1 == 1 {
		l1 = y1.less(x1)
	}
	if d2 == 1 {
		l2 = y2.less(x2)
	}
	nd.Assert(nd.Iff(bytes.Compare(ex, ey) < 0, nd.Or(l1, nd.And(x1.equal(y1), l2))), "order keys compare field by field as declared")
	nd.Assert(nd.And(bytes.Equal(x1c.b, x1.b), bytes.Equal(x2c.b, x2.b), bytes.Equal(y1c.b, y1.b), bytes.Equal(y2c.b, y2.b)), "the bytes of the caller are unchanged")
	nd.Reach("end")
}
