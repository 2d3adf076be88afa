// Package cmath holds the contracts of github.com/bantling/micro/math.
package cmath

import (
	"math/big"
	"math/cmplx"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/math"
	"vf/gv"
)

func bounds[T gv.Integer]() (lo, hi gv.Z) {
	var z T
	z--
	if z > 0 { // unsigned
		return gv.ZI(T(0)), gv.ZI(z)
	}
	// signed: the largest power of two that is still positive
	m := T(1)
	for m<<1 > m {
		m <<= 1
	}
	h := gv.ZI(m - 1).Add(gv.ZI(m))
	return h.Neg().Sub(gv.ZI(T(1))), h
}

func inRange(z, lo, hi gv.Z) bool { return lo.Le(z) && z.Le(hi) }

// exactOrError: the error is nil exactly when the mathematical result is representable, and
// otherwise names the direction; the stored value is exact when there is no error.
func exactOrError[T gv.Integer](want gv.Z, got T, err error) {
	lo, hi := bounds[T]()
	fits := inRange(want, lo, hi)
	gv.Assert("no error when the exact result fits", gv.Implies(fits, err == nil))
	gv.Assert("an overflow error when the exact result is too large", gv.Implies(hi.Lt(want), err == math.OverflowErr))
	gv.Assert("an underflow error when the exact result is too small", gv.Implies(want.Lt(lo), err == math.UnderflowErr))
	gv.Assert("the stored result is exact when there is no error", gv.Implies(err == nil, gv.ZI(got).Eq(want)))
}

func checked[T gv.Integer](op func(a T, b *T) error, spec func(a, b gv.Z) gv.Z) {
	a, b := gv.Any[T]("a"), gv.Any[T]("b")
	want := spec(gv.ZI(a), gv.ZI(b))
	err := op(a, &b)
	exactOrError(want, b, err)
}

func zadd(a, b gv.Z) gv.Z { return a.Add(b) }
func zsub(a, b gv.Z) gv.Z { return a.Sub(b) }
func zmul(a, b gv.Z) gv.Z { return a.Mul(b) }

// rounded is the quotient of a by b (b != 0) rounded half away from zero:
// the unique integer q with 2|a - q*b| <= |b| where a tie has |q*b| > |a|.
func rounded(a, b, q gv.Z) {
	two := gv.ZI(2)
	d := a.Sub(q.Mul(b))
	gv.Assert("the quotient is a nearest integer", two.Mul(d.Abs()).Le(b.Abs()))
	gv.Assert("a tie is rounded away from zero",
		gv.Implies(two.Mul(d.Abs()).Eq(b.Abs()), a.Abs().Lt(q.Mul(b).Abs())))
}

func div[T interface {
	gv.Integer
	constraint.Numeric
}]() {
	a, b := gv.Any[T]("dividend"), gv.Any[T]("divisor")
	q := gv.Any[T]("quotient before")
	q0 := q
	err := math.Div(a, b, &q)
	if b == 0 {
		gv.Assert("dividing by zero is reported", err == math.DivByZeroErr)
		gv.Assert("dividing by zero leaves the quotient alone", q == q0)
		return
	}
	lo, hi := bounds[T]()
	one := gv.ZI(1)
	if lo.Lt(gv.ZI(0)) && gv.ZI(a).Eq(lo) && gv.ZI(b).Eq(one.Neg()) {
		_ = hi
		gv.Assert("an unrepresentable quotient is reported", err == math.OverflowErr)
		return
	}
	gv.Assert("no error when the quotient is representable", err == nil)
	rounded(gv.ZI(a), gv.ZI(b), gv.ZI(q))
}

func divBig(f func(a, b *big.Int, q **big.Int) error) {
	a, b := gv.Any[*big.Int]("dividend"), gv.Any[*big.Int]("divisor")
	za, zb := gv.ZB(a), gv.ZB(b)
	var q *big.Int
	switch gv.Choice("destination", 4) {
	case 1:
		q = new(big.Int)
	case 2:
		q = a
	case 3:
		q = b
	}
	dst := q
	err := f(a, b, &q)
	if zb.Eq(gv.ZI(0)) {
		gv.Assert("dividing by zero is reported", err == math.DivByZeroErr)
		return
	}
	gv.Assert("no error", err == nil)
	gv.Assert("a provided destination is used", gv.Implies(dst != nil, q == dst))
	rounded(za, zb, gv.ZB(q))
	gv.Assert("the dividend is unchanged unless it is the destination", gv.Implies(dst != a, gv.ZB(a).Eq(za)))
	gv.Assert("the divisor is unchanged unless it is the destination", gv.Implies(dst != b, gv.ZB(b).Eq(zb)))
}
func divRat(f func(a, b *big.Rat, q **big.Rat) error) {
	a, b := gv.Any[*big.Rat]("dividend"), gv.Any[*big.Rat]("divisor")
	za, zb := gv.QB(a), gv.QB(b)
	var q *big.Rat
	switch gv.Choice("destination", 4) {
	case 1:
		q = new(big.Rat)
	case 2:
		q = a
	case 3:
		q = b
	}
	dst := q
	err := f(a, b, &q)
	if zb.Eq(gv.ZI(0).Q()) {
		gv.Assert("dividing by zero is reported", err == math.DivByZeroErr)
		return
	}
	gv.Assert("no error", err == nil)
	gv.Assert("the quotient is exact", gv.QB(q).Mul(zb).Eq(za))
	gv.Assert("the dividend is unchanged unless it is the destination", gv.Implies(dst != a, gv.QB(a).Eq(za)))
	gv.Assert("the divisor is unchanged unless it is the destination", gv.Implies(dst != b, gv.QB(b).Eq(zb)))
}

func abs[T interface {
	gv.Integer
	constraint.Numeric
}]() {
	a := gv.Any[T]("a")
	r := a
	err := math.Abs(&r)
	lo, hi := bounds[T]()
	want := gv.ZI(a).Abs()
	fits := inRange(want, lo, hi)
	gv.Assert("an error exactly when the magnitude is not representable", (err == nil) == fits)
	gv.Assert("the result is the magnitude", gv.Implies(fits, gv.ZI(r).Eq(want)))
}
func absF[T ~float32 | ~float64](f func(*T) error) {
	a := gv.Any[T]("a")
	r := a
	err := f(&r)
	gv.Assert("no error", err == nil)
	gv.Assert("finite stays finite", gv.Finite(r) == gv.Finite(a))
	gv.Assert("not negative", !(r < 0))
	gv.Assert("a NaN stays a NaN, anything else keeps its magnitude", gv.Implies(a == a, r == a || r == -a) && gv.Implies(a != a, r != r))
}

func ordered[T interface{ constraint.Ordered }]() {
	a, b := gv.Any[T]("a"), gv.Any[T]("b")
	c := math.CmpOrdered(a, b)
	gv.Assert("negative exactly when smaller", (c == -1) == (a < b))
	gv.Assert("positive exactly when larger", (c == 1) == (a > b))
	gv.Assert("zero otherwise", gv.Implies(!(a < b) && !(a > b), c == 0))
	gv.Assume(a == a && b == b)
	mn, mx := math.MinOrdered(a, b), math.MaxOrdered(a, b)
	gv.Assert("min is one of the two", mn == a || mn == b)
	gv.Assert("max is one of the two", mx == a || mx == b)
	gv.Assert("min is not larger than either", !(mn > a) && !(mn > b))
	gv.Assert("max is not smaller than either", !(mx < a) && !(mx < b))
	gv.Assert("min and max together are the two values", (mn == a && mx == b) || (mn == b && mx == a))
}

// ordComplex: complex numbers are ordered by magnitude.
func ordComplex[T interface{ ~complex64 | ~complex128 }]() {
	a, b := gv.Any[T]("a"), gv.Any[T]("b")
	ma, mb := cmplx.Abs(complex128(a)), cmplx.Abs(complex128(b))
	gv.Assume(a == a && b == b && ma == ma && mb == mb)
	c := cmpC(a, b)
	gv.Assert("negative exactly when the magnitude is smaller", (c == -1) == (ma < mb))
	gv.Assert("positive exactly when the magnitude is larger", (c == 1) == (ma > mb))
	gv.Assert("zero otherwise", (c == 0) == (ma == mb))
	mn, mx := minC(a, b), maxC(a, b)
	gv.Assert("min is one of the two", mn == a || mn == b)
	gv.Assert("max is one of the two", mx == a || mx == b)
	gv.Assert("min has the smaller magnitude", cmplx.Abs(complex128(mn)) <= ma && cmplx.Abs(complex128(mn)) <= mb)
	gv.Assert("max has the larger magnitude", cmplx.Abs(complex128(mx)) >= ma && cmplx.Abs(complex128(mx)) >= mb)
}
func cmpC[T interface{ ~complex64 | ~complex128 }](a, b T) int { return math.CmpComplex(a, b) }
func minC[T interface{ ~complex64 | ~complex128 }](a, b T) T   { return math.MinComplex(a, b) }
func maxC[T interface{ ~complex64 | ~complex128 }](a, b T) T   { return math.MaxComplex(a, b) }

// cell is an arbitrary implementation of the comparison interface, ordered by an int.
type cell struct{ K, Id int }

func (a cell) Cmp(b cell) int {
	if a.K < b.K {
		return -7
	}
	if a.K > b.K {
		return 9
	}
	return 0
}

func cmpCell() {
	a, b := gv.Any[cell]("a"), gv.Any[cell]("b")
	mn, mx := math.MinCmp(a, b), math.MaxCmp(a, b)
	gv.Assert("min is one of the two", mn == a || mn == b)
	gv.Assert("max is one of the two", mx == a || mx == b)
	gv.Assert("min is not larger than either", mn.K <= a.K && mn.K <= b.K)
	gv.Assert("max is not smaller than either", mx.K >= a.K && mx.K >= b.K)
}
func cmpBigInt() {
	a, b := gv.Any[*big.Int]("a"), gv.Any[*big.Int]("b")
	mn, mx := math.MinCmp(a, b), math.MaxCmp(a, b)
	gv.Assert("min is one of the two", mn == a || mn == b)
	gv.Assert("max is one of the two", mx == a || mx == b)
	gv.Assert("min is not larger than either", gv.ZB(mn).Le(gv.ZB(a)) && gv.ZB(mn).Le(gv.ZB(b)))
	gv.Assert("max is not smaller than either", gv.ZB(a).Le(gv.ZB(mx)) && gv.ZB(b).Le(gv.ZB(mx)))
}

// within is the meaning of a range.
func within[T constraint.IntegerAndFloat](v, min T, minMode math.RangeMode, max T, maxMode math.RangeMode) bool {
	return (v > min || (bool(minMode) && v == min)) && (v < max || (bool(maxMode) && v == max))
}

func rng[T constraint.IntegerAndFloat]() {
	min, max, init := gv.Any[T]("min"), gv.Any[T]("max"), gv.Any[T]("initial")
	mm, xm := math.RangeMode(gv.Bool("min closed")), math.RangeMode(gv.Bool("max closed"))
	var r math.Range[T]
	p := gv.Panics(func() { r = math.OfRange(min, mm, max, xm, init) })
	gv.Assert("constructing panics exactly when the bounds are out of order or the initial value is outside them",
		p == (!(min < max) || !within(init, min, mm, max, xm)))
	if p {
		return
	}
	// an arbitrary sequence of sets: the value stays what was last accepted, and inside the bounds
	cur := init
	gv.Inv(func(x T) bool { return within(x, min, mm, max, xm) })
	for gv.More("set") {
		v := gv.Any[T]("v")
		err := r.SetValue(v)
		gv.Assert("a value is accepted exactly when it is inside the bounds", (err == nil) == within(v, min, mm, max, xm))
		if err == nil {
			cur = v
		}
		got := r.GetValue()
		gv.Assert("the value is the last one accepted", got == cur)
		gv.Assert("the value is inside the bounds", within(got, min, mm, max, xm))
	}
	a, am := r.GetMin()
	b, bm := r.GetMax()
	gv.Assert("the bounds never change", a == min && b == max && am == mm && bm == xm)
	got := r.GetValue()
	gv.Assert("the final value is inside the bounds", within(got, min, mm, max, xm))
}

func regS[T interface {
	constraint.SignedInteger
	constraint.Numeric
	constraint.Ordered
}](n string) {
	gv.Register("C01", "AddInt/"+n, func() { checked(math.AddInt[T], zadd) })
	gv.Register("C01", "SubInt/"+n, func() { checked(math.SubInt[T], zsub) })
	gv.Register("C01", "Mul/"+n, func() { checked(math.Mul[T], zmul) })
	reg[T](n)
}
func regU[T interface {
	constraint.UnsignedInteger
	constraint.Numeric
	constraint.Ordered
}](n string) {
	gv.Register("C01", "AddUint/"+n, func() { checked(math.AddUint[T], zadd) })
	gv.Register("C01", "SubUint/"+n, func() { checked(math.SubUint[T], zsub) })
	gv.Register("C01", "Mul/"+n, func() { checked(math.Mul[T], zmul) })
	reg[T](n)
}
func reg[T interface {
	gv.Integer
	constraint.Numeric
	constraint.Ordered
	constraint.IntegerAndFloat
}](n string) {
	gv.Register("C02", "Div/"+n, div[T])
	gv.Register("C03", "Abs/"+n, abs[T])
	gv.Register("C03", "CmpMinMax/"+n, ordered[T])
	gv.Register("C04", "Range/"+n, rng[T])
}

func init() {
	regS[int]("int")
	regS[int8]("int8")
	regS[int16]("int16")
	regS[int32]("int32")
	regS[int64]("int64")
	regU[uint]("uint")
	regU[uint8]("uint8")
	regU[uint16]("uint16")
	regU[uint32]("uint32")
	regU[uint64]("uint64")
	gv.Register("C02", "Div/big.Int", func() { divBig(math.Div[*big.Int]) })
	gv.Register("C02", "DivBigOps/big.Int", func() { divBig(math.DivBigOps[*big.Int]) })
	gv.Register("C02", "Div/big.Rat", func() { divRat(math.Div[*big.Rat]) })
	gv.Register("C02", "DivBigOps/big.Rat", func() { divRat(math.DivBigOps[*big.Rat]) })
	gv.Register("C03", "CmpMinMax/float32", ordered[float32])
	gv.Register("C03", "CmpMinMax/float64", ordered[float64])
	gv.Register("C03", "CmpMinMax/string", ordered[string])
	gv.Register("C03", "Abs/float32", func() { absF(math.Abs[float32]) })
	gv.Register("C03", "Abs/float64", func() { absF(math.Abs[float64]) })
	gv.Register("C03", "Abs/big.Int", func() {
		a := gv.Any[*big.Int]("a")
		za := gv.ZB(a)
		gv.Assert("no error", math.Abs(&a) == nil)
		gv.Assert("the magnitude", gv.ZB(a).Eq(za.Abs()))
	})
	gv.Register("C03", "Abs/big.Rat", func() {
		a := gv.Any[*big.Rat]("a")
		za := gv.QB(a)
		gv.Assert("no error", math.Abs(&a) == nil)
		gv.Assert("the magnitude", gv.QB(a).Eq(za.Abs()))
	})
	gv.Register("C03", "Abs/big.Float", func() {
		a := gv.Any[*big.Float]("a")
		gv.Assume(!a.IsInf())
		za := gv.QBF(a)
		gv.Assert("no error", math.Abs(&a) == nil)
		gv.Assert("the magnitude", gv.QBF(a).Eq(za.Abs()))
	})
	gv.Register("C03", "CmpMinMax/complex64", ordComplex[complex64])
	gv.Register("C03", "CmpMinMax/complex128", ordComplex[complex128])
	gv.Register("C03", "MinMaxCmp/struct", cmpCell)
	gv.Register("C03", "MinMaxCmp/big.Int", cmpBigInt)
	gv.Register("C04", "Range/float32", rng[float32])
	gv.Register("C04", "Range/float64", rng[float64])
}
