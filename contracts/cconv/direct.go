package cconv

import (
	"math/big"

	"github.com/bantling/micro/conv"
	"vf/gv"
)

// toF32: a conversion that gives a 32 bit float succeeds exactly when the value is one.
func toF32[I any](name string, draw func() I, val func(i I) gv.Q, f func(i I, o *float32) error) {
	gv.Register("C10", name, func() {
		i := draw()
		q := val(i)
		o := gv.Any[float32]("before")
		err := f(i, &o)
		gv.Assert("no error exactly when the value is a 32 bit float", gv.Iff(err == nil, gv.F32(q)))
		r, rf := exact(o)
		gv.Assert("the exact value", gv.Implies(err == nil, rf && r.Eq(q)))
		gv.Assert("the source is unchanged", val(i).Eq(q))
	})
}

// must: the Must version of a conversion panics exactly on an error, and otherwise stores the same value.
func must[I, O any](prop, name string, f func(i I, o *O) error, m func(i I, o *O), draw func() I, eq func(a, b O) bool) {
	gv.Register(prop, name, func() {
		i := draw()
		var a, b O
		err := f(i, &a)
		p := gv.Panics(func() { m(i, &b) })
		gv.Assert("a panic exactly when the conversion fails", gv.Iff(p, err != nil))
		if err == nil && !p {
			gv.Assert("the same value", eq(a, b))
		}
	})
}

func drawAny[T any]() T          { return gv.Any[T]("i") }
func drawInt() *big.Int          { i := gv.Any[*big.Int]("i"); smallEnough(i); return i }
func drawFloat() *big.Float      { i := gv.Any[*big.Float]("i"); gv.Assume(fin(i)); return i }
func sameInt(a, b *big.Int) bool { return zq(a).Eq(zq(b)) }
func sameRat(a, b *big.Rat) bool { return rq(a).Eq(rq(b)) }
func sameFloat(a, b *big.Float) bool {
	if !fin(a) || !fin(b) {
		return !fin(a) && !fin(b) && a.Sign() == b.Sign()
	}
	return gv.QBF(a).Eq(gv.QBF(b))
}
func sameAny[T comparable](a, b T) bool { return a == b || a != a && b != b }

func init() {
	toF32("BigIntToFloat32", drawInt, zq, conv.BigIntToFloat32)
	toF32("BigRatToFloat32", drawAny[*big.Rat], rq, conv.BigRatToFloat32)
	toF32("BigFloatToFloat32", drawFloat, gv.QBF, conv.BigFloatToFloat32)

	must("C10", "MustFloatToBigFloat_32", conv.FloatToBigFloat[float32], conv.MustFloatToBigFloat[float32], drawAny[float32], sameFloat)
	must("C10", "MustFloatToBigFloat_64", conv.FloatToBigFloat[float64], conv.MustFloatToBigFloat[float64], drawAny[float64], sameFloat)
	must("C10", "MustFloatToBigInt", conv.FloatToBigInt[float64], conv.MustFloatToBigInt[float64], drawAny[float64], sameInt)
	must("C10", "MustFloatToBigRat", conv.FloatToBigRat[float64], conv.MustFloatToBigRat[float64], drawAny[float64], sameRat)
	must("C10", "MustBigFloatToBigInt", conv.BigFloatToBigInt, conv.MustBigFloatToBigInt, drawFloat, sameInt)
	must("C10", "MustBigRatToBigInt", conv.BigRatToBigInt, conv.MustBigRatToBigInt, drawAny[*big.Rat], sameInt)
	must("C10", "MustBigFloatToBigRat", conv.BigFloatToBigRat, conv.MustBigFloatToBigRat, drawFloat, sameRat)
	must("C10", "MustBigIntToInt64", conv.BigIntToInt64, conv.MustBigIntToInt64, drawInt, sameAny[int64])
	must("C10", "MustBigFloatToInt64", conv.BigFloatToInt64, conv.MustBigFloatToInt64, drawFloat, sameAny[int64])
	must("C10", "MustBigRatToInt64", conv.BigRatToInt64, conv.MustBigRatToInt64, drawAny[*big.Rat], sameAny[int64])
	must("C10", "MustBigIntToUint64", conv.BigIntToUint64, conv.MustBigIntToUint64, drawInt, sameAny[uint64])
	must("C10", "MustBigFloatToUint64", conv.BigFloatToUint64, conv.MustBigFloatToUint64, drawFloat, sameAny[uint64])
	must("C10", "MustBigRatToUint64", conv.BigRatToUint64, conv.MustBigRatToUint64, drawAny[*big.Rat], sameAny[uint64])
	must("C10", "MustBigIntToFloat32", conv.BigIntToFloat32, conv.MustBigIntToFloat32, drawInt, sameAny[float32])
	must("C10", "MustBigFloatToFloat32", conv.BigFloatToFloat32, conv.MustBigFloatToFloat32, drawFloat, sameAny[float32])
	must("C10", "MustBigRatToFloat32", conv.BigRatToFloat32, conv.MustBigRatToFloat32, drawAny[*big.Rat], sameAny[float32])
	must("C10", "MustBigIntToFloat64", conv.BigIntToFloat64, conv.MustBigIntToFloat64, drawInt, sameAny[float64])
	must("C10", "MustBigFloatToFloat64", conv.BigFloatToFloat64, conv.MustBigFloatToFloat64, drawFloat, sameAny[float64])
	must("C10", "MustBigRatToFloat64", conv.BigRatToFloat64, conv.MustBigRatToFloat64, drawAny[*big.Rat], sameAny[float64])
	must("C11", "MustStringToInt64", conv.StringToInt64, conv.MustStringToInt64, drawAny[string], sameAny[int64])
	must("C11", "MustStringToUint64", conv.StringToUint64, conv.MustStringToUint64, drawAny[string], sameAny[uint64])
	must("C11", "MustStringToBigInt", conv.StringToBigInt, conv.MustStringToBigInt, drawAny[string], sameInt)
	must("C11", "MustStringToBigRat", conv.StringToBigRat, conv.MustStringToBigRat, drawAny[string], sameRat)
	must("C11", "MustStringToBigFloat", conv.StringToBigFloat, conv.MustStringToBigFloat, drawAny[string], sameFloat)
	must("C11", "MustFloatStringToBigRat", conv.FloatStringToBigRat, conv.MustFloatStringToBigRat, drawAny[string], sameRat)
}
