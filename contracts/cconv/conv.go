// Package cconv holds the contracts of github.com/bantling/micro/conv.
package cconv

import (
	"math"
	goreflect "reflect"

	"github.com/bantling/micro/conv"
	"vf/gv"
)

// num is any built-in numeric type or a named type based on one.
type num interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~float32 | ~float64
}

// exact describes the value of a built-in number: finite with its exact value, or +Inf, -Inf, NaN.
func exact[T num](x T) (q gv.Q, finite bool) {
	switch goreflect.TypeOf(x).Kind() {
	case goreflect.Float32, goreflect.Float64:
		f := float64(x)
		return gv.QF(f), gv.Finite(f)
	case goreflect.Uint, goreflect.Uint8, goreflect.Uint16, goreflect.Uint32, goreflect.Uint64:
		return gv.ZI(uint64(x)).Q(), true
	}
	return gv.ZI(int64(x)).Q(), true
}

var (
	maxF32 = gv.QF(float64(math.MaxFloat32))
	minF32 = gv.QF(float64(math.SmallestNonzeroFloat32))
)

func isInt(k goreflect.Kind) bool { return k >= goreflect.Int && k <= goreflect.Uint64 }

// representable reports whether type T has the value (a finite number).
func representable[T num](q gv.Q) bool {
	var z T
	switch goreflect.TypeOf(z).Kind() {
	case goreflect.Float32:
		return gv.F32(q)
	case goreflect.Float64:
		return gv.F64(q)
	}
	lo, hi := limits[T]()
	return gv.IsInt(q) && lo.Q().Le(q) && q.Le(hi.Q())
}

func limits[T num]() (lo, hi gv.Z) {
	var z T
	switch goreflect.TypeOf(z).Kind() {
	case goreflect.Int8:
		return gv.ZI(math.MinInt8), gv.ZI(math.MaxInt8)
	case goreflect.Int16:
		return gv.ZI(math.MinInt16), gv.ZI(math.MaxInt16)
	case goreflect.Int32:
		return gv.ZI(math.MinInt32), gv.ZI(math.MaxInt32)
	case goreflect.Int64, goreflect.Int:
		return gv.ZI(math.MinInt64), gv.ZI(math.MaxInt64)
	case goreflect.Uint8:
		return gv.ZI(0), gv.ZI(math.MaxUint8)
	case goreflect.Uint16:
		return gv.ZI(0), gv.ZI(math.MaxUint16)
	case goreflect.Uint32:
		return gv.ZI(0), gv.ZI(math.MaxUint32)
	}
	return gv.ZI(0), gv.ZI(uint64(math.MaxUint64))
}

// same is equality that takes NaN to be equal to itself.
func same[T num](a, b T) bool { return a == b || (a != a && b != b) }

// numToNum: converting a built-in number to a built-in numeric type.
func numToNum[I, O num](to func(i I, o *O) error) func() {
	return func() {
		i, before := gv.Any[I]("i"), gv.Any[O]("o")
		o := before
		err := to(i, &o)
		q, fin := exact(i)
		ik, ok := goreflect.TypeOf(i).Kind(), goreflect.TypeOf(o).Kind()
		if !isInt(ik) && !isInt(ok) {
			// float to float: the range decides, a 64 bit value is rounded to 32 bits
			if ik == goreflect.Float64 && ok == goreflect.Float32 {
				zero := gv.ZI(0).Q()
				out := fin && (maxF32.Lt(q.Abs()) || (zero.Lt(q.Abs()) && q.Abs().Lt(minF32)))
				gv.Assert("an error exactly when the value is outside the range of a 32 bit float", gv.Iff(err != nil, out))
				gv.Assert("the nearest 32 bit float", gv.Implies(err == nil, same(o, O(float32(i)))))
			} else {
				gv.Assert("no error", err == nil)
				gv.Assert("the same float", same(o, O(i)))
			}
		} else {
			fits := fin && representable[O](q)
			gv.Assert("no error exactly when the target type has the value", gv.Iff(err == nil, fits))
			r, rfin := exact(o)
			gv.Assert("the exact value", gv.Implies(err == nil, rfin && r.Eq(q)))
		}
		gv.Assert("an error leaves the target unchanged", gv.Implies(err != nil, same(o, before)))
	}
}

func viaTo[I, O num]() {
	var i I
	var o O
	n := goreflect.TypeOf(i).Name() + "_" + goreflect.TypeOf(o).Name()
	gv.Register("C09", "To_"+n, numToNum(func(i I, o *O) error { return toNum(i, o) }))
	gv.Register("C09", "AnyTo_"+n, numToNum(func(i I, o *O) error { return anyToNum(any(i), o) }))
}

// conv.To and conv.AnyTo with the constraint of this package.
func toNum[I, O num](i I, o *O) error   { return conv.To(i, o) }
func anyToNum[O num](i any, o *O) error { return conv.AnyTo(i, o) }

func fromEach[O num]() {
	viaTo[int, O]()
	viaTo[int8, O]()
	viaTo[int16, O]()
	viaTo[int32, O]()
	viaTo[int64, O]()
	viaTo[uint, O]()
	viaTo[uint8, O]()
	viaTo[uint16, O]()
	viaTo[uint32, O]()
	viaTo[uint64, O]()
	viaTo[float32, O]()
	viaTo[float64, O]()
}

type (
	myInt   int16
	myUint  uint32
	myFloat float64
	mySmall float32
)

func init() {
	fromEach[int]()
	fromEach[int8]()
	fromEach[int16]()
	fromEach[int32]()
	fromEach[int64]()
	fromEach[uint]()
	fromEach[uint8]()
	fromEach[uint16]()
	fromEach[uint32]()
	fromEach[uint64]()
	fromEach[float32]()
	fromEach[float64]()
	// named types
	viaTo[myInt, int8]()
	viaTo[int64, myInt]()
	viaTo[myInt, myUint]()
	viaTo[myFloat, myInt]()
	viaTo[myUint, mySmall]()
	viaTo[myFloat, mySmall]()
	viaTo[myInt, myInt]()
	gv.Register("C09", "MustTo", func() {
		i := gv.Any[int64]("i")
		var o int16
		p := gv.Panics(func() { conv.MustTo(i, &o) })
		gv.Assert("a panic exactly when the value does not fit", gv.Iff(p, i < math.MinInt16 || i > math.MaxInt16))
		gv.Assert("the exact value", gv.Implies(!p, int64(o) == i))
	})
	gv.Register("C09", "To_nil", func() {
		gv.Assert("a nil target is an error", conv.To(gv.Any[int]("i"), (*int8)(nil)) != nil)
	})
	gv.Register("C09", "AnyTo_other", func() {
		before := gv.Any[int]("o")
		o := before
		gv.Assert("a bool is not a number", conv.AnyTo(gv.Any[bool]("b"), &o) != nil)
		gv.Assert("a struct is not a number", conv.AnyTo(struct{ a int }{gv.Any[int]("f")}, &o) != nil)
		x := gv.Any[int]("x")
		gv.Assert("a pointer is not a number", conv.AnyTo(&x, &o) != nil)
		gv.Assert("the target is unchanged", o == before)
	})
	direct()
	bigs()
	texts()
}

// direct: the functions that To and AnyTo are made of, and their panicking versions.
func direct() {
	sints[int8]("int8")
	sints[int16]("int16")
	sints[int32]("int32")
	sints[int64]("int64")
	sints[int]("int")
	uints[uint8]("uint8")
	uints[uint16]("uint16")
	uints[uint32]("uint32")
	uints[uint64]("uint64")
	uints[uint]("uint")
	floats[float32]("float32")
	floats[float64]("float64")
}

type sint interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64
}
type uint_ interface {
	~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64
}
type float interface{ ~float32 | ~float64 }

func reg[I, O num](name string, f func(i I, o *O) error, must func(i I, o *O)) {
	var o O
	n := name + "_" + goreflect.TypeOf(o).Name()
	gv.Register("C09", n, numToNum(f))
	gv.Register("C09", "Must"+n, func() {
		i := gv.Any[I]("i")
		var a, b O
		err := f(i, &a)
		p := gv.Panics(func() { must(i, &b) })
		gv.Assert("a panic exactly when the conversion fails", gv.Iff(p, err != nil))
		gv.Assert("the same result", gv.Implies(err == nil, same(a, b)))
	})
}
func sints[I sint](n string) {
	reg("IntToInt_"+n, conv.IntToInt[I, int8], conv.MustIntToInt[I, int8])
	reg("IntToInt_"+n, conv.IntToInt[I, int16], conv.MustIntToInt[I, int16])
	reg("IntToInt_"+n, conv.IntToInt[I, int32], conv.MustIntToInt[I, int32])
	reg("IntToInt_"+n, conv.IntToInt[I, int64], conv.MustIntToInt[I, int64])
	reg("IntToInt_"+n, conv.IntToInt[I, int], conv.MustIntToInt[I, int])
	reg("IntToUint_"+n, conv.IntToUint[I, uint8], conv.MustIntToUint[I, uint8])
	reg("IntToUint_"+n, conv.IntToUint[I, uint16], conv.MustIntToUint[I, uint16])
	reg("IntToUint_"+n, conv.IntToUint[I, uint32], conv.MustIntToUint[I, uint32])
	reg("IntToUint_"+n, conv.IntToUint[I, uint64], conv.MustIntToUint[I, uint64])
	reg("IntToUint_"+n, conv.IntToUint[I, uint], conv.MustIntToUint[I, uint])
	reg("IntToFloat_"+n, conv.IntToFloat[I, float32], conv.MustIntToFloat[I, float32])
	reg("IntToFloat_"+n, conv.IntToFloat[I, float64], conv.MustIntToFloat[I, float64])
}
func uints[I uint_](n string) {
	reg("UintToInt_"+n, conv.UintToInt[I, int8], conv.MustUintToInt[I, int8])
	reg("UintToInt_"+n, conv.UintToInt[I, int16], conv.MustUintToInt[I, int16])
	reg("UintToInt_"+n, conv.UintToInt[I, int32], conv.MustUintToInt[I, int32])
	reg("UintToInt_"+n, conv.UintToInt[I, int64], conv.MustUintToInt[I, int64])
	reg("UintToInt_"+n, conv.UintToInt[I, int], conv.MustUintToInt[I, int])
	reg("UintToUint_"+n, conv.UintToUint[I, uint8], conv.MustUintToUint[I, uint8])
	reg("UintToUint_"+n, conv.UintToUint[I, uint16], conv.MustUintToUint[I, uint16])
	reg("UintToUint_"+n, conv.UintToUint[I, uint32], conv.MustUintToUint[I, uint32])
	reg("UintToUint_"+n, conv.UintToUint[I, uint64], conv.MustUintToUint[I, uint64])
	reg("UintToUint_"+n, conv.UintToUint[I, uint], conv.MustUintToUint[I, uint])
	reg("IntToFloat_"+n, conv.IntToFloat[I, float32], conv.MustIntToFloat[I, float32])
	reg("IntToFloat_"+n, conv.IntToFloat[I, float64], conv.MustIntToFloat[I, float64])
}
func floats[I float](n string) {
	reg("FloatToInt_"+n, conv.FloatToInt[I, int8], conv.MustFloatToInt[I, int8])
	reg("FloatToInt_"+n, conv.FloatToInt[I, int16], conv.MustFloatToInt[I, int16])
	reg("FloatToInt_"+n, conv.FloatToInt[I, int32], conv.MustFloatToInt[I, int32])
	reg("FloatToInt_"+n, conv.FloatToInt[I, int64], conv.MustFloatToInt[I, int64])
	reg("FloatToInt_"+n, conv.FloatToInt[I, int], conv.MustFloatToInt[I, int])
	reg("FloatToUint_"+n, conv.FloatToUint[I, uint8], conv.MustFloatToUint[I, uint8])
	reg("FloatToUint_"+n, conv.FloatToUint[I, uint16], conv.MustFloatToUint[I, uint16])
	reg("FloatToUint_"+n, conv.FloatToUint[I, uint32], conv.MustFloatToUint[I, uint32])
	reg("FloatToUint_"+n, conv.FloatToUint[I, uint64], conv.MustFloatToUint[I, uint64])
	reg("FloatToUint_"+n, conv.FloatToUint[I, uint], conv.MustFloatToUint[I, uint])
	reg("FloatToFloat_"+n, conv.FloatToFloat[I, float32], conv.MustFloatToFloat[I, float32])
	reg("FloatToFloat_"+n, conv.FloatToFloat[I, float64], conv.MustFloatToFloat[I, float64])
}
