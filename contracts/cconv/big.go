package cconv

import (
	"math/big"
	goreflect "reflect"

	"github.com/bantling/micro/conv"
	"vf/gv"
)

// fin reports that a big float is finite.
func fin(f *big.Float) bool { return !f.IsInf() }

// toBig: a built-in number becomes an arbitrary-precision number of exactly the same value.
func toBig[I num]() {
	var z I
	n := goreflect.TypeOf(z).Name()
	for _, any := range []bool{false, true} {
		any := any
		m := "To_"
		if any {
			m = "AnyTo_"
		}
		gv.Register("C10", m+n+"_Int", func() {
			i := gv.Any[I]("i")
			o := prior("before", func() *big.Int { return big.NewInt(7) })
			old := o
			var err error
			if any {
				err = conv.AnyTo(i, &o)
			} else {
				err = conv.To(i, &o)
			}
			q, f := exact(i)
			gv.Assert("no error exactly when the value is an integer", gv.Iff(err == nil, f && gv.IsInt(q)))
			gv.Assert("the exact value", gv.Implies(err == nil, o != nil && zq(o).Eq(q)))
			gv.Assert("a value that was there is not changed", gv.Implies(old != nil && old != o, zq(old).Eq(gv.ZI(7).Q())))
		})
		gv.Register("C10", m+n+"_Rat", func() {
			i := gv.Any[I]("i")
			var o *big.Rat
			var err error
			if any {
				err = conv.AnyTo(i, &o)
			} else {
				err = conv.To(i, &o)
			}
			q, f := exact(i)
			gv.Assert("no error exactly when the value is finite", gv.Iff(err == nil, f))
			gv.Assert("the exact value", gv.Implies(err == nil, o != nil && rq(o).Eq(q)))
		})
		gv.Register("C10", m+n+"_Float", func() {
			i := gv.Any[I]("i")
			var o *big.Float
			var err error
			if any {
				err = conv.AnyTo(i, &o)
			} else {
				err = conv.To(i, &o)
			}
			q, f := exact(i)
			gv.Assert("no error exactly when the value is not NaN", gv.Iff(err == nil, i == i))
			gv.Assert("the exact value", gv.Implies(err == nil && f, o != nil && fin(o) && gv.QBF(o).Eq(q)))
			gv.Assert("infinities are kept", gv.Implies(err == nil && !f, o != nil && !fin(o) && gv.Iff(o.Sign() > 0, i > 0)))
		})
	}
}

func zq(z *big.Int) gv.Q {
	if z == nil {
		return gv.Q{}
	}
	return gv.ZB(z).Q()
}
func rq(r *big.Rat) gv.Q {
	if r == nil {
		return gv.Q{}
	}
	return gv.QB(r)
}
func prior[T any](name string, f func() *T) *T {
	if gv.Choice(name, 2) == 1 {
		return f()
	}
	return nil
}

// fromBig: an arbitrary-precision number becomes a built-in number exactly when it can.
func fromBig[O num]() {
	var z O
	n := goreflect.TypeOf(z).Name()
	k := goreflect.TypeOf(z).Kind()
	check := func(q gv.Q, o O, err error) {
		if k == goreflect.Float32 {
			// by way of a 64 bit float, which is rounded to 32 bits
			out := maxF32.Lt(q.Abs()) || (gv.ZI(0).Q().Lt(q.Abs()) && q.Abs().Lt(minF32))
			gv.Assert("a value outside the range is an error", gv.Implies(out, err != nil))
			gv.Assert("no error when the value is a 32 bit float", gv.Implies(gv.F32(q), err == nil))
			gv.Assert("an error when the value is not a 64 bit float", gv.Implies(!gv.F64(q), err != nil))
			r, rf := exact(o)
			gv.Assert("the value of a 32 bit float is kept", gv.Implies(err == nil && gv.F32(q), rf && r.Eq(q)))
			return
		}
		gv.Assert("no error exactly when the target type has the value", gv.Iff(err == nil, representable[O](q)))
		r, rf := exact(o)
		gv.Assert("the exact value", gv.Implies(err == nil, rf && r.Eq(q)))
	}
	gv.Register("C10", "To_Int_"+n, func() {
		i := gv.Any[*big.Int]("i")
		smallEnough(i)
		q := zq(i)
		o := gv.Any[O]("before")
		err := conv.To(i, &o)
		check(q, o, err)
		gv.Assert("the source is unchanged", zq(i).Eq(q))
	})
	gv.Register("C10", "To_Rat_"+n, func() {
		i := gv.Any[*big.Rat]("i")
		q := rq(i)
		o := gv.Any[O]("before")
		err := conv.To(i, &o)
		check(q, o, err)
		gv.Assert("the source is unchanged", rq(i).Eq(q))
	})
	gv.Register("C10", "To_Float_"+n, func() {
		i := gv.Any[*big.Float]("i")
		o := gv.Any[O]("before")
		if !fin(i) {
			err := conv.To(i, &o)
			if isInt(k) {
				gv.Assert("an infinity is not an integer", err != nil)
			} else {
				_, f := exact(o)
				gv.Assert("an infinity stays an infinity", err == nil && !f && gv.Iff(o > 0, i.Sign() > 0))
			}
			return
		}
		q := gv.QBF(i)
		err := conv.To(i, &o)
		check(q, o, err)
		gv.Assert("the source is unchanged", gv.QBF(i).Eq(q))
	})
	gv.Register("C10", "AnyTo_Int_"+n, func() {
		i := gv.Any[*big.Int]("i")
		smallEnough(i)
		o := gv.Any[O]("before")
		err := conv.AnyTo(i, &o)
		check(zq(i), o, err)
	})
	gv.Register("C10", "AnyTo_Rat_"+n, func() {
		i := gv.Any[*big.Rat]("i")
		o := gv.Any[O]("before")
		err := conv.AnyTo(i, &o)
		check(rq(i), o, err)
	})
	gv.Register("C10", "AnyTo_Float_"+n, func() {
		i := gv.Any[*big.Float]("i")
		gv.Assume(fin(i))
		o := gv.Any[O]("before")
		err := conv.AnyTo(i, &o)
		check(gv.QBF(i), o, err)
	})
}

// smallEnough: at most a million digits (the text of the number fits in memory many times over).
func smallEnough(i *big.Int) { gv.Assume(len(i.String()) <= 1000000) }

// notShared: changing the result in place does not change the source.
func disturbInt(x *big.Int) { x.Sub(x, big.NewInt(1)) }
func disturbRat(x *big.Rat) { x.Sub(x, big.NewRat(1, 3)) }

func bigs() {
	toBig[int]()
	toBig[int8]()
	toBig[int16]()
	toBig[int32]()
	toBig[int64]()
	toBig[uint]()
	toBig[uint8]()
	toBig[uint16]()
	toBig[uint32]()
	toBig[uint64]()
	toBig[float32]()
	toBig[float64]()
	toBig[myInt]()
	toBig[myFloat]()
	fromBig[int]()
	fromBig[int8]()
	fromBig[int16]()
	fromBig[int32]()
	fromBig[int64]()
	fromBig[uint]()
	fromBig[uint8]()
	fromBig[uint16]()
	fromBig[uint32]()
	fromBig[uint64]()
	fromBig[float32]()
	fromBig[float64]()
	fromBig[myUint]()
	// between arbitrary-precision types
	big2big("To", func(i *big.Int, o **big.Int) error { return conv.To(i, o) }, func(i *big.Int, o **big.Rat) error { return conv.To(i, o) },
		func(i *big.Int, o **big.Float) error { return conv.To(i, o) }, func(i *big.Rat, o **big.Int) error { return conv.To(i, o) },
		func(i *big.Rat, o **big.Rat) error { return conv.To(i, o) }, func(i *big.Float, o **big.Int) error { return conv.To(i, o) },
		func(i *big.Float, o **big.Rat) error { return conv.To(i, o) }, func(i *big.Float, o **big.Float) error { return conv.To(i, o) })
	big2big("ToBigOps", func(i *big.Int, o **big.Int) error { return conv.ToBigOps(i, o) }, func(i *big.Int, o **big.Rat) error { return conv.ToBigOps(i, o) },
		func(i *big.Int, o **big.Float) error { return conv.ToBigOps(i, o) }, func(i *big.Rat, o **big.Int) error { return conv.ToBigOps(i, o) },
		func(i *big.Rat, o **big.Rat) error { return conv.ToBigOps(i, o) }, func(i *big.Float, o **big.Int) error { return conv.ToBigOps(i, o) },
		func(i *big.Float, o **big.Rat) error { return conv.ToBigOps(i, o) }, func(i *big.Float, o **big.Float) error { return conv.ToBigOps(i, o) })
	gv.Register("C10", "ToBigOps_named", func() {
		i := gv.Any[myInt]("i")
		var o *big.Int
		err := conv.ToBigOps(i, &o)
		gv.Assert("no error", err == nil)
		gv.Assert("the exact value", o != nil && zq(o).Eq(gv.ZI(i).Q()))
	})
}

func big2big(n string, ii func(*big.Int, **big.Int) error, ir func(*big.Int, **big.Rat) error, ib func(*big.Int, **big.Float) error,
	ri func(*big.Rat, **big.Int) error, rr func(*big.Rat, **big.Rat) error, fi func(*big.Float, **big.Int) error,
	fr func(*big.Float, **big.Rat) error, ff func(*big.Float, **big.Float) error) {
	gv.Register("C10", n+"_Int_Int", func() {
		i := gv.Any[*big.Int]("i")
		q := zq(i)
		var o *big.Int
		switch gv.Choice("before", 3) {
		case 1:
			o = i
		case 2:
			o = big.NewInt(5)
		}
		err := ii(i, &o)
		gv.Assert("no error", err == nil)
		gv.Assert("an equal value in a different place", o != nil && o != i && zq(o).Eq(q))
		disturbInt(o)
		gv.Assert("changing the copy leaves the original alone", zq(i).Eq(q))
	})
	gv.Register("C10", n+"_Int_nil", func() {
		o := gv.Any[*big.Int]("before")
		err := ii(nil, &o)
		gv.Assert("nil is copied as nil", err == nil && o == nil)
	})
	gv.Register("C10", n+"_Int_Rat", func() {
		i := gv.Any[*big.Int]("i")
		q := zq(i)
		var o *big.Rat
		err := ir(i, &o)
		gv.Assert("no error", err == nil)
		gv.Assert("the exact value", o != nil && rq(o).Eq(q))
		disturbRat(o)
		gv.Assert("changing the result leaves the source alone", zq(i).Eq(q))
	})
	gv.Register("C10", n+"_Int_Float", func() {
		i := gv.Any[*big.Int]("i")
		smallEnough(i)
		q := zq(i)
		var o *big.Float
		err := ib(i, &o)
		gv.Assert("no error", err == nil)
		gv.Assert("the exact value", o != nil && fin(o) && gv.QBF(o).Eq(q))
	})
	gv.Register("C10", n+"_Rat_Int", func() {
		i := gv.Any[*big.Rat]("i")
		q := rq(i)
		var o *big.Int
		err := ri(i, &o)
		gv.Assert("no error exactly when the value is an integer", gv.Iff(err == nil, gv.IsInt(q)))
		if err != nil {
			return
		}
		gv.Assert("the exact value", o != nil && zq(o).Eq(q))
		disturbInt(o)
		gv.Assert("changing the result leaves the source alone", rq(i).Eq(q))
	})
	gv.Register("C10", n+"_Rat_Rat", func() {
		i := gv.Any[*big.Rat]("i")
		q := rq(i)
		var o *big.Rat
		switch gv.Choice("before", 3) {
		case 1:
			o = i
		case 2:
			o = big.NewRat(5, 3)
		}
		err := rr(i, &o)
		gv.Assert("no error", err == nil)
		gv.Assert("an equal value in a different place", o != nil && o != i && rq(o).Eq(q))
		disturbRat(o)
		gv.Assert("changing the copy leaves the original alone", rq(i).Eq(q))
	})
	gv.Register("C10", n+"_Float_Int", func() {
		i := gv.Any[*big.Float]("i")
		var o *big.Int
		f := fin(i)
		q := gv.QBF(i)
		err := fi(i, &o)
		gv.Assert("no error exactly when the value is an integer", gv.Iff(err == nil, f && gv.IsInt(q)))
		if err != nil {
			return
		}
		gv.Assert("the exact value", o != nil && zq(o).Eq(q))
		disturbInt(o)
		gv.Assert("changing the result leaves the source alone", gv.QBF(i).Eq(q))
	})
	gv.Register("C10", n+"_Float_Rat", func() {
		i := gv.Any[*big.Float]("i")
		var o *big.Rat
		f := fin(i)
		q := gv.QBF(i)
		err := fr(i, &o)
		gv.Assert("no error exactly when the value is finite", gv.Iff(err == nil, f))
		gv.Assert("the exact value", gv.Implies(err == nil, o != nil && rq(o).Eq(q)))
	})
	gv.Register("C10", n+"_Float_Float", func() {
		i := gv.Any[*big.Float]("i")
		gv.Assume(fin(i))
		q := gv.QBF(i)
		var o *big.Float
		switch gv.Choice("before", 3) {
		case 1:
			o = i
		case 2:
			o = big.NewFloat(5)
		}
		err := ff(i, &o)
		gv.Assert("no error", err == nil)
		gv.Assert("an equal value in a different place", o != nil && o != i && fin(o) && gv.QBF(o).Eq(q))
	})
}
