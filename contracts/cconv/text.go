package cconv

import (
	"math/big"
	goreflect "reflect"

	"github.com/bantling/micro/conv"
	"vf/gv"
)

// text: an integer converts to text, and its text to any integer type that has the value.
func textTo[O num]() {
	var z O
	n := goreflect.TypeOf(z).Name()
	gv.Register("C11", "Text_"+n, func() {
		i := gv.Any[*big.Int]("i")
		smallEnough(i)
		var s string
		gv.Assert("no error", conv.To(i, &s) == nil)
		var o O
		var err error
		if gv.Choice("how", 2) == 0 {
			err = conv.To(s, &o)
		} else {
			err = conv.AnyTo(any(s), &o)
		}
		fits := representable[O](zq(i))
		gv.Assert("no error exactly when the target type has the value", gv.Iff(err == nil, fits))
		r, f := exact(o)
		gv.Assert("the exact value", gv.Implies(err == nil, f && r.Eq(zq(i))))
	})
	gv.Register("C11", "RoundTrip_"+n, func() {
		i := gv.Any[O]("i")
		var s string
		gv.Assert("no error to text", conv.To(i, &s) == nil)
		var o O
		gv.Assert("no error from text", conv.To(s, &o) == nil)
		gv.Assert("the same value", o == i)
		var b *big.Int
		gv.Assert("no error from text to an arbitrary precision integer", conv.AnyTo(s, &b) == nil)
		q, _ := exact(i)
		gv.Assert("the same arbitrary precision value", b != nil && zq(b).Eq(q))
		var rt *big.Rat
		gv.Assert("no error from text to a rational", conv.AnyTo(s, &rt) == nil)
		gv.Assert("the same rational value", rt != nil && rq(rt).Eq(q))
	})
}

func texts() {
	textTo[int]()
	textTo[int8]()
	textTo[int16]()
	textTo[int32]()
	textTo[int64]()
	textTo[uint]()
	textTo[uint8]()
	textTo[uint16]()
	textTo[uint32]()
	textTo[uint64]()
	textTo[myInt]()
	textTo[myUint]()
	gv.Register("C11", "BigInt", func() {
		i := gv.Any[*big.Int]("i")
		smallEnough(i)
		var s string
		gv.Assert("no error to text", conv.To(i, &s) == nil)
		var o *big.Int
		gv.Assert("no error from text", conv.To(s, &o) == nil)
		gv.Assert("the same value", o != nil && zq(o).Eq(zq(i)))
		var p *big.Rat
		gv.Assert("no error from text to a rational", conv.To(s, &p) == nil)
		gv.Assert("the same rational value", p != nil && rq(p).Eq(zq(i)))
		var f *big.Float
		gv.Assert("no error from text to a float", conv.To(s, &f) == nil)
		gv.Assert("the same float value", f != nil && fin(f) && gv.QBF(f).Eq(zq(i)))
		var o2 *big.Int
		gv.Assert("no error from text by ToBigOps", conv.ToBigOps(s, &o2) == nil)
		gv.Assert("the same value by ToBigOps", o2 != nil && zq(o2).Eq(zq(i)))
	})
	gv.Register("C11", "BigRat", func() {
		i := gv.Any[*big.Rat]("i")
		var s string
		gv.Assert("no error to text", conv.To(i, &s) == nil)
		var o *big.Rat
		gv.Assert("no error from text", conv.To(s, &o) == nil)
		gv.Assert("the same value", o != nil && rq(o).Eq(rq(i)))
	})
	gv.Register("C11", "BigRatNormalized", func() {
		i := gv.Any[*big.Rat]("i")
		gv.Assume(i.IsInt())
		s := conv.BigRatToNormalizedString(i)
		var o *big.Int
		gv.Assert("no error from text", conv.To(s, &o) == nil)
		gv.Assert("the same value", o != nil && zq(o).Eq(rq(i)))
	})
	gv.Register("C11", "String", func() {
		i := gv.Any[string]("i")
		var s string
		gv.Assert("no error", conv.To(i, &s) == nil)
		gv.Assert("the same text", s == i)
		gv.Assert("no error by AnyTo", conv.AnyTo(i, &s) == nil && s == i)
	})
}
