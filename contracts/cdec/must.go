package cdec

import (
	"errors"

	"github.com/bantling/micro/math"
	"vf/gv"
)

// outcome is an arbitrary result of an operation, or an error.
func outcome() (r math.Decimal, err error) {
	if gv.Bool("error") {
		return math.Decimal{}, errors.New("error")
	}
	return dec("result", gv.Any[uint]("result scale")), nil
}

// must: f panics with the error exactly if there is one, and returns the result otherwise.
func must(r math.Decimal, err error, f func() math.Decimal) {
	var m math.Decimal
	p, caught := gv.Caught(func() { m = f() })
	if err != nil {
		gv.Assert("panics with the error", caught && gv.Same(p, err))
	} else {
		gv.Assert("the result", !caught && m == r)
	}
}

func mustOp(prop, name string, op func(d, o math.Decimal) (math.Decimal, error), m func(d, o math.Decimal) math.Decimal) {
	gv.Register(prop, name, func() {
		d, o := dec("d", gv.Any[uint]("scale 1")), dec("o", gv.Any[uint]("scale 2"))
		r, err := outcome()
		gv.ByContract(op, func(d0, o0 math.Decimal) (math.Decimal, error) {
			gv.Assert("the same operands", d0 == d && o0 == o)
			return r, err
		})
		must(r, err, func() math.Decimal { return m(d, o) })
	})
}

func init() {
	mustOp("C07", "MustAdd", math.Decimal.Add, math.Decimal.MustAdd)
	mustOp("C07", "MustSub", math.Decimal.Sub, math.Decimal.MustSub)
	mustOp("C08", "MustMul", math.Decimal.Mul, math.Decimal.MustMul)
	mustOp("C08", "MustDiv", math.Decimal.Div, math.Decimal.MustDiv)
	gv.Register("C05", "MustStringToDecimal", func() {
		s := gv.Any[string]("text")
		r, err := outcome()
		gv.ByContract(math.StringToDecimal, func(t string) (math.Decimal, error) {
			gv.Assert("the same text", s == t)
			return r, err
		})
		must(r, err, func() math.Decimal { return math.MustStringToDecimal(s) })
	})
	gv.Register("C05", "MustDecimal", func() {
		byNormalize()
		v, scale := gv.Any[int64]("value"), gv.Any[uint]("scale")
		keep := gv.Bool("normalized")
		var m math.Decimal
		_, caught := gv.Caught(func() { m = math.MustDecimal(v, scale, keep) })
		gv.Assert("panics exactly if there is an error", caught == !(scale <= 18 && -maxVal <= v && v <= maxVal))
		if !caught {
			gv.Assert("the number", valid(m) && equals(m, gv.ZI(v), scale) && m.Normalized() == keep)
		}
	})
}
