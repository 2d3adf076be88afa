package cdec

import (
	"errors"
	"strconv"

	"github.com/bantling/micro/math"
	"vf/gv"
)

// allowed: o is not zero, and not more than the integer part of d.
func allowed(d math.Decimal, scale int, o uint) bool {
	return o != 0 && gv.ZI(o).Mul(pow10(scale)).Le(z(d).Abs())
}

// quoRem: q and r, which is rv in units of the scale of d, are quotient and remainder of d and o.
func quoRem(d math.Decimal, o uint, q, r math.Decimal, scale uint, rv gv.Z) bool {
	zero := gv.ZI(0)
	return o != 0 && gv.ZI(o).Le(z(d).Abs()) && valid(q) && valid(r) &&
		q.Scale() == scale && r.Scale() <= scale && at(r, scale).Eq(rv) &&
		q.Normalized() == d.Normalized() && r.Normalized() == d.Normalized() &&
		z(q).Mul(gv.ZI(o)).Add(rv).Eq(z(d)) && rv.Abs().Lt(gv.ZI(o)) &&
		gv.Ite(value(d) < 0, rv.Le(zero), zero.Le(rv))
}

// parts: the values before i are right, for a counter i of type T.
func parts[T int | int64](part func(math.Decimal, int64) bool) {
	gv.Inv(func(ps []math.Decimal, i T) bool {
		return gv.Forall(0, int(i), func(j int) bool { return part(ps[j], int64(j)) })
	})
}

// left: n is what is left to add to the values from i.
func left[T int | int64](extra, inc int64) {
	gv.Inv(func(n int64, i T) bool {
		return n == gv.Ite(int64(i) < extra, gv.Ite(inc < 0, int64(i)-extra, extra-int64(i)), 0)
	})
}

func init() {
	for i, sign := range []string{"+", "-"} {
		neg := i == 1
		const step = 7
		for i := 0; i < 19; i += step {
			name := strconv.Itoa(i/step+1) + sign
			gv.Register("C08", "DivIntQuoRem_"+name, func() {
				gv.OpaqueProducts()
				byNormalize()
				scale := gv.Choice("scale", min(step, 19-i)) + i
				d, o := signed("d", uint(scale), neg), gv.Any[uint]("o")
				q, r, err := d.DivIntQuoRem(o)
				gv.Assert("an error exactly if the divisor is zero or exceeds the integer part", (err == nil) == allowed(d, scale, o))
				if err != nil {
					return
				}
				gv.Assert("quotient and remainder", quoRem(d, o, q, r, uint(scale), at(r, uint(scale))))
			})
		}
		gv.Register("C08", "DivIntAdd"+sign, func() {
			gv.OpaqueProducts()
			scale := gv.Any[uint]("scale")
			gv.Assume(scale <= 18)
			d, o := signed("d", scale, neg), gv.Any[uint]("o")
			gv.Assume(o <= 1<<40) // the values fit in memory
			inc := int64(1)
			if neg {
				inc = -1
			}
			q, r, bad := dec("quotient", scale), dec("remainder", gv.Any[uint]("scale of remainder")), gv.Bool("error")
			extra := gv.Any[int64]("extra")
			gv.ByContract(math.Decimal.DivIntQuoRem, func(d0 math.Decimal, o0 uint) (math.Decimal, math.Decimal, error) {
				gv.Assert("the quotient that is needed", d0 == d && o0 == o)
				if bad {
					return math.Decimal{}, math.Decimal{}, errors.New("not allowed")
				}
				gv.Assume(quoRem(d, o, q, r, scale, gv.ZI(extra)))
				return q, r, nil
			})
			part := func(p math.Decimal, i int64) bool {
				return p.Scale() == scale && value(p) == value(q)+gv.Ite(i < inc*extra, inc, 0) && p.Normalized() == d.Normalized()
			}
			parts[int64](part)
			parts[int](part)
			left[int64](inc*extra, inc)
			left[int](inc*extra, inc)
			ps, err := d.DivIntAdd(o)
			gv.Assert("an error exactly if the divisor is zero or exceeds the integer part", (err != nil) == bad)
			if err != nil {
				return
			}
			gv.Assert("as many values as the divisor", uint(len(ps)) == o)
			gv.Assert("the dividend is the quotient that often, and a unit for each of the first few values",
				0 <= inc*extra && inc*extra < int64(o) && z(q).Mul(gv.ZI(o)).Add(gv.ZI(extra)).Eq(z(d)))
			gv.Assert("the values are the quotient, the first few larger by a unit",
				gv.Forall(0, len(ps), func(j int) bool { return part(ps[j], int64(j)) }))
		})
	}
}
