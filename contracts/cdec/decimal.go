// Package cdec has the contracts of decimals in package math.
package cdec

import (
	"strconv"
	"strings"

	"github.com/bantling/micro/math"
	"vf/gv"
)

const maxVal = 999_999_999_999_999_999

func pow10(k int) gv.Z { return gv.ZS("1" + strings.Repeat("0", k)) }

// dec is an arbitrary decimal of the scale: up to 18 digits, normalized or not.
func dec(name string, scale uint) math.Decimal {
	var d math.Decimal
	v := gv.Any[int64](name)
	gv.Assume(-maxVal <= v && v <= maxVal)
	gv.Put(&d, v)
	gv.Put(&d, scale)
	gv.Put(&d, gv.Bool(name+" denormalized"))
	return d
}

// signed is an arbitrary decimal of the scale and sign.
func signed(name string, scale uint, neg bool) math.Decimal {
	var d math.Decimal
	m := gv.Any[uint64](name)
	gv.Assume(m <= maxVal)
	v := int64(m)
	if neg {
		gv.Assume(m < maxVal)
		v = -1 - int64(m)
	}
	gv.Put(&d, v)
	gv.Put(&d, scale)
	gv.Put(&d, gv.Bool(name+" denormalized"))
	return d
}

func value(d math.Decimal) int64 { return gv.Get[int64](d) }
func z(d math.Decimal) gv.Z      { return gv.ZI(value(d)) }

func valid(d math.Decimal) bool {
	return -maxVal <= value(d) && value(d) <= maxVal && d.Scale() <= 18
}

func within(v gv.Z) bool { return v.Abs().Le(gv.ZI(maxVal)) }

// rounded: h is v / p rounded half away from zero.
func rounded(v, h, p gv.Z) bool {
	two := gv.ZI(2)
	d := two.Mul(p).Mul(h.Abs())
	t := two.Mul(v.Abs()).Add(p)
	zero := gv.ZI(0)
	return d.Le(t) && t.Lt(d.Add(two.Mul(p))) && (zero.Le(v) && zero.Le(h) || v.Le(zero) && h.Le(zero))
}

// at is the value of d in units of the scale, which is not less than that of d.
func at(d math.Decimal, scale uint) gv.Z {
	v := z(d)
	for k := 1; k <= 18; k++ {
		v = gv.Ite(d.Scale()+uint(k) == scale, z(d).Mul(pow10(k)), v)
	}
	return v
}

// equals: d is v units of the scale, in that scale or a smaller one.
func equals(d math.Decimal, v gv.Z, scale uint) bool {
	return d.Scale() <= scale && at(d, scale).Eq(v)
}

// two are arbitrary decimals with arbitrary scales, the difference of which is case by case.
func two(from, to int) (d1, d2 math.Decimal, diff int) {
	d := gv.Choice("difference of scales", to-from) + from
	s := gv.Any[uint]("smaller scale")
	if d < 0 {
		gv.Assume(s <= uint(18+d))
		return dec("d1", s), dec("d2", s+uint(-d)), d
	}
	gv.Assume(s <= uint(18-d))
	return dec("d1", s+uint(d)), dec("d2", s), d
}

// normalOf: d is o normalized.
func normalOf(o, d math.Decimal) bool {
	return d.Normalized() == o.Normalized() && valid(d) && equals(d, z(o), o.Scale()) &&
		(value(d) != 0 && value(d)%10 != 0 || d.Scale() == 0)
}

// normalize proves the contract of Normalize.
func normalize(prop string) {
	gv.Register(prop, "Normalize", func() {
		scale := gv.Choice("scale", 19)
		d := dec("d", uint(scale))
		o := d
		d.Normalize()
		gv.Assert("the same number without zeros at the end of the decimals", normalOf(o, d))
	})
}

// byNormalize: calls of Normalize are checked against its contract.
func byNormalize() {
	gv.ByContract((*math.Decimal).Normalize, func(d *math.Decimal) {
		o := *d
		gv.Assert("requires a valid decimal", valid(o))
		n := dec("normalized", gv.Any[uint]("normalized scale"))
		gv.Assume(normalOf(o, n))
		*d = n
	})
}

func init() {
	normalize("C07")
	gv.Register("C07", "AdjustDecimalScale", func() {
		d1, d2, diff := two(-18, 19)
		o1, o2 := d1, d2
		err := math.AdjustDecimalScale(&d1, &d2)
		hi, lo, ohi, olo := d1, d2, o1, o2
		if diff < 0 {
			hi, lo, ohi, olo, diff = d2, d1, o2, o1, -diff
		}
		if err != nil {
			gv.Assert("unchanged if there is an error", d1 == o1 && d2 == o2)
			gv.Assert("an error only if decimals have to be rounded and the other number is large",
				!within(z(olo).Mul(pow10(diff))) && gv.ZI(maxVal-5).Lt(z(olo).Abs()))
			return
		}
		gv.Assert("valid", valid(d1) && valid(d2))
		gv.Assert("normalization is as before", d1.Normalized() == o1.Normalized() && d2.Normalized() == o2.Normalized())
		gv.Assert("same scale", d1.Scale() == d2.Scale())
		if within(z(olo).Mul(pow10(diff))) {
			gv.Assert("the larger scale if it fits", hi == ohi && z(lo).Eq(z(olo).Mul(pow10(diff))))
		} else {
			gv.Assert("otherwise the smaller scale", lo == olo && rounded(z(ohi), z(hi), pow10(diff)))
		}
	})
	const step = 9
	for i := 0; i < 10; i++ {
		op, part, from := []string{"Add", "Sub"}[i/5], i%5+1, i%5*step-18
		gv.Register("C07", op+"_"+strconv.Itoa(part), func() {
			byNormalize()
			d1, d2, diff := two(from, min(from+step, 19))
			v1, v2 := z(d1), z(d2)
			var r math.Decimal
			var err error
			if op == "Add" {
				r, err = d1.Add(d2)
			} else {
				r, err = d1.Sub(d2)
				v2 = v2.Neg()
			}
			hi, lo, m, l := v1, v2, d1.Scale(), d2.Scale()
			if diff < 0 {
				hi, lo, m, l, diff = v2, v1, l, m, -diff
			}
			if err == nil {
				gv.Assert("valid", valid(r))
			}
			if p := pow10(diff); within(lo.Mul(p)) {
				sum := hi.Add(lo.Mul(p))
				gv.Assert("an error exactly if the result does not fit", (err != nil) == !within(sum))
				if err == nil {
					gv.Assert("exact", equals(r, sum, m))
				}
			} else if err == nil {
				gv.Assert("decimals are rounded if they do not fit", r.Scale() <= l && rounded(hi, at(r, l).Sub(lo), p))
			} else {
				limit := gv.ZI(maxVal - 5)
				sum := p.Mul(lo).Add(hi) // of the smaller scale, times p
				gv.Assert("an error only if the operand or the result does not fit", limit.Lt(lo.Abs()) || p.Mul(gv.ZI(maxVal)).Lt(sum.Abs()))
			}
		})
	}
}
