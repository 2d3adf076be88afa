package cdec

import (
	"strconv"

	"github.com/bantling/micro/math"
	"vf/gv"
)

// shaped is a decimal of the scale with the number of digits.
func shaped(name string, scale, digits int) math.Decimal {
	d := dec(name, uint(scale))
	lo := pow10(digits - 1)
	if digits == 1 {
		lo = gv.ZI(0)
	}
	gv.Assume(lo.Le(z(d).Abs()) && z(d).Abs().Lt(pow10(digits)))
	return d
}

var shapeDigits, shapeScales = []int{1, 2, 9, 17, 18}, []int{0, 1, 2, 9, 17, 18}

func init() {
	for _, n1 := range shapeDigits {
		for _, s1 := range shapeScales {
			gv.Register("C06", "Cmp_"+strconv.Itoa(n1)+"_digits_"+strconv.Itoa(s1)+"_decimals", func() {
				gv.Bounded("decimals of 1, 2, 9, 17 or 18 digits and 0, 1, 2, 9, 17 or 18 decimals")
				n2 := shapeDigits[gv.Choice("digits", len(shapeDigits))]
				s2 := shapeScales[gv.Choice("decimals", len(shapeScales))]
				d, o := shaped("d", s1, n1), shaped("o", s2, n2)
				v, w := z(d).Mul(pow10(18-s1)), z(o).Mul(pow10(18-s2))
				c := d.Cmp(o)
				gv.Assert("less, equal or greater as the numbers are",
					gv.Iff(c == -1, v.Lt(w)) && gv.Iff(c == 0, v.Eq(w)) && gv.Iff(c == 1, w.Lt(v)))
			})
		}
	}
}
