package cdec

import (
	"strconv"

	"github.com/bantling/micro/math"
	"vf/gv"
)

// fits: v / p rounded half away from zero has at most 18 digits.
func fits(v, p gv.Z) bool {
	return gv.ZI(2).Mul(v.Abs()).Lt(gv.ZS("1999999999999999999").Mul(p))
}

func mul(from, to int) {
	byNormalize()
	gv.OpaqueProducts()
	scale := gv.Choice("sum of scales", to-from) + from
	s1 := gv.Any[uint]("scale 1")
	gv.Assume(s1 <= 18 && s1 <= uint(scale) && uint(scale)-s1 <= 18)
	d1, d2 := dec("d1", s1), dec("d2", uint(scale)-s1)
	p := z(d1).Mul(z(d2))
	r, err := d1.Mul(d2)
	for drop := max(0, scale-18); drop <= scale; drop++ {
		if fits(p, pow10(drop)) {
			gv.Assert("no error if the product rounded to an integer has 18 digits", err == nil)
			gv.Assert("valid", valid(r))
			gv.Assert("the product, rounded to as many decimals as fit",
				r.Scale() <= uint(scale-drop) && rounded(p, at(r, uint(scale-drop)), pow10(drop)))
			return
		}
	}
	gv.Assert("an error if the product does not fit", err != nil)
}

func init() {
	normalize("C08")
	const step = 3
	for i := 0; i < 37; i += step {
		gv.Register("C08", "Mul_"+strconv.Itoa(i/step+1), func() { mul(i, min(i+step, 37)) })
	}
	var _ math.Decimal
}
