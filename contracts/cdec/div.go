package cdec

import (
	"github.com/bantling/micro/math"
	"vf/gv"
)

// times10 is v times 10^k.
func times10(v gv.Z) func(k int) gv.Z {
	var ps []gv.Z
	for k := 0; k <= 36; k++ {
		ps = append(ps, v.Mul(pow10(k)))
	}
	return func(k int) gv.Z { return ps[k] }
}

func div(dneg, oneg bool) {
	gv.OpaqueProducts()
	s1, s2 := gv.Any[uint]("scale of d"), gv.Any[uint]("scale of o")
	gv.Assume(s1 <= 18 && s2 <= 18)
	d, o := signed("d", s1, dneg), signed("o", s2, oneg)
	diff := int(s1) - int(s2)
	dv, ov := z(d).Abs(), z(o).Abs()
	zero, two := gv.ZI(0), gv.ZI(2)
	num := times10(dv)
	// the digits so far, and the remainder
	gv.Inv(func(q, r int64, s int) bool {
		return diff <= s && s <= 18 && gv.ZI(q).Mul(ov).Add(gv.ZI(r)).Eq(num(s-diff))
	})
	gv.Inv(func(q int64) bool { return 0 <= q && q <= maxVal })
	gv.Inv(func(r int64) bool { return 0 <= r && gv.ZI(r).Lt(ov) })
	r, err := d.Div(o)
	if value(o) == 0 {
		gv.Assert("an error if the divisor is zero", err != nil)
		return
	}
	if err != nil {
		gv.Assert("an error only if the quotient has more than 18 integer digits or the divisor has 18 digits",
			diff <= 0 && gv.ZS("1999999999999999999").Mul(ov).Le(two.Mul(num(-diff))) || pow10(17).Lt(ov))
		return
	}
	gv.Assert("valid", valid(r))
	gv.Assert("normalization is that of the dividend", r.Normalized() == d.Normalized())
	gv.Assert("at least as many decimals as the operands give", int(r.Scale()) >= diff)
	q := z(r)
	gv.Assert("sign", gv.Implies(zero.Lt(q), dneg == oneg) && gv.Implies(q.Lt(zero), dneg != oneg))
	q = q.Abs()
	gv.ProductAt(q, ov, pow10(17))
	t, n := two.Mul(q.Mul(ov)), two.Mul(num(int(r.Scale())-diff))
	gv.Assert("the quotient rounded half away from zero", t.Le(n.Add(ov)) && n.Lt(t.Add(ov)))
	gv.Assert("exact, or as many digits as fit", r.Scale() == 18 || pow10(17).Le(q) || t.Eq(n))
}

func init() {
	for i, n := range []string{"++", "+-", "-+", "--"} {
		gv.Register("C08", "Div"+n, func() { div(i/2 == 1, i%2 == 1) })
	}
	var _ math.Decimal
}
