package cdec

import (
	"strconv"

	"github.com/bantling/micro/math"
	"vf/gv"
)

// ascii is an arbitrary text of n bytes.
func anyText(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = gv.Any[byte]("byte " + strconv.Itoa(i))
	}
	return string(b)
}

// parse reads a text: an optional minus sign, and 1 to 18 digits with an optional point before, in or after them;
// a lone zero before the point need not count.
func parse(s string) (ok bool, v int64, scale uint) {
	n := len(s)
	for neg := 0; neg <= 1 && neg <= n; neg++ {
		for point := neg; point <= n; point++ {
			// point == n: none
			digits := n - neg
			if point < n {
				digits--
			}
			good, val := true, int64(0)
			if digits == 19 && neg+1 == point && point < n {
				good = s[neg] == '0'
			} else if digits < 1 || digits > 18 {
				continue
			}
			if neg == 1 {
				good = gv.And(good, s[0] == '-')
			}
			for i := neg; i < n; i++ {
				if i == point {
					good = gv.And(good, s[i] == '.')
				} else {
					good = gv.And(good, gv.And('0' <= s[i], s[i] <= '9'))
					val = val*10 + int64(s[i]-'0')
				}
			}
			if neg == 1 {
				val = -val
			}
			ok = gv.Or(ok, good)
			v = gv.Ite(good, val, v)
			if point < n {
				scale = gv.Ite(good, uint(n-1-point), scale)
			} else {
				scale = gv.Ite(good, 0, scale)
			}
		}
	}
	return
}

func abs(v int64) int64 {
	if v < 0 {
		return -v
	}
	return v
}

func init() {
	normalize("C05")
	gv.Register("C05", "OfDecimal", func() {
		byNormalize()
		v, scale := gv.Any[int64]("value"), gv.Any[uint]("scale")
		keep := gv.Choice("normalized", 3)
		var d math.Decimal
		var err error
		switch keep {
		case 0:
			d, err = math.OfDecimal(v, scale)
		case 1:
			d, err = math.OfDecimal(v, scale, true)
		case 2:
			d, err = math.OfDecimal(v, scale, false)
		}
		gv.Assert("an error exactly if the scale exceeds 18 or the value 18 digits", (err == nil) == (scale <= 18 && -maxVal <= v && v <= maxVal))
		if err != nil {
			return
		}
		gv.Assert("valid", valid(d))
		gv.Assert("the number", equals(d, gv.ZI(v), scale))
		gv.Assert("normalized unless told otherwise", d.Normalized() == (keep != 2))
		if keep == 2 && v != 0 {
			gv.Assert("the scale as given", d.Scale() == scale)
		} else {
			gv.Assert("no zeros at the end of the decimals", d.Scale() == 0 || value(d)%10 != 0 && value(d) != 0)
		}
	})
	gv.Register("C05", "accessors", func() {
		scale := gv.Any[uint]("scale")
		gv.Assume(scale <= 18)
		d := dec("d", scale)
		v := value(d)
		switch {
		case v < 0:
			gv.Assert("sign of a negative number", d.Sign() == -1)
		case v == 0:
			gv.Assert("sign of zero", d.Sign() == 0)
		default:
			gv.Assert("sign of a positive number", d.Sign() == 1)
		}
		n := d.Negate()
		gv.Assert("negation", value(n) == -v && n.Scale() == scale && n.Normalized() == d.Normalized())
		one := at(one(), scale)
		gv.Assert("magnitude less than one", d.MagnitudeLessThanOne() == z(d).Abs().Lt(one))
	})
	for i := 0; i < 19; i++ {
		scale := uint(i)
		gv.Register("C05", "String_scale_"+strconv.Itoa(i), func() {
			d := dec("d", scale)
			s := d.String()
			first := 0
			if value(d) < 0 {
				first = 1
				gv.Assert("a minus sign if negative", s[0] == '-')
			}
			before := len(s) - first
			if scale > 0 {
				before -= 1 + int(scale)
				gv.Assert("a point before as many decimals as the scale", before > 0 && s[first+before] == '.')
			}
			gv.Assert("a digit before the point, which is a zero only if alone", before == 1 || before > 1 && s[first] != '0')
			good, v := true, gv.ZI(0)
			for i := first; i < len(s); i++ {
				if i != first+before {
					good = gv.And(good, gv.And('0' <= s[i], s[i] <= '9'))
					v = v.Mul(gv.ZI(10)).Add(gv.ZI(s[i] - '0'))
				}
			}
			gv.Assert("the digits of the number", good && v.Eq(z(d).Abs()))
			digits := before + int(scale)
			gv.Assert("the precision is the number of digits", d.Precision() == digits)
			r, err := math.StringToDecimal(s)
			gv.Assert("the text gives the number again", err == nil && value(r) == value(d) && r.Scale() == scale)
		})
	}
	for i := 0; i <= 21; i++ {
		gv.Register("C05", "StringToDecimal_"+strconv.Itoa(i)+"_bytes", func() {
			s := anyText(i)
			ok, v, scale := parse(s)
			d, err := math.StringToDecimal(s)
			gv.Assert("no error exactly for 1 to 18 digits with optional minus sign and point", (err == nil) == ok)
			if err == nil {
				gv.Assert("the number", value(d) == v && d.Scale() == scale && d.Normalized())
			}
		})
	}
	gv.Register("C05", "StringToDecimal_longer", func() {
		s := gv.Any[string]("text")
		gv.Assume(len(s) > 21)
		_, err := math.StringToDecimal(s)
		gv.Assert("a longer text is an error", err != nil)
	})
}

// one is the number 1.
func one() (d math.Decimal) {
	gv.Put(&d, int64(1))
	return
}
