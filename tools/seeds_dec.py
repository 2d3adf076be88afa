from seedlib import *
D='math/decimal.go'
m='"github.com/bantling/micro/math"'
SEEDS=[
dict(id='C05-a', property='C05', edits=[(D,'''	case numSig <= d.scale:
		str = "0." + strings.Repeat("0", int(d.scale-numSig)) + str
''','''	case numSig < d.scale:
		str = "0." + strings.Repeat("0", int(d.scale-numSig)) + str

	// Exactly as many digits as decimals. The maximum number of digits leaves no room for the zero.
	case numSig == d.scale:
		str = funcs.Ternary(numSig < decimalMaxScale, "0.", ".") + str
''')],
  main=M([m], '''	d := math.MustDecimal(123_456_789_012_345_678, 18)
	if s := d.String(); s != "0.123456789012345678" { fail("%v", s) }'''),
  needs='a value of exactly 18 digits that are all decimals', breaks='the text has no zero before the point'),
dict(id='C05-b', property='C05', edits=[(D,'''		for q, r := v/10, v%10; (s > 0) && (r == 0); q, r = q/10, q%10 {
			v = q
			s--
		}
''','''		for q, r := v/10, v%10; (s > 0) && (r == 0); q, r = v/10, v%10 {
			v = q
			s--

			// Drop zeros in larger steps if there are many
			if (s >= 8) && (v%10_000_000 == 0) {
				v /= 100_000_000
				s -= 8
			}
		}
''')],
  main=M([m], '''	d := math.MustDecimal(12_300_000_000, 12)
	if s := d.String(); s != "0.0123" { fail("%v", s) }'''),
  needs='a normalized decimal with 8 trailing zeros and at least 9 decimals', breaks='a significant digit is dropped'),
dict(id='C05-c', property='C05', edits=[(D,'''	if (parts != nil) && (parts[2] == "0") && (len(parts[3]) > 0) {
		parts[2] = ""
	}
''','''	if (parts != nil) && (parts[2] == "0") && (len(parts[3]) > 0) {
		parts[2] = ""
	}

	// Likewise for trailing decimal zeros of a number that has too many digits otherwise
	if (parts != nil) && (len(parts[2])+len(parts[3]) > decimalMaxScale) {
		parts[3] = strings.TrimRight(parts[3], "0")
	}
''')],
  main=M([m], '''	if d, err := math.StringToDecimal("12345678901234567.80"); err == nil { fail("%v", d) }'''),
  needs='a text of more than 18 digits that ends in zeros after the point', breaks='the text is accepted'),
dict(id='C05-d', property='C05', edits=[(D,"""func OfDecimal(value int64, scale uint, normalized ...bool) (d Decimal, err error) {
	if scale > decimalMaxScale {""","""func OfDecimal(value int64, scale uint, normalized ...bool) (d Decimal, err error) {
	// Excess trailing zeros do not matter
	for (scale > decimalMaxScale) && (value%10 == 0) && (value != 0) {
		value /= 10
		scale--
	}

	if scale > decimalMaxScale {""")],
  main=M([m], """	if d, err := math.OfDecimal(10, 19); err == nil { fail("%v", d) }"""),
  needs='more than 18 decimals with a value that ends in enough zeros', breaks='the decimal is constructed without an error'),
dict(id='C06-a', property='C06', edits=[(D,"""	// Compare the two
	compare := CmpOrdered(da, oa)
""","""	// Compare the two, texts of equal length are compared character by character (sign, point and digits)
	compare := CmpOrdered(da[0], oa[0])
	for i := 1; (compare == 0) && (i < len(da)) && (i < decimalMaxScale+2); i++ {
		compare = CmpOrdered(da[i], oa[i])
	}
""")],
  main=M([m], """	a, b := math.MustDecimal(123_456_789_012_345_678, 18), math.MustDecimal(123_456_789_012_345_679, 18)
	if a.Cmp(b) != -1 { fail("%d", a.Cmp(b)) }"""),
  needs='numbers that differ only in the 18th decimal', breaks='the numbers compare equal'),
dict(id='C06-b', property='C06', edits=[(D,"""		tz1 = strings.Repeat("0", mf-lf1)
		tz2 = strings.Repeat("0", mf-lf2)
""","""		tz1 = zeros[:MinOrdered(mf-lf1, len(zeros))]
		tz2 = zeros[:MinOrdered(mf-lf2, len(zeros))]
"""),(D,"""	// Powers of 10 constants""","""	// Zeros to align decimals with
	zeros = "0000000000000000"

	// Powers of 10 constants""")],
  main=M([m], """	a, b := math.MustDecimal(5, 1), math.MustDecimal(500_000_000_000_000_000, 18, false)
	if a.Cmp(b) != 0 || b.Cmp(a) != 0 { fail("%d", a.Cmp(b)) }"""),
  needs='equal numbers, one with a single decimal and one with 18 decimals', breaks='the numbers do not compare equal'),
dict(id='C06-c', property='C06', edits=[(D,"""	// Simplest way is to compare adjusted format strings with plain old string comparison
""","""	// No need for strings if the numbers can be given the same scale
	if a, b := d, o; AdjustDecimalScale(&a, &b) == nil {
		return CmpOrdered(a.value, b.value)
	}

	// Simplest way is to compare adjusted format strings with plain old string comparison
""")],
  main=M([m], """	a, b := math.MustDecimal(100_000_000_000_000_000, 0), math.MustDecimal(999_999_999_999_999_999, 1)
	if a.Cmp(b) != 1 || b.Cmp(a) != -1 { fail("%d", a.Cmp(b)) }"""),
  needs='a number of 18 digits, and one with more decimals that rounds to it', breaks='the numbers compare equal'),
dict(id='C07-a', property='C07', edits=[(D,"""		if rmdr >= power10/2 {
			d1.value++
		} else if rmdr <= -power10/2 {
			d1.value--
		}
""","""		if half := power10 / 2; rmdr >= half {
			d1.value++
		} else if rmdr < -half {
			d1.value--
		}
""")],
  main=M([m], """	a, b := math.MustDecimal(100_000_000_000_000_000, 0), math.MustDecimal(-5, 1)
	if r := a.MustAdd(b); r.String() != "99999999999999999" { fail("%v", r) }"""),
  needs='an operand of 18 digits, and a negative one that is exactly half way', breaks='the negative operand is rounded toward zero'),
dict(id='C07-b', property='C07', edits=[(D,"""	if (d2.value >= -maxVal2) && (d2.value <= maxVal2) {""","""	if (d2.value != 0) && (uint(d2.Precision())+d1.scale-d2.scale <= decimalMaxScale) || (d2.value >= -maxVal2) && (d2.value <= maxVal2) && (d2.scale == 0) {""")],
  main=M([m], """	a, b := math.MustDecimal(5, 1), math.MustDecimal(1, 18)
	if r := a.MustAdd(b); r.String() != "0.500000000000000001" { fail("%v", r) }"""),
  needs='a number below one whose decimals only just fit together with those of the other', breaks='the other number is rounded off'),
dict(id='C07-c', property='C07', edits=[(D,"""		if rmdr >= power10/2 {
			d1.value++
		} else if rmdr <= -power10/2 {
			d1.value--
		}
""","""		if (rmdr >= power10/2) || (rmdr <= -power10/2) {
			d1.value += int64(d1.Sign())
		}
""")],
  main=M([m], """	a, b := math.MustDecimal(100_000_000_000_000_000, 0), math.MustDecimal(-5, 1)
	if r := a.MustAdd(b); r.String() != "99999999999999999" { fail("%v", r) }"""),
  needs='an operand of 18 digits, and one that rounds from below one to one', breaks='the other operand is rounded to zero'),
dict(id='C08-a', property='C08', edits=[(D,"""	if rval > decimalMaxValue {
		if rscale == 0 {""","""	if (rval > decimalMaxValue) && (rscale > 0) || (rval > decimalMaxValue+1) {
		if rscale == 0 {""")],
  main=M([m], """	a, b := math.MustDecimal(9_999_999_999, 1), math.MustDecimal(10_000_000_001, 1)
	if r, err := a.Mul(b); err == nil { fail("%v", r) }"""),
  needs='a product that only just exceeds 18 integer digits when rounded', breaks='a number of 19 digits is returned'),
dict(id='C08-b', property='C08', edits=[(D,"""		if q > decimalMaxValue/10 {
			if s < 0 {""","""		if q >= decimalMaxValue/10 {
			if s < 0 {""")],
  main=M([m], """	a, b := math.MustDecimal(999_999_999_999_999_995, 0), math.MustDecimal(10, 0)
	if r := a.MustDiv(b); r.String() != "99999999999999999.5" { fail("%v", r) }"""),
  needs='a quotient that starts with 17 nines', breaks='the quotient is rounded to 17 digits'),
dict(id='C08-c', property='C08', edits=[(D,"""	if uint64(o) > uint64(intPartOfD) {""","""	if int64(o) > intPartOfD {""")],
  main=M([m], """	d := math.MustDecimal(100, 0)
	if q, r, err := d.DivIntQuoRem(1 << 63); err == nil { fail("%v %v", q, r) }"""),
  needs='a divisor of 64 bits', breaks='no error, and a remainder for a divisor that is negative'),
dict(id='C08-d', property='C08', edits=[(D,"""		rc  = d.value - q.value*int64(o)
		inc = int64(d.Sign())
""","""		rc  = d.value - q.value*int64(o)
		inc = int64(q.Sign())
"""),(D,"""		q = Decimal{scale: d.scale, value: d.value / int64(o), denormalized: d.denormalized}
""","""		q = MustDecimal(d.value/int64(o), d.scale, !d.denormalized)
""")],
  main=M([m], """	d := math.MustDecimal(10_001, 2)
	if v := d.MustDivIntAdd(10); len(v) != 10 || v[0].String() != "10.01" || v[9].String() != "10.00" { fail("%v", v) }"""),
  needs='a normalized decimal whose quotient ends in zeros', breaks='the values do not add up to the dividend'),
]
