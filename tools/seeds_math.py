PRE='package main\n\nimport (\n\t"fmt"\n\t"os"\n\n%s)\n\nfunc fail(f string, a ...any) { fmt.Printf("FAIL "+f+"\\n", a...); os.Exit(1) }\n\n'
def M(imports, body): return PRE % ''.join('\t%s\n' % i for i in imports) + 'func main() {\n' + body + '\n}\n'
m='"github.com/bantling/micro/math"'
SEEDS=[
dict(id='C01-a', property='C01', file='math/math.go', old='	if *ae2 < ae2Orig {', new='	if *ae2 < ae2Orig && *ae2 < ae1-ae2Orig/2 {',
  main=M([m], '''	var b uint8 = 200
	if err := math.AddUint(uint8(200), &b); err != math.OverflowErr { fail("200+200: %v %v", b, err) }
	b = 255
	if err := math.AddUint(uint8(1), &b); err != math.OverflowErr { fail("1+255: %v %v", b, err) }
	b = 255
	if err := math.AddUint(uint8(130), &b); err != math.OverflowErr { fail("130+255: %v %v", b, err) }
	b = 250
	if err := math.AddUint(uint8(254), &b); err != math.OverflowErr { fail("254+250: %v %v", b, err) }'''),
  needs='an unsigned addition that wraps around to a sum that is not much smaller than the first operand', breaks='an overflowing unsigned addition is reported as exact'),
dict(id='C01-b', property='C01', file='math/math.go', old='	var mpBI, maBI *big.Int\n	conv.IntegerToBigInt(mp, &mpBI)', new='	// No need for big numbers if the product does not wrap around\n	if p := mp * *ma; (mp == 0) || (p/mp == *ma) {\n		*ma = p\n		return nil\n	}\n\n	var mpBI, maBI *big.Int\n	conv.IntegerToBigInt(mp, &mpBI)',
  main=M([m], '''	b := int32(-1 << 31)
	if err := math.Mul(int32(-1), &b); err != math.OverflowErr { fail("-1 * minimum: %v %v", b, err) }'''),
  needs='multiplying the minimum value of a signed type by -1, in that order', breaks='the product wraps around to the minimum value and no overflow is reported'),
dict(id='C02-a', property='C02', file='math/math.go', old='''	r, halfdv := de%dv, dv/2

	// If divisor is odd and r >= half divisor, or divisor is even and r > half divisor, adjust quotient by one to round
	if (((dv & 1) == 0) && (r >= halfdv)) || (((dv & 1) == 1) && (r > halfdv)) {
		*q++''', new='''	r := de % dv

	// If twice the remainder is at least the divisor, adjust quotient by one to round
	if r*2 >= dv {
		*q++''',
  main=M([m], '''	var q uint64
	if err := math.Div(uint64(1<<63+5), uint64(1<<63+9), &q); err != nil || q != 1 { fail("quotient %v %v", q, err) }
	if err := math.Div(uint64(9), uint64(4), &q); err != nil || q != 2 { fail("quotient %v %v", q, err) }'''),
  needs='an unsigned 64 bit divisor and a remainder that are both above 2^63', breaks='the doubled remainder wraps around and the quotient is not rounded up'),
dict(id='C02-b', property='C02', file='math/math.go', old='			qbr.Quo(debr, dvbr)', new='			// Multiply by the reciprocal\n			qbr.Inv(dvbr)\n			qbr.Mul(debr, qbr)',
  main=M([m, '"math/big"'], '''	a, b := big.NewRat(3, 4), big.NewRat(2, 5)
	q := a
	if err := math.DivBigOps(a, b, &q); err != nil || q.Cmp(big.NewRat(15, 8)) != 0 { fail("3/4 / 2/5 = %v %v", q, err) }'''),
  needs='the quotient of two rationals is stored in the dividend', breaks='the quotient is always one'),
dict(id='C03-a', property='C03', file='math/math.go', old='''	if val1 < val2 {
		res = -1
	} else if val1 > val2 {
		res = 1
	}

	return
}

// CmpComplex''', new='''	if val1 < val2 {
		res = -1
	} else if val1 != val2 {
		res = 1
	}

	return
}

// CmpComplex''',
  main=M([m, 'gomath "math"'], '''	nan := gomath.NaN()
	if r := math.CmpOrdered(nan, 1.0); r != 0 { fail("NaN, 1: %v", r) }
	if r := math.CmpOrdered(1.0, nan); r != 0 { fail("1, NaN: %v", r) }
	if r := math.CmpOrdered(2.0, 1.0); r != 1 { fail("2, 1: %v", r) }'''),
  needs='comparing with NaN', breaks='a value that is neither smaller nor larger compares as larger, so comparison is not antisymmetric'),
dict(id='C03-b', property='C03', file='math/math.go', old='	if val1.Cmp(val2) > 0 {\n		return val2', new='	if val1.Cmp(val2) == 1 {\n		return val2',
  main=M([m], '''	if r := math.MinCmp(num(5), num(3)); r != 3 { fail("min %v", r) }
	if r := math.MinCmp(num(4), num(3)); r != 3 { fail("min %v", r) }
	if r := math.MaxCmp(num(5), num(3)); r != 5 { fail("max %v", r) }''')+'''
type num int

// Cmp is the difference
func (n num) Cmp(o num) int { return int(n - o) }
''',
  needs='a user-supplied comparison that returns a positive number other than 1', breaks='the larger value is returned as the minimum'),
dict(id='C04-a', property='C04', file='math/range.go', old='''((r.minMode == Closed) && (val >= r.min))) &&
		(((r.maxMode == Open) && (val < r.max)) || ((r.maxMode == Closed) && (val <= r.max))) {''', new='''((r.minMode == Closed) && !(val < r.min))) &&
		(((r.maxMode == Open) && (val < r.max)) || ((r.maxMode == Closed) && !(val > r.max))) {''',
  main=M([m, 'gomath "math"'], '''	r := math.OfRange(1.0, math.Closed, 2.0, math.Closed, 1.5)
	if err := r.SetValue(gomath.NaN()); err == nil || r.GetValue() != 1.5 { fail("NaN accepted: %v %v", r.GetValue(), err) }
	if err := r.SetValue(2); err != nil || r.GetValue() != 2 { fail("2 rejected: %v", err) }'''),
  needs='assigning NaN to a float range closed at both ends', breaks='the range holds a value that satisfies neither bound'),
dict(id='C04-b', property='C04', file='math/range.go', old='''		r.val = val
		return nil
	}
''', new='''		r.val = val
		return nil
	}

	// The current value is the minimum until a valid value is assigned
	if (r.maxMode == Closed) && (r.val == r.max) {
		r.val = r.min
	}
''',
  main=M([m], '''	r := math.OfRange(1, math.Open, 9, math.Closed, 9)
	if err := r.SetValue(10); err == nil || r.GetValue() != 9 { fail("value %v after rejecting 10: %v", r.GetValue(), err) }
	r = math.OfRange(1, math.Open, 9, math.Closed, 8)
	if err := r.SetValue(10); err == nil || r.GetValue() != 8 { fail("value %v after rejecting 10: %v", r.GetValue(), err) }'''),
  needs='a rejected assignment while the current value is the closed maximum', breaks='a rejected assignment changes the value, possibly to an open bound'),
]
