from seedlib import *
c='"github.com/bantling/micro/conv"'
SEEDS=[
dict(id='C09-a', property='C09', file='conv/int.go', old='	if (uintSize >= intSize) && (ival > U(maxIntValue[intSize])) {', new='	// The value cannot have more bits than the positive range of the int type\n	if (uintSize >= intSize) && (bits.Len64(uint64(ival)) > max(intSize, 1)) {',
  edits=[('conv/int.go','	if (uintSize >= intSize) && (ival > U(maxIntValue[intSize])) {','	// Too large if the value has more bits than the int type can hold, or an equal number of bits when the sizes are equal\n	if (uintSize > intSize) && (ival>>(intSize-1) > 1) || (uintSize >= intSize) && (ival > U(maxIntValue[intSize])) && (uintSize == intSize || ival&U(maxIntValue[intSize]) != 0) {')],
  main=M([c], '''	var o int16 = 5
	if err := conv.To(uint32(1<<15), &o); err == nil || o != 5 { fail("2^15: %v %v", o, err) }
	if err := conv.To(uint32(1<<15-1), &o); err != nil || o != 1<<15-1 { fail("2^15-1: %v %v", o, err) }'''),
  needs='an unsigned value of exactly one more than the largest value of a smaller signed type', breaks='the value wraps around to the minimum value without an error'),
dict(id='C09-b', property='C09', file='conv/float.go', old='((ival64 != 0.0) && (math.Abs(ival64) < math.SmallestNonzeroFloat32))', new='((ival64 != 0.0) && (float32(ival64) == 0))',
  main=M([c, '"math"'], '''	o := float32(5)
	if err := conv.To(float64(math.SmallestNonzeroFloat32) * 0.75, &o); err == nil || o != 5 { fail("3/4 of the smallest value: %v %v", o, err) }
	if err := conv.To(float64(math.SmallestNonzeroFloat32), &o); err != nil || o != math.SmallestNonzeroFloat32 { fail("smallest value: %v %v", o, err) }'''),
  needs='a 64 bit float with a magnitude between half the smallest 32 bit float and the smallest 32 bit float', breaks='a value outside the range of a 32 bit float is converted without an error'),
dict(id='C10-a', property='C10', file='conv/bigfloat.go', old='	prec := uint(math.Max(53, math.Ceil(float64(len(UintToString(ival)))*log2Of10)))', new='	prec := uint(math.Max(53, float64(len(UintToString(ival)))*log2Of10))',
  main=M([c, '"math/big"'], '''	var o *big.Float
	if err := conv.To(uint64(1<<63+1), &o); err != nil { fail("2^63+1: %v", err) }
	if u, acc := o.Uint64(); u != 1<<63+1 || acc != big.Exact { fail("2^63+1 became %v", o.Text('f', 0)) }'''),
  needs='an odd unsigned 64 bit value of at least 2^63 that has 19 digits', breaks='the value is rounded'),
dict(id='C10-b', property='C10', file='conv/int.go', edits=[('conv/int.go','''	if !ival.IsInt64() {
''','''	// One bit is for the sign
	if ival.BitLen() > 63 {
''')],
  main=M([c, '"math/big"'], '''	i := new(big.Int).Lsh(big.NewInt(-1), 63)
	var o int64
	if err := conv.To(i, &o); err != nil || o != -1<<63 { fail("%v %v", o, err) }'''),
  needs='the minimum value of a signed 64 bit integer', breaks='a value that the target type has is rejected'),
dict(id='C11-a', property='C11', edits=[('conv/conv.go','*(u.(*string)) = UintToString(t.(uint))','*(u.(*string)) = IntToString(int(t.(uint)))')], main=M([c, '"math/big"'], '''	i := uint(1<<63)
	var s string
	var o *big.Int
	if err := conv.To(i, &s); err != nil { fail("%v", err) }
	if err := conv.To(s, &o); err != nil || o.Sign() < 0 || o.Uint64() != 1<<63 { fail("%v %v %v", s, o, err) }
'''), needs='an unsigned integer of at least 2^63', breaks='the text is that of a negative number'),
dict(id='C11-b', property='C11', edits=[('conv/bigfloat.go','''math.Max(53, math.Ceil(float64(len(ival))*log2Of10)))
		err ''','''math.Max(53, math.Ceil(float64(len(ival))*3.3)))
		err ''')], main=M([c, '"math/big"'], '''	var o *big.Float
	i := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 2000), big.NewInt(1))
	if err := conv.To(i.String(), &o); err != nil { fail("%v", err) }
	if b, _ := o.Int(nil); b.Cmp(i) != 0 { fail("%v became %v", i, b) }
'''), needs='the text of an integer of many digits', breaks='the converted value is rounded'),
]
