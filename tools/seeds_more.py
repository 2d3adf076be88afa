from seedlib import *
c='"github.com/bantling/micro/conv"'; f='"github.com/bantling/micro/funcs"'; it='"github.com/bantling/micro/iter"'
SEEDS=[
dict(id='C18-d', property='C18', edits=[('iter/gen.go','''		csvRdr.ReuseRecord = true
''','''		csvRdr.ReuseRecord = true
		csvRdr.FieldsPerRecord = -1
''')], main=M([it,'"strings"'], '''	i := iter.OfCSV(strings.NewReader("a,b\\n1,2,3\\n"))
	if _, err := i.Next(); err != nil { fail("%v", err) }
	if r, err := i.Next(); err == nil { fail("a record of the wrong length is provided: %v", r) }
'''), needs='a document with a record of another number of fields than the first', breaks='a malformed record is provided instead of an error'),
dict(id='C13-c', property='C13', edits=[('funcs/funcs.go','''				mp2[key2] = SliceRemoveUncomparable(slc, value, all...)
''','''				if mp2[key2] = SliceRemoveUncomparable(slc, value, all...); len(mp2[key2]) == 0 {
					// Do not keep empty slices around
					delete(mp, key1)
				}
''')], main=M([f], '''	v := func() {}
	m := map[int]map[int][]any{1: {2: {3}, 4: {5}}}
	funcs.Map2SliceRemoveUncomparable(m, 1, 2, any(3))
	if len(m) != 1 || len(m[1][4]) != 1 { fail("another key is gone: %v", m) }
	_ = v
'''), needs='a slice that becomes empty, in a map of a first key with other second keys', breaks='the other second keys of the first key are removed as well'),
dict(id='C16-c', property='C16', edits=[('funcs/funcs.go','''			err = fmt.Errorf(convertToSlice2D2Msg, msg, iD1, []any(nil), vD1)
''','''			// Provide what there is up to the slice that is wrong
			if iD1 > 0 {
				res = tgtD1[:iD1]
			}
			err = fmt.Errorf(convertToSlice2D2Msg, msg, iD1, []any(nil), vD1)
''')], main=M([f], '''	r, err := funcs.ConvertToSlice2[int]("m", []any{[]any{1}, 2})
	if err == nil || r != nil { fail("%v %v", r, err) }
'''), needs='a slice whose second or later element is not a slice', breaks='part of the result is provided together with the error'),
dict(id='C10-c', property='C10', edits=[('conv/float.go','''	var exact bool
	if *oval, exact = ival.Float32(); !exact {
''','''	// A float32 has the same bits as the float64 with fewer of them
	f64, exact := ival.Float64()
	if *oval = float32(f64); !exact {
''')], main=M([c,'"math/big"'], '''	var o float32
	if err := conv.BigRatToFloat32(big.NewRat(1<<24+1, 1), &o); err == nil { fail("2^24+1 is converted to %v without an error", o) }
	if err := conv.BigRatToFloat32(big.NewRat(1<<24, 1), &o); err != nil || o != 1<<24 { fail("2^24: %v %v", o, err) }
'''), needs='a ratio that a 64 bit float represents exactly and a 32 bit float does not', breaks='the value is rounded without an error'),
]
