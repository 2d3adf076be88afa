from seedlib import *
f='"github.com/bantling/micro/funcs"'
t='"github.com/bantling/micro/tuple"'
F='funcs/funcs.go'
SEEDS=[
dict(id='C10-a', property='C10', edits=[('conv/bigint.go','''	var inter big.Rat
	inter.SetFloat64(float64(ival))
''','''	// No need for a rational if an int64 is large enough
	if f := float64(ival); math.Abs(f) <= math.MaxInt64 && math.Trunc(f) == f {
		*oval = big.NewInt(int64(f))
		return nil
	}

	var inter big.Rat
	inter.SetFloat64(float64(ival))
''')],
  main=M(['"github.com/bantling/micro/conv"','"math/big"'], '''	var o *big.Int
	if err := conv.To(float64(1<<63), &o); err != nil || o.Sign() < 0 { fail("%v %v", o, err) }'''),
  needs='a float of exactly 2^63', breaks='the value becomes -2^63'),
dict(id='C12-a', property='C12', edits=[(F,'''	sort.Slice(slc, func(i, j int) bool { return cmplx.Abs(complex128(slc[i])) < cmplx.Abs(complex128(slc[j])) })
	return slc''','''	// Comparing the squares gives the same order, without a square root
	sq := func(c complex128) float64 { return real(c)*real(c) + imag(c)*imag(c) }
	sort.Slice(slc, func(i, j int) bool { return sq(complex128(slc[i])) < sq(complex128(slc[j])) })
	return slc''')],
  main=M([f], '''	s := funcs.SliceSortComplex([]complex128{2e200, 1e200})
	if s[0] != 1e200 { fail("%v", s) }'''),
  needs='two values with squares too large for a float', breaks='the slice is not sorted'),
dict(id='C12-b', property='C12', edits=[(F,'''			if t == val {
				newSlc := make([]T, 0, len(slc)-1)
				newSlc = append(append(newSlc, (slc)[0:i]...), (slc)[i+1:]...)
				return newSlc''','''			if t == val {
				return append(slc[:i], slc[i+1:]...)''')],
  main=M([f], '''	s := []int{1, 2, 3}
	r := funcs.SliceRemove(s, 1)
	if len(r) != 2 || s[0] != 1 || s[1] != 2 || s[2] != 3 { fail("%v %v", r, s) }'''),
  needs='the original slice is used after removing a value', breaks='the original slice is changed'),
dict(id='C13-a', property='C13', edits=[(F,'''	if *mp == nil {
		*mp = map[K]V{}
	}

	// Set value for key K
''','''	if len(*mp) == 0 {
		*mp = map[K]V{}
	}

	// Set value for key K
''')],
  main=M([f], '''	m := map[string]int{}
	n := m
	funcs.MapSet(&m, "a", 1)
	if n["a"] != 1 { fail("%v %v", m, n) }'''),
  needs='an existing empty map, which is referred to elsewhere', breaks='the value is set in another map'),
dict(id='C13-b', property='C13', edits=[(F,'''	sort.Slice(slc, func(i, j int) bool { return less(slc[i].T, slc[j].T) })
	return slc
''','''	sort.Slice(slc, func(i, j int) bool { return less(slc[i].T, slc[j].T) })
	return slices.CompactFunc(slc, func(a, b tuple.Two[K, V]) bool { return !less(a.T, b.T) && !less(b.T, a.T) })
'''),(F,'''	"sort"
''','''	"slices"
	"sort"
''')],
  main=M([f,'"strings"'], '''	r := funcs.MapSortBy(map[string]int{"a": 1, "A": 2, "b": 3}, func(x, y string) bool { return strings.ToLower(x) < strings.ToLower(y) })
	if len(r) != 3 { fail("%v", r) }'''),
  needs='an order that considers two different keys equal', breaks='one of the keys is missing'),
dict(id='C14-a', property='C14', edits=[(F,'''	for l != r {
		// m = ceil''','''	// Narrow a large range in steps
	for r-l >= 16 {
		if mp[l+8].T >= key {
			r = l + 8
		} else {
			l += 9
		}
	}
	for l != r {
		// m = ceil''')],
  main=M([f,t], '''	s := []tuple.Two[int, []int]{}
	for i := 0; i < 20; i++ { funcs.OrderedTuple2SliceAdd(&s, 2*i, i) }
	funcs.OrderedTuple2SliceAdd(&s, 17, 5)
	for i := 1; i < len(s); i++ { if s[i-1].T >= s[i].T { fail("%v", s) } }'''),
  needs='at least 17 keys, and a new key between the ninth and tenth', breaks='the new key is not in key order'),
dict(id='C14-b', property='C14', edits=[(F,'''		(*mp)[index] = tuple.Of2(key, SliceRemove((*mp)[index].U, value, all...))''','''		(*mp)[index] = tuple.Of2(key, SliceRemove((*mp)[index].U, value, len(all) > 0))'''),],
  main=M([f,t], '''	s := []tuple.Two[int, []string]{tuple.Of2(1, []string{"a", "b", "a"})}
	funcs.OrderedTuple2SliceRemoveValue(&s, 1, "a", false)
	if len(s[0].U) != 2 { fail("%v", s) }'''),
  needs='the optional argument is false', breaks='all occurrences are removed'),
dict(id='C15-a', property='C15', edits=[(F,'''			if result = nextFilter(t); !result {
				break
			}''','''			result = nextFilter(t) && result''')],
  main=M([f], '''	notNil := func(p *int) bool { return p != nil }
	positive := func(p *int) bool { return *p > 0 }
	defer func() { if recover() != nil { fail("panic") } }()
	if funcs.And(notNil, positive)(nil) { fail("true") }'''),
  needs='a filter that may only be called if the one before is true', breaks='all filters are called'),
dict(id='C15-b', property='C15', edits=[(F,'''	return func() T {
		if !isCached {
			isCached, cachedVal = true, supplier()
		}
''','''	return func() T {
		if !isCached {
			cachedVal = supplier()
			isCached = !IsNilValue(cachedVal) && !reflect.ValueOf(cachedVal).IsZero()
		}
''')],
  main=M([f], '''	n := 0
	s := funcs.SupplierCached(func() int { n++; return 0 })
	s(); s()
	if n != 1 { fail("%d", n) }'''),
  needs='a supplier of a zero value', breaks='the supplier is called again'),
dict(id='C15-c', property='C15', edits=[(F,'''		return t >= 0
''','''		return !(t < 0)
''')],
  main=M([f,'"math"'], '''	if funcs.IsNonNegative[float64]()(math.NaN()) { fail("NaN") }'''),
  needs='NaN', breaks='NaN is taken to be not negative'),
dict(id='C16-a', property='C16', edits=[(F,'''	// Defer all closers in provided order, so they get called in reverse order as expected
	for _, closerFn := range closers {
		defer closerFn()
	}
''','''	// Defer all closers in provided order, so they get called in reverse order as expected
	defer func() {
		for i := len(closers) - 1; i >= 0; i-- {
			closers[i]()
		}
	}()
''')],
  main=M([f], '''	var log string
	funcs.TryTo(func() {}, func(any) { log += "p" }, func() { log += "1" }, func() { log += "2"; panic("x") })
	if log != "21p" { fail(log) }'''),
  needs='a closer that panics, with another closer before it', breaks='the closers before it are not called'),
dict(id='C16-b', property='C16', edits=[(F,'''			err = fmt.Errorf(convertToSliceElemMsg, msg, i, zvElem, v)
			return
''','''			// nil is the zero value
			if v == nil {
				continue
			}
			err = fmt.Errorf(convertToSliceElemMsg, msg, i, zvElem, v)
			return
''')],
  main=M([f], '''	r, err := funcs.ConvertToSlice[int]("x", []any{1, nil})
	if err == nil || r != nil { fail("%v %v", r, err) }'''),
  needs='a nil element', breaks='a nil element becomes a zero value'),
]
