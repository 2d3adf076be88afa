from seedlib import *
S='stream/stream.go'
I='"github.com/bantling/micro/iter"'
m='"github.com/bantling/micro/stream"'
B='"math/big"'
E='"errors"'
SEEDS=[
dict(id='C23-a', property='C23', edits=[(S,'''			count := vals[val]
			if count < 3 {
				count++
				vals[val] = count
			}

			return count == 2
''','''			// Count is two bits, to be as small as possible
			count := (vals[val] + 1) & 3
			vals[val] = count

			return count == 2
''')],
  main=M([I,m], '''	it := stream.Duplicate(iter.Of(1, 1, 1, 1, 1, 1))
	n := 0
	for { if _, err := it.Next(); err != nil { break }; n++ }
	if n != 1 { fail("%d", n) }'''),
  needs='a value that occurs six times', breaks='a duplicate is given twice'),
dict(id='C23-c', property='C23', edits=[(S,'''		if currentIter != it {
			currentIter = it
			fn = gen()
		}
''','''		if fn == nil || currentIter != it {
			fn = gen()
			if currentIter == nil {
				currentIter = it
			}
		}
''')],
  main=M([I,m], '''	n := 0
	f := stream.Generator(func() func(iter.Iter[int]) iter.Iter[int] { n++; return stream.Map(func(v int) int { return v }) })
	a, b := iter.Of(1), iter.Of(2)
	f(a); f(b); f(b)
	if n != 2 { fail("%d", n) }'''),
  needs='a second source used twice in a row', breaks='the state starts afresh for the same source'),
dict(id='C24-b', property='C24', edits=[(S,'''	// Sort elements
	funcs.SliceSortCmp(slc)
''','''	// Sort elements, unless already sorted
	for i := 2; i < len(slc); i++ {
		if slc[i-1].Cmp(slc[i]) > 0 {
			funcs.SliceSortCmp(slc)
			break
		}
	}
	if (len(slc) == 2) && (slc[0].Cmp(slc[1]) > 0) {
		slc[0], slc[1] = slc[1], slc[0]
	}
''')],
  main=M([I,m,B], '''	it := stream.SortCmp(iter.Of(big.NewInt(5), big.NewInt(1), big.NewInt(7)))
	v, _ := it.Next()
	if v.Int64() != 1 { fail("%v", v) }'''),
  needs='three or more values of which only the first two are out of order', breaks='the values are not sorted'),
dict(id='C24-c', property='C24', edits=[(S,'''					// A problem
					var zv T
					for i := range slc {
						slc[i] = zv
					}
					return slc, err
''','''					// A problem
					var zv T
					for ; i < len(slc); i++ {
						slc[i] = zv
					}
					return slc, err
''')],
  main=M([I,m,E], '''	bad := errors.New("bad")
	t := []int{1, 2, 3}
	n := 0
	stream.ReduceIntoSlice(t)(iter.OfIter(func() (int, error) { n++; if n == 3 { return 0, bad }; return n, nil })).Next()
	if t[0] != 0 || t[1] != 0 || t[2] != 0 { fail("%v", t) }'''),
  needs='an error before the slice given is full', breaks='the slice given still has old values after an error'),
dict(id='C24-d', property='C24', edits=[(S,'''			return funcs.Ternary(a.Cmp(b) > 0, a, b)
''','''			return funcs.Ternary(a.Cmp(b) == 1, a, b)
''')],
  main=M([I,m], '''	v, _ := stream.MaxCmp(iter.Of(T(9), T(3))).Next()
	if v != 9 { fail("%v", v) }''', '''type T int
func (t T) Cmp(o T) int { return int(t - o) }'''),
  needs='a type whose comparison gives more than 1', breaks='the largest value is not found'),
dict(id='C26-a', property='C26', edits=[(S,'''			// Decrement number of threads remaining once transforms are complete
			defer wg.Done()
''',''),(S,'''			// In case an error occurs, populate the appropriate errs slot
			errs[threadNum] = threadErr
''','''			// Decrement number of threads remaining
			wg.Done()

			// In case an error occurs, populate the appropriate errs slot
			if threadErr != nil {
				errs[threadNum] = threadErr
			}
''')],
  main=M([I,m,E], '''	bad := errors.New("bad")
	f := stream.Parallel(stream.MapError(func(v int) (int, error) { return 0, bad }), stream.PInfo{N: 4, PUnit: stream.Threads})
	for i := 0; i < 1000; i++ {
		f(iter.Of(1, 2, 3, 4, 5, 6, 7)).Next()
	}'''), race=True,
  needs='a thread with an error is interrupted between signalling its end and storing the error', breaks='the error can be lost'),
dict(id='C26-b', property='C26', edits=[(S,'''			errs = make([]error, len(sliceRanges))
		)
''','''			errs = make([]error, len(sliceRanges))

			threadErr error
		)
'''),(S,'''			_, threadErr := ReduceIntoSlice(out)''','''			_, threadErr = ReduceIntoSlice(out)''')],
  main=M([I,m], '''	f := stream.Parallel(stream.Map(func(v int) string { return "x" }), stream.PInfo{N: 4, PUnit: stream.Threads})
	for i := 0; i < 1000; i++ {
		f(iter.Of(1, 2, 3, 4, 5, 6, 7)).Next()
	}'''), race=True,
  needs='two threads that finish at the same time, one with an error', breaks='threads write the same variable: an error can be lost'),
dict(id='C26-d', property='C26', edits=[(S,'''		for _, e := range errs {
			if e != nil {
				err = e
				break
			}
		}
''','''		for _, e := range errs {
			if e != nil {
				err = e
			}
		}
''')],
  main=M([I,m,E], '''	f := stream.Parallel(stream.MapError(func(v int) (int, error) { if v > 0 { return 0, errs[v] }; return v, nil }), stream.PInfo{N: 4, PUnit: stream.Threads})
	_, err := f(iter.Of(0, 1, 2, 0)).Next()
	if err != errs[1] { fail("%v", err) }''', '''var errs = []error{nil, errors.New("1"), errors.New("2")}'''),
  needs='errors for values in different threads', breaks='the error is not that of the first value'),
dict(id='C25-a', property='C25', edits=[(S,'''					var de, q int64
					conv.To(sum, &de)
					math.Div(de, count, &q)
					conv.To(q, &avg)
''','''					math.Div(sum, T(count), &avg)
''')],
  main=M([I,m], '''	s := make([]int8, 130)
	for i := 0; i < 100; i++ { s[i] = 1 }
	if v, err := stream.AvgInt(iter.Of(s...)).Next(); v != 1 || err != nil { fail("%v %v", v, err) }'''),
  needs='more values than the type can count', breaks='the sum is divided by a negative count'),
dict(id='C25-b', property='C25', edits=[(S,'''					var de, q uint64
					conv.To(sum, &de)
					math.Div(de, count, &q)
					conv.To(q, &avg)
''','''					avg = sum / T(count)
					if r := sum % T(count); r+r >= T(count) && r > 0 {
						avg++
					}
''')],
  main=M([I,m], '''	v, err := stream.AvgUint(iter.Of(make([]uint8, 257)...)).Next()
	if v != 0 || err != nil { fail("%v %v", v, err) }
	s := append(make([]uint8, 150), 60, 60, 60)
	s = append(s, make([]uint8, 47)...)
	if v, err = stream.AvgUint(iter.Of(s...)).Next(); v != 1 || err != nil { fail("%v %v", v, err) }'''),
  needs='more values than the type can count (zeros), or a remainder of half the range of the type', breaks='division by zero, or a wrong rounding'),
dict(id='C25-c', property='C25', edits=[(S,'''	var sum T
	conv.ToBigOps(0, &sum)

	return Reduce(
		func(a, b T) T {
			return sum.Add(a, b)
		},
	)(it)
''','''	return Reduce(
		func(a, b T) T {
			// Add to the first value, no memory needs to be allocated
			return a.Add(a, b)
		},
	)(it)
''')],
  main=M([I,m,B], '''	a, b := big.NewInt(1), big.NewInt(2)
	stream.SumBigOps(iter.Of(a, b)).Next()
	if a.Int64() != 1 { fail("%v", a) }'''),
  needs='the first value looked at after summing', breaks='the first value of the source is changed'),
]
