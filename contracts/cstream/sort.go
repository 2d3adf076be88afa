package cstream

import (
	"math/cmplx"

	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/stream"
	"vf/gv"
)

type level int

func (a level) Cmp(b level) int {
	switch {
	case a < b:
		return -2
	case a > b:
		return 3
	}
	return 0
}

// sorted checks a stream that sorts: the values of the source in order, and then the end.
// The transform and the order come from with, which may assume what it needs of the values.
func sorted[T comparable](n string, with func(vals []T) (func(it iter.Iter[T]) iter.Iter[T], func(a, b T) bool)) {
	gv.Register("C24", n, func() {
		s := values[T]()
		problem := eoiOr(s)
		sort, less := with(s.vals)
		gv.Inv(func(a []T) bool {
			return len(a) <= len(s.vals) && gv.Forall(0, len(a), func(i int) bool { return a[i] == s.vals[i] })
		})
		gv.Inv(func(a, b []T, i int) bool {
			return len(a) == i && len(b) == len(s.vals) && gv.Forall(0, len(a), func(i int) bool { return i < len(b) && a[i] == b[i] })
		})
		it := sort(s.iter())
		var (
			r   []T
			err error
			v   T
		)
		for {
			if v, err = it.Next(); err != nil {
				break
			}
			r = append(r, v)
		}
		if problem {
			gv.Assert("the error of the source", err == s.end && len(r) == 0)
		} else {
			gv.Assert("the end", err == iter.EOI)
			gv.Assert("as many values", len(r) == len(s.vals))
			gv.Assert("in order", gv.Forall(0, len(r), func(i int) bool {
				return gv.Forall(0, len(r), func(j int) bool { return gv.Implies(i < j, !less(r[j], r[i])) })
			}))
			gv.Assert("the same values, each as often", gv.Permutation(s.vals, r))
		}
		for gv.More("more") {
			_, e := it.Next()
			gv.Assert("it stays at the end", e == err)
		}
	})
}

func init() {
	sorted("SortOrdered_int", func([]int) (func(it iter.Iter[int]) iter.Iter[int], func(a, b int) bool) {
		return stream.SortOrdered[int], func(a, b int) bool { return a < b }
	})
	sorted("SortOrdered_string", func([]string) (func(it iter.Iter[string]) iter.Iter[string], func(a, b string) bool) {
		return stream.SortOrdered[string], func(a, b string) bool { return a < b }
	})
	gv.Register("C24", "SortComplex", func() {
		gv.Bounded("at most 3 values")
		s := &source[complex128]{vals: make([]complex128, gv.Choice("values", 4))}
		for i := range s.vals {
			s.vals[i] = gv.Any[complex128]("v")
			gv.Assume(real(s.vals[i]) == real(s.vals[i]) && imag(s.vals[i]) == imag(s.vals[i]))
		}
		s.end = gv.Any[error]("end")
		gv.Assume(s.end != nil)
		problem := eoiOr(s)
		it := stream.SortComplex(s.iter())
		var r []complex128
		for i := 0; i <= len(s.vals); i++ {
			v, err := it.Next()
			if problem || i == len(s.vals) {
				gv.Assert("the error of the source at the end", err == s.end && v == 0)
				break
			}
			gv.Assert("another value", err == nil)
			gv.Assert("not before a smaller value", i == 0 || !(cmplx.Abs(v) < cmplx.Abs(r[i-1])))
			r = append(r, v)
		}
		if !problem {
			gv.Assert("the same values, each as often", gv.Permutation(s.vals, r))
		}
	})
	sorted("SortCmp", func([]level) (func(it iter.Iter[level]) iter.Iter[level], func(a, b level) bool) {
		return stream.SortCmp[level], func(a, b level) bool { return a < b }
	})
	sorted("SortBy", func(s []int) (func(it iter.Iter[int]) iter.Iter[int], func(a, b int) bool) {
		less := gv.Func2[int, int, bool]("less")
		n := len(s)
		gv.Assume(gv.Forall(0, n, func(i int) bool {
			return gv.Forall(0, n, func(j int) bool { return !(less(s[i], s[j]) && less(s[j], s[i])) })
		}))
		gv.Assume(gv.Forall(0, n, func(i int) bool {
			return gv.Forall(0, n, func(j int) bool {
				return gv.Forall(0, n, func(k int) bool {
					return gv.Implies(less(s[i], s[k]), less(s[i], s[j]) || less(s[j], s[k]))
				})
			})
		}))
		return stream.SortBy(less), less
	})
}
