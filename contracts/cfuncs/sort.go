package cfuncs

import (
	"math/cmplx"

	"github.com/bantling/micro/funcs"
	"github.com/bantling/micro/tuple"
	"vf/gv"
)

type num struct{ n, tag int }

// Cmp orders by n only: values of different tag may be equal.
func (a num) Cmp(b num) int {
	switch {
	case a.n < b.n:
		return -3
	case a.n > b.n:
		return 2
	}
	return 0
}

// rev orders the other way round.
type rev int

func (a rev) Cmp(b rev) int {
	switch {
	case a > b:
		return -1
	case a < b:
		return 1
	}
	return 0
}

// order assumes that less is a strict weak order on the elements of s.
func order[T any](s []T, less func(a, b T) bool) {
	n := len(s)
	gv.Assume(gv.Forall(0, n, func(i int) bool {
		return gv.Forall(0, n, func(j int) bool { return !(less(s[i], s[j]) && less(s[j], s[i])) })
	}))
	gv.Assume(gv.Forall(0, n, func(i int) bool {
		return gv.Forall(0, n, func(j int) bool {
			return gv.Forall(0, n, func(k int) bool {
				return gv.Implies(less(s[i], s[k]), less(s[i], s[j]) || less(s[j], s[k]))
			})
		})
	}))
}

func sorted[T any](n string, pre func(s []T), sort func(s []T) []T, less func(a, b T) bool) {
	gv.Register("C12", n, func() {
		s := gv.Slice[T]("s")
		if pre != nil {
			pre(s)
		}
		old := gv.Clone(s)
		r := sort(s)
		gv.Assert("the same length", len(r) == len(old))
		gv.Assert("in order", gv.Forall(0, len(r), func(i int) bool {
			return gv.Forall(0, len(r), func(j int) bool { return gv.Implies(i < j, !less(r[j], r[i])) })
		}))
		gv.Assert("the same elements, each as often", gv.Permutation(old, r))
		gv.Assert("sorted in place", len(s) == len(r) && gv.Permutation(s, r) && gv.Forall(0, len(r), func(i int) bool { return !less(s[i], r[i]) && !less(r[i], s[i]) }))
	})
}

func notNaN(s []float64) {
	gv.Assume(gv.Forall(0, len(s), func(i int) bool { return s[i] == s[i] }))
}
func notNaNC(s []complex128) {
	gv.Assume(gv.Forall(0, len(s), func(i int) bool { return real(s[i]) == real(s[i]) && imag(s[i]) == imag(s[i]) }))
}

func mapSorted[K comparable, V comparable](n string, sort func(m map[K]V) []tuple.Two[K, V], less func(a, b K) bool) {
	mapSortedBy(n, func() (func(m map[K]V) []tuple.Two[K, V], func(a, b K) bool) { return sort, less })
}
func mapSortedBy[K comparable, V comparable](n string, with func() (func(m map[K]V) []tuple.Two[K, V], func(a, b K) bool)) {
	gv.Register("C13", n, func() {
		sort, less := with()
		m, k := gv.Map[K, V]("m"), gv.Any[K]("k")
		mv, mok := m[k]
		gv.Inv(func(seen func(K) bool, s []tuple.Two[K, V]) bool {
			return gv.Implies(seen(k), gv.Exists(0, len(s), func(i int) bool { return s[i].T == k && s[i].U == mv }))
		})
		gv.Inv(func(seen func(K) bool, s []tuple.Two[K, V]) bool {
			return gv.Forall(0, len(s), func(i int) bool { return seen(s[i].T) })
		})
		gv.Inv(func(s []tuple.Two[K, V]) bool {
			return gv.Forall(0, len(s), func(i int) bool { return gv.Implies(s[i].T == k, mok && s[i].U == mv) })
		})
		gv.Inv(func(s []tuple.Two[K, V]) bool {
			return gv.Forall(0, len(s), func(i int) bool {
				return gv.Forall(0, len(s), func(j int) bool { return gv.Implies(s[i].T == s[j].T, i == j) })
			})
		})
		r := sort(m)
		gv.Assert("every key of the map is there, with its value", gv.Implies(mok, gv.Exists(0, len(r), func(i int) bool { return r[i].T == k && r[i].U == mv })))
		gv.Assert("no other keys", gv.Forall(0, len(r), func(i int) bool { return gv.Implies(r[i].T == k, mok && r[i].U == mv) }))
		gv.Assert("no key twice", gv.Forall(0, len(r), func(i int) bool {
			return gv.Forall(0, len(r), func(j int) bool { return gv.Implies(r[i].T == r[j].T, i == j) })
		}))
		gv.Assert("in key order", gv.Forall(0, len(r), func(i int) bool {
			return gv.Forall(0, len(r), func(j int) bool { return gv.Implies(i < j, !less(r[j].T, r[i].T)) })
		}))
		v2, ok2 := m[k]
		gv.Assert("the map is unchanged", ok2 == mok && v2 == mv)
	})
}

func init() {
	sorted("SliceSortOrdered_int", nil, funcs.SliceSortOrdered[int], func(a, b int) bool { return a < b })
	sorted("SliceSortOrdered_uint8", nil, funcs.SliceSortOrdered[uint8], func(a, b uint8) bool { return a < b })
	sorted("SliceSortOrdered_string", nil, funcs.SliceSortOrdered[string], func(a, b string) bool { return a < b })
	sorted("SliceSortOrdered_float64", notNaN, funcs.SliceSortOrdered[float64], func(a, b float64) bool { return a < b })
	sorted("SliceSortComplex", notNaNC, funcs.SliceSortComplex[complex128], func(a, b complex128) bool { return cmplx.Abs(a) < cmplx.Abs(b) })
	sorted("SliceSortCmp", nil, funcs.SliceSortCmp[num], func(a, b num) bool { return a.n < b.n })
	gv.Register("C12", "SliceSortBy", func() {
		s := gv.Slice[int]("s")
		less := gv.Func2[int, int, bool]("less")
		order(s, less)
		old := gv.Clone(s)
		r := funcs.SliceSortBy(s, less)
		gv.Assert("the same length", len(r) == len(old))
		gv.Assert("in order", gv.Forall(0, len(r), func(i int) bool {
			return gv.Forall(0, len(r), func(j int) bool { return gv.Implies(i < j, !less(r[j], r[i])) })
		}))
		gv.Assert("the same elements, each as often", gv.Permutation(old, r))
		gv.Assert("sorted in place", equal(s, r))
	})
	mapSorted("MapSortOrdered_int", funcs.MapSortOrdered[int, string], func(a, b int) bool { return a < b })
	mapSorted("MapSortOrdered_string", funcs.MapSortOrdered[string, int], func(a, b string) bool { return a < b })
	mapSorted("MapSortCmp", funcs.MapSortCmp[rev, int], func(a, b rev) bool { return a > b })
	mapSorted("MapSortBy", func(m map[int]string) []tuple.Two[int, string] {
		return funcs.MapSortBy(m, func(a, b int) bool { return a > b })
	}, func(a, b int) bool { return a > b })
	mapSortedBy("MapSortBy_equal_keys", func() (func(m map[int]string) []tuple.Two[int, string], func(a, b int) bool) {
		// an order that may consider different keys equal
		rank := gv.Func1[int, int]("rank")
		less := func(a, b int) bool { return rank(a) < rank(b) }
		return func(m map[int]string) []tuple.Two[int, string] { return funcs.MapSortBy(m, less) }, less
	})
}
