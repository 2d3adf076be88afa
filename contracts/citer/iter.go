// Package citer has the contracts of package iter.
package citer

import (
	"github.com/bantling/micro/iter"
	"vf/gv"
)

// history applies any sequence of Next and Unread to it, which is to provide vals and then the error end.
// check is called after each operation.
func history[T comparable](it iter.Iter[T], vals []T, end error, check func(given int)) {
	var (
		unread []T
		given  int
		zero   T
	)
	gv.Inv(func(a, b []T) bool {
		return len(a) == len(b) && gv.Forall(0, len(a), func(i int) bool { return a[i] == b[i] })
	})
	gv.Inv(func(i int) bool { return 0 <= i && i <= len(vals) })
	for gv.More("more") {
		if gv.Bool("unread") {
			v := gv.Any[T]("v")
			it.Unread(v)
			unread = append(unread, v)
		} else {
			r, err := it.Next()
			if l := len(unread); l > 0 {
				gv.Assert("the last value put back", err == nil && r == unread[l-1])
				unread = unread[:l-1]
			} else if given < len(vals) {
				gv.Assert("the next value", err == nil && r == vals[given])
				given++
			} else {
				gv.Assert("the error at the end, every time", err == end)
				gv.Assert("the zero value with an error", r == zero)
			}
		}
		check(given)
	}
}
func noCheck(int) {}

func values[T comparable](n string) {
	reg := func(name string, f func()) { gv.Register("C17", name+"_"+n, f) }
	reg("OfIter", func() {
		vals, end := gv.Slice[T]("vals"), gv.Any[error]("end")
		gv.Assume(end != nil)
		pos, ends := 0, 0
		it := iter.OfIter(func() (T, error) {
			if pos < len(vals) {
				pos++
				return vals[pos-1], nil
			}
			ends++
			// whatever value
			return gv.Any[T]("invalid"), end
		})
		history(it, vals, end, func(given int) {
			gv.Assert("the function is called once per value", pos == given)
			gv.Assert("the function is not called again after an error", ends <= 1)
		})
	})
	reg("OfIter_nil", func() {
		gv.Assert("panics without a function", gv.Panics(func() { iter.OfIter[T](nil) }))
	})
	reg("OfSlice", func() {
		vals := gv.Slice[T]("vals")
		history(iter.OfSlice(vals), vals, iter.EOI, noCheck)
	})
	reg("Of", func() {
		vals := gv.Slice[T]("vals")
		history(iter.Of(vals...), vals, iter.EOI, noCheck)
	})
	reg("OfOne", func() {
		v := gv.Any[T]("v")
		history(iter.OfOne(v), []T{v}, iter.EOI, noCheck)
	})
	reg("OfEmpty", func() {
		history(iter.OfEmpty[T](), nil, iter.EOI, noCheck)
	})
	reg("SetError", func() {
		vals, end, other := gv.Slice[T]("vals"), gv.Any[error]("end"), gv.Any[error]("other")
		gv.Assume(end != nil && other != nil)
		pos := 0
		it := iter.OfIter(func() (T, error) {
			if pos < len(vals) {
				pos++
				return vals[pos-1], nil
			}
			return gv.Any[T]("invalid"), end
		})
		history(iter.SetError(it, other), vals, other, noCheck)
	})
}

// infinite checks an iterator that provides value(0), value(1), ...
func infinite[T comparable](it iter.Iter[T], value func(i int) T, inv func(i int)) {
	given := 0
	gv.Inv(func(i int) bool { return 0 <= i })
	for gv.More("more") {
		gv.Assume(given < 1<<40)
		r, err := it.Next()
		gv.Assert("the next value", err == nil && r == value(given))
		given++
	}
}

func maps[K, V comparable](n string) {
	gv.Register("C17", "OfMap_"+n, func() {
		m, k := gv.Map[K, V]("m"), gv.Any[K]("k")
		v, ok := m[k]
		it := iter.OfMap(m)
		seen, ended := 0, false
		gv.Inv(func(i int, done func(K) bool) bool { return i == gv.Ite(done(k), 1, 0) })
		gv.Inv(func(i int) bool { return 0 <= i && i <= 1 })
		for gv.More("more") {
			p, err := it.Next()
			switch {
			case err != nil:
				gv.Assert("the error at the end", err == iter.EOI && p.U == *new(V) && p.T == *new(K))
				gv.Assert("every key was provided once", seen == gv.Ite(ok, 1, 0))
				ended = true
			case p.T == k:
				gv.Assert("only keys of the map, with their value, before the end", ok && p.U == v && !ended)
				seen++
			default:
				gv.Assert("no value after the end", !ended)
			}
			gv.Assert("no key twice", seen <= 1)
		}
		v2, ok2 := m[k]
		gv.Assert("the map is unchanged", v2 == v && ok2 == ok)
	})
}

func concat[T comparable](n string) {
	gv.Register("C17", "Concat_"+n, func() {
		gv.Bounded("at most 3 iterators")
		var (
			its  []iter.Iter[T]
			vals [3][]T
			ends [3]error
		)
		k := gv.Choice("iterators", 4)
		for i := 0; i < k; i++ {
			d := string(rune('0' + i))
			if gv.Bool("nil" + d) {
				its = append(its, nil)
				ends[i] = iter.EOI
				continue
			}
			i := i
			vals[i], ends[i] = gv.Slice[T]("vals"+d), gv.Any[error]("end"+d)
			gv.Assume(ends[i] != nil)
			pos := 0
			its = append(its, iter.OfIter(func() (T, error) {
				if pos < len(vals[i]) {
					pos++
					return vals[i][pos-1], nil
				}
				return gv.Any[T]("invalid"), ends[i]
			}))
		}
		it := iter.Concat(its...)
		gv.Inv(func(i int) bool { return 0 <= i && i <= len(vals[0]) })
		gv.Inv(func(i int) bool { return 0 <= i && i <= len(vals[1]) })
		gv.Inv(func(i int) bool { return 0 <= i && i <= len(vals[2]) })
		for c := range its {
			for i := range vals[c] {
				if !gv.More("more") {
					return
				}
				r, err := it.Next()
				gv.Assert("the values of the iterators, in order", err == nil && r == vals[c][i])
			}
			if ends[c] != iter.EOI {
				ended(it, ends[c])
				return
			}
		}
		ended(it, iter.EOI)
	})
}

// ended checks that it provides the error end, every time.
func ended[T comparable](it iter.Iter[T], end error) {
	var zero T
	for gv.More("more") {
		r, err := it.Next()
		gv.Assert("the first error of an iterator, or the end after the last, every time", err == end && r == zero)
	}
}

func init() {
	concat[int]("int")
	maps[int, string]("int_string")
	maps[string, int]("string_int")
	gv.Register("C17", "InfiniteIterGen", func() {
		f := gv.Func1[int, int]("f")
		k := gv.Choice("initial", 4)
		var init []int
		for i := 0; i < k; i++ {
			init = append(init, gv.Any[int]("i"+string(rune('0'+i))))
		}
		seed := 0
		if k > 0 {
			seed = init[k-1]
		}
		h := gv.Fold(seed, func(acc, i int) int { return f(acc) })
		it := iter.OfIter(iter.InfiniteIterGen(f, init...))
		for i := 0; i < k-1; i++ {
			v, err := it.Next()
			gv.Assert("the initial values but the last", err == nil && v == init[i])
		}
		gv.Inv(func(i, x int) bool { return 0 <= i && x == h(i) })
		infinite(it, func(i int) int { return h(i + 1) }, nil)
	})
	gv.Register("C17", "FibonnaciIterGen", func() {
		it := iter.OfIter(iter.FibonnaciIterGen())
		// pairs of consecutive numbers
		type two struct{ a, b int }
		h := gv.Fold(two{0, 1}, func(acc two, i int) two { return two{acc.b, acc.a + acc.b} })
		gv.Inv(func(i, x, y int) bool { return 1 <= i && x == h(i-1).a && y == h(i-1).b })
		infinite(it, func(i int) int { return h(i).b }, nil)
	})

	values[int]("int")
	values[string]("string")
}
