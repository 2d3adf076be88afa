package cstream

import (
	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/stream"
	"github.com/bantling/micro/tuple"
	"vf/gv"
)

// eoiOr is the error a source ends with: the end, or a problem
func eoiOr[T any](s *source[T]) (problem bool) {
	if gv.Choice("problem", 2) == 1 {
		gv.Assume(s.end != iter.EOI)
		return true
	}
	s.end = iter.EOI
	return false
}

// once checks that after the result r of the first call of Next comes the end.
func once[T any, U comparable](s *source[T], it iter.Iter[U], r U, err error) {
	var zero U
	rest(s, it, err, err == nil || r == zero, func(v U) bool { return v == zero })
}
func rest[T, U any](s *source[T], it iter.Iter[U], err error, zeroIfErr bool, zero func(v U) bool) {
	gv.Assert("no result with an error", zeroIfErr)
	p := s.pos
	for gv.More("more") {
		v, e := it.Next()
		gv.Assert("a single result", zero(v) && e == gv.Ite(err == nil, iter.EOI, err))
		gv.Assert("no more values are read", s.pos == p)
	}
}

func reductions[T, U comparable](n string) {
	reg := func(name string, f func()) {
		gv.Register("C24", name+"_"+n, func() {
			gv.Inv(func(a, b T) bool { return a == b })
			gv.Inv(func(a, b U) bool { return a == b })
			f()
		})
	}
	reg("Reduce", func() {
		s, f := values[T](), gv.Func2[T, T, T]("f")
		problem := eoiOr(s)
		var acc T
		s.seen = func(v T) {
			if s.pos == 1 {
				acc = v
			} else {
				acc = f(acc, v)
			}
		}
		it := stream.Reduce(f)(s.iter())
		gv.Assert("nothing is read ahead of time", s.pos == 0)
		r, err := it.Next()
		switch {
		case problem || len(s.vals) == 0:
			gv.Assert("the error of the source", err == s.end)
		default:
			gv.Assert("the first value combined with the others in order", err == nil && r == acc)
		}
		gv.Assert("all values", s.pos == len(s.vals))
		once(s, it, r, err)
	})
	reg("Reduce_identity", func() {
		s, f, id := values[T](), gv.Func2[T, T, T]("f"), gv.Any[T]("id")
		problem := eoiOr(s)
		acc := id
		s.seen = func(v T) { acc = f(acc, v) }
		it := stream.Reduce(f, id)(s.iter())
		r, err := it.Next()
		if problem {
			gv.Assert("the error of the source", err == s.end)
		} else {
			gv.Assert("the identity combined with the values in order", err == nil && r == acc)
		}
		gv.Assert("all values", s.pos == len(s.vals))
		once(s, it, r, err)
	})
	reg("ReduceTo", func() {
		s, f := values[T](), gv.Func2[U, T, U]("f")
		problem := eoiOr(s)
		var acc U
		s.seen = func(v T) { acc = f(acc, v) }
		it := stream.ReduceTo(f)(s.iter())
		r, err := it.Next()
		if problem || len(s.vals) == 0 {
			gv.Assert("the error of the source", err == s.end)
		} else {
			gv.Assert("zero combined with the values in order", err == nil && r == acc)
		}
		gv.Assert("all values", s.pos == len(s.vals))
		once(s, it, r, err)
	})
	reg("ReduceTo_identity", func() {
		s, f, id := values[T](), gv.Func2[U, T, U]("f"), gv.Any[U]("id")
		problem := eoiOr(s)
		acc := id
		s.seen = func(v T) { acc = f(acc, v) }
		it := stream.ReduceTo(f, id)(s.iter())
		r, err := it.Next()
		if problem {
			gv.Assert("the error of the source", err == s.end)
		} else {
			gv.Assert("the identity combined with the values in order", err == nil && r == acc)
		}
		gv.Assert("all values", s.pos == len(s.vals))
		once(s, it, r, err)
	})
	// match checks a reduction to ofEmpty unless stop is true for a value, in which case it is the opposite.
	match := func(name string, ofEmpty bool, stop func(f func(v T) bool, v T) bool, reduce func(f func(v T) bool, it iter.Iter[T]) iter.Iter[bool]) {
		reg(name, func() {
			s, f := values[T](), gv.Func1[T, bool]("f")
			problem := eoiOr(s)
			stopped := false
			s.seen = func(v T) {
				gv.Assert("no value is read once the result is known", !stopped)
				stopped = stop(f, v)
			}
			gv.Inv(func(b bool) bool { return b == ofEmpty })
			gv.Inv(func(v T) bool { return gv.Iff(stopped, stop(f, v)) })
			gv.Inv(func(v T, err error) bool { return gv.Iff(stopped, err == nil && stop(f, v)) })
			it := reduce(f, s.iter())
			r, err := it.Next()
			switch {
			case stopped:
				gv.Assert("the result is known early", err == nil && r != ofEmpty)
			case problem:
				gv.Assert("the error of the source", err == s.end)
			default:
				gv.Assert("the result of all values", err == nil && r == ofEmpty && s.pos == len(s.vals))
			}
			once(s, it, r, err)
		})
	}
	holds := func(f func(v T) bool, v T) bool { return f(v) }
	fails := func(f func(v T) bool, v T) bool { return !f(v) }
	match("AllMatch", true, fails, func(f func(v T) bool, it iter.Iter[T]) iter.Iter[bool] { return stream.AllMatch(f)(it) })
	match("AnyMatch", false, holds, func(f func(v T) bool, it iter.Iter[T]) iter.Iter[bool] { return stream.AnyMatch(f)(it) })
	match("NoneMatch", true, holds, func(f func(v T) bool, it iter.Iter[T]) iter.Iter[bool] { return stream.NoneMatch(f)(it) })
	reg("ReduceToBool", func() {
		s, f, id, stop := values[T](), gv.Func1[T, bool]("f"), gv.Bool("identity"), gv.Choice("stop", 2) == 1
		problem := eoiOr(s)
		stopped := false
		s.seen = func(v T) {
			gv.Assert("no value is read once the result is known", !stopped)
			stopped = f(v) == stop
		}
		gv.Inv(func(b bool) bool { return b == !stop })
		gv.Inv(func(v T) bool { return gv.Iff(stopped, gv.Iff(f(v), stop)) })
		gv.Inv(func(v T, err error) bool { return gv.Iff(stopped, err == nil && gv.Iff(f(v), stop)) })
		it := stream.ReduceToBool(f, id, stop)(s.iter())
		r, err := it.Next()
		switch {
		case stopped:
			gv.Assert("the result is known early", err == nil && r == stop)
		case problem:
			gv.Assert("the error of the source", err == s.end)
		case len(s.vals) == 0:
			gv.Assert("the identity without values", err == nil && r == id)
		default:
			gv.Assert("the result of all values", err == nil && r == !stop && s.pos == len(s.vals))
		}
		once(s, it, r, err)
	})
	reg("Count", func() {
		s := values[T]()
		problem := eoiOr(s)
		it := stream.Count(s.iter())
		r, err := it.Next()
		if problem {
			gv.Assert("the error of the source", err == s.end)
		} else {
			gv.Assert("the number of values", err == nil && r == len(s.vals))
		}
		once(s, it, r, err)
	})
	same := func(a, b []T) bool {
		return len(a) == len(b) && gv.Forall(0, len(a), func(i int) bool { return a[i] == b[i] })
	}
	nilSlice := func(v []T) bool { return v == nil }
	reg("ReduceToSlice", func() {
		s := values[T]()
		problem := eoiOr(s)
		gv.Inv(func(a []T) bool {
			return len(a) <= len(s.vals) && gv.Forall(0, len(a), func(i int) bool { return a[i] == s.vals[i] })
		})
		it := stream.ReduceToSlice(s.iter())
		r, err := it.Next()
		if problem {
			gv.Assert("the error of the source", err == s.end)
		} else {
			gv.Assert("all values in order", err == nil && r != nil && same(r, s.vals))
		}
		rest(s, it, err, err == nil || r == nil, nilSlice)
	})
	reg("ReduceIntoSlice", func() {
		s, target := values[T](), gv.Slice[T]("target")
		problem := eoiOr(s)
		old := gv.Clone(target)
		gv.Inv(func(i int) bool {
			return gv.Forall(0, i, func(j int) bool { return j < len(target) && j < len(s.vals) && target[j] == s.vals[j] })
		})
		gv.Inv(func(i int) bool {
			return 0 <= i && gv.Forall(i, len(target), func(j int) bool { return target[j] == old[j] })
		})
		gv.Inv(func(i int) bool {
			var zero T
			return gv.Forall(0, i+1, func(j int) bool { return j < len(target) && target[j] == zero })
		})
		gv.Inv(func(i int) bool {
			var zero T
			return -1 <= i && gv.Forall(i+1, len(target), func(j int) bool { return target[j] == zero })
		})
		it := stream.ReduceIntoSlice(target)(s.iter())
		var (
			r   []T
			err error
		)
		if p := gv.Panics(func() { r, err = it.Next() }); p {
			gv.Assert("panics only if there is not enough room", len(s.vals) > len(target))
			return
		}
		gv.Assert("panics if there is not enough room", len(s.vals) <= len(target))
		if problem {
			var zero T
			gv.Assert("the error of the source, and zero values", err == s.end && r == nil &&
				gv.Forall(0, len(target), func(i int) bool { return target[i] == zero }))
		} else {
			gv.Assert("the slice itself, with all values in order", err == nil && same(r, target) && len(target) == len(old) &&
				gv.Forall(0, len(s.vals), func(i int) bool { return target[i] == s.vals[i] }) &&
				gv.Forall(len(s.vals), len(target), func(i int) bool { return target[i] == old[i] }))
		}
		rest(s, it, err, true, nilSlice)
	})
	reg("Reverse", func() {
		s := values[T]()
		problem := eoiOr(s)
		gv.Inv(func(a []T) bool {
			return len(a) <= len(s.vals) && gv.Forall(0, len(a), func(i int) bool { return a[i] == s.vals[i] })
		})
		l := len(s.vals)
		gv.Inv(func(a []T, i int) bool {
			return len(a) == l && gv.Forall(0, i, func(k int) bool { return k < l && a[k] == s.vals[l-1-k] })
		})
		gv.Inv(func(a []T, i int) bool {
			return len(a) == l && gv.Forall(0, i, func(k int) bool { return k < l && a[l-1-k] == s.vals[k] })
		})
		gv.Inv(func(a []T, i int) bool {
			return len(a) == l && gv.Forall(i, l-i, func(k int) bool { return k < l && a[k] == s.vals[k] })
		})
		it := stream.Reverse(s.iter())
		given := 0
		var zero T
		for gv.More("more") {
			r, err := it.Next()
			switch {
			case problem:
				gv.Assert("the error of the source", err == s.end && r == zero)
			case given < len(s.vals):
				gv.Assert("the values in the opposite order", err == nil && r == s.vals[len(s.vals)-1-given])
				given++
			default:
				gv.Assert("the end", err == iter.EOI && r == zero)
			}
		}
	})
}

func reduceToMap[K, V comparable](n string) {
	gv.Register("C24", "ReduceToMap_"+n, func() {
		s, k := values[tuple.Two[K, V]](), gv.Any[K]("k")
		problem := eoiOr(s)
		var (
			has bool
			val V
		)
		s.seen = func(v tuple.Two[K, V]) {
			if v.T == k {
				has, val = true, v.U
			}
		}
		gv.Inv(func(m map[K]V) bool {
			v, ok := m[k]
			return ok == has && v == val
		})
		it := stream.ReduceToMap(s.iter())
		r, err := it.Next()
		if problem {
			gv.Assert("the error of the source", err == s.end)
		} else {
			v, ok := r[k]
			gv.Assert("the keys with their last value", err == nil && r != nil && ok == has && v == val)
		}
		rest(s, it, err, err == nil || r == nil, func(m map[K]V) bool { return m == nil })
	})
}

func extremes[T constraint.Ordered](n string, pre func(s []T)) {
	reg := func(name string, max bool, reduce func(it iter.Iter[T]) iter.Iter[T]) {
		gv.Register("C24", name+"_"+n, func() {
			s := values[T]()
			if pre != nil {
				pre(s.vals)
			}
			problem := eoiOr(s)
			gv.Inv(func(v T) bool {
				return gv.Exists(0, s.pos, func(i int) bool { return s.vals[i] == v }) &&
					gv.Forall(0, s.pos, func(i int) bool { return gv.Ite(max, !(s.vals[i] > v), !(s.vals[i] < v)) })
			})
			it := reduce(s.iter())
			r, err := it.Next()
			if problem || len(s.vals) == 0 {
				gv.Assert("the error of the source", err == s.end)
			} else {
				gv.Assert("one of the values", err == nil && gv.Exists(0, len(s.vals), func(i int) bool { return s.vals[i] == r }))
				gv.Assert("none is beyond", gv.Forall(0, len(s.vals), func(i int) bool { return gv.Ite(max, !(s.vals[i] > r), !(s.vals[i] < r)) }))
			}
			once(s, it, r, err)
		})
	}
	reg("Max", true, stream.Max[T])
	reg("Min", false, stream.Min[T])
}

// num is ordered by n only.
type num struct{ n, tag int }

func (a num) Cmp(b num) int {
	switch {
	case a.n < b.n:
		return -3
	case a.n > b.n:
		return 2
	}
	return 0
}

func init() {
	reductions[int, string]("int")
	reductions[string, int]("string")
	reduceToMap[string, int]("string")
	extremes[int]("int", nil)
	extremes[uint8]("uint8", nil)
	extremes[string]("string", nil)
	extremes[float64]("float64", func(s []float64) {
		gv.Assume(gv.Forall(0, len(s), func(i int) bool { return s[i] == s[i] }))
	})
	cmp := func(name string, sign int, reduce func(it iter.Iter[num]) iter.Iter[num]) {
		gv.Register("C24", name, func() {
			s := values[num]()
			problem := eoiOr(s)
			gv.Inv(func(n, tag int) bool {
				return gv.Exists(0, s.pos, func(i int) bool { return s.vals[i].n == n && s.vals[i].tag == tag })
			})
			gv.Inv(func(n int) bool {
				return gv.Forall(0, s.pos, func(i int) bool { return gv.Ite(sign > 0, s.vals[i].n <= n, s.vals[i].n >= n) })
			})
			it := reduce(s.iter())
			r, err := it.Next()
			if problem || len(s.vals) == 0 {
				gv.Assert("the error of the source", err == s.end)
			} else {
				gv.Assert("one of the values", err == nil && gv.Exists(0, len(s.vals), func(i int) bool { return s.vals[i] == r }))
				gv.Assert("none is beyond", gv.Forall(0, len(s.vals), func(i int) bool { return gv.Ite(sign > 0, s.vals[i].n <= r.n, s.vals[i].n >= r.n) }))
			}
			once(s, it, r, err)
		})
	}
	cmp("MaxCmp", 1, stream.MaxCmp[num])
	cmp("MinCmp", -1, stream.MinCmp[num])
}
