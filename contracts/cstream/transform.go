// Package cstream has the contracts of package stream.
package cstream

import (
	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/stream"
	"github.com/bantling/micro/tuple"
	"vf/gv"
)

// source provides arbitrary values and then an arbitrary error.
type source[T any] struct {
	vals []T
	end  error
	pos  int
	ends int
	// called for each value provided, and before the error
	seen func(v T)
	done func()
}

func (s *source[T]) iter() iter.Iter[T] {
	return iter.OfIter(func() (T, error) {
		if s.pos < len(s.vals) {
			s.pos++
			v := s.vals[s.pos-1]
			if s.seen != nil {
				s.seen(v)
			}
			return v, nil
		}
		if s.done != nil {
			s.done()
		}
		s.ends++
		return gv.Any[T]("invalid"), s.end
	})
}

func values[T any]() *source[T] {
	s := &source[T]{vals: gv.Slice[T]("vals"), end: gv.Any[error]("end")}
	gv.Assume(s.end != nil)
	gv.Inv(func(i int) bool { return 0 <= i && i <= len(s.vals) })
	gv.Inv(func(err error) bool { return err == nil || err == s.end && s.pos == len(s.vals) })
	return s
}

// each checks a transform that gives value(v) for every value of the source, in order, and then the error of the source.
func each[T, U comparable](s *source[T], it iter.Iter[U], value func(v T) U) {
	var zero U
	for gv.More("more") {
		p := s.pos
		r, err := it.Next()
		if p < len(s.vals) {
			gv.Assert("the next value", err == nil && r == value(s.vals[p]) && s.pos == p+1)
		} else {
			gv.Assert("the error of the source at the end, every time", err == s.end && r == zero && s.pos == p)
		}
	}
}

func transforms[T, U comparable](n string) {
	reg := func(name string, f func()) { gv.Register("C23", name+"_"+n, f) }
	reg("Map", func() {
		s, f := values[T](), gv.Func1[T, U]("f")
		each(s, stream.Map(f)(s.iter()), f)
	})
	reg("MapError", func() {
		s, f := values[T](), gv.FuncErr[T, U]("f")
		it := stream.MapError(f)(s.iter())
		var zero U
		for gv.More("more") {
			p := s.pos
			r, err := it.Next()
			if p < len(s.vals) {
				v, e := f(s.vals[p])
				gv.Assert("the next value or the error of the function", err == e && s.pos == p+1 && (e != nil && r == zero || e == nil && r == v))
				if e != nil {
					for gv.More("more") {
						r, err := it.Next()
						gv.Assert("the error of the function is repeated", err == e && r == zero && s.pos == p+1)
					}
					return
				}
			} else {
				gv.Assert("the error of the source at the end, every time", err == s.end && r == zero && s.pos == p)
			}
		}
	})
	reg("Filter", func() {
		s, f := values[T](), gv.Func1[T, bool]("f")
		it := stream.Filter(f)(s.iter())
		var (
			zero T
			due  bool
		)
		s.seen = func(v T) {
			gv.Assert("no value that passes is left out", !due)
			due = f(v)
		}
		s.done = func() { gv.Assert("no value that passes is left out", !due) }
		for gv.More("more") {
			p := s.pos
			r, err := it.Next()
			if err == nil {
				gv.Assert("only values that pass, each once, in order", due && s.pos > p && r == s.vals[s.pos-1])
				due = false
			} else {
				gv.Assert("the error of the source at the end, every time", err == s.end && r == zero && s.pos == len(s.vals) && !due)
			}
		}
	})
	reg("Peek", func() {
		s := values[T]()
		var seen, given int
		it := stream.Peek(func(v T) {
			gv.Assert("every value is peeked at once, in order", seen == given && seen < s.pos && v == s.vals[seen])
			seen++
		})(s.iter())
		var zero T
		for gv.More("more") {
			r, err := it.Next()
			if given < len(s.vals) {
				gv.Assert("the next value", err == nil && r == s.vals[given])
				given++
			} else {
				gv.Assert("the error of the source at the end, every time", err == s.end && r == zero)
			}
			gv.Assert("every value provided has been peeked at", seen == given && s.pos == given)
		}
	})
	reg("Skip", func() {
		s, n := values[T](), gv.Any[uint]("n")
		it := stream.Skip[T](n)(s.iter())
		var (
			zero  T
			given int
		)
		gv.Inv(func(u uint, i int) bool { return gv.ZI(u).Add(gv.ZI(i)).Eq(gv.ZI(n)) })
		next := func() {
			r, err := it.Next()
			if n < uint(len(s.vals)) && given < len(s.vals)-int(n) {
				gv.Assert("the next value after those to skip", err == nil && r == s.vals[int(n)+given])
				given++
				gv.Assert("no further value is read", s.pos == int(n)+given)
			} else {
				gv.Assert("the error of the source at the end, every time", err == s.end && r == zero)
			}
		}
		next()
		for gv.More("more") {
			next()
		}
	})
	reg("Limit", func() {
		s, n := values[T](), gv.Any[uint]("n")
		it := stream.Limit[T](n)(s.iter())
		var (
			zero  T
			given int
		)
		for gv.More("more") {
			r, err := it.Next()
			switch {
			case uint(given) >= n:
				gv.Assert("the end after the number of values", err == iter.EOI && r == zero)
			case given < len(s.vals):
				gv.Assert("the next value", err == nil && r == s.vals[given])
				given++
			default:
				gv.Assert("the error of the source at the end, every time", err == s.end && r == zero)
			}
			gv.Assert("no further value is read", s.pos == given)
		}
	})
	reg("Skip_Limit_reused", func() {
		// the number of values is counted for each source, for the same composition
		k := gv.Choice("k", 3)
		skip, limit := stream.Skip[T](uint(k)), stream.Limit[T](uint(k))
		a, b, c, d := gv.Any[T]("a"), gv.Any[T]("b"), gv.Any[T]("c"), gv.Any[T]("d")
		vals := []T{a, b, c, d}
		for round := 0; round < 2; round++ {
			si, li := skip(iter.OfSlice(vals)), limit(iter.OfSlice(vals))
			for i := k; i < 4; i++ {
				v, err := si.Next()
				gv.Assert("the values after those to skip", err == nil && v == vals[i])
			}
			for i := 0; i < k; i++ {
				v, err := li.Next()
				gv.Assert("the number of values", err == nil && v == vals[i])
			}
			_, se := si.Next()
			_, le := li.Next()
			gv.Assert("and no more", se == iter.EOI && le == iter.EOI)
		}
	})
	reg("Distinct", func() {
		s, k := values[T](), gv.Any[T]("k")
		it := stream.Distinct(s.iter())
		var (
			zero      T
			due, seen bool
		)
		gv.Inv(func(m map[T]bool) bool { return m[k] == seen })
		s.seen = func(v T) {
			gv.Assert("no first occurrence is left out", !due)
			if v == k {
				due, seen = !seen, true
			}
		}
		s.done = func() { gv.Assert("no first occurrence is left out", !due) }
		for gv.More("more") {
			p := s.pos
			r, err := it.Next()
			if err == nil {
				gv.Assert("the last value read", s.pos > p && r == s.vals[s.pos-1])
				gv.Assert("the first occurrence", gv.Iff(r == k, due))
				due = false
			} else {
				gv.Assert("the error of the source at the end, every time", err == s.end && r == zero && s.pos == len(s.vals) && !due)
			}
		}
	})
	reg("Duplicate", func() {
		s, k := values[T](), gv.Any[T]("k")
		it := stream.Duplicate(s.iter())
		var (
			zero  T
			due   bool
			times int
		)
		gv.Inv(func(m map[T]int) bool { return m[k] == gv.Ite(times < 3, times, 3) })
		gv.Inv(func(i int) bool { return i >= 0 })
		s.seen = func(v T) {
			gv.Assert("no second occurrence is left out", !due)
			if v == k {
				times++
				due = times == 2
			}
		}
		s.done = func() { gv.Assert("no second occurrence is left out", !due) }
		for gv.More("more") {
			p := s.pos
			r, err := it.Next()
			if err == nil {
				gv.Assert("the last value read", s.pos > p && r == s.vals[s.pos-1])
				gv.Assert("the second occurrence", gv.Iff(r == k, due))
				due = false
			} else {
				gv.Assert("the error of the source at the end, every time", err == s.end && r == zero && s.pos == len(s.vals) && !due)
			}
		}
	})
	reg("ExpandSlices", func() {
		k := 4
		gv.Bounded("at most 3 slices, each of any length")
		var slices [][]T
		for i := gv.Choice("slices", k); i > 0; i-- {
			slices = append(slices, gv.Slice[T]("slice"))
		}
		end := gv.Any[error]("end")
		gv.Assume(end != nil)
		pos := 0
		it := stream.ExpandSlices(iter.OfIter(func() ([]T, error) {
			if pos < len(slices) {
				pos++
				return slices[pos-1], nil
			}
			return nil, end
		}))
		var zero T
		for _, sl := range slices {
			gv.Inv(func(i int) bool { return 0 <= i && i <= len(sl) })
			for i := range sl {
				v, err := it.Next()
				gv.Assert("the next value of the slice", err == nil && v == sl[i])
			}
		}
		for i := 0; i < 2; i++ {
			v, err := it.Next()
			gv.Assert("the error of the source at the end, every time", err == end && v == zero)
		}
	})
}

func maps[K, V comparable](n string) {
	gv.Register("C23", "ExpandMaps_"+n, func() {
		gv.Bounded("at most 2 maps, each of any size")
		var ms []map[K]V
		k := gv.Any[K]("k")
		total, first := 0, 0
		for i := gv.Choice("maps", 3); i > 0; i-- {
			if gv.Bool("nil") {
				ms = append(ms, nil)
				continue
			}
			m := gv.Map[K, V]("m")
			ms = append(ms, m)
			_, ok := m[k]
			total += gv.Ite(ok, 1, 0)
			if len(ms) == 1 {
				first = total
			}
		}
		end := iter.EOI
		if gv.Choice("problem", 2) == 1 {
			end = gv.Any[error]("end")
			gv.Assume(end != nil && end != iter.EOI)
		}
		pos := 0
		it := stream.ExpandMaps(iter.OfIter(func() (map[K]V, error) {
			if pos < len(ms) {
				pos++
				return ms[pos-1], nil
			}
			return nil, end
		}))
		seen, ended := 0, false
		gv.Inv(func(i int, done func(K) bool) bool { return i == gv.Ite(done(k), 1, 0) })
		gv.Inv(func(i int, done func(K) bool) bool { return i == first+gv.Ite(done(k), 1, 0) })
		gv.Inv(func(i int) bool { return i == total })
		for gv.More("more") {
			p, err := it.Next()
			switch {
			case err != nil:
				gv.Assert("the error at the end", err == end && p == tuple.Two[K, V]{})
				gv.Assert("every key of every map was provided", seen == total)
				ended = true
			case p.T == k:
				v, ok := ms[pos-1][k]
				gv.Assert("only keys of the map, with their value, before the end", ok && p.U == v && !ended)
				seen++
			default:
				gv.Assert("no value after the end", !ended)
			}
		}
	})
}

func init() {
	transforms[int, string]("int")
	transforms[string, int]("string")
	maps[string, int]("string")
}

func init() {
	gv.Register("C23", "Generator", func() {
		gv.Bounded("4 applications")
		made := 0
		apply := stream.Generator(func() func(it iter.Iter[int]) iter.Iter[int] {
			made++
			n := made
			return stream.Map(func(v int) int { return v + n })
		})
		a, b := gv.Any[int]("a"), gv.Any[int]("b")
		its := []iter.Iter[int]{iter.Of(a), iter.Of(b)}
		last, want := -1, 0
		for i := 0; i < 4; i++ {
			k := gv.Choice("iter", 2)
			r := apply(its[k])
			if k != last {
				want++
			}
			last = k
			gv.Assert("a new function for another iter only", made == want)
			if i == 3 {
				v, err := r.Next()
				gv.Assert("the function made for the iter is applied", err == nil && v == gv.Ite(k == 0, a, b)+want)
			}
		}
	})
}
