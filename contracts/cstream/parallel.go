package cstream

import (
	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/stream"
	"vf/gv"
)

// parallel checks that processing in threads gives what processing in sequence gives.
// with provides a transform, and what it makes of each value.
func parallel[T any, U comparable](n string, maxItems int, with func() (func(iter.Iter[T]) iter.Iter[U], func(T) (U, error))) {
	for kind, name := range []string{"", "_Threads", "_Items"} {
		gv.Register("C26", "Parallel_"+n+name, func() {
			gv.Bounded(gv.Ite(maxItems == 5, "at most 5 values", "at most 9 values"))
			gv.Unroll(maxItems + 2)
			transform, value := with()
			s := &source[T]{vals: make([]T, gv.Choice("values", maxItems+1)), end: gv.Any[error]("end")}
			gv.Assume(s.end != nil)
			for i := range s.vals {
				s.vals[i] = gv.Any[T]("v")
			}
			problem := eoiOr(s)
			var info []stream.PInfo
			if kind > 0 {
				k := gv.Choice("n", maxItems+2)
				if k == 0 || k > maxItems {
					l := gv.Any[int]("l")
					gv.Assume(gv.Ite(k == 0, l <= 0, l > maxItems))
					k = l
				}
				info = append(info, stream.PInfo{N: k, PUnit: stream.PUnit(kind == 2)})
			}
			it := stream.Parallel(transform, info...)(s.iter())
			if problem {
				_, err := it.Next()
				gv.Assert("the error of the source", err == s.end)
				return
			}
			var bad error
			for _, v := range s.vals {
				_, bad = value(v)
				gv.Assume(bad != iter.EOI)
				if bad != nil {
					break
				}
			}
			var zero U
			if bad != nil {
				r, err := it.Next()
				gv.Assert("the error of the first value that has one, and no values", err == bad && r == zero)
				return
			}
			for _, v := range s.vals {
				u, _ := value(v)
				r, err := it.Next()
				gv.Assert("the transformed values, in order", err == nil && r == u)
			}
			for i := 0; i < 2; i++ {
				r, err := it.Next()
				gv.Assert("the end", err == iter.EOI && r == zero)
			}
		})
	}
}

func init() {
	parallel("interfaces", 9, func() (func(iter.Iter[any]) iter.Iter[error], func(any) (error, error)) {
		e := gv.Any[error]("e")
		return stream.Map(func(any) error { return e }), func(any) (error, error) { return e, nil }
	})
	parallel("same_type", 9, func() (func(iter.Iter[int]) iter.Iter[int], func(int) (int, error)) {
		f := gv.Func1[int, int]("f")
		return stream.Map(f), func(v int) (int, error) { return f(v), nil }
	})
	parallel("other_type", 9, func() (func(iter.Iter[int]) iter.Iter[string], func(int) (string, error)) {
		f := gv.Func1[int, string]("f")
		return stream.Map(f), func(v int) (string, error) { return f(v), nil }
	})
	parallel("error", 5, func() (func(iter.Iter[string]) iter.Iter[string], func(string) (string, error)) {
		f := gv.FuncErr[string, string]("f")
		return stream.MapError(f), f
	})
}
