package cfuncs

import (
	"github.com/bantling/micro/funcs"
	"vf/gv"
)

func zeroOf[T any]() (z T) { return }

func asserts[T comparable](n string) {
	reg := func(name string, f func()) { gv.Register("C16", name+"_"+n, f) }
	reg("AssertType", func() {
		v := gv.Any[any]("v")
		t, isa := v.(T)
		r, err := funcs.AssertType[T]("msg", v)
		gv.Assert("an error exactly for another type", (err == nil) == isa)
		gv.Assert("the value, or the zero value", gv.Same(r, t))
		p, _ := gv.Caught(func() { gv.Assert("the value", gv.Same(funcs.MustAssertType[T]("msg", v), t)) })
		gv.Assert("panics exactly for another type", (p == nil) == isa)
	})
	reg("ConvertToSlice", func() {
		v := gv.Any[any]("v")
		in, ok := v.([]any)
		isT := func(i int) bool { _, isa := in[i].(T); return isa }
		gv.Inv(func(i int) bool { return gv.Forall(0, i, func(k int) bool { return k < len(in) && isT(k) }) })
		gv.Inv(func(i int, tgt []T) bool {
			return len(tgt) == len(in) && gv.Forall(0, i, func(k int) bool {
				t, _ := in[k].(T)
				return k < len(in) && gv.Same(tgt[k], t)
			})
		})
		all := ok && gv.Forall(0, len(in), isT)
		r, err := funcs.ConvertToSlice[T]("msg", v)
		gv.Assert("an error exactly if not a slice, or any element is of another type", (err == nil) == all)
		if err != nil {
			gv.Assert("no slice with an error", r == nil)
			return
		}
		gv.Assert("a slice of the same length", r != nil && len(r) == len(in))
		gv.Assert("of the elements, in order", gv.Forall(0, len(in), func(i int) bool { t, _ := in[i].(T); return gv.Same(r[i], t) }))
	})
}

// convert2 checks two level slices of up to two elements, of up to two elements.
func convert2[T comparable](n string) {
	gv.Register("C16", "ConvertToSlice2_"+n, func() {
		gv.Bounded("at most 2 slices of 2 elements")
		v := gv.Any[any]("v")
		ok := true
		var want [][]T
		if gv.Choice("slice", 2) == 0 {
			_, is := v.([]any)
			gv.Assume(!is)
			ok = false
		} else {
			out := []any{}
			for i, k := 0, gv.Choice("outer", 3); i < k; i++ {
				l := gv.Choice("inner", 4)
				if l == 3 {
					e := gv.Any[any]("e")
					_, is := e.([]any)
					gv.Assume(!is)
					out, ok = append(out, e), false
					continue
				}
				in, w := []any{}, []T{}
				for j := 0; j < l; j++ {
					x := gv.Any[any]("x")
					t, is := x.(T)
					in, w, ok = append(in, x), append(w, t), ok && is
				}
				out, want = append(out, in), append(want, w)
			}
			v = out
		}
		r, err := funcs.ConvertToSlice2[T]("msg", v)
		gv.Assert("an error exactly if anything is of another type", (err == nil) == ok)
		var m [][]T
		p := gv.Panics(func() { m = funcs.MustConvertToSlice2[T]("msg", v) })
		gv.Assert("a panic exactly on an error", p == !ok)
		if err != nil {
			gv.Assert("no slice with an error", r == nil)
			return
		}
		for _, r := range [][][]T{r, m} {
			gv.Assert("as many slices", r != nil && len(r) == len(want))
			for i := range want {
				gv.Assert("the elements, in order", r[i] != nil && len(r[i]) == len(want[i]))
				for j := range want[i] {
					gv.Assert("the elements, in order", gv.Same(r[i][j], want[i][j]))
				}
			}
		}
	})
	gv.Register("C16", "MustConvertToSlice_"+n, func() {
		gv.Bounded("at most 2 elements")
		v := gv.Any[any]("v")
		if k := gv.Choice("elements", 4); k < 3 {
			in := []any{}
			for i := 0; i < k; i++ {
				in = append(in, gv.Any[any]("x"))
			}
			v = in
		} else {
			_, is := v.([]any)
			gv.Assume(!is)
		}
		r, err := funcs.ConvertToSlice[T]("msg", v)
		var m []T
		p := gv.Panics(func() { m = funcs.MustConvertToSlice[T]("msg", v) })
		gv.Assert("a panic exactly on an error", p == (err != nil))
		if !p {
			gv.Assert("the same slice", (m == nil) == (r == nil) && len(m) == len(r))
			for i := range r {
				gv.Assert("the same elements", gv.Same(m[i], r[i]))
			}
		}
	})
}

func convertMap[K, V comparable](n string) {
	gv.Register("C16", "ConvertToMap_"+n, func() {
		in := gv.Map[K, any]("in")
		k := gv.Any[K]("k")
		isV := func(x any) bool { _, isa := x.(V); return isa }
		gv.Inv(func(done func(K) bool) bool { return gv.Implies(done(k), isV(in[k])) })
		gv.Inv(func(done func(K) bool, tgt map[K]V) bool {
			v, ok := tgt[k]
			w, _ := in[k].(V)
			return ok == done(k) && gv.Implies(ok, v == w)
		})
		r, err := funcs.ConvertToMap[K, V]("msg", in)
		if err != nil {
			gv.Assert("no map with an error", r == nil)
			return
		}
		// for an arbitrary key
		x, ok := in[k]
		y, ok2 := r[k]
		gv.Assert("no error only if all values are of the type", !ok || isV(x))
		gv.Assert("the same keys", r != nil && ok == ok2)
		w, _ := x.(V)
		gv.Assert("the same values", !ok || y == w)
	})
	gv.Register("C16", "ConvertToMap_ok_"+n, func() {
		in := gv.Map[K, V]("in")
		m := map[K]any{}
		gv.Inv(func(done func(K) bool) bool { return true })
		_ = in
		r, err := funcs.ConvertToMap[K, V]("msg", m)
		gv.Assert("no error for an empty map", err == nil && len(r) == 0)
		k, v := gv.Any[K]("k"), gv.Any[any]("v")
		m[k] = v
		w, isa := v.(V)
		r, err = funcs.ConvertToMap[K, V]("msg", m)
		gv.Assert("an error exactly for a value of another type", (err == nil) == isa)
		gv.Assert("one value", !isa || len(r) == 1 && r[k] == w)
		var must map[K]V
		p := gv.Panics(func() { must = funcs.MustConvertToMap[K, V]("msg", m) })
		gv.Assert("a panic exactly on an error", p == !isa)
		gv.Assert("the same map", !isa || len(must) == 1 && must[k] == w)
		_, err = funcs.ConvertToMap[K, V]("msg", in)
		gv.Assert("an error for another type of map", err != nil)
	})
}
func flatten[T comparable](n string) {
	gv.Register("C12", "SliceFlatten_"+n, func() {
		s := gv.Slice[T]("s")
		gv.Assert("a flat slice as it is", equal(funcs.SliceFlatten[T](s), s))
		gv.Assert("empty for nil", len(funcs.SliceFlatten[T](nil)) == 0 && funcs.SliceFlatten[T](nil) != nil)
		gv.Assert("panics for another type", gv.Panics(func() { funcs.SliceFlatten[T](gv.Any[T]("x")) }) && gv.Panics(func() { funcs.SliceFlatten[T]([][]*T{}) }))
	})
}

func flatten2[T comparable](n string) {
	gv.Register("C12", "SliceFlatten_2_"+n, func() {
		gv.Bounded("at most 2 slices of 2 elements")
		var s [][]T
		var all []T
		for i, k := 0, gv.Choice("outer", 3); i < k; i++ {
			e := []T{}
			for j, l := 0, gv.Choice("inner"+string(rune('0'+i)), 3); j < l; j++ {
				x := gv.Any[T]("x" + string(rune('0'+i)) + string(rune('0'+j)))
				e, all = append(e, x), append(all, x)
			}
			s = append(s, e)
		}
		r := funcs.SliceFlatten[T](s)
		gv.Assert("the elements, in order", len(r) == len(all))
		for i := range all {
			gv.Assert("the elements, in order", r[i] == all[i])
		}
		r = funcs.SliceFlatten[T]([][][]T{s, s})
		gv.Assert("three dimensions", len(r) == 2*len(all))
		for i := range r {
			gv.Assert("the elements, in order", r[i] == all[i%len(all)])
		}
	})
}

func init() {
	asserts[int]("int")
	asserts[string]("string")
	convert2[int]("int")
	convert2[string]("string")
	convertMap[int, string]("int_string")
	convertMap[string, int]("string_int")
	flatten[int]("int")
	flatten[string]("string")
	flatten2[int]("int")
	gv.Register("C16", "Must", func() {
		err := gv.Any[error]("err")
		p, _ := gv.Caught(func() { funcs.Must(err) })
		gv.Assert("panics exactly with the error", p == any(err))
		x, y, z := gv.Any[string]("x"), gv.Any[int]("y"), gv.Any[*int]("z")
		p, _ = gv.Caught(func() { gv.Assert("the value", funcs.MustValue(x, err) == x) })
		gv.Assert("panics exactly with the error", p == any(err))
		p, _ = gv.Caught(func() { a, b := funcs.MustValue2(x, y, err); gv.Assert("the values", a == x && b == y) })
		gv.Assert("panics exactly with the error", p == any(err))
		p, _ = gv.Caught(func() { a, b, c := funcs.MustValue3(x, y, z, err); gv.Assert("the values", a == x && b == y && c == z) })
		gv.Assert("panics exactly with the error", p == any(err))
	})
	gv.Register("C16", "MustNonEmptySlice", func() {
		s := gv.Slice[int]("s")
		if gv.Bool("nil") {
			s = nil
		}
		p, _ := gv.Caught(func() { gv.Assert("the slice", equal(funcs.MustNonEmptySlice(s), s)) })
		gv.Assert("panics exactly if empty", (p != nil) == (len(s) == 0))
	})
	gv.Register("C16", "Nil", func() {
		q := gv.Any[*int]("q")
		gv.Assert("IsNil pointer", funcs.IsNil[*int]()(q) == (q == nil))
		gv.Assert("IsNonNil pointer", funcs.IsNonNil[*int]()(q) == (q != nil))
		gv.Assert("IsNilValue pointer", funcs.IsNilValue(q) == (q == nil))
		p, _ := gv.Caught(func() { gv.Assert("the value", funcs.MustNonNilValue(q) == q) })
		gv.Assert("MustNonNilValue panics exactly for nil", (p != nil) == (q == nil))
		var s []int
		var m map[string]int
		var f func()
		var c chan int
		n := gv.Bool("nil")
		if !n {
			s, m, f, c = []int{}, map[string]int{}, func() {}, make(chan int)
		}
		gv.Assert("IsNil slice", funcs.IsNil[[]int]()(s) == n)
		gv.Assert("IsNil map", funcs.IsNil[map[string]int]()(m) == n)
		gv.Assert("IsNil func", funcs.IsNil[func()]()(f) == n)
		gv.Assert("IsNil chan", funcs.IsNil[chan int]()(c) == n)
		gv.Assert("IsNonNil slice", funcs.IsNonNil[[]int]()(s) == !n)
		gv.Assert("IsNonNil map", funcs.IsNonNil[map[string]int]()(m) == !n)
		gv.Assert("IsNonNil func", funcs.IsNonNil[func()]()(f) == !n)
		gv.Assert("IsNonNil chan", funcs.IsNonNil[chan int]()(c) == !n)
		gv.Assert("IsNilValue slice", funcs.IsNilValue(s) == n)
		gv.Assert("IsNilValue map", funcs.IsNilValue(m) == n)
		gv.Assert("IsNilValue func", funcs.IsNilValue(f) == n)
		gv.Assert("IsNilValue chan", funcs.IsNilValue(c) == n)
		gv.Assert("IsNilValue nil", funcs.IsNilValue(nil))
		gv.Assert("a value of another type is not nil", !funcs.IsNilValue(gv.Any[int]("i")) && !funcs.IsNilValue(gv.Any[string]("str")))
		gv.Assert("IsNil panics for a type that is never nil", gv.Panics(func() { funcs.IsNil[int]() }) && gv.Panics(func() { funcs.IsNil[string]() }))
		gv.Assert("IsNonNil panics for a type that is never nil", gv.Panics(func() { funcs.IsNonNil[int]() }) && gv.Panics(func() { funcs.IsNonNil[string]() }))
		gv.Assert("MustNonNilValue panics for a type that is never nil", gv.Panics(func() { funcs.MustNonNilValue(5) }))
	})
	gv.Register("C16", "MustNonZero", func() {
		i, s, q := gv.Any[int]("i"), gv.Any[string]("s"), gv.Any[*int]("q")
		gv.Assert("int", gv.Panics(func() { gv.Assert("the value", funcs.MustNonZero(i) == i) }) == (i == 0))
		gv.Assert("string", gv.Panics(func() { gv.Assert("the value", funcs.MustNonZero(s) == s) }) == (s == ""))
		gv.Assert("pointer", gv.Panics(func() { gv.Assert("the value", funcs.MustNonZero(q) == q) }) == (q == nil))
	})
	gv.Register("C16", "First_Second_Third", func() {
		a, b, c := gv.Any[int]("a"), gv.Any[int]("b"), gv.Any[int]("c")
		gv.Assert("first", funcs.FirstValue2(a, b) == a && funcs.FirstValue3(a, b, c) == a)
		gv.Assert("second", funcs.SecondValue2(a, b) == b && funcs.SecondValue3(a, b, c) == b)
		gv.Assert("third", funcs.ThirdValue3(a, b, c) == c)
	})
	gv.Register("C16", "TryTo", func() {
		gv.Bounded("at most 3 closers")
		var log []int
		step := func(id int, v any) {
			log = append(log, id)
			if v != nil {
				panic(v)
			}
		}
		val := func(name string) any {
			if gv.Bool(name) {
				return name
			}
			return nil
		}
		k := gv.Choice("closers", 4)
		var vals [4]any
		vals[3] = val("try")
		var closers []func()
		for i := 0; i < k; i++ {
			i := i
			vals[i] = val("closer" + string(rune('0'+i)))
			closers = append(closers, func() { step(i, vals[i]) })
		}
		var caught any
		caughtAt, catches := 0, 0
		p, _ := gv.Caught(func() {
			funcs.TryTo(func() { step(3, vals[3]) }, func(v any) { caught = v; caughtAt = len(log); catches++ }, closers...)
		})
		gv.Assert("does not panic", p == nil)
		gv.Assert("every function is called once", len(log) == k+1)
		gv.Assert("the func is called first", log[0] == 3)
		for i := 0; i < k; i++ {
			gv.Assert("the closers are called in reverse order", log[1+i] == k-1-i)
		}
		// the last panic replaces the ones before
		var last any = vals[3]
		for i := k - 1; i >= 0; i-- {
			if vals[i] != nil {
				last = vals[i]
			}
		}
		gv.Assert("a panic is handled once", catches == gv.Ite(last != nil, 1, 0))
		gv.Assert("with the last value, after the closers", last == nil || caught == last && caughtAt == k+1)
	})
}
