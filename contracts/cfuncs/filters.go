package cfuncs

import (
	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/funcs"
	"vf/gv"
)

func filters[T constraint.Ordered](n string) {
	reg := func(name string, f func()) { gv.Register("C15", name+"_"+n, f) }
	reg("And", func() {
		fs, t := gv.Slice[func(T) bool]("fs"), gv.Any[T]("t")
		gv.Assume(gv.Forall(0, len(fs), func(i int) bool { return fs[i] != nil }))
		gv.Inv(func(i int) bool { return gv.Forall(0, i, func(k int) bool { return k < len(fs) && fs[k](t) }) })
		gv.Assert("true exactly if all filters are true", funcs.And(fs...)(t) == gv.Forall(0, len(fs), func(i int) bool { return fs[i](t) }))
	})
	reg("And_short_circuit", func() {
		t := gv.Any[T]("t")
		first := gv.Func1[T, bool]("first")
		called := false
		r := funcs.And(first, func(T) bool { called = true; return true })(t)
		gv.Assert("the second filter is called only if the first is true", called == first(t) && r == called)
	})
	reg("Or", func() {
		fs, t := gv.Slice[func(T) bool]("fs"), gv.Any[T]("t")
		gv.Assume(gv.Forall(0, len(fs), func(i int) bool { return fs[i] != nil }))
		gv.Inv(func(i int) bool { return gv.Forall(0, i, func(k int) bool { return k < len(fs) && !fs[k](t) }) })
		r := funcs.Or(fs...)(t)
		gv.Assert("true exactly if any filter is, or there is none", r == (len(fs) == 0 || gv.Exists(0, len(fs), func(i int) bool { return fs[i](t) })))
	})
	reg("Or_short_circuit", func() {
		t := gv.Any[T]("t")
		first := gv.Func1[T, bool]("first")
		called := false
		r := funcs.Or(first, func(T) bool { called = true; return false })(t)
		gv.Assert("the second filter is called only if the first is false", called == !first(t) && r == !called)
	})
	reg("Not", func() {
		f, t := gv.Func1[T, bool]("f"), gv.Any[T]("t")
		gv.Assert("the opposite", funcs.Not(f)(t) == !f(t))
	})
	reg("Comparisons", func() {
		v, t := gv.Any[T]("v"), gv.Any[T]("t")
		gv.Assert("LessThan", funcs.LessThan(v)(t) == (t < v))
		gv.Assert("LessThanEqual", funcs.LessThanEqual(v)(t) == (t <= v))
		gv.Assert("Equal", funcs.Equal(v)(t) == (t == v))
		gv.Assert("GreaterThan", funcs.GreaterThan(v)(t) == (t > v))
		gv.Assert("GreaterThanEqual", funcs.GreaterThanEqual(v)(t) == (t >= v))
	})
	reg("In", func() {
		vs, t := gv.Slice[T]("vs"), gv.Any[T]("t")
		gv.Inv(func(i int) bool { return gv.Forall(0, i, func(k int) bool { return k < len(vs) && t != vs[k] }) })
		gv.Assert("true exactly if equal to any value", funcs.In(vs...)(t) == gv.Exists(0, len(vs), func(i int) bool { return t == vs[i] }))
	})
	reg("Ternary", func() {
		b, x, y := gv.Bool("b"), gv.Any[T]("x"), gv.Any[T]("y")
		r := funcs.Ternary(b, x, y)
		gv.Assert("the first value if true, else the second", gv.Same(r, gv.Ite(b, x, y)))
		fx, fy := 0, 0
		var f, g func() T
		var zero T
		ex, ey := zero, zero
		if gv.Bool("f") {
			f = func() T { fx++; return x }
			ex = x
		}
		if gv.Bool("g") {
			g = func() T { fy++; return y }
			ey = y
		}
		r = funcs.TernaryResult(b, f, g)
		gv.Assert("the result of the first func if true, else the second, or zero without a func", gv.Same(r, gv.Ite(b, ex, ey)))
		gv.Assert("only the chosen func is called, once", fx == gv.Ite(b && f != nil, 1, 0) && fy == gv.Ite(!b && g != nil, 1, 0))
	})
	if n != "float64" {
		reg("Compose", func() {
			f0, fs, t := gv.Func1[T, T]("f0"), gv.Slice[func(T) T]("fs"), gv.Any[T]("t")
			gv.Assume(gv.Forall(0, len(fs), func(i int) bool { return fs[i] != nil }))
			h := gv.Fold(f0(t), func(r T, i int) T { return fs[i](r) })
			gv.Inv(func(i int, x T) bool { return 0 <= i && i <= len(fs) && gv.Same(x, h(i)) })
			gv.Assert("the funcs in order", gv.Same(funcs.Compose(f0, fs...)(t), h(len(fs))))
		})
	}
	reg("Suppliers", func() {
		x, y := gv.Any[T]("x"), gv.Any[T]("y")
		s := funcs.SupplierOf(x)
		gv.Assert("the value, every time", gv.Same(s(), x) && gv.Same(s(), x))
		calls := 0
		c := funcs.SupplierCached(func() T {
			calls++
			return gv.Ite(calls == 1, x, y)
		})
		gv.Assert("not called before it is needed", calls == 0)
		for gv.More("more") {
			gv.Assert("the first value, every time", gv.Same(c(), x))
			gv.Assert("called once", calls == 1)
		}
		gv.Assert("called at most once", calls <= 1)
	})
}

func signs[T constraint.Signed](n string) {
	gv.Register("C15", "Signs_"+n, func() {
		t := gv.Any[T]("t")
		gv.Assert("IsNegative", funcs.IsNegative[T]()(t) == (t < 0))
		gv.Assert("IsNonNegative", funcs.IsNonNegative[T]()(t) == (t >= 0))
		gv.Assert("IsPositive", funcs.IsPositive[T]()(t) == (t > 0))
	})
}

// Distinct types for composition and selection
type (
	t0  struct{ v int }
	t1  struct{ v int }
	t2  struct{ v int }
	t3  struct{ v int }
	t4  struct{ v int }
	t5  struct{ v int }
	t6  struct{ v int }
	t7  struct{ v int }
	t8  struct{ v int }
	t9  struct{ v int }
	t10 struct{ v int }
)

func init() {
	filters[int]("int")
	filters[uint8]("uint8")
	filters[float64]("float64")
	filters[string]("string")
	signs[int]("int")
	signs[int8]("int8")
	signs[int16]("int16")
	signs[int32]("int32")
	signs[int64]("int64")
	signs[float32]("float32")
	signs[float64]("float64")
	gv.Register("C15", "ComposeN", func() {
		x := gv.Any[t0]("x")
		a := gv.Func1[t0, t1]("a")
		b := gv.Func1[t1, t2]("b")
		c := gv.Func1[t2, t3]("c")
		d := gv.Func1[t3, t4]("d")
		e := gv.Func1[t4, t5]("e")
		f := gv.Func1[t5, t6]("f")
		g := gv.Func1[t6, t7]("g")
		h := gv.Func1[t7, t8]("h")
		i := gv.Func1[t8, t9]("i")
		j := gv.Func1[t9, t10]("j")
		x1 := a(x)
		x2 := b(x1)
		x3 := c(x2)
		x4 := d(x3)
		x5 := e(x4)
		x6 := f(x5)
		x7 := g(x6)
		x8 := h(x7)
		x9 := i(x8)
		x10 := j(x9)
		gv.Assert("2", funcs.Compose2(a, b)(x) == x2)
		gv.Assert("3", funcs.Compose3(a, b, c)(x) == x3)
		gv.Assert("4", funcs.Compose4(a, b, c, d)(x) == x4)
		gv.Assert("5", funcs.Compose5(a, b, c, d, e)(x) == x5)
		gv.Assert("6", funcs.Compose6(a, b, c, d, e, f)(x) == x6)
		gv.Assert("7", funcs.Compose7(a, b, c, d, e, f, g)(x) == x7)
		gv.Assert("8", funcs.Compose8(a, b, c, d, e, f, g, h)(x) == x8)
		gv.Assert("9", funcs.Compose9(a, b, c, d, e, f, g, h, i)(x) == x9)
		gv.Assert("10", funcs.Compose10(a, b, c, d, e, f, g, h, i, j)(x) == x10)
	})
	gv.Register("C15", "Compose_same_type", func() {
		// funcs of one type, which the types cannot tell apart
		x := gv.Any[int]("x")
		var fs [10]func(int) int
		var xs [11]int
		xs[0] = x
		for i := range fs {
			fs[i] = gv.Func1[int, int]("f" + string(rune('a'+i)))
			xs[i+1] = fs[i](xs[i])
		}
		gv.Assert("2", funcs.Compose2(fs[0], fs[1])(x) == xs[2])
		gv.Assert("3", funcs.Compose3(fs[0], fs[1], fs[2])(x) == xs[3])
		gv.Assert("4", funcs.Compose4(fs[0], fs[1], fs[2], fs[3])(x) == xs[4])
		gv.Assert("5", funcs.Compose5(fs[0], fs[1], fs[2], fs[3], fs[4])(x) == xs[5])
		gv.Assert("6", funcs.Compose6(fs[0], fs[1], fs[2], fs[3], fs[4], fs[5])(x) == xs[6])
		gv.Assert("7", funcs.Compose7(fs[0], fs[1], fs[2], fs[3], fs[4], fs[5], fs[6])(x) == xs[7])
		gv.Assert("8", funcs.Compose8(fs[0], fs[1], fs[2], fs[3], fs[4], fs[5], fs[6], fs[7])(x) == xs[8])
		gv.Assert("9", funcs.Compose9(fs[0], fs[1], fs[2], fs[3], fs[4], fs[5], fs[6], fs[7], fs[8])(x) == xs[9])
		gv.Assert("10", funcs.Compose10(fs[0], fs[1], fs[2], fs[3], fs[4], fs[5], fs[6], fs[7], fs[8], fs[9])(x) == xs[10])
	})
}
