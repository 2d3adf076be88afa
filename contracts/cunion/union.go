// Package cunion has the contracts of package union.
package cunion

import (
	"fmt"

	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/union"
	"vf/gv"
)

// same is equality that also tells slices apart.
func same[T any](a, b T) bool {
	switch x := any(a).(type) {
	case []int:
		y, isa := any(b).([]int)
		return isa && (x == nil) == (y == nil) && len(x) == len(y) && (len(x) == 0 || &x[0] == &y[0])
	}
	return gv.Same(a, b)
}

// member checks that get provides want if this is the selected member, and otherwise panics.
func member[T any](selected bool, get func() T, want T) {
	var r T
	p := gv.Panics(func() { r = get() })
	gv.Assert("reading a member panics exactly if another one is selected", p == !selected)
	if selected {
		gv.Assert("the value of the member", same(r, want))
	}
}

type access struct {
	which func() union.Which
	text  func() string
	set   func(w union.Which)
	check func(w union.Which)
}

// history sets members in any order, starting with first.
func history(first union.Which, members int, a access) {
	check := func(cur union.Which) {
		gv.Assert("the member selected is the last one set", a.which() == cur)
		a.check(cur)
	}
	check(first)
	for gv.More("more") {
		a.set(union.Which(gv.Choice("earlier member", members)))
	}
	last := union.Which(gv.Choice("last member", members))
	a.set(last)
	check(last)
}

func unions[T, U, V, W any](n string) {
	reg := func(name string, f func()) { gv.Register("C19", name+"_"+n, f) }
	reg("Two", func() {
		t, u := gv.Any[T]("t"), gv.Any[U]("u")
		var x union.Two[T, U]
		first := union.Which(gv.Choice("first", 2))
		if first == union.T {
			x = union.Of2T[T, U](t)
		} else {
			x = union.Of2U[T, U](u)
		}
		history(first, 2, access{
			which: func() union.Which { return x.Which() },
			set: func(w union.Which) {
				switch w {
				case union.T:
					t = gv.Any[T]("t")
					x.SetT(t)
				default:
					u = gv.Any[U]("u")
					x.SetU(u)
				}
			},
			check: func(w union.Which) {
				member(w == union.T, func() T { return x.T() }, t)
				member(w == union.U, func() U { return x.U() }, u)
			},
		})
	})
	reg("Three", func() {
		t, u, v := gv.Any[T]("t"), gv.Any[U]("u"), gv.Any[V]("v")
		var x union.Three[T, U, V]
		first := union.Which(gv.Choice("first", 3))
		switch first {
		case union.T:
			x = union.Of3T[T, U, V](t)
		case union.U:
			x = union.Of3U[T, U, V](u)
		default:
			x = union.Of3V[T, U, V](v)
		}
		history(first, 3, access{
			which: func() union.Which { return x.Which() },
			set: func(w union.Which) {
				switch w {
				case union.T:
					t = gv.Any[T]("t")
					x.SetT(t)
				case union.U:
					u = gv.Any[U]("u")
					x.SetU(u)
				default:
					v = gv.Any[V]("v")
					x.SetV(v)
				}
			},
			check: func(w union.Which) {
				member(w == union.T, func() T { return x.T() }, t)
				member(w == union.U, func() U { return x.U() }, u)
				member(w == union.V, func() V { return x.V() }, v)
			},
		})
	})
	reg("Four", func() {
		t, u, v, y := gv.Any[T]("t"), gv.Any[U]("u"), gv.Any[V]("v"), gv.Any[W]("w")
		var x union.Four[T, U, V, W]
		first := union.Which(gv.Choice("first", 4))
		switch first {
		case union.T:
			x = union.Of4T[T, U, V, W](t)
		case union.U:
			x = union.Of4U[T, U, V, W](u)
		case union.V:
			x = union.Of4V[T, U, V, W](v)
		default:
			x = union.Of4W[T, U, V, W](y)
		}
		history(first, 4, access{
			which: func() union.Which { return x.Which() },
			set: func(w union.Which) {
				switch w {
				case union.T:
					t = gv.Any[T]("t")
					x.SetT(t)
				case union.U:
					u = gv.Any[U]("u")
					x.SetU(u)
				case union.V:
					v = gv.Any[V]("v")
					x.SetV(v)
				default:
					y = gv.Any[W]("w")
					x.SetW(y)
				}
			},
			check: func(w union.Which) {
				member(w == union.T, func() T { return x.T() }, t)
				member(w == union.U, func() U { return x.U() }, u)
				member(w == union.V, func() V { return x.V() }, v)
				member(w == union.W, func() W { return x.W() }, y)
			},
		})
	})
}

func isNil[T any](v T) bool {
	switch x := any(v).(type) {
	case nil:
		return true
	case *int:
		return x == nil
	case []int:
		return x == nil
	case map[string]int:
		return x == nil
	case func(int) int:
		return x == nil
	}
	return false
}

// maybe checks that m is present with want, or empty.
func maybe[T any](m union.Maybe[T], present bool, want T, anyT func(string) T) {
	var r T
	gv.Assert("present and empty", m.Present() == present && m.Empty() == !present)
	p, panicked := gv.Caught(func() { r = m.Get() })
	gv.Assert("getting the value panics exactly if there is none", panicked == !present && (p != nil) == !present)
	gv.Assert("the value", !present || same(r, want))
	els, e := anyT("else"), gv.ErrNonNil("error")
	got := m.OrElse(els)
	gv.Assert("the value or the alternative", gv.Implies(present, same(got, want)) && gv.Implies(!present, same(got, els)))
	r, err := m.OrError(e)
	var zero T
	gv.Assert("the value or the error", gv.Implies(present, err == nil && same(r, want)) && gv.Implies(!present, err == e && same(r, zero)))
}

func maybes[T any](n string, gen, els func(name string) T) {
	reg := func(name string, f func()) { gv.Register("C19", name+"_"+n, f) }
	reg("Maybe", func() {
		var (
			m       union.Maybe[T]
			present bool
			zero    T
		)
		v := gen("v")
		switch gv.Choice("construct", 4) {
		case 0:
		case 1:
			m = union.Empty[T]()
		case 2:
			m, present = union.Of(v), !isNil(v)
		case 3:
			p := gv.Panics(func() { m = union.Present(v) })
			gv.Assert("panics exactly for nil", p == isNil(v))
			if p {
				return
			}
			present = true
		}
		maybe(m, present, v, els)
		// any operations
		for gv.More("more") {
			x := gen("earlier")
			switch gv.Choice("earlier operation", 3) {
			case 0:
				m.Set(x)
			case 1:
				m.SetEmpty()
			case 2:
				_ = m.SetOrError(x)
			}
		}
		// the state reached
		present = m.Present()
		if present {
			v = m.Get()
		}
		maybe(m, present, v, els)
		// and one more
		x := gen("x")
		switch gv.Choice("operation", 3) {
		case 0:
			m.Set(x)
			v, present = x, !isNil(x)
		case 1:
			m.SetEmpty()
			v, present = zero, false
		case 2:
			err := m.SetOrError(x)
			gv.Assert("an error exactly if a value was present", (err != nil) == present)
			if err == nil {
				v, present = x, !isNil(x)
			}
		}
		maybe(m, present, v, els)
	})
	result := func(r union.Result[T], v T, err error) {
		gv.Assert("a result exactly without an error", r.HasResult() == (err == nil) && r.HasError() == (err != nil))
		gv.Assert("the value", same(r.Get(), v))
		gv.Assert("the error", r.Error() == err)
	}
	reg("Result", func() {
		v, err := gen("v"), gv.Any[error]("err")
		var (
			zero T
			r    union.Result[T]
		)
		result(union.OfResult(v), v, nil)
		p := gv.Panics(func() { r = union.OfError[T](err) })
		gv.Assert("an error result panics exactly for a nil error", p == (err == nil))
		if !p {
			result(r, zero, err)
		}
	})
	reg("OfResultError", func() {
		v, err := gen("v"), gv.Any[error]("err")
		var (
			zero T
			r    union.Result[T]
		)
		p := gv.Panics(func() { r = union.OfResultError(v, err) })
		gv.Assert("panics exactly for an error with a value that is not the zero value", p == (err != nil && !same(v, zero)))
		if !p {
			result(r, v, err)
		}
	})
	reg("iter.Maybe", func() {
		v, err := gen("v"), gv.Any[error]("err")
		var zero T
		it := iter.OfIter(func() (T, error) { return v, err })
		r := iter.Maybe(it)
		if err == nil {
			result(r, v, nil)
		} else {
			result(r, zero, err)
		}
	})
}

func first[T any](n string) {
	gv.Register("C19", "First_"+n, func() {
		s := gv.Slice[T]("s")
		m := union.First(s)
		if len(s) == 0 {
			var zero T
			maybe(m, false, zero, gv.Any[T])
		} else {
			maybe(m, !isNil(s[0]), s[0], gv.Any[T])
		}
	})
}

func texts[T, U, V, W any](n string) {
	reg := func(name string, f func()) { gv.Register("C19", name+"_"+n, f) }
	reg("String", func() {
		t, u, v, w := gv.Any[T]("t"), gv.Any[U]("u"), gv.Any[V]("v"), gv.Any[W]("w")
		ts, us, vs, ws := fmt.Sprintf("%v", t), fmt.Sprintf("%v", u), fmt.Sprintf("%v", v), fmt.Sprintf("%v", w)
		gv.Assert("two", union.Of2T[T, U](t).String() == ts && union.Of2U[T, U](u).String() == us)
		gv.Assert("three", union.Of3T[T, U, V](t).String() == ts && union.Of3U[T, U, V](u).String() == us && union.Of3V[T, U, V](v).String() == vs)
		gv.Assert("four", union.Of4T[T, U, V, W](t).String() == ts && union.Of4U[T, U, V, W](u).String() == us &&
			union.Of4V[T, U, V, W](v).String() == vs && union.Of4W[T, U, V, W](w).String() == ws)
		gv.Assert("a maybe", union.Of(t).String() == ts)
		err := gv.ErrNonNil("err")
		gv.Assert("a result", union.OfResult(u).String() == us)
		gv.Assert("an error", union.OfError[U](err).String() == fmt.Sprintf("%v", err))
	})
}

func init() {
	unions[int, string, *int, float64]("int_string_ptr_float64")
	unions[string, string, int, int]("string_string_int_int")
	unions[*string, []int, bool, uint8]("ptr_slice_bool_uint8")
	maybes("int", gv.Any[int], gv.Any[int])
	maybes("string", gv.Any[string], gv.Any[string])
	maybes("ptr", gv.Any[*int], gv.Any[*int])
	maybes("slice", gv.Any[[]int], gv.Any[[]int])
	maybes("any", func(n string) any {
		switch gv.Choice(n, 3) {
		case 0:
			return nil
		case 1:
			return gv.Any[int](n)
		}
		return gv.Any[*int](n)
	}, func(n string) any { return gv.Any[string](n) })
	first[int]("int")
	first[string]("string")
	first[*int]("ptr")
	texts[int, string, uint8, bool]("int_string_uint8_bool")
}
