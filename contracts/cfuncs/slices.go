// Package cfuncs holds the contracts of github.com/bantling/micro/funcs.
package cfuncs

import (
	"github.com/bantling/micro/funcs"
	"vf/gv"
)

func equalRange[T comparable](a []T, ao int, b []T, bo, n int) bool {
	return gv.Forall(0, n, func(i int) bool { return a[ao+i] == b[bo+i] })
}

// equal: same length, same elements.
func equal[T comparable](a, b []T) bool { return len(a) == len(b) && equalRange(a, 0, b, 0, len(a)) }

// keptOnly offers the invariants of a loop that collects the elements of old other than v.
func keptOnly[T comparable](old []T, v T) (cnt func(int) int) {
	cnt = gv.Count(func(i int) bool { return old[i] != v })
	gv.Inv(func(i int, r []T) bool { return len(r) == cnt(i) })
	gv.Inv(func(i int) bool { return 0 <= cnt(i) && cnt(i) <= i })
	gv.Inv(func(i int) bool {
		return gv.Forall(0, i, func(k int) bool { return gv.Implies(old[k] != v, 0 <= cnt(k) && cnt(k) < cnt(i)) })
	})
	gv.Inv(func(i int, r []T) bool {
		return gv.Forall(0, i, func(k int) bool { return gv.Implies(old[k] != v, cnt(k) < len(r) && r[cnt(k)] == old[k]) })
	})
	return cnt
}

// kept: r holds the elements of old other than v, in order.
func kept[T comparable](cnt func(int) int, r, old []T, v T) {
	gv.Assert("as many elements as there are others", len(r) == cnt(len(old)))
	gv.Assert("every other element is kept in order", gv.Forall(0, len(old), func(k int) bool {
		return gv.Implies(old[k] != v, 0 <= cnt(k) && cnt(k) < len(r) && r[cnt(k)] == old[k])
	}))
}

func removal[T comparable](name, n string, remove func([]T, T, ...bool) []T) {
	gv.Register("C12", name+"_first_"+n, func() {
		s, v := gv.Slice[T]("s"), gv.Any[T]("v")
		old := gv.Clone(s)
		gv.Inv(func(i int) bool { return gv.Forall(0, i, func(k int) bool { return k < len(old) && old[k] != v }) })
		var r []T
		switch gv.Choice("all", 2) {
		case 0:
			r = remove(s, v)
		case 1:
			r = remove(s, v, false)
		}
		gv.Assert("the original is unchanged", equal(s, old))
		if len(r) == len(old) {
			gv.Assert("nothing to remove", gv.Forall(0, len(old), func(k int) bool { return old[k] != v }))
			gv.Assert("the same elements", equal(r, old))
			return
		}
		gv.Assert("one element less", len(r) == len(old)-1)
		gv.Assert("the first occurrence is removed, the others are kept in order", gv.Exists(0, len(old), func(p int) bool {
			return old[p] == v && gv.Forall(0, p, func(k int) bool { return old[k] != v }) &&
				equalRange(r, 0, old, 0, p) && equalRange(r, p, old, p+1, len(old)-1-p)
		}))
	})
	gv.Register("C12", name+"_all_"+n, func() {
		s, v := gv.Slice[T]("s"), gv.Any[T]("v")
		old := gv.Clone(s)
		cnt := keptOnly(old, v)
		r := remove(s, v, true)
		gv.Assert("the original is unchanged", equal(s, old))
		kept(cnt, r, old, v)
	})
}

func slices[T comparable](n string, other func(T) T) {
	gv.Register("C12", "SliceAdd_"+n, func() {
		s, v := gv.Slice[T]("s"), gv.Any[T]("v")
		old := gv.Clone(s)
		r := s
		funcs.SliceAdd(&r, v)
		gv.Assert("one element more", len(r) == len(old)+1)
		gv.Assert("the value is last", r[len(old)] == v)
		gv.Assert("the elements before it are kept", equalRange(r, 0, old, 0, len(old)))
		gv.Assert("the original elements are unchanged", equal(s, old))
	})
	gv.Register("C12", "SliceAdd_nil_"+n, func() {
		v := gv.Any[T]("v")
		var r []T
		funcs.SliceAdd(&r, v)
		gv.Assert("just the value", len(r) == 1 && r[0] == v)
	})
	gv.Register("C12", "SliceCopy_"+n, func() {
		s := gv.Slice[T]("s")
		old := gv.Clone(s)
		r := funcs.SliceCopy(s)
		gv.Assert("not nil", r != nil)
		gv.Assert("an equal slice", equal(r, old))
		i := gv.Any[int]("i")
		if i >= 0 && i < len(r) {
			r[i] = other(r[i])
			gv.Assert("changing the copy leaves the original alone", equal(s, old))
		}
	})
	gv.Register("C12", "SliceIndex_"+n, func() {
		s, i, d := gv.Slice[T]("s"), gv.Any[int]("i"), gv.Any[T]("d")
		gv.Assume(-1<<62 < i && i < 1<<62)
		var r T
		var zero T
		def := zero
		if gv.Bool("default") {
			def = d
			if gv.Bool("nil") {
				s = nil
			}
			r = funcs.SliceIndex(s, i, d)
		} else {
			r = funcs.SliceIndex(s, i)
		}
		switch {
		case i >= 0 && i < len(s):
			gv.Assert("the element at the index", r == s[i])
		case i < 0 && i >= -len(s):
			gv.Assert("the element at the index from the end", r == s[len(s)+i])
		default:
			gv.Assert("the default value, or the zero value", r == def)
		}
	})
	gv.Register("C12", "SliceOf_"+n, func() {
		a, b, c := gv.Any[T]("a"), gv.Any[T]("b"), gv.Any[T]("c")
		r := funcs.SliceOf(a, b, c)
		gv.Assert("the values", len(r) == 3 && r[0] == a && r[1] == b && r[2] == c)
	})
	removal("SliceRemove", n, funcs.SliceRemove[T])
	gv.Register("C12", "SliceReverse_"+n, func() {
		s := gv.Slice[T]("s")
		old := gv.Clone(s)
		l := len(s)
		gv.Inv(func(i int) bool { return gv.Forall(0, i, func(k int) bool { return k < l && s[k] == old[l-1-k] }) })
		gv.Inv(func(i int) bool { return gv.Forall(0, i, func(k int) bool { return k < l && s[l-1-k] == old[k] }) })
		gv.Inv(func(i int) bool { return gv.Forall(i, l-i, func(k int) bool { return k < l && s[k] == old[k] }) })
		r := funcs.SliceReverse(s)
		gv.Assert("the same length", len(r) == l)
		gv.Assert("in the opposite order", gv.Forall(0, l, func(k int) bool { return r[k] == old[l-1-k] }))
		gv.Assert("in place", gv.Forall(0, l, func(k int) bool { return s[k] == r[k] }))
	})
}

func init() {
	slices("int", func(i int) int { return i + 1 })
	slices("string", func(s string) string { return s + "x" })
	removal("SliceRemoveUncomparable", "ptr", funcs.SliceRemoveUncomparable[*int])
}
