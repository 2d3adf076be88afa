package cfuncs

import (
	"github.com/bantling/micro/funcs"
	"vf/gv"
)

// at is a map's answer for a key.
type at[V any] struct {
	v  V
	ok bool
}

func get[K comparable, V any](m map[K]V, k K) at[V] {
	v, ok := m[k]
	return at[V]{v, ok}
}

func maps[K, V comparable](n string) {
	reg := func(name string, f func()) { gv.Register("C13", name+"_"+n, f) }
	reg("MapIndex", func() {
		m, k, d := gv.Map[K, V]("m"), gv.Any[K]("k"), gv.Any[V]("d")
		if gv.Bool("nil") {
			m = nil
		}
		old := get(m, k)
		var def, r V
		if gv.Bool("default") {
			def = d
			r = funcs.MapIndex(m, k, d)
		} else {
			r = funcs.MapIndex(m, k)
		}
		if old.ok {
			gv.Assert("the value of the key", r == old.v)
		} else {
			gv.Assert("the default, or the zero value", r == def)
		}
		gv.Assert("the map is unchanged", get(m, k) == old)
	})
	reg("MapSet", func() {
		m, k, v, other := gv.Map[K, V]("m"), gv.Any[K]("k"), gv.Any[V]("v"), gv.Any[K]("other")
		if gv.Bool("nil") {
			m = nil
		}
		old := get(m, other)
		r := m
		funcs.MapSet(&r, k, v)
		gv.Assert("the key has the value", get(r, k) == at[V]{v, true})
		gv.Assert("no other key changes", other == k || get(r, other) == old)
		gv.Assert("an existing map is changed in place", m == nil || get(m, k) == at[V]{v, true})
	})
	reg("MapTest", func() {
		m, k := gv.Map[K, V]("m"), gv.Any[K]("k")
		if gv.Bool("nil") {
			m = nil
		}
		old := get(m, k)
		gv.Assert("whether the key is in the map", funcs.MapTest(m, k) == old.ok)
		gv.Assert("the map is unchanged", get(m, k) == old)
	})
	reg("MapUnset", func() {
		m, k, other := gv.Map[K, V]("m"), gv.Any[K]("k"), gv.Any[K]("other")
		if gv.Bool("nil") {
			m = nil
		}
		old := get(m, other)
		funcs.MapUnset(m, k)
		gv.Assert("the key is gone", !get(m, k).ok)
		gv.Assert("no other key changes", other == k || get(m, other) == old)
	})
	reg("MapKeysToSlice", func() {
		m, k := gv.Map[K, V]("m"), gv.Any[K]("k")
		old := get(m, k)
		gv.Inv(func(seen func(K) bool, s []K) bool {
			return gv.Implies(seen(k), gv.Exists(0, len(s), func(i int) bool { return s[i] == k }))
		})
		gv.Inv(func(seen func(K) bool, s []K) bool {
			return gv.Forall(0, len(s), func(i int) bool { return seen(s[i]) })
		})
		gv.Inv(func(s []K) bool {
			return gv.Forall(0, len(s), func(i int) bool { return gv.Implies(s[i] == k, old.ok) })
		})
		gv.Inv(func(s []K) bool {
			return gv.Forall(0, len(s), func(i int) bool {
				return gv.Forall(0, len(s), func(j int) bool { return gv.Implies(s[i] == s[j], i == j) })
			})
		})
		r := funcs.MapKeysToSlice(m)
		gv.Assert("not nil", r != nil)
		gv.Assert("a key of the map is there, no other is", old.ok == gv.Exists(0, len(r), func(i int) bool { return r[i] == k }))
		gv.Assert("no key twice", gv.Forall(0, len(r), func(i int) bool {
			return gv.Forall(0, len(r), func(j int) bool { return gv.Implies(r[i] == r[j], i == j) })
		}))
		gv.Assert("the map is unchanged", get(m, k) == old)
	})
	reg("SliceToMap", func() {
		s, k := gv.Slice[K]("s"), gv.Any[K]("k")
		old := gv.Clone(s)
		gv.Inv(func(i int, m map[K]bool) bool {
			return get(m, k).ok == gv.Exists(0, i, func(j int) bool { return old[j] == k })
		})
		gv.Inv(func(m map[K]bool) bool { return get(m, k).ok == get(m, k).v })
		gv.Inv(func(i int) bool { return i <= len(old) })
		r := funcs.SliceToMap(s)
		gv.Assert("not nil", r != nil)
		gv.Assert("true for the elements", get(r, k).ok == get(r, k).v)
		gv.Assert("the elements, and only they, are keys", get(r, k).ok == gv.Exists(0, len(old), func(j int) bool { return old[j] == k }))
		gv.Assert("the slice is unchanged", equal(s, old))
	})
	reg("SliceToMapBy", func() {
		s, k, f := gv.Slice[V]("s"), gv.Any[K]("k"), gv.Func1[V, K]("f")
		old := gv.Clone(s)
		gv.Inv(func(i int, m map[K]bool) bool {
			return get(m, k).ok == gv.Exists(0, i, func(j int) bool { return f(old[j]) == k })
		})
		gv.Inv(func(m map[K]bool) bool { return get(m, k).ok == get(m, k).v })
		gv.Inv(func(i int) bool { return i <= len(old) })
		r := funcs.SliceToMapBy(s, f)
		gv.Assert("not nil", r != nil)
		gv.Assert("true for the images", get(r, k).ok == get(r, k).v)
		gv.Assert("the images of the elements, and only they, are keys", get(r, k).ok == gv.Exists(0, len(old), func(j int) bool { return f(old[j]) == k }))
	})
	reg("SliceUniqueValues", func() {
		s, k := gv.Slice[K]("s"), gv.Any[K]("k")
		old := gv.Clone(s)
		in := func(k K) bool { return gv.Exists(0, len(old), func(j int) bool { return old[j] == k }) }
		gv.Inv(func(i int, m map[K]int) bool {
			return get(m, k).ok == gv.Exists(0, i, func(j int) bool { return old[j] == k })
		})
		gv.Inv(func(i int) bool { return i <= len(old) })
		gv.Inv(func(seen func(K) bool, s []K) bool {
			return gv.Implies(seen(k), gv.Exists(0, len(s), func(i int) bool { return s[i] == k }))
		})
		gv.Inv(func(seen func(K) bool, s []K) bool {
			return gv.Forall(0, len(s), func(i int) bool { return seen(s[i]) })
		})
		gv.Inv(func(s []K) bool {
			return gv.Forall(0, len(s), func(i int) bool {
				return gv.Forall(0, len(s), func(j int) bool { return gv.Implies(s[i] == s[j], i == j) })
			})
		})
		r := funcs.SliceUniqueValues(s)
		gv.Assert("not nil", r != nil)
		gv.Assert("the elements of the slice, and only they", in(k) == gv.Exists(0, len(r), func(i int) bool { return r[i] == k }))
		gv.Assert("none twice", gv.Forall(0, len(r), func(i int) bool {
			return gv.Forall(0, len(r), func(j int) bool { return gv.Implies(r[i] == r[j], i == j) })
		}))
		gv.Assert("the slice is unchanged", equal(s, old))
	})
	reg("MapSliceAdd", func() {
		m, k, v, other := gv.Map[K, []V]("m"), gv.Any[K]("k"), gv.Any[V]("v"), gv.Any[K]("other")
		if gv.Bool("nil") {
			m = nil
		}
		was, wasOther := get(m, k), get(m, other)
		was.v, wasOther.v = gv.Clone(was.v), gv.Clone(wasOther.v)
		r := m
		funcs.MapSliceAdd(&r, k, v)
		is := get(r, k)
		gv.Assert("the key is there", is.ok)
		gv.Assert("one value more", len(is.v) == len(was.v)+1 && is.v[len(was.v)] == v && equalRange(is.v, 0, was.v, 0, len(was.v)))
		gv.Assert("no other key changes", other == k || get(r, other).ok == wasOther.ok && equal(get(r, other).v, wasOther.v))
		gv.Assert("an existing map is changed in place", m == nil || len(m[k]) == len(is.v))
	})
	// two levels: the outer map holds up to two entries of arbitrary distinct keys
	two := func() (m map[K]map[K]V, a, b K) {
		gv.Bounded("the outer map of a two level map has at most two entries")
		a, b = gv.Any[K]("a"), gv.Any[K]("b")
		gv.Assume(a != b)
		switch gv.Choice("outer", 4) {
		case 0:
			return nil, a, b
		case 1:
			return map[K]map[K]V{}, a, b
		case 2:
			return map[K]map[K]V{a: gv.Map[K, V]("ma")}, a, b
		}
		return map[K]map[K]V{a: gv.Map[K, V]("ma"), b: gv.Map[K, V]("mb")}, a, b
	}
	reg("Map2Set", func() {
		m, a, b := two()
		k2, v, o2 := gv.Any[K]("k2"), gv.Any[V]("v"), gv.Any[K]("o2")
		oldA, oldB := get(m[a], o2), get(m[b], o2)
		_, hadB := m[b]
		r := m
		funcs.Map2Set(&r, a, k2, v)
		gv.Assert("the keys have the value", get(r[a], k2) == at[V]{v, true})
		gv.Assert("no other second level key changes", o2 == k2 || get(r[a], o2) == oldA)
		_, hasB := r[b]
		gv.Assert("no other first level key changes", hasB == hadB && get(r[b], o2) == oldB)
		gv.Assert("an existing map is changed in place", m == nil || get(m[a], k2) == at[V]{v, true})
	})
	reg("Map2Set_twice", func() {
		var r map[K]map[K]V
		a, k2, v, k3, w := gv.Any[K]("a"), gv.Any[K]("k2"), gv.Any[V]("v"), gv.Any[K]("k3"), gv.Any[V]("w")
		funcs.Map2Set(&r, a, k2, v)
		funcs.Map2Set(&r, a, k3, w)
		gv.Assert("the later value", get(r[a], k3) == at[V]{w, true})
		gv.Assert("and the earlier one", k2 == k3 || get(r[a], k2) == at[V]{v, true})
	})
	reg("Map2Test", func() {
		m, a, _ := two()
		k2 := gv.Any[K]("k2")
		gv.Assert("whether both keys are there", funcs.Map2Test(m, a, k2) == get(m[a], k2).ok)
	})
	reg("Map2Unset", func() {
		m, a, b := two()
		k2, o2 := gv.Any[K]("k2"), gv.Any[K]("o2")
		oldA, oldB := get(m[a], o2), get(m[b], o2)
		funcs.Map2Unset(m, a, k2)
		gv.Assert("the key is gone", !get(m[a], k2).ok)
		gv.Assert("no other second level key changes", o2 == k2 || get(m[a], o2) == oldA)
		gv.Assert("no other first level key changes", get(m[b], o2) == oldB)
	})
	two2 := func() (m map[K]map[K][]V, a, b K) {
		gv.Bounded("the outer map of a two level map has at most two entries")
		a, b = gv.Any[K]("a"), gv.Any[K]("b")
		gv.Assume(a != b)
		switch gv.Choice("outer", 4) {
		case 0:
			return nil, a, b
		case 1:
			return map[K]map[K][]V{}, a, b
		case 2:
			return map[K]map[K][]V{a: gv.Map[K, []V]("ma")}, a, b
		}
		return map[K]map[K][]V{a: gv.Map[K, []V]("ma"), b: gv.Map[K, []V]("mb")}, a, b
	}
	clone := func(x at[[]V]) at[[]V] { return at[[]V]{gv.Clone(x.v), x.ok} }
	reg("Map2SliceAdd", func() {
		m, a, b := two2()
		k2, v, o2 := gv.Any[K]("k2"), gv.Any[V]("v"), gv.Any[K]("o2")
		was, oldA, oldB := clone(get(m[a], k2)), clone(get(m[a], o2)), clone(get(m[b], o2))
		r := m
		funcs.Map2SliceAdd(&r, a, k2, v)
		is := get(r[a], k2)
		gv.Assert("the key is there", is.ok)
		gv.Assert("one value more", len(is.v) == len(was.v)+1 && is.v[len(was.v)] == v && equalRange(is.v, 0, was.v, 0, len(was.v)))
		gv.Assert("no other second level key changes", o2 == k2 || get(r[a], o2).ok == oldA.ok && equal(get(r[a], o2).v, oldA.v))
		gv.Assert("no other first level key changes", get(r[b], o2).ok == oldB.ok && equal(get(r[b], o2).v, oldB.v))
	})
}

// removes checks the functions that remove a value from the slice of a key.
func removes[K, V comparable](n, name, name2 string, remove func(m map[K][]V, k K, v V, all ...bool), remove2 func(m map[K]map[K][]V, k1, k2 K, v V, all ...bool)) {
	reg := func(name string, f func()) { gv.Register("C13", name+"_"+n, f) }
	clone := func(x at[[]V]) at[[]V] { return at[[]V]{gv.Clone(x.v), x.ok} }
	two2 := func() (m map[K]map[K][]V, a, b K) {
		gv.Bounded("the outer map of a two level map has at most two entries")
		a, b = gv.Any[K]("a"), gv.Any[K]("b")
		gv.Assume(a != b)
		switch gv.Choice("outer", 4) {
		case 0:
			return nil, a, b
		case 1:
			return map[K]map[K][]V{}, a, b
		case 2:
			return map[K]map[K][]V{a: gv.Map[K, []V]("ma")}, a, b
		}
		return map[K]map[K][]V{a: gv.Map[K, []V]("ma"), b: gv.Map[K, []V]("mb")}, a, b
	}
	reg(name, func() {
		m, k, v, other := gv.Map[K, []V]("m"), gv.Any[K]("k"), gv.Any[V]("v"), gv.Any[K]("other")
		if gv.Bool("nil") {
			m = nil
		}
		was, wasOther := get(m, k), get(m, other)
		was.v, wasOther.v = gv.Clone(was.v), gv.Clone(wasOther.v)
		old := was.v
		gv.Inv(func(i int) bool { return gv.Forall(0, i, func(k int) bool { return k < len(old) && old[k] != v }) })
		remove(m, k, v)
		is := get(m, k)
		gv.Assert("the key stays, or stays away", is.ok == was.ok)
		first(is.v, old, v)
		gv.Assert("no other key changes", other == k || get(m, other).ok == wasOther.ok && equal(get(m, other).v, wasOther.v))
	})
	reg(name+"_all", func() {
		m, k, v, other := gv.Map[K, []V]("m"), gv.Any[K]("k"), gv.Any[V]("v"), gv.Any[K]("other")
		was, wasOther := get(m, k), get(m, other)
		was.v, wasOther.v = gv.Clone(was.v), gv.Clone(wasOther.v)
		old := was.v
		cnt := keptOnly(old, v)
		remove(m, k, v, true)
		is := get(m, k)
		gv.Assert("the key stays, or stays away", is.ok == was.ok)
		kept(cnt, is.v, old, v)
		gv.Assert("no other key changes", other == k || get(m, other).ok == wasOther.ok && equal(get(m, other).v, wasOther.v))
	})
	reg(name2+"_all", func() {
		m, a, b := two2()
		k2, v, o2 := gv.Any[K]("k2"), gv.Any[V]("v"), gv.Any[K]("o2")
		was, oldA, oldB := clone(get(m[a], k2)), clone(get(m[a], o2)), clone(get(m[b], o2))
		cnt := keptOnly(was.v, v)
		remove2(m, a, k2, v, true)
		is := get(m[a], k2)
		gv.Assert("the key stays, or stays away", is.ok == was.ok)
		kept(cnt, is.v, was.v, v)
		gv.Assert("no other second level key changes", o2 == k2 || get(m[a], o2).ok == oldA.ok && equal(get(m[a], o2).v, oldA.v))
		gv.Assert("no other first level key changes", get(m[b], o2).ok == oldB.ok && equal(get(m[b], o2).v, oldB.v))
	})
	reg(name2, func() {
		m, a, b := two2()
		k2, v, o2 := gv.Any[K]("k2"), gv.Any[V]("v"), gv.Any[K]("o2")
		was, oldA, oldB := clone(get(m[a], k2)), clone(get(m[a], o2)), clone(get(m[b], o2))
		old := was.v
		gv.Inv(func(i int) bool { return gv.Forall(0, i, func(k int) bool { return k < len(old) && old[k] != v }) })
		remove2(m, a, k2, v)
		is := get(m[a], k2)
		gv.Assert("the key stays, or stays away", is.ok == was.ok)
		first(is.v, old, v)
		gv.Assert("no other second level key changes", o2 == k2 || get(m[a], o2).ok == oldA.ok && equal(get(m[a], o2).v, oldA.v))
		gv.Assert("no other first level key changes", get(m[b], o2).ok == oldB.ok && equal(get(m[b], o2).v, oldB.v))
	})
}

// first: r is old without the first occurrence of v.
func first[V comparable](r, old []V, v V) {
	if len(r) == len(old) {
		gv.Assert("nothing to remove", gv.Forall(0, len(old), func(k int) bool { return old[k] != v }))
		gv.Assert("the same values", equal(r, old))
	} else {
		gv.Assert("one value less", len(r) == len(old)-1)
		gv.Assert("the first occurrence is removed, the others are kept in order", gv.Exists(0, len(old), func(p int) bool {
			return old[p] == v && gv.Forall(0, p, func(k int) bool { return old[k] != v }) &&
				equalRange(r, 0, old, 0, p) && equalRange(r, p, old, p+1, len(old)-1-p)
		}))
	}
}

func init() {
	removes("int_string", "MapSliceRemove", "Map2SliceRemove", funcs.MapSliceRemove[int, string], funcs.Map2SliceRemove[int, int, string])
	removes("string_int", "MapSliceRemove", "Map2SliceRemove", funcs.MapSliceRemove[string, int], funcs.Map2SliceRemove[string, string, int])
	removes("int_ptr", "MapSliceRemoveUncomparable", "Map2SliceRemoveUncomparable", funcs.MapSliceRemoveUncomparable[int, *int], funcs.Map2SliceRemoveUncomparable[int, int, *int])
	maps[int, string]("int_string")
	maps[string, int]("string_int")
}
