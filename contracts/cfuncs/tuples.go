package cfuncs

import (
	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/funcs"
	"github.com/bantling/micro/tuple"
	"vf/gv"
)

// ascending: the keys are strictly ascending.
func ascending[K constraint.Ordered, V any](s []tuple.Two[K, V]) bool {
	return gv.Forall(0, len(s), func(i int) bool {
		return gv.Forall(0, len(s), func(j int) bool { return gv.Implies(i < j, s[i].T < s[j].T) })
	})
}
func indexInv[K constraint.Ordered, V any](s []tuple.Two[K, V], key K) {
	gv.Inv(func(l int) bool { return gv.Implies(0 < l, l < len(s) && s[l].T <= key) })
	gv.Inv(func(r int) bool { return gv.Forall(r+1, len(s), func(i int) bool { return s[i].T > key }) })
	gv.Inv(func(l, r int) bool { return 0 <= l && l <= r && r < len(s) })
}

func tuples[K constraint.Ordered](n string) {
	reg := func(name string, f func()) { gv.Register("C14", name+"_"+n, f) }
	reg("OrderedTuple2Search", func() {
		s, key := gv.Slice[tuple.Two[K, int]]("s"), gv.Any[K]("key")
		gv.Assume(ascending(s))
		indexInv(s, key)
		i, ok := funcs.OrderedTuple2Search(s, key)
		gv.Assert("found if and only if the key is there", ok == gv.Exists(0, len(s), func(j int) bool { return s[j].T == key }))
		if len(s) == 0 {
			gv.Assert("-1 for no elements", i == -1)
			return
		}
		gv.Assert("an index of the slice", 0 <= i && i < len(s))
		gv.Assert("found at the index", !ok || s[i].T == key)
		gv.Assert("the keys after the index are larger", gv.Forall(i+1, len(s), func(j int) bool { return key < s[j].T }))
		gv.Assert("the key at the index is not larger, unless all are larger", i == 0 || s[i].T <= key)
	})
	reg("OrderedTuple2SliceAdd", func() {
		s, key, v := gv.Slice[tuple.Two[K, []int]]("s"), gv.Any[K]("key"), gv.Any[int]("v")
		gv.Assume(ascending(s))
		indexInv(s, key)
		old := gv.Clone(s)
		// p is the position of the first key that is not smaller
		p := gv.Any[int]("p")
		gv.Assume(0 <= p && p <= len(s))
		gv.Assume(gv.Forall(0, p, func(i int) bool { return s[i].T < key }))
		there := p < len(s) && s[p].T == key
		gv.Assume(there || gv.Forall(p, len(s), func(i int) bool { return key < s[i].T }))
		r := s
		funcs.OrderedTuple2SliceAdd(&r, key, v)
		if there {
			gv.Assert("as many keys", len(r) == len(old))
			gv.Assert("the same keys", gv.Forall(0, len(old), func(i int) bool { return r[i].T == old[i].T }))
			gv.Assert("one value more for the key", len(r[p].U) == len(old[p].U)+1)
			gv.Assert("the value is added after the others", r[p].U[len(old[p].U)] == v && gv.Forall(0, len(old[p].U), func(j int) bool { return r[p].U[j] == old[p].U[j] }))
			gv.Assert("the values of other keys do not change", gv.Forall(0, len(old), func(i int) bool { return i == p || equal(r[i].U, old[i].U) }))
			return
		}
		gv.Assert("one key more", len(r) == len(old)+1)
		gv.Assert("the new key, at its position", r[p].T == key)
		gv.Assert("only the value", len(r[p].U) == 1 && r[p].U[0] == v)
		gv.Assert("smaller keys do not change", gv.Forall(0, p, func(i int) bool { return r[i].T == old[i].T && equal(r[i].U, old[i].U) }))
		gv.Assert("larger keys follow", gv.Forall(p+1, len(r), func(i int) bool { return r[i].T == old[i-1].T && equal(r[i].U, old[i-1].U) }))
	})
	reg("OrderedTuple2SliceRemoveKey", func() {
		s, key := gv.Slice[tuple.Two[K, int]]("s"), gv.Any[K]("key")
		gv.Assume(ascending(s))
		indexInv(s, key)
		old := gv.Clone(s)
		r := s
		funcs.OrderedTuple2SliceRemoveKey(&r, key)
		gv.Assert("the keys are ascending", ascending(r))
		gv.Assert("the key is gone", gv.Forall(0, len(r), func(i int) bool { return r[i].T != key }))
		if len(r) == len(old) {
			gv.Assert("nothing changes without the key", gv.Forall(0, len(old), func(i int) bool { return r[i] == old[i] }))
			return
		}
		gv.Assert("one key less", len(r) == len(old)-1)
		gv.Assert("nothing else changes", gv.Exists(0, len(old), func(p int) bool {
			return old[p].T == key &&
				gv.Forall(0, p, func(i int) bool { return r[i] == old[i] }) &&
				gv.Forall(p, len(r), func(i int) bool { return r[i] == old[i+1] })
		}))
	})
	removeValue := func(name string, all bool, remove func(s *[]tuple.Two[K, []int], key K, v int)) {
		reg(name, func() {
			s, key, v := gv.Slice[tuple.Two[K, []int]]("s"), gv.Any[K]("key"), gv.Any[int]("v")
			gv.Assume(ascending(s))
			indexInv(s, key)
			old := gv.Clone(s)
			p := gv.Any[int]("p")
			gv.Assume(0 <= p && p < len(old) && old[p].T == key || p == -1 && gv.Forall(0, len(old), func(i int) bool { return old[i].T != key }))
			var u []int
			if p >= 0 {
				u = gv.Clone(old[p].U)
			}
			cnt := keptOnly(u, v)
			gv.Inv(func(i int) bool { return gv.Forall(0, i, func(k int) bool { return k < len(u) && u[k] != v }) })
			r := s
			remove(&r, key, v)
			gv.Assert("the same keys", len(r) == len(old) && gv.Forall(0, len(old), func(i int) bool { return r[i].T == old[i].T }))
			gv.Assert("the values of other keys do not change", gv.Forall(0, len(old), func(i int) bool { return i == p || equal(r[i].U, old[i].U) }))
			if p < 0 {
				return
			}
			if all {
				kept(cnt, r[p].U, u, v)
				return
			}
			w := r[p].U
			if len(w) == len(u) {
				gv.Assert("no such value", gv.Forall(0, len(u), func(k int) bool { return u[k] != v }))
				gv.Assert("the values do not change", equal(w, u))
				return
			}
			gv.Assert("one value less", len(w) == len(u)-1)
			gv.Assert("the first occurrence is removed, the others are kept in order", gv.Exists(0, len(u), func(q int) bool {
				return u[q] == v && gv.Forall(0, q, func(k int) bool { return u[k] != v }) &&
					equalRange(w, 0, u, 0, q) && equalRange(w, q, u, q+1, len(u)-1-q)
			}))
		})
	}
	removeValue("OrderedTuple2SliceRemoveValue", false, func(s *[]tuple.Two[K, []int], key K, v int) {
		funcs.OrderedTuple2SliceRemoveValue(s, key, v)
	})
	removeValue("OrderedTuple2SliceRemoveValue_not_all", false, func(s *[]tuple.Two[K, []int], key K, v int) {
		funcs.OrderedTuple2SliceRemoveValue(s, key, v, false)
	})
	removeValue("OrderedTuple2SliceRemoveValue_all", true, func(s *[]tuple.Two[K, []int], key K, v int) {
		funcs.OrderedTuple2SliceRemoveValue(s, key, v, true)
	})
}

func init() {
	tuples[int]("int")
	tuples[string]("string")
}
