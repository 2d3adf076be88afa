// Package cevent has the contracts of package event.
package cevent

import (
	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/event"
	"vf/gv"
)

type receiver struct {
	n   int
	f   func(int) int
	log *[]int
}

func (r *receiver) Process(t int) int {
	*r.log = append(*r.log, r.n)
	return r.f(t)
}

// entry is a receiver registered for an id.
type entry[I constraint.Ordered] struct {
	id I
	r  int
}

func history[I constraint.Ordered](n string, registers int) {
	gv.Register("C20", n, func() {
		gv.Bounded("registrations followed by one removal or registration, and 2 receivers")
		var (
			reg   event.Registry[I, int]
			log   []int
			rs    [2]*receiver
			model []entry[I] // in the order of calls
		)
		for i := range rs {
			rs[i] = &receiver{i, gv.Func1[int, int]("f" + string(rune('0'+i))), &log}
		}
		register := func(id I, r int) {
			reg.Register(id, rs[r])
			at := len(model)
			for at > 0 && id < model[at-1].id {
				at--
			}
			model = append(model, entry[I]{})
			copy(model[at+1:], model[at:])
			model[at] = entry[I]{id, r}
		}
		remove := func(match func(e entry[I]) bool, all bool) {
			var kept []entry[I]
			done := false
			for _, e := range model {
				if match(e) && (all || !done) {
					done = true
				} else {
					kept = append(kept, e)
				}
			}
			model = kept
		}
		for i := 0; i < registers; i++ {
			register(gv.Any[I]("id"), gv.Choice("receiver", 2))
		}
		id := gv.Any[I]("id")
		r := gv.Choice("receiver", 2)
		switch gv.Choice("operation", 5) {
		case 0:
			register(id, r)
		case 1:
			reg.RemoveId(id)
			remove(func(e entry[I]) bool { return e.id == id }, true)
		case 2:
			reg.Remove(id, rs[r])
			remove(func(e entry[I]) bool { return e.id == id && e.r == r }, false)
		case 3:
			reg.Remove(id, rs[r], false)
			remove(func(e entry[I]) bool { return e.id == id && e.r == r }, false)
		case 4:
			reg.Remove(id, rs[r], true)
			remove(func(e entry[I]) bool { return e.id == id && e.r == r }, true)
		}
		v := gv.Any[int]("v")
		got := reg.Send(v)
		gv.Assert("every registered receiver is called, and no other", len(log) == len(model))
		want := v
		for i, e := range model {
			gv.Assert("in the order of the ids, and of registration for the same id", log[i] == e.r)
			want = rs[e.r].f(want)
		}
		gv.Assert("each receives what the one before returned, and the last value is returned", got == want)
	})
}

func init() {
	for i, n := range []string{"0", "1", "2", "3"} {
		history[int]("Registry_int_"+n, i)
		history[string]("Registry_string_"+n, i)
	}
	gv.Register("C20", "ReceiverFunc", func() {
		f, v := gv.Func1[int, int]("f"), gv.Any[int]("v")
		gv.Assert("calls the function", event.ReceiverFunc[int](f).Process(v) == f(v))
	})
}
