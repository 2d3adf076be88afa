package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
)

// Draw is an arbitrary value introduced by a contract; its model value is the candidate
// failing input that is replayed on the real code.
type Draw struct {
	Name string
	V    Value
	Typ  types.Type
	Snap *Obj // content at creation (slices, pointers)
}

const drawElems = 8

func (d *Draw) lens(st *State) []*Term {
	switch x := d.V.(type) {
	case SliceV:
		return []*Term{x.Len}
	case *StrV:
		return []*Term{x.Len}
	}
	return nil
}
func (d *Draw) smallness(st *State) []*Term {
	var r []*Term
	for _, l := range d.lens(st) {
		if l.N == nil {
			r = append(r, Le(l, TI(drawElems)))
		}
	}
	return r
}

type rend struct {
	st    *State
	m     map[string]string
	terms []*Term
	get   bool // collecting
}

func (r *rend) t(t *Term) string {
	if r.get {
		if t.bound {
			return ""
		}
		r.terms = append(r.terms, t)
		return ""
	}
	return r.m[t.String()]
}
func (r *rend) val(v Value, t types.Type, snap *Obj) interface{} {
	switch x := v.(type) {
	case *Term:
		return r.t(x)
	case FloatV:
		return map[string]interface{}{"cls": r.t(x.Cls), "val": r.t(x.Val)}
	case *StrV:
		n := drawElems
		if x.IsVec {
			n = len(x.Vec)
		}
		l := r.t(x.Len)
		var bs []int
		k, _ := strconv.Atoi(l)
		for i := 0; i < n; i++ {
			s := r.t(x.at(TI(int64(i))))
			if i < k {
				b, _ := strconv.Atoi(s)
				bs = append(bs, b&255)
			}
		}
		return map[string]interface{}{"len": l, "bytes": bs}
	case StructV:
		var out []interface{}
		u, _ := under(t).(*types.Struct)
		for i, f := range x {
			var ft types.Type
			if u != nil {
				ft = u.Field(i).Type()
			}
			out = append(out, r.val(f, ft, nil))
		}
		return out
	case ArrayV:
		var out []interface{}
		u, _ := under(t).(*types.Array)
		for _, f := range x {
			out = append(out, r.val(f, u.Elem(), nil))
		}
		return out
	case SliceV:
		if x.Obj == 0 || snap == nil {
			return map[string]interface{}{"len": "0", "nil": "true"}
		}
		l := r.t(x.Len)
		nl := r.t(x.Nil)
		k, _ := strconv.Atoi(l)
		var es []interface{}
		for i := 0; i < drawElems; i++ {
			var ev Value
			if snap.Sym != nil {
				s2 := r.st.clone()
				ev = s2.decode(snap.Sym.sel(Add(x.Off, TI(int64(i)))), snap.Typ)
			} else if i < len(snap.Vec) {
				ev = snap.Vec[i]
			} else {
				break
			}
			o := r.val(ev, snap.Typ, nil)
			if i < k {
				es = append(es, o)
			}
		}
		return map[string]interface{}{"len": l, "nil": nl, "elems": es}
	case Ptr:
		if snap != nil && snap.Kind == 'c' {
			return r.val(snap.Val, snap.Typ, nil)
		}
		if x.Sym != nil {
			return r.t(x.Sym)
		}
		return "ptr"
	case IfaceV:
		if x.Sym != nil {
			return map[string]interface{}{"iface": r.t(x.Sym)}
		}
		if x.Typ == nil {
			return map[string]interface{}{"iface": "0"}
		}
		return r.val(x.Val, x.Typ, nil)
	}
	return nil
}
func (d *Draw) terms(st *State) []*Term {
	r := &rend{st: st, get: true}
	r.val(d.V, d.Typ, d.Snap)
	return r.terms
}
func (d *Draw) render(st *State, m map[string]string) interface{} {
	r := &rend{st: st, m: m}
	return r.val(d.V, d.Typ, d.Snap)
}

// addDraw registers a drawn value under a path-unique name.
func (st *State) addDraw(name string, v Value, t types.Type) {
	n := 0
	for _, d := range st.draws {
		if d.Name == name || (len(d.Name) > len(name) && d.Name[:len(name)+1] == name+"#") {
			n++
		}
	}
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n+1)
	}
	d := &Draw{Name: name, V: v, Typ: t}
	switch x := v.(type) {
	case SliceV:
		if x.Obj != 0 {
			d.Snap = st.obj(x.Obj)
		}
	case Ptr:
		if x.Obj != 0 {
			d.Snap = st.obj(x.Obj)
		}
	}
	st.draws = append(st.draws, d)
}

var _ = big.NewInt
