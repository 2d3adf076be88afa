package main

// Assumed contracts of the sorting functions of the standard library: given a strict weak order
// (an obligation of the caller), the elements are permuted into order.

import (
	"fmt"
	"go/token"
	"go/types"
)

type lessFn func(st *State, i, j *Term, k func(*State, *Term))

func native(f func(st *State, args []Value, k Ret)) FuncV {
	return FuncV{Sym: &SymFunc{Name: "native", Hook: f}}
}

// forall builds a quantified formula over lo <= x < hi of what body computes.
func (e *Engine) forallN(st *State, n int, lo, hi *Term, body func(st *State, xs []*Term, k func(*State, *Term))) *Term {
	var rec func(st *State, xs []*Term) *Term
	rec = func(st *State, xs []*Term) *Term {
		return e.quant(st, lo, hi, native(func(st *State, args []Value, k Ret) {
			ys := append(append([]*Term(nil), xs...), args[0].(*Term))
			if len(ys) == n {
				body(st, ys, func(s *State, t *Term) { k(s, t) })
				return
			}
			k(st, rec(st, ys))
		}), true)
	}
	return rec(st, nil)
}

func (e *Engine) sortSlice(c *Call, sl SliceV, less lessFn) {
	st := c.st
	if sl.Obj == 0 {
		c.ret(TupleV{})
		return
	}
	if sl.Len.N != nil && sl.Len.N.Int64() <= 1 {
		c.ret(TupleV{})
		return
	}
	o := st.obj(sl.Obj)
	old := st.symTree(o)
	off, n := sl.Off, sl.Len
	where := ""
	if c.site != nil {
		where = e.pos(c.site)
	}
	at := func(x *Term) *Term { return Sub(x, off) }
	end := Add(off, n)
	e.assert(st, "the order given to "+c.fn.Name()+" is asymmetric", where, e.forallN(st, 2, off, end, func(st *State, x []*Term, k func(*State, *Term)) {
		less(st, at(x[0]), at(x[1]), func(s *State, a *Term) {
			less(s, at(x[1]), at(x[0]), func(s *State, b *Term) { k(s, Not(And(a, b))) })
		})
	}))
	e.assert(st, "the order given to "+c.fn.Name()+" is transitive, also for equal elements", where, e.forallN(st, 3, off, end, func(st *State, x []*Term, k func(*State, *Term)) {
		less(st, at(x[0]), at(x[2]), func(s *State, a *Term) {
			less(s, at(x[0]), at(x[1]), func(s *State, b *Term) {
				less(s, at(x[1]), at(x[2]), func(s *State, d *Term) { k(s, Implies(a, Or(b, d))) })
			})
		})
	}))
	name := e.freshName("sort")
	cont := old.mapT(func(t *Term) *Term { return TVar(e.freshName(name), t.S) })
	st.noteWrite(Ptr{Obj: sl.Obj})
	nobj := *o
	nobj.Vec, nobj.Sym, nobj.BigVal = nil, cont, nil
	st.setObj(sl.Obj, &nobj)
	from := func(x *Term) *Term { return TApp(name+".from", SInt, x) }
	to := func(x *Term) *Term { return TApp(name+".to", SInt, x) }
	b := TBound("?p", SInt)
	in := func(x *Term) *Term { return And(Le(off, x), Lt(x, end)) }
	var ol, nl []*Term
	old.leaves(&ol)
	cont.leaves(&nl)
	same := func(x, y *Term) *Term { // new[x] == old[y]
		r := TTrue
		for i := range ol {
			r = And(r, Eq(Select(nl[i], x), Select(ol[i], y)))
		}
		return r
	}
	st.define(Forall(b, Implies(in(b), And(in(from(b)), Eq(to(from(b)), b), same(b, from(b))))))
	st.define(Forall(b, Implies(in(b), And(in(to(b)), Eq(from(to(b)), b), same(to(b), b)))))
	st.define(Forall(b, Implies(Not(in(b)), same(b, b))))
	st.define(e.permTerm(ol, off, nl, off, n))
	st.define(e.permTerm(nl, off, ol, off, n))
	e.sorts = append(e.sorts, sortedPair{ol, nl, off, n})
	st.define(e.forallN(st, 2, off, end, func(st *State, x []*Term, k func(*State, *Term)) {
		less(st, at(x[1]), at(x[0]), func(s *State, a *Term) { k(s, Implies(Lt(x[0], x[1]), Not(a))) })
	}))
	c.ret(TupleV{})
}

// sortedPair has the content of a slice before and after sorting it.
type sortedPair struct {
	old, new []*Term
	off, n   *Term
}

func (e *Engine) permTerm(a []*Term, ao *Term, b []*Term, bo, n *Term) *Term {
	args := append(append(append([]*Term(nil), a...), ao), b...)
	return TApp(fmt.Sprintf("perm!%d", len(a)), SBool, append(args, bo, n)...)
}
func init() {
	ghost("Permutation", func(e *Engine, c *Call) {
		a, b := c.args[0].(SliceV), c.args[1].(SliceV)
		if a.Obj == 0 || b.Obj == 0 {
			c.ret(And(Eq(a.Len, TI(0)), Eq(b.Len, TI(0))))
			return
		}
		var al, bl []*Term
		c.st.symTree(c.st.obj(a.Obj)).leaves(&al)
		c.st.symTree(c.st.obj(b.Obj)).leaves(&bl)
		p := e.permTerm(al, a.Off, bl, b.Off, a.Len)
		x := TBound("?p", SInt)
		eq := TTrue
		for i := range al {
			eq = And(eq, Eq(Select(al[i], Add(a.Off, x)), Select(bl[i], Add(b.Off, x))))
		}
		c.st.define(Implies(Forall(x, Implies(And(Le(TI(0), x), Lt(x, a.Len)), eq)), p))
		// Copies of the slice before and after a sort are permutations too
		for _, o := range e.sorts {
			if len(o.old) != len(al) {
				continue
			}
			eq := TTrue
			for i := range al {
				if al[i].S != o.old[i].S {
					eq = TFalse
					break
				}
				eq = And(eq, Eq(Select(al[i], Add(a.Off, x)), Select(o.old[i], Add(o.off, x))))
				eq = And(eq, Eq(Select(bl[i], Add(b.Off, x)), Select(o.new[i], Add(o.off, x))))
			}
			if eq == TFalse {
				continue
			}
			same := Forall(x, Implies(And(Le(TI(0), x), Lt(x, a.Len)), eq))
			c.st.define(Implies(And(Eq(a.Len, o.n), e.permTerm(o.old, o.off, o.new, o.off, o.n), same), p))
		}
		c.ret(And(Eq(a.Len, b.Len), Or(Le(a.Len, TI(0)), p)))
	})
	bySlice := func(e *Engine, c *Call) {
		iv := c.args[0].(IfaceV)
		sl, ok := iv.Val.(SliceV)
		if !ok {
			panic(unsup("%s of %T", c.fn, iv.Val))
		}
		e.sortSlice(c, sl, func(st *State, i, j *Term, k func(*State, *Term)) {
			k(st, e.evalPred(st, c.args[1], []Value{i, j}))
		})
	}
	handlers["sort.Slice"] = bySlice
	handlers["sort.SliceStable"] = bySlice
	elem := func(st *State, sl SliceV, i *Term) Value {
		o := st.obj(sl.Obj)
		return st.decode(st.symTree(o).sel(Add(sl.Off, i)), o.Typ)
	}
	byCmp := func(e *Engine, c *Call) {
		sl := c.args[0].(SliceV)
		e.sortSlice(c, sl, func(st *State, i, j *Term, k func(*State, *Term)) {
			k(st, e.evalPredC(st, c.args[1], []Value{elem(st, sl, i), elem(st, sl, j)}, func(t *Term) *Term { return Lt(t, TI(0)) }))
		})
	}
	handlers["slices.SortFunc"] = byCmp
	handlers["slices.SortStableFunc"] = byCmp
	ordered := func(e *Engine, c *Call) {
		sl := c.args[0].(SliceV)
		e.sortSlice(c, sl, func(st *State, i, j *Term, k func(*State, *Term)) {
			t := st.obj(sl.Obj).Typ
			e.binop(st, token.LSS, elem(st, sl, i), elem(st, sl, j), t, t, types.Typ[types.Bool], nil, nil, func(s *State, v Value) { k(s, v.(*Term)) })
		})
	}
	for _, n := range []string{"slices.Sort", "sort.Ints", "sort.Strings"} {
		handlers[n] = ordered
	}
}
