package main

// Assumed contracts of package strings.

import (
	"go/types"
	"strings"
)

// expandAll expands the string arguments is of a call, then continues with the call updated.
func (e *Engine) expandAll(c *Call, is []int, k func(c *Call)) {
	if len(is) == 0 {
		k(c)
		return
	}
	e.expand(c.st, c.args[is[0]], func(st *State, s *StrV) {
		n := *c
		n.st = st
		n.args = append([]Value(nil), c.args...)
		n.args[is[0]] = s
		e.expandAll(&n, is[1:], k)
	})
}

func vecAt(a []*Term, off int, b []*Term) *Term {
	if off < 0 || off+len(b) > len(a) {
		return TFalse
	}
	r := TTrue
	for i := range b {
		r = And(r, Eq(a[off+i], b[i]))
	}
	return r
}

func prefixTerm(s, p *StrV) *Term {
	if p.IsVec {
		if s.IsVec {
			return vecAt(s.Vec, 0, p.Vec)
		}
		r := Le(TI(int64(len(p.Vec))), s.Len)
		for i := range p.Vec {
			r = And(r, Eq(s.at(TI(int64(i))), p.Vec[i]))
		}
		return r
	}
	panic(unsup("strings prefix of unknown length"))
}

func strSlice(st *State, vs []*StrV) Value {
	vec := make([]Value, len(vs))
	for i := range vs {
		vec[i] = vs[i]
	}
	id := st.alloc(&Obj{Kind: 'a', Typ: types.Typ[types.String], Vec: vec})
	n := TI(int64(len(vec)))
	return SliceV{id, TI(0), n, n, TFalse}
}

func init() {
	hs := func(name string, is []int, h func(e *Engine, c *Call)) {
		handlers["strings."+name] = func(e *Engine, c *Call) { e.expandAll(c, is, func(c *Call) { h(e, c) }) }
	}
	hs("HasPrefix", []int{0, 1}, func(e *Engine, c *Call) { c.ret(prefixTerm(c.str(0), c.str(1))) })
	hs("HasSuffix", []int{0, 1}, func(e *Engine, c *Call) {
		s, p := c.str(0), c.str(1)
		if !p.IsVec {
			panic(unsup("strings.HasSuffix of unknown length"))
		}
		if s.IsVec {
			c.ret(vecAt(s.Vec, len(s.Vec)-len(p.Vec), p.Vec))
			return
		}
		r := Le(TI(int64(len(p.Vec))), s.Len)
		for i := range p.Vec {
			r = And(r, Eq(s.at(Sub(s.Len, TI(int64(len(p.Vec)-i)))), p.Vec[i]))
		}
		c.ret(r)
	})
	hs("Repeat", []int{0}, func(e *Engine, c *Call) {
		n := c.t(1)
		e.guard(c.st, Le(TI(0), n), "strings: negative Repeat count", c.p, func(st *State) {
			e.concretize(st, n, 0, 65, func(st *State, k int64) {
				r := concStr("")
				for i := int64(0); i < k; i++ {
					r = st.strCat(r, c.str(0))
				}
				c.k(st, r)
			})
		})
	})
	index := func(name string, last bool) {
		hs(name, []int{0, 1}, func(e *Engine, c *Call) {
			s, p := c.str(0), c.str(1)
			if !s.IsVec || !p.IsVec {
				panic(unsup("strings.%s on a text of unknown length", name))
			}
			r := TI(-1)
			for i := 0; i <= len(s.Vec)-len(p.Vec); i++ {
				j := len(s.Vec) - len(p.Vec) - i
				if last {
					j = i
				}
				r = Ite(vecAt(s.Vec, j, p.Vec), TI(int64(j)), r)
			}
			c.ret(r)
		})
	}
	index("Index", false)
	index("LastIndex", true)
	handlers["strings.IndexByte"] = func(e *Engine, c *Call) {
		n := *c
		n.args = []Value{c.args[0], vecStr([]*Term{c.t(1)})}
		handlers["strings.Index"](e, &n)
	}
	hs("Contains", []int{0, 1}, func(e *Engine, c *Call) {
		s, p := c.str(0), c.str(1)
		if cs, ok := s.concrete(); ok {
			if cp, ok := p.concrete(); ok {
				c.ret(TBool(strings.Contains(cs, cp)))
				return
			}
		}
		if !s.IsVec || !p.IsVec {
			panic(unsup("strings.Contains on a text of unknown length"))
		}
		r := TFalse
		for i := 0; i <= len(s.Vec)-len(p.Vec); i++ {
			r = Or(r, vecAt(s.Vec, i, p.Vec))
		}
		c.ret(r)
	})
	hs("Replace", []int{0, 1, 2}, func(e *Engine, c *Call) {
		s, o, n, cnt := c.str(0), c.str(1), c.str(2), c.t(3)
		if !s.IsVec || !o.IsVec || len(o.Vec) == 0 || cnt.N == nil {
			panic(unsup("strings.Replace on a text of unknown length"))
		}
		var rec func(st *State, at int, acc *StrV, left int64)
		rec = func(st *State, at int, acc *StrV, left int64) {
			if left == 0 || at+len(o.Vec) > len(s.Vec) {
				c.k(st, st.strCat(acc, vecStr(s.Vec[at:])))
				return
			}
			e.fork(st, vecAt(s.Vec, at, o.Vec), func(st *State) { rec(st, at+len(o.Vec), st.strCat(acc, n), left-1) },
				func(st *State) { rec(st, at+1, st.strCat(acc, vecStr(s.Vec[at:at+1])), left) })
		}
		rec(c.st, 0, concStr(""), cnt.N.Int64())
	})
	handlers["strings.ReplaceAll"] = func(e *Engine, c *Call) {
		n := *c
		n.args = append(append([]Value(nil), c.args...), TI(-1))
		handlers["strings.Replace"](e, &n)
	}
	hs("Split", []int{0, 1}, func(e *Engine, c *Call) {
		s, o := c.str(0), c.str(1)
		if !s.IsVec || !o.IsVec || len(o.Vec) == 0 {
			panic(unsup("strings.Split on a text of unknown length"))
		}
		var rec func(st *State, from, at int, acc []*StrV)
		rec = func(st *State, from, at int, acc []*StrV) {
			if at+len(o.Vec) > len(s.Vec) {
				c.k(st, strSlice(st, append(acc[:len(acc):len(acc)], vecStr(s.Vec[from:]))))
				return
			}
			e.fork(st, vecAt(s.Vec, at, o.Vec), func(st *State) {
				rec(st, at+len(o.Vec), at+len(o.Vec), append(acc[:len(acc):len(acc)], vecStr(s.Vec[from:at])))
			}, func(st *State) { rec(st, from, at+1, acc) })
		}
		rec(c.st, 0, 0, nil)
	})
	handlers["strings.Join"] = func(e *Engine, c *Call) {
		el, ok := c.st.elemsOf(c.args[0].(SliceV))
		if !ok {
			panic(unsup("strings.Join of a slice of unknown length"))
		}
		var rec func(st *State, i int, acc *StrV)
		rec = func(st *State, i int, acc *StrV) {
			if i == len(el) {
				c.k(st, acc)
				return
			}
			e.expand(st, el[i], func(st *State, x *StrV) {
				if i > 0 {
					acc := st.strCat(acc, c.str(1))
					rec(st, i+1, st.strCat(acc, x))
					return
				}
				rec(st, i+1, x)
			})
		}
		rec(c.st, 0, concStr(""))
	}
	ascii := func(name string, lo, hi byte, d int64, f func(string) string) {
		hs(name, []int{0}, func(e *Engine, c *Call) {
			s := c.str(0)
			if cs, ok := s.concrete(); ok {
				c.ret(concStr(f(cs)))
				return
			}
			if !s.IsVec {
				panic(unsup("strings.%s of a text of unknown length", name))
			}
			all := TTrue
			v := make([]*Term, len(s.Vec))
			for i, x := range s.Vec {
				all = And(all, Lt(x, TI(128)))
				v[i] = Ite(And(Le(TI(int64(lo)), x), Le(x, TI(int64(hi)))), Add(x, TI(d)), x)
			}
			e.fork(c.st, all, func(st *State) { c.k(st, vecStr(v)) }, func(st *State) {
				c.k(st, st.opaqueStr(TApp("strings."+name, SStr, st.strTerm(s))))
			})
		})
	}
	ascii("ToUpper", 'a', 'z', -32, strings.ToUpper)
	ascii("ToLower", 'A', 'Z', 32, strings.ToLower)

	trim := func(name string, left, right bool, in func(b *Term, c *Call) *Term) {
		hs(name, []int{0}, func(e *Engine, c *Call) {
			s := c.str(0)
			if !s.IsVec {
				panic(unsup("strings.%s of a text of unknown length", name))
			}
			var r func(st *State, v []*Term)
			r = func(st *State, v []*Term) {
				if !right || len(v) == 0 {
					c.k(st, vecStr(v))
					return
				}
				e.fork(st, in(v[len(v)-1], c), func(st *State) { r(st, v[:len(v)-1]) }, func(st *State) { c.k(st, vecStr(v)) })
			}
			var l func(st *State, v []*Term)
			l = func(st *State, v []*Term) {
				if !left || len(v) == 0 {
					r(st, v)
					return
				}
				e.fork(st, in(v[0], c), func(st *State) { l(st, v[1:]) }, func(st *State) { r(st, v) })
			}
			l(c.st, s.Vec)
		})
	}
	cutset := func(b *Term, c *Call) *Term {
		r := TFalse
		for _, x := range []byte(c.conc(1)) {
			if x >= 0x80 {
				panic(unsup("non-ASCII cutset"))
			}
			r = Or(r, Eq(b, TI(int64(x))))
		}
		return r
	}
	trim("Trim", true, true, cutset)
	trim("TrimLeft", true, false, cutset)
	trim("TrimRight", false, true, cutset)
	for _, pre := range []bool{true, false} {
		pre := pre
		n := "TrimSuffix"
		if pre {
			n = "TrimPrefix"
		}
		hs(n, []int{0, 1}, func(e *Engine, c *Call) {
			s, p := c.str(0), c.str(1)
			if !s.IsVec || !p.IsVec {
				panic(unsup("strings.%s on a text of unknown length", n))
			}
			at := 0
			if !pre {
				at = len(s.Vec) - len(p.Vec)
			}
			e.fork(c.st, vecAt(s.Vec, at, p.Vec), func(st *State) {
				if pre {
					c.k(st, vecStr(s.Vec[len(p.Vec):]))
				} else {
					c.k(st, vecStr(s.Vec[:at]))
				}
			}, func(st *State) { c.k(st, s) })
		})
	}

	// ---- strings.Builder: its content is a text ----
	bm := func(name string, h handler) { handlers["(*strings.Builder)."+name] = h }
	app := func(e *Engine, c *Call, x *StrV, k func(st *State)) {
		e.bigLoad(c, 0, func(st *State, old Value) {
			e.store(st, c.args[0], st.strCat(old.(*StrV), x), c.p, k)
		})
	}
	bm("WriteString", func(e *Engine, c *Call) {
		e.expandAll(c, []int{1}, func(c *Call) {
			s := c.str(1)
			app(e, c, s, func(st *State) { c.k(st, TupleV{s.Len, IfaceV{}}) })
		})
	})
	bm("WriteByte", func(e *Engine, c *Call) {
		app(e, c, vecStr([]*Term{c.t(1)}), func(st *State) { c.k(st, IfaceV{}) })
	})
	bm("WriteRune", func(e *Engine, c *Call) {
		e.runeToStr(c.st, c.t(1), func(st *State, v Value) {
			n := *c
			n.st = st
			s := v.(*StrV)
			app(e, &n, s, func(st *State) { c.k(st, TupleV{s.Len, IfaceV{}}) })
		})
	})
	bm("Write", func(e *Engine, c *Call) {
		b := types.NewSlice(types.Typ[types.Uint8])
		e.convert(c.st, c.args[1], b, types.Typ[types.String], func(st *State, v Value) {
			n := *c
			n.st = st
			s := v.(*StrV)
			app(e, &n, s, func(st *State) { c.k(st, TupleV{s.Len, IfaceV{}}) })
		})
	})
	bm("String", func(e *Engine, c *Call) { e.bigLoad(c, 0, func(st *State, v Value) { c.k(st, v) }) })
	bm("Len", func(e *Engine, c *Call) { e.bigLoad(c, 0, func(st *State, v Value) { c.k(st, v.(*StrV).Len) }) })
	bm("Reset", func(e *Engine, c *Call) {
		e.store(c.st, c.args[0], concStr(""), c.p, func(st *State) { c.k(st, TupleV{}) })
	})
	bm("Grow", func(e *Engine, c *Call) { c.ret(TupleV{}) })
}
