package main

// Assumed contracts of math/big, strconv and the parts of math and strings the code relies on.

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

var _ *ssa.Function

func tr0() *Term { return TRat(new(big.Rat)) }
func p10(k int) *Term {
	return TBig(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(k)), nil))
}
func p2T(k int) *Term { return TBig(new(big.Int).Lsh(bOne, uint(k))) }
func absT(t *Term) *Term {
	if t.S == SReal {
		return Ite(Le(tr0(), t), t, Neg(t))
	}
	return Ite(Le(TI(0), t), t, Neg(t))
}
func sgnT(t *Term) *Term {
	z := TI(0)
	if t.S == SReal {
		z = tr0()
	}
	return Ite(Lt(z, t), TI(1), Ite(Lt(t, z), TI(-1), TI(0)))
}
func cmpT(a, b *Term) *Term { return Ite(Lt(a, b), TI(-1), Ite(Lt(b, a), TI(1), TI(0))) }

// loads loads the pointees of the pointer arguments is, in order.
func (e *Engine) loads(c *Call, is []int, k func(*State, []Value)) {
	var rec func(s *State, n int, acc []Value)
	rec = func(s *State, n int, acc []Value) {
		if n == len(is) {
			k(s, acc)
			return
		}
		cc := *c
		cc.st = s
		e.bigLoad(&cc, is[n], func(s *State, v Value) { rec(s, n+1, append(acc[:len(acc):len(acc)], v)) })
	}
	rec(c.st, 0, nil)
}
func (e *Engine) newCell(st *State, t types.Type, v Value, origin string) Ptr {
	return Ptr{Obj: st.alloc(&Obj{Kind: 'c', Typ: t, Val: v, Origin: origin})}
}
func (e *Engine) setRecv(c *Call, st *State, v Value) {
	e.store(st, c.args[0], v, c.p, func(s *State) { c.k(s, c.args[0]) })
}
func elemT(c *Call) types.Type {
	return c.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
}

func bigM(recv, name string, h handler) { handlers["(*math/big."+recv+")."+name] = h }

// ratParts: numerator and denominator of a rational in lowest terms.
func (st *State) ratParts(r *Term) (n, d *Term) {
	if r.R != nil {
		return TBig(r.R.Num()), TBig(r.R.Denom())
	}
	fl := ToIntFloor(r)
	isI := Eq(r, ToReal(fl))
	if isI.isTrue() {
		return fl, TI(1)
	}
	n, d = TApp("rat.num", SInt, r), TApp("rat.den", SInt, r)
	st.define(Le(TI(1), d))
	st.define(Implies(isI, And(Eq(d, TI(1)), Eq(n, fl))))
	st.define(Implies(Not(isI), Lt(TI(1), d)))
	st.define(Implies(Le(tr0(), r), Le(TI(0), n)))
	st.define(Implies(Lt(tr0(), r), Lt(TI(0), n)))
	st.define(Implies(Lt(r, tr0()), Lt(n, TI(0))))
	st.define(Eq(Mul(r, ToReal(d)), ToReal(n)))
	return
}

// precOf is the precision of the big.Float behind a pointer (nil: unknown).
func (st *State) precOf(v Value) *Term {
	p, ok := v.(Ptr)
	if !ok || p.Obj == 0 || len(p.Path) > 0 {
		return nil
	}
	return st.obj(p.Obj).Prec
}
func (st *State) setPrec(v Value, prec *Term) {
	p, ok := v.(Ptr)
	if !ok || p.Obj == 0 || len(p.Path) > 0 {
		return
	}
	n := *st.obj(p.Obj)
	n.Prec = prec
	st.setObj(p.Obj, &n)
}

// roundPrec rounds a real to prec bits (nearest even): exact for integers of at most prec bits,
// otherwise an unspecified value with the same sign.
func (e *Engine) roundPrec(st *State, v, prec *Term) *Term {
	if prec == nil {
		prec = TVar(e.freshName("prec"), SInt)
	}
	if v.R != nil && prec.N != nil && prec.N.IsUint64() && prec.N.Uint64() > 0 && prec.N.Uint64() < 1<<20 {
		f := new(big.Float).SetPrec(uint(prec.N.Uint64())).SetRat(v.R)
		r, _ := f.Rat(nil)
		if r != nil {
			return TRat(r)
		}
	}
	r := TApp("bfround", SReal, v, prec)
	fl := ToIntFloor(v)
	isI := Eq(v, ToReal(fl))
	if prec.N != nil && prec.N.IsInt64() && prec.N.Int64() > 0 && prec.N.Int64() < 100000 {
		m := p2T(int(prec.N.Int64()))
		in := And(isI, Le(Neg(m), fl), Le(fl, m))
		if e.valid(st, in) {
			return v
		}
		st.define(Implies(in, Eq(r, v)))
	}
	st.define(Implies(Eq(v, tr0()), Eq(r, tr0())))
	st.define(Implies(Lt(tr0(), v), Lt(tr0(), r)))
	st.define(Implies(Lt(v, tr0()), Lt(r, tr0())))
	st.define(Implies(TApp("bfrepr", SBool, v, prec), Eq(r, v)))
	return r
}

// round64: nearest binary64 of a real.
func (e *Engine) roundF(st *State, v *Term, bits int) FloatV {
	if v.Op == "to_real" || v.Op == "toreal" {
		// an integer below 2^64 is a float exactly when converting it changes nothing
		t := v.Args[0]
		f := e.intToFloat(st, t, bits)
		st.define(Implies(And(Lt(Neg(p2T(64)), t), Lt(t, p2T(64))), Eq(TApp(fmt.Sprintf("isf%d", bits), SBool, v), Eq(f.Val, v))))
	}
	if v.R != nil {
		if bits == 32 {
			f, _ := v.R.Float32()
			return floatVal(float64(f))
		}
		f, _ := v.R.Float64()
		return floatVal(f)
	}
	if bits == 32 {
		return e.round32(st, FloatV{TI(0), v})
	}
	r := FloatV{TApp("rnd64.c", SInt, v), TApp("rnd64.v", SReal, v)}
	st.define(And(Le(TI(0), r.Cls), Le(r.Cls, TI(2))))
	is := TApp("isf64", SBool, v)
	st.define(Implies(is, And(Eq(r.Cls, TI(0)), Eq(r.Val, v))))
	st.define(Implies(Eq(r.Cls, TI(0)), TApp("isf64", SBool, r.Val)))
	fl := ToIntFloor(v)
	st.define(Implies(And(Eq(v, ToReal(fl)), Le(Neg(p2T(53)), fl), Le(fl, p2T(53))), is))
	st.floatFacts(r, 64)
	return r
}
func (e *Engine) accTo(st *State, r FloatV, v *Term) *Term {
	return Ite(And(Eq(r.Cls, TI(0)), Eq(r.Val, v)), TI(0),
		Ite(Or(Eq(r.Cls, TI(2)), And(Eq(r.Cls, TI(0)), Lt(r.Val, v))), TI(-1), TI(1)))
}

func init() {
	// ---- big.Int ----
	handlers["math/big.NewInt"] = func(e *Engine, c *Call) { c.ret(e.newCell(c.st, elemT(c), c.t(0), "big.NewInt")) }
	z2 := func(name string, f func(e *Engine, s *State, a, b *Term) *Term) {
		bigM("Int", name, func(e *Engine, c *Call) {
			e.loads(c, []int{1, 2}, func(s *State, v []Value) { e.setRecv(c, s, f(e, s, v[0].(*Term), v[1].(*Term))) })
		})
	}
	z1 := func(recv, name string, f func(a *Term) *Term) {
		bigM(recv, name, func(e *Engine, c *Call) {
			e.loads(c, []int{1}, func(s *State, v []Value) { e.setRecv(c, s, f(v[0].(*Term))) })
		})
	}
	get := func(recv, name string, f func(e *Engine, s *State, a Value) Value) {
		bigM(recv, name, func(e *Engine, c *Call) {
			e.loads(c, []int{0}, func(s *State, v []Value) { c.k(s, f(e, s, v[0])) })
		})
	}
	z2("Add", func(e *Engine, s *State, a, b *Term) *Term { return Add(a, b) })
	z2("Sub", func(e *Engine, s *State, a, b *Term) *Term { return Sub(a, b) })
	z2("Mul", func(e *Engine, s *State, a, b *Term) *Term { return e.mulT(s, a, b) })
	z2("And", func(e *Engine, s *State, a, b *Term) *Term { return bigAnd(e, s, a, b) })
	z1("Int", "Neg", Neg)
	z1("Int", "Abs", absT)
	z1("Int", "Set", func(a *Term) *Term { return a })
	for _, n := range []string{"Quo", "Rem", "Div", "Mod"} {
		n := n
		bigM("Int", n, func(e *Engine, c *Call) {
			e.loads(c, []int{1, 2}, func(s *State, v []Value) {
				a, b := v[0].(*Term), v[1].(*Term)
				e.guard(s, Neq(b, TI(0)), "division by zero", c.p, func(s *State) {
					q, r := e.tdiv(s, a, b)
					switch n {
					case "Quo":
						e.setRecv(c, s, q)
					case "Rem":
						e.setRecv(c, s, r)
					case "Div":
						e.setRecv(c, s, Ite(Lt(r, TI(0)), Ite(Lt(TI(0), b), Sub(q, TI(1)), Add(q, TI(1))), q))
					case "Mod":
						e.setRecv(c, s, Ite(Lt(r, TI(0)), Add(r, absT(b)), r))
					}
				})
			})
		})
	}
	bigM("Int", "Exp", func(e *Engine, c *Call) {
		e.loads(c, []int{1, 2}, func(s *State, v []Value) {
			if p, ok := c.args[3].(Ptr); !ok || p.Obj != 0 || p.Sym != nil {
				panic(unsup("big.Int.Exp with a modulus"))
			}
			e.concretize(s, v[1].(*Term), -1, 65, func(s *State, n int64) {
				r := TI(1)
				for ; n > 0; n-- {
					r = Mul(r, v[0].(*Term))
				}
				e.setRecv(c, s, r)
			})
		})
	})
	for _, n := range []string{"QuoRem", "DivMod"} {
		n := n
		bigM("Int", n, func(e *Engine, c *Call) {
			e.loads(c, []int{1, 2}, func(s *State, v []Value) {
				a, b := v[0].(*Term), v[1].(*Term)
				e.guard(s, Neq(b, TI(0)), "division by zero", c.p, func(s *State) {
					q, r := e.tdiv(s, a, b)
					if n == "DivMod" {
						neg := Lt(r, TI(0))
						q, r = Ite(neg, Ite(Lt(TI(0), b), Sub(q, TI(1)), Add(q, TI(1))), q), Ite(neg, Add(r, absT(b)), r)
					}
					e.store(s, c.args[0], q, c.p, func(s *State) {
						e.store(s, c.args[3], r, c.p, func(s *State) { c.k(s, TupleV{c.args[0], c.args[3]}) })
					})
				})
			})
		})
	}
	bigM("Int", "Rsh", func(e *Engine, c *Call) {
		e.loads(c, []int{1}, func(s *State, v []Value) {
			n := c.t(2)
			if n.N == nil || n.N.BitLen() > 16 {
				panic(unsup("big.Int.Rsh by a symbolic amount"))
			}
			e.setRecv(c, s, DivE(v[0].(*Term), p2T(int(n.N.Int64()))))
		})
	})
	bigM("Int", "Lsh", func(e *Engine, c *Call) {
		e.loads(c, []int{1}, func(s *State, v []Value) {
			n := c.t(2)
			if n.N == nil || n.N.BitLen() > 16 {
				panic(unsup("big.Int.Lsh by a symbolic amount"))
			}
			e.setRecv(c, s, Mul(v[0].(*Term), p2T(int(n.N.Int64()))))
		})
	})
	for _, n := range []string{"SetInt64", "SetUint64"} {
		bigM("Int", n, func(e *Engine, c *Call) { e.setRecv(c, c.st, c.t(1)) })
		bigM("Rat", n, func(e *Engine, c *Call) { e.setRecv(c, c.st, ToReal(c.t(1))) })
		n := n
		bigM("Float", n, func(e *Engine, c *Call) {
			prec := c.st.precOf(c.args[0])
			if prec != nil && prec.N != nil && prec.N.Sign() == 0 {
				prec = TI(64)
			}
			v := e.roundPrec(c.st, ToReal(c.t(1)), prec)
			e.store(c.st, c.args[0], FloatV{TI(0), v}, c.p, func(s *State) {
				s.setPrec(c.args[0], prec)
				c.k(s, c.args[0])
			})
			_ = n
		})
	}
	// SetBytes(x.Bytes()) carries |x|: the byte slice is an opaque object that remembers its value
	get("Int", "Bytes", func(e *Engine, s *State, a Value) Value {
		id := s.alloc(&Obj{Kind: 'a', Typ: types.Typ[types.Uint8], Sym: &Tree{Leaf: TVar(e.freshName("bytes"), SArr(SInt))}, BigVal: absT(a.(*Term))})
		l := s.freshInt("bytes.len", nil)
		s.define(Le(TI(0), l))
		s.define(Eq(Eq(l, TI(0)), Eq(a.(*Term), TI(0))))
		return SliceV{id, TI(0), l, l, TFalse}
	})
	bigM("Int", "SetBytes", func(e *Engine, c *Call) {
		b := c.args[1].(SliceV)
		if b.Obj == 0 || c.st.obj(b.Obj).BigVal == nil {
			panic(unsup("big.Int.SetBytes of other bytes than big.Int.Bytes"))
		}
		e.setRecv(c, c.st, c.st.obj(b.Obj).BigVal)
	})
	get("Int", "Sign", func(e *Engine, s *State, a Value) Value { return sgnT(a.(*Term)) })
	get("Rat", "Sign", func(e *Engine, s *State, a Value) Value { return sgnT(a.(*Term)) })
	for _, r := range []string{"Int", "Rat"} {
		bigM(r, "Cmp", func(e *Engine, c *Call) {
			e.loads(c, []int{0, 1}, func(s *State, v []Value) { c.k(s, cmpT(v[0].(*Term), v[1].(*Term))) })
		})
	}
	bigM("Int", "CmpAbs", func(e *Engine, c *Call) {
		e.loads(c, []int{0, 1}, func(s *State, v []Value) { c.k(s, cmpT(absT(v[0].(*Term)), absT(v[1].(*Term)))) })
	})
	inR := func(t types.Type) func(e *Engine, s *State, a Value) Value {
		lo, hi := intRange(t)
		return func(e *Engine, s *State, a Value) Value {
			return And(Le(TBig(lo), a.(*Term)), Le(a.(*Term), TBig(hi)))
		}
	}
	get("Int", "IsInt64", inR(types.Typ[types.Int64]))
	get("Int", "IsUint64", inR(types.Typ[types.Uint64]))
	low := func(t types.Type) func(e *Engine, s *State, a Value) Value {
		return func(e *Engine, s *State, a Value) Value { return e.wrapInt(s, a.(*Term), t) }
	}
	get("Int", "Int64", low(types.Typ[types.Int64]))
	get("Int", "Uint64", low(types.Typ[types.Uint64]))
	bigM("Int", "Text", func(e *Engine, c *Call) {
		if b := c.t(1); b.N == nil || b.N.Int64() != 10 {
			panic(unsup("big.Int.Text with a base other than 10"))
		}
		e.loads(c, []int{0}, func(s *State, v []Value) { e.intToStr(s, v[0].(*Term), c.k) })
	})
	bigM("Int", "String", func(e *Engine, c *Call) {
		e.loads(c, []int{0}, func(s *State, v []Value) { e.intToStr(s, v[0].(*Term), c.k) })
	})
	bigM("Int", "SetString", func(e *Engine, c *Call) {
		b := c.t(2)
		if b.N == nil || b.N.Int64() != 10 {
			panic(unsup("big.Int.SetString base"))
		}
		if z, ok := intOfStr(c.str(1)); ok {
			e.store(c.st, c.args[0], z, c.p, func(s *State) { c.k(s, TupleV{c.args[0], TTrue}) })
			return
		}
		t := c.st.strTerm(c.str(1))
		okT, val := TApp("bigint.ok", SBool, t), TApp("bigint.val", SInt, t)
		e.fork(c.st, okT, func(s *State) {
			e.store(s, c.args[0], val, c.p, func(s *State) { c.k(s, TupleV{c.args[0], TTrue}) })
		}, func(s *State) {
			e.store(s, c.args[0], TVar(e.freshName("undef"), SInt), c.p, func(s *State) { c.k(s, TupleV{Ptr{}, TFalse}) })
		})
	})

	// ---- big.Rat ----
	handlers["math/big.NewRat"] = func(e *Engine, c *Call) {
		a, b := c.t(0), c.t(1)
		e.guard(c.st, Neq(b, TI(0)), "division by zero", c.p, func(s *State) {
			c.k(s, e.newCell(s, elemT(c), RDiv(ToReal(a), ToReal(b)), "big.NewRat"))
		})
	}
	r2 := func(name string, f func(a, b *Term) *Term) {
		bigM("Rat", name, func(e *Engine, c *Call) {
			e.loads(c, []int{1, 2}, func(s *State, v []Value) { e.setRecv(c, s, f(v[0].(*Term), v[1].(*Term))) })
		})
	}
	r2("Add", func(a, b *Term) *Term { return Add(a, b) })
	r2("Sub", func(a, b *Term) *Term { return Sub(a, b) })
	r2("Mul", func(a, b *Term) *Term { return Mul(a, b) })
	bigM("Rat", "Quo", func(e *Engine, c *Call) {
		e.loads(c, []int{1, 2}, func(s *State, v []Value) {
			e.guard(s, Neq(v[1].(*Term), tr0()), "division by zero", c.p, func(s *State) {
				e.setRecv(c, s, e.rdiv(s, v[0].(*Term), v[1].(*Term)))
			})
		})
	})
	z1("Rat", "Neg", Neg)
	z1("Rat", "Abs", absT)
	z1("Rat", "Set", func(a *Term) *Term { return a })
	z1("Rat", "SetInt", ToReal)
	bigM("Rat", "SetFrac", func(e *Engine, c *Call) {
		e.loads(c, []int{1, 2}, func(s *State, v []Value) {
			e.guard(s, Neq(v[1].(*Term), TI(0)), "division by zero", c.p, func(s *State) {
				e.setRecv(c, s, e.rdiv(s, ToReal(v[0].(*Term)), ToReal(v[1].(*Term))))
			})
		})
	})
	bigM("Rat", "SetFloat64", func(e *Engine, c *Call) {
		f := c.args[1].(FloatV)
		e.fork(c.st, Eq(f.Cls, TI(0)), func(s *State) { e.setRecv(c, s, f.Val) }, func(s *State) { c.k(s, Ptr{}) })
	})
	get("Rat", "IsInt", func(e *Engine, s *State, a Value) Value {
		return Eq(a.(*Term), ToReal(ToIntFloor(a.(*Term))))
	})
	for i, nm := range []string{"Num", "Denom"} {
		i, nm := i, nm
		bigM("Rat", nm, func(e *Engine, c *Call) {
			e.loads(c, []int{0}, func(s *State, v []Value) {
				n, d := s.ratParts(v[0].(*Term))
				src := 0
				if p, ok := c.args[0].(Ptr); ok && len(p.Path) == 0 {
					src = p.Obj
				}
				if i == 1 {
					n = d
				}
				// a view: changing it changes the rational, and the other way around
				c.k(s, Ptr{Obj: s.alloc(&Obj{Kind: 'c', Typ: e.bigIntT(), Val: n, Origin: "big.Rat." + nm, Src: src})})
			})
		})
	}
	for _, bits := range []int{32, 64} {
		bits := bits
		get("Rat", fmt.Sprintf("Float%d", bits), func(e *Engine, s *State, a Value) Value {
			r := e.roundF(s, a.(*Term), bits)
			return TupleV{r, And(Eq(r.Cls, TI(0)), Eq(r.Val, a.(*Term)))}
		})
		get("Float", fmt.Sprintf("Float%d", bits), func(e *Engine, s *State, a Value) Value {
			f := a.(FloatV)
			r := e.roundF(s, f.Val, bits)
			fin := Eq(f.Cls, TI(0))
			return TupleV{FloatV{Ite(fin, r.Cls, f.Cls), Ite(fin, r.Val, tr0())}, Ite(fin, e.accTo(s, r, f.Val), TI(0))}
		})
	}
	bigM("Rat", "String", func(e *Engine, c *Call) {
		e.loads(c, []int{0}, func(s *State, v []Value) {
			t := TApp("rat.str", SStr, v[0].(*Term))
			c.k(s, s.opaqueStr(t))
		})
	})
	bigM("Rat", "FloatString", func(e *Engine, c *Call) {
		e.loads(c, []int{0}, func(s *State, v []Value) {
			c.k(s, s.opaqueStr(TApp("rat.fstr", SStr, v[0].(*Term), c.t(1))))
		})
	})
	bigM("Rat", "SetString", func(e *Engine, c *Call) {
		if z, ok := intOfStr(c.str(1)); ok {
			e.store(c.st, c.args[0], ToReal(z), c.p, func(s *State) { c.k(s, TupleV{c.args[0], TTrue}) })
			return
		}
		t := c.st.strTerm(c.str(1))
		okT, val := TApp("rat.ok", SBool, t), TApp("rat.val", SReal, t)
		if t.Op == "app" && t.Name == "rat.str" {
			okT, val = TTrue, t.Args[0]
		}
		e.fork(c.st, okT, func(s *State) {
			e.store(s, c.args[0], val, c.p, func(s *State) { c.k(s, TupleV{c.args[0], TTrue}) })
		}, func(s *State) { c.k(s, TupleV{Ptr{}, TFalse}) })
	})

	// ---- big.Float ----
	handlers["math/big.NewFloat"] = func(e *Engine, c *Call) {
		f := c.args[0].(FloatV)
		e.guard(c.st, Neq(f.Cls, TI(3)), "NewFloat(NaN)", c.p, func(s *State) {
			p := e.newCell(s, elemT(c), f, "big.NewFloat")
			s.setPrec(p, TI(53))
			c.k(s, p)
		})
	}
	bigM("Float", "SetPrec", func(e *Engine, c *Call) {
		e.loads(c, []int{0}, func(s *State, v []Value) {
			f := v[0].(FloatV)
			old := s.precOf(c.args[0])
			var nv *Term
			if f.Val.R != nil && f.Val.R.Sign() == 0 {
				nv = f.Val
			} else if old != nil && old.N != nil && c.t(1).N != nil && old.N.Cmp(c.t(1).N) <= 0 {
				nv = f.Val
			} else {
				nv = e.roundPrec(s, f.Val, c.t(1))
			}
			e.store(s, c.args[0], FloatV{f.Cls, nv}, c.p, func(s *State) {
				s.setPrec(c.args[0], c.t(1))
				c.k(s, c.args[0])
			})
		})
	})
	bigM("Float", "SetMode", func(e *Engine, c *Call) { c.ret(c.args[0]) })
	bigM("Float", "Mode", func(e *Engine, c *Call) { c.ret(TI(0)) })
	bigM("Float", "Prec", func(e *Engine, c *Call) {
		p := c.st.precOf(c.args[0])
		if p == nil {
			p = c.st.freshInt("prec", types.Typ[types.Uint32])
		}
		c.ret(p)
	})
	get("Float", "IsInf", func(e *Engine, s *State, a Value) Value { return Neq(a.(FloatV).Cls, TI(0)) })
	get("Float", "IsInt", func(e *Engine, s *State, a Value) Value {
		f := a.(FloatV)
		return And(Eq(f.Cls, TI(0)), Eq(f.Val, ToReal(ToIntFloor(f.Val))))
	})
	get("Float", "Sign", func(e *Engine, s *State, a Value) Value {
		f := a.(FloatV)
		return Ite(Eq(f.Cls, TI(1)), TI(1), Ite(Eq(f.Cls, TI(2)), TI(-1), sgnT(f.Val)))
	})
	bigM("Float", "Cmp", func(e *Engine, c *Call) {
		e.loads(c, []int{0, 1}, func(s *State, v []Value) {
			a, b := v[0].(FloatV), v[1].(FloatV)
			c.k(s, Ite(fLt(a, b), TI(-1), Ite(fLt(b, a), TI(1), TI(0))))
		})
	})
	bf1 := func(name string, f func(a FloatV) FloatV) {
		bigM("Float", name, func(e *Engine, c *Call) {
			e.loads(c, []int{1}, func(s *State, v []Value) {
				r := f(v[0].(FloatV))
				pr := s.precOf(c.args[0])
				if c.args[0].(Ptr).Obj != c.args[1].(Ptr).Obj {
					if pr != nil && pr.N != nil && pr.N.Sign() == 0 {
						pr = s.precOf(c.args[1])
					} else {
						r.Val = e.roundPrec(s, r.Val, pr)
					}
				}
				e.store(s, c.args[0], r, c.p, func(s *State) {
					s.setPrec(c.args[0], pr)
					c.k(s, c.args[0])
				})
			})
		})
	}
	bf1("Abs", func(a FloatV) FloatV { return FloatV{Ite(Eq(a.Cls, TI(2)), TI(1), a.Cls), absT(a.Val)} })
	bf1("Neg", func(a FloatV) FloatV {
		return FloatV{Ite(Eq(a.Cls, TI(2)), TI(1), Ite(Eq(a.Cls, TI(1)), TI(2), a.Cls)), Neg(a.Val)}
	})
	bf1("Set", func(a FloatV) FloatV { return a })
	bigM("Float", "Copy", func(e *Engine, c *Call) {
		e.loads(c, []int{1}, func(s *State, v []Value) {
			pr := s.precOf(c.args[1])
			e.store(s, c.args[0], v[0], c.p, func(s *State) {
				s.setPrec(c.args[0], pr)
				c.k(s, c.args[0])
			})
		})
	})
	bigM("Float", "SetRat", func(e *Engine, c *Call) {
		e.loads(c, []int{0, 1}, func(s *State, v []Value) {
			pr := s.precOf(c.args[0])
			if pr != nil && pr.N != nil && pr.N.Sign() == 0 {
				pr = nil // the precision is derived from the rational
			}
			r := e.roundPrec(s, v[1].(*Term), pr)
			e.store(s, c.args[0], FloatV{TI(0), r}, c.p, func(s *State) {
				s.setPrec(c.args[0], pr)
				c.k(s, c.args[0])
			})
		})
	})
	bigM("Float", "Quo", func(e *Engine, c *Call) {
		e.loads(c, []int{1, 2}, func(s *State, v []Value) {
			a, b := v[0].(FloatV), v[1].(FloatV)
			n := TApp("bf.quo.c", SInt, a.Cls, a.Val, b.Cls, b.Val)
			s.define(And(Le(TI(0), n), Le(n, TI(2))))
			zz := And(Eq(a.Cls, TI(0)), Eq(b.Cls, TI(0)), Eq(a.Val, tr0()), Eq(b.Val, tr0()))
			ii := And(Neq(a.Cls, TI(0)), Neq(b.Cls, TI(0)))
			e.guard(s, Not(Or(zz, ii)), "division of zero by zero or infinity by infinity", c.p, func(s *State) {
				pr := s.precOf(c.args[0])
				e.store(s, c.args[0], FloatV{n, TApp("bf.quo.v", SReal, a.Cls, a.Val, b.Cls, b.Val)}, c.p, func(s *State) {
					s.setPrec(c.args[0], pr)
					c.k(s, c.args[0])
				})
			})
		})
	})
	bigM("Float", "Rat", func(e *Engine, c *Call) {
		e.loads(c, []int{0}, func(s *State, v []Value) {
			f := v[0].(FloatV)
			e.fork(s, Eq(f.Cls, TI(0)), func(s *State) {
				if z, ok := c.args[1].(Ptr); ok && z.Obj != 0 {
					e.store(s, z, f.Val, c.p, func(s *State) { c.k(s, TupleV{z, TI(0)}) })
					return
				}
				rt := c.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
				c.k(s, TupleV{e.newCell(s, rt, f.Val, "big.Float.Rat"), TI(0)})
			}, func(s *State) { c.k(s, TupleV{Ptr{}, Ite(Eq(f.Cls, TI(1)), TI(-1), TI(1))}) })
		})
	})
	bigM("Float", "Int", func(e *Engine, c *Call) {
		e.loads(c, []int{0}, func(s *State, v []Value) {
			f := v[0].(FloatV)
			e.fork(s, Eq(f.Cls, TI(0)), func(s *State) {
				tr := truncReal(f.Val)
				acc := Ite(Eq(ToReal(tr), f.Val), TI(0), Ite(Lt(tr0(), f.Val), TI(-1), TI(1)))
				if z, ok := c.args[1].(Ptr); ok && z.Obj != 0 {
					e.store(s, z, tr, c.p, func(s *State) { c.k(s, TupleV{z, acc}) })
					return
				}
				c.k(s, TupleV{e.newCell(s, e.bigIntT(), tr, "big.Float.Int"), acc})
			}, func(s *State) { c.k(s, TupleV{Ptr{}, Ite(Eq(f.Cls, TI(1)), TI(-1), TI(1))}) })
		})
	})
	bigM("Float", "String", func(e *Engine, c *Call) { // Text('g', 10)
		e.loads(c, []int{0}, func(s *State, v []Value) {
			f := v[0].(FloatV)
			c.k(s, s.opaqueStr(TApp("bf.str", SStr, f.Cls, f.Val)))
		})
	})
	bigM("Float", "Text", func(e *Engine, c *Call) {
		e.loads(c, []int{0}, func(s *State, v []Value) {
			f := v[0].(FloatV)
			t := TApp("bf.text", SStr, f.Cls, f.Val, c.t(1), c.t(2))
			// 'p' < 0: the shortest text that reads back to exactly this value at this precision
			c.k(s, s.opaqueStr(t))
		})
	})
	handlers["math/big.ParseFloat"] = func(e *Engine, c *Call) {
		str, prec := c.str(0), c.t(2)
		rt := c.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		fin := func(s *State, v *Term) {
			p := e.newCell(s, rt, FloatV{TI(0), v}, "big.ParseFloat")
			s.setPrec(p, prec)
			c.k(s, TupleV{p, TI(10), IfaceV{}})
		}
		if z, ok := intOfStr(str); ok {
			r := e.roundPrec(c.st, ToReal(z), prec)
			if str.T != nil && prec.N == nil {
				// a decimal text of n characters denotes an integer of at most ceil(n*log2(10)) bits;
				// the distance of n*log2(10) from the integer above it exceeds the slack for n <= 10^6
				k := new(big.Rat).SetFloat64(math.Log2(10) * (1 - 0x1p-52))
				g := And(Le(str.Len, TI(1000000)), Le(MulC(k, ToReal(str.Len)), ToReal(prec)))
				if e.valid(c.st, g) {
					r = ToReal(z)
				} else {
					c.st.define(Implies(g, Eq(r, ToReal(z))))
				}
			}
			fin(c.st, r)
			return
		}
		t := c.st.strTerm(str)
		cls := TApp("bf.parse.c", SInt, t)
		c.st.define(And(Le(TI(0), cls), Le(cls, TI(3)))) // 3: syntax error
		e.fork(c.st, Eq(cls, TI(3)), func(s *State) {
			c.k(s, TupleV{Ptr{}, TI(0), e.newError(s, nil)})
		}, func(s *State) {
			v := e.roundPrec(s, TApp("bf.parse.v", SReal, t), prec)
			p := e.newCell(s, rt, FloatV{cls, v}, "big.ParseFloat")
			s.setPrec(p, prec)
			c.k(s, TupleV{p, TI(10), IfaceV{}})
		})
	}
	bigM("Float", "Parse", func(e *Engine, c *Call) {
		t := c.st.strTerm(c.str(1))
		cls := TApp("bf.parse.c", SInt, t)
		c.st.define(And(Le(TI(0), cls), Le(cls, TI(3))))
		e.fork(c.st, Eq(cls, TI(3)), func(s *State) {
			c.k(s, TupleV{Ptr{}, TI(0), e.newError(s, nil)})
		}, func(s *State) {
			e.store(s, c.args[0], FloatV{cls, TApp("bf.parse.v", SReal, t)}, c.p, func(s *State) {
				c.k(s, TupleV{c.args[0], TI(10), IfaceV{}})
			})
		})
	})

	// ---- strconv ----
	handlers["strconv.FormatInt"] = func(e *Engine, c *Call) {
		if b := c.t(1); b.N == nil || b.N.Int64() != 10 {
			if a := c.t(0); a.N != nil && b.N != nil {
				c.ret(concStr(strconv.FormatInt(a.N.Int64(), int(b.N.Int64()))))
				return
			}
			panic(unsup("strconv.FormatInt base"))
		}
		e.intToStr(c.st, c.t(0), c.k)
	}
	handlers["strconv.FormatUint"] = handlers["strconv.FormatInt"]
	handlers["strconv.Itoa"] = func(e *Engine, c *Call) { e.intToStr(c.st, c.t(0), c.k) }
	handlers["strconv.FormatFloat"] = func(e *Engine, c *Call) {
		f := c.args[0].(FloatV)
		if x, ok := concFloat(f); ok && c.t(1).N != nil && c.t(2).N != nil && c.t(3).N != nil {
			c.ret(concStr(strconv.FormatFloat(x, byte(c.t(1).N.Int64()), int(c.t(2).N.Int64()), int(c.t(3).N.Int64()))))
			return
		}
		// with precision -1 the text determines the value (of the given bit size)
		t := TApp("ffmt", SStr, f.Cls, f.Val, c.t(1), c.t(2), c.t(3))
		c.st.floatRepr(f.Val, 64)
		c.ret(c.st.opaqueStr(t))
	}
	for _, n := range []string{"ParseInt", "ParseUint"} {
		n := n
		handlers["strconv."+n] = func(e *Engine, c *Call) {
			base, bits := c.t(1), c.t(2)
			if base.N == nil || base.N.Int64() != 10 || bits.N == nil {
				panic(unsup("strconv.%s base/bits", n))
			}
			nb := uint(bits.N.Int64())
			if nb == 0 {
				nb = 64
			}
			lo, hi := new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(bOne, nb), bOne)
			if n == "ParseInt" {
				lo = new(big.Int).Neg(new(big.Int).Lsh(bOne, nb-1))
				hi = new(big.Int).Sub(new(big.Int).Lsh(bOne, nb-1), bOne)
			}
			s := c.str(0)
			dom := func(st *State, okT, val *Term) {
				good := And(okT, Le(TBig(lo), val), Le(val, TBig(hi)))
				e.fork(st, good, func(s *State) { c.k(s, TupleV{val, IfaceV{}}) }, func(s *State) {
					// out of range: the nearest bound; syntax error: 0
					c.k(s, TupleV{Ite(okT, Ite(Lt(val, TBig(lo)), TBig(lo), TBig(hi)), TI(0)), e.newError(s, nil)})
				})
			}
			if cs, ok := s.concrete(); ok {
				if n == "ParseInt" {
					v, err := strconv.ParseInt(cs, 10, int(nb))
					if err == nil {
						c.ret(TupleV{TI(v), IfaceV{}})
					} else {
						c.ret(TupleV{TI(v), e.newError(c.st, nil)})
					}
				} else {
					v, err := strconv.ParseUint(cs, 10, int(nb))
					bv := TBig(new(big.Int).SetUint64(v))
					if err == nil {
						c.ret(TupleV{bv, IfaceV{}})
					} else {
						c.ret(TupleV{bv, e.newError(c.st, nil)})
					}
				}
				return
			}
			if s.IsVec {
				okT, val := parseDigits(s, n == "ParseInt")
				dom(c.st, okT, val)
				return
			}
			if z, ok := intOfStr(s); ok {
				okT := TTrue
				if n == "ParseUint" {
					okT = Le(TI(0), z)
				}
				dom(c.st, okT, z)
				return
			}
			t := c.st.strTerm(s)
			okT := TApp("isint", SBool, t)
			if n == "ParseUint" {
				okT = TApp("isuint", SBool, t)
			}
			dom(c.st, okT, TApp("intval", SInt, t))
		}
	}
	handlers["math.Max"] = func(e *Engine, c *Call) { c.ret(fMax(c, true)) }
	handlers["math.Min"] = func(e *Engine, c *Call) { c.ret(fMax(c, false)) }
}

func fMax(c *Call, max bool) Value {
	a, b := c.args[0].(FloatV), c.args[1].(FloatV)
	if x, ok := concFloat(a); ok {
		if y, ok := concFloat(b); ok {
			if max {
				return floatVal(math.Max(x, y))
			}
			return floatVal(math.Min(x, y))
		}
	}
	zero := func(v FloatV) bool { return v.Cls.N != nil && v.Cls.N.Sign() == 0 }
	// whole values: a whole result, with its defining facts
	if whole := func(v FloatV) *Term {
		if v.Val.R != nil && v.Val.R.IsInt() {
			return TBig(v.Val.R.Num())
		}
		if v.Val.Op == "to_real" {
			return v.Val.Args[0]
		}
		return nil
	}; zero(a) && zero(b) && whole(a) != nil && whole(b) != nil {
		x, y := whole(a), whole(b)
		n := TApp("max!", SInt, x, y)
		if !max {
			n = TApp("min!", SInt, x, y)
			c.st.define(And(Le(n, x), Le(n, y), Or(Eq(n, x), Eq(n, y))))
		} else {
			c.st.define(And(Le(x, n), Le(y, n), Or(Eq(n, x), Eq(n, y))))
		}
		return FloatV{TI(0), ToReal(n)}
	}
	nan := Or(Eq(a.Cls, TI(3)), Eq(b.Cls, TI(3)))
	lt := fLt(a, b)
	if !max {
		lt = fLt(b, a)
	}
	return FloatV{Ite(nan, TI(3), Ite(lt, b.Cls, a.Cls)), Ite(lt, b.Val, a.Val)}
}

func (e *Engine) bigIntT() types.Type { return e.sh.pkgs["math/big"].Type("Int").Type() }

func (e *Engine) rdiv(st *State, a, b *Term) *Term {
	if b.R != nil {
		return RDiv(a, b)
	}
	q := TApp("rdiv!", SReal, a, b)
	st.define(Implies(Neq(b, tr0()), Eq(Mul(q, b), a)))
	return q
}

func bigAnd(e *Engine, s *State, a, b *Term) *Term {
	if a.N != nil && b.N != nil {
		return TBig(new(big.Int).And(a.N, b.N))
	}
	if a.N != nil {
		a, b = b, a
	}
	if b.N != nil && b.N.Sign() >= 0 {
		m := new(big.Int).Add(b.N, bOne)
		if new(big.Int).And(m, b.N).Sign() == 0 { // 2^k-1
			return ModE(a, TBig(m))
		}
	}
	panic(unsup("big.Int.And"))
}

// intOfStr recognises the decimal text of an integer.
func intOfStr(s *StrV) (*Term, bool) {
	if c, ok := s.concrete(); ok {
		if n, ok := new(big.Int).SetString(c, 10); ok && len(c) > 0 && c[0] != '+' {
			return TBig(n), true
		}
		return nil, false
	}
	if s.T != nil && s.T.Op == "app" && s.T.Name == "ztoa" {
		return s.T.Args[0], true
	}
	if s.Num != nil {
		return s.Num, true
	}
	return nil, false
}

func (s *StrV) lazy() bool { return !s.IsVec && s.T != nil && s.T.Op == "app" && s.T.Name == "ztoa" }

// parseDigits: value of a fixed-length text as a decimal integer with optional sign.
func parseDigits(s *StrV, signed bool) (ok, val *Term) {
	if len(s.Vec) == 0 {
		return TFalse, TI(0)
	}
	if s.Num != nil {
		ok = TTrue
		if !signed {
			ok = Le(TI(0), s.Num)
		}
		return ok, s.Num
	}
	dig := func(v []*Term) (*Term, *Term) {
		ok, val := TTrue, TI(0)
		for _, c := range v {
			ok = And(ok, Le(TI('0'), c), Le(c, TI('9')))
			val = Add(Mul(TI(10), val), Sub(c, TI('0')))
		}
		return ok, val
	}
	all, v := dig(s.Vec)
	if !signed {
		return all, v
	}
	c0 := s.Vec[0]
	rest, rv := TFalse, TI(0)
	if len(s.Vec) > 1 {
		rest, rv = dig(s.Vec[1:])
	}
	sgn := Or(Eq(c0, TI('-')), Eq(c0, TI('+')))
	return Or(all, And(sgn, rest)), Ite(Eq(c0, TI('-')), Neg(rv), Ite(Eq(c0, TI('+')), rv, v))
}

// intToStr: the decimal text of an integer. Up to 20 digits it is produced digit by digit, by
// cases on the sign and the number of digits; beyond that it is an opaque text.
func (e *Engine) intToStr(st *State, v *Term, k Ret) {
	if v.N != nil {
		k(st, concStr(v.N.String()))
		return
	}
	s := st.opaqueStr(TApp("ztoa", SStr, v))
	st.define(Le(TI(1), s.Len))
	k(st, s)
}

// strLen: the length of a text; for the decimal text of an integer of up to 40 digits by cases.
func (e *Engine) strLen(st *State, s *StrV, k func(st *State, n *Term)) {
	if !s.lazy() {
		k(st, s.Len)
		return
	}
	v := s.T.Args[0]
	max := p10(40)
	if !e.valid(st, And(Lt(Neg(max), v), Lt(v, max))) {
		k(st, s.Len)
		return
	}
	cases := func(st *State, a *Term, sign int64) {
		for n := 1; n <= 40; n++ {
			lo := p10(n - 1)
			if n == 1 {
				lo = TI(0)
			}
			c := And(Le(lo, a), Lt(a, p10(n)))
			if !e.feasible(st, c) {
				continue
			}
			t := st.clone()
			t.assume(c)
			t.define(Implies(c, Eq(s.Len, TI(int64(n)+sign))))
			k(t, TI(int64(n)+sign))
		}
	}
	e.fork(st, Le(TI(0), v), func(st *State) { cases(st, v, 0) }, func(st *State) { cases(st, Neg(v), 1) })
}

// expand replaces the opaque decimal text of an integer below 2^64 by its digits (by cases).
func (e *Engine) expand(st *State, x Value, k func(st *State, s *StrV)) {
	s0 := x.(*StrV)
	if s0.IsVec || s0.T == nil || s0.T.Op != "app" || s0.T.Name != "ztoa" {
		k(st, s0)
		return
	}
	v := s0.T.Args[0]
	small := func(b uint) *Term { return And(Lt(Neg(p2T(int(b))), v), Lt(v, p2T(int(b)))) }
	if !e.valid(st, small(64)) {
		k(st, s0)
		return
	}
	e.fork(st, Le(TI(0), v), func(s *State) { e.digits(s, v, v, nil, k) },
		func(s *State) { e.digits(s, v, Neg(v), []*Term{TI('-')}, k) })
}

// digitCounts are the numbers of digits from lo to hi (inclusive) that a natural number can have.
func (e *Engine) digitCounts(st *State, a *Term, lo, hi int) []int {
	from := p10(lo - 1)
	if lo == 1 {
		from = TI(0)
	}
	if !e.feasible(st, And(Le(from, a), Lt(a, p10(hi)))) {
		return nil
	}
	if lo == hi {
		return []int{lo}
	}
	mid := (lo + hi) / 2
	return append(e.digitCounts(st, a, lo, mid), e.digitCounts(st, a, mid+1, hi)...)
}

func (e *Engine) digits(st *State, v, a *Term, pre []*Term, k func(*State, *StrV)) {
	for _, n := range e.digitCounts(st, a, 1, 20) {
		lo := p10(n - 1)
		if n == 1 {
			lo = TI(0)
		}
		c := And(Le(lo, a), Lt(a, p10(n)))
		s := st.clone()
		s.assume(c)
		vec := append([]*Term{}, pre...)
		sum := TI(0)
		for i := 0; i < n; i++ {
			var d *Term
			if n == 1 {
				d = a
			} else {
				d = TApp(fmt.Sprintf("digit%d_%d", n, i), SInt, a)
				d.setInterval(bZero, big.NewInt(9))
				s.define(intern(&Term{Op: "<=", S: SBool, Args: []*Term{TI(0), d}}))
				s.define(intern(&Term{Op: "<=", S: SBool, Args: []*Term{d, TI(9)}}))
				if i == 0 {
					s.define(Implies(c, Le(TI(1), d)))
				}
			}
			vec = append(vec, Add(TI('0'), d))
			sum = Add(sum, Mul(p10(n-1-i), d))
		}
		s.define(Implies(c, Eq(sum, a)))
		r := vecStr(vec)
		r.Num = v
		r.T = TApp("ztoa", SStr, v)
		k(s, r)
	}
}
