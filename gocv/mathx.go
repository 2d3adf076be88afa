package main

import (
	"math"
	"math/big"
)

func concFloat(v FloatV) (float64, bool) {
	if v.Cls.N == nil {
		return 0, false
	}
	switch v.Cls.N.Int64() {
	case 1:
		return math.Inf(1), true
	case 2:
		return math.Inf(-1), true
	case 3:
		return math.NaN(), true
	}
	if v.Val.R == nil {
		return 0, false
	}
	f, _ := v.Val.R.Float64()
	return f, true
}
func floatVal(f float64) FloatV {
	z := TRat(new(big.Rat))
	switch {
	case math.IsNaN(f):
		return FloatV{TI(3), z}
	case math.IsInf(f, 1):
		return FloatV{TI(1), z}
	case math.IsInf(f, -1):
		return FloatV{TI(2), z}
	}
	return FloatV{TI(0), TRat(new(big.Rat).SetFloat64(f))}
}

func init() {
	f1 := func(name string, f func(float64) float64, sym func(e *Engine, st *State, v FloatV) Value) {
		handlers["math."+name] = func(e *Engine, c *Call) {
			v := c.args[0].(FloatV)
			if x, ok := concFloat(v); ok {
				c.ret(floatVal(f(x)))
				return
			}
			if sym == nil {
				sym = func(e *Engine, st *State, v FloatV) Value {
					r := FloatV{TApp("math."+name+".c", SInt, v.Cls, v.Val), TApp("math."+name+".v", SReal, v.Cls, v.Val)}
					st.floatFacts(r, 64)
					return r
				}
			}
			c.ret(sym(e, c.st, v))
		}
	}
	f1("Log2", math.Log2, nil)
	f1("Log10", math.Log10, nil)
	f1("Sqrt", math.Sqrt, nil)
	f1("Round", math.Round, func(e *Engine, st *State, v FloatV) Value {
		half := TRat(big.NewRat(1, 2))
		up := func(t *Term) *Term { return ToReal(ToIntFloor(Add(t, half))) }
		return FloatV{v.Cls, Ite(Le(tr0(), v.Val), up(v.Val), Neg(up(Neg(v.Val))))}
	})
	f1("Ceil", math.Ceil, func(e *Engine, st *State, v FloatV) Value {
		if v.Cls.N != nil && v.Cls.N.Sign() == 0 && v.Val.R == nil && v.Val.Op != "to_real" {
			n := TApp("ceil!", SInt, v.Val)
			st.define(And(Le(v.Val, ToReal(n)), Lt(ToReal(n), Add(v.Val, TRat(big.NewRat(1, 1))))))
			return FloatV{TI(0), ToReal(n)}
		}
		return FloatV{v.Cls, ToReal(Neg(ToIntFloor(Neg(v.Val))))}
	})
	f1("Floor", math.Floor, func(e *Engine, st *State, v FloatV) Value { return FloatV{v.Cls, ToReal(ToIntFloor(v.Val))} })
	f1("Trunc", math.Trunc, func(e *Engine, st *State, v FloatV) Value { return FloatV{v.Cls, ToReal(truncReal(v.Val))} })
	f1("Abs", math.Abs, func(e *Engine, st *State, v FloatV) Value {
		z := TRat(new(big.Rat))
		return FloatV{Ite(Eq(v.Cls, TI(2)), TI(1), v.Cls), Ite(Le(z, v.Val), v.Val, Neg(v.Val))}
	})
	handlers["math/cmplx.Abs"] = func(e *Engine, c *Call) {
		x := c.args[0].(StructV)
		re, im := x[0].(FloatV), x[1].(FloatV)
		r := FloatV{TApp("cmplx.Abs.c", SInt, re.Cls, re.Val, im.Cls, im.Val), TApp("cmplx.Abs.v", SReal, re.Cls, re.Val, im.Cls, im.Val)}
		c.st.floatFacts(r, 64)
		c.st.define(And(Neq(r.Cls, TI(2)), Le(tr0(), r.Val)))
		c.st.define(Implies(And(Neq(re.Cls, TI(3)), Neq(im.Cls, TI(3))), Neq(r.Cls, TI(3))))
		c.ret(r)
	}
	handlers["math.IsNaN"] = func(e *Engine, c *Call) { c.ret(Eq(c.args[0].(FloatV).Cls, TI(3))) }
	handlers["math.NaN"] = func(e *Engine, c *Call) { c.ret(floatVal(math.NaN())) }
	handlers["math.Inf"] = func(e *Engine, c *Call) {
		s := Le(TI(0), c.t(0))
		c.ret(FloatV{Ite(s, TI(1), TI(2)), TRat(new(big.Rat))})
	}
	handlers["math.IsInf"] = func(e *Engine, c *Call) {
		v, s := c.args[0].(FloatV), c.t(1)
		c.ret(Or(And(Le(TI(0), s), Eq(v.Cls, TI(1))), And(Le(s, TI(0)), Eq(v.Cls, TI(2)))))
	}
}
