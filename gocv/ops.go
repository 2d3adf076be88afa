package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"slices"

	"golang.org/x/tools/go/ssa"
)

// wrapInt makes machine wrap-around explicit. The no-overflow case is recognised by intervals or
// by a solver query, otherwise the exact two's-complement result is used.
func (e *Engine) wrapInt(st *State, r *Term, t types.Type) *Term {
	lo, hi := intRange(t)
	if l, h := interval(r, 0); l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return r
	}
	in := And(Le(TBig(lo), r), Le(r, TBig(hi)))
	if in.isTrue() || e.valid(st, in) {
		return r
	}
	mod := new(big.Int).Add(new(big.Int).Sub(hi, lo), bOne)
	m := TBig(mod)
	// one-step wrap when the exact result is within one modulus
	two := And(Le(TBig(new(big.Int).Sub(lo, mod)), r), Le(r, TBig(new(big.Int).Add(hi, mod))))
	if two.isTrue() || e.valid(st, two) {
		return Ite(Lt(TBig(hi), r), Sub(r, m), Ite(Lt(r, TBig(lo)), Add(r, m), r))
	}
	return Add(ModE(Sub(r, TBig(lo)), m), TBig(lo))
}

// mulT is the product of two integers. With opaque products, a product of two unknown integers is an
// uninterpreted symbol of which only signs, magnitude and monotony in a few forms are known.
func (e *Engine) mulT(st *State, a, b *Term) *Term {
	if !e.opaqueMul || constRat(a) != nil || constRat(b) != nil {
		return Mul(a, b)
	}
	if a.Op == "ite" {
		return Ite(a.Args[0], e.mulT(st, a.Args[1], b), e.mulT(st, a.Args[2], b))
	}
	if b.Op == "ite" {
		return Ite(b.Args[0], e.mulT(st, a, b.Args[1]), e.mulT(st, a, b.Args[2]))
	}
	for i := 0; i < 2; i++ {
		if l := toLin(a); len(l.ts) > 1 || len(l.ts) == 1 && l.c.Sign() != 0 {
			sum := MulC(l.c, b)
			for _, t := range l.order() {
				sum = Add(sum, MulC(l.ts[t], e.mulT(st, t, b)))
			}
			return sum
		}
		a, b = b, a
	}
	m := Mul(a, b)
	l := toLin(m)
	if len(l.ts) != 1 || l.c.Sign() != 0 {
		return m
	}
	for t, k := range l.ts {
		if t.Op != "*" {
			return m
		}
		x, y := t.Args[0], t.Args[1]
		r := TApp("nlmul!", SInt, x, y)
		zero, one := TI(0), TI(1)
		xn, yn := Le(zero, x), Le(zero, y)
		xp, yp := Le(x, zero), Le(y, zero)
		st.define(Eq(Eq(r, zero), Or(Eq(x, zero), Eq(y, zero))))
		st.define(Implies(Or(And(xn, yn), And(xp, yp)), Le(zero, r)))
		st.define(Implies(Or(And(xn, yp), And(xp, yn)), Le(r, zero)))
		// the magnitude is not less than that of either factor
		ab := func(t *Term) *Term { return Ite(Le(zero, t), t, Neg(t)) }
		st.define(Implies(And(Neq(x, zero), Neq(y, zero)), And(Le(ab(x), ab(r)), Le(ab(y), ab(r)))))
		st.define(Implies(Eq(x, one), Eq(r, y)))
		st.define(Implies(Eq(y, one), Eq(r, x)))
		// nor more than the largest magnitudes allow
		for _, digits := range []int64{18, 20} {
			m := new(big.Int).Sub(new(big.Int).Exp(big.NewInt(10), big.NewInt(digits), nil), bOne)
			st.define(Implies(And(Le(ab(x), TBig(m)), Le(ab(y), TBig(m))), Le(ab(r), TBig(new(big.Int).Mul(m, m)))))
		}
		return MulC(k, r)
	}
	return m
}

// monotone relates q * b to c * b for positive b, as q is to the constant c.
func (e *Engine) monotone(st *State, q, b, c *Term) {
	qb, cb, pos := e.mulT(st, q, b), Mul(c, b), Lt(TI(0), b)
	st.define(Implies(And(pos, Le(q, c)), Le(qb, cb)))
	st.define(Implies(And(pos, Le(c, q)), Le(cb, qb)))
	st.define(Implies(And(pos, Lt(q, c)), Le(qb, Sub(cb, b))))
	st.define(Implies(And(pos, Lt(c, q)), Le(Add(cb, b), qb)))
}

// comparing instantiates monotone for a comparison with a constant, and the divisors there are.
func (e *Engine) comparing(st *State, x, y *Term) {
	if !e.opaqueMul || x.S != SInt {
		return
	}
	if x.N != nil {
		x, y = y, x
	}
	if y.N == nil || x.N != nil {
		return
	}
	if x.Op == "ite" {
		e.comparing(st, x.Args[1], y)
		e.comparing(st, x.Args[2], y)
		return
	}
	for _, b := range e.divisors {
		e.monotone(st, x, b, y)
	}
}

// tdiv: truncated division with shared quotient/remainder symbols.
func (e *Engine) tdiv(st *State, a, b *Term) (q, r *Term) {
	if a.N != nil && b.N != nil {
		qq, rr := new(big.Int).QuoRem(a.N, b.N, new(big.Int))
		return TBig(qq), TBig(rr)
	}
	nonneg := func(t *Term) bool {
		if l, _ := interval(t, 0); l != nil && l.Sign() >= 0 {
			return true
		}
		return e.valid(st, Le(TI(0), t))
	}
	if b.N != nil && b.N.Sign() > 0 {
		if nonneg(a) {
			return DivE(a, b), ModE(a, b)
		}
		q = Ite(Le(TI(0), a), DivE(a, b), Neg(DivE(Neg(a), b)))
		return q, Sub(a, Mul(b, q))
	}
	q, r = TApp("tdiv!", SInt, a, b), TApp("trem!", SInt, a, b)
	if e.opaqueMul && !slices.Contains(e.divisors, b) && len(e.divisors) < 4 {
		e.divisors = append(e.divisors, b)
	}
	prod := e.mulT(st, q, b)
	nz := Neq(b, TI(0))
	st.define(Implies(nz, Eq(a, Add(prod, r))))
	st.define(Implies(nz, Implies(Le(TI(0), a), Le(TI(0), r))))
	st.define(Implies(nz, Implies(Le(a, TI(0)), Le(r, TI(0)))))
	st.define(Implies(Lt(TI(0), b), And(Lt(r, b), Lt(Neg(b), r))))
	st.define(Implies(Lt(b, TI(0)), And(Lt(r, Neg(b)), Lt(b, r))))
	// sign and magnitude of the quotient (consequences, given to help the solver)
	st.define(Implies(And(Le(TI(0), a), Lt(TI(0), b)), And(Le(TI(0), q), Le(q, a))))
	st.define(Implies(And(Le(TI(0), a), Lt(b, TI(0))), And(Le(q, TI(0)), Le(Neg(a), q))))
	st.define(Implies(And(Le(a, TI(0)), Lt(TI(0), b)), And(Le(q, TI(0)), Le(a, q))))
	st.define(Implies(And(Le(a, TI(0)), Lt(b, TI(0))), And(Le(TI(0), q), Le(q, Neg(a)))))
	if a.Op == "*" && a.Args[0].N != nil && a.Args[0].N.Sign() > 0 {
		// c * x / b < c if x < b
		c, x := a.Args[0], a.Args[1]
		st.define(Implies(And(Lt(TI(0), b), Le(TI(0), x), Lt(x, b)), Lt(q, c)))
	}
	return q, r
}

func (e *Engine) binop(st *State, op token.Token, x, y Value, xt, yt, rt types.Type, in ssa.Instruction, p Pan, k func(*State, Value)) {
	switch op {
	case token.EQL:
		e.equal(st, x, y, xt, p, func(s *State, t *Term) { k(s, t) })
		return
	case token.NEQ:
		e.equal(st, x, y, xt, p, func(s *State, t *Term) { k(s, Not(t)) })
		return
	}
	switch a := x.(type) {
	case *Term:
		b, ok := y.(*Term)
		if !ok {
			panic(unsup("binop %s", op))
		}
		if a.S == SBool {
			switch op {
			case token.AND, token.LAND:
				k(st, And(a, b))
			case token.OR, token.LOR:
				k(st, Or(a, b))
			default:
				panic(unsup("bool op %s", op))
			}
			return
		}
		switch op {
		case token.ADD:
			k(st, e.wrapInt(st, Add(a, b), rt))
		case token.SUB:
			k(st, e.wrapInt(st, Sub(a, b), rt))
		case token.MUL:
			k(st, e.wrapInt(st, e.mulT(st, a, b), rt))
		case token.QUO, token.REM:
			e.guard(st, Neq(b, TI(0)), "integer divide by zero", p, func(s *State) {
				q, r := e.tdiv(s, a, b)
				if op == token.REM {
					k(s, r)
					return
				}
				if bits, signed, _ := intBits(rt); signed {
					_ = bits
					k(s, e.wrapInt(s, q, rt))
				} else {
					k(s, q)
				}
			})
		case token.LSS:
			e.comparing(st, a, b)
			k(st, Lt(a, b))
		case token.LEQ:
			e.comparing(st, a, b)
			k(st, Le(a, b))
		case token.GTR:
			e.comparing(st, a, b)
			k(st, Lt(b, a))
		case token.GEQ:
			e.comparing(st, a, b)
			k(st, Le(b, a))
		case token.SHL, token.SHR:
			bits, signed, _ := intBits(rt)
			sh := func(s *State, n int64) {
				if n >= int64(bits) {
					if op == token.SHL || !signed {
						k(s, TI(0))
						return
					}
					n = int64(bits) - 1
				}
				pw := TBig(new(big.Int).Lsh(bOne, uint(n)))
				if op == token.SHL {
					k(s, e.wrapInt(s, Mul(a, pw), rt))
				} else {
					k(s, DivE(a, pw))
				}
			}
			if b.N != nil {
				n := b.N.Int64()
				if n < 0 {
					e.rtPanic(st, p, "negative shift amount")
					return
				}
				sh(st, n)
				return
			}
			e.guard(st, Le(TI(0), b), "negative shift amount", p, func(s *State) {
				e.concretize(s, b, 0, 65, sh)
			})
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			k(st, e.bitop(st, op, a, b, rt))
		default:
			panic(unsup("int op %s", op))
		}
	case FloatV:
		b := y.(FloatV)
		switch op {
		case token.LSS:
			k(st, fLt(a, b))
		case token.GTR:
			k(st, fLt(b, a))
		case token.LEQ:
			k(st, Or(fLt(a, b), fEq(a, b)))
		case token.GEQ:
			k(st, Or(fLt(b, a), fEq(a, b)))
		case token.ADD, token.SUB, token.MUL, token.QUO:
			k(st, e.fArith(st, op, a, b, floatBits(rt)))
		default:
			panic(unsup("float op %s", op))
		}
	case *StrV:
		b := y.(*StrV)
		if op == token.ADD {
			e.expand(st, a, func(st *State, a *StrV) {
				e.expand(st, b, func(st *State, b *StrV) { k(st, st.strCat(a, b)) })
			})
			return
		}
		switch op {
		case token.LSS:
			k(st, st.strLt(a, b))
		case token.GTR:
			k(st, st.strLt(b, a))
		case token.LEQ:
			k(st, Not(st.strLt(b, a)))
		case token.GEQ:
			k(st, Not(st.strLt(a, b)))
		default:
			panic(unsup("string op %s", op))
		}
	default:
		panic(unsup("binop %s on %T", op, x))
	}
}

func (e *Engine) bitop(st *State, op token.Token, a, b *Term, t types.Type) *Term {
	if a.N != nil && b.N != nil {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(a.N, b.N)
		case token.OR:
			r.Or(a.N, b.N)
		case token.XOR:
			r.Xor(a.N, b.N)
		case token.AND_NOT:
			r.AndNot(a.N, b.N)
		}
		return TBig(r)
	}
	if a.N != nil && op != token.AND_NOT {
		a, b = b, a
	}
	bits, signed, _ := intBits(t)
	if b.N != nil && b.N.Sign() >= 0 {
		// decompose the constant mask into runs of ones
		and := func() *Term {
			res := []*Term{TI(0)}
			n := b.N
			for i := 0; i < n.BitLen(); {
				if n.Bit(i) == 0 {
					i++
					continue
				}
				j := i
				for n.Bit(j) == 1 {
					j++
				}
				// bits i..j-1 of a
				w := new(big.Int).Lsh(bOne, uint(j-i))
				lo := new(big.Int).Lsh(bOne, uint(i))
				part := ModE(DivE(a, TBig(lo)), TBig(w))
				res = append(res, Mul(TBig(lo), part))
				i = j
			}
			return Add(res...)
		}
		switch op {
		case token.AND:
			return and()
		case token.OR: // a|b = a + b - a&b
			return Sub(Add(a, b), and())
		case token.XOR:
			return Sub(Add(a, b), MulC(big.NewRat(2, 1), and()))
		case token.AND_NOT:
			return Sub(a, and())
		}
	}
	if b.N != nil && b.N.Sign() < 0 && signed {
		// mask with leading ones: a & b = a - (a & ^b)
		nb := TBig(new(big.Int).Not(b.N))
		switch op {
		case token.AND:
			return Sub(a, e.bitop(st, token.AND, a, nb, t))
		case token.AND_NOT:
			return e.bitop(st, token.AND, a, nb, t)
		}
	}
	// disjoint-or of shifted parts: x | y where y < 2^k and x multiple of 2^k
	if op == token.OR || op == token.XOR {
		for _, kk := range []uint{6, 12, 18, 8, 16, 24, 10, 4, 32} {
			pw := TBig(new(big.Int).Lsh(bOne, kk))
			for _, pr := range [][2]*Term{{a, b}, {b, a}} {
				c := And(Eq(ModE(pr[0], pw), TI(0)), Le(TI(0), pr[1]), Lt(pr[1], pw))
				if e.valid(st, c) {
					return Add(a, b)
				}
			}
		}
	}
	lo, hi := intRange(t)
	r := TApp(fmt.Sprintf("bit%s!%d%v", op, bits, signed), SInt, a, b)
	st.define(And(Le(TBig(lo), r), Le(r, TBig(hi))))
	if op == token.AND {
		st.define(Implies(And(Le(TI(0), a), Le(TI(0), b)), And(Le(TI(0), r), Le(r, a), Le(r, b))))
	}
	return r
}

// ---- floats ----
func fEq(a, b FloatV) *Term {
	return And(Neq(a.Cls, TI(3)), Eq(a.Cls, b.Cls), Or(Neq(a.Cls, TI(0)), Eq(a.Val, b.Val)))
}
func fLt(a, b FloatV) *Term {
	nn := And(Neq(a.Cls, TI(3)), Neq(b.Cls, TI(3)))
	ff := And(Eq(a.Cls, TI(0)), Eq(b.Cls, TI(0)), Not(Le(b.Val, a.Val)))
	neg := And(Eq(a.Cls, TI(2)), Neq(b.Cls, TI(2)))
	pos := And(Eq(b.Cls, TI(1)), Neq(a.Cls, TI(1)))
	return And(nn, Or(ff, neg, pos))
}
func (e *Engine) fArith(st *State, op token.Token, a, b FloatV, bits int) Value {
	if a.Cls.N != nil && b.Cls.N != nil && a.Cls.N.Sign() == 0 && b.Cls.N.Sign() == 0 && a.Val.R != nil && b.Val.R != nil {
		af, _ := a.Val.R.Float64()
		bf, _ := b.Val.R.Float64()
		var r float64
		switch op {
		case token.ADD:
			r = af + bf
		case token.SUB:
			r = af - bf
		case token.MUL:
			r = af * bf
		case token.QUO:
			r = af / bf
		}
		if bits == 32 {
			r = float64(float32(r))
		}
		if rr := new(big.Rat).SetFloat64(r); rr != nil {
			return FloatV{TI(0), TRat(rr)}
		}
	}
	n := fmt.Sprintf("f%s%d", op, bits)
	r := FloatV{TApp(n+".c", SInt, a.Cls, a.Val, b.Cls, b.Val), TApp(n+".v", SReal, a.Cls, a.Val, b.Cls, b.Val)}
	st.floatFacts(r, bits)
	if op == token.MUL && bits == 64 {
		// a product of a constant and a value of moderate size is accurate to half a unit in the last place
		x, cst := a, b
		if a.Val.R != nil {
			x, cst = b, a
		}
		if cst.Val.R != nil && cst.Cls.N != nil && cst.Cls.N.Sign() == 0 && x.Val.R == nil {
			lo, hi := TRat(big.NewRat(1, 1)), TRat(new(big.Rat).SetInt(new(big.Int).Lsh(bOne, 50)))
			if cst.Val.R.Cmp(lo.R) >= 0 && cst.Val.R.Cmp(big.NewRat(1000, 1)) <= 0 {
				exact := MulC(cst.Val.R, x.Val)
				u := new(big.Rat).SetFrac(bOne, new(big.Int).Lsh(bOne, 53))
				g := And(Eq(x.Cls, TI(0)), Le(lo, x.Val), Le(x.Val, hi))
				if x.Cls.N != nil && x.Cls.N.Sign() == 0 && x.Val.Op == "to_real" && e.valid(st, g) {
					v := TApp("fmulc!", SReal, cst.Val, x.Val)
					st.define(And(Le(Sub(exact, MulC(u, exact)), v), Le(v, Add(exact, MulC(u, exact)))))
					return FloatV{TI(0), v}
				}
				st.define(Implies(g, And(Eq(r.Cls, TI(0)),
					Le(Sub(exact, MulC(u, exact)), r.Val), Le(r.Val, Add(exact, MulC(u, exact))))))
			}
		}
	}
	return r
}

// intToFloat: round-to-nearest-even of an integer to binary32/64.
func (e *Engine) intToFloat(st *State, x *Term, bits int) FloatV {
	if x.N != nil {
		f := new(big.Float).SetInt(x.N)
		var r *big.Rat
		if bits == 32 {
			g, _ := f.Float32()
			r = new(big.Rat).SetFloat64(float64(g))
		} else {
			g, _ := f.Float64()
			r = new(big.Rat).SetFloat64(g)
		}
		return FloatV{TI(0), TRat(r)}
	}
	mant := 53
	if bits == 32 {
		mant = 24
	}
	f := TApp(fmt.Sprintf("i2f%d", bits), SInt, x)
	p2 := func(k int) *Term { return TBig(new(big.Int).Lsh(bOne, uint(k))) }
	if e.valid(st, And(Le(Neg(p2(mant)), x), Le(x, p2(mant)))) {
		return FloatV{TI(0), ToReal(x)}
	}
	st.define(Implies(And(Le(Neg(p2(mant)), x), Le(x, p2(mant))), Eq(f, x)))
	for k := mant; k < 64; k++ {
		g := Or(And(Le(p2(k), x), Lt(x, p2(k+1))), And(Le(x, Neg(p2(k))), Lt(Neg(p2(k+1)), x)))
		u := k - mant + 1 // ulp exponent
		m := TApp(fmt.Sprintf("i2fm%d", bits), SInt, x, TI(int64(k)))
		d := Sub(f, x)
		half := p2(u - 1)
		st.define(Implies(g, And(Eq(f, Mul(p2(u), m)), Le(Neg(half), d), Le(d, half))))
		st.define(Implies(And(g, Or(Eq(d, half), Eq(d, Neg(half)))), Eq(ModE(m, TI(2)), TI(0))))
	}
	return FloatV{TI(0), ToReal(f)}
}

func truncReal(v *Term) *Term {
	if v.R != nil {
		return TBig(new(big.Int).Quo(v.R.Num(), v.R.Denom()))
	}
	z := TRat(new(big.Rat))
	return Ite(Le(z, v), ToIntFloor(v), Neg(ToIntFloor(Neg(v))))
}

// ---- strings ----
func (st *State) byteAt(s *StrV, i *Term) *Term {
	t := s.at(i)
	if t.N == nil && !t.bound {
		st.define(And(Le(TI(0), t), Le(t, TI(255))))
	}
	return t
}
func (st *State) strCat(a, b *StrV) *StrV {
	if a.IsVec && len(a.Vec) == 0 {
		return b
	}
	if b.IsVec && len(b.Vec) == 0 {
		return a
	}
	if a.IsVec && b.IsVec {
		return vecStr(append(append([]*Term(nil), a.Vec...), b.Vec...))
	}
	ta, tb := st.strTerm(a), st.strTerm(b)
	t := TApp("strcat", SStr, ta, tb)
	la, lb := TApp("strlen", SInt, ta), TApp("strlen", SInt, tb)
	dt, da, db := TApp("strdata", SArr(SInt), t), TApp("strdata", SArr(SInt), ta), TApp("strdata", SArr(SInt), tb)
	st.define(Eq(TApp("strlen", SInt, t), Add(la, lb)))
	i := TBound("?c", SInt)
	if a.IsVec && len(a.Vec) <= 8 {
		for j := range a.Vec {
			st.define(Eq(Select(dt, TI(int64(j))), a.Vec[j]))
		}
	} else {
		st.define(Forall(i, Implies(And(Le(TI(0), i), Lt(i, la)), Eq(Select(dt, i), Select(da, i)))))
	}
	if b.IsVec && len(b.Vec) <= 8 {
		for j := range b.Vec {
			st.define(Eq(Select(dt, Add(la, TI(int64(j)))), b.Vec[j]))
		}
	} else {
		st.define(Forall(i, Implies(And(Le(la, i), Lt(i, Add(la, lb))), Eq(Select(dt, i), Select(db, Sub(i, la))))))
	}
	return st.opaqueStr(t)
}
func (st *State) symStr(s *StrV) *StrV { // array form
	if !s.IsVec {
		return s
	}
	return st.opaqueStrRaw(st.strTerm(s))
}
func (st *State) opaqueStrRaw(t *Term) *StrV {
	return &StrV{T: t, Len: TApp("strlen", SInt, t), Arr: TApp("strdata", SArr(SInt), t), Off: TI(0)}
}
func (st *State) substr(s *StrV, lo, hi *Term) *StrV {
	if s.IsVec && lo.N != nil && hi.N != nil {
		return vecStr(s.Vec[lo.N.Int64():hi.N.Int64()])
	}
	if lo.N != nil && lo.N.Sign() == 0 && hi == s.Len {
		return s
	}
	if n := Sub(hi, lo); n.N != nil && n.N.IsInt64() && n.N.Int64() <= 64 {
		v := make([]*Term, n.N.Int64())
		for i := range v {
			v[i] = st.byteAt(s, Add(lo, TI(int64(i))))
		}
		return vecStr(v)
	}
	a := st.symStr(s)
	return &StrV{Len: Sub(hi, lo), Arr: a.Arr, Off: Add(a.Off, lo)}
}

// ---- equality ----
func (e *Engine) equal(st *State, x, y Value, t types.Type, p Pan, k func(*State, *Term)) {
	if a, ok := x.(*StrV); ok {
		b := y.(*StrV)
		if a.lazy() && b.lazy() {
			k(st, Eq(a.T.Args[0], b.T.Args[0]))
			return
		}
		if a.lazy() || b.lazy() {
			e.expand(st, a, func(st *State, a *StrV) {
				e.expand(st, b, func(st *State, b *StrV) { k(st, st.strEq(a, b)) })
			})
			return
		}
	}
	r, bad := e.eqTerm(st, x, y, t)
	if bad != "" {
		e.rtPanic(st, p, bad)
		return
	}
	k(st, r)
}
func (e *Engine) eqTerm(st *State, x, y Value, t types.Type) (*Term, string) {
	switch a := x.(type) {
	case *Term:
		return Eq(a, y.(*Term)), ""
	case FloatV:
		return fEq(a, y.(FloatV)), ""
	case *StrV:
		return st.strEq(a, y.(*StrV)), ""
	case StructV:
		b := y.(StructV)
		r := TTrue
		for i := range a {
			q, bad := e.eqTerm(st, a[i], b[i], nil)
			if bad != "" {
				return nil, bad
			}
			r = And(r, q)
		}
		return r, ""
	case ArrayV:
		b := y.(ArrayV)
		r := TTrue
		for i := range a {
			q, bad := e.eqTerm(st, a[i], b[i], nil)
			if bad != "" {
				return nil, bad
			}
			r = And(r, q)
		}
		return r, ""
	case Ptr:
		switch b := y.(type) {
		case Ptr:
			return e.ptrEq(st, a, b), ""
		case IfaceV: // untyped nil
			return TBool(a.Obj == 0 && a.Sym == nil), ""
		}
	case SliceV:
		b := y.(SliceV)
		if b.Obj == 0 && b.Nil.isTrue() {
			return a.Nil, ""
		}
		if a.Obj == 0 && a.Nil.isTrue() {
			return b.Nil, ""
		}
		return nil, "comparing uncomparable type slice"
	case MapV:
		b := y.(MapV)
		if a.Obj == 0 && a.Sym == nil {
			a, b = b, a
		}
		if b.Obj == 0 && b.Sym == nil {
			if a.Sym != nil {
				return Eq(a.Sym, TI(0)), ""
			}
			return TBool(a.Obj == 0), ""
		}
		return nil, "comparing uncomparable type map"
	case FuncV:
		b := y.(FuncV)
		isNil := func(f FuncV) bool { return f.Fn == nil && f.Sym == nil && f.Nat == nil && f.Bi == nil }
		if isNil(a) {
			a, b = b, a
		}
		if isNil(b) {
			if a.Sym != nil && a.Sym.Id != nil {
				return Eq(a.Sym.Id, TI(0)), ""
			}
			return TBool(isNil(a)), ""
		}
		return nil, "comparing uncomparable type func"
	case OpaqueV:
		return Eq(a.Id, y.(OpaqueV).Id), ""
	case RTypeV:
		b := y.(RTypeV)
		return TBool(types.Identical(a.T, b.T)), ""
	case IfaceV:
		b, ok := y.(IfaceV)
		if !ok {
			panic(unsup("eq iface/%T", y))
		}
		if a.Sym == nil && b.Sym == nil {
			if a.Typ == nil || b.Typ == nil {
				return TBool(a.Typ == nil && b.Typ == nil), ""
			}
			if !types.Identical(a.Typ, b.Typ) {
				return TFalse, ""
			}
			if !types.Comparable(a.Typ) {
				return nil, "comparing uncomparable type " + typeKey(a.Typ)
			}
			return e.eqTerm(st, a.Val, b.Val, a.Typ)
		}
		return Eq(st.ifaceID(a), st.ifaceID(b)), ""
	}
	panic(unsup("equality of %T and %T", x, y))
}
func (e *Engine) ptrEq(st *State, a, b Ptr) *Term {
	if a.Sym != nil || b.Sym != nil {
		return Eq(st.ptrID(a, nil), st.ptrID(b, nil))
	}
	if a.Obj != b.Obj || len(a.Path) != len(b.Path) {
		return TFalse
	}
	r := TTrue
	for i := range a.Path {
		p, q := a.Path[i], b.Path[i]
		if (p.Idx == nil) != (q.Idx == nil) {
			return TFalse
		}
		if p.Idx != nil {
			r = And(r, Eq(p.Idx, q.Idx))
		} else if p.Field != q.Field {
			return TFalse
		}
	}
	return r
}

// ---- conversions ----
func (e *Engine) convert(st *State, v Value, from, to types.Type, k func(*State, Value)) {
	if s, ok := v.(*StrV); ok && s.lazy() && !isString(to) {
		e.expand(st, s, func(st *State, s *StrV) {
			if s.lazy() {
				s = &StrV{Len: s.Len, Arr: s.Arr, Off: s.Off}
			}
			e.convert(st, s, from, to, k)
		})
		return
	}
	switch {
	case isInt(from) && isInt(to):
		k(st, e.wrapInt(st, v.(*Term), to))
		return
	case isInt(from) && floatBits(to) > 0:
		k(st, e.intToFloat(st, v.(*Term), floatBits(to)))
		return
	case floatBits(from) > 0 && isInt(to):
		f := v.(FloatV)
		lo, hi := intRange(to)
		tr := truncReal(f.Val)
		okc := And(Eq(f.Cls, TI(0)), Le(TBig(lo), tr), Le(tr, TBig(hi)))
		r := TApp("f2i!"+typeKey(under(to)), SInt, f.Cls, f.Val)
		st.define(Implies(okc, Eq(r, tr)))
		st.define(And(Le(TBig(lo), r), Le(r, TBig(hi))))
		if okc.isTrue() || f.Cls.N != nil && f.Cls.N.Sign() == 0 && f.Val.Op == "to_real" && e.valid(st, okc) {
			k(st, tr)
			return
		}
		// out of range (implementation-defined): as amd64 does for 32 and 64 bit targets
		if nb, signed, _ := intBits(to); signed && nb >= 32 {
			st.define(Implies(Not(okc), Eq(r, TBig(lo))))
		} else if nb >= 32 {
			h, m := And(Eq(f.Cls, TI(0)), Lt(TBig(hi), tr)), p2T(63)
			if nb == 64 {
				st.define(Implies(h, Eq(r, m)))
			} else {
				st.define(Implies(And(h, Lt(tr, m)), Eq(r, ModE(tr, p2T(32)))))
				st.define(Implies(And(h, Le(m, tr)), Eq(r, TI(0))))
			}
		}
		k(st, r)
		return
	case floatBits(from) > 0 && floatBits(to) > 0:
		f := v.(FloatV)
		if floatBits(from) <= floatBits(to) {
			k(st, f)
			return
		}
		k(st, e.round32(st, f))
		return
	case isString(from) && isString(to):
		k(st, v)
		return
	case isString(to) && isInt(from):
		e.runeToStr(st, v.(*Term), k)
		return
	case isComplex(from) && isComplex(to):
		k(st, v)
		return
	}
	if sl, ok := under(to).(*types.Slice); ok && isString(from) {
		s := v.(*StrV)
		if b, _ := sl.Elem().Underlying().(*types.Basic); b != nil && b.Kind() == types.Uint8 {
			if s.IsVec {
				vec := make([]Value, len(s.Vec))
				for i := range vec {
					vec[i] = s.Vec[i]
				}
				id := st.alloc(&Obj{Kind: 'a', Typ: sl.Elem(), Vec: vec})
				n := TI(int64(len(vec)))
				k(st, SliceV{id, TI(0), n, n, TFalse})
				return
			}
			id := st.alloc(&Obj{Kind: 'a', Typ: sl.Elem(), Sym: &Tree{Leaf: s.Arr}})
			k(st, SliceV{id, s.Off, s.Len, s.Len, TFalse})
			return
		}
		if b, _ := sl.Elem().Underlying().(*types.Basic); b != nil && b.Kind() == types.Int32 {
			e.strToRunes(st, s, 0, nil, sl.Elem(), k)
			return
		}
	}
	if sl, ok := under(from).(*types.Slice); ok && isString(to) {
		s := v.(SliceV)
		if b, _ := sl.Elem().Underlying().(*types.Basic); b != nil && b.Kind() == types.Uint8 {
			if s.Obj == 0 {
				k(st, concStr(""))
				return
			}
			o := st.obj(s.Obj)
			if o.Sym == nil && s.Off.N != nil && s.Len.N != nil {
				vec := make([]*Term, s.Len.N.Int64())
				for i := range vec {
					vec[i] = o.Vec[int(s.Off.N.Int64())+i].(*Term)
				}
				k(st, vecStr(vec))
				return
			}
			var arr *Term
			if o.Sym != nil {
				arr = o.Sym.Leaf
			} else {
				arr = st.vecTree(o).Leaf
			}
			k(st, &StrV{Arr: arr, Off: s.Off, Len: s.Len})
			return
		}
		// string([]rune)
		o := st.objOrEmpty(s)
		if o.Sym == nil && s.Off.N != nil && s.Len.N != nil {
			e.runesToStr(st, o.Vec[s.Off.N.Int64():s.Off.N.Int64()+s.Len.N.Int64()], concStr(""), k)
			return
		}
		panic(unsup("string of a symbolic []rune"))
	}
	if types.Identical(under(from), under(to)) {
		k(st, v)
		return
	}
	if _, ok := under(to).(*types.Pointer); ok {
		k(st, v)
		return
	}
	panic(unsup("conversion %s -> %s", from, to))
}
func (st *State) objOrEmpty(s SliceV) *Obj {
	if s.Obj == 0 {
		return &Obj{Kind: 'a'}
	}
	return st.obj(s.Obj)
}

// round32: binary64 -> binary32. Exact when the magnitude/precision allows; otherwise an
// unspecified nearby binary32 value. r = x exactly iff x is a binary32 value (isf32).
func (e *Engine) round32(st *State, f FloatV) FloatV {
	if f.Cls.N != nil && f.Val.R != nil {
		if f.Cls.N.Sign() != 0 {
			return f
		}
		g, _ := f.Val.R.Float64()
		h := float32(g)
		if r := new(big.Rat).SetFloat64(float64(h)); r != nil {
			return FloatV{TI(0), TRat(r)}
		}
		if h > 0 {
			return FloatV{TI(1), f.Val}
		}
		return FloatV{TI(2), f.Val}
	}
	c, v := TApp("rnd32.c", SInt, f.Cls, f.Val), TApp("rnd32.v", SReal, f.Cls, f.Val)
	r := FloatV{c, v}
	st.define(Implies(Neq(f.Cls, TI(0)), Eq(c, f.Cls)))
	st.define(Implies(Eq(f.Cls, TI(0)), And(Neq(c, TI(3)))))
	// rounding is monotone around zero
	z := tr0()
	fin := And(Eq(f.Cls, TI(0)), Eq(c, TI(0)))
	st.define(Implies(And(fin, Le(z, f.Val)), Le(z, v)))
	st.define(Implies(And(fin, Le(f.Val, z)), Le(v, z)))
	// integers up to 2^24 are exact; so is every value the predicate isf32 accepts
	is := TApp("isf32", SBool, f.Val)
	st.isf32(f.Val)
	st.define(Implies(And(Eq(f.Cls, TI(0)), is), And(Eq(c, TI(0)), Eq(v, f.Val))))
	st.define(Implies(And(Eq(c, TI(0))), TApp("isf32", SBool, v)))
	st.floatFacts(r, 32)
	// overflow to infinity only beyond the binary32 range
	max := new(big.Rat).SetFrac(new(big.Int).Lsh(bOne, 128), bOne)
	half := new(big.Rat).SetInt(new(big.Int).Lsh(bOne, 103))
	lim := TRat(new(big.Rat).Sub(max, half))
	st.define(Implies(And(Eq(f.Cls, TI(0)), Eq(c, TI(1))), Le(lim, f.Val)))
	st.define(Implies(And(Eq(f.Cls, TI(0)), Eq(c, TI(2))), Le(f.Val, Neg(lim))))
	st.define(Implies(And(Eq(f.Cls, TI(0)), Le(lim, f.Val)), Eq(c, TI(1))))
	st.define(Implies(And(Eq(f.Cls, TI(0)), Le(f.Val, Neg(lim))), Eq(c, TI(2))))
	return r
}

func (e *Engine) runeToStr(st *State, r *Term, k func(*State, Value)) {
	b := func(div int64, mod int64, add int64) *Term {
		return Add(ModE(DivE(r, TI(div)), TI(mod)), TI(add))
	}
	bad := vecStr([]*Term{TI(0xEF), TI(0xBF), TI(0xBD)})
	valid := And(Le(TI(0), r), Le(r, TI(0x10FFFF)), Or(Lt(r, TI(0xD800)), Lt(TI(0xDFFF), r)))
	e.fork(st, valid, func(s *State) {
		e.fork(s, Lt(r, TI(0x80)), func(s *State) { k(s, vecStr([]*Term{r})) }, func(s *State) {
			e.fork(s, Lt(r, TI(0x800)), func(s *State) {
				k(s, vecStr([]*Term{Add(DivE(r, TI(64)), TI(0xC0)), b(1, 64, 0x80)}))
			}, func(s *State) {
				e.fork(s, Lt(r, TI(0x10000)), func(s *State) {
					k(s, vecStr([]*Term{Add(DivE(r, TI(4096)), TI(0xE0)), b(64, 64, 0x80), b(1, 64, 0x80)}))
				}, func(s *State) {
					k(s, vecStr([]*Term{Add(DivE(r, TI(262144)), TI(0xF0)), b(4096, 64, 0x80), b(64, 64, 0x80), b(1, 64, 0x80)}))
				})
			})
		})
	}, func(s *State) { k(s, bad) })
}
func (e *Engine) runesToStr(st *State, rs []Value, acc *StrV, k func(*State, Value)) {
	if len(rs) == 0 {
		k(st, acc)
		return
	}
	e.runeToStr(st, rs[0].(*Term), func(s *State, v Value) {
		e.runesToStr(s, rs[1:], s.strCat(acc, v.(*StrV)), k)
	})
}

// strToRunes decodes a fixed-length string.
func (e *Engine) strToRunes(st *State, s *StrV, at int, acc []Value, et types.Type, k func(*State, Value)) {
	if !s.IsVec {
		panic(unsup("[]rune of a symbolic-length string"))
	}
	if at >= len(s.Vec) {
		id := st.alloc(&Obj{Kind: 'a', Typ: et, Vec: append([]Value{}, acc...)})
		n := TI(int64(len(acc)))
		k(st, SliceV{id, TI(0), n, n, TFalse})
		return
	}
	e.decodeRune(st, s, TI(int64(at)), func(st *State, r *Term, w int) {
		e.strToRunes(st, s, at+w, append(acc[:len(acc):len(acc)], r), et, k)
	})
}

// decodeRune decodes the UTF-8 sequence at i (i < len).
func (e *Engine) decodeRune(st *State, s *StrV, i *Term, k func(st *State, r *Term, w int)) {
	b0 := st.byteAt(s, i)
	e.fork(st, Lt(b0, TI(0x80)), func(st *State) { k(st, b0, 1) }, func(st *State) {
		fn := e.sh.stdFunc("unicode/utf8", "DecodeRuneInString")
		e.callFn(st, fn, nil, []Value{st.substr(s, i, s.Len)}, nil, func(st *State, v Value) {
			t := v.(TupleV)
			e.concretize(st, t[1].(*Term), 1, 5, func(st *State, w int64) { k(st, t[0].(*Term), int(w)) })
		}, func(st *State, pv Value) { panic(unsup("DecodeRuneInString panicked")) }, nil)
	})
}

// ---- slices ----
func (e *Engine) makeSlice(st *State, et types.Type, l, c *Term, p Pan, k func(*State, Value)) {
	e.guard(st, And(Le(TI(0), l), Le(l, c), Le(c, TBig(maxLen))), "makeslice: len/cap out of range", p, func(st *State) {
		if c.N != nil && c.N.Int64() <= 4096 && l.N != nil {
			vec := make([]Value, c.N.Int64())
			for i := range vec {
				vec[i] = zeroValue(et)
			}
			id := st.alloc(&Obj{Kind: 'a', Typ: et, Vec: vec})
			k(st, SliceV{id, TI(0), l, c, TFalse})
			return
		}
		id := st.alloc(&Obj{Kind: 'a', Typ: et, Sym: defaultTree(et, 1)})
		k(st, SliceV{id, TI(0), l, c, TFalse})
	})
}
func (e *Engine) slice(st *State, v Value, t types.Type, lo, hi, max *Term, p Pan, k func(*State, Value)) {
	if lo == nil {
		lo = TI(0)
	}
	switch x := v.(type) {
	case *StrV:
		if x.lazy() {
			e.expand(st, x, func(st *State, s *StrV) {
				if s.lazy() {
					s = &StrV{Len: s.Len, Arr: s.Arr, Off: s.Off}
				}
				e.slice(st, s, t, lo, hi, max, p, k)
			})
			return
		}
		if hi == nil {
			hi = x.Len
		}
		e.guard(st, And(Le(TI(0), lo), Le(lo, hi), Le(hi, x.Len)), "slice bounds out of range", p, func(s *State) {
			if x.IsVec && (lo.N == nil || hi.N == nil) && len(x.Vec) <= 64 {
				n := int64(len(x.Vec)) + 1
				e.concretize(s, lo, 0, n, func(s *State, l int64) {
					e.concretize(s, hi, 0, n, func(s *State, h int64) { k(s, s.substr(x, TI(l), TI(h))) })
				})
				return
			}
			k(s, s.substr(x, lo, hi))
		})
	case SliceV:
		if hi == nil {
			hi = x.Len
		}
		cp := x.Cap
		c := And(Le(TI(0), lo), Le(lo, hi), Le(hi, cp))
		if max != nil {
			c = And(Le(TI(0), lo), Le(lo, hi), Le(hi, max), Le(max, cp))
			cp = max
		}
		e.guard(st, c, "slice bounds out of range", p, func(s *State) {
			k(s, SliceV{x.Obj, Add(x.Off, lo), Sub(hi, lo), Sub(cp, lo), x.Nil})
		})
	case Ptr:
		if x.Obj == 0 {
			e.rtPanic(st, p, "nil pointer dereference")
			return
		}
		at := under(under(t).(*types.Pointer).Elem()).(*types.Array)
		if len(x.Path) != 0 || st.obj(x.Obj).Kind != 'a' {
			panic(unsup("slicing an embedded array"))
		}
		n := TI(at.Len())
		if hi == nil {
			hi = n
		}
		cp := n
		c := And(Le(TI(0), lo), Le(lo, hi), Le(hi, n))
		if max != nil {
			cp = max
			c = And(Le(TI(0), lo), Le(lo, hi), Le(hi, max), Le(max, n))
		}
		e.guard(st, c, "slice bounds out of range", p, func(s *State) {
			k(s, SliceV{x.Obj, lo, Sub(hi, lo), Sub(cp, lo), TFalse})
		})
	default:
		panic(unsup("slice of %T", v))
	}
}

// elemsOf returns the elements of a slice with concrete offset and length.
func (st *State) elemsOf(s SliceV) ([]Value, bool) {
	if s.Obj == 0 {
		return nil, true
	}
	if s.Len.N == nil {
		return nil, false
	}
	o := st.obj(s.Obj)
	n := int(s.Len.N.Int64())
	if o.Sym == nil {
		if s.Off.N == nil {
			return nil, false
		}
		of := int(s.Off.N.Int64())
		return o.Vec[of : of+n], true
	}
	if n > 64 {
		return nil, false
	}
	out := make([]Value, n)
	for i := range out {
		out[i] = st.decode(o.Sym.sel(Add(s.Off, TI(int64(i)))), o.Typ)
	}
	return out, true
}
func (st *State) symTree(o *Obj) *Tree {
	if o.Sym != nil {
		return o.Sym
	}
	return st.vecTree(o)
}

// blit: dst with dst[at..at+n) := src[so..so+n)
func (st *State) blit(dst *Tree, at *Term, src *Tree, so, n *Term) *Tree {
	return zipTree(dst, src, func(d, s *Term) *Term {
		r := TApp("blit!"+string(d.S), d.S, d, at, s, so, n)
		i := TBound("?b", SInt)
		st.define(Forall(i, Eq(Select(r, i), Ite(And(Le(at, i), Lt(i, Add(at, n))), Select(s, Add(so, Sub(i, at))), Select(d, i)))))
		return r
	})
}

func (e *Engine) appendS(st *State, a SliceV, b Value, et types.Type, k func(*State, Value)) {
	var bn *Term
	var bvals []Value
	bconc := false
	var bs SliceV
	switch y := b.(type) {
	case *StrV: // append([]byte, string...)
		bn = y.Len
		if y.IsVec {
			bconc = true
			for _, t := range y.Vec {
				bvals = append(bvals, t)
			}
		} else {
			id := st.alloc(&Obj{Kind: 'a', Typ: et, Sym: &Tree{Leaf: y.Arr}, Ro: true})
			bs = SliceV{id, y.Off, y.Len, y.Len, TFalse}
		}
	case SliceV:
		bs = y
		bn = y.Len
		st.noteSpan(y.Obj, y.Off, y.Len, false)
		bvals, bconc = st.elemsOf(y)
	default:
		panic(unsup("append of %T", b))
	}
	if bconc && len(bvals) == 0 {
		k(st, a)
		return
	}
	nl := Add(a.Len, bn)
	if len(bvals) > 32 {
		if av, ok := st.elemsOf(a); !ok || len(av) > 0 {
			bconc = ok && bconc
		}
	}
	// in place
	inplace := func(st *State) {
		o := st.obj(a.Obj)
		if o.Ro {
			panic(unsup("append in place into a snapshot"))
		}
		st.noteSpan(a.Obj, Add(a.Off, a.Len), bn, true)
		n := *o
		at := Add(a.Off, a.Len)
		if bconc && o.Sym == nil && at.N != nil {
			n.Vec = append([]Value(nil), o.Vec...)
			for i, v := range bvals {
				n.Vec[int(at.N.Int64())+i] = v
			}
		} else {
			n.Sym = st.symTree(o)
			n.Vec = nil
			if bconc {
				for i, v := range bvals {
					n.Sym = n.Sym.sto(Add(at, TI(int64(i))), st.encode(v, et))
				}
			} else {
				n.Sym = st.blit(n.Sym, at, st.symTree(st.obj(bs.Obj)), bs.Off, bn)
			}
		}
		st.setObj(a.Obj, &n)
		k(st, SliceV{a.Obj, a.Off, nl, a.Cap, TFalse})
	}
	grow := func(st *State) {
		st.noteSpan(a.Obj, a.Off, a.Len, false)
		av, aconc := st.elemsOf(a)
		if aconc && bconc && len(av)+len(bvals) <= 4096 && (a.Obj == 0 || st.obj(a.Obj).Sym == nil) {
			vec := append(append([]Value{}, av...), bvals...)
			n := len(vec)
			mk := func(st *State, slack int) {
				v2 := append([]Value{}, vec...)
				for i := 0; i < slack; i++ {
					v2 = append(v2, zeroValue(et))
				}
				id := st.alloc(&Obj{Kind: 'a', Typ: et, Vec: v2})
				k(st, SliceV{id, TI(0), TI(int64(n)), TI(int64(n + slack)), TFalse})
			}
			switch st.growth {
			case 1:
				mk(st, 0)
			case 2:
				mk(st, 2)
			default:
				if e.noSlack {
					mk(st, 0)
					return
				}
				s1 := st.clone()
				s1.growth = 1
				mk(s1, 0)
				st.growth = 2
				mk(st, 2)
			}
			return
		}
		var content *Tree
		if a.Obj == 0 {
			content = defaultTree(et, 1)
		} else {
			content = st.shiftTree(st.symTree(st.obj(a.Obj)), a.Off)
		}
		if bconc {
			for i, v := range bvals {
				content = content.sto(Add(a.Len, TI(int64(i))), st.encode(v, et))
			}
		} else {
			content = st.blit(content, a.Len, st.symTree(st.obj(bs.Obj)), bs.Off, bn)
		}
		c := st.freshInt("cap", nil)
		st.assume(Le(nl, c))
		st.assume(Le(c, TBig(maxLen)))
		id := st.alloc(&Obj{Kind: 'a', Typ: et, Sym: content})
		k(st, SliceV{id, TI(0), nl, c, TFalse})
	}
	if a.Obj == 0 {
		if !bconc {
			// appending possibly nothing to nil keeps nil
			e.fork(st, Eq(bn, TI(0)), func(s *State) { k(s, a) }, grow)
			return
		}
		grow(st)
		return
	}
	e.fork(st, Le(nl, a.Cap), inplace, grow)
}

func (e *Engine) copyS(st *State, d SliceV, src Value, k func(*State, Value)) {
	var s SliceV
	switch y := src.(type) {
	case SliceV:
		s = y
	case *StrV:
		if y.IsVec {
			vec := make([]Value, len(y.Vec))
			for i := range vec {
				vec[i] = y.Vec[i]
			}
			s = SliceV{st.alloc(&Obj{Kind: 'a', Typ: types.Typ[types.Uint8], Vec: vec}), TI(0), y.Len, y.Len, TFalse}
		} else {
			s = SliceV{st.alloc(&Obj{Kind: 'a', Typ: types.Typ[types.Uint8], Sym: &Tree{Leaf: y.Arr}}), y.Off, y.Len, y.Len, TFalse}
		}
	}
	body := func(st *State, n *Term) {
		if n.N != nil && n.N.Sign() == 0 || d.Obj == 0 || s.Obj == 0 {
			k(st, n)
			return
		}
		o := st.obj(d.Obj)
		so := st.obj(s.Obj)
		if o.Ro {
			panic(unsup("copy into a snapshot"))
		}
		st.noteSpan(s.Obj, s.Off, n, false)
		st.noteSpan(d.Obj, d.Off, n, true)
		nn := *o
		if n.N != nil && o.Sym == nil && d.Off.N != nil && n.N.Int64() <= 4096 {
			vals := make([]Value, n.N.Int64())
			ok := true
			if so.Sym == nil && s.Off.N != nil {
				for i := range vals {
					vals[i] = so.Vec[int(s.Off.N.Int64())+i]
				}
			} else if so.Sym != nil {
				for i := range vals {
					vals[i] = st.decode(so.Sym.sel(Add(s.Off, TI(int64(i)))), so.Typ)
				}
			} else {
				ok = false
			}
			if ok {
				nn.Vec = append([]Value(nil), o.Vec...)
				for i, v := range vals {
					nn.Vec[int(d.Off.N.Int64())+i] = v
				}
				st.setObj(d.Obj, &nn)
				k(st, n)
				return
			}
		}
		nn.Sym = st.blit(st.symTree(o), d.Off, st.symTree(so), s.Off, n)
		nn.Vec = nil
		st.setObj(d.Obj, &nn)
		k(st, n)
	}
	e.fork(st, Le(d.Len, s.Len), func(st *State) { body(st, d.Len) }, func(st *State) { body(st, s.Len) })
}

// ---- type assertion ----
func (e *Engine) typeAssert(st *State, v Value, t types.Type, commaOk bool, p Pan, k func(*State, Value)) {
	iv, ok := v.(IfaceV)
	if !ok {
		panic(unsup("type assert on %T", v))
	}
	res := func(s *State, val Value, ok bool) {
		if commaOk {
			if !ok {
				val = zeroValue(t)
			}
			k(s, TupleV{val, TBool(ok)})
			return
		}
		if !ok {
			e.rtPanic(s, p, "interface conversion: not "+typeKey(t))
			return
		}
		k(s, val)
	}
	if iv.Sym == nil {
		if iv.Typ == nil {
			res(st, nil, false)
			return
		}
		if it, ok := under(t).(*types.Interface); ok {
			if types.Implements(iv.Typ, it) {
				res(st, iv, true)
			} else {
				res(st, nil, false)
			}
			return
		}
		if types.Identical(iv.Typ, t) {
			res(st, iv.Val, true)
		} else {
			res(st, nil, false)
		}
		return
	}
	nn := Neq(iv.Sym, TI(0))
	if it, ok := under(t).(*types.Interface); ok {
		c := nn
		if it.NumMethods() > 0 {
			c = And(nn, TApp("implements!"+typeKey(t), SBool, TApp("typeid", SInt, iv.Sym)))
		}
		e.fork(st, c, func(s *State) { res(s, iv, true) }, func(s *State) { res(s, nil, false) })
		return
	}
	c := And(nn, Eq(TApp("typeid", SInt, iv.Sym), typeCode(t)))
	e.fork(st, c, func(s *State) {
		i := 0
		tr := treeShape(t, 0, func(so Sort) *Term {
			i++
			return TApp(fmt.Sprintf("unbox!%d!%s", i-1, typeKey(t)), so, iv.Sym)
		})
		res(s, s.decode(tr, t), true)
	}, func(s *State) { res(s, nil, false) })
}

// ---- maps ----
func (st *State) keyTerm(k Value, t types.Type) *Term {
	if isIface(t) {
		return st.ifaceID(k.(IfaceV))
	}
	var ls []*Term
	st.encode(k, t).leaves(&ls)
	if len(ls) == 1 && ls[0].S == SInt {
		return ls[0]
	}
	id := TApp("key!"+typeKey(t), SInt, ls...)
	for i, l := range ls {
		st.define(Eq(TApp(fmt.Sprintf("unkey!%d!%s", i, typeKey(t)), l.S, id), l))
	}
	return id
}
func (e *Engine) mapLookup(st *State, m, key Value, mt *types.Map, commaOk bool, k func(*State, Value)) {
	ret := func(s *State, v Value, ok bool) {
		if !ok {
			v = zeroValue(mt.Elem())
		}
		if commaOk {
			k(s, TupleV{v, TBool(ok)})
		} else {
			k(s, v)
		}
	}
	mv := m.(MapV)
	if mv.Sym != nil {
		panic(unsup("lookup in an unknown map"))
	}
	if mv.Obj == 0 {
		ret(st, nil, false)
		return
	}
	o := st.obj(mv.Obj)
	if o.SymM {
		kt := st.keyTerm(key, mt.Key())
		e.fork(st, Select(o.Dom, kt), func(s *State) {
			ret(s, s.decode(o.Sym.sel(kt), mt.Elem()), true)
		}, func(s *State) { ret(s, nil, false) })
		return
	}
	var try func(st *State, i int)
	try = func(st *State, i int) {
		if i == len(o.Ents) {
			ret(st, nil, false)
			return
		}
		t, _ := e.eqTerm(st, key, o.Ents[i].K, mt.Key())
		if t.isFalse() {
			try(st, i+1)
			return
		}
		e.fork(st, t, func(s *State) { ret(s, o.Ents[i].V, true) }, func(s *State) { try(s, i+1) })
	}
	// fast path for constants
	i := 0
	for ; i < len(o.Ents); i++ {
		t, _ := e.eqTerm(st, key, o.Ents[i].K, mt.Key())
		if t.isTrue() {
			ret(st, o.Ents[i].V, true)
			return
		}
		if !t.isFalse() {
			break
		}
	}
	try(st, i)
}
func (e *Engine) mapUpdate(st *State, m, key, v Value, in ssa.Instruction, p Pan, k func(*State)) {
	mv := m.(MapV)
	if mv.Sym != nil {
		panic(unsup("update of an unknown map"))
	}
	if mv.Obj == 0 {
		e.rtPanic(st, p, "assignment to entry in nil map")
		return
	}
	o := st.obj(mv.Obj)
	mt := under(o.Typ).(*types.Map)
	st.noteWrite(Ptr{Obj: mv.Obj})
	if o.SymM {
		kt := st.keyTerm(key, mt.Key())
		n := *o
		n.MLen = Add(o.MLen, Ite(Select(o.Dom, kt), TI(0), TI(1)))
		n.Dom = Store(o.Dom, kt, TTrue)
		n.Sym = o.Sym.sto(kt, st.encode(v, mt.Elem()))
		st.setObj(mv.Obj, &n)
		k(st)
		return
	}
	upd := func(st *State, i int) {
		n := *o
		n.Ents = append([]MapEnt(nil), o.Ents...)
		if i < len(n.Ents) {
			n.Ents[i].V = v
		} else {
			n.Ents = append(n.Ents, MapEnt{key, v})
		}
		st.setObj(mv.Obj, &n)
		k(st)
	}
	var try func(st *State, i int)
	try = func(st *State, i int) {
		if i == len(o.Ents) {
			upd(st, i)
			return
		}
		t, bad := e.eqTerm(st, key, o.Ents[i].K, mt.Key())
		if bad != "" {
			e.rtPanic(st, p, bad)
			return
		}
		if t.isFalse() {
			try(st, i+1)
			return
		}
		e.fork(st, t, func(s *State) { upd(s, i) }, func(s *State) { try(s, i+1) })
	}
	try(st, 0)
}

// mapEncodable: keys and values can be spread over SMT arrays.
func mapEncodable(o *Obj) bool {
	mt := under(o.Typ).(*types.Map)
	if floatBits(mt.Key()) > 0 || isComplex(mt.Key()) {
		return false // NaN and the two zeros
	}
	return treeable(mt.Key()) && treeable(mt.Elem())
}

// symMap turns a map object into symbolic mode.
func (st *State) symMap(o *Obj) *Obj {
	if o.SymM {
		return o
	}
	mt := under(o.Typ).(*types.Map)
	n := *o
	n.SymM = true
	n.Ents = nil
	n.Dom = ConstArr(TFalse)
	n.Sym = defaultTree(mt.Elem(), 1)
	n.MLen = TI(int64(len(o.Ents)))
	for _, en := range o.Ents {
		kt := st.keyTerm(en.K, mt.Key())
		n.Dom = Store(n.Dom, kt, TTrue)
		n.Sym = n.Sym.sto(kt, st.encode(en.V, mt.Elem()))
	}
	return &n
}

// ---- range over maps and strings ----
type rangeIter struct {
	str  *StrV
	pos  *Term
	m    MapV
	mt   *types.Map
	rem  []int // indexes of entries not yet visited (fixed maps)
	vis  *Term // visited keys (symbolic maps)
	cell int   // heap cell holding the iterator state
	k, v Value // current entry (reflect.MapIter)
}

func (w *walker) rangeIter(x *rangeIter) Value {
	n := *x
	n.k, n.v = nil, nil
	if x.str != nil {
		w.key.WriteString("rs")
		n.str = w.val(x.str, nil).(*StrV)
		n.pos = w.lf(x.pos, 'i', types.Typ[types.Int])
		return &n
	}
	if x.vis != nil {
		w.key.WriteString("rm")
		n.vis = w.lf(x.vis, 'x', nil)
		n.m = w.val(x.m, nil).(MapV)
		w.slices = append(w.slices, sliceAt{v: nilSlice(), mv: &n.m, mt: x.mt, vis: n.vis})
		return &n
	}
	fmt.Fprintf(&w.key, "rf%v", x.rem)
	return &n
}

func (e *Engine) rangeStart(st *State, v Value, t types.Type, k func(*State, Value)) {
	switch x := v.(type) {
	case *StrV:
		e.expand(st, x, func(st *State, x *StrV) {
			id := st.alloc(&Obj{Kind: 'c', Val: &rangeIter{str: x, pos: TI(0)}})
			k(st, Ptr{Obj: id})
		})
	case MapV:
		if x.Sym != nil {
			panic(unsup("range over an unknown map"))
		}
		ri := &rangeIter{m: x, mt: under(t).(*types.Map)}
		if x.Obj != 0 {
			o := st.obj(x.Obj)
			if o.SymM {
				ri.vis = ConstArr(TFalse)
			}
			for i := range o.Ents {
				ri.rem = append(ri.rem, i)
			}
		}
		id := st.alloc(&Obj{Kind: 'c', Val: ri})
		k(st, Ptr{Obj: id})
	default:
		panic(unsup("range over %T", v))
	}
}
func (e *Engine) rangeNext(st *State, fr *Frame, it Value, in *ssa.Next, k func(*State, Value)) {
	cell := it.(Ptr).Obj
	ri := st.obj(cell).Val.(*rangeIter)
	upd := func(s *State, n *rangeIter) {
		o := *s.obj(cell)
		o.Val = n
		s.setObj(cell, &o)
	}
	if ri.str != nil {
		if c := Lt(ri.pos, ri.str.Len); !c.isConst() && !e.valid(st, c) && !e.valid(st, Not(c)) && e.undecided(st, fr) {
			return
		}
		e.fork(st, Lt(ri.pos, ri.str.Len), func(st *State) {
			e.decodeRune(st, ri.str, ri.pos, func(s *State, r *Term, w int) {
				n := *ri
				n.pos = Add(ri.pos, TI(int64(w)))
				upd(s, &n)
				k(s, TupleV{TTrue, ri.pos, r})
			})
		}, func(st *State) { k(st, TupleV{TFalse, TI(0), TI(0)}) })
		return
	}
	mt := ri.mt
	done := func(s *State) { k(s, TupleV{TFalse, zeroValue(mt.Key()), zeroValue(mt.Elem())}) }
	if ri.m.Obj == 0 {
		done(st)
		return
	}
	o := st.obj(ri.m.Obj)
	if o.SymM {
		i := TBound("?k", SInt)
		s1 := st.clone()
		key := s1.fresh("mapkey", mt.Key())
		kt := s1.keyTerm(key, mt.Key())
		s1.assume(Select(o.Dom, kt))
		s1.assume(Not(Select(ri.vis, kt)))
		more := e.feasible(s1, TTrue)
		if more && e.undecided(st, fr) {
			return
		}
		if more {
			n := *ri
			n.vis = Store(ri.vis, kt, TTrue)
			upd(s1, &n)
			k(s1, TupleV{TTrue, key, s1.decode(o.Sym.sel(kt), mt.Elem())})
		}
		st.assume(Forall(i, Implies(Select(o.Dom, i), Select(ri.vis, i))))
		if e.feasible(st, TTrue) {
			done(st)
		}
		return
	}
	if len(ri.rem) == 0 {
		done(st)
		return
	}
	// any order
	for j, idx := range ri.rem {
		s := st
		if j < len(ri.rem)-1 {
			s = st.clone()
		}
		n := *ri
		n.rem = append(append([]int(nil), ri.rem[:j]...), ri.rem[j+1:]...)
		upd(s, &n)
		k(s, TupleV{TTrue, o.Ents[idx].K, o.Ents[idx].V})
		if e.mapOrderFixed {
			return
		}
	}
}

// ---- builtins ----
func (e *Engine) builtin(st *State, name string, args []Value, ats []types.Type, rt types.Type, in ssa.Instruction, p Pan, k func(*State, Value)) {
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case SliceV:
			if name == "cap" {
				k(st, x.Cap)
			} else {
				k(st, x.Len)
			}
		case *StrV:
			e.strLen(st, x, func(st *State, n *Term) { k(st, n) })
		case MapV:
			if x.Obj == 0 {
				k(st, TI(0))
				return
			}
			o := st.obj(x.Obj)
			if o.SymM {
				st.define(Le(TI(0), o.MLen))
				st.define(Le(o.MLen, TBig(maxLen)))
				b := TBound("?k", SInt)
				st.define(Forall(b, Implies(Select(o.Dom, b), Le(TI(1), o.MLen))))
				k(st, o.MLen)
			} else {
				k(st, TI(int64(len(o.Ents))))
			}
		case ArrayV:
			k(st, TI(int64(len(x))))
		case Ptr:
			k(st, TI(under(under(ats[0]).(*types.Pointer).Elem()).(*types.Array).Len()))
		default:
			panic(unsup("len of %T", x))
		}
	case "append":
		if len(args) == 1 {
			k(st, args[0])
			return
		}
		et := under(ats[0]).(*types.Slice).Elem()
		e.appendS(st, args[0].(SliceV), args[1], et, k)
	case "copy":
		e.copyS(st, args[0].(SliceV), args[1], k)
	case "delete":
		mv := args[0].(MapV)
		if mv.Obj == 0 {
			k(st, TupleV{})
			return
		}
		o := st.obj(mv.Obj)
		mt := under(o.Typ).(*types.Map)
		if o.SymM {
			kt := st.keyTerm(args[1], mt.Key())
			n := *o
			n.MLen = Sub(o.MLen, Ite(Select(o.Dom, kt), TI(1), TI(0)))
			n.Dom = Store(o.Dom, kt, TFalse)
			st.setObj(mv.Obj, &n)
			k(st, TupleV{})
			return
		}
		var try func(st *State, i int)
		try = func(st *State, i int) {
			if i == len(o.Ents) {
				k(st, TupleV{})
				return
			}
			t, _ := e.eqTerm(st, args[1], o.Ents[i].K, mt.Key())
			e.fork(st, t, func(s *State) {
				n := *o
				n.Ents = append(append([]MapEnt(nil), o.Ents[:i]...), o.Ents[i+1:]...)
				s.setObj(mv.Obj, &n)
				k(s, TupleV{})
			}, func(s *State) { try(s, i+1) })
		}
		try(st, 0)
	case "print", "println":
		k(st, TupleV{})
	case "panic":
		p(st, args[0])
	case "ssa:wrapnilchk":
		if pt, ok := args[0].(Ptr); ok && pt.Obj == 0 && pt.Sym == nil {
			e.rtPanic(st, p, "nil pointer dereference")
			return
		}
		k(st, args[0])
	case "min", "max":
		r := args[0]
		for i, a := range args[1:] {
			x, ok1 := r.(*Term)
			y, ok2 := a.(*Term)
			if !ok1 || !ok2 {
				panic(unsup("min/max of %s", ats[i]))
			}
			if name == "min" {
				r = Ite(Le(x, y), x, y)
			} else {
				r = Ite(Le(y, x), x, y)
			}
		}
		k(st, r)
	case "real":
		k(st, args[0].(StructV)[0])
	case "imag":
		k(st, args[0].(StructV)[1])
	case "complex":
		k(st, StructV{args[0], args[1]})
	case "close":
		k(st, TupleV{})
	case "clear":
		mv, ok := args[0].(MapV)
		if !ok || mv.Obj == 0 {
			panic(unsup("clear"))
		}
		st.setObj(mv.Obj, &Obj{Kind: 'm', Typ: st.obj(mv.Obj).Typ, MLen: TI(0)})
		k(st, TupleV{})
	default:
		panic(unsup("builtin %s", name))
	}
}
func (e *Engine) builtinValue(st *State, b *ssa.Builtin, args []Value, site ssa.CallInstruction, k Ret, p Pan) {
	var ats []types.Type
	sig := b.Type().(*types.Signature)
	for i := 0; i < sig.Params().Len(); i++ {
		ats = append(ats, sig.Params().At(i).Type())
	}
	if b.Name() == "recover" {
		panic(unsup("deferred recover"))
	}
	e.builtin(st, b.Name(), args, ats, nil, nil, p, k)
}
