package main

// Hash-consed SMT terms with a light simplifier. Integers are mathematical (sort Int);
// machine arithmetic is made explicit by the executor (see ops.go).

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
)

type Sort string

const (
	SBool Sort = "Bool"
	SInt  Sort = "Int"
	SReal Sort = "Real"
	SStr  Sort = "Str"
)

func SArr(e Sort) Sort { return Sort("(Array Int " + string(e) + ")") }
func (s Sort) isArr() bool {
	return strings.HasPrefix(string(s), "(Array Int ")
}
func (s Sort) elem() Sort {
	t := string(s)
	return Sort(t[len("(Array Int ") : len(t)-1])
}

type Term struct {
	Op     string // "const", "var", "bound", "app:<f>", "+", "*", "<=", "=", "and", "or", "not", "ite", "select", "store", "forall", "exists", "div", "mod", "to_real", ...
	Args   []*Term
	S      Sort
	Name   string   // var / bound / app name, bool const "true"/"false"
	N      *big.Int // integer constant
	R      *big.Rat // real constant
	id     int
	bound  bool // contains bound variables free
	size   int
	lo, hi *big.Int // static interval for Int vars
}

var (
	termMu  sync.Mutex
	termTab = map[string]*Term{}
	termID  int
)

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	sb.WriteString(string(t.S))
	sb.WriteByte('|')
	sb.WriteString(t.Name)
	if t.N != nil {
		sb.WriteString(t.N.String())
	}
	if t.R != nil {
		sb.WriteString(t.R.String())
	}
	for _, a := range t.Args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	key := sb.String()
	termMu.Lock()
	defer termMu.Unlock()
	if o, ok := termTab[key]; ok {
		return o
	}
	termID++
	t.id = termID
	t.size = 1
	for _, a := range t.Args {
		t.size += a.size
		if a.bound {
			t.bound = true
		}
	}
	if t.Op == "bound" {
		t.bound = true
	}
	if t.Op == "forall" || t.Op == "exists" {
		// closed iff the body has no other bound variables (tracked conservatively)
		t.bound = hasFreeBound(t, nil)
	}
	termTab[key] = t
	return t
}

func hasFreeBound(t *Term, bs []*Term) bool {
	if !t.bound && t.Op != "forall" && t.Op != "exists" {
		return false
	}
	if t.Op == "bound" {
		for _, b := range bs {
			if b == t {
				return false
			}
		}
		return true
	}
	if t.Op == "forall" || t.Op == "exists" {
		return hasFreeBound(t.Args[1], append(append([]*Term{}, bs...), t.Args[0]))
	}
	for _, a := range t.Args {
		if hasFreeBound(a, bs) {
			return true
		}
	}
	return false
}

var (
	TTrue  = intern(&Term{Op: "const", S: SBool, Name: "true"})
	TFalse = intern(&Term{Op: "const", S: SBool, Name: "false"})
)

func TBool(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}
func TI(n int64) *Term      { return TBig(big.NewInt(n)) }
func TBig(n *big.Int) *Term { return intern(&Term{Op: "const", S: SInt, N: n}) }
func TRat(r *big.Rat) *Term { return intern(&Term{Op: "const", S: SReal, R: r}) }
func TVar(name string, s Sort) *Term {
	return intern(&Term{Op: "var", S: s, Name: name})
}
func TBound(name string, s Sort) *Term {
	return intern(&Term{Op: "bound", S: s, Name: name})
}
func TApp(f string, s Sort, args ...*Term) *Term {
	if len(args) == 0 {
		return TVar(f, s)
	}
	t := &Term{Op: "app", S: s, Name: f, Args: args}
	if f == "strlen" {
		t.lo, t.hi = bZero, maxLen
	}
	return intern(t)
}
func (t *Term) setInterval(lo, hi *big.Int) {
	termMu.Lock()
	defer termMu.Unlock()
	t.lo, t.hi = lo, hi
}

// obvious: an inequality that the intervals of its terms imply.
func obvious(t *Term) bool {
	if t.Op == "and" {
		for _, a := range t.Args {
			if !obvious(a) {
				return false
			}
		}
		return true
	}
	if t.Op != "<=" || t.Args[0].S != SInt {
		return false
	}
	_, h := interval(t.Args[0], 0)
	l, _ := interval(t.Args[1], 0)
	return h != nil && l != nil && h.Cmp(l) <= 0
}

// rawLe is a <= b as it is, for the facts behind the intervals of terms.
func rawLe(a, b *Term) *Term {
	if a.N != nil && b.N != nil {
		return Le(a, b)
	}
	return intern(&Term{Op: "<=", S: SBool, Args: []*Term{a, b}})
}
func (t *Term) isConst() bool { return t.Op == "const" }
func (t *Term) isTrue() bool  { return t == TTrue }
func (t *Term) isFalse() bool { return t == TFalse }

var bOne, bZero = big.NewInt(1), big.NewInt(0)

// ---- linear normal form over Int / Real ----
type lin struct {
	c  *big.Rat
	ts map[*Term]*big.Rat
}

func toLin(t *Term) *lin {
	l := &lin{c: new(big.Rat), ts: map[*Term]*big.Rat{}}
	l.add(t, big.NewRat(1, 1))
	return l
}
func (l *lin) addT(t *Term, k *big.Rat) {
	if o, ok := l.ts[t]; ok {
		n := new(big.Rat).Add(o, k)
		if n.Sign() == 0 {
			delete(l.ts, t)
		} else {
			l.ts[t] = n
		}
		return
	}
	if k.Sign() != 0 {
		l.ts[t] = k
	}
}
func (l *lin) add(t *Term, k *big.Rat) {
	switch {
	case t.Op == "const" && t.N != nil:
		l.c = new(big.Rat).Add(l.c, new(big.Rat).Mul(k, new(big.Rat).SetInt(t.N)))
	case t.Op == "const" && t.R != nil:
		l.c = new(big.Rat).Add(l.c, new(big.Rat).Mul(k, t.R))
	case t.Op == "+":
		for _, a := range t.Args {
			l.add(a, k)
		}
	case t.Op == "*" && t.Args[0].Op == "const":
		var f *big.Rat
		if t.Args[0].N != nil {
			f = new(big.Rat).SetInt(t.Args[0].N)
		} else {
			f = t.Args[0].R
		}
		l.add(t.Args[1], new(big.Rat).Mul(k, f))
	default:
		l.addT(t, k)
	}
}
func ratConst(r *big.Rat, s Sort) *Term {
	if s == SInt {
		if !r.IsInt() {
			panic("non-int const")
		}
		return TBig(new(big.Int).Set(r.Num()))
	}
	return TRat(r)
}
func (l *lin) term(s Sort) *Term {
	ks := make([]*Term, 0, len(l.ts))
	for t := range l.ts {
		ks = append(ks, t)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var args []*Term
	for _, t := range ks {
		k := l.ts[t]
		if k.Cmp(big.NewRat(1, 1)) == 0 {
			args = append(args, t)
		} else {
			args = append(args, intern(&Term{Op: "*", S: s, Args: []*Term{ratConst(k, s), t}}))
		}
	}
	if l.c.Sign() != 0 || len(args) == 0 {
		args = append(args, ratConst(l.c, s))
	}
	if len(args) == 1 {
		return args[0]
	}
	return intern(&Term{Op: "+", S: s, Args: args})
}
func Add(ts ...*Term) *Term {
	l := &lin{c: new(big.Rat), ts: map[*Term]*big.Rat{}}
	one := big.NewRat(1, 1)
	s := ts[0].S
	for _, t := range ts {
		l.add(t, one)
	}
	return l.term(s)
}
func Sub(a, b *Term) *Term {
	l := toLin(a)
	l.add(b, big.NewRat(-1, 1))
	return l.term(a.S)
}
func Neg(a *Term) *Term {
	l := &lin{c: new(big.Rat), ts: map[*Term]*big.Rat{}}
	l.add(a, big.NewRat(-1, 1))
	return l.term(a.S)
}
func MulC(k *big.Rat, a *Term) *Term {
	l := &lin{c: new(big.Rat), ts: map[*Term]*big.Rat{}}
	l.add(a, k)
	return l.term(a.S)
}
func constRat(t *Term) *big.Rat {
	if t.Op != "const" {
		return nil
	}
	if t.N != nil {
		return new(big.Rat).SetInt(t.N)
	}
	return t.R
}
func Mul(a, b *Term) *Term {
	if k := constRat(a); k != nil {
		return MulC(k, b)
	}
	if k := constRat(b); k != nil {
		return MulC(k, a)
	}
	// pull numeric factors out of single-monomial operands
	la, lb := toLin(a), toLin(b)
	if len(la.ts) == 1 && la.c.Sign() == 0 {
		for t, k := range la.ts {
			if k.Cmp(big.NewRat(1, 1)) != 0 {
				return MulC(k, Mul(t, b))
			}
		}
	}
	if len(lb.ts) == 1 && lb.c.Sign() == 0 {
		for t, k := range lb.ts {
			if k.Cmp(big.NewRat(1, 1)) != 0 {
				return MulC(k, Mul(a, t))
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{Op: "*", S: a.S, Args: []*Term{a, b}})
}

// floor division / modulus by SMT-LIB (Euclidean) semantics
func DivE(a, b *Term) *Term {
	if a.N != nil && b.N != nil && b.N.Sign() != 0 {
		q, _ := new(big.Int).DivMod(a.N, b.N, new(big.Int))
		return TBig(q)
	}
	if b.N != nil && b.N.Cmp(bOne) == 0 {
		return a
	}
	if q, r, ok := splitBy(a, b); ok {
		if lo, hi := interval(r, 0); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.N) < 0 {
			return q
		}
	}
	return intern(&Term{Op: "div", S: SInt, Args: []*Term{a, b}})
}

// splitBy splits the sum a into q*b + r, where r has the terms whose factors are not multiples of b.
func splitBy(a, b *Term) (q, r *Term, ok bool) {
	if b.N == nil || b.N.Sign() <= 0 {
		return
	}
	l := toLin(a)
	lq, lr := &lin{c: new(big.Rat), ts: map[*Term]*big.Rat{}}, &lin{c: new(big.Rat), ts: map[*Term]*big.Rat{}}
	for t, k := range l.ts {
		if !k.IsInt() {
			return
		}
		if x := new(big.Int); x.Mod(k.Num(), b.N).Sign() == 0 {
			lq.ts[t] = new(big.Rat).SetInt(x.Div(k.Num(), b.N))
		} else {
			lr.ts[t] = k
		}
	}
	if !l.c.IsInt() {
		return
	}
	cq, cr := new(big.Int).DivMod(l.c.Num(), b.N, new(big.Int))
	lq.c.SetInt(cq)
	lr.c.SetInt(cr)
	return lq.term(SInt), lr.term(SInt), true
}
func ModE(a, b *Term) *Term {
	if a.N != nil && b.N != nil && b.N.Sign() != 0 {
		return TBig(new(big.Int).Mod(a.N, b.N))
	}
	if b.N != nil && b.N.Cmp(bOne) == 0 {
		return TI(0)
	}
	if _, r, ok := splitBy(a, b); ok {
		if lo, hi := interval(r, 0); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.N) < 0 {
			return r
		}
	}
	return intern(&Term{Op: "mod", S: SInt, Args: []*Term{a, b}})
}
func RDiv(a, b *Term) *Term {
	if k := constRat(b); k != nil && k.Sign() != 0 {
		return MulC(new(big.Rat).Inv(k), a)
	}
	return intern(&Term{Op: "/", S: SReal, Args: []*Term{a, b}})
}
func ToReal(a *Term) *Term {
	if a.S == SReal {
		return a
	}
	if a.N != nil {
		return TRat(new(big.Rat).SetInt(a.N))
	}
	if a.Op == "+" || a.Op == "*" && a.Args[0].Op == "const" {
		l := toLin(a)
		r := &lin{c: l.c, ts: map[*Term]*big.Rat{}}
		for t, k := range l.ts {
			r.addT(intern(&Term{Op: "to_real", S: SReal, Args: []*Term{t}}), k)
		}
		return r.term(SReal)
	}
	return intern(&Term{Op: "to_real", S: SReal, Args: []*Term{a}})
}
func ToIntFloor(a *Term) *Term {
	if a.R != nil {
		q := new(big.Int).Div(a.R.Num(), a.R.Denom()) // denom>0 => floor
		return TBig(q)
	}
	if a.Op == "to_real" {
		return a.Args[0]
	}
	return intern(&Term{Op: "to_int", S: SInt, Args: []*Term{a}})
}

// interval analysis (best effort); nil = unbounded
func interval(t *Term, depth int) (lo, hi *big.Int) {
	switch t.Op {
	case "const":
		return t.N, t.N
	case "var":
		return t.lo, t.hi
	case "+":
		if depth > 6 {
			return nil, nil
		}
		lo, hi = new(big.Int), new(big.Int)
		for _, a := range t.Args {
			l, h := interval(a, depth+1)
			if lo != nil && l != nil {
				lo = new(big.Int).Add(lo, l)
			} else {
				lo = nil
			}
			if hi != nil && h != nil {
				hi = new(big.Int).Add(hi, h)
			} else {
				hi = nil
			}
		}
		return
	case "*":
		if depth > 6 {
			return nil, nil
		}
		al, ah := interval(t.Args[0], depth+1)
		bl, bh := interval(t.Args[1], depth+1)
		if t.Args[0].N != nil {
			k := t.Args[0].N
			if bl != nil {
				lo = new(big.Int).Mul(k, bl)
			}
			if bh != nil {
				hi = new(big.Int).Mul(k, bh)
			}
			if k.Sign() < 0 {
				lo, hi = hi, lo
			}
			return
		}
		if al != nil && ah != nil && bl != nil && bh != nil {
			ps := []*big.Int{new(big.Int).Mul(al, bl), new(big.Int).Mul(al, bh), new(big.Int).Mul(ah, bl), new(big.Int).Mul(ah, bh)}
			lo, hi = ps[0], ps[0]
			for _, p := range ps {
				if p.Cmp(lo) < 0 {
					lo = p
				}
				if p.Cmp(hi) > 0 {
					hi = p
				}
			}
		}
		return
	case "ite":
		if depth > 6 || t.S != SInt {
			return nil, nil
		}
		al, ah := interval(t.Args[1], depth+1)
		bl, bh := interval(t.Args[2], depth+1)
		if al != nil && bl != nil {
			lo = al
			if bl.Cmp(al) < 0 {
				lo = bl
			}
		}
		if ah != nil && bh != nil {
			hi = ah
			if bh.Cmp(ah) > 0 {
				hi = bh
			}
		}
		return
	case "mod":
		if t.Args[1].N != nil && t.Args[1].N.Sign() > 0 {
			return bZero, new(big.Int).Sub(t.Args[1].N, bOne)
		}
	case "div":
		if t.Args[1].N != nil && t.Args[1].N.Sign() > 0 {
			al, ah := interval(t.Args[0], depth+1)
			if al != nil {
				lo = new(big.Int).Div(al, t.Args[1].N)
			}
			if ah != nil {
				hi = new(big.Int).Div(ah, t.Args[1].N)
			}
			return
		}
	case "select", "app":
		return t.lo, t.hi
	}
	return nil, nil
}

// ---- comparisons ----
func Le(a, b *Term) *Term { // a <= b
	l := toLin(a)
	l.add(b, big.NewRat(-1, 1))
	return leZero(l, a.S)
}
func leZero(l *lin, s Sort) *Term { // l <= 0
	if len(l.ts) == 0 {
		return TBool(l.c.Sign() <= 0)
	}
	t := l.term(s)
	if s == SInt {
		lo, hi := interval(t, 0)
		if hi != nil && hi.Sign() <= 0 {
			return TTrue
		}
		if lo != nil && lo.Sign() > 0 {
			return TFalse
		}
	}
	// move constant right, negatives right for readability
	left := &lin{c: new(big.Rat), ts: map[*Term]*big.Rat{}}
	right := &lin{c: new(big.Rat), ts: map[*Term]*big.Rat{}}
	for t, k := range l.ts {
		if k.Sign() > 0 {
			left.ts[t] = k
		} else {
			right.ts[t] = new(big.Rat).Neg(k)
		}
	}
	if l.c.Sign() > 0 {
		left.c = l.c
	} else {
		right.c = new(big.Rat).Neg(l.c)
	}
	return intern(&Term{Op: "<=", S: SBool, Args: []*Term{left.term(s), right.term(s)}})
}
func Lt(a, b *Term) *Term {
	if a.S == SInt {
		return Le(Add(a, TI(1)), b)
	}
	return Not(Le(b, a))
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Eq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.S != b.S {
		panic(fmt.Sprintf("Eq sort mismatch %s %s: %s / %s", a.S, b.S, a, b))
	}
	switch a.S {
	case SBool:
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return Not(b)
		}
		if b.isFalse() {
			return Not(a)
		}
	case SInt, SReal:
		l := toLin(a)
		l.add(b, big.NewRat(-1, 1))
		if len(l.ts) == 0 {
			return TBool(l.c.Sign() == 0)
		}
		if a.S == SInt {
			lo, hi := interval(l.term(SInt), 0)
			if (lo != nil && lo.Sign() > 0) || (hi != nil && hi.Sign() < 0) {
				return TFalse
			}
		}
		// ite pushing for constants:  ite(c,k1,k2) = k
		if a.Op == "ite" && b.isConst() && (a.Args[1].isConst() || a.Args[2].isConst()) {
			return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
		}
		if b.Op == "ite" && a.isConst() && (b.Args[1].isConst() || b.Args[2].isConst()) {
			return Ite(b.Args[0], Eq(b.Args[1], a), Eq(b.Args[2], a))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{Op: "=", S: SBool, Args: []*Term{a, b}})
}
func Neq(a, b *Term) *Term { return Not(Eq(a, b)) }

func Not(a *Term) *Term {
	switch {
	case a.isTrue():
		return TFalse
	case a.isFalse():
		return TTrue
	case a.Op == "not":
		return a.Args[0]
	case a.Op == "<=" && a.Args[0].S == SInt:
		return Le(Add(a.Args[1], TI(1)), a.Args[0])
	}
	return intern(&Term{Op: "not", S: SBool, Args: []*Term{a}})
}
func nary(op string, unit, zero *Term, ts []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit || seen[t] {
			return true
		}
		if t == zero {
			return false
		}
		if t.Op == op {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern(&Term{Op: op, S: SBool, Args: out})
}
func And(ts ...*Term) *Term    { return nary("and", TTrue, TFalse, ts) }
func Or(ts ...*Term) *Term     { return nary("or", TFalse, TTrue, ts) }
func Implies(a, b *Term) *Term { return Or(Not(a), b) }
func Ite(c, a, b *Term) *Term {
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if a.S == SBool {
		switch {
		case a.isTrue():
			return Or(c, b)
		case a.isFalse():
			return And(Not(c), b)
		case b.isTrue():
			return Or(Not(c), a)
		case b.isFalse():
			return And(c, a)
		}
	}
	return intern(&Term{Op: "ite", S: a.S, Args: []*Term{c, a, b}})
}

// ---- arrays ----
func Select(a, i *Term) *Term {
	for {
		if a.Op == "store" {
			e := Eq(a.Args[1], i)
			if e.isTrue() {
				return a.Args[2]
			}
			if e.isFalse() {
				a = a.Args[0]
				continue
			}
			// at a quantified position: by cases, so that the base array can trigger instances
			if i.bound || i.Op == "var" && strings.HasPrefix(i.Name, "q!") {
				d := 0
				for x := a; x.Op == "store"; x = x.Args[0] {
					d++
				}
				if d <= 6 {
					return Ite(e, a.Args[2], Select(a.Args[0], i))
				}
			}
		}
		if a.Op == "constarr" {
			return a.Args[0]
		}
		break
	}
	return intern(&Term{Op: "select", S: a.S.elem(), Args: []*Term{a, i}})
}
func Store(a, i, v *Term) *Term {
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	return intern(&Term{Op: "store", S: a.S, Args: []*Term{a, i, v}})
}
func ConstArr(v *Term) *Term {
	return intern(&Term{Op: "constarr", S: SArr(v.S), Args: []*Term{v}})
}
func Forall(b, body *Term) *Term {
	if body.isConst() || !body.bound {
		return body
	}
	return intern(&Term{Op: "forall", S: SBool, Args: []*Term{b, body}})
}
func Exists(b, body *Term) *Term { return Not(Forall(b, Not(body))) }

// substitute bound variable
func subst(t, from, to *Term, memo map[*Term]*Term) *Term {
	if t == from {
		return to
	}
	if len(t.Args) == 0 || (from.Op == "bound" && !t.bound) {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = subst(a, from, to, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}
func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "+":
		return Add(args...)
	case "*":
		return Mul(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "=":
		return Eq(args[0], args[1])
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "div":
		return DivE(args[0], args[1])
	case "mod":
		return ModE(args[0], args[1])
	case "to_real":
		return ToReal(args[0])
	case "to_int":
		return ToIntFloor(args[0])
	case "/":
		return RDiv(args[0], args[1])
	case "forall":
		return Forall(args[0], args[1])
	}
	n := intern(&Term{Op: t.Op, S: t.S, Name: t.Name, Args: args, lo: t.lo, hi: t.hi})
	return n
}

// ---- printing ----
func (t *Term) String() string {
	var sb strings.Builder
	printTerm(&sb, t, nil)
	return sb.String()
}
func printInt(sb *strings.Builder, n *big.Int) {
	if n.Sign() < 0 {
		sb.WriteString("(- ")
		sb.WriteString(new(big.Int).Neg(n).String())
		sb.WriteString(")")
	} else {
		sb.WriteString(n.String())
	}
}

// printTerm prints t; defs maps shared closed terms to their defined names
func printTerm(sb *strings.Builder, t *Term, defs map[*Term]string) {
	if defs != nil {
		if n, ok := defs[t]; ok {
			sb.WriteString(n)
			return
		}
	}
	switch t.Op {
	case "const":
		switch {
		case t.N != nil:
			printInt(sb, t.N)
		case t.R != nil:
			neg := t.R.Sign() < 0
			r := new(big.Rat).Abs(t.R)
			if neg {
				sb.WriteString("(- ")
			}
			if r.IsInt() {
				sb.WriteString(r.Num().String() + ".0")
			} else {
				sb.WriteString("(/ " + r.Num().String() + ".0 " + r.Denom().String() + ".0)")
			}
			if neg {
				sb.WriteString(")")
			}
		default:
			sb.WriteString(t.Name)
		}
	case "var", "bound":
		sb.WriteString(sym(t.Name))
	case "forall", "exists":
		b := t.Args[0]
		fmt.Fprintf(sb, "(%s ((%s %s)) ", t.Op, sym(b.Name), b.S)
		printTerm(sb, t.Args[1], defs)
		sb.WriteString(")")
	case "constarr":
		fmt.Fprintf(sb, "((as const %s) ", t.S)
		printTerm(sb, t.Args[0], defs)
		sb.WriteString(")")
	default:
		sb.WriteByte('(')
		if t.Op == "app" {
			sb.WriteString(sym(t.Name))
		} else {
			sb.WriteString(t.Op)
		}
		for _, a := range t.Args {
			sb.WriteByte(' ')
			printTerm(sb, a, defs)
		}
		sb.WriteByte(')')
	}
}

// sym is the name of a symbol in SMT-LIB, different names having different symbols.
func sym(s string) string {
	plain := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.' || c == '$' || c == '?' || c == '@') {
			plain = false
		}
	}
	if plain {
		return s
	}
	var sb strings.Builder
	sb.WriteByte('|')
	for i := 0; i < len(s); i++ {
		if c := s[i]; c < ' ' || c >= 127 || c == '|' || c == '\\' || c == '~' {
			fmt.Fprintf(&sb, "~%02x", c)
		} else {
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('|')
	return sb.String()
}

// order is the terms of l in order of creation.
func (l *lin) order() []*Term {
	ts := make([]*Term, 0, len(l.ts))
	for t := range l.ts {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	return ts
}
