package main

// Contracts of functions outside /repo (assumed, listed in the evidence) and the logical meaning
// of the ghost package gv.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Call struct {
	st   *State
	fn   *ssa.Function
	args []Value
	bind []Value
	site ssa.Instruction
	k    Ret
	p    Pan
	fr   *Frame
}

type handler func(e *Engine, c *Call)

var handlers = map[string]handler{}
var handlerCache sync.Map

// quietExt: handlers that are logic, not assumed contracts.
func isGhost(key string) bool {
	return strings.HasPrefix(key, specMod+"/gv.") || strings.HasPrefix(key, "("+specMod+"/gv.")
}

func fnOrigKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (e *Engine) intrinsic(fn *ssa.Function) handler {
	if h, ok := handlerCache.Load(fn); ok {
		hh := h.(handler)
		if hh != nil {
			e.noteExt(fn)
		}
		return hh
	}
	key := fnOrigKey(fn)
	h := handlers[key]
	if h == nil && fn.Synthetic != "" && fn.Pkg == nil && fn.Object() != nil {
		// promoted-method wrappers run as ordinary code
	}
	handlerCache.Store(fn, h)
	if h != nil {
		e.noteExt(fn)
	}
	return h
}
func (e *Engine) noteExt(fn *ssa.Function) {
	k := fnOrigKey(fn)
	if !isGhost(k) {
		e.externs["assumed contract: "+k]++
	}
}

// std packages whose source is executed like our own code.
var stdInlinePkgs = map[string]bool{
	"errors": true, "unicode/utf8": true, "unicode/utf16": true, "slices": true, "cmp": true, "unicode": true, "maps": true, "iter": true, "sort": true,
}
var stdInlineFns = map[string]bool{"io.ReadFull": true, "io.ReadAtLeast": true, "strings.NewReader": true, "math/bits.Div": true, "math/bits.Div64": true, "(*strings.Reader).Read": true}

func stdInline(pkg string, fn *ssa.Function) bool {
	if stdInlinePkgs[pkg] {
		return true
	}
	return stdInlineFns[fnOrigKey(fn)]
}

// ---- helpers ----
func (c *Call) ret(v Value)     { c.k(c.st, v) }
func (c *Call) str(i int) *StrV { return c.args[i].(*StrV) }
func (c *Call) t(i int) *Term   { return c.args[i].(*Term) }
func (c *Call) conc(i int) string {
	s, ok := c.args[i].(*StrV).concrete()
	if !ok {
		panic(unsup("%s needs a constant string argument", c.fn))
	}
	return s
}
func (c *Call) targ(i int) types.Type { return c.fn.TypeArgs()[i] }

func (e *Engine) errType() types.Type {
	p := e.sh.pkgs["errors"]
	return types.NewPointer(p.Type("errorString").Type())
}

// newError allocates a distinct non-nil error with an unspecified message.
func (e *Engine) newError(st *State, msg Value) IfaceV {
	if msg == nil {
		msg = st.opaqueStr(TVar(e.freshName("errmsg"), SStr))
	}
	t := e.errType()
	id := st.alloc(&Obj{Kind: 'c', Typ: t.(*types.Pointer).Elem(), Val: StructV{msg}, Origin: "error"})
	return IfaceV{Typ: t, Val: Ptr{Obj: id}}
}

func ghost(name string, h handler) { handlers[specMod+"/gv."+name] = h }
func ghostM(recv, name string, h handler) {
	handlers["("+specMod+"/gv."+recv+")."+name] = h
}

func (e *Engine) anyValue(st *State, name string, t types.Type) Value {
	if pt, ok := under(t).(*types.Pointer); ok {
		el := pt.Elem()
		if at, ok := under(el).(*types.Array); ok && namedPath(el) == "" {
			_ = at
			panic(unsup("arbitrary pointer to array"))
		}
		v := e.anyValue(st, name, el)
		id := st.alloc(&Obj{Kind: 'c', Typ: el, Val: v, Origin: "draw " + name})
		return Ptr{Obj: id}
	}
	if isBigFloat(t) {
		f := FloatV{st.freshInt(name+".cls", nil), TVar(e.freshName(name), SReal)}
		st.assume(And(Le(TI(0), f.Cls), Le(f.Cls, TI(2))))
		return f
	}
	if u, ok := under(t).(*types.Struct); ok && !isOpaqueStruct(t) && namedPath(t) != specMod+"/gv.Z" && namedPath(t) != specMod+"/gv.Q" {
		s := make(StructV, u.NumFields())
		for i := range s {
			s[i] = e.anyValue(st, name+"."+u.Field(i).Name(), u.Field(i).Type())
		}
		return s
	}
	if su, ok := under(t).(*types.Slice); ok {
		return e.anySlice(st, name, su.Elem())
	}
	return st.fresh(name, t)
}
func isOpaqueStruct(t types.Type) bool { return isBigInt(t) || isBigRat(t) || isBigFloat(t) }

func (e *Engine) anySlice(st *State, name string, el types.Type) Value {
	tr := treeShape(el, 1, func(s Sort) *Term { return TVar(e.freshName(name), s) })
	id := st.alloc(&Obj{Kind: 'a', Typ: el, Sym: tr, Origin: "draw " + name})
	l := st.freshInt(name+".len", nil)
	cp := st.freshInt(name+".cap", nil)
	nl := TVar(e.freshName(name+".nil"), SBool)
	l.lo, l.hi, cp.lo, cp.hi = bZero, maxLen, bZero, maxLen
	st.assume(rawLe(TI(0), l))
	st.assume(Le(l, cp))
	st.assume(rawLe(cp, TBig(maxLen)))
	st.assume(Implies(nl, Eq(cp, TI(0))))
	return SliceV{id, TI(0), l, cp, nl}
}

// quantified evaluates a predicate closure under a fresh variable.
func (e *Engine) quant(st *State, lo, hi *Term, f Value, forall bool) *Term {
	x := TVar(e.freshName("q"), SInt)
	x.lo, _ = interval(lo, 0)
	if _, h := interval(hi, 0); h != nil {
		x.hi = new(big.Int).Sub(h, bOne)
	}
	s := st.clone()
	in := And(rawLe(lo, x), rawLe(Add(x, TI(1)), hi))
	s.assume(in)
	mark := s.pc
	r := func() *Term {
		old := e.qvars
		e.qvars = append(append([]*Term(nil), old...), x)
		defer func() { e.qvars = old }()
		return e.evalPred(s, f, []Value{x})
	}()
	// definitional facts introduced while evaluating
	var defs []*Term
	for q := s.pc; q != mark && q != nil; q = q.parent {
		if q.def {
			defs = append(defs, q.t)
		}
	}
	b := TBound(fmt.Sprintf("?q%d", len(e.qvars)), SInt) // by depth, so that equal formulas are one term
	memo := map[*Term]*Term{}
	sub := func(t *Term) *Term { return subst(t, x, b, memo) }
	for i := len(defs) - 1; i >= 0; i-- {
		d := defs[i]
		if mentions(d, x, map[*Term]bool{}) {
			if c := d; c.Op == "or" { // a guarded definition
				c = c.Args[len(c.Args)-1]
				if obvious(c) {
					continue
				}
			}
			if obvious(d) {
				continue
			}
			st.define(Forall(b, Implies(sub(in), sub(d))))
		} else {
			st.define(d)
		}
	}
	// instances at the positions the formula singles out (x = t), which may have no other trigger
	inst := TTrue
	pts := singled(r, x, map[*Term]bool{}, nil)
	if lo.N != nil && hi.N != nil && new(big.Int).Sub(hi.N, lo.N).Cmp(big.NewInt(3)) <= 0 {
		for i := lo.N; i.Cmp(hi.N) < 0; i = new(big.Int).Add(i, bOne) {
			pts = append(pts, TBig(i))
		}
	}
	for _, t := range pts {
		m2 := map[*Term]*Term{}
		si := func(u *Term) *Term { return subst(u, x, t, m2) }
		if forall {
			inst = And(inst, Implies(si(in), si(r)))
		} else {
			inst = And(inst, Not(And(si(in), si(r))))
		}
	}
	if forall {
		return And(Forall(b, Implies(sub(in), sub(r))), inst)
	}
	return Not(And(Forall(b, Not(And(sub(in), sub(r)))), inst))
}

// singled collects the terms t of equations x = t in f.
func singled(f, x *Term, seen map[*Term]bool, acc []*Term) []*Term {
	if seen[f] || len(acc) >= 4 {
		return acc
	}
	seen[f] = true
	if f.Op == "=" {
		for i := 0; i < 2; i++ {
			if f.Args[i] == x && !f.Args[1-i].bound && !mentions(f.Args[1-i], x, map[*Term]bool{}) {
				for _, a := range acc {
					if a == f.Args[1-i] {
						return acc
					}
				}
				return append(acc, f.Args[1-i])
			}
		}
	}
	for _, a := range f.Args {
		acc = singled(a, x, seen, acc)
	}
	return acc
}
func mentions(t, x *Term, memo map[*Term]bool) bool {
	if t == x {
		return true
	}
	if r, ok := memo[t]; ok {
		return r
	}
	memo[t] = false
	for _, a := range t.Args {
		if mentions(a, x, memo) {
			memo[t] = true
			return true
		}
	}
	return false
}

func symFunc(e *Engine, c *Call, sig *types.Signature) {
	name, _ := c.str(0).concrete()
	n := e.freshName("fn_" + name)
	c.ret(FuncV{Sym: &SymFunc{Name: n, Sig: sig, Id: nil}})
}

func resultSig(fn *ssa.Function) *types.Signature {
	return fn.Signature.Results().At(0).Type().Underlying().(*types.Signature)
}

func init() {
	ghost("Register", func(e *Engine, c *Call) {
		pos := ""
		if c.site != nil {
			pos = e.pos(c.site)
		}
		e.sh.mu.Lock()
		e.sh.specs = append(e.sh.specs, SpecEntry{c.conc(0), c.conc(1), c.args[2].(FuncV), pos})
		e.sh.mu.Unlock()
		c.ret(TupleV{})
	})
	ghost("Any", func(e *Engine, c *Call) {
		n := c.conc(0)
		t := c.targ(0)
		v := e.anyValue(c.st, n, t)
		c.st.addDraw(n, v, t)
		c.ret(v)
	})
	ghost("Slice", func(e *Engine, c *Call) {
		n := c.conc(0)
		v := e.anySlice(c.st, n, c.targ(0))
		c.st.addDraw(n, v, types.NewSlice(c.targ(0)))
		c.ret(v)
	})
	ghost("Map", func(e *Engine, c *Call) {
		n := c.conc(0)
		mt := types.NewMap(c.targ(0), c.targ(1))
		sym := treeShape(c.targ(1), 1, func(s Sort) *Term { return TVar(e.freshName(n), s) })
		o := &Obj{Kind: 'm', Typ: mt, SymM: true, Dom: TVar(e.freshName(n+".dom"), SArr(SBool)), Sym: sym, MLen: c.st.freshInt(n+".len", nil), Origin: "draw " + n}
		if !mapEncodable(o) {
			panic(unsup("arbitrary %s", mt))
		}
		c.st.assume(Le(TI(0), o.MLen))
		v := MapV{Obj: c.st.alloc(o)}
		c.st.addDraw(n, v, mt)
		c.ret(v)
	})
	ghost("Bool", func(e *Engine, c *Call) {
		n := c.conc(0)
		v := TVar(e.freshName(n), SBool)
		c.st.addDraw(n, v, types.Typ[types.Bool])
		c.ret(v)
	})
	ghost("More", func(e *Engine, c *Call) { c.ret(TVar(e.freshName("more"), SBool)) })
	ghost("Choice", func(e *Engine, c *Call) {
		n := c.conc(0)
		kk := c.t(1).N.Int64()
		for i := int64(0); i < kk; i++ {
			s := c.st
			if i < kk-1 {
				s = c.st.clone()
			}
			s.addDraw(n, TI(i), types.Typ[types.Int])
			c.k(s, TI(i))
		}
	})
	ghost("ErrNonNil", func(e *Engine, c *Call) {
		id := c.st.freshInt("err", nil)
		c.st.assume(Neq(id, TI(0)))
		c.ret(IfaceV{Sym: id})
	})
	for _, n := range []string{"Func0", "Func1", "Func2", "FuncErr"} {
		ghost(n, func(e *Engine, c *Call) { symFunc(e, c, resultSig(c.fn)) })
	}
	// Fold(init, f)(i) is f(...f(f(init, 0), 1)..., i-1): a recursive definition unfolded once per use
	ghost("Fold", func(e *Engine, c *Call) {
		n := e.freshName("fold")
		sig := resultSig(c.fn)
		t := sig.Results().At(0).Type()
		init, f := c.args[0], c.args[1]
		var at func(st *State, x *Term, d int) Value
		at = func(st *State, x *Term, d int) Value {
			if x.N != nil && x.N.Sign() <= 0 {
				return init
			}
			j := 0
			var ls []*Term
			tr := treeShape(t, 0, func(s Sort) *Term {
				j++
				l := TApp(fmt.Sprintf("%s.%d", n, j), s, x)
				ls = append(ls, l)
				return l
			})
			v := st.decode(tr, t)
			if d > 0 && x.N == nil {
				return v
			}
			for _, q := range e.qvars {
				if mentions(x, q, map[*Term]bool{}) { // no recursive definitions at bound positions
					return v
				}
			}
			x1 := Sub(x, TI(1))
			prev := at(st, x1, d+1)
			e.evalInto(st, f, []Value{prev, x1}, Le(TI(1), x), func(s *State, r Value) *Term {
				var rs []*Term
				s.encode(r, t).leaves(&rs)
				q := TTrue
				for i := range rs {
					q = And(q, Eq(ls[i], rs[i]))
				}
				return q
			})
			var is []*Term
			st.encode(init, t).leaves(&is)
			for i := range is {
				st.define(Implies(Le(x, TI(0)), Eq(ls[i], is[i])))
			}
			return v
		}
		c.ret(FuncV{Sym: &SymFunc{Name: n, Sig: sig, Hook: func(st *State, args []Value, k Ret) { k(st, at(st, args[0].(*Term), 0)) }}})
	})
	ghost("Assume", func(e *Engine, c *Call) {
		b := c.t(0)
		if b.isFalse() || !e.feasible(c.st, b) {
			return
		}
		c.st.assume(b)
		c.ret(TupleV{})
	})
	ghost("Assert", func(e *Engine, c *Call) {
		w := ""
		if c.site != nil {
			w = e.pos(c.site)
		}
		label, ok := c.str(0).concrete()
		if !ok {
			label = "assertion"
		}
		e.assert(c.st, label, w, c.t(1))
		if c.st.conc.running() {
			e.assert(c.st, label+": all goroutines have been waited for", w, TFalse)
		}
		c.ret(TupleV{})
	})
	ghost("Implies", func(e *Engine, c *Call) { c.ret(Implies(c.t(0), c.t(1))) })
	ghost("Iff", func(e *Engine, c *Call) { c.ret(Eq(c.t(0), c.t(1))) })
	ghost("Ite", func(e *Engine, c *Call) {
		if v, ok := c.st.merge(c.t(0), c.args[1], c.args[2]); ok {
			c.ret(v)
			return
		}
		e.fork(c.st, c.t(0), func(s *State) { c.k(s, c.args[1]) }, func(s *State) { c.k(s, c.args[2]) })
	})
	ghost("Forall", func(e *Engine, c *Call) { c.ret(e.quant(c.st, c.t(0), c.t(1), c.args[2], true)) })
	ghost("Exists", func(e *Engine, c *Call) { c.ret(e.quant(c.st, c.t(0), c.t(1), c.args[2], false)) })
	ghost("Panics", func(e *Engine, c *Call) {
		e.callValue(c.st, c.args[0], nil, c.site,
			func(s *State, _ Value) { c.k(s, TFalse) },
			func(s *State, _ Value) { c.k(s, TTrue) })
	})
	ghost("Caught", func(e *Engine, c *Call) {
		e.callValue(c.st, c.args[0], nil, c.site,
			func(s *State, _ Value) { c.k(s, TupleV{IfaceV{}, TFalse}) },
			func(s *State, pv Value) {
				if _, ok := pv.(IfaceV); !ok {
					pv = IfaceV{Sym: s.freshInt("panicval", nil)}
				}
				c.k(s, TupleV{pv, TTrue})
			})
	})
	ghost("OpaqueProducts", func(e *Engine, c *Call) {
		e.opaqueMul = true
		c.ret(TupleV{})
	})
	ghost("And", func(e *Engine, c *Call) { c.ret(And(c.t(0), c.t(1))) })
	ghost("Or", func(e *Engine, c *Call) { c.ret(Or(c.t(0), c.t(1))) })
	ghost("ProductAt", func(e *Engine, c *Call) {
		if e.opaqueMul {
			e.monotone(c.st, c.t(0), c.t(1), c.t(2))
		}
		c.ret(TupleV{})
	})
	ghost("Join", func(e *Engine, c *Call) {
		e.joined(c.st, types.NewTuple(), func(s *State, k Ret) { e.callValue(s, c.args[0], nil, c.site, k, c.p) }, c.k)
	})
	ghost("Same", func(e *Engine, c *Call) {
		a, b := c.args[0].(IfaceV), c.args[1].(IfaceV)
		t, bad := e.eqTerm(c.st, a, b, nil)
		if bad != "" {
			t = TFalse
		}
		if x, ok := a.Val.(FloatV); ok && a.Typ != nil && b.Typ != nil && types.Identical(a.Typ, b.Typ) {
			y := b.Val.(FloatV)
			t = And(Eq(x.Cls, y.Cls), Or(Neq(x.Cls, TI(0)), Eq(x.Val, y.Val)))
		}
		c.ret(t)
	})
	ghost("Inv", func(e *Engine, c *Call) {
		iv := c.args[0].(IfaceV)
		sig := under(iv.Typ).(*types.Signature)
		tp := &Template{fn: iv.Val.(FuncV), label: fmt.Sprintf("inv%d", len(c.st.invs))}
		for i := 0; i < sig.Params().Len(); i++ {
			tp.holes = append(tp.holes, sig.Params().At(i).Type())
		}
		c.st.invs = append(c.st.invs, tp)
		c.ret(TupleV{})
	})
	ghost("ByContract", func(e *Engine, c *Call) {
		f := c.args[0].(FuncV)
		if f.Fn == nil || len(f.Bind) != 0 {
			panic(unsup("gv.ByContract needs a function of the repository"))
		}
		fn := f.Fn
		if m, ok := fn.Object().(*types.Func); ok && fn.Synthetic != "" {
			if d := fn.Prog.FuncValue(m); d != nil {
				fn = d
			}
		}
		n := map[*ssa.Function]Value{fn: c.args[1]}
		for k, v := range e.byContract {
			n[k] = v
		}
		e.byContract = n
		if fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), repoMod) {
			e.externs["checked against its contract, proved separately: "+fnKey(fn)]++
		} else {
			e.externs["assumed contract, written with the specification: "+fnKey(fn)]++
		}
		c.ret(TupleV{})
	})
	ghost("Unroll", func(e *Engine, c *Call) {
		e.unrollMax = int(c.t(0).N.Int64())
		c.ret(TupleV{})
	})
	ghost("Bounded", func(e *Engine, c *Call) {
		s := c.conc(0)
		for _, b := range e.bounded {
			if b == s {
				c.ret(TupleV{})
				return
			}
		}
		e.bounded = append(e.bounded, s)
		c.ret(TupleV{})
	})
	ghost("Known", func(e *Engine, c *Call) {
		if prop := strings.SplitN(e.spec, "/", 2)[0]; !e.sh.known[prop+" "+c.conc(0)] {
			panic(unsupported{"the finding " + c.conc(0) + " is not listed in known_findings.txt"})
		}
		e.knownUsed[c.conc(0)] = true
		c.ret(TupleV{})
	})
	// the only field of type T of a struct
	field := func(t types.Type, ft types.Type) int {
		u, ok := under(t).(*types.Struct)
		f := -1
		for i := 0; ok && i < u.NumFields(); i++ {
			if types.Identical(u.Field(i).Type(), ft) {
				if f >= 0 {
					panic(unsup("%s has several fields of type %s", t, ft))
				}
				f = i
			}
		}
		if f < 0 {
			panic(unsup("%s has no field of type %s", t, ft))
		}
		return f
	}
	ghost("Put", func(e *Engine, c *Call) {
		p := c.args[0].(Ptr)
		p.Path = append(append([]PE(nil), p.Path...), PE{Field: field(c.targ(1), c.targ(0))})
		e.store(c.st, p, c.args[1], c.p, func(st *State) { c.k(st, TupleV{}) })
	})
	ghost("Get", func(e *Engine, c *Call) { c.ret(c.args[0].(StructV)[field(c.targ(1), c.targ(0))]) })
	ghost("Clone", func(e *Engine, c *Call) {
		s := c.args[0].(SliceV)
		if s.Obj == 0 {
			c.ret(s)
			return
		}
		n := *c.st.obj(s.Obj)
		id := c.st.alloc(&n)
		c.ret(SliceV{id, s.Off, s.Len, s.Cap, s.Nil})
	})
	// mathematical integers: a Term of sort Int
	ghost("ZI", func(e *Engine, c *Call) { c.ret(c.t(0)) })
	ghost("ZS", func(e *Engine, c *Call) {
		n, ok := new(big.Int).SetString(c.conc(0), 10)
		if !ok {
			panic(unsup("ZS"))
		}
		c.ret(TBig(n))
	})
	ghost("ZB", func(e *Engine, c *Call) { e.bigLoad(c, 0, func(s *State, v Value) { c.k(s, v) }) })
	zz := func(n string, f func(a, b *Term) Value) {
		ghostM("Z", n, func(e *Engine, c *Call) { c.ret(f(c.t(0), c.t(1))) })
	}
	zz("Add", func(a, b *Term) Value { return Add(a, b) })
	zz("Sub", func(a, b *Term) Value { return Sub(a, b) })
	ghostM("Z", "Mul", func(e *Engine, c *Call) { c.ret(e.mulT(c.st, c.t(0), c.t(1))) })
	zz("Eq", func(a, b *Term) Value { return Eq(a, b) })
	zz("Lt", func(a, b *Term) Value { return Lt(a, b) })
	zz("Le", func(a, b *Term) Value { return Le(a, b) })
	ghostM("Z", "Neg", func(e *Engine, c *Call) { c.ret(Neg(c.t(0))) })
	ghostM("Z", "Abs", func(e *Engine, c *Call) { c.ret(Ite(Le(TI(0), c.t(0)), c.t(0), Neg(c.t(0)))) })
	ghostM("Z", "Q", func(e *Engine, c *Call) { c.ret(ToReal(c.t(0))) })
	qq := func(n string, f func(a, b *Term) Value) {
		ghostM("Q", n, func(e *Engine, c *Call) { c.ret(f(c.t(0), c.t(1))) })
	}
	qq("Add", func(a, b *Term) Value { return Add(a, b) })
	qq("Sub", func(a, b *Term) Value { return Sub(a, b) })
	qq("Mul", func(a, b *Term) Value { return Mul(a, b) })
	qq("Eq", func(a, b *Term) Value { return Eq(a, b) })
	qq("Lt", func(a, b *Term) Value { return Lt(a, b) })
	qq("Le", func(a, b *Term) Value { return Le(a, b) })
	ghostM("Q", "Neg", func(e *Engine, c *Call) { c.ret(Neg(c.t(0))) })
	ghostM("Q", "Abs", func(e *Engine, c *Call) {
		z := TRat(new(big.Rat))
		c.ret(Ite(Le(z, c.t(0)), c.t(0), Neg(c.t(0))))
	})
	ghost("IsInt", func(e *Engine, c *Call) { c.ret(Eq(c.t(0), ToReal(ToIntFloor(c.t(0))))) })
	ghost("QB", func(e *Engine, c *Call) { e.bigLoad(c, 0, func(s *State, v Value) { c.k(s, v) }) })
	ghost("QF", func(e *Engine, c *Call) { c.ret(c.args[0].(FloatV).Val) })
	ghost("QBF", func(e *Engine, c *Call) {
		e.bigLoad(c, 0, func(s *State, v Value) { c.k(s, v.(FloatV).Val) })
	})
	for _, bits := range []int{32, 64} {
		bits := bits
		ghost(fmt.Sprintf("F%d", bits), func(e *Engine, c *Call) {
			r := e.roundF(c.st, c.t(0), bits)
			c.ret(And(Eq(r.Cls, TI(0)), Eq(r.Val, c.t(0))))
		})
	}
	ghost("Finite", func(e *Engine, c *Call) { c.ret(Eq(c.args[0].(FloatV).Cls, TI(0))) })

	// ---- fmt / errors ----
	handlers["fmt.Errorf"] = func(e *Engine, c *Call) { c.ret(e.newError(c.st, nil)) }
	handlers["fmt.Sprintf"] = func(e *Engine, c *Call) {
		if f, ok := c.str(0).concrete(); ok && f == "%p" {
			if as, ok := c.st.elemsOf(c.args[1].(SliceV)); ok && len(as) == 1 {
				if iv, ok := as[0].(IfaceV); ok && iv.Typ != nil {
					if _, ok := under(iv.Typ).(*types.Pointer); ok {
						// the text of an address determines it
						id := c.st.ptrID(iv.Val.(Ptr), iv.Typ)
						t := TApp("ptrtext", SStr, id)
						c.st.define(Eq(TApp("unptrtext", SInt, t), id))
						c.ret(c.st.opaqueStr(t))
						return
					}
				}
			}
		}
		f, ok := c.str(0).concrete()
		as, ok2 := c.st.elemsOf(c.args[1].(SliceV))
		if ok && ok2 && e.sprintOne(c, f, as) {
			return
		}
		c.ret(e.sprint(c.st, f, ok && ok2, as))
	}
	handlers["fmt.Sprint"] = func(e *Engine, c *Call) {
		as, ok := c.st.elemsOf(c.args[0].(SliceV))
		if ok && e.sprintOne(c, "%v", as) {
			return
		}
		c.ret(e.sprint(c.st, "%v", ok && len(as) == 1, as))
	}
}

// sprintOne is the text of one bool or integer.
func (e *Engine) sprintOne(c *Call, format string, as []Value) bool {
	if len(as) != 1 {
		return false
	}
	iv, ok := as[0].(IfaceV)
	if !ok || iv.Sym != nil || iv.Typ == nil || types.NewMethodSet(iv.Typ).Len() > 0 {
		return false
	}
	b, ok := under(iv.Typ).(*types.Basic)
	t, ok2 := iv.Val.(*Term)
	switch {
	case !ok || !ok2:
	case b.Info()&types.IsBoolean != 0 && (format == "%t" || format == "%v"):
		e.fork(c.st, t, func(s *State) { c.k(s, concStr("true")) }, func(s *State) { c.k(s, concStr("false")) })
		return true
	case b.Info()&types.IsInteger != 0 && (format == "%d" || format == "%v"):
		e.intToStr(c.st, t, c.k)
		return true
	}
	return false
}

// sprint is a text, determined by the format and the arguments if these are simple values.
func (e *Engine) sprint(st *State, format string, known bool, as []Value) Value {
	fresh := func() Value { return st.opaqueStr(TVar(e.freshName("sprintf"), SStr)) }
	if !known {
		return fresh()
	}
	name := "sprintf:" + format
	var ts []*Term
	for _, a := range as {
		iv, ok := a.(IfaceV)
		if !ok {
			return fresh()
		}
		if iv.Sym != nil {
			name += ",?"
			ts = append(ts, iv.Sym)
			continue
		}
		if iv.Typ == nil {
			name += ",nil"
			continue
		}
		if types.NewMethodSet(iv.Typ).Len() > 0 {
			return fresh()
		}
		name += "," + typeKey(iv.Typ)
		switch x := iv.Val.(type) {
		case *Term:
			if _, ok := under(iv.Typ).(*types.Basic); !ok {
				return fresh()
			}
			ts = append(ts, x)
		case *StrV:
			if len(as) == 1 && (format == "%v" || format == "%s") {
				return x
			}
			ts = append(ts, st.strTerm(x))
		default:
			return fresh()
		}
	}
	if len(ts) == 0 {
		return st.opaqueStr(TVar(name, SStr))
	}
	return st.opaqueStr(TApp(name, SStr, ts...))
}

// bigLoad loads the content of the big.* pointer argument i.
func (e *Engine) bigLoad(c *Call, i int, k func(*State, Value)) {
	p, ok := c.args[i].(Ptr)
	if !ok || p.Sym != nil {
		panic(unsup("%s through an unknown pointer", c.fn))
	}
	if p.Obj == 0 {
		e.rtPanic(c.st, c.p, "nil pointer dereference")
		return
	}
	e.load(c.st, p, nil, c.p, k)
}

// symMethod: methods on unknown interface values.
func (e *Engine) symMethod(st *State, iv IfaceV, m *types.Func, args []Value, k Ret, p Pan) bool {
	nn := Neq(iv.Sym, TI(0))
	sig := m.Type().(*types.Signature)
	if m.Name() == "Error" && sig.Params().Len() == 0 {
		e.guard(st, nn, "nil interface method call", p, func(s *State) {
			k(s, s.opaqueStr(TApp("err.Error", SStr, iv.Sym)))
		})
		return true
	}
	return false
}

// evalInto defines, under guard g, rel(result) for every path of the call f(args).
func (e *Engine) evalInto(st *State, f Value, args []Value, g0 *Term, rel func(s *State, r Value) *Term) {
	base := st.pc
	s := st.clone()
	s.assume(g0)
	var defs []*Term
	e.dry++
	e.callValue(s, f, args, nil, func(s2 *State, r Value) {
		t := rel(s2, r)
		g := TTrue
		var ds []*Term
		for q := s2.pc; q != base; q = q.parent {
			if q.def {
				ds = append(ds, q.t)
			} else {
				g = And(q.t, g)
			}
		}
		for _, d := range ds {
			defs = append(defs, Implies(g, d))
		}
		defs = append(defs, Implies(g, t))
	}, func(s2 *State, pv Value) {})
	e.dry--
	for _, d := range defs {
		st.define(d)
	}
}
