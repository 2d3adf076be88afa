package main

// If-conversion: a branch whose arms compute only effect-free, panic-free values and reconverge
// (short-circuit conditions, min/max shapes) is joined by case terms instead of being forked.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type mexit struct {
	pred, succ *ssa.BasicBlock
	cond       *Term
	env        []Value
	set        map[int]bool
}

type mergeFail struct{}

// pureBlock reports whether b may be evaluated speculatively.
func pureBlock(b *ssa.BasicBlock) bool {
	if len(b.Instrs) > 24 {
		return false
	}
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.If, *ssa.Jump, *ssa.DebugRef, *ssa.Field, *ssa.FieldAddr, *ssa.Extract, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.IndexAddr, *ssa.Index, *ssa.Lookup:
			if l, ok := in.(*ssa.Lookup); ok && !isString(l.X.Type()) {
				return false
			}
		case *ssa.BinOp:
			switch x.Op {
			case token.QUO, token.REM, token.SHL, token.SHR:
				return false
			}
			if isString(x.X.Type()) && x.Op == token.ADD {
				return false
			}
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return false
			}
		case *ssa.Convert:
			if !isInt(x.X.Type()) || !isInt(x.Type()) {
				return false
			}
		case *ssa.Call:
			bi, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || (bi.Name() != "len" && bi.Name() != "cap") {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (e *Engine) tryMerge(st *State, fr *Frame, c *Term) bool {
	if e.noMerge {
		return false
	}
	b := fr.block
	// cheap structural test: some arm must be a pure block, or both arms must meet
	interior := func(x *ssa.BasicBlock) bool {
		if x == b || fr.fi.loops[x] != nil || len(x.Instrs) == 0 {
			return false
		}
		if _, ok := x.Instrs[0].(*ssa.Phi); ok {
			return false
		}
		return pureBlock(x)
	}
	if !interior(b.Succs[0]) && !interior(b.Succs[1]) {
		return false
	}
	var exits []mexit
	var defs []*Term
	npaths := 0
	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				switch r.(type) {
				case mergeFail, unsupported:
					ok = false
				default:
					panic(r)
				}
			}
		}()
		var walk func(pred, x *ssa.BasicBlock, cond *Term, env []Value, set map[int]bool)
		walk = func(pred, x *ssa.BasicBlock, cond *Term, env []Value, set map[int]bool) {
			if cond.isFalse() {
				return
			}
			if !interior(x) {
				npaths++
				if npaths > 24 {
					panic(mergeFail{})
				}
				exits = append(exits, mexit{pred, x, cond, env, set})
				return
			}
			s := st.clone()
			s.assume(cond)
			f := fr.clone()
			f.env = append([]Value(nil), env...)
			f.block, f.prev = x, pred
			nset := map[int]bool{}
			for k := range set {
				nset[k] = true
			}
			base := s.pc
			succCond := e.pureEval(s, f, x, nset)
			for q := s.pc; q != base; q = q.parent {
				if !q.def {
					panic(mergeFail{})
				}
				defs = append(defs, Implies(cond, q.t))
			}
			if succCond == nil {
				walk(x, x.Succs[0], cond, f.env, nset)
				return
			}
			walk(x, x.Succs[0], And(cond, succCond), f.env, nset)
			walk(x, x.Succs[1], And(cond, Not(succCond)), f.env, nset)
		}
		walk(b, b.Succs[0], c, fr.env, map[int]bool{})
		walk(b, b.Succs[1], Not(c), fr.env, map[int]bool{})
		return true
	}()
	if !ok {
		return false
	}
	// group by successor
	var order []*ssa.BasicBlock
	groups := map[*ssa.BasicBlock][]mexit{}
	for _, x := range exits {
		if groups[x.succ] == nil {
			order = append(order, x.succ)
		}
		groups[x.succ] = append(groups[x.succ], x)
	}
	if len(order) >= len(exits) {
		return false
	}
	type res struct {
		succ, pred *ssa.BasicBlock
		cond       *Term
		env        []Value
		over       []Value
	}
	var out []res
	for _, sb := range order {
		g := groups[sb]
		r := res{succ: sb, pred: g[0].pred, cond: TFalse}
		for _, x := range g {
			r.cond = Or(r.cond, x.cond)
		}
		// values computed inside the region on every path of the group
		last := g[len(g)-1]
		r.env = append([]Value(nil), last.env...)
		for i := range last.set {
			v := last.env[i]
			good := true
			for j := len(g) - 2; j >= 0; j-- {
				if !g[j].set[i] {
					good = false
					break
				}
				v, good = e.mergeVal(st, g[j].cond, g[j].env[i], v)
				if !good {
					return false
				}
			}
			if good {
				r.env[i] = v
			} else {
				r.env[i] = fr.env[i]
			}
		}
		for _, in := range sb.Instrs {
			ph, okk := in.(*ssa.Phi)
			if !okk {
				break
			}
			edge := func(x mexit) Value {
				pi := -1
				for i, pb := range sb.Preds {
					if pb == x.pred {
						pi = i
					}
				}
				f := *fr
				f.env = x.env
				return e.val(st, &f, ph.Edges[pi])
			}
			v := edge(last)
			allConst := isConstTerm(v)
			for j := len(g) - 2; j >= 0; j-- {
				w := edge(g[j])
				if t, okk := w.(*Term); okk && t.S == SInt && allConst && isConstTerm(w) && v.(*Term) != t {
					return false // keep distinct constants apart: they steer later control flow
				}
				var good bool
				v, good = e.mergeVal(st, g[j].cond, w, v)
				if !good {
					return false
				}
			}
			r.over = append(r.over, v)
		}
		out = append(out, r)
	}
	for _, d := range defs {
		st.define(d)
	}
	// go on, the original state last
	var live []res
	for i, r := range out {
		if len(out) == 1 || (len(live) == 0 && i == len(out)-1) || e.feasible(st, r.cond) {
			live = append(live, r)
		}
	}
	for i, r := range live {
		s, f := st, fr
		if i < len(live)-1 {
			s, f = st.clone(), fr.clone()
		}
		if len(live) > 1 {
			if old := s.pc; len(out) > 1 {
				if s.assume(r.cond); s.pc != old {
					s.pc.fork = true
				}
			}
		} else if len(out) > 1 {
			s.assumeImplied(r.cond)
		}
		f.env = append([]Value(nil), r.env...)
		f.block = r.pred
		if len(r.over) > 0 {
			f.over = r.over
		}
		if !e.leave(s, f, r.succ) {
			e.run(s, f, 0)
		}
	}
	return true
}

func isConstTerm(v Value) bool {
	t, ok := v.(*Term)
	return ok && t.isConst()
}

// mergeVal joins integers and booleans; other values must be identical.
func (e *Engine) mergeVal(st *State, c *Term, a, b Value) (r Value, ok bool) {
	if x, isT := a.(*Term); isT {
		y, isT2 := b.(*Term)
		if !isT2 || x.S != y.S {
			return nil, false
		}
		if x == y {
			return x, true
		}
		return Ite(c, x, y), true
	}
	defer func() {
		if recover() != nil {
			r, ok = nil, false
		}
	}()
	if st.valKey(a, nil) == st.valKey(b, nil) {
		return a, true
	}
	return nil, false
}

// pureEval evaluates the instructions of a pure block; it returns the branch condition, or nil
// for a jump.
func (e *Engine) pureEval(st *State, fr *Frame, b *ssa.BasicBlock, set map[int]bool) *Term {
	one := func(f func(p Pan, k func(*State, Value))) Value {
		n := 0
		var r Value
		f(func(*State, Value) { panic(mergeFail{}) }, func(s *State, v Value) {
			if s != st {
				panic(mergeFail{})
			}
			n++
			r = v
		})
		if n != 1 {
			panic(mergeFail{})
		}
		return r
	}
	val := func(x ssa.Value) Value { return e.val(st, fr, x) }
	for _, in := range b.Instrs {
		var r Value
		switch x := in.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.Jump:
			return nil
		case *ssa.If:
			return val(x.Cond).(*Term)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				p, ok := val(x.X).(Ptr)
				if !ok || p.Sym != nil || p.Obj == 0 {
					panic(mergeFail{})
				}
				r = one(func(p2 Pan, k func(*State, Value)) { e.load(st, p, x.Type(), p2, k) })
				break
			}
			_, r = e.instr(st, fr, x, 0)
		case *ssa.FieldAddr:
			p, ok := val(x.X).(Ptr)
			if !ok || p.Sym != nil || p.Obj == 0 {
				panic(mergeFail{})
			}
			_, r = e.instr(st, fr, x, 0)
		case *ssa.BinOp:
			r = one(func(p Pan, k func(*State, Value)) {
				e.binop(st, x.Op, val(x.X), val(x.Y), x.X.Type(), x.Y.Type(), x.Type(), x, p, k)
			})
		case *ssa.IndexAddr, *ssa.Index, *ssa.Lookup:
			var ix, cx ssa.Value
			switch y := x.(type) {
			case *ssa.IndexAddr:
				ix, cx = y.Index, y.X
			case *ssa.Index:
				ix, cx = y.Index, y.X
			case *ssa.Lookup:
				ix, cx = y.Index, y.X
			}
			idx, ok := val(ix).(*Term)
			if !ok {
				panic(mergeFail{})
			}
			switch a := val(cx).(type) {
			case SliceV:
				if !e.valid(st, And(Le(TI(0), idx), Lt(idx, a.Len))) {
					panic(mergeFail{})
				}
				r = Ptr{Obj: a.Obj, Path: []PE{{Field: -1, Idx: Add(a.Off, idx)}}}
			case *StrV:
				if a.lazy() || !e.valid(st, And(Le(TI(0), idx), Lt(idx, a.Len))) {
					panic(mergeFail{})
				}
				r = st.byteAt(a, idx)
			default:
				panic(mergeFail{})
			}
		case *ssa.Call:
			r = one(func(p Pan, k func(*State, Value)) {
				e.builtin(st, x.Call.Value.Name(), []Value{val(x.Call.Args[0])}, typesOf(x.Call.Args), x.Type(), x, p, k)
			})
		case *ssa.Convert:
			r = one(func(p Pan, k func(*State, Value)) {
				e.convert(st, val(x.X), x.X.Type(), x.Type(), k)
			})
		case ssa.Value:
			done, v := e.instr(st, fr, x, 0)
			if done {
				panic(mergeFail{})
			}
			r = v
		default:
			panic(mergeFail{})
		}
		if r == nil {
			panic(mergeFail{})
		}
		v := in.(ssa.Value)
		fr.set(v, r)
		set[fr.fi.idx[v]] = true
	}
	panic(mergeFail{})
}

func typesOf(vs []ssa.Value) []types.Type {
	var r []types.Type
	for _, v := range vs {
		r = append(r, v.Type())
	}
	return r
}
