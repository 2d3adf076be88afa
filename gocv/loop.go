package main

// Loops: exact peeling while the loop test is decided, otherwise a cut at the loop header with
// an inductive invariant. The invariant is the largest inductive subset (Houdini) of the
// candidate set given by the contract's templates and generic linear facts; the abstract header
// states are enumerated by heap shape, so control flags and "done" markers are path-sensitive.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loopCtx struct {
	loop   *Loop
	cut    bool
	peels  int
	snapSt *State
	snapFr *Frame
	onBack func(st *State, fr *Frame)
	onExit func(st *State, fr *Frame) bool // true: path handled
	top    *loopCtx                        // of the first iteration
	forks  int                             // iterations with an open branch
}

// cutAt unwinds the execution to the first iteration of a peeled loop, in order to cut it.
type cutAt struct{ top *loopCtx }

const forkPeelLimit = 4

// countingHeader: the test of the loop compares integers, or is that of a range.
func countingHeader(l *Loop) bool {
	h := l.header
	f, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	switch x := f.Cond.(type) {
	case *ssa.BinOp:
		return isInt(x.X.Type())
	case *ssa.Extract:
		_, ok := x.Tuple.(*ssa.Next)
		return ok
	}
	return false
}

// unknownBound: the test of counting loop l is against a value that is not a constant.
func (e *Engine) unknownBound(st *State, fr *Frame, l *Loop) bool {
	x, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If).Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, v := range []ssa.Value{x.X, x.Y} {
		for {
			c, ok := v.(*ssa.Convert)
			if !ok {
				break
			}
			v = c.X
		}
		if in, ok := v.(ssa.Instruction); ok && l.body[in.Block()] {
			continue
		}
		if t, ok := e.val(st, fr, v).(*Term); ok && !t.isConst() {
			return true
		}
	}
	return false
}
func forkedSince(pc, old *PC) bool {
	for ; pc != nil && pc != old; pc = pc.parent {
		if pc.fork {
			return true
		}
	}
	return false
}

const peelLimit = 200

// Template is a candidate invariant with typed holes.
type Template struct {
	fn    FuncV
	holes []types.Type
	label string
}

func (e *Engine) leave(st *State, fr *Frame, succ *ssa.BasicBlock) bool {
	fr.prev = fr.block
	fr.block = succ
	for h, c := range fr.loops {
		if !c.loop.body[succ] {
			if c.onExit != nil {
				if c.onExit(st, fr) {
					return true
				}
			}
			delete(fr.loops, h)
		}
	}
	if c := fr.loops[succ]; c != nil && c.cut {
		c.onBack(st, fr)
		return true
	}
	return false
}

func headerHasExit(l *Loop) bool {
	h := l.header
	if len(h.Succs) != 2 {
		return false
	}
	return !l.body[h.Succs[0]] || !l.body[h.Succs[1]]
}

// enterLoop is called at a header reached from outside or (when peeling) by a back edge.
func (e *Engine) enterLoop(st *State, fr *Frame, l *Loop) bool {
	c := fr.loops[l.header]
	n := &loopCtx{loop: l}
	if c != nil {
		n.peels = c.peels + 1
	}
	unroll := e.unrollMax
	if unroll > 0 {
		if n.peels > unroll {
			if e.dry == 0 {
				// unwinding assertion: this path must be infeasible
				e.assert(st, fmt.Sprintf("loop finishes within %d iterations", unroll), e.pos(fr.fn), TFalse)
			}
			return true
		}
		fr.loops[l.header] = n
		return false
	}
	if n.peels > peelLimit || !headerHasExit(l) {
		e.cutLoop(st, fr, l)
		return true
	}
	n.snapSt, n.snapFr = st.clone(), fr.clone()
	fr.loops[l.header] = n
	if countingHeader(l) && !e.unknownBound(st, fr, l) {
		return false
	}
	if c != nil {
		n.top, n.forks = c.top, c.forks
		if forkedSince(st.pc, c.snapSt.pc) {
			n.forks++
		}
		if n.forks >= forkPeelLimit {
			panic(cutAt{n.top})
		}
		return false
	}
	n.top = n
	obls, dry, unr := len(e.obl), e.dry, e.unrollMax
	cut := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if x, ok := r.(cutAt); ok && x.top == n {
					cut = true
					return
				}
				panic(r)
			}
		}()
		fr.skipLoop = true
		e.run(st, fr, 0)
	}()
	if cut {
		e.obl, e.dry, e.unrollMax = e.obl[:obls], dry, unr
		e.cutLoop(n.snapSt, n.snapFr, l)
	}
	return true
}

// undecided: the branch at the end of fr.block is open; if it is the test of a loop being
// peeled, switch to a cut.
func (e *Engine) undecided(st *State, fr *Frame) bool {
	if fr == nil {
		return false
	}
	c := fr.loops[fr.block]
	if c == nil || c.cut || c.snapSt == nil || e.unrollMax > 0 {
		return false
	}
	if !headerHasExit(c.loop) {
		return false
	}
	e.cutLoop(c.snapSt, c.snapFr, c.loop)
	return true
}

// ---- abstract states ----
type leafInfo struct {
	kind byte // 'i' machine int, 'l' slice len, 'o' slice off, 'c' slice cap, 'z' ghost/other Int, 's' Str, 'x' other
	typ  types.Type
}

type capture struct {
	key    string
	phis   []Value
	leaves []*Term
	infos  []leafInfo
	slices []sliceAt
	strs   []*StrV
	st     *State
	olds   []int // modified old objects
	news   []int // new objects in canonical order
}
type sliceAt struct {
	v    SliceV
	elem types.Type
	mv   *MapV      // a map instead of a slice
	mt   *types.Map // its type
	vis  *Term      // the visited keys of a range over a map
}

type needSplit struct{ c *Term }

type walker struct {
	e      *Engine
	st     *State
	entry  *State
	mod    map[int]bool
	key    strings.Builder
	leaf   func(i int, t *Term, k byte, typ types.Type) *Term
	n      int
	canon  map[int]int
	queue  []int
	slices []sliceAt
	strs   []*StrV
	remap  map[int]int // old new-object ids -> fresh ids (rebuild)
	infos  []leafInfo
	leaves []*Term
	leaf0  map[*Term]bool
	fixed  []*Term // conditions fixed before the loop that hold in this shape
	join   bool    // all conditions are leaves, and nothing concrete is made symbolic
}

func (w *walker) lf(t *Term, k byte, typ types.Type) *Term {
	i := w.n
	w.n++
	w.leaves = append(w.leaves, t)
	w.infos = append(w.infos, leafInfo{k, typ})
	if w.leaf == nil {
		return t
	}
	return w.leaf(i, t, k, typ)
}

// fixedTerm: t is built from what exists before the loop.
func (w *walker) fixedTerm(t *Term) bool {
	if t.id > w.entry.loopMark || hasNewVar(t, w.entry.loopMark, map[*Term]bool{}) {
		return false
	}
	return !w.indexed(t) || w.entry.facts[t] || w.entry.facts[Not(t)] || w.atEntry()[t]
}

// indexed: t depends on an element of an array or a value of a function, which can be a different one in each iteration.
func (w *walker) indexed(t *Term) bool {
	if t.Op == "select" || strings.HasPrefix(t.Op, "app") {
		return true
	}
	for _, a := range t.Args {
		if w.indexed(a) {
			return true
		}
	}
	return false
}

// atEntry has the leaves of the state before the loop.
func (w *walker) atEntry() map[*Term]bool {
	if w.leaf0 == nil {
		w.leaf0 = map[*Term]bool{}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupported); !ok {
						panic(r)
					}
				}
			}()
			for _, t := range w.e.captureJoin(w.entry, w.entry, nil, nil, w.mod).leaves {
				w.leaf0[t] = true
			}
		}()
	}
	return w.leaf0
}
func (w *walker) boolLeaf(t *Term) *Term {
	if w.join {
		w.key.WriteString("b")
		return w.lf(t, 'b', nil)
	}
	fixed := func() bool { return w.fixedTerm(t) }
	switch {
	case t.isTrue():
		w.key.WriteString("T")
		return TTrue
	case t.isFalse():
		w.key.WriteString("F")
		return TFalse
	case w.st.facts[t]:
		w.key.WriteString("T")
		if fixed() {
			// the shape includes that this condition, fixed before the loop, holds
			fmt.Fprintf(&w.key, "%d", t.id)
			w.fixed = append(w.fixed, t)
			return t
		}
		return TTrue
	case w.st.facts[Not(t)]:
		w.key.WriteString("F")
		if fixed() {
			fmt.Fprintf(&w.key, "%d", t.id)
			w.fixed = append(w.fixed, Not(t))
			return t
		}
		return TFalse
	}
	if fixed() {
		// a condition fixed before the loop is kept as it is
		fmt.Fprintf(&w.key, "B%d", t.id)
		return t
	}
	panic(needSplit{t})
}
func (w *walker) ref(id int) int {
	if w.entry.hasObj(id) {
		fmt.Fprintf(&w.key, "old%d", id)
		return id
	}
	n, ok := w.canon[id]
	if !ok {
		n = len(w.canon)
		w.canon[id] = n
		w.queue = append(w.queue, id)
		if len(w.canon) > 400 {
			panic(unsup("loop state has too many objects"))
		}
	}
	fmt.Fprintf(&w.key, "new%d", n)
	if w.remap != nil {
		m, ok := w.remap[id]
		if !ok {
			m = newObjID()
			w.remap[id] = m
		}
		return m
	}
	return id
}
func (w *walker) val(v Value, t types.Type) Value {
	switch x := v.(type) {
	case nil:
		return nil
	case *Term:
		if x.S == SBool {
			return w.boolLeaf(x)
		}
		k := byte('z')
		if t != nil && isInt(t) {
			k = 'i'
		} else {
			t = nil
		}
		w.key.WriteString("n")
		return w.lf(x, k, t)
	case FloatV:
		w.key.WriteString("f")
		return FloatV{w.lf(x.Cls, 'f', nil), w.lf(x.Val, 'F', nil)}
	case *StrV:
		w.key.WriteString("s")
		tm := w.st.strTerm(x)
		r := w.lf(tm, 's', nil)
		res := x
		if r != tm {
			res = w.st.opaqueStr(r)
		}
		w.strs = append(w.strs, res)
		return res
	case StructV:
		w.key.WriteString("{")
		n := make(StructV, len(x))
		var u *types.Struct
		if t != nil {
			u, _ = under(t).(*types.Struct)
		}
		for i := range x {
			var ft types.Type
			if u != nil {
				ft = u.Field(i).Type()
			}
			n[i] = w.val(x[i], ft)
		}
		w.key.WriteString("}")
		return n
	case ArrayV:
		n := make(ArrayV, len(x))
		var et types.Type
		if t != nil {
			if u, ok := under(t).(*types.Array); ok {
				et = u.Elem()
			}
		}
		w.key.WriteString("[")
		for i := range x {
			n[i] = w.val(x[i], et)
		}
		w.key.WriteString("]")
		return n
	case TupleV:
		n := make(TupleV, len(x))
		w.key.WriteString("(")
		tt, _ := t.(*types.Tuple)
		for i := range x {
			var et types.Type
			if tt != nil {
				et = tt.At(i).Type()
			}
			n[i] = w.val(x[i], et)
		}
		w.key.WriteString(")")
		return n
	case Ptr:
		if x.Sym != nil {
			w.key.WriteString("P?")
			return Ptr{Sym: w.lf(x.Sym, 'x', nil)}
		}
		if x.Obj == 0 {
			w.key.WriteString("Pnil")
			return x
		}
		w.key.WriteString("P")
		n := Ptr{Obj: w.ref(x.Obj)}
		for _, p := range x.Path {
			if p.Idx != nil {
				w.key.WriteString("[]")
				n.Path = append(n.Path, PE{Field: -1, Idx: w.lf(p.Idx, 'i', types.Typ[types.Int])})
			} else {
				fmt.Fprintf(&w.key, ".%d", p.Field)
				n.Path = append(n.Path, p)
			}
		}
		return n
	case SliceV:
		if x.Obj == 0 {
			w.key.WriteString("Lnil")
			var et types.Type
			if t != nil {
				if u, ok := under(t).(*types.Slice); ok {
					et = u.Elem()
				}
			}
			w.slices = append(w.slices, sliceAt{v: x, elem: et})
			return x
		}
		w.key.WriteString("L")
		nl := w.boolLeaf(x.Nil)
		n := SliceV{Obj: w.ref(x.Obj), Nil: nl}
		n.Off = w.lf(x.Off, 'o', nil)
		n.Len = w.lf(x.Len, 'l', nil)
		n.Cap = w.lf(x.Cap, 'c', nil)
		w.slices = append(w.slices, sliceAt{v: n, elem: w.st.obj(x.Obj).Typ})
		return n
	case MapV:
		if x.Sym != nil {
			w.key.WriteString("M?")
			return MapV{Sym: w.lf(x.Sym, 'x', nil)}
		}
		if x.Obj == 0 {
			w.key.WriteString("Mnil")
			return x
		}
		w.key.WriteString("M")
		return MapV{Obj: w.ref(x.Obj)}
	case IfaceV:
		if x.Sym != nil {
			z := Eq(x.Sym, TI(0))
			switch {
			case z.isTrue():
				w.key.WriteString("Inil")
				return IfaceV{}
			case w.st.facts[z]:
				if w.fixedTerm(x.Sym) {
					// the shape includes that this value, fixed before the loop, is nil
					fmt.Fprintf(&w.key, "Inil%d", x.Sym.id)
					w.fixed = append(w.fixed, z)
					return x
				}
				w.key.WriteString("Inil")
				return IfaceV{}
			case z.isFalse() || w.st.facts[Not(z)]:
				w.key.WriteString("I?")
				return IfaceV{Sym: w.lf(x.Sym, 'e', nil)}
			case w.join:
				w.key.WriteString("I?")
				return IfaceV{Sym: w.lf(x.Sym, 'x', nil)}
			}
			panic(needSplit{z})
		}
		if x.Typ == nil {
			w.key.WriteString("Inil")
			return x
		}
		w.key.WriteString("I(" + typeKey(x.Typ) + ":")
		n := IfaceV{Typ: x.Typ, Val: w.val(x.Val, x.Typ)}
		w.key.WriteString(")")
		return n
	case FuncV:
		if x.Sym != nil {
			w.key.WriteString("fs" + x.Sym.Name)
			if x.Sym.Id != nil {
				sf := *x.Sym
				sf.Id = w.lf(x.Sym.Id, 'x', nil)
				return FuncV{Sym: &sf}
			}
			return x
		}
		fmt.Fprintf(&w.key, "fn%p/%p", x.Fn, x.Nat)
		n := x
		n.Bind = nil
		for i, b := range x.Bind {
			n.Bind = append(n.Bind, w.val(b, bindType(x.Fn, i)))
		}
		return n
	case RTypeV, RVal, RegexV:
		w.key.WriteString(w.st.valKey(v, nil))
		return v
	case OpaqueV:
		w.key.WriteString("o")
		return OpaqueV{x.T, w.lf(x.Id, 'x', nil)}
	case *rangeIter:
		return w.rangeIter(x)
	}
	panic(unsup("loop state holds %T", v))
}

// objContent walks the content of an object; returns the rebuilt object.
func (w *walker) objContent(id int, isOld bool) *Obj {
	o := w.st.obj(id)
	n := *o
	if w.join && (o.Prec != nil || o.BigVal != nil || o.Src != 0) {
		fmt.Fprintf(&w.key, "big%p,%p,%d", o.Prec, o.BigVal, o.Src)
	}
	switch o.Kind {
	case 'c':
		w.key.WriteString("c:")
		n.Val = w.val(o.Val, o.Typ)
	case 'a':
		if o.Sym == nil && isOld && w.entry.obj(id).Sym == nil && len(w.entry.obj(id).Vec) == len(o.Vec) {
			fmt.Fprintf(&w.key, "v%d:", len(o.Vec))
			n.Vec = make([]Value, len(o.Vec))
			for i := range o.Vec {
				n.Vec[i] = w.val(o.Vec[i], o.Typ)
			}
			return &n
		}
		if o.Sym == nil {
			if w.join || !treeable(o.Typ) {
				fmt.Fprintf(&w.key, "v%d:", len(o.Vec))
				n.Vec = make([]Value, len(o.Vec))
				for i := range o.Vec {
					n.Vec[i] = w.val(o.Vec[i], o.Typ)
				}
				return &n
			}
			n.Sym = w.st.vecTree(o)
			n.Vec = nil
		}
		fmt.Fprintf(&w.key, "a(%s):", typeKey(o.Typ))
		n.Sym = n.Sym.mapT(func(t *Term) *Term { return w.lf(t, 'x', nil) })
	case 'm':
		if !w.join && !o.SymM && !isOld && mapEncodable(o) {
			o = w.st.symMap(o)
			n = *o
		}
		if !o.SymM {
			fmt.Fprintf(&w.key, "m%d:", len(o.Ents))
			n.Ents = make([]MapEnt, len(o.Ents))
			mt := under(o.Typ).(*types.Map)
			for i, en := range o.Ents {
				n.Ents[i] = MapEnt{w.val(en.K, mt.Key()), w.val(en.V, mt.Elem())}
			}
			return &n
		}
		w.key.WriteString("ms:")
		mid := id
		if m, ok := w.remap[id]; ok && !isOld {
			mid = m
		}
		w.slices = append(w.slices, sliceAt{v: nilSlice(), mv: &MapV{Obj: mid}, mt: under(o.Typ).(*types.Map)})
		n.Dom = w.lf(o.Dom, 'x', nil)
		n.MLen = w.lf(o.MLen, 'z', nil)
		n.Sym = o.Sym.mapT(func(t *Term) *Term { return w.lf(t, 'x', nil) })
	}
	return &n
}

func treeable(t types.Type) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
	treeShape(t, 1, func(s Sort) *Term { return TTrue })
	return true
}
func (st *State) vecTree(o *Obj) *Tree {
	c := defaultTree(o.Typ, 1)
	for i := range o.Vec {
		c = c.sto(TI(int64(i)), st.encode(o.Vec[i], o.Typ))
	}
	return c
}

// symbolicize turns the array objects reachable by growing slices into symbolic mode so that
// shapes stay finite: new array objects only.
func (e *Engine) capture(st, entry *State, phis []Value, ptypes []types.Type, mod map[int]bool) (cp *capture, split *Term) {
	defer func() {
		if r := recover(); r != nil {
			if ns, ok := r.(needSplit); ok {
				cp, split = nil, ns.c
				return
			}
			panic(r)
		}
	}()
	w := &walker{e: e, st: st, entry: entry, mod: mod, canon: map[int]int{}}
	for i, p := range phis {
		w.val(p, ptypes[i])
		w.key.WriteByte('|')
	}
	var olds []int
	for id := range mod {
		olds = append(olds, id)
	}
	sort.Ints(olds)
	for _, id := range olds {
		fmt.Fprintf(&w.key, "#%d=", id)
		w.objContent(id, true)
	}
	for qi := 0; qi < len(w.queue); qi++ {
		fmt.Fprintf(&w.key, "@%d=", qi)
		w.objContent(w.queue[qi], false)
	}
	return &capture{key: w.key.String(), phis: phis, leaves: w.leaves, infos: w.infos, slices: w.slices, strs: w.strs, st: st, olds: olds, news: w.queue}, nil
}

type absState struct {
	cp      *capture // first arrival
	gen     []bool
	sym     []*Term // fresh symbol per leaf
	cands   []*cand
	reached bool
	dirty   bool
	late    bool // not the state that enters the loop
	all     []*cand
	hint    int
}

type cand struct {
	desc string
	// eval at a state with given leaves/slices/strs
	eval  func(st *State, leaves []*Term, slices []sliceAt, strs []*StrV) *Term
	quant bool
}

type headerState struct {
	st     *State
	phis   []Value
	leaves []*Term
	slices []sliceAt
	strs   []*StrV
}

func hasNewVar(t *Term, mark int, memo map[*Term]bool) bool {
	if t.id <= mark {
		return false
	}
	if t.Op == "var" {
		return strings.Contains(t.Name, "!") && !strings.HasPrefix(t.Name, "str!") && !strings.HasPrefix(t.Name, "box!")
	}
	if r, ok := memo[t]; ok {
		return r
	}
	memo[t] = false
	for _, a := range t.Args {
		if hasNewVar(a, mark, memo) {
			memo[t] = true
			return true
		}
	}
	return false
}

// instantiate builds the header state of an abstract state on top of the loop-entry state.
func (e *Engine) instantiate(a *absState, entry *State, ptypes []types.Type, mod map[int]bool) *headerState {
	st := entry.clone()
	w := &walker{e: e, st: a.cp.st.clone(), entry: entry, mod: mod, canon: map[int]int{}, remap: map[int]int{}}
	w.leaf = func(i int, t *Term, k byte, typ types.Type) *Term {
		if a.gen[i] {
			return a.sym[i]
		}
		return t
	}
	h := &headerState{}
	for i, p := range a.cp.phis {
		h.phis = append(h.phis, w.val(p, ptypes[i]))
	}
	objs := map[int]*Obj{}
	for _, id := range a.cp.olds {
		objs[id] = w.objContent(id, true)
	}
	for qi := 0; qi < len(w.queue); qi++ {
		id := w.queue[qi]
		o := w.objContent(id, false)
		objs[w.remap[id]] = o
	}
	for id, o := range objs {
		st.heap[id] = o
	}
	for _, t := range w.fixed {
		st.assume(t)
	}
	h.slices, h.strs = w.slices, w.strs
	h.leaves = make([]*Term, len(a.gen))
	for i := range a.gen {
		if a.gen[i] {
			h.leaves[i] = a.sym[i]
		} else {
			h.leaves[i] = a.cp.leaves[i]
		}
	}
	// domain facts of the fresh symbols
	for i, g := range a.gen {
		if !g {
			continue
		}
		in := a.cp.infos[i]
		t := a.sym[i]
		switch in.kind {
		case 'i':
			if in.typ != nil {
				lo, hi := intRange(in.typ)
				t.lo, t.hi = lo, hi
				st.assume(intern(&Term{Op: "<=", S: SBool, Args: []*Term{TBig(lo), t}}))
				st.assume(intern(&Term{Op: "<=", S: SBool, Args: []*Term{t, TBig(hi)}}))
			}
		case 'l', 'o', 'c':
			t.lo, t.hi = bZero, maxLen
			st.assume(rawLe(TI(0), t))
			st.assume(rawLe(t, TBig(maxLen)))
		case 'e':
			st.assume(Neq(t, TI(0)))
		case 's':
			st.opaqueStr(t)
		}
	}
	for _, s := range h.slices {
		if s.v.Obj == 0 {
			continue
		}
		st.assume(Le(TI(0), s.v.Off))
		st.assume(Le(TI(0), s.v.Len))
		st.assume(Le(s.v.Len, s.v.Cap))
		st.assume(Le(s.v.Cap, TBig(maxLen)))
		if o := st.obj(s.v.Obj); o.Kind == 'a' && o.Sym == nil {
			st.assume(Le(Add(s.v.Off, s.v.Cap), TI(int64(len(o.Vec)))))
		}
	}
	h.st = st
	return h
}

func (e *Engine) phiVals(st *State, fr *Frame, h *ssa.BasicBlock) (phis []*ssa.Phi, vals []Value, ts []types.Type) {
	pi := -1
	for i, pb := range h.Preds {
		if pb == fr.prev {
			pi = i
		}
	}
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		if fr.over != nil {
			vals = append(vals, fr.over[len(phis)-1])
		} else {
			vals = append(vals, e.val(st, fr, ph.Edges[pi]))
		}
		ts = append(ts, ph.Type())
	}
	return
}

// restartLoop: the loop of the tag starts again.
type restartLoop struct{ tag *int }

var debugLoop = os.Getenv("GOCV_LOOP") != ""

func (e *Engine) cutLoop(st0 *State, fr0 *Frame, l *Loop) {
	where := e.pos(fr0.fn) + " " + fr0.fn.Name() + " loop b" + fmt.Sprint(l.header.Index)
	phis, vals0, ptypes := e.phiVals(st0, fr0, l.header)
	e.loopCuts++
	mark := curTermID()
	st0.loopMark = mark
	mod := map[int]bool{}
	var shapes map[string]*absState
	var order []*absState

	// runBody executes the loop body from a header state.
	runBody := func(h *headerState, dry bool, onBack func(st *State, vals []Value)) {
		f := fr0.clone()
		f.over = nil
		for i, ph := range phis {
			f.set(ph, h.phis[i])
		}
		f.block = l.header
		nd := len(f.defers)
		ctx := &loopCtx{loop: l, cut: true}
		ctx.onBack = func(s *State, bf *Frame) {
			if len(bf.defers) != nd {
				panic(unsup("defer inside a loop"))
			}
			_, vals, _ := e.phiVals(s, bf, l.header)
			onBack(s, vals)
		}
		if dry {
			f.k = func(*State, Value) {}
			f.p = func(*State, Value) {}
			ctx.onExit = func(*State, *Frame) bool { return true }
		}
		f.loops[l.header] = ctx
		ip := len(phis)
		if ip == 0 {
			ip = -1 // past the loop entry
		}
		e.run(h.st, f, ip)
	}
	// arrive normalises a state at the header (splitting undecided booleans) and hands captures on.
	var arrive func(st *State, vals []Value, k func(cp *capture))
	restarts := 0
	tag := &restarts
	collecting, grown := false, false // collecting: gather all the modified objects before a restart
	arrive = func(st *State, vals []Value, k func(cp *capture)) {
		// objects modified since loop entry
		for id, o := range st.heap {
			if mod[id] || !st0.hasObj(id) {
				continue
			}
			if st0.obj(id) != o {
				if st0.valKeyObj(st0.obj(id)) == st.valKeyObj(o) {
					continue
				}
				mod[id] = true
				if o0 := st0.obj(id); o0.Kind == 'm' && !o0.SymM && mapEncodable(o0) {
					st0.setObj(id, st0.symMap(o0))
				}
				grown = true
			}
		}
		if grown {
			if !collecting {
				panic(restartLoop{tag})
			}
			return
		}
		cp, split := e.capture(st, st0, vals, ptypes, mod)
		if split != nil {
			e.fork(st, split, func(s *State) { s.facts[split] = true; arrive(s, vals, k) }, func(s *State) { s.facts[Not(split)] = true; arrive(s, vals, k) })
			return
		}
		k(cp)
	}
	e.dry++
	dry0 := e.dry
	// What the second phase found that the first one did not: shapes, and leaves to generalise.
	var extra []*capture
	extraGen := map[string]map[int]bool{}
	// restartable runs a phase; it ends early if the phase has to start again.
	restartable := func(f func()) (again bool) {
		defer func() {
			if r := recover(); r != nil {
				if x, ok := r.(restartLoop); ok && x.tag == tag {
					e.dry = dry0
					again = true
					return
				}
				panic(r)
			}
		}()
		f()
		return false
	}
phase1:
	grown = false
	again := restartable(func() {
		shapes = map[string]*absState{}
		order = nil
		memo := map[*Term]bool{}
		reg := func(cp *capture) {
			a := shapes[cp.key]
			if a == nil {
				if len(shapes) > 64 {
					panic(unsup("too many loop-state shapes at %s", where))
				}
				a = &absState{cp: cp, gen: make([]bool, len(cp.leaves)), sym: make([]*Term, len(cp.leaves)), dirty: true}
				for i, t := range cp.leaves {
					a.sym[i] = TVar(e.freshName("lv"), t.S)
				}
				shapes[cp.key] = a
				order = append(order, a)
				for i, t := range cp.leaves {
					if extraGen[cp.key][i] || hasNewVar(t, mark, memo) {
						a.gen[i] = true
					}
				}
				if debugLoop {
					fmt.Fprintf(os.Stderr, "LOOP %s new shape %s leaves %v\n", where, cp.key, cp.leaves)
				}
				return
			}
			for i, t := range cp.leaves {
				if !a.gen[i] && t != a.cp.leaves[i] {
					a.gen[i] = true
					a.dirty = true
				}
			}
		}
		arrive(st0.clone(), vals0, reg)
		for _, cp := range extra {
			reg(cp)
		}
		for {
			var a *absState
			for _, x := range order {
				if x.dirty {
					a = x
					break
				}
			}
			if a == nil {
				break
			}
			a.dirty = false
			h := e.instantiate(a, st0, ptypes, mod)
			collecting = true
			runBody(h, true, func(s *State, vals []Value) { arrive(s, vals, reg) })
			collecting = false
			if grown {
				panic(restartLoop{tag})
			}
		}
	})
	collecting = false
	if again {
		restarts++
		if restarts > 200 {
			panic(unsup("loop state does not stabilise at %s", where))
		}
		goto phase1
	}
	// phase 2: Houdini
	for i, a := range order {
		a.dirty, a.reached, a.late = false, false, i > 0
		a.all = e.genCands(a, st0, fr0, vals0, l)
	}
	filter := func(cp *capture) {
		a := shapes[cp.key]
		if a == nil {
			extra = append(extra, cp)
			panic(restartLoop{tag})
		}
		for i, t := range cp.leaves {
			if !a.gen[i] && t != a.cp.leaves[i] {
				if extraGen[cp.key] == nil {
					extraGen[cp.key] = map[int]bool{}
				}
				extraGen[cp.key][i] = true
				panic(restartLoop{tag})
			}
		}
		if !a.reached {
			a.reached = true
			a.dirty = true
			a.cands = a.all
			a.cands = e.filterCands(a.cands, cp)
			return
		}
		n := e.filterCands(a.cands, cp)
		if len(n) != len(a.cands) {
			a.cands = n
			a.dirty = true
		}
	}
	assumeCands := func(a *absState, h *headerState) {
		for _, c := range a.cands {
			h.st.assume(c.eval(h.st, h.leaves, h.slices, h.strs))
		}
	}
	rounds := 0
	again = restartable(func() {
		arrive(st0.clone(), vals0, filter)
		for {
			var a *absState
			for _, x := range order {
				if x.dirty {
					a = x
					break
				}
			}
			if a == nil {
				break
			}
			rounds++
			a.dirty = false
			h := e.instantiate(a, st0, ptypes, mod)
			assumeCands(a, h)
			runBody(h, true, func(s *State, vals []Value) { arrive(s, vals, filter) })
		}
	})
	if again {
		restarts++
		if restarts > 200 {
			panic(unsup("loop state does not stabilise at %s", where))
		}
		goto phase1
	}
	e.dry--
	if debugLoop {
		for i, a := range order {
			var ds []string
			for _, c := range a.cands {
				ds = append(ds, c.desc)
			}
			fmt.Fprintf(os.Stderr, "LOOP %s shape %d reached=%v gen=%v key=%s\n   invs: %s\n", where, i, a.reached, a.gen, a.cp.key, strings.Join(ds, "; "))
		}
	}
	if e.dry == 0 {
		n := 0
		for _, a := range order {
			if a.reached {
				n += len(a.cands)
			}
		}
		e.invCount += n
		e.obl = append(e.obl, &Obligation{Spec: e.spec, Label: fmt.Sprintf("loop invariant (%d conjuncts, %d shapes, %d rounds) initiated and preserved", n, len(order), rounds), Where: where, Status: "discharged", Backend: "z3-new(incremental)"})
		e.backends["z3-new(incremental)"]++
	}
	// phase 3: continue past the loop
	for _, a := range order {
		if !a.reached {
			continue
		}
		h := e.instantiate(a, st0, ptypes, mod)
		assumeCands(a, h)
		runBody(h, false, func(s *State, vals []Value) {})
	}
}

func curTermID() int {
	termMu.Lock()
	defer termMu.Unlock()
	return termID
}

// valKeyObj is a syntactic key of an object's content.
func (st *State) valKeyObj(o *Obj) string {
	switch o.Kind {
	case 'c':
		return st.valKey(o.Val, nil)
	case 'a':
		if o.Sym != nil {
			var ls []*Term
			o.Sym.leaves(&ls)
			s := "sym"
			for _, l := range ls {
				s += fmt.Sprintf(",%d", l.id)
			}
			return s
		}
		s := "vec"
		for _, v := range o.Vec {
			s += "," + st.valKey(v, nil)
		}
		return s
	case 'm':
		if o.SymM {
			s := fmt.Sprintf("ms%d,%d", o.Dom.id, o.MLen.id)
			var ls []*Term
			o.Sym.leaves(&ls)
			for _, l := range ls {
				s += fmt.Sprintf(",%d", l.id)
			}
			return s
		}
		s := "m"
		for _, en := range o.Ents {
			s += "," + st.valKey(en.K, nil) + ":" + st.valKey(en.V, nil)
		}
		return s
	}
	return "?"
}

// filterCands keeps the candidates that hold at the captured state.
func (e *Engine) filterCands(cs []*cand, cp *capture) []*cand {
	type ct struct {
		c *cand
		t *Term
	}
	var simple, hard []ct
	var keep = map[*cand]bool{}
	st := cp.st
	for _, c := range cs {
		t := c.eval(st, cp.leaves, cp.slices, cp.strs)
		if t.isTrue() || st.facts[t] {
			keep[c] = true
			continue
		}
		if t.isFalse() {
			continue
		}
		if hasQuant(t) {
			hard = append(hard, ct{c, t})
		} else {
			simple = append(simple, ct{c, t})
		}
	}
	for len(simple) > 0 {
		e.checkDeadline()
		var ts []*Term
		for _, x := range simple {
			ts = append(ts, x.t)
		}
		r, vals := e.solver.Check(st.pc, Not(And(ts...)), e.feasTO*2, ts)
		if r == "unsat" {
			for _, x := range simple {
				keep[x.c] = true
			}
			break
		}
		if r == "sat" && len(vals) == len(ts) {
			var nx []ct
			for i, x := range simple {
				if vals[i] == "true" {
					nx = append(nx, x)
				}
			}
			if len(nx) < len(simple) {
				simple = nx
				continue
			}
		}
		hard = append(simple, hard...)
		break
	}
	for _, x := range hard {
		e.checkDeadline()
		t0 := time.Now()
		r, _ := e.solver.Check(st.pc, Not(x.t), e.invTO(), nil)
		if debugLoop {
			fmt.Fprintf(os.Stderr, "HARD %s %s %v\n", x.c.desc, r, time.Since(t0))
			if r != "unsat" && os.Getenv("GOCV_HARD") != "" {
				fmt.Fprintf(os.Stderr, "   GOAL %s\n", x.t)
				for q := st.pc; q != nil; q = q.parent {
					fmt.Fprintf(os.Stderr, "   PC %s\n", q.t)
				}
			}
		}
		if r == "unknown" && !e.dryFast() {
			r, _ = portfolio(script(st.pc, Not(x.t), nil), e.portfolioTO()/4)
		}
		if r == "unsat" {
			keep[x.c] = true
		}
	}
	var out []*cand
	for _, c := range cs {
		if keep[c] {
			out = append(out, c)
		}
	}
	return out
}
func (e *Engine) invTO() int    { return 2000 }
func (e *Engine) dryFast() bool { return true }

func hasQuant(t *Term) bool {
	if t.Op == "forall" || t.Op == "exists" {
		return true
	}
	for _, a := range t.Args {
		if hasQuant(a) {
			return true
		}
	}
	return false
}

// genCands builds the candidate invariants of an abstract header state.
func (e *Engine) genCands(a *absState, st0 *State, fr0 *Frame, vals0 []Value, l *Loop) []*cand {
	var cs []*cand
	add := func(desc string, f func(st *State, leaves []*Term, sl []sliceAt, ss []*StrV) *Term) {
		cs = append(cs, &cand{desc: desc, eval: f})
	}
	mark := st0.markID()
	_ = mark
	// bound terms available at loop entry
	type bt struct {
		t    *Term
		desc string
	}
	var bts []bt
	seen := map[*Term]bool{}
	addB := func(t *Term, d string) {
		if t.S == SInt && !seen[t] && len(bts) < 16 {
			seen[t] = true
			bts = append(bts, bt{t, d})
		}
	}
	addB(TI(0), "0")
	addB(TI(1), "1")
	for _, d := range st0.draws {
		for _, t := range d.lens(st0) {
			addB(t, d.Name+".len")
		}
		if t, ok := d.V.(*Term); ok && t.S == SInt {
			addB(t, d.Name)
		}
	}
	for i, v := range fr0.env {
		switch x := v.(type) {
		case *Term:
			if x.S == SInt {
				addB(x, fmt.Sprintf("env%d", i))
			}
		case SliceV:
			addB(x.Len, fmt.Sprintf("len(env%d)", i))
		case *StrV:
			addB(x.Len, fmt.Sprintf("len(env%d)", i))
		}
	}
	// integer-valued quantities of the state
	type iv struct {
		desc string
		get  func(leaves []*Term) *Term
		gen  bool
		typ  types.Type
		prim bool
		num  bool // a number of the program, not the length or offset of a slice
	}
	var ivs []iv
	for i, in := range a.cp.infos {
		i := i
		switch in.kind {
		case 'i', 'z', 'l', 'o':
			if a.cp.leaves[i].S != SInt {
				for j := 0; j < i && a.gen[i]; j++ {
					j := j
					if a.gen[j] && a.cp.infos[j].kind == in.kind && a.cp.leaves[j].S == a.cp.leaves[i].S {
						add(fmt.Sprintf("x%d==x%d", j, i), func(st *State, ls []*Term, _ []sliceAt, _ []*StrV) *Term { return Eq(ls[i], ls[j]) })
					}
				}
				break
			}
			ivs = append(ivs, iv{fmt.Sprintf("x%d", i), func(ls []*Term) *Term { return ls[i] }, a.gen[i], in.typ, in.kind != 'o', in.kind == 'i' || in.kind == 'z'})
		case 's':
			ivs = append(ivs, iv{fmt.Sprintf("len(x%d)", i), func(ls []*Term) *Term { return TApp("strlen", SInt, ls[i]) }, a.gen[i], nil, true, false})
		case 'e':
			if !a.gen[i] {
				continue
			}
			for _, d := range st0.draws {
				if ivv, ok := d.V.(IfaceV); ok && ivv.Sym != nil {
					s := ivv.Sym
					add(fmt.Sprintf("x%d==%s", i, d.Name), func(st *State, ls []*Term, _ []sliceAt, _ []*StrV) *Term { return Eq(ls[i], s) })
				}
			}
		}
		if a.gen[i] && a.cp.leaves[i].S != SInt || in.kind == 'e' || in.kind == 'x' || in.kind == 'f' {
			first := a.cp.leaves[i]
			if !hasNewVar(first, st0.markID(), map[*Term]bool{}) {
				add(fmt.Sprintf("x%d==entry", i), func(st *State, ls []*Term, _ []sliceAt, _ []*StrV) *Term { return Eq(ls[i], first) })
			}
		}
	}
	// what was an element of an array at first stays the element at the same distance from an integer
	for i := range a.cp.infos {
		first := a.cp.leaves[i]
		if !a.gen[i] || first.Op != "select" || first.Args[1].N == nil || hasNewVar(first.Args[0], st0.markID(), map[*Term]bool{}) {
			continue
		}
		for j, in := range a.cp.infos {
			fj := a.cp.leaves[j]
			if j == i || !a.gen[j] || fj.S != SInt || fj.N == nil || (in.kind != 'i' && in.kind != 'l') {
				continue
			}
			i, j := i, j
			off := Sub(first.Args[1], fj)
			add(fmt.Sprintf("x%d==%s[x%d%+d]", i, first.Args[0].Name, j, off.N), func(st *State, ls []*Term, _ []sliceAt, _ []*StrV) *Term {
				return Eq(ls[i], Select(first.Args[0], Add(ls[j], off)))
			})
		}
	}
	// what was an application of a ghost function to other values at first stays one
	for i := range a.cp.infos {
		first := a.cp.leaves[i]
		if !a.gen[i] || !ghostApp(first) {
			continue
		}
		alts := 0
		var try func(args []*Term, picked []int, k int)
		try = func(args []*Term, picked []int, k int) {
			if k == len(args) {
				some := false
				for _, j := range picked {
					some = some || j >= 0
				}
				if !some || alts >= 4 {
					return
				}
				alts++
				pk := append([]int(nil), picked...)
				i, op := i, first
				add(fmt.Sprintf("x%d==%s%v", i, op.Name, pk), func(st *State, ls []*Term, _ []sliceAt, _ []*StrV) *Term {
					as := make([]*Term, len(pk))
					for n, j := range pk {
						as[n] = op.Args[n]
						if j >= 0 {
							as[n] = ls[j]
						}
					}
					return Eq(ls[i], rebuild(op, as))
				})
				return
			}
			for j := range a.cp.infos {
				if j != i && a.gen[j] && a.cp.leaves[j] == args[k] {
					try(args, append(picked, j), k+1)
				}
			}
			if !hasNewVar(args[k], st0.markID(), map[*Term]bool{}) {
				try(args, append(picked, -1), k+1)
			}
		}
		try(first.Args, nil, 0)
	}
	// equal floats stay equal
	for i, in := range a.cp.infos {
		for j := 0; j < i && in.kind == 'f'; j++ {
			i, j := i, j
			if a.cp.infos[j].kind == 'f' && a.cp.leaves[i] == a.cp.leaves[j] && a.cp.leaves[i+1] == a.cp.leaves[j+1] {
				add(fmt.Sprintf("f%d==f%d", i, j), func(st *State, ls []*Term, _ []sliceAt, _ []*StrV) *Term {
					return And(Eq(ls[i], ls[j]), Eq(ls[i+1], ls[j+1]))
				})
			}
		}
	}
	for _, x := range ivs {
		x := x
		if !x.gen {
			// a state that only the body reaches: what it knows of a constant is not on the path that enters the loop
			if c := x.get(a.cp.leaves); c.N != nil && a.late && x.prim {
				for _, b := range bts {
					b := b
					if b.t.N == nil {
						add(x.desc+"<="+b.desc, func(st *State, ls []*Term, _ []sliceAt, _ []*StrV) *Term { return Le(c, b.t) })
						add(b.desc+"<="+x.desc, func(st *State, ls []*Term, _ []sliceAt, _ []*StrV) *Term { return Le(b.t, c) })
					}
				}
			}
			continue
		}
		for _, b := range bts {
			b := b
			add(x.desc+"<="+b.desc, func(st *State, ls []*Term, _ []sliceAt, _ []*StrV) *Term { return Le(x.get(ls), b.t) })
			add(b.desc+"<="+x.desc, func(st *State, ls []*Term, _ []sliceAt, _ []*StrV) *Term { return Le(b.t, x.get(ls)) })
			if b.t.N == nil {
				add(x.desc+"<"+b.desc, func(st *State, ls []*Term, _ []sliceAt, _ []*StrV) *Term { return Lt(x.get(ls), b.t) })
			} else {
				add(x.desc+"<="+b.desc+"-1", func(st *State, ls []*Term, _ []sliceAt, _ []*StrV) *Term { return Lt(x.get(ls), b.t) })
			}
		}
		add("-1<="+x.desc, func(st *State, ls []*Term, _ []sliceAt, _ []*StrV) *Term { return Le(TI(-1), x.get(ls)) })
		first := x.get(a.cp.leaves)
		if !hasNewVar(first, st0.markID(), map[*Term]bool{}) {
			add(x.desc+">=entry", func(st *State, ls []*Term, _ []sliceAt, _ []*StrV) *Term { return Le(first, x.get(ls)) })
			add(x.desc+"<=entry", func(st *State, ls []*Term, _ []sliceAt, _ []*StrV) *Term { return Le(x.get(ls), first) })
		}
	}
	if len(ivs) <= 14 {
		for i := range ivs {
			for j := range ivs {
				x, y := ivs[i], ivs[j]
				if i == j || !(x.gen && y.gen) || !x.prim || !y.prim {
					continue
				}
				if true {
					add(x.desc+"<="+y.desc, func(st *State, ls []*Term, _ []sliceAt, _ []*StrV) *Term { return Le(x.get(ls), y.get(ls)) })
				}
				if i < j {
					fx, fy := x.get(a.cp.leaves), y.get(a.cp.leaves)
					d := Sub(fx, fy)
					if !hasNewVar(d, st0.markID(), map[*Term]bool{}) {
						add(x.desc+"-"+y.desc+"==entry", func(st *State, ls []*Term, _ []sliceAt, _ []*StrV) *Term {
							return Eq(Sub(x.get(ls), y.get(ls)), d)
						})
					} else {
						for k := int64(-1); k <= 1; k++ {
							k := k
							add(fmt.Sprintf("%s-%s==%d", x.desc, y.desc, k), func(st *State, ls []*Term, _ []sliceAt, _ []*StrV) *Term {
								return Eq(Sub(x.get(ls), y.get(ls)), TI(k))
							})
						}
					}
					sum := Add(fx, fy)
					if !hasNewVar(sum, st0.markID(), map[*Term]bool{}) {
						add(x.desc+"+"+y.desc+"==entry", func(st *State, ls []*Term, _ []sliceAt, _ []*StrV) *Term {
							return Eq(Add(x.get(ls), y.get(ls)), sum)
						})
					}
				}
			}
		}
	}
	for i, s := range a.cp.slices {
		i := i
		if s.vis != nil && s.mv.Obj != 0 {
			add(fmt.Sprintf("visited%d in map", i), func(st *State, ls []*Term, sl []sliceAt, ss []*StrV) *Term {
				o := st.obj(sl[i].mv.Obj)
				b := TBound("?k", SInt)
				return Forall(b, Implies(Select(sl[i].vis, b), Select(o.Dom, b)))
			})
		}
	}
	type reg struct {
		v    SliceV
		elem types.Type
	}
	var regs []reg
	if len(st0.invs) > 0 {
		mod := map[int]bool{}
		for _, id := range a.cp.olds {
			mod[id] = true
		}
		vs := make([]ssa.Value, fr0.fi.n)
		for v, i := range fr0.fi.idx {
			vs[i] = v
		}
		for i, v := range vs {
			if v == nil {
				continue
			}
			x, ok := fr0.env[i].(SliceV)
			if su, ok2 := under(v.Type()).(*types.Slice); ok && ok2 && mod[x.Obj] {
				regs = append(regs, reg{x, su.Elem()})
			}
		}
	}
	// slices in variables of closures, for templates that relate slices
	var cells []reg
	related := func(tp *Template) bool {
		n := 0
		for _, h := range tp.holes {
			if _, ok := under(h).(*types.Slice); ok {
				n++
			}
		}
		return n > 1
	}
	for _, tp := range st0.invs {
		if !related(tp) {
			continue
		}
		ids := make([]int, 0, len(st0.heap))
		for id := range st0.heap {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			o := st0.heap[id]
			if x, ok := o.Val.(SliceV); ok && o.Kind == 'c' && x.Obj != 0 && len(cells) < 8 {
				if su, ok := under(o.Typ).(*types.Slice); ok {
					cells = append(cells, reg{x, su.Elem()})
				}
			}
		}
		break
	}
	// contract templates
	for _, tp := range st0.invs {
		tp := tp
		// fill holes
		var fill func(h int, args []func(st *State, ls []*Term, sl []sliceAt, ss []*StrV) Value, desc string)
		fill = func(h int, args []func(st *State, ls []*Term, sl []sliceAt, ss []*StrV) Value, desc string) {
			if h == len(tp.holes) {
				as := append([]func(st *State, ls []*Term, sl []sliceAt, ss []*StrV) Value(nil), args...)
				add("T:"+tp.label+"("+desc+")", func(st *State, ls []*Term, sl []sliceAt, ss []*StrV) *Term {
					var vs []Value
					for _, g := range as {
						vs = append(vs, g(st, ls, sl, ss))
					}
					return e.evalPred(st, tp.fn, vs)
				})
				return
			}
			ht := tp.holes[h]
			switch {
			case isInt(ht):
				for _, x := range ivs {
					x := x
					if !x.gen || !x.num {
						continue
					}
					fill(h+1, append(args, func(st *State, ls []*Term, sl []sliceAt, ss []*StrV) Value { return x.get(ls) }), desc+","+x.desc)
					fill(h+1, append(args, func(st *State, ls []*Term, sl []sliceAt, ss []*StrV) Value { return Add(x.get(ls), TI(1)) }), desc+","+x.desc+"+1")
				}
			case floatBits(ht) > 0:
				for i, in := range a.cp.infos {
					i := i
					if in.kind == 'f' {
						fill(h+1, append(args, func(st *State, ls []*Term, sl []sliceAt, ss []*StrV) Value { return FloatV{ls[i], ls[i+1]} }), desc+fmt.Sprintf(",f%d", i))
					}
				}
			case isString(ht):
				for i := range a.cp.strs {
					i := i
					fill(h+1, append(args, func(st *State, ls []*Term, sl []sliceAt, ss []*StrV) Value { return ss[i] }), desc+fmt.Sprintf(",s%d", i))
				}
			default:
				if mu, ok := under(ht).(*types.Map); ok {
					for i, s := range a.cp.slices {
						i := i
						if s.mv == nil || !types.Identical(s.mt, mu) {
							continue
						}
						fill(h+1, append(args, func(st *State, ls []*Term, sl []sliceAt, ss []*StrV) Value { return *sl[i].mv }), desc+fmt.Sprintf(",m%d", i))
					}
				}
				if sg, ok := under(ht).(*types.Signature); ok && sg.Params().Len() == 1 {
					// the set of keys visited so far
					for i, s := range a.cp.slices {
						i := i
						if s.vis == nil || !types.Identical(s.mt.Key(), sg.Params().At(0).Type()) {
							continue
						}
						kt := s.mt.Key()
						fill(h+1, append(args, func(st *State, ls []*Term, sl []sliceAt, ss []*StrV) Value {
							vis := sl[i].vis
							return FuncV{Sym: &SymFunc{Name: "visited", Sig: sg, Hook: func(st *State, args []Value, k Ret) {
								k(st, Select(vis, st.keyTerm(args[0], kt)))
							}}}
						}), desc+fmt.Sprintf(",v%d", i))
					}
				}
				if su, ok := under(ht).(*types.Slice); ok {
					for i, s := range a.cp.slices {
						i := i
						if s.elem == nil || !types.Identical(s.elem, su.Elem()) {
							continue
						}
						fill(h+1, append(args, func(st *State, ls []*Term, sl []sliceAt, ss []*StrV) Value { return sl[i].v }), desc+fmt.Sprintf(",l%d", i))
					}
					// slices that stay the same, with elements that change
					done := map[string]bool{}
					rs := regs
					if related(tp) {
						rs = append(rs[:len(rs):len(rs)], cells...)
					}
					for _, r := range rs {
						if types.Identical(r.elem, su.Elem()) && !done[st0.valKey(r.v, nil)] {
							done[st0.valKey(r.v, nil)] = true
							v := r.v
							fill(h+1, append(args, func(st *State, ls []*Term, sl []sliceAt, ss []*StrV) Value { return v }), desc+",r")
						}
					}
				}
			}
		}
		fill(0, nil, "")
	}
	return cs
}

func (st *State) markID() int { return st.loopMark }

var _ = big.NewInt

// evalPred evaluates a boolean closure to a single term.
func (e *Engine) evalPred(st *State, f Value, args []Value) *Term {
	return e.evalPredC(st, f, args, func(t *Term) *Term { return t })
}

// evalPredC evaluates a closure whose result conv turns into a truth value.
func (e *Engine) evalPredC(st *State, f Value, args []Value, conv func(*Term) *Term) *Term {
	base := st.pc
	s := st.clone()
	var alts []*Term
	var defs []*Term
	e.dry++
	old := e.unrollMax
	collect := func(s2 *State, r *Term) {
		g := TTrue
		var ds []*Term
		for q := s2.pc; q != base; q = q.parent {
			if q.def {
				ds = append(ds, q.t)
			} else {
				g = And(q.t, g)
			}
		}
		for _, d := range ds {
			defs = append(defs, Implies(g, d))
		}
		alts = append(alts, And(g, r))
	}
	e.callValue(s, f, args, nil, func(s2 *State, r Value) {
		collect(s2, conv(r.(*Term)))
	}, func(s2 *State, pv Value) {
		collect(s2, TFalse)
	})
	e.unrollMax = old
	e.dry--
	for _, d := range defs {
		st.define(d)
	}
	return Or(alts...)
}

// ghostApp: t is an application of an arbitrary function of a contract.
func ghostApp(t *Term) bool {
	return t.Op == "app" && strings.HasPrefix(t.Name, "fn_")
}
