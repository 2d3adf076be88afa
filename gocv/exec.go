package main

// Symbolic execution of go/ssa functions in continuation-passing style.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Ret func(st *State, res Value)
type Pan func(st *State, pv Value)

type Obligation struct {
	Spec, Label, Where string
	Status             string // discharged / failed / unknown
	Backend            string
	Time               time.Duration
	Model              map[string]interface{}
	Detail             string
}

type Engine struct {
	qvars         []*Term      // variables of the quantifiers being evaluated
	sorts         []sortedPair // the sorts so far
	sh            *Shared
	solver        *Solver
	spec          string
	dry           int
	obl           []*Obligation
	failed        int
	boxTypes      sync.Map
	deadline      time.Time
	paths         int
	steps         int
	funcs         map[string]int // repo functions executed (real bodies)
	externs       map[string]int // assumed external contracts used
	frameCnt      int
	unrollMax     int
	invs          []*Template
	backends      map[string]int
	maxFail       int
	cover         map[string]bool
	tierThorough  bool
	knownUsed     map[string]bool
	loopInfo      map[string]string
	loopCuts      int
	invCount      int
	noDirect      bool
	feasTO        int
	proofTO       int
	callDepthMax  int
	skipInv       map[*Template]bool
	curFrames     int
	trace         bool
	noSlack       bool
	noMerge       bool
	mapOrderFixed bool
	bounded       []string
	byContract    map[*ssa.Function]Value
	opaqueMul     bool
	divisors      []*Term
}

func newEngine(sh *Shared, spec string) *Engine {
	return &Engine{sh: sh, spec: spec, solver: NewSolver("z3-new"), deadline: time.Now().Add(10 * time.Minute), funcs: map[string]int{}, externs: map[string]int{}, backends: map[string]int{}, cover: map[string]bool{}, knownUsed: map[string]bool{}, loopInfo: map[string]string{}, skipInv: map[*Template]bool{}, feasTO: 1500, proofTO: 8000, maxFail: 1, callDepthMax: 300}
}

type fnInfo struct {
	idx   map[ssa.Value]int
	n     int
	loops map[*ssa.BasicBlock]*Loop // header -> loop
}

type Loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

var fnInfos sync.Map

func infoOf(fn *ssa.Function) *fnInfo {
	if v, ok := fnInfos.Load(fn); ok {
		return v.(*fnInfo)
	}
	fi := &fnInfo{idx: map[ssa.Value]int{}, loops: map[*ssa.BasicBlock]*Loop{}}
	add := func(v ssa.Value) { fi.idx[v] = fi.n; fi.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// natural loops
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &Loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.body[p] {
							l.body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	v, _ := fnInfos.LoadOrStore(fn, fi)
	return v.(*fnInfo)
}

type deferred struct {
	fv   FuncV
	args []Value
	site ssa.CallInstruction
	inv  *types.Func
	recv Value
}

type Frame struct {
	skipLoop  bool
	fn        *ssa.Function
	fi        *fnInfo
	env       []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    []deferred
	k         Ret
	p         Pan
	panicking *Value // set while running defers because of a panic
	recovered bool
	loops     map[*ssa.BasicBlock]*loopCtx
	depth     int
	callerFr  *Frame // for recover()
	iters     map[ssa.Value]*rangeIter
	over      []Value // phi values of the block being entered, when several edges were joined
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = append([]Value(nil), f.env...)
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	n.loops = make(map[*ssa.BasicBlock]*loopCtx, len(f.loops))
	for k, v := range f.loops {
		n.loops[k] = v
	}
	return &n
}
func (f *Frame) set(v ssa.Value, x Value) {
	f.env[f.fi.idx[v]] = x
}

type pathAbort struct{ why string }

var debugTrace = os.Getenv("GOCV_TRACE") != ""

// feasible reports whether pc ∧ c may be satisfiable.
func (e *Engine) feasible(st *State, c *Term) bool {
	if c.isFalse() {
		return false
	}
	if st.facts[Not(c)] {
		return false
	}
	e.checkDeadline()
	r, _ := e.solver.Check(st.pc, c, e.feasTO, nil)
	return r != "unsat"
}
func (e *Engine) valid(st *State, c *Term) bool {
	if c.isTrue() || st.facts[c] {
		return true
	}
	if c.Op == "and" {
		for _, a := range c.Args {
			if !e.valid(st, a) {
				return false
			}
		}
		return true
	}
	e.checkDeadline()
	r, _ := e.solver.Check(st.pc, Not(c), e.feasTO, nil)
	return r == "unsat"
}
func (e *Engine) checkDeadline() {
	if time.Now().After(e.deadline) {
		panic(unsup("time limit for this contract exceeded"))
	}
}

// fork explores c then not c.
func (e *Engine) fork(st *State, c *Term, yes, no func(st *State)) {
	if c.isTrue() {
		yes(st)
		return
	}
	if c.isFalse() {
		no(st)
		return
	}
	ty := e.feasible(st, c)
	if !ty {
		st.assumeImplied(Not(c))
		no(st)
		return
	}
	tn := e.feasible(st, Not(c))
	if !tn {
		st.assumeImplied(c)
		yes(st)
		return
	}
	s1 := st.clone()
	s1.assume(c)
	s1.pc.fork = true
	yes(s1)
	st.assume(Not(c))
	st.pc.fork = true
	no(st)
}

// concretize forks over the values lo..hi-1 of an Int term; others are dropped only if infeasible.
func (e *Engine) concretize(st *State, t *Term, lo, hi int64, k func(st *State, v int64)) {
	if t.N != nil {
		k(st, t.N.Int64())
		return
	}
	if e.feasible(st, Or(Lt(t, TI(lo)), Ge(t, TI(hi)))) {
		panic(unsup("value %s outside the range it can be case-split over", t))
	}
	for v := lo; v < hi; v++ {
		c := Eq(t, TI(v))
		if e.feasible(st, c) {
			s := st.clone()
			s.assume(c)
			k(s, v)
		}
	}
}

func (e *Engine) pos(in interface{ Pos() token.Pos }) string {
	p := in.Pos()
	if !p.IsValid() {
		return ""
	}
	q := e.sh.fset.Position(p)
	f := q.Filename
	f = strings.TrimPrefix(f, e.sh.repo+"/")
	f = strings.TrimPrefix(f, e.sh.verif+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// ---- values of operands ----
func (e *Engine) val(st *State, fr *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Function:
		return FuncV{Fn: x}
	case *ssa.Global:
		return Ptr{Obj: e.sh.globalObj(x)}
	case *ssa.Builtin:
		return FuncV{Bi: x}
	}
	i, ok := fr.fi.idx[v]
	if !ok {
		panic(unsup("value %s not in frame of %s", v.Name(), fr.fn))
	}
	r := fr.env[i]
	if r == nil {
		panic(unsup("undefined value %s in %s", v.Name(), fr.fn))
	}
	return r
}
func (e *Engine) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroValue(t)
	}
	if isIface(t) {
		panic(unsup("interface constant"))
	}
	switch {
	case isInt(t):
		v := constant.ToInt(c.Value)
		n, _ := new(big.Int).SetString(v.ExactString(), 10)
		return TBig(n)
	case isBool(t):
		return TBool(constant.BoolVal(c.Value))
	case isString(t):
		return concStr(constant.StringVal(c.Value))
	case floatBits(t) > 0:
		f := constant.ToFloat(c.Value)
		var r *big.Rat
		if floatBits(t) == 32 {
			g, _ := constant.Float32Val(f)
			r = new(big.Rat).SetFloat64(float64(g))
		} else {
			g, _ := constant.Float64Val(f)
			r = new(big.Rat).SetFloat64(g)
		}
		return FloatV{TI(0), TRat(r)}
	case isComplex(t):
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return StructV{FloatV{TI(0), TRat(new(big.Rat).SetFloat64(re))}, FloatV{TI(0), TRat(new(big.Rat).SetFloat64(im))}}
	}
	if tp, ok := t.(*types.TypeParam); ok {
		panic(unsup("constant of type parameter %s", tp))
	}
	panic(unsup("constant %s", c))
}

// ---- memory access ----
func (e *Engine) rtPanic(st *State, p Pan, msg string) {
	id := internID("rtpanic:"+msg, nil, nil)
	p(st, IfaceV{Typ: e.sh.runtimeErrType, Val: StructV{concStr(msg)}})
	_ = id
}

// guard: continue with k under ok; panic otherwise.
func (e *Engine) guard(st *State, ok *Term, msg string, p Pan, k func(st *State)) {
	if ok.isTrue() {
		k(st)
		return
	}
	e.fork(st, ok, k, func(s *State) { e.rtPanic(s, p, msg) })
}

func (e *Engine) load(st *State, ptr Value, t types.Type, p Pan, k func(st *State, v Value)) {
	pt, ok := ptr.(Ptr)
	if !ok {
		panic(unsup("load through %T", ptr))
	}
	if pt.Sym != nil {
		panic(unsup("load through an unknown pointer"))
	}
	if pt.Obj == 0 {
		e.rtPanic(st, p, "nil pointer dereference")
		return
	}
	o := st.obj(pt.Obj)
	st.noteRead(pt)
	switch o.Kind {
	case 'c':
		e.loadPath(st, o.Val, pt.Path, k)
	case 'a':
		if len(pt.Path) == 0 {
			// whole Go array
			k(st, ArrayV(append([]Value(nil), o.Vec...)))
			return
		}
		e.loadElem(st, o, pt.Path[0].Idx, func(st *State, v Value) { e.loadPath(st, v, pt.Path[1:], k) })
	default:
		panic(unsup("load of object kind %c", o.Kind))
	}
}
func (e *Engine) loadElem(st *State, o *Obj, idx *Term, k func(st *State, v Value)) {
	if o.Sym != nil {
		v := st.decode(o.Sym.sel(idx), o.Typ)
		k(st, v)
		return
	}
	e.indexVec(st, o.Vec, idx, k)
}
func (e *Engine) indexVec(st *State, vec []Value, idx *Term, k func(st *State, v Value)) {
	if idx.N != nil {
		i := int(idx.N.Int64())
		if i < 0 || i >= len(vec) {
			panic(unsup("vector index %d of %d", i, len(vec)))
		}
		k(st, vec[i])
		return
	}
	if len(vec) == 0 {
		return
	}
	if len(vec) <= 64 {
		r := vec[len(vec)-1]
		okk := true
		for i := len(vec) - 2; i >= 0; i-- {
			r, okk = st.merge(Eq(idx, TI(int64(i))), vec[i], r)
			if !okk {
				break
			}
		}
		if okk {
			k(st, r)
			return
		}
	}
	e.concretize(st, idx, 0, int64(len(vec)), func(s *State, i int64) { k(s, vec[i]) })
}
func (e *Engine) loadPath(st *State, v Value, path []PE, k func(st *State, v Value)) {
	if len(path) == 0 {
		k(st, v)
		return
	}
	switch x := v.(type) {
	case StructV:
		e.loadPath(st, x[path[0].Field], path[1:], k)
	case ArrayV:
		e.indexVec(st, x, path[0].Idx, func(st *State, v Value) { e.loadPath(st, v, path[1:], k) })
	default:
		panic(unsup("path into %T", v))
	}
}
func (e *Engine) store(st *State, ptr Value, v Value, p Pan, k func(st *State)) {
	pt, ok := ptr.(Ptr)
	if !ok || pt.Sym != nil {
		panic(unsup("store through an unknown pointer %T", ptr))
	}
	if pt.Obj == 0 {
		e.rtPanic(st, p, "nil pointer dereference")
		return
	}
	o := st.obj(pt.Obj)
	if o.Ro {
		panic(unsup("store into a read-only snapshot"))
	}
	st.noteWrite(pt)
	n := *o
	switch o.Kind {
	case 'c':
		if o.Src != 0 && st.hasObj(o.Src) { // the view of a rational changes: so does the rational
			r := *st.obj(o.Src)
			r.Val = TVar(e.freshName("rat"), SReal)
			st.setObj(o.Src, &r)
			n.Src = 0
		}
		if isBigRat(o.Typ) && len(pt.Path) == 0 {
			for id, w := range st.heap {
				if w.Src == pt.Obj {
					h := *w
					h.Val, h.Src = TVar(e.freshName("num"), SInt), 0
					st.setObj(id, &h)
				}
			}
		}
		n.Val = e.storePath(st, o.Val, pt.Path, v)
		st.setObj(pt.Obj, &n)
	case 'a':
		if len(pt.Path) == 0 {
			n.Vec = append([]Value(nil), v.(ArrayV)...)
			st.setObj(pt.Obj, &n)
			break
		}
		idx := pt.Path[0].Idx
		if o.Sym != nil {
			nv := v
			if len(pt.Path) > 1 {
				old := st.decode(o.Sym.sel(idx), o.Typ)
				nv = e.storePath(st, old, pt.Path[1:], v)
			}
			n.Sym = o.Sym.sto(idx, st.encode(nv, o.Typ))
			st.setObj(pt.Obj, &n)
			break
		}
		if idx.N == nil {
			if !e.storeVecSym(st, o, pt, idx, v) {
				e.concretize(st, idx, 0, int64(len(o.Vec)), func(s *State, i int64) {
					np := Ptr{Obj: pt.Obj, Path: append([]PE{{Idx: TI(i)}}, pt.Path[1:]...)}
					e.store(s, np, v, p, k)
				})
				return
			}
			break
		}
		i := int(idx.N.Int64())
		n.Vec = append([]Value(nil), o.Vec...)
		n.Vec[i] = e.storePath(st, o.Vec[i], pt.Path[1:], v)
		st.setObj(pt.Obj, &n)
	default:
		panic(unsup("store to object kind %c", o.Kind))
	}
	k(st)
}
func (e *Engine) storeVecSym(st *State, o *Obj, pt Ptr, idx *Term, v Value) bool {
	n := *o
	n.Vec = make([]Value, len(o.Vec))
	for i := range o.Vec {
		nv := e.storePath(st, o.Vec[i], pt.Path[1:], v)
		m, ok := st.merge(Eq(idx, TI(int64(i))), nv, o.Vec[i])
		if !ok {
			return false
		}
		n.Vec[i] = m
	}
	st.setObj(pt.Obj, &n)
	return true
}
func (e *Engine) storePath(st *State, old Value, path []PE, v Value) Value {
	if len(path) == 0 {
		return v
	}
	switch x := old.(type) {
	case StructV:
		n := append(StructV(nil), x...)
		n[path[0].Field] = e.storePath(st, x[path[0].Field], path[1:], v)
		return n
	case ArrayV:
		idx := path[0].Idx
		n := append(ArrayV(nil), x...)
		if idx.N != nil {
			i := int(idx.N.Int64())
			n[i] = e.storePath(st, x[i], path[1:], v)
			return n
		}
		for i := range n {
			m, ok := st.merge(Eq(idx, TI(int64(i))), e.storePath(st, x[i], path[1:], v), x[i])
			if !ok {
				panic(unsup("symbolic array store"))
			}
			n[i] = m
		}
		return n
	}
	panic(unsup("store path into %T", old))
}

// ---- calls ----
func (e *Engine) callValue(st *State, f Value, args []Value, site ssa.Instruction, k Ret, p Pan) {
	fv, ok := f.(FuncV)
	if !ok {
		panic(unsup("call of %T", f))
	}
	if fv.Nat != nil {
		fv.Nat(e, st, args, k, p)
		return
	}
	if fv.Sym != nil {
		e.callSym(st, fv.Sym, args, k)
		return
	}
	if fv.Fn == nil {
		e.rtPanic(st, p, "call of nil function")
		return
	}
	e.callFn(st, fv.Fn, fv.Bind, args, site, k, p, nil)
}

// callSym applies an arbitrary but fixed (pure, deterministic) function.
func (e *Engine) callSym(st *State, sf *SymFunc, args []Value, k Ret) {
	if sf.Hook != nil {
		sf.Hook(st, args, k)
		return
	}
	var ls []*Term
	if sf.Id != nil {
		ls = append(ls, sf.Id)
	}
	for i, a := range args {
		st.encode(a, sf.Sig.Params().At(i).Type()).leaves(&ls)
	}
	name := sf.Name
	rs := sf.Sig.Results()
	out := make(TupleV, rs.Len())
	for r := 0; r < rs.Len(); r++ {
		j := 0
		tr := treeShape(rs.At(r).Type(), 0, func(s Sort) *Term {
			j++
			return TApp(fmt.Sprintf("%s#%d.%d", name, r, j), s, ls...)
		})
		out[r] = st.decode(tr, rs.At(r).Type())
	}
	switch rs.Len() {
	case 0:
		k(st, TupleV{})
	case 1:
		k(st, out[0])
	default:
		k(st, out)
	}
}

func (e *Engine) callFn(st *State, fn *ssa.Function, bind, args []Value, site ssa.Instruction, k Ret, p Pan, recFr *Frame) {
	if h := e.intrinsic(fn); h != nil {
		h(e, &Call{st: st, fn: fn, args: args, bind: bind, site: site, k: k, p: p, fr: recFr})
		return
	}
	if fn.Blocks == nil {
		panic(unsup("external function %s has no contract", fn.String()))
	}
	if fn.Name() == "init" && fn.Synthetic != "" && fn.Pkg != nil && !e.sh.isOurs(fn.Pkg.Pkg.Path()) {
		k(st, TupleV{})
		return
	}
	pkgPath := fnPkgPath(fn)
	if r, ok := e.byContract[fn]; ok {
		if e.sh.isRepo(pkgPath) {
			e.funcs[fnKey(fn)]++
		}
		e.callValue(st, r, args, site, k, p)
		return
	}
	if !e.sh.isOurs(pkgPath) && !stdInline(pkgPath, fn) {
		panic(unsup("external function %s has no contract", fn.String()))
	}
	if e.sh.isRepo(pkgPath) {
		e.funcs[fnKey(fn)]++
	} else if !e.sh.isOurs(pkgPath) {
		e.externs["inlined std source: "+fnKey(fn)]++
	}
	if joinFns[fnOrigKey(fn)] {
		e.joined(st, resultType(fn), func(s *State, k2 Ret) { e.enter(s, fn, bind, args, k2, p, recFr) }, k)
		return
	}
	e.enter(st, fn, bind, args, k, p, recFr)
}

// callFn0 executes the body of fn without consulting contracts.
func (e *Engine) callFn0(st *State, fn *ssa.Function, k Ret, p Pan) {
	e.enter(st, fn, nil, nil, k, p, nil)
}

func (e *Engine) enter(st *State, fn *ssa.Function, bind, args []Value, k Ret, p Pan, recFr *Frame) {
	if st.depth > e.callDepthMax {
		panic(unsup("call depth exceeded in %s", fn))
	}
	st.depth++
	fi := infoOf(fn)
	fr := &Frame{fn: fn, fi: fi, env: make([]Value, fi.n), loops: map[*ssa.BasicBlock]*loopCtx{}, callerFr: recFr}
	d := st.depth
	fr.k = func(s *State, r Value) { s.depth = d - 1; k(s, r) }
	fr.p = func(s *State, r Value) { s.depth = d - 1; p(s, r) }
	if len(args) != len(fn.Params) {
		panic(unsup("arity of %s: %d vs %d", fn, len(args), len(fn.Params)))
	}
	for i, a := range args {
		fr.env[i] = a
	}
	for i, b := range bind {
		fr.env[len(fn.Params)+i] = b
	}
	fr.block = fn.Blocks[0]
	e.run(st, fr, 0)
}
func fnPkgPath(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path()
		}
	}
	// synthetic wrappers: use the receiver's package when there is one
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	if fn.Synthetic != "" {
		return "synthetic"
	}
	return ""
}
func fnKey(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

// doPanic raises pv in frame fr: run its defers, then either recover or propagate.
func (e *Engine) doPanic(st *State, fr *Frame, pv Value) {
	nf := fr.clone()
	nf.panicking = &pv
	nf.recovered = false
	e.runDefers(st, nf, func(s *State, f *Frame) {
		if f.panicking == nil { // recovered
			if f.fn.Recover != nil {
				f.prev = f.block
				f.block = f.fn.Recover
				e.run(s, f, 0)
				return
			}
			// no named results: return zero values
			rs := f.fn.Signature.Results()
			switch rs.Len() {
			case 0:
				f.k(s, TupleV{})
			case 1:
				f.k(s, zeroValue(rs.At(0).Type()))
			default:
				f.k(s, zeroValue(rs))
			}
			return
		}
		f.p(s, *f.panicking)
	})
}

func (e *Engine) runDefers(st *State, fr *Frame, k func(*State, *Frame)) {
	if len(fr.defers) == 0 {
		k(st, fr)
		return
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[: len(fr.defers)-1 : len(fr.defers)-1]
	// recovery is communicated through a ghost cell so that it is path-local
	cell := st.alloc(&Obj{Kind: 'c', Val: TFalse})
	rec := &recoverCtx{cell: cell, fr: fr}
	cont := func(s *State, _ Value) {
		f := fr.clone()
		if fr.panicking != nil && s.obj(cell).Val.(*Term).isTrue() {
			f.panicking = nil
		}
		delete(s.heap, cell)
		e.runDefers(s, f, k)
	}
	pan := func(s *State, pv Value) {
		f := fr.clone()
		delete(s.heap, cell)
		f.panicking = &pv
		e.runDefers(s, f, k)
	}
	e.dispatchDeferred(st, d, rec, cont, pan)
}

type recoverCtx struct {
	cell int
	fr   *Frame
}

func (e *Engine) dispatchDeferred(st *State, d deferred, rec *recoverCtx, k Ret, p Pan) {
	if d.inv != nil {
		e.invoke(st, d.recv, d.inv, d.args, d.site, k, p)
		return
	}
	if d.fv.Bi != nil {
		e.builtinValue(st, d.fv.Bi, d.args, d.site, k, p)
		return
	}
	if d.fv.Fn != nil && d.fv.Nat == nil {
		// give the deferred function access to recover(): only a direct call counts
		fn := d.fv.Fn
		if h := e.intrinsic(fn); h == nil && fn.Blocks != nil {
			e.callFn(st, fn, d.fv.Bind, d.args, d.site, k, p, &Frame{iters: nil, fn: nil, callerFr: nil, panicking: nil, loops: nil, fi: nil, env: []Value{rec}})
			return
		}
	}
	e.callValue(st, d.fv, d.args, d.site, k, p)
}

// invoke calls method m on an interface value.
func (e *Engine) invoke(st *State, recv Value, m *types.Func, args []Value, site ssa.Instruction, k Ret, p Pan) {
	iv, ok := recv.(IfaceV)
	if !ok {
		panic(unsup("invoke on %T", recv))
	}
	if iv.Sym != nil {
		if h := e.symMethod(st, iv, m, args, k, p); h {
			return
		}
		panic(unsup("method %s on an unknown interface value", m.Name()))
	}
	if iv.Typ == nil {
		e.rtPanic(st, p, "nil interface method call")
		return
	}
	fn := e.sh.lookupMethod(iv.Typ, m)
	if fn == nil {
		panic(unsup("no method %s on %s", m.Name(), iv.Typ))
	}
	e.callFn(st, fn, nil, append([]Value{iv.Val}, args...), site, k, p, nil)
}

// ---- the main loop ----
func (e *Engine) run(st *State, fr *Frame, ip int) {
	for {
		if ip == 0 {
			// block entry: loop handling
			if l, ok := fr.fi.loops[fr.block]; ok && !fr.skipLoop {
				if e.enterLoop(st, fr, l) {
					return
				}
			}
			fr.skipLoop = false
			// phis
			n := 0
			var vals []Value
			over := fr.over
			fr.over = nil
			for _, in := range fr.block.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				n++
				if over != nil {
					vals = append(vals, over[n-1])
					continue
				}
				pi := -1
				for i, pb := range fr.block.Preds {
					if pb == fr.prev {
						pi = i
						break
					}
				}
				if pi < 0 {
					panic(unsup("phi without predecessor"))
				}
				vals = append(vals, e.val(st, fr, ph.Edges[pi]))
			}
			for i := 0; i < n; i++ {
				fr.set(fr.block.Instrs[i].(*ssa.Phi), vals[i])
			}
			ip = n
		}
		if ip < 0 {
			ip = 0
		}
		e.steps++
		if e.steps&0x3ff == 0 {
			e.checkDeadline()
		}
		in := fr.block.Instrs[ip]
		if debugTrace {
			fmt.Fprintf(os.Stderr, "%s%s b%d: %s\n", strings.Repeat(" ", st.depth), fr.fn.Name(), fr.block.Index, in)
		}
		switch x := in.(type) {
		case *ssa.DebugRef:
			ip++
		case *ssa.Jump:
			if e.leave(st, fr, fr.block.Succs[0]) {
				return
			}
			ip = 0
		case *ssa.If:
			c := e.val(st, fr, x.Cond).(*Term)
			if c.isConst() {
				s := fr.block.Succs[1]
				if c.isTrue() {
					s = fr.block.Succs[0]
				}
				if e.leave(st, fr, s) {
					return
				}
				ip = 0
				continue
			}
			ty, tn := e.feasible(st, c), false
			if ty {
				tn = e.feasible(st, Not(c))
			} else {
				tn = true
			}
			if ty && tn {
				if e.undecided(st, fr) {
					return
				}
				if e.tryMerge(st, fr, c) {
					return
				}
				s1, f1 := st.clone(), fr.clone()
				s1.assume(c)
				s1.pc.fork = true
				if !e.leave(s1, f1, fr.block.Succs[0]) {
					e.run(s1, f1, 0)
				}
				st.assume(Not(c))
				st.pc.fork = true
				if e.leave(st, fr, fr.block.Succs[1]) {
					return
				}
				ip = 0
				continue
			}
			s := fr.block.Succs[1]
			if ty {
				s = fr.block.Succs[0]
				st.assumeImplied(c)
			} else {
				st.assumeImplied(Not(c))
			}
			if e.leave(st, fr, s) {
				return
			}
			ip = 0
		case *ssa.Return:
			var r Value
			switch len(x.Results) {
			case 0:
				r = TupleV{}
			case 1:
				r = e.val(st, fr, x.Results[0])
			default:
				t := TupleV{}
				for _, v := range x.Results {
					t = append(t, e.val(st, fr, v))
				}
				r = t
			}
			fr.k(st, r)
			return
		case *ssa.Panic:
			e.doPanic(st, fr, e.val(st, fr, x.X))
			return
		case *ssa.RunDefers:
			nip := ip + 1
			if len(fr.defers) == 0 {
				ip = nip
				continue
			}
			e.runDefers(st, fr, func(s *State, f *Frame) {
				if f.panicking != nil {
					// a deferred call panicked on the normal exit path
					e.doPanic(s, f, *f.panicking)
					return
				}
				e.run(s, f, nip)
			})
			return
		case *ssa.Defer:
			d := deferred{site: x}
			c := x.Call
			for _, a := range c.Args {
				d.args = append(d.args, e.val(st, fr, a))
			}
			if c.IsInvoke() {
				d.inv = c.Method
				d.recv = e.val(st, fr, c.Value)
			} else {
				d.fv = e.val(st, fr, c.Value).(FuncV)
			}
			fr.defers = append(fr.defers, d)
			ip++
		case *ssa.Store:
			done := false
			nip := ip + 1
			checkBigCopy(x.Val.Type(), e.val(st, fr, x.Val))
			e.storeK(st, fr, e.val(st, fr, x.Addr), e.val(st, fr, x.Val), nip, &done)
			if done {
				return
			}
			ip = nip
		case *ssa.MapUpdate:
			nip := ip + 1
			e.mapUpdate(st, e.val(st, fr, x.Map), e.val(st, fr, x.Key), e.val(st, fr, x.Value), x, e.framePan(fr), func(s *State) { e.run(s, fr.clone(), nip) })
			return
		case *ssa.Go:
			nip := ip + 1
			e.goStmt(st, fr, x, func(s *State) { e.run(s, fr.clone(), nip) })
			return
		case *ssa.Send:
			panic(unsup("channel send"))
		case ssa.Value:
			done, res := e.instr(st, fr, x, ip)
			if done {
				return
			}
			fr.set(x, res)
			ip++
		default:
			panic(unsup("instruction %T", in))
		}
	}
}

func (e *Engine) framePan(fr *Frame) Pan {
	return func(s *State, pv Value) { e.doPanic(s, fr, pv) }
}

// storeK stores, continuing inline when the store does not fork.
func (e *Engine) storeK(st *State, fr *Frame, ptr, v Value, nip int, done *bool) {
	called := 0
	inline := false
	ret := false
	e.store(st, ptr, v, func(s *State, pv Value) { *done = true; e.doPanic(s, fr, pv) }, func(s *State) {
		called++
		if s == st && !ret {
			inline = true
			return
		}
		*done = true
		e.run(s, fr.clone(), nip)
	})
	ret = true
	if !inline {
		*done = true
	} else if *done {
		panic("storeK: mixed")
	}
}

// cont runs the rest of the frame after x got value v.
func (e *Engine) cont(fr *Frame, x ssa.Value, ip int) func(s *State, v Value) {
	return func(s *State, v Value) {
		f := fr.clone()
		f.set(x, v)
		e.run(s, f, ip+1)
	}
}

// instr executes a value-producing instruction. done=true: continuation already ran.
func (e *Engine) instr(st *State, fr *Frame, v ssa.Value, ip int) (bool, Value) {
	val := func(x ssa.Value) Value { return e.val(st, fr, x) }
	switch x := v.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		if at, ok := under(t).(*types.Array); ok && namedPath(t) == "" {
			z := zeroValue(t).(ArrayV)
			vec := []Value(z)
			if vec == nil {
				vec = []Value{}
			}
			id := st.alloc(&Obj{Kind: 'a', Typ: at.Elem(), Vec: vec, Origin: e.pos(x)})
			return false, Ptr{Obj: id}
		}
		id := st.alloc(&Obj{Kind: 'c', Typ: t, Val: zeroValue(t), Origin: e.pos(x)})
		return false, Ptr{Obj: id}
	case *ssa.BinOp:
		return e.inlineK(st, fr, x, ip, func(p Pan, k func(*State, Value)) {
			e.binop(st, x.Op, val(x.X), val(x.Y), x.X.Type(), x.Y.Type(), x.Type(), x, p, k)
		})
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			return e.inlineK(st, fr, x, ip, func(p Pan, k func(*State, Value)) {
				e.load(st, val(x.X), x.Type(), p, k)
			})
		case token.NOT:
			return false, Not(val(x.X).(*Term))
		case token.SUB:
			switch a := val(x.X).(type) {
			case *Term:
				return false, e.wrapInt(st, Neg(a), x.Type())
			case FloatV:
				return false, FloatV{Ite(Eq(a.Cls, TI(1)), TI(2), Ite(Eq(a.Cls, TI(2)), TI(1), a.Cls)), Neg(a.Val)}
			}
		case token.XOR:
			// ^x = -x-1 (signed), max-x (unsigned)
			a := val(x.X).(*Term)
			_, signed, _ := intBits(x.Type())
			if signed {
				return false, Sub(Neg(a), TI(1))
			}
			_, hi := intRange(x.Type())
			return false, Sub(TBig(hi), a)
		case token.ARROW:
			panic(unsup("channel receive"))
		}
		panic(unsup("unop %s", x))
	case *ssa.Call:
		return e.call(st, fr, x, ip)
	case *ssa.ChangeInterface:
		return false, val(x.X)
	case *ssa.ChangeType:
		return false, val(x.X)
	case *ssa.Convert:
		return e.inlineK(st, fr, x, ip, func(p Pan, k func(*State, Value)) {
			e.convert(st, val(x.X), x.X.Type(), x.Type(), k)
		})
	case *ssa.MultiConvert:
		return e.inlineK(st, fr, x, ip, func(p Pan, k func(*State, Value)) {
			e.convert(st, val(x.X), x.X.Type(), x.Type(), k)
		})
	case *ssa.MakeInterface:
		return false, IfaceV{Typ: types.Unalias(x.X.Type()), Val: val(x.X)}
	case *ssa.MakeClosure:
		f := FuncV{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Bind = append(f.Bind, val(b))
		}
		return false, f
	case *ssa.MakeMap:
		id := st.alloc(&Obj{Kind: 'm', Typ: x.Type(), MLen: TI(0), Origin: e.pos(x)})
		return false, MapV{Obj: id}
	case *ssa.MakeSlice:
		return e.inlineK(st, fr, x, ip, func(p Pan, k func(*State, Value)) {
			e.makeSlice(st, under(x.Type()).(*types.Slice).Elem(), val(x.Len).(*Term), val(x.Cap).(*Term), p, k)
		})
	case *ssa.Extract:
		return false, val(x.Tuple).(TupleV)[x.Index]
	case *ssa.Field:
		return false, val(x.X).(StructV)[x.Field]
	case *ssa.FieldAddr:
		pt, ok := val(x.X).(Ptr)
		if !ok || pt.Sym != nil {
			panic(unsup("field address of an unknown pointer"))
		}
		if pt.Obj == 0 {
			e.doPanicRT(st, fr, "nil pointer dereference")
			return true, nil
		}
		return false, Ptr{Obj: pt.Obj, Path: append(append([]PE(nil), pt.Path...), PE{Field: x.Field})}
	case *ssa.Index:
		idx := val(x.Index).(*Term)
		switch a := val(x.X).(type) {
		case *StrV:
			return e.inlineK(st, fr, x, ip, func(p Pan, k func(*State, Value)) {
				e.expand(st, a, func(st *State, a *StrV) {
					e.guard(st, And(Le(TI(0), idx), Lt(idx, a.Len)), "index out of range", p, func(s *State) {
						k(s, s.byteAt(a, idx))
					})
				})
			})
		case ArrayV:
			return e.inlineK(st, fr, x, ip, func(p Pan, k func(*State, Value)) {
				e.guard(st, And(Le(TI(0), idx), Lt(idx, TI(int64(len(a))))), "index out of range", p, func(s *State) {
					e.indexVec(s, a, idx, k)
				})
			})
		}
		panic(unsup("index of %T", val(x.X)))
	case *ssa.IndexAddr:
		idx := val(x.Index).(*Term)
		switch a := val(x.X).(type) {
		case SliceV:
			return e.inlineK(st, fr, x, ip, func(p Pan, k func(*State, Value)) {
				e.guard(st, And(Le(TI(0), idx), Lt(idx, a.Len)), "index out of range", p, func(s *State) {
					k(s, Ptr{Obj: a.Obj, Path: []PE{{Field: -1, Idx: Add(a.Off, idx)}}})
				})
			})
		case Ptr:
			at := under(under(x.X.Type()).(*types.Pointer).Elem()).(*types.Array)
			if a.Obj == 0 {
				e.doPanicRT(st, fr, "nil pointer dereference")
				return true, nil
			}
			return e.inlineK(st, fr, x, ip, func(p Pan, k func(*State, Value)) {
				e.guard(st, And(Le(TI(0), idx), Lt(idx, TI(at.Len()))), "index out of range", p, func(s *State) {
					k(s, Ptr{Obj: a.Obj, Path: append(append([]PE(nil), a.Path...), PE{Field: -1, Idx: idx})})
				})
			})
		}
		panic(unsup("indexaddr of %T", val(x.X)))
	case *ssa.Lookup:
		return e.inlineK(st, fr, x, ip, func(p Pan, k func(*State, Value)) {
			if s, ok := val(x.X).(*StrV); ok {
				idx := val(x.Index).(*Term)
				e.expand(st, s, func(st *State, s *StrV) {
					e.guard(st, And(Le(TI(0), idx), Lt(idx, s.Len)), "index out of range", p, func(st *State) { k(st, st.byteAt(s, idx)) })
				})
				return
			}
			e.mapLookup(st, val(x.X), val(x.Index), under(x.X.Type()).(*types.Map), x.CommaOk, k)
		})
	case *ssa.Slice:
		return e.inlineK(st, fr, x, ip, func(p Pan, k func(*State, Value)) {
			var lo, hi, max *Term
			if x.Low != nil {
				lo = val(x.Low).(*Term)
			}
			if x.High != nil {
				hi = val(x.High).(*Term)
			}
			if x.Max != nil {
				max = val(x.Max).(*Term)
			}
			e.slice(st, val(x.X), x.X.Type(), lo, hi, max, p, k)
		})
	case *ssa.TypeAssert:
		return e.inlineK(st, fr, x, ip, func(p Pan, k func(*State, Value)) {
			e.typeAssert(st, val(x.X), x.AssertedType, x.CommaOk, p, k)
		})
	case *ssa.Range:
		return e.inlineK(st, fr, x, ip, func(p Pan, k func(*State, Value)) { e.rangeStart(st, val(x.X), x.X.Type(), k) })
	case *ssa.Next:
		return e.inlineK(st, fr, x, ip, func(p Pan, k func(*State, Value)) { e.rangeNext(st, fr, val(x.Iter), x, k) })
	case *ssa.MakeChan:
		id := st.freshInt("chan", nil)
		st.assume(Le(TI(1), id))
		return false, OpaqueV{x.Type(), id}
	case *ssa.SliceToArrayPointer, *ssa.Select:
		panic(unsup("instruction %T", v))
	}
	panic(unsup("instruction %T", v))
}

func (e *Engine) doPanicRT(st *State, fr *Frame, msg string) {
	e.rtPanic(st, e.framePan(fr), msg)
}

// inlineK runs f; if f calls its continuation exactly once with the same state synchronously
// as its last action, execution continues inline, otherwise through run.
func (e *Engine) inlineK(st *State, fr *Frame, x ssa.Value, ip int, f func(p Pan, k func(*State, Value))) (bool, Value) {
	var res Value
	inl := false
	ret := false
	done := false
	f(func(s *State, pv Value) { done = true; e.doPanic(s, fr, pv) }, func(s *State, v Value) {
		if s == st && !ret && !inl {
			// may be followed by another branch on a clone; the original state is always last
			inl = true
			res = v
			return
		}
		if inl {
			panic("inlineK: continuation called after the inline one")
		}
		done = true
		e.cont(fr, x, ip)(s, v)
	})
	ret = true
	if inl {
		return false, res
	}
	_ = done
	return true, nil
}

func (e *Engine) call(st *State, fr *Frame, x *ssa.Call, ip int) (bool, Value) {
	c := x.Common()
	args := make([]Value, len(c.Args))
	for i, a := range c.Args {
		args[i] = e.val(st, fr, a)
	}
	k := func(s *State, v Value) {
		f := fr.clone()
		f.set(x, v)
		e.run(s, f, ip+1)
	}
	p := e.framePan(fr)
	if c.IsInvoke() {
		e.invoke(st, e.val(st, fr, c.Value), c.Method, args, x, k, p)
		return true, nil
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		if b.Name() == "recover" {
			return false, e.doRecover(st, fr)
		}
		return e.inlineK(st, fr, x, ip, func(p Pan, k func(*State, Value)) {
			var ats []types.Type
			for _, a := range c.Args {
				ats = append(ats, a.Type())
			}
			e.builtin(st, b.Name(), args, ats, x.Type(), x, p, k)
		})
	}
	if fn := c.StaticCallee(); fn != nil {
		var bind []Value
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			bind = e.val(st, fr, mc).(FuncV).Bind
		}
		// pure fast path for intrinsics that return immediately
		e.callFn(st, fn, bind, args, x, k, p, nil)
		return true, nil
	}
	e.callValue(st, e.val(st, fr, c.Value), args, x, k, p)
	return true, nil
}

func (e *Engine) doRecover(st *State, fr *Frame) Value {
	if fr.callerFr == nil || len(fr.callerFr.env) == 0 {
		return IfaceV{}
	}
	rc, ok := fr.callerFr.env[0].(*recoverCtx)
	if !ok || rc.fr.panicking == nil {
		return IfaceV{}
	}
	if st.obj(rc.cell).Val.(*Term).isTrue() {
		return IfaceV{}
	}
	st.setObj(rc.cell, &Obj{Kind: 'c', Val: TTrue})
	pv := *rc.fr.panicking
	if iv, ok := pv.(IfaceV); ok {
		return iv
	}
	return IfaceV{Sym: st.freshInt("panicval", nil)}
}

// ---- obligations ----
func (e *Engine) assert(st *State, label, where string, c *Term) {
	if e.dry > 0 {
		st.assume(c)
		return
	}
	o := &Obligation{Spec: e.spec, Label: label, Where: where}
	t0 := time.Now()
	// conjunctions are split so that each part is a separate query
	status, backend := "discharged", "simplifier"
	var failing *Term
	parts := []*Term{c}
	if c.Op == "and" {
		parts = c.Args
	}
	cur := st
	for _, part := range parts {
		if part.isTrue() || cur.facts[part] {
			continue
		}
		e.checkDeadline()
		r, _ := e.solver.Check(cur.pc, Not(part), e.proofTO, nil)
		backend = "z3-new(incremental)"
		if r == "unknown" {
			r, backend = portfolio(script(cur.pc, Not(part), nil), e.portfolioTO())
		}
		if r == "unsat" {
			continue
		}
		failing = part
		if r == "sat" {
			status = "failed"
		} else {
			status = "unknown"
		}
		break
	}
	o.Status, o.Backend, o.Time = status, backend, time.Since(t0)
	if status == "discharged" {
		e.backends[backend]++
	} else {
		e.failed++
		if os.Getenv("GOCV_PC") != "" {
			for _, t := range st.pc.list() {
				fmt.Fprintln(os.Stderr, "PC", t)
			}
			fmt.Fprintln(os.Stderr, "GOAL", failing)
		}
		o.Model = e.model(st, Not(failing))
		if len(o.Model) == 0 {
			o.Model = nil
		}
		d := failing.String()
		if len(d) > 2000 {
			d = d[:2000] + "..."
		}
		o.Detail = d
	}
	e.obl = append(e.obl, o)
	st.assume(c)
	if e.failed >= e.maxFail {
		panic(pathAbort{"enough failures"})
	}
}
func (e *Engine) portfolioTO() time.Duration {
	if e.tierThorough {
		return 60 * time.Second
	}
	return 20 * time.Second
}

// model extracts values for the draws of this path.
func (e *Engine) model(st *State, neg *Term) map[string]interface{} {
	if len(st.draws) == 0 {
		return nil
	}
	// try to keep drawn slices small
	extra := neg
	var small []*Term
	for _, d := range st.draws {
		small = append(small, d.smallness(st)...)
	}
	pcx := st.pc
	tryWith := func(t *Term) (string, *PC) {
		r, _ := e.solver.Check(pcx, t, 5000, nil)
		return r, pcx.push(t)
	}
	if len(small) > 0 {
		if r, _ := tryWith(And(append([]*Term{neg}, small...)...)); r == "sat" {
			extra = And(append([]*Term{neg}, small...)...)
		}
	}
	var want []*Term
	for _, d := range st.draws {
		want = append(want, d.terms(st)...)
	}
	if len(want) == 0 {
		want = []*Term{TTrue}
	}
	r, vals := e.solver.Check(pcx, extra, 8000, want)
	if r != "sat" || len(vals) != len(want) {
		return nil
	}
	m := map[string]string{}
	for i, w := range want {
		m[w.String()] = vals[i]
	}
	// second round: function tables
	out := map[string]interface{}{}
	for _, d := range st.draws {
		out[d.Name] = d.render(st, m)
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
