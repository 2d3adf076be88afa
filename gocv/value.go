package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// ---- values ----
type Value interface{}

// *Term           : integers, booleans
type FloatV struct{ Cls, Val *Term } // Cls: 0 finite, 1 +Inf, 2 -Inf, 3 NaN ; Val Real
type StrV struct {
	Vec   []*Term // when IsVec
	IsVec bool
	T     *Term // opaque Str term (optional)
	Len   *Term
	Arr   *Term // Array Int Int
	Off   *Term
	Num   *Term // the integer this is the decimal text of, when known
}
type StructV []Value
type ArrayV []Value
type TupleV []Value
type PE struct { // path element
	Field int // >=0: struct field
	Idx   *Term
}
type Ptr struct {
	Obj  int
	Path []PE
	Sym  *Term // opaque pointer identity (Obj==0, Sym!=nil)
}
type SliceV struct {
	Obj           int
	Off, Len, Cap *Term
	Nil           *Term // Bool
}
type MapV struct {
	Obj int // 0: nil map
	Sym *Term
}
type IfaceV struct {
	Typ types.Type // nil with Sym==nil: nil interface
	Val Value
	Sym *Term // opaque interface value identity (Int); 0 means nil
}
type FuncV struct {
	Fn    *ssa.Function
	Bind  []Value
	Sym   *SymFunc
	Bi    *ssa.Builtin
	Nat   func(e *Engine, st *State, args []Value, k Ret, p Pan) // engine-native closure
	Bound *BoundM
}
type BoundM struct{ recv Value }
type SymFunc struct {
	Hook func(st *State, args []Value, k Ret)
	Name string
	Sig  *types.Signature
	Id   *Term
}
type OpaqueV struct { // value of a type the engine does not look into
	T  types.Type
	Id *Term
}

// BigF models *big.Float content abstractly.
type BigF struct{ Cls, Val *Term }

// ---- memory ----
type Obj struct {
	Kind byte // 'c' cell, 'a' array backing, 'm' map
	Typ  types.Type
	Val  Value
	Vec  []Value
	Sym  *Tree
	Ro   bool
	// map
	Ents []MapEnt
	// symbolic map: Dom (Array Int Bool), content tree (depth 1), keys encoded as Int
	Dom    *Term
	MLen   *Term
	SymM   bool
	Origin string // where it was allocated
	Prec   *Term  // big.Float: precision, nil when unknown
	Src    int    // big.Int that is a view of the numerator or denominator of this big.Rat
	BigVal *Term  // byte slice: the big-endian value, when known
}
type MapEnt struct{ K, V Value }

var objCounter int64 = 1

func newObjID() int { return int(atomic.AddInt64(&objCounter, 1)) }

type State struct {
	e        *Engine
	pc       *PC
	base     map[int]*Obj // immutable shared
	heap     map[int]*Obj
	divs     map[[2]*Term][2]*Term
	depth    int
	draws    []*Draw
	facts    map[*Term]bool
	nopanic  bool
	known    map[string]bool
	conc     *conc // goroutines that may be running
	logReads *footprint
	tags     []string
	invs     []*Template
	loopMark int
	growth   int
}

func (st *State) clone() *State {
	n := *st
	n.heap = make(map[int]*Obj, len(st.heap)+4)
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.divs = make(map[[2]*Term][2]*Term, len(st.divs))
	for k, v := range st.divs {
		n.divs[k] = v
	}
	n.facts = make(map[*Term]bool, len(st.facts))
	for k, v := range st.facts {
		n.facts[k] = v
	}
	n.draws = st.draws[:len(st.draws):len(st.draws)]
	n.invs = st.invs[:len(st.invs):len(st.invs)]
	n.tags = st.tags[:len(st.tags):len(st.tags)]
	return &n
}
func (st *State) obj(id int) *Obj {
	if o, ok := st.heap[id]; ok {
		return o
	}
	if o, ok := st.base[id]; ok {
		return o
	}
	panic(unsup("dangling object %d", id))
}
func (st *State) hasObj(id int) bool {
	if _, ok := st.heap[id]; ok {
		return true
	}
	_, ok := st.base[id]
	return ok
}
func (st *State) setObj(id int, o *Obj) { st.heap[id] = o }
func (st *State) alloc(o *Obj) int {
	id := newObjID()
	st.heap[id] = o
	return id
}
func (st *State) assume(t *Term) {
	if t.isTrue() || st.facts[t] {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			st.assume(a)
		}
		return
	}
	st.facts[t] = true
	st.pc = st.pc.push(t)
}

// assumeImplied adds a fact that follows from what is known.
func (st *State) assumeImplied(t *Term) {
	old := st.pc
	st.assume(t)
	for q := st.pc; q != old; q = q.parent {
		q.imp = true
	}
}

// define adds a definitional fact: a truth about the (total, functional) symbols it mentions.
func (st *State) define(t *Term) {
	if t.isTrue() || st.facts[t] {
		return
	}
	st.facts[t] = true
	st.pc = st.pc.push(t)
	st.pc.def = true
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) unsupported { return unsupported{fmt.Sprintf(f, a...)} }

// ---- type helpers ----
func under(t types.Type) types.Type { return t.Underlying() }

func namedPath(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}
func isBigInt(t types.Type) bool {
	n := namedPath(t)
	return n == "math/big.Int" || n == specMod+"/gv.Z"
}
func isBigRat(t types.Type) bool {
	n := namedPath(t)
	return n == "math/big.Rat" || n == specMod+"/gv.Q"
}
func isBigFloat(t types.Type) bool { return namedPath(t) == "math/big.Float" }

// checkBigCopy: copying a big number by value shares its digits with the original.
func checkBigCopy(t types.Type, v Value) {
	if n := namedPath(t); n != specMod+"/gv.Z" && n != specMod+"/gv.Q" && (isBigInt(t) || isBigRat(t) || isBigFloat(t)) {
		switch x := v.(type) {
		case *Term:
			if !x.isConst() {
				panic(unsup("a big number is copied by value, which shares its digits with the original"))
			}
		case FloatV:
			if !x.Val.isConst() {
				panic(unsup("a big number is copied by value, which shares its digits with the original"))
			}
		}
	}
}
func isBuilder(t types.Type) bool { return namedPath(t) == "strings.Builder" }

func intBits(t types.Type) (bits uint, signed, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}
func intRange(t types.Type) (lo, hi *big.Int) {
	b, s, ok := intBits(t)
	if !ok {
		panic(unsup("intRange of %s", t))
	}
	if s {
		h := new(big.Int).Lsh(bOne, b-1)
		return new(big.Int).Neg(h), new(big.Int).Sub(h, bOne)
	}
	return bZero, new(big.Int).Sub(new(big.Int).Lsh(bOne, b), bOne)
}
func isInt(t types.Type) bool { _, _, ok := intBits(t); return ok }
func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && (b.Kind() == types.Bool || b.Kind() == types.UntypedBool)
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && (b.Kind() == types.String || b.Kind() == types.UntypedString)
}
func floatBits(t types.Type) int {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Float64, types.UntypedFloat:
		return 64
	case types.Float32:
		return 32
	}
	return 0
}
func isComplex(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsComplex != 0
}
func isIface(t types.Type) bool { _, ok := under(t).(*types.Interface); return ok }

// ---- zero values ----
func zeroValue(t types.Type) Value {
	switch {
	case isBigInt(t):
		return TI(0)
	case isBigRat(t):
		return TRat(new(big.Rat))
	case isBigFloat(t):
		return FloatV{TI(0), TRat(new(big.Rat))}
	case isBuilder(t):
		return concStr("")
	case namedPath(t) == "reflect.Value":
		return RVal{}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case isInt(t):
			return TI(0)
		case isBool(t):
			return TFalse
		case isString(t):
			return concStr("")
		case floatBits(t) > 0:
			return FloatV{TI(0), TRat(new(big.Rat))}
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Kind() == types.UntypedNil:
			return IfaceV{}
		case isComplex(t):
			return StructV{FloatV{TI(0), TRat(new(big.Rat))}, FloatV{TI(0), TRat(new(big.Rat))}}
		}
	case *types.Struct:
		s := make(StructV, u.NumFields())
		for i := range s {
			s[i] = zeroValue(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if u.Len() > 1<<16 {
			panic(unsup("array too large"))
		}
		a := make(ArrayV, u.Len())
		for i := range a {
			a[i] = zeroValue(u.Elem())
		}
		return a
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return nilSlice()
	case *types.Map:
		return MapV{}
	case *types.Interface:
		return IfaceV{}
	case *types.Signature:
		return FuncV{}
	case *types.Chan:
		return OpaqueV{t, TI(0)}
	case *types.Tuple:
		s := make(TupleV, u.Len())
		for i := range s {
			s[i] = zeroValue(u.At(i).Type())
		}
		return s
	}
	panic(unsup("zero value of %s", t))
}
func nilSlice() SliceV { return SliceV{0, TI(0), TI(0), TI(0), TTrue} }

// ---- strings ----
func concStr(s string) *StrV {
	v := make([]*Term, len(s))
	for i := 0; i < len(s); i++ {
		v[i] = TI(int64(s[i]))
	}
	return &StrV{Vec: v, IsVec: true, Len: TI(int64(len(s)))}
}
func vecStr(v []*Term) *StrV { return &StrV{Vec: v, IsVec: true, Len: TI(int64(len(v)))} }
func (s *StrV) concrete() (string, bool) {
	if !s.IsVec {
		return "", false
	}
	b := make([]byte, len(s.Vec))
	for i, t := range s.Vec {
		if t.N == nil {
			return "", false
		}
		b[i] = byte(t.N.Int64())
	}
	return string(b), true
}
func (st *State) opaqueStr(t *Term) *StrV {
	if n := strings.TrimPrefix(t.Name, "str!"); t.Op == "var" && n != t.Name {
		return concStr(n)
	}
	l := TApp("strlen", SInt, t)
	st.define(rawLe(TI(0), l))
	st.define(rawLe(l, TBig(maxLen)))
	return &StrV{T: t, Len: l, Arr: TApp("strdata", SArr(SInt), t), Off: TI(0)}
}

var maxLen = new(big.Int).Lsh(bOne, 48) // address-space bound on lengths

func (s *StrV) at(i *Term) *Term {
	if s.IsVec {
		if i.N != nil && i.N.IsInt64() && int(i.N.Int64()) < len(s.Vec) && i.N.Sign() >= 0 {
			return s.Vec[i.N.Int64()]
		}
		r := TI(0)
		for k := len(s.Vec) - 1; k >= 0; k-- {
			r = Ite(Eq(i, TI(int64(k))), s.Vec[k], r)
		}
		return r
	}
	return Select(s.Arr, Add(s.Off, i))
}

// strTerm encodes a string as a term of sort Str.
func (st *State) strTerm(s *StrV) *Term {
	if s.T != nil {
		return s.T
	}
	if c, ok := s.concrete(); ok {
		t := TVar("str!"+c, SStr)
		if !st.facts[t] {
			st.facts[t] = true
			st.define(Eq(TApp("strlen", SInt, t), TI(int64(len(c)))))
			for i := 0; i < len(c); i++ {
				st.define(Eq(Select(TApp("strdata", SArr(SInt), t), TI(int64(i))), TI(int64(c[i]))))
			}
		}
		return t
	}
	if s.IsVec {
		t := TApp(fmt.Sprintf("mkstr%d", len(s.Vec)), SStr, s.Vec...)
		st.define(Eq(TApp("strlen", SInt, t), TI(int64(len(s.Vec)))))
		for i, c := range s.Vec {
			st.define(Eq(Select(TApp("strdata", SArr(SInt), t), TI(int64(i))), c))
		}
		return t
	}
	t := TApp("mkstr", SStr, s.Arr, s.Off, s.Len)
	st.define(Eq(TApp("strlen", SInt, t), s.Len))
	b := TBound("?c", SInt)
	st.define(Forall(b, Implies(And(Le(TI(0), b), Lt(b, s.Len)),
		Eq(Select(TApp("strdata", SArr(SInt), t), b), Select(s.Arr, Add(s.Off, b))))))
	return t
}
func (st *State) strEq(a, b *StrV) *Term {
	if a.T != nil && a.T == b.T {
		return TTrue
	}
	if a.IsVec && b.IsVec {
		if len(a.Vec) != len(b.Vec) {
			return TFalse
		}
		r := TTrue
		for i := range a.Vec {
			r = And(r, Eq(a.Vec[i], b.Vec[i]))
		}
		return r
	}
	if b.IsVec {
		a, b = b, a
	}
	if a.IsVec {
		r := Eq(b.Len, a.Len)
		for i := range a.Vec {
			r = And(r, Eq(b.at(TI(int64(i))), a.Vec[i]))
		}
		return r
	}
	return Eq(st.strTerm(a), st.strTerm(b))
}

// strLt: lexicographic a < b for fixed-length strings
func (st *State) strLt(a, b *StrV) *Term {
	if a.IsVec && b.IsVec {
		n := len(a.Vec)
		if len(b.Vec) < n {
			n = len(b.Vec)
		}
		r := TBool(len(a.Vec) < len(b.Vec))
		for i := n - 1; i >= 0; i-- {
			r = Or(Lt(a.Vec[i], b.Vec[i]), And(Eq(a.Vec[i], b.Vec[i]), r))
		}
		return r
	}
	ta, tb := st.strTerm(a), st.strTerm(b)
	// lexicographic order embeds into the rationals: a string has a rank, which determines it
	rk := func(t *Term, x *StrV) *Term {
		r := TApp("strrank", SReal, t)
		z := TRat(new(big.Rat))
		st.define(Eq(TApp("strunrank", SStr, r), t))
		st.define(Le(z, r))
		st.define(Eq(Eq(r, z), Eq(x.Len, TI(0))))
		return r
	}
	return Lt(rk(ta, a), rk(tb, b))
}

// ---- content trees (values spread over SMT terms / arrays) ----
type Tree struct {
	Leaf *Term
	Kids []*Tree
}

func wrap(s Sort, depth int) Sort {
	for i := 0; i < depth; i++ {
		s = SArr(s)
	}
	return s
}

// leafSorts describes the tree of a type.
func treeShape(t types.Type, depth int, mk func(s Sort) *Term) *Tree {
	leaf := func(s Sort) *Tree { return &Tree{Leaf: mk(wrap(s, depth))} }
	switch {
	case isBigInt(t):
		return leaf(SInt)
	case isBigRat(t):
		return leaf(SReal)
	case isBigFloat(t):
		return &Tree{Kids: []*Tree{leaf(SInt), leaf(SReal)}}
	case isBuilder(t):
		return leaf(SStr)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case isInt(t):
			return leaf(SInt)
		case isBool(t):
			return leaf(SBool)
		case isString(t):
			return leaf(SStr)
		case floatBits(t) > 0:
			return &Tree{Kids: []*Tree{leaf(SInt), leaf(SReal)}}
		case isComplex(t):
			return &Tree{Kids: []*Tree{{Kids: []*Tree{leaf(SInt), leaf(SReal)}}, {Kids: []*Tree{leaf(SInt), leaf(SReal)}}}}
		}
	case *types.Struct:
		r := &Tree{Kids: []*Tree{}}
		for i := 0; i < u.NumFields(); i++ {
			r.Kids = append(r.Kids, treeShape(u.Field(i).Type(), depth, mk))
		}
		return r
	case *types.Array:
		r := &Tree{Kids: []*Tree{}}
		for i := 0; i < int(u.Len()); i++ {
			r.Kids = append(r.Kids, treeShape(u.Elem(), depth, mk))
		}
		return r
	case *types.Slice:
		return &Tree{Kids: []*Tree{leaf(SInt), leaf(SBool), treeShape(u.Elem(), depth+1, mk)}}
	case *types.Pointer, *types.Interface, *types.Signature, *types.Map, *types.Chan:
		return leaf(SInt)
	}
	panic(unsup("tree of type %s", t))
}
func (t *Tree) mapT(f func(*Term) *Term) *Tree {
	if t.Leaf != nil {
		return &Tree{Leaf: f(t.Leaf)}
	}
	r := &Tree{Kids: make([]*Tree, len(t.Kids))}
	for i, k := range t.Kids {
		r.Kids[i] = k.mapT(f)
	}
	return r
}
func (t *Tree) leaves(out *[]*Term) {
	if t.Leaf != nil {
		*out = append(*out, t.Leaf)
		return
	}
	for _, k := range t.Kids {
		k.leaves(out)
	}
}
func zipTree(a, b *Tree, f func(x, y *Term) *Term) *Tree {
	if a.Leaf != nil {
		return &Tree{Leaf: f(a.Leaf, b.Leaf)}
	}
	r := &Tree{Kids: make([]*Tree, len(a.Kids))}
	for i := range a.Kids {
		r.Kids[i] = zipTree(a.Kids[i], b.Kids[i], f)
	}
	return r
}
func (t *Tree) sel(i *Term) *Tree { return t.mapT(func(a *Term) *Term { return Select(a, i) }) }
func (t *Tree) sto(i *Term, v *Tree) *Tree {
	return zipTree(t, v, func(a, x *Term) *Term { return Store(a, i, x) })
}

// ---- encoding of reference-like values as Int identities ----
type idEntry struct {
	v   Value
	typ types.Type
}

var (
	idMu   sync.Mutex
	idTab        = map[string]int64{}
	idVals       = map[int64]idEntry{}
	idNext int64 = 1000
)

func internID(key string, v Value, t types.Type) *Term {
	idMu.Lock()
	defer idMu.Unlock()
	if n, ok := idTab[key]; ok {
		return TI(n)
	}
	idNext++
	idTab[key] = idNext
	idVals[idNext] = idEntry{v, t}
	return TI(idNext)
}
func lookupID(n int64) (idEntry, bool) {
	idMu.Lock()
	defer idMu.Unlock()
	e, ok := idVals[n]
	return e, ok
}

var (
	tcMu  sync.Mutex
	tcTab = map[string]int64{}
)

func typeCode(t types.Type) *Term {
	k := typeKey(t)
	tcMu.Lock()
	defer tcMu.Unlock()
	n, ok := tcTab[k]
	if !ok {
		n = int64(len(tcTab) + 1)
		tcTab[k] = n
	}
	return TI(n)
}
func typeKey(t types.Type) string { return types.TypeString(t, nil) }

func pathKey(p []PE) (string, bool) {
	s := ""
	for _, x := range p {
		if x.Idx != nil {
			if x.Idx.N == nil {
				return "", false
			}
			s += "[" + x.Idx.N.String() + "]"
		} else {
			s += fmt.Sprintf(".%d", x.Field)
		}
	}
	return s, true
}

// encode turns a value of static type t into a depth-0 tree.
func (st *State) encode(v Value, t types.Type) *Tree {
	switch x := v.(type) {
	case *Term:
		return &Tree{Leaf: x}
	case FloatV:
		return &Tree{Kids: []*Tree{{Leaf: x.Cls}, {Leaf: x.Val}}}
	case *StrV:
		return &Tree{Leaf: st.strTerm(x)}
	case StructV:
		r := &Tree{Kids: []*Tree{}}
		if isComplex(t) {
			for _, f := range x {
				r.Kids = append(r.Kids, st.encode(f, types.Typ[types.Float64]))
			}
			return r
		}
		u := under(t).(*types.Struct)
		for i, f := range x {
			r.Kids = append(r.Kids, st.encode(f, u.Field(i).Type()))
		}
		return r
	case ArrayV:
		r := &Tree{Kids: []*Tree{}}
		u := under(t).(*types.Array)
		for _, f := range x {
			r.Kids = append(r.Kids, st.encode(f, u.Elem()))
		}
		return r
	case Ptr:
		return &Tree{Leaf: st.ptrID(x, t)}
	case IfaceV:
		return &Tree{Leaf: st.ifaceID(x)}
	case FuncV:
		return &Tree{Leaf: st.funcID(x, t)}
	case MapV:
		if x.Sym != nil {
			return &Tree{Leaf: x.Sym}
		}
		if x.Obj == 0 {
			return &Tree{Leaf: TI(0)}
		}
		return &Tree{Leaf: internID(fmt.Sprintf("map%d", x.Obj), x, t)}
	case OpaqueV:
		return &Tree{Leaf: x.Id}
	case RTypeV:
		return &Tree{Leaf: internID("rt:"+typeKey(x.T), x, t)}
	case SliceV:
		return st.encSlice(x, under(t).(*types.Slice).Elem())
	}
	panic(unsup("encode %T of %s", v, t))
}
func (st *State) encSlice(x SliceV, elem types.Type) *Tree {
	if x.Obj == 0 {
		return &Tree{Kids: []*Tree{{Leaf: TI(0)}, {Leaf: TTrue}, defaultTree(elem, 1)}}
	}
	o := st.obj(x.Obj)
	var content *Tree
	if o.Vec != nil || o.Sym == nil {
		content = defaultTree(elem, 1)
		for i := range o.Vec {
			if x.Off.N != nil {
				j := int64(i) - x.Off.N.Int64()
				if j < 0 {
					continue
				}
				content = content.sto(TI(j), st.encode(o.Vec[i], elem))
			} else {
				content = content.sto(Sub(TI(int64(i)), x.Off), st.encode(o.Vec[i], elem))
			}
		}
	} else {
		content = st.shiftTree(o.Sym, x.Off)
	}
	return &Tree{Kids: []*Tree{{Leaf: x.Len}, {Leaf: x.Nil}, content}}
}

// shiftTree returns arrays b with b[i] = a[i+off].
func (st *State) shiftTree(a *Tree, off *Term) *Tree {
	if off.N != nil && off.N.Sign() == 0 {
		return a
	}
	return a.mapT(func(x *Term) *Term {
		r := TApp("shift!"+string(x.S), x.S, x, off)
		b := TBound("?s", SInt)
		st.define(Forall(b, Eq(Select(r, b), Select(x, Add(b, off)))))
		return r
	})
}
func defaultTerm(s Sort) *Term {
	switch {
	case s == SInt:
		return TI(0)
	case s == SBool:
		return TFalse
	case s == SReal:
		return TRat(new(big.Rat))
	case s == SStr:
		return TVar("str!", SStr)
	case s.isArr():
		return ConstArr(defaultTerm(s.elem()))
	}
	panic("defaultTerm " + string(s))
}
func defaultTree(t types.Type, depth int) *Tree {
	return treeShape(t, depth, func(s Sort) *Term { return defaultTerm(s) })
}

func (st *State) ptrID(x Ptr, t types.Type) *Term {
	if x.Sym != nil {
		return x.Sym
	}
	if x.Obj == 0 {
		return TI(0)
	}
	pk, ok := pathKey(x.Path)
	if !ok {
		panic(unsup("identity of a pointer with a symbolic index"))
	}
	return internID(fmt.Sprintf("p%d%s", x.Obj, pk), x, t)
}
func (st *State) funcID(x FuncV, t types.Type) *Term {
	if x.Sym != nil {
		return x.Sym.Id
	}
	if x.Fn == nil && x.Nat == nil {
		return TI(0)
	}
	k := fmt.Sprintf("f%p", x.Fn)
	if x.Nat != nil {
		k = fmt.Sprintf("n%p", x.Nat)
	}
	for i, b := range x.Bind {
		k += "/" + st.valKey(b, bindType(x.Fn, i))
	}
	return internID(k, x, t)
}
func bindType(fn *ssa.Function, i int) types.Type {
	if fn != nil && i < len(fn.FreeVars) {
		return fn.FreeVars[i].Type()
	}
	return types.Typ[types.Int]
}

// valKey is a syntactic key of a value (terms by identity).
func (st *State) valKey(v Value, t types.Type) string {
	switch x := v.(type) {
	case nil:
		return "_"
	case *Term:
		return fmt.Sprintf("t%d", x.id)
	case FloatV:
		return fmt.Sprintf("F%d,%d", x.Cls.id, x.Val.id)
	case *StrV:
		if c, ok := x.concrete(); ok {
			return "s" + fmt.Sprintf("%q", c)
		}
		return fmt.Sprintf("S%d", st.strTerm(x).id)
	case StructV:
		s := "{"
		for _, f := range x {
			s += st.valKey(f, nil) + ","
		}
		return s + "}"
	case ArrayV:
		s := "["
		for _, f := range x {
			s += st.valKey(f, nil) + ","
		}
		return s + "]"
	case Ptr:
		if x.Sym != nil {
			return fmt.Sprintf("P%d", x.Sym.id)
		}
		pk := ""
		for _, p := range x.Path {
			if p.Idx != nil {
				pk += fmt.Sprintf("[%d]", p.Idx.id)
			} else {
				pk += fmt.Sprintf(".%d", p.Field)
			}
		}
		return fmt.Sprintf("p%d%s", x.Obj, pk)
	case SliceV:
		return fmt.Sprintf("l%d:%d:%d:%d:%d", x.Obj, x.Off.id, x.Len.id, x.Cap.id, x.Nil.id)
	case MapV:
		if x.Sym != nil {
			return fmt.Sprintf("M%d", x.Sym.id)
		}
		return fmt.Sprintf("m%d", x.Obj)
	case *rangeIter:
		if x.str != nil {
			return fmt.Sprintf("rs%s@%d", st.valKey(x.str, nil), x.pos.id)
		}
		if x.vis != nil {
			return fmt.Sprintf("rm%s@%d", st.valKey(x.m, nil), x.vis.id)
		}
		return fmt.Sprintf("rf%s@%v", st.valKey(x.m, nil), x.rem)
	case IfaceV:
		if x.Sym != nil {
			return fmt.Sprintf("I%d", x.Sym.id)
		}
		if x.Typ == nil {
			return "nil"
		}
		return "i(" + typeKey(x.Typ) + ":" + st.valKey(x.Val, x.Typ) + ")"
	case FuncV:
		if x.Sym != nil {
			if x.Sym.Id != nil {
				return fmt.Sprintf("fs%s@%d", x.Sym.Name, x.Sym.Id.id)
			}
			return "fs" + x.Sym.Name
		}
		s := fmt.Sprintf("f%p/%p/%p", x.Fn, x.Nat, x.Bi)
		for _, b := range x.Bind {
			s += "/" + st.valKey(b, nil)
		}
		return s
	case OpaqueV:
		return fmt.Sprintf("o%d", x.Id.id)
	case RTypeV:
		return "rt:" + typeKey(x.T)
	case RVal:
		if x.T == nil {
			return "rv0"
		}
		s := "rv:" + typeKey(x.T) + ":"
		if x.Addr != nil {
			return s + "@" + st.valKey(*x.Addr, nil)
		}
		return s + st.valKey(x.V, x.T)
	case RegexV:
		if x.t != nil {
			return fmt.Sprintf("re?%d", x.t.id)
		}
		return "re:" + x.pat
	case TupleV:
		s := "("
		for _, f := range x {
			s += st.valKey(f, nil) + ","
		}
		return s + ")"
	}
	return fmt.Sprintf("?%T/%v", v, v)
}

// ifaceID: the Int identity of an interface value. Reference-like and concrete values are
// interned constants; scalars are boxed by an injective function per dynamic type.
func (st *State) ifaceID(x IfaceV) *Term {
	if x.Sym != nil {
		return x.Sym
	}
	if x.Typ == nil {
		return TI(0)
	}
	switch v := x.Val.(type) {
	case Ptr:
		if v.Sym == nil && v.Obj != 0 {
			if pk, ok := pathKey(v.Path); ok {
				id := internID(fmt.Sprintf("ip%s:%d%s", typeKey(x.Typ), v.Obj, pk), x, x.Typ)
				st.define(Eq(TApp("typeid", SInt, id), typeCode(x.Typ)))
				return id
			}
		}
	case FuncV, MapV:
		return internID("if"+typeKey(x.Typ)+st.valKey(v, x.Typ), x, x.Typ)
	}
	var ls []*Term
	st.encode(x.Val, x.Typ).leaves(&ls)
	fn := "box!" + typeKey(x.Typ)
	st.e.boxTypes.Store(fn, x.Typ)
	id := TApp(fn, SInt, ls...)
	if len(ls) == 0 {
		id = TVar(fn, SInt)
	}
	for i, l := range ls {
		st.define(Eq(TApp(fmt.Sprintf("unbox!%d!%s", i, typeKey(x.Typ)), l.S, id), l))
	}
	st.define(Eq(TApp("typeid", SInt, id), typeCode(x.Typ)))
	st.define(Le(TI(1), id))
	return id
}

// decode turns a depth-0 tree into a value of type t, adding range facts.
func (st *State) decode(tr *Tree, t types.Type) Value {
	switch {
	case isBigInt(t), isBigRat(t):
		return tr.Leaf
	case isBigFloat(t):
		return FloatV{tr.Kids[0].Leaf, tr.Kids[1].Leaf}
	case isBuilder(t):
		return st.opaqueStr(tr.Leaf)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case isInt(t):
			x := tr.Leaf
			if x.N == nil {
				lo, hi := intRange(t)
				if l, h := interval(x, 0); l == nil || h == nil || l.Cmp(lo) < 0 || h.Cmp(hi) > 0 || x.Op == "select" {
					if x.Op == "select" && x.Args[0].Op == "var" && x.lo == nil {
						x.setInterval(lo, hi) // arrays hold values of their element type
					}
					if !x.bound {
						st.define(rawLe(TBig(lo), x))
						st.define(rawLe(x, TBig(hi)))
					}
				}
			}
			return x
		case isBool(t):
			return tr.Leaf
		case isString(t):
			return st.opaqueStr(tr.Leaf)
		case floatBits(t) > 0:
			f := FloatV{tr.Kids[0].Leaf, tr.Kids[1].Leaf}
			st.floatFacts(f, floatBits(t))
			return f
		case isComplex(t):
			return StructV{st.decode(tr.Kids[0], types.Typ[types.Float64]), st.decode(tr.Kids[1], types.Typ[types.Float64])}
		}
	case *types.Struct:
		s := make(StructV, u.NumFields())
		for i := range s {
			s[i] = st.decode(tr.Kids[i], u.Field(i).Type())
		}
		return s
	case *types.Array:
		s := make(ArrayV, u.Len())
		for i := range s {
			s[i] = st.decode(tr.Kids[i], u.Elem())
		}
		return s
	case *types.Slice:
		l, nl := tr.Kids[0].Leaf, tr.Kids[1].Leaf
		if !l.bound {
			st.define(Le(TI(0), l))
			st.define(Le(l, TBig(maxLen)))
			st.define(Implies(nl, Eq(l, TI(0))))
		}
		id := st.alloc(&Obj{Kind: 'a', Typ: u.Elem(), Sym: tr.Kids[2], Ro: true})
		return SliceV{id, TI(0), l, l, nl}
	case *types.Pointer:
		if v, ok := constID(tr.Leaf); ok {
			if v == nil {
				return Ptr{}
			}
			return v
		}
		return Ptr{Sym: tr.Leaf}
	case *types.Interface:
		if tr.Leaf.N != nil && tr.Leaf.N.Sign() == 0 {
			return IfaceV{}
		}
		if v, ok := constID(tr.Leaf); ok && v != nil {
			return v
		}
		if tr.Leaf.Op == "app" && strings.HasPrefix(tr.Leaf.Name, "box!") {
			if bt, ok := st.e.boxTypes.Load(tr.Leaf.Name); ok {
				i := 0
				sub := treeShape(bt.(types.Type), 0, func(s Sort) *Term {
					i++
					return tr.Leaf.Args[i-1]
				})
				return IfaceV{Typ: bt.(types.Type), Val: st.decode(sub, bt.(types.Type))}
			}
		}
		return IfaceV{Sym: tr.Leaf}
	case *types.Signature:
		if v, ok := constID(tr.Leaf); ok {
			if v == nil {
				return FuncV{}
			}
			return v
		}
		return FuncV{Sym: &SymFunc{Name: "dynf", Sig: u, Id: tr.Leaf}}
	case *types.Map:
		if v, ok := constID(tr.Leaf); ok {
			if v == nil {
				return MapV{}
			}
			return v
		}
		return MapV{Sym: tr.Leaf}
	case *types.Chan:
		return OpaqueV{t, tr.Leaf}
	}
	panic(unsup("decode %s", t))
}
func constID(t *Term) (Value, bool) {
	if t.N == nil {
		return nil, false
	}
	if t.N.Sign() == 0 {
		return nil, true
	}
	e, ok := lookupID(t.N.Int64())
	if !ok {
		return nil, false
	}
	return e.v, true
}

// freshVar creates a fresh scalar.
func (e *Engine) freshName(hint string) string {
	n := atomic.AddInt64(&freshCounter, 1)
	return fmt.Sprintf("%s!%d", hint, n)
}

var freshCounter int64

func (st *State) freshInt(hint string, t types.Type) *Term {
	v := TVar(st.e.freshName(hint), SInt)
	if t != nil {
		v.lo, v.hi = intRange(t)
		st.define(intern(&Term{Op: "<=", S: SBool, Args: []*Term{TBig(v.lo), v}}))
		st.define(intern(&Term{Op: "<=", S: SBool, Args: []*Term{v, TBig(v.hi)}}))
	}
	return v
}

// fresh creates an arbitrary value of type t.
func (st *State) fresh(hint string, t types.Type) Value {
	switch {
	case isBigInt(t):
		return TVar(st.e.freshName(hint), SInt)
	case isBigRat(t):
		return TVar(st.e.freshName(hint), SReal)
	case isInt(t):
		return st.freshInt(hint, t)
	}
	tr := treeShape(t, 0, func(s Sort) *Term { return TVar(st.e.freshName(hint), s) })
	return st.decode(tr, t)
}

func (st *State) floatFacts(f FloatV, bits int) {
	if f.Cls.N == nil && !f.Cls.bound {
		st.define(Le(TI(0), f.Cls))
		st.define(Le(f.Cls, TI(3)))
	}
	if f.Val.Op != "const" && !f.Val.bound {
		st.floatRepr(f.Val, bits)
	}
}

// isf32 relates the predicates: a binary32 value is a binary64 value in the binary32 range.
func (st *State) isf32(v *Term) {
	max := new(big.Int).Sub(new(big.Int).Lsh(bOne, 128), new(big.Int).Lsh(bOne, 104))
	m, l := TRat(new(big.Rat).SetInt(max)), TRat(new(big.Rat).SetFrac(bOne, new(big.Int).Lsh(bOne, 149)))
	st.define(Implies(TApp("isf32", SBool, v), And(TApp("isf64", SBool, v), Le(Neg(m), v), Le(v, m),
		Or(Eq(v, tr0()), Le(l, v), Le(v, Neg(l))))))
}

// floatRepr states representability of large magnitudes (values >= 2^mant are multiples of a power of two).
func (st *State) floatRepr(v *Term, bits int) {
	if st.facts[TApp("repr!", SBool, v, TI(int64(bits)))] {
		return
	}
	st.facts[TApp("repr!", SBool, v, TI(int64(bits)))] = true
	if bits == 32 {
		st.isf32(v)
		st.define(TApp("isf32", SBool, v))
		st.define(TApp("isf32", SBool, Neg(v)))
	}
	st.define(TApp("isf64", SBool, v))
	st.define(TApp("isf64", SBool, Neg(v)))
	mant := 53
	maxE := 1023
	if bits == 32 {
		mant = 24
		maxE = 127
	}
	p2 := func(k int) *Term { return TRat(new(big.Rat).SetInt(new(big.Int).Lsh(bOne, uint(k)))) }
	max := new(big.Int).Sub(new(big.Int).Lsh(bOne, uint(maxE+1)), new(big.Int).Lsh(bOne, uint(maxE+1-mant)))
	mt := TRat(new(big.Rat).SetInt(max))
	st.define(And(Le(Neg(mt), v), Le(v, mt)))
	for k := mant - 1; k <= 64; k++ {
		g := Or(Le(p2(k), v), Le(v, Neg(p2(k))))
		m := TApp("mant!", SInt, v, TI(int64(k)), TI(int64(bits)))
		st.define(Implies(g, Eq(v, MulC(new(big.Rat).SetInt(new(big.Int).Lsh(bOne, uint(k-mant+1))), ToReal(m)))))
	}
}

// ---- merging ----
func (st *State) merge(c *Term, a, b Value) (Value, bool) {
	if c.isTrue() {
		return a, true
	}
	if c.isFalse() {
		return b, true
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.S != y.S {
			return nil, false
		}
		return Ite(c, x, y), true
	case FloatV:
		y, ok := b.(FloatV)
		if !ok {
			return nil, false
		}
		return FloatV{Ite(c, x.Cls, y.Cls), Ite(c, x.Val, y.Val)}, true
	case StructV:
		y, ok := b.(StructV)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(StructV, len(x))
		for i := range x {
			v, ok := st.merge(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case ArrayV:
		y, ok := b.(ArrayV)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(ArrayV, len(x))
		for i := range x {
			v, ok := st.merge(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(TupleV, len(x))
		for i := range x {
			v, ok := st.merge(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case *StrV:
		y, ok := b.(*StrV)
		if !ok {
			return nil, false
		}
		if x.IsVec && y.IsVec && len(x.Vec) == len(y.Vec) {
			v := make([]*Term, len(x.Vec))
			for i := range v {
				v[i] = Ite(c, x.Vec[i], y.Vec[i])
			}
			return vecStr(v), true
		}
		if !x.IsVec && !y.IsVec && x.T != nil && y.T != nil {
			return st.opaqueStr(Ite(c, x.T, y.T)), true
		}
		return nil, false
	case SliceV:
		y, ok := b.(SliceV)
		if ok && x.Obj == y.Obj {
			return SliceV{x.Obj, Ite(c, x.Off, y.Off), Ite(c, x.Len, y.Len), Ite(c, x.Cap, y.Cap), Ite(c, x.Nil, y.Nil)}, true
		}
		return nil, false
	case Ptr:
		y, ok := b.(Ptr)
		if ok && st.valKey(x, nil) == st.valKey(y, nil) {
			return x, true
		}
		return nil, false
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			return nil, false
		}
		if st.valKey(x, nil) == st.valKey(y, nil) {
			return x, true
		}
		if x.Sym != nil && y.Sym != nil {
			return IfaceV{Sym: Ite(c, x.Sym, y.Sym)}, true
		}
		if x.Sym == nil && y.Sym == nil && x.Typ != nil && y.Typ != nil && types.Identical(x.Typ, y.Typ) {
			v, ok := st.merge(c, x.Val, y.Val)
			return IfaceV{Typ: x.Typ, Val: v}, ok
		}
		return nil, false
	case FuncV:
		y, ok := b.(FuncV)
		if ok && st.valKey(x, nil) == st.valKey(y, nil) {
			return x, true
		}
		return nil, false
	case MapV:
		y, ok := b.(MapV)
		if ok && x == y {
			return x, true
		}
		return nil, false
	case RTypeV, RVal, RegexV:
		if st.valKey(a, nil) == st.valKey(b, nil) {
			return a, true
		}
		return nil, false
	case OpaqueV:
		y, ok := b.(OpaqueV)
		if ok {
			return OpaqueV{x.T, Ite(c, x.Id, y.Id)}, true
		}
		return nil, false
	}
	return nil, false
}
