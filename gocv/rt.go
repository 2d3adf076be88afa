package main

// Assumed contracts for reflect, regexp construction, sync, math and big numbers' plumbing.

import (
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"regexp"

	"golang.org/x/tools/go/ssa"
)

// RTypeV is the value behind a reflect.Type; RVal a reflect.Value.
type RTypeV struct{ T types.Type }
type RVal struct {
	T    types.Type // nil: invalid
	V    Value
	Addr *Ptr // addressable location
}
type RegexV struct {
	re  *regexp.Regexp
	t   *Term // the unknown pattern
	pat string
}

func (e *Engine) rtypeIface(t types.Type) Value {
	rt := e.sh.pkgs["reflect"].Type("rtype").Type()
	return IfaceV{Typ: types.NewPointer(rt), Val: RTypeV{types.Unalias(t)}}
}
func rkind(t types.Type) int64 {
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}
func rname(t types.Type) string {
	switch x := types.Unalias(t).(type) {
	case *types.Named:
		s := x.Obj().Name()
		if x.TypeArgs().Len() > 0 {
			s += "["
			for i := 0; i < x.TypeArgs().Len(); i++ {
				if i > 0 {
					s += ","
				}
				s += types.TypeString(x.TypeArgs().At(i), nil)
			}
			s += "]"
		}
		return s
	case *types.Basic:
		if x.Kind() == types.Byte {
			return "uint8"
		}
		if x.Kind() == types.Rune {
			return "int32"
		}
		return types.Typ[x.Kind()].Name()
	}
	return ""
}
func rstring(t types.Type) string {
	if n := rname(t); n != "" {
		if x, ok := types.Unalias(t).(*types.Named); ok && x.Obj().Pkg() != nil {
			return x.Obj().Pkg().Name() + "." + n
		}
		return n
	}
	switch x := types.Unalias(t).(type) {
	case *types.Pointer:
		return "*" + rstring(x.Elem())
	case *types.Slice:
		return "[]" + rstring(x.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]", x.Len()) + rstring(x.Elem())
	case *types.Map:
		return "map[" + rstring(x.Key()) + "]" + rstring(x.Elem())
	case *types.Interface:
		if x.NumMethods() == 0 {
			return "interface {}"
		}
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func rv(c *Call, i int) RVal {
	v, ok := c.args[i].(RVal)
	if !ok {
		panic(unsup("reflect.Value is %T", c.args[i]))
	}
	return v
}
func (e *Engine) rtArg(c *Call, i int) types.Type {
	switch x := c.args[i].(type) {
	case RTypeV:
		return x.T
	case IfaceV:
		if r, ok := x.Val.(RTypeV); ok {
			return r.T
		}
	}
	panic(unsup("unknown reflect.Type"))
}
func (e *Engine) ifaceOf(st *State, t types.Type, v Value) Value {
	if iv, ok := v.(IfaceV); ok && isIface(t) {
		return iv
	}
	return IfaceV{Typ: types.Unalias(t), Val: v}
}

func rvM(name string, h func(e *Engine, c *Call, v RVal)) {
	handlers["(reflect.Value)."+name] = func(e *Engine, c *Call) { h(e, c, rv(c, 0)) }
}
func rtM(name string, h func(e *Engine, c *Call, t types.Type)) {
	handlers["(*reflect.rtype)."+name] = func(e *Engine, c *Call) { h(e, c, e.rtArg(c, 0)) }
}
func (e *Engine) rpanic(c *Call, msg string) { e.rtPanic(c.st, c.p, "reflect: "+msg) }

func init() {
	handlers["reflect.TypeOf"] = func(e *Engine, c *Call) {
		iv := c.args[0].(IfaceV)
		if iv.Sym != nil {
			panic(unsup("reflect.TypeOf of an unknown dynamic type"))
		}
		if iv.Typ == nil {
			c.ret(IfaceV{})
			return
		}
		c.ret(e.rtypeIface(iv.Typ))
	}
	handlers["reflect.ValueOf"] = func(e *Engine, c *Call) {
		iv := c.args[0].(IfaceV)
		if iv.Sym != nil {
			panic(unsup("reflect.ValueOf of an unknown dynamic type"))
		}
		if iv.Typ == nil {
			c.ret(RVal{})
			return
		}
		c.ret(RVal{T: iv.Typ, V: iv.Val})
	}
	handlers["reflect.New"] = func(e *Engine, c *Call) {
		t := e.rtArg(c, 0)
		id := c.st.alloc(&Obj{Kind: 'c', Typ: t, Val: zeroValue(t), Origin: "reflect.New"})
		c.ret(RVal{T: types.NewPointer(t), V: Ptr{Obj: id}})
	}
	handlers["reflect.Zero"] = func(e *Engine, c *Call) {
		t := e.rtArg(c, 0)
		c.ret(RVal{T: t, V: zeroValue(t)})
	}
	rvM("MapRange", func(e *Engine, c *Call, v RVal) {
		if _, ok := under(v.T).(*types.Map); v.T == nil || !ok {
			e.rpanic(c, "call of reflect.Value.MapRange on a value that is not a map")
			return
		}
		e.rload(c, v, func(st *State, x Value) { e.rangeStart(st, x, v.T, func(st *State, it Value) { c.k(st, it) }) })
	})
	mapIter := func(c *Call) *rangeIter { return c.st.obj(c.args[0].(Ptr).Obj).Val.(*rangeIter) }
	handlers["(*reflect.MapIter).Next"] = func(e *Engine, c *Call) {
		e.rangeNext(c.st, c.fr, c.args[0], nil, func(st *State, r Value) {
			t := r.(TupleV)
			id := c.args[0].(Ptr).Obj
			o := *st.obj(id)
			n := *o.Val.(*rangeIter)
			n.k, n.v = nil, nil
			if t[0].(*Term).isTrue() {
				n.k, n.v = t[1], t[2]
			}
			o.Val = &n
			st.setObj(id, &o)
			c.k(st, t[0])
		})
	}
	handlers["(*reflect.MapIter).Key"] = func(e *Engine, c *Call) {
		it := mapIter(c)
		if it.k == nil {
			panic(unsup("reflect.MapIter without a current entry"))
		}
		c.ret(RVal{T: it.mt.Key(), V: it.k})
	}
	handlers["(*reflect.MapIter).Value"] = func(e *Engine, c *Call) {
		it := mapIter(c)
		if it.k == nil {
			panic(unsup("reflect.MapIter without a current entry"))
		}
		c.ret(RVal{T: it.mt.Elem(), V: it.v})
	}
	rvM("IsValid", func(e *Engine, c *Call, v RVal) { c.ret(TBool(v.T != nil)) })
	rvM("Kind", func(e *Engine, c *Call, v RVal) {
		if v.T == nil {
			c.ret(TI(0))
			return
		}
		c.ret(TI(rkind(v.T)))
	})
	rvM("Type", func(e *Engine, c *Call, v RVal) {
		if v.T == nil {
			e.rpanic(c, "call of reflect.Value.Type on zero Value")
			return
		}
		c.ret(e.rtypeIface(v.T))
	})
	rvM("Interface", func(e *Engine, c *Call, v RVal) {
		if v.T == nil {
			e.rpanic(c, "Interface on zero Value")
			return
		}
		e.rload(c, v, func(st *State, x Value) { c.k(st, e.ifaceOf(st, v.T, x)) })
	})
	rvM("IsNil", func(e *Engine, c *Call, v RVal) {
		if v.T == nil {
			e.rpanic(c, "IsNil on zero Value")
			return
		}
		e.rload(c, v, func(st *State, x Value) {
			switch y := x.(type) {
			case Ptr:
				if y.Sym != nil {
					c.k(st, Eq(y.Sym, TI(0)))
					return
				}
				c.k(st, TBool(y.Obj == 0))
			case SliceV:
				c.k(st, y.Nil)
			case MapV:
				if y.Sym != nil {
					c.k(st, Eq(y.Sym, TI(0)))
					return
				}
				c.k(st, TBool(y.Obj == 0))
			case FuncV:
				c.k(st, TBool(y.Fn == nil && y.Sym == nil && y.Nat == nil && y.Bi == nil))
			case IfaceV:
				if y.Sym != nil {
					c.k(st, Eq(y.Sym, TI(0)))
					return
				}
				c.k(st, TBool(y.Typ == nil))
			case OpaqueV:
				c.k(st, Eq(y.Id, TI(0)))
			default:
				e.rtPanic(st, c.p, "reflect: call of reflect.Value.IsNil on a non-nilable value")
			}
		})
	})
	rvM("Elem", func(e *Engine, c *Call, v RVal) {
		if v.T == nil {
			e.rpanic(c, "Elem on zero Value")
			return
		}
		e.rload(c, v, func(st *State, x Value) {
			switch u := under(v.T).(type) {
			case *types.Pointer:
				p := x.(Ptr)
				if p.Sym != nil {
					panic(unsup("reflect Elem of an unknown pointer"))
				}
				if p.Obj == 0 {
					c.k(st, RVal{})
					return
				}
				c.k(st, RVal{T: u.Elem(), Addr: &p})
			case *types.Interface:
				iv := x.(IfaceV)
				if iv.Sym != nil {
					panic(unsup("reflect Elem of an unknown interface"))
				}
				if iv.Typ == nil {
					c.k(st, RVal{})
					return
				}
				c.k(st, RVal{T: iv.Typ, V: iv.Val})
			default:
				e.rtPanic(st, c.p, "reflect: call of reflect.Value.Elem")
			}
		})
	})
	rvM("Set", func(e *Engine, c *Call, v RVal) {
		x := rv(c, 1)
		if v.Addr == nil || x.T == nil {
			e.rpanic(c, "Set using unaddressable or zero value")
			return
		}
		if !types.AssignableTo(x.T, v.T) {
			e.rpanic(c, "Set: value is not assignable")
			return
		}
		e.rload(c, x, func(st *State, y Value) {
			if isIface(v.T) {
				y = e.ifaceOf(st, x.T, y)
			}
			checkBigCopy(v.T, y)
			e.store(st, *v.Addr, y, c.p, func(st *State) { c.k(st, TupleV{}) })
		})
	})
	rvM("CanSet", func(e *Engine, c *Call, v RVal) { c.ret(TBool(v.Addr != nil)) })
	rvM("CanAddr", func(e *Engine, c *Call, v RVal) { c.ret(TBool(v.Addr != nil)) })
	rvM("Addr", func(e *Engine, c *Call, v RVal) {
		if v.Addr == nil {
			e.rpanic(c, "Addr of unaddressable value")
			return
		}
		c.ret(RVal{T: types.NewPointer(v.T), V: *v.Addr})
	})
	num := func(name string, ok func(t types.Type) bool) {
		rvM(name, func(e *Engine, c *Call, v RVal) {
			if v.T == nil || !ok(v.T) {
				e.rpanic(c, name+" of a wrong kind")
				return
			}
			e.rload(c, v, func(st *State, x Value) { c.k(st, x) })
		})
	}
	num("Int", func(t types.Type) bool { _, s, ok := intBits(t); return ok && s })
	num("Uint", func(t types.Type) bool { _, s, ok := intBits(t); return ok && !s })
	num("Float", func(t types.Type) bool { return floatBits(t) > 0 })
	num("Bool", isBool)
	rvM("String", func(e *Engine, c *Call, v RVal) {
		if v.T == nil || !isString(v.T) {
			panic(unsup("reflect.Value.String of a non-string"))
		}
		e.rload(c, v, func(st *State, x Value) { c.k(st, x) })
	})
	rvM("Convert", func(e *Engine, c *Call, v RVal) {
		t := e.rtArg(c, 1)
		if v.T == nil || !types.ConvertibleTo(v.T, t) {
			e.rpanic(c, "Convert: not convertible")
			return
		}
		e.rload(c, v, func(st *State, x Value) {
			if isIface(t) {
				c.k(st, RVal{T: t, V: e.ifaceOf(st, v.T, x)})
				return
			}
			if types.Identical(under(v.T), under(t)) {
				c.k(st, RVal{T: t, V: x})
				return
			}
			if pa, ok := under(v.T).(*types.Pointer); ok {
				if pb, ok := under(t).(*types.Pointer); ok && types.Identical(under(pa.Elem()), under(pb.Elem())) {
					c.k(st, RVal{T: t, V: x})
					return
				}
			}
			e.convert(st, x, v.T, t, func(st *State, y Value) { c.k(st, RVal{T: t, V: y}) })
		})
	})
	rvM("Len", func(e *Engine, c *Call, v RVal) {
		e.rload(c, v, func(st *State, x Value) {
			switch y := x.(type) {
			case SliceV:
				c.k(st, y.Len)
			case *StrV:
				c.k(st, y.Len)
			case ArrayV:
				c.k(st, TI(int64(len(y))))
			default:
				panic(unsup("reflect.Value.Len of %T", x))
			}
		})
	})
	rvM("Index", func(e *Engine, c *Call, v RVal) {
		idx := c.t(1)
		su, ok := under(v.T).(*types.Slice)
		if !ok {
			panic(unsup("reflect.Value.Index of %s", v.T))
		}
		e.rload(c, v, func(st *State, x Value) {
			s := x.(SliceV)
			e.guard(st, And(Le(TI(0), idx), Lt(idx, s.Len)), "reflect: slice index out of range", c.p, func(st *State) {
				c.k(st, RVal{T: su.Elem(), Addr: &Ptr{Obj: s.Obj, Path: []PE{{Field: -1, Idx: Add(s.Off, idx)}}}})
			})
		})
	})
	rvM("NumField", func(e *Engine, c *Call, v RVal) { c.ret(TI(int64(under(v.T).(*types.Struct).NumFields()))) })
	rvM("Field", func(e *Engine, c *Call, v RVal) {
		i := int(c.t(1).N.Int64())
		u := under(v.T).(*types.Struct)
		if v.Addr != nil {
			c.ret(RVal{T: u.Field(i).Type(), Addr: &Ptr{Obj: v.Addr.Obj, Path: append(append([]PE(nil), v.Addr.Path...), PE{Field: i})}})
			return
		}
		c.ret(RVal{T: u.Field(i).Type(), V: v.V.(StructV)[i]})
	})
	rvM("IsZero", func(e *Engine, c *Call, v RVal) {
		if v.T == nil {
			e.rpanic(c, "IsZero on zero Value")
			return
		}
		e.rload(c, v, func(st *State, x Value) {
			switch y := x.(type) {
			case SliceV:
				c.k(st, y.Nil)
				return
			case FloatV: // +0 only; the sign of zero is not modelled
				c.k(st, And(Eq(y.Cls, TI(0)), Eq(y.Val, TRat(new(big.Rat)))))
				return
			}
			t, bad := e.eqTerm(st, x, zeroValue(v.T), v.T)
			if bad != "" {
				panic(unsup("reflect.Value.IsZero of %s", v.T))
			}
			c.k(st, t)
		})
	})
	// ---- reflect.Type ----
	rtM("Kind", func(e *Engine, c *Call, t types.Type) { c.ret(TI(rkind(t))) })
	rtM("Name", func(e *Engine, c *Call, t types.Type) { c.ret(concStr(rname(t))) })
	rtM("String", func(e *Engine, c *Call, t types.Type) { c.ret(concStr(rstring(t))) })
	rtM("PkgPath", func(e *Engine, c *Call, t types.Type) {
		s := ""
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			s = n.Obj().Pkg().Path()
		}
		c.ret(concStr(s))
	})
	rtM("Size", func(e *Engine, c *Call, t types.Type) {
		c.ret(TI(types.SizesFor("gc", "amd64").Sizeof(t)))
	})
	rtM("Bits", func(e *Engine, c *Call, t types.Type) {
		c.ret(TI(types.SizesFor("gc", "amd64").Sizeof(t) * 8))
	})
	rtM("Elem", func(e *Engine, c *Call, t types.Type) {
		switch u := under(t).(type) {
		case *types.Pointer:
			c.ret(e.rtypeIface(u.Elem()))
		case *types.Slice:
			c.ret(e.rtypeIface(u.Elem()))
		case *types.Array:
			c.ret(e.rtypeIface(u.Elem()))
		case *types.Map:
			c.ret(e.rtypeIface(u.Elem()))
		case *types.Chan:
			c.ret(e.rtypeIface(u.Elem()))
		default:
			e.rpanic(c, "Elem of invalid type")
		}
	})
	rtM("Comparable", func(e *Engine, c *Call, t types.Type) { c.ret(TBool(types.Comparable(t))) })
	rtM("ConvertibleTo", func(e *Engine, c *Call, t types.Type) { c.ret(TBool(types.ConvertibleTo(t, e.rtArg(c, 1)))) })
	rtM("AssignableTo", func(e *Engine, c *Call, t types.Type) { c.ret(TBool(types.AssignableTo(t, e.rtArg(c, 1)))) })
	rtM("NumField", func(e *Engine, c *Call, t types.Type) { c.ret(TI(int64(under(t).(*types.Struct).NumFields()))) })
	handlers["reflect.PointerTo"] = func(e *Engine, c *Call) { c.ret(e.rtypeIface(types.NewPointer(e.rtArg(c, 0)))) }
	handlers["reflect.PtrTo"] = handlers["reflect.PointerTo"]
	handlers["reflect.SliceOf"] = func(e *Engine, c *Call) { c.ret(e.rtypeIface(types.NewSlice(e.rtArg(c, 0)))) }
	handlers["(reflect.Kind).String"] = func(e *Engine, c *Call) {
		if t := c.t(0); t.N != nil {
			c.ret(concStr(reflect.Kind(t.N.Int64()).String()))
			return
		}
		c.ret(c.st.opaqueStr(TVar(e.freshName("kind"), SStr)))
	}
	// ---- regexp ----
	handlers["regexp.MustCompile"] = func(e *Engine, c *Call) {
		pat := c.conc(0)
		re, err := regexp.Compile(pat)
		if err != nil {
			e.rtPanic(c.st, c.p, "regexp: "+err.Error())
			return
		}
		id := c.st.alloc(&Obj{Kind: 'c', Val: RegexV{re: re, pat: pat}, Origin: "regexp"})
		c.ret(Ptr{Obj: id})
	}
	handlers["regexp.Compile"] = func(e *Engine, c *Call) {
		s, ok := c.str(0).concrete()
		if !ok {
			// an arbitrary pattern is valid or not, and determines the matches
			t := c.st.strTerm(c.str(0))
			e.fork(c.st, TApp("re.valid", SBool, t), func(st *State) {
				id := st.alloc(&Obj{Kind: 'c', Val: RegexV{t: t}, Origin: "regexp"})
				c.k(st, TupleV{Ptr{Obj: id}, IfaceV{}})
			}, func(st *State) {
				c.k(st, TupleV{Ptr{}, e.newError(st, nil)})
			})
			return
		}
		re, err := regexp.Compile(s)
		if err != nil {
			c.ret(TupleV{Ptr{}, e.newError(c.st, nil)})
			return
		}
		id := c.st.alloc(&Obj{Kind: 'c', Val: RegexV{re: re, pat: s}, Origin: "regexp"})
		c.ret(TupleV{Ptr{Obj: id}, IfaceV{}})
	}
}

// regexTerm is the pattern of the receiver of a method.
func regexTerm(c *Call) *Term {
	p, ok := c.args[0].(Ptr)
	if !ok || p.Sym != nil || p.Obj == 0 {
		panic(unsup("unknown regexp"))
	}
	r, ok := c.st.obj(p.Obj).Val.(RegexV)
	if !ok {
		panic(unsup("unknown regexp"))
	}
	if r.t != nil {
		return r.t
	}
	return c.st.strTerm(concStr(r.pat))
}

func init() {
	handlers["(*regexp.Regexp).FindStringSubmatch"] = func(e *Engine, c *Call) {
		if c.str(1).lazy() {
			e.expand(c.st, c.args[1], func(st *State, s *StrV) {
				n := *c
				n.st, n.args = st, []Value{c.args[0], s}
				if s.lazy() || !e.regexSubmatch(&n) {
					panic(unsup("regexp on the text of a large number"))
				}
			})
			return
		}
		if e.regexSubmatch(c) {
			return
		}
		re, str := regexTerm(c), c.st.strTerm(c.str(1))
		m := TApp("re.match", SBool, re, str)
		e.fork(c.st, m, func(st *State) {
			n := 0
			tr := treeShape(types.Typ[types.String], 1, func(s Sort) *Term {
				n++
				return TApp(fmt.Sprintf("re.parts%d", n), s, re, str)
			})
			id := st.alloc(&Obj{Kind: 'a', Typ: types.Typ[types.String], Sym: tr, Origin: "regexp"})
			l := TApp("re.nparts", SInt, re)
			st.assume(rawLe(TI(1), l))
			st.assume(rawLe(l, TBig(maxLen)))
			c.k(st, SliceV{id, TI(0), l, l, TFalse})
		}, func(st *State) {
			c.k(st, SliceV{0, TI(0), TI(0), TI(0), TTrue})
		})
	}
	handlers["(*regexp.Regexp).MatchString"] = func(e *Engine, c *Call) {
		if c.str(1).lazy() {
			if _, ok := intOfStr(c.str(1)); ok && e.regexMatchText(c) {
				return
			}
			e.expand(c.st, c.args[1], func(st *State, s *StrV) {
				n := *c
				n.st, n.args = st, []Value{c.args[0], s}
				if s.lazy() || !e.regexMatch(&n) && !e.regexMatchText(&n) {
					panic(unsup("regexp on the text of a large number"))
				}
			})
			return
		}
		if e.regexMatch(c) || e.regexMatchText(c) {
			return
		}
		c.ret(TApp("re.match", SBool, regexTerm(c), c.st.strTerm(c.str(1))))
	}
	handlers["(*regexp.Regexp).String"] = func(e *Engine, c *Call) {
		c.ret(c.st.opaqueStr(regexTerm(c)))
	}
	handlers["(*regexp.Regexp).NumSubexp"] = func(e *Engine, c *Call) {
		c.ret(Sub(TApp("re.nparts", SInt, regexTerm(c)), TI(1)))
	}
	// http.Error writes the status and then some text; what it does with headers is not modelled
	handlers["net/http.Error"] = func(e *Engine, c *Call) {
		w, ok := c.args[0].(IfaceV)
		if !ok || w.Typ == nil {
			panic(unsup("http.Error on an unknown writer"))
		}
		method := func(name string) *types.Func {
			o, _, _ := types.LookupFieldOrMethod(w.Typ, true, nil, name)
			f, ok := o.(*types.Func)
			if !ok {
				panic(unsup("no method %s on %s", name, w.Typ))
			}
			return f
		}
		e.invoke(c.st, w, method("WriteHeader"), []Value{c.args[2]}, c.site, func(st *State, _ Value) {
			e.invoke(st, w, method("Write"), []Value{e.anySlice(st, "text", types.Typ[types.Uint8])}, c.site, func(st *State, _ Value) {
				c.k(st, TupleV{})
			}, c.p)
		}, c.p)
	}
}

func (e *Engine) rload(c *Call, v RVal, k func(*State, Value)) {
	if v.Addr != nil {
		e.load(c.st, *v.Addr, v.T, c.p, k)
		return
	}
	k(c.st, v.V)
}

var _ = ssa.NaiveForm
