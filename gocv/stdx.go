package main

// Assumed contracts of standard library functions that micro does not call today, but that an equivalent rewrite of it
// may well call.

import (
	"go/types"
	"math/big"
	"strings"
	"unicode/utf8"
)

func init() {
	for _, n := range []string{
		"strings.Cut", "strings.CutPrefix", "strings.CutSuffix", "strings.EqualFold", "strings.TrimFunc", "strings.TrimLeftFunc",
		"strings.TrimRightFunc", "strings.IndexFunc", "strings.LastIndexFunc", "strings.indexFunc", "strings.lastIndexFunc",
		"strings.ContainsFunc", "strconv.FormatBool", "strconv.AppendBool", "strconv.ParseBool", "io.WriteString", "math/bits.Mul",
		"math/bits.Add", "math/bits.Sub", "strings.Compare", "bytes.Equal", "bytes.Clone", "strings.Clone",
	} {
		stdInlineFns[n] = true
	}

	// A position of a character in a text.
	indexRune := func(c *Call) *Term {
		s, r := c.str(0), c.t(1)
		if cs, ok := s.concrete(); ok {
			res := TI(-1)
			type at struct {
				r rune
				i int
			}
			var all []at
			for i, x := range cs {
				all = append(all, at{x, i})
			}
			for k := len(all) - 1; k >= 0; k-- {
				res = Ite(Eq(r, TI(int64(all[k].r))), TI(int64(all[k].i)), res)
			}
			return res
		}
		if r.N == nil || !s.IsVec || r.N.Int64() == utf8.RuneError {
			panic(unsup("strings.IndexRune of an unknown character in an unknown text"))
		}
		if !utf8.ValidRune(rune(r.N.Int64())) {
			return TI(-1)
		}
		p := concVec(string(rune(r.N.Int64())))
		res := TI(-1)
		for i := len(s.Vec) - len(p); i >= 0; i-- {
			res = Ite(vecAt(s.Vec, i, p), TI(int64(i)), res)
		}
		return res
	}
	text := func(name string, is []int, h func(e *Engine, c *Call)) {
		handlers[name] = func(e *Engine, c *Call) { e.expandAll(c, is, func(c *Call) { h(e, c) }) }
	}
	text("strings.IndexRune", []int{0}, func(e *Engine, c *Call) { c.ret(indexRune(c)) })
	text("strings.ContainsRune", []int{0}, func(e *Engine, c *Call) { c.ret(Le(TI(0), indexRune(c))) })
	text("strings.ContainsAny", []int{0, 1}, func(e *Engine, c *Call) {
		s := c.str(0)
		cs, ok := c.str(1).concrete()
		if !ok || !s.IsVec {
			panic(unsup("strings.ContainsAny of an unknown text"))
		}
		r := TFalse
		for _, x := range cs {
			p := concVec(string(x))
			for i := 0; i+len(p) <= len(s.Vec); i++ {
				r = Or(r, vecAt(s.Vec, i, p))
			}
		}
		c.ret(r)
	})
	text("strings.Count", []int{0, 1}, func(e *Engine, c *Call) {
		s, ok := c.str(0).concrete()
		p, ok2 := c.str(1).concrete()
		if ok && ok2 {
			c.ret(TI(int64(strings.Count(s, p))))
			return
		}
		if v := c.str(0); v.IsVec && ok2 && len(p) == 1 {
			n := TI(0)
			for i := range v.Vec {
				n = Add(n, Ite(vecAt(v.Vec, i, concVec(p)), TI(1), TI(0)))
			}
			c.ret(n)
			return
		}
		panic(unsup("strings.Count of an unknown text"))
	})
	text("strings.SplitN", []int{0, 1}, func(e *Engine, c *Call) {
		s, o, n := c.str(0), c.str(1), c.t(2)
		if !s.IsVec || !o.IsVec || len(o.Vec) == 0 || n.N == nil {
			panic(unsup("strings.SplitN of an unknown text"))
		}
		max := n.N.Int64()
		if max == 0 {
			panic(unsup("strings.SplitN into nothing"))
		}
		var rec func(st *State, from, at int, acc []*StrV)
		rec = func(st *State, from, at int, acc []*StrV) {
			if at+len(o.Vec) > len(s.Vec) || max > 0 && int64(len(acc)) == max-1 {
				c.k(st, strSlice(st, append(acc[:len(acc):len(acc)], vecStr(s.Vec[from:]))))
				return
			}
			e.fork(st, vecAt(s.Vec, at, o.Vec), func(st *State) {
				rec(st, at+len(o.Vec), at+len(o.Vec), append(acc[:len(acc):len(acc)], vecStr(s.Vec[from:at])))
			}, func(st *State) { rec(st, from, at+1, acc) })
		}
		rec(c.st, 0, 0, nil)
	})

	handlers["strconv.Atoi"] = func(e *Engine, c *Call) {
		n := *c
		n.args = []Value{c.args[0], TI(10), TI(64)}
		handlers["strconv.ParseInt"](e, &n)
	}
	byteT := types.Typ[types.Uint8]
	for _, n := range []string{"AppendInt", "AppendUint"} {
		handlers["strconv."+n] = func(e *Engine, c *Call) {
			if b := c.t(2); b.N == nil || b.N.Int64() != 10 {
				panic(unsup("strconv.AppendInt base"))
			}
			e.intToStr(c.st, c.t(1), func(st *State, v Value) { e.appendS(st, c.args[0].(SliceV), v, byteT, c.k) })
		}
	}

	// ---- math/bits: arithmetic with carry ----
	two64 := TBig(new(big.Int).Lsh(bOne, 64))
	handlers["math/bits.Add64"] = func(e *Engine, c *Call) {
		s := Add(Add(c.t(0), c.t(1)), c.t(2))
		over := Le(two64, s)
		c.ret(TupleV{Ite(over, Sub(s, two64), s), Ite(over, TI(1), TI(0))})
	}
	handlers["math/bits.Sub64"] = func(e *Engine, c *Call) {
		s := Sub(Sub(c.t(0), c.t(1)), c.t(2))
		under := Lt(s, TI(0))
		c.ret(TupleV{Ite(under, Add(s, two64), s), Ite(under, TI(1), TI(0))})
	}
	handlers["math/bits.Mul64"] = func(e *Engine, c *Call) {
		p := Mul(c.t(0), c.t(1))
		c.ret(TupleV{DivE(p, two64), ModE(p, two64)})
	}
}

func concVec(s string) []*Term {
	var v []*Term
	for i := 0; i < len(s); i++ {
		v = append(v, TI(int64(s[i])))
	}
	return v
}
