// Package cjson has the contracts of packages encoding/json, encoding/json/write, and encoding/json/parse.
package cjson

import (
	"math/big"
	"strconv"

	"github.com/bantling/micro/conv"
	"github.com/bantling/micro/encoding/json"
	"vf/gv"
)

// isNumber says if s is a JSON number, as RFC 8259 has it.
func isNumber(s string) bool {
	const (
		start = iota
		minus
		zero
		digits
		dot
		frac
		exp
		sign
		power
		bad
	)
	st := start
	for i := 0; i < len(s); i++ {
		c := s[i]
		d := c >= '0' && c <= '9'
		switch {
		case st == start && c == '-':
			st = minus
		case (st == start || st == minus) && c == '0':
			st = zero
		case (st == start || st == minus) && d:
			st = digits
		case st == digits && d:
		case (st == zero || st == digits) && c == '.':
			st = dot
		case (st == dot || st == frac) && d:
			st = frac
		case (st == zero || st == digits || st == frac) && (c == 'e' || c == 'E'):
			st = exp
		case st == exp && (c == '+' || c == '-'):
			st = sign
		case (st == exp || st == sign || st == power) && d:
			st = power
		default:
			st = bad
		}
	}
	return st == zero || st == digits || st == frac || st == power
}

// text is any string of n bytes.
func text(what string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = gv.Any[byte](what)
	}
	return string(b)
}

// is checks what the other methods of a value of some type do.
func is(v json.Value, t json.Type) {
	gv.Assert("the type", v.Type() == t)
	gv.Assert("null only if null", v.IsNull() == (t == json.Null))
	gv.Assert("a document if an object or an array", v.IsDocument() == (t == json.Object || t == json.Array))
	gv.Assert("AsMap panics if not an object", gv.Panics(func() { v.AsMap() }) == (t != json.Object))
	gv.Assert("ToMap panics if not an object", t == json.Object || gv.Panics(func() { v.ToMap() }))
	gv.Assert("AsSlice panics if not an array", gv.Panics(func() { v.AsSlice() }) == (t != json.Array))
	gv.Assert("ToSlice panics if not an array", t == json.Array || gv.Panics(func() { v.ToSlice() }))
	gv.Assert("AsNumber panics if not a number", gv.Panics(func() { v.AsNumber() }) == (t != json.Number))
	gv.Assert("AsBool panics if not a boolean", gv.Panics(func() { v.AsBool() }) == (t != json.Boolean))
	gv.Assert("AsString panics if not a string, number, or boolean",
		gv.Panics(func() { v.AsString() }) == (t != json.String && t != json.Number && t != json.Boolean))
}

func stringValue() {
	s := gv.Any[string]("s")
	v := json.StringToValue(s)
	w, err := json.ToValue(s)
	gv.Assert("no error", err == nil)
	for _, x := range []json.Value{v, w} {
		is(x, json.String)
		gv.Assert("the string", x.AsString() == s)
		a, ok := x.ToAny().(string)
		gv.Assert("as any", ok && a == s)
	}
}

func boolValue() {
	b := gv.Bool("b")
	v := json.BoolToValue(b)
	w, err := json.ToValue(b)
	gv.Assert("no error", err == nil)
	for _, x := range []json.Value{v, w} {
		is(x, json.Boolean)
		gv.Assert("the bool", x.AsBool() == b)
		gv.Assert("as a string", x.AsString() == gv.Ite(b, "true", "false"))
		a, ok := x.ToAny().(bool)
		gv.Assert("as any", ok && a == b)
	}
}

func nullValue() {
	is(json.NullValue, json.Null)
	gv.Assert("as any", json.NullValue.ToAny() == nil)
	is(json.Value{}, json.Invalid)
	var m map[string]any
	_ = m
	v, err := json.SliceToValue([]any{nil, (*big.Int)(nil), (*big.Float)(nil), (*big.Rat)(nil)})
	gv.Assert("no error", err == nil)
	gv.Assert("all of them", len(v.AsSlice()) == 4)
	for _, x := range v.AsSlice() {
		is(x, json.Null)
	}
}

func numberText(n int) {
	gv.Bounded("number texts of up to 7 bytes")
	s := text("text", n)
	v, err := json.NumberToValue(json.NumberString(s))
	w, err2 := json.ToValue(json.NumberString(s))
	gv.Assert("an error exactly if the text is not a number", (err == nil) == isNumber(s) && (err2 == nil) == isNumber(s))
	if err != nil {
		is(v, json.Invalid)
		return
	}
	for _, x := range []json.Value{v, w} {
		is(x, json.Number)
		gv.Assert("the text is kept", string(x.AsNumber()) == s && x.AsString() == s)
		a, ok := x.ToAny().(json.NumberString)
		gv.Assert("as any", ok && string(a) == s)
	}
}

func integer[T int | int8 | int16 | int32 | int64 | uint | uint8 | uint16 | uint32 | uint64](name string) {
	gv.Register("C27", "integer_"+name, func() {
		i := gv.Any[T]("i")
		v, err := json.NumberToValue(i)
		w, err2 := json.ToValue(i)
		gv.Assert("no error", err == nil && err2 == nil)
		for _, x := range []json.Value{v, w} {
			is(x, json.Number)
			var j T
			gv.Assert("the text reads back as the integer", conv.To(x.AsString(), &j) == nil && j == i)
		}
	})
}

func float[T float32 | float64](name string, bits int) {
	gv.Register("C27", "float_"+name, func() {
		f := gv.Any[T]("f")
		v, err := json.NumberToValue(f)
		w, err2 := json.ToValue(f)
		fin := gv.Finite(f)
		gv.Assert("an error exactly if not a number that JSON has", (err == nil) == fin && (err2 == nil) == fin)
		if err != nil {
			is(v, json.Invalid)
			is(w, json.Invalid)
			return
		}
		for _, x := range []json.Value{v, w} {
			is(x, json.Number)
			gv.Assert("the shortest text that reads back as the float", x.AsString() == strconv.FormatFloat(float64(f), 'f', -1, bits))
		}
	})
}

func bigInt() {
	b := gv.Any[*big.Int]("b")
	gv.Assume(b != nil)
	v, err := json.NumberToValue(b)
	w, err2 := json.ToValue(b)
	gv.Assert("no error", err == nil && err2 == nil)
	for _, x := range []json.Value{v, w} {
		is(x, json.Number)
		var c *big.Int
		gv.Assert("the text reads back as the integer", conv.To(x.AsString(), &c) == nil && c.Cmp(b) == 0)
	}
}

func bigRat() {
	b := gv.Any[*big.Rat]("b")
	gv.Assume(b != nil)
	v, err := json.NumberToValue(b)
	gv.Assert("no error", err == nil)
	is(v, json.Number)
	_, err = json.NumberToValue(v.AsNumber())
	gv.Assert("the text is a number", err == nil)
	if b.IsInt() {
		var c *big.Int
		gv.Assert("the text of an integer reads back as it", conv.To(v.AsString(), &c) == nil && c.Cmp(b.Num()) == 0)
	}
}

func bigFloat() {
	b := gv.Any[*big.Float]("b")
	gv.Assume(b != nil)
	v, err := json.NumberToValue(b)
	gv.Assert("an error exactly if infinite", (err != nil) == b.IsInf())
	if err != nil {
		is(v, json.Invalid)
		return
	}
	is(v, json.Number)
	_, err = json.NumberToValue(v.AsNumber())
	gv.Assert("the text is a number", err == nil)
}

// same says if two scalar values are the same.
func same(v, w json.Value) bool {
	switch {
	case v.Type() != w.Type():
		return false
	case v.Type() == json.String || v.Type() == json.Number || v.Type() == json.Boolean:
		return v.AsString() == w.AsString()
	}
	return v.IsNull()
}

// oneOf is any scalar value.
func oneOf(what string) json.Value {
	switch gv.Choice(what, 4) {
	case 0:
		return json.StringToValue(gv.Any[string](what + " string"))
	case 1:
		return json.BoolToValue(gv.Bool(what + " bool"))
	case 2:
		v, _ := json.NumberToValue(gv.Any[int](what + " int"))
		return v
	}
	return json.NullValue
}

// asAny checks the any that a scalar value becomes.
func asAny(v json.Value, a any) {
	switch v.Type() {
	case json.String:
		s, ok := a.(string)
		gv.Assert("a string", ok && s == v.AsString())
	case json.Number:
		s, ok := a.(json.NumberString)
		gv.Assert("a number", ok && s == v.AsNumber())
	case json.Boolean:
		b, ok := a.(bool)
		gv.Assert("a bool", ok && b == v.AsBool())
	default:
		gv.Assert("nil", a == nil)
	}
}

func must(v json.Value, err error) json.Value {
	gv.Assert("no error", err == nil)
	return v
}

func slices() {
	gv.Bounded("arrays of 2 values, one of them an array of one")
	a, b := oneOf("a"), oneOf("b")
	in, err := json.SliceToValue([]json.Value{b})
	gv.Assert("no error", err == nil)
	for _, v := range []json.Value{must(json.SliceToValue([]json.Value{a, in})), must(json.ToValue([]json.Value{a, in}))} {
		is(v, json.Array)
		s := v.AsSlice()
		gv.Assert("the values", len(s) == 2 && same(s[0], a) && s[1].Type() == json.Array && len(s[1].AsSlice()) == 1 && same(s[1].AsSlice()[0], b))
		for _, t := range [][]any{v.ToSlice(), v.ToAny().([]any)} {
			gv.Assert("as many", len(t) == 2)
			asAny(a, t[0])
			u, ok := t[1].([]any)
			gv.Assert("an array of one", ok && len(u) == 1)
			asAny(b, u[0])
		}
	}
}

func maps() {
	gv.Bounded("objects of 2 values, one of them an object of one")
	a, b := oneOf("a"), oneOf("b")
	j, k, l := gv.Any[string]("j"), gv.Any[string]("k"), gv.Any[string]("l")
	gv.Assume(j != k)
	in, err := json.MapToValue(map[string]json.Value{l: b})
	gv.Assert("no error", err == nil)
	for _, v := range []json.Value{must(json.MapToValue(map[string]json.Value{j: a, k: in})), must(json.ToValue(map[string]json.Value{j: a, k: in}))} {
		is(v, json.Object)
		m := v.AsMap()
		x, ok := m[j]
		gv.Assert("the first", len(m) == 2 && ok && same(x, a))
		y, ok := m[k]
		gv.Assert("the second", ok && y.Type() == json.Object && len(y.AsMap()) == 1)
		z, ok := y.AsMap()[l]
		gv.Assert("the value in it", ok && same(z, b))
		for _, n := range []map[string]any{v.ToMap(), v.ToAny().(map[string]any)} {
			c, ok := n[j]
			gv.Assert("the first", len(n) == 2 && ok)
			asAny(a, c)
			d, ok := n[k].(map[string]any)
			gv.Assert("an object of one", ok && len(d) == 1)
			f, ok := d[l]
			gv.Assert("with its key", ok)
			asAny(b, f)
		}
	}
}

// scalar is any element of an object or array that is not one, and a check of the value made of it.
// bad if it is of a type there is no value of.
func scalar(i string) (a any, check func(v json.Value), bad bool) {
	switch gv.Choice("element"+i, 8) {
	case 0:
		s := gv.Any[string]("string" + i)
		return s, func(v json.Value) { gv.Assert("the string", v.Type() == json.String && v.AsString() == s) }, false
	case 1:
		b := gv.Bool("bool" + i)
		return b, func(v json.Value) { gv.Assert("the bool", v.Type() == json.Boolean && v.AsBool() == b) }, false
	case 2:
		n := gv.Any[int]("int" + i)
		return n, func(v json.Value) {
			var m int
			gv.Assert("the number", v.Type() == json.Number && conv.To(v.AsString(), &m) == nil && m == n)
		}, false
	case 3:
		return nil, func(v json.Value) { gv.Assert("null", v.Type() == json.Null) }, false
	case 4:
		d := text("digits"+i, 2)
		return json.NumberString(d), func(v json.Value) {
			gv.Assert("the number text", v.Type() == json.Number && string(v.AsNumber()) == d)
		}, !isNumber(d)
	case 5:
		return struct{ I int }{gv.Any[int]("field" + i)}, nil, true
	case 6:
		type mine string
		return mine(gv.Any[string]("mine" + i)), nil, true
	}
	return []int{gv.Any[int]("ints" + i)}, nil, true
}

// element is any scalar, or an array or object of one.
func element(i string) (a any, check func(v json.Value), bad bool) {
	switch gv.Choice("nesting"+i, 3) {
	case 0:
		return scalar(i)
	case 1:
		s, c, b := scalar(i)
		return []any{s}, func(v json.Value) {
			gv.Assert("an array of it", v.Type() == json.Array && len(v.AsSlice()) == 1)
			c(v.AsSlice()[0])
		}, b
	}
	k := gv.Any[string]("key" + i)
	s, c, b := scalar(i)
	return map[string]any{k: s}, func(v json.Value) {
		gv.Assert("an object of it", v.Type() == json.Object && len(v.AsMap()) == 1)
		x, ok := v.AsMap()[k]
		gv.Assert("with its key", ok)
		c(x)
	}, b
}

func array(n int) {
	gv.Bounded("arrays of up to 2 elements, each a scalar, or an array or object of one")
	var (
		in     []any
		checks []func(v json.Value)
		bad    bool
	)
	for i := 0; i < n; i++ {
		a, c, b := element(string(rune('0' + i)))
		in, checks, bad = append(in, a), append(checks, c), bad || b
	}
	v, err := json.SliceToValue(in)
	w, err2 := json.ToValue(in)
	gv.Assert("an error exactly if an element cannot be a value", (err != nil) == bad && (err2 != nil) == bad)
	if bad {
		gv.Assert("then the value is invalid", v.Type() == json.Invalid && w.Type() == json.Invalid)
		return
	}
	for _, x := range []json.Value{v, w} {
		gv.Assert("all elements", x.Type() == json.Array && len(x.AsSlice()) == n)
		for i, c := range checks {
			c(x.AsSlice()[i])
		}
	}
}

func init() {
	gv.Register("C27", "string", stringValue)
	gv.Register("C27", "bool", boolValue)
	gv.Register("C27", "null", nullValue)
	for n := 0; n <= 7; n++ {
		gv.Register("C27", "number_text_"+string(rune('0'+n)), func() { numberText(n) })
	}
	integer[int]("int")
	integer[int8]("int8")
	integer[int16]("int16")
	integer[int32]("int32")
	integer[int64]("int64")
	integer[uint]("uint")
	integer[uint8]("uint8")
	integer[uint16]("uint16")
	integer[uint32]("uint32")
	integer[uint64]("uint64")
	float[float32]("float32", 32)
	float[float64]("float64", 64)
	gv.Register("C27", "big_Int", bigInt)
	gv.Register("C27", "big_Rat", bigRat)
	gv.Register("C27", "big_Float", bigFloat)
	gv.Register("C27", "slices", slices)
	gv.Register("C27", "maps", maps)
	for n := 0; n <= 2; n++ {
		gv.Register("C27", "array_"+string(rune('0'+n)), func() { array(n) })
	}
}
