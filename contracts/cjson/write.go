package cjson

import (
	"github.com/bantling/micro/encoding/json"
	"github.com/bantling/micro/encoding/json/write"
	"vf/gv"
)

// buffer is a writer of runes that has an error from some call on.
type buffer struct {
	out   []rune
	calls int // that do not fail, if fails
	fails bool
	err   error
	after bool // written to after an error
	stop  bool
}

func (b *buffer) Write(rs ...rune) error {
	if b.stop {
		b.after = true
	}
	if b.fails {
		if b.calls == 0 {
			b.stop = true
			return b.err
		}
		b.calls--
	}
	b.out = append(b.out, rs...)
	return nil
}

func written(v json.Value) []rune {
	b := &buffer{}
	gv.Assert("no error", write.Write(v, b) == nil)
	return b.out
}

func hexDigit(r rune) rune {
	switch {
	case r >= '0' && r <= '9':
		return r - '0'
	case r >= 'a' && r <= 'f':
		return r - 'a' + 10
	case r >= 'A' && r <= 'F':
		return r - 'A' + 10
	}
	return -1
}

// decode reads the text of a JSON string; ok if it is one.
func decode(t []rune) (s []rune, ok bool) {
	if len(t) < 2 || t[0] != '"' || t[len(t)-1] != '"' {
		return nil, false
	}
	t = t[1 : len(t)-1]
	for i := 0; i < len(t); i++ {
		switch c := t[i]; {
		case c < ' ' || c == '"':
			return nil, false
		case c == '\\':
			if i++; i == len(t) {
				return nil, false
			}
			switch t[i] {
			case '"', '\\', '/':
				s = append(s, t[i])
			case 'b':
				s = append(s, 8)
			case 'f':
				s = append(s, 12)
			case 'n':
				s = append(s, 10)
			case 'r':
				s = append(s, 13)
			case 't':
				s = append(s, 9)
			case 'u':
				if i+4 >= len(t) {
					return nil, false
				}
				var u rune
				for k := 1; k <= 4; k++ {
					d := hexDigit(t[i+k])
					if d < 0 {
						return nil, false
					}
					u = u*16 + d
				}
				s = append(s, u)
				i += 4
			default:
				return nil, false
			}
		default:
			s = append(s, c)
		}
	}
	return s, true
}

func writeString(n int) {
	gv.Bounded("strings of up to 2 bytes")
	s := text("text", n)
	got, ok := decode(written(json.StringToValue(s)))
	want := []rune(s)
	gv.Assert("a JSON string", ok)
	gv.Assert("of as many characters", len(got) == len(want))
	for i, r := range want {
		gv.Assert("the same characters", got[i] == r)
	}
}

func writeScalar() {
	gv.Bounded("number texts of up to 3 bytes")
	switch gv.Choice("type", 4) {
	case 0:
		b := gv.Bool("b")
		gv.Assert("true or false", string(written(json.BoolToValue(b))) == gv.Ite(b, "true", "false"))
	case 1:
		gv.Assert("null", string(written(json.NullValue)) == "null")
	case 2:
		s := text("number", gv.Choice("digits", 4))
		v, err := json.NumberToValue(json.NumberString(s))
		if err == nil {
			gv.Assert("the text of the number", string(written(v)) == s)
		}
	case 3:
		gv.Assert("an empty array", string(written(must(json.SliceToValue([]json.Value{})))) == "[]")
		gv.Assert("an empty object", string(written(must(json.MapToValue(map[string]json.Value{})))) == "{}")
	}
}

// writeRune writes a string of any one character.
func writeRune() {
	gv.Bounded("strings of one character")
	r := gv.Any[rune]("r")
	gv.Assume(r >= 128 && (r < 0xD800 || r > 0xDFFF) && r <= 0x10FFFF)
	got, ok := decode(written(json.StringToValue(string(r))))
	gv.Assert("a JSON string of the character", ok && len(got) == 1 && got[0] == r)
}

// writeKey writes an object with a key of two bytes.
func writeKey() {
	gv.Bounded("keys of up to 2 bytes")
	k := text("key", gv.Choice("length", 3))
	got := written(must(json.MapToValue(map[string]json.Value{k: json.NullValue})))
	n := len(got)
	gv.Assert("a pair in braces", n >= 7 && got[0] == '{' && string(got[n-6:]) == ":null}")
	gv.Assert("the key written as a string is", eq(got[1:n-6], written(json.StringToValue(k))))
}

func letter(what string) string {
	s := text(what, 1)
	gv.Assume(s[0] >= 'a' && s[0] <= 'z')
	return s
}

// small is any value of a few kinds, with an arbitrary text of one letter or digit.
func small(what string) json.Value {
	switch gv.Choice(what, 7) {
	case 0:
		return json.StringToValue(letter(what+" string"))
	case 1:
		return json.BoolToValue(gv.Bool(what + " bool"))
	case 2:
		s := text(what+" digit", 1)
		gv.Assume(s[0] >= '0' && s[0] <= '9')
		return must(json.NumberToValue(json.NumberString(s)))
	case 3:
		return must(json.SliceToValue([]json.Value{json.StringToValue(letter(what+" element"))}))
	case 4:
		return must(json.SliceToValue([]json.Value{}))
	case 5:
		return must(json.MapToValue(map[string]json.Value{}))
	}
	return must(json.MapToValue(map[string]json.Value{letter(what+" key"): json.NullValue}))
}

func eq(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func writeArray(n int) {
	gv.Bounded("arrays of up to 3 values, with strings of one letter")
	vs := []json.Value{}
	want := []rune{'['}
	for i := 0; i < n; i++ {
		v := json.NullValue
		if i < 2 {
			v = small(string(rune('0' + i)))
		}
		vs = append(vs, v)
		if i > 0 {
			want = append(want, ',')
		}
		want = append(want, written(v)...)
	}
	a := must(json.SliceToValue(vs))
	want = append(want, ']')
	gv.Assert("the texts of the values in order, separated by commas, in brackets", eq(written(a), want))
	b := &buffer{}
	gv.Assert("the same by WriteArray", write.WriteArray(a, b) == nil && eq(b.out, want))
}

func writeObject() {
	gv.Bounded("objects of 1 or 2 values, with strings and keys of one letter")
	j, k := letter("j"), letter("k")
	v, w := small("v"), small("w")
	pair := func(k string, v json.Value) []rune {
		return append(append(written(json.StringToValue(k)), ':'), written(v)...)
	}
	obj := func(parts ...[]rune) (t []rune) {
		t = []rune{'{'}
		for i, p := range parts {
			if i > 0 {
				t = append(t, ',')
			}
			t = append(t, p...)
		}
		return append(t, '}')
	}
	one := must(json.MapToValue(map[string]json.Value{j: v}))
	gv.Assert("a string, a colon and the value, in braces", eq(written(one), obj(pair(j, v))))
	gv.Assume(j != k)
	two := must(json.MapToValue(map[string]json.Value{j: v, k: w}))
	b := &buffer{}
	gv.Assert("no error", write.WriteObject(two, b) == nil)
	gv.Assert("both, in any order", eq(b.out, obj(pair(j, v), pair(k, w))) || eq(b.out, obj(pair(k, w), pair(j, v))))
}

func writeError() {
	gv.Bounded("values of up to 3 elements")
	var v json.Value
	switch gv.Choice("value", 4) {
	case 0:
		v = small("v")
	case 1:
		v = must(json.SliceToValue([]json.Value{json.TrueValue, small("v"), json.NullValue}))
	case 2:
		v = must(json.MapToValue(map[string]json.Value{"a": small("v"), "b": json.NullValue}))
	case 3:
		v = must(json.MapToValue(map[string]json.Value{"a": must(json.SliceToValue([]json.Value{json.TrueValue, json.NullValue}))}))
	}
	b := &buffer{fails: true, calls: gv.Choice("calls", 14), err: gv.ErrNonNil("error")}
	err := write.Write(v, b)
	gv.Assert("the error of the writer, exactly if it has one", gv.Ite(b.stop, err == b.err, err == nil))
	gv.Assert("nothing written after it", !b.after)
}

func init() {
	for n := 0; n <= 2; n++ {
		gv.Register("C28", "string_"+string(rune('0'+n)), func() { writeString(n) })
	}
	gv.Register("C28", "scalar", writeScalar)
	gv.Register("C28", "rune", writeRune)
	gv.Register("C28", "key", writeKey)
	for n := 1; n <= 3; n++ {
		gv.Register("C28", "array_"+string(rune('0'+n)), func() { writeArray(n) })
	}
	gv.Register("C28", "object", writeObject)
	gv.Register("C28", "error", writeError)
}
