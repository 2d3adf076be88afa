package cjson

import (
	"github.com/bantling/micro/encoding/json"
	"vf/gv"
)

// the parts of a path
type part struct {
	key   string
	index int // if there is no key
}

const alphabet = "ab.[]012"

// drawPath is any path of some first and up to n characters, that ends after it is known not to be one, and its parts.
func drawPath(first string, n int) (path string, parts []part, ok bool) {
	const (
		start  = iota
		dot    // after .
		inKey  // after the first character of a key
		open   // after [
		digits // after the first digit of an index
		end    // after ]
		bad
	)
	st := start
	for len(path) < n && st != bad {
		var c byte
		if len(path) < len(first) {
			c = first[len(path)]
		} else {
			i := gv.Choice("char"+string(rune('a'+len(path))), len(alphabet)+1)
			if i == len(alphabet) {
				break
			}
			c = alphabet[i]
		}
		path += string([]byte{c})
		digit := c >= '0' && c <= '9'
		last := len(parts) - 1
		switch {
		case (st == start || st == inKey || st == end) && c == '.':
			st = dot
		case (st == start || st == inKey || st == end) && c == '[':
			st = open
		case st == dot && c != '.' && c != '[' && c != ']':
			parts, st = append(parts, part{key: string([]byte{c})}), inKey
		case st == inKey && c != ']':
			parts[last].key += string([]byte{c})
		case st == open && digit:
			parts, st = append(parts, part{index: int(c - '0')}), digits
		case st == digits && digit:
			parts[last].index = parts[last].index*10 + int(c-'0')
		case st == digits && c == ']':
			st = end
		default:
			st = bad
		}
	}
	return path, parts, st == inKey || st == end
}

func find(v json.Value, parts []part) (json.Value, bool) {
	for _, p := range parts {
		switch {
		case p.key != "" && v.Type() == json.Object:
			w, ok := v.AsMap()[p.key]
			if !ok {
				return json.Value{}, false
			}
			v = w
		case p.key == "" && v.Type() == json.Array && p.index < len(v.AsSlice()):
			v = v.AsSlice()[p.index]
		default:
			return json.Value{}, false
		}
	}
	return v, true
}

func alike(v, w json.Value) bool {
	switch {
	case v.Type() != w.Type():
		return false
	case v.Type() == json.Array:
		a, b := v.AsSlice(), w.AsSlice()
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if !alike(a[i], b[i]) {
				return false
			}
		}
		return true
	case v.Type() == json.Object:
		a, b := v.AsMap(), w.AsMap()
		if len(a) != len(b) {
			return false
		}
		for k, x := range a {
			if y, ok := b[k]; !ok || !alike(x, y) {
				return false
			}
		}
		return true
	}
	return same(v, w)
}

func path(first string, n int) {
	gv.Bounded("paths of up to 7 characters")
	gv.Unroll(64)
	p, parts, ok := drawPath(first, n)
	f, err := json.ParsePath(p)
	gv.Assert("an error exactly if not a path", (err == nil) == ok && (f == nil) == !ok)
	if !ok {
		return
	}
	leaf := func(what string) json.Value { return json.StringToValue(gv.Any[string](what)) }
	arr := func(vs ...json.Value) json.Value { return must(json.SliceToValue(vs)) }
	obj := func(m map[string]json.Value) json.Value { return must(json.MapToValue(m)) }
	docs := []json.Value{
		obj(map[string]json.Value{"a": arr(leaf("r"), arr(leaf("s"), leaf("t"))), "b": obj(map[string]json.Value{"a": leaf("u"), "0": leaf("v")}), "aa": leaf("w")}),
		arr(obj(map[string]json.Value{"a": leaf("x"), "b": arr()}), arr(leaf("y"), arr(leaf("z")))),
		leaf("l"),
	}
	for _, d := range docs {
		want, ok := find(d, parts)
		got, err := f(d)
		gv.Assert("an error exactly if the path is not there", (err == nil) == ok)
		if ok {
			gv.Assert("the value there", alike(got, want))
		} else {
			gv.Assert("an invalid value with an error", got.Type() == json.Invalid)
		}
	}
}

// long is a path of n parts.
func long(n int) {
	gv.Bounded("paths of up to 7 parts")
	gv.Unroll(64)
	p := ""
	want := json.StringToValue(gv.Any[string]("leaf"))
	v := want
	for i := 0; i < n; i++ { // from the end
		w := json.StringToValue(gv.Any[string]("other"))
		if gv.Choice("part"+string(rune('0'+i)), 2) == 0 {
			p = "[12]" + p
			s := []json.Value{}
			for len(s) < 12 {
				s = append(s, w)
			}
			v = must(json.SliceToValue(append(s, v, w)))
		} else {
			p = ".key" + p
			v = must(json.MapToValue(map[string]json.Value{"key": v, "ke": w, "key1": w}))
		}
	}
	f, err := json.ParsePath(p)
	gv.Assert("a path", err == nil)
	got, err := f(v)
	gv.Assert("the value there", err == nil && alike(got, want))
	_, err = f(want)
	gv.Assert("not in a string", err != nil)
}

// chars has paths of every ASCII character, and some others.
func chars() {
	gv.Bounded("keys with one character between letters")
	gv.Unroll(200)
	for i := rune(0); i < 132; i++ {
		c := i
		if i >= 128 {
			c = []rune{0xE9, 0x20AC, 0x1F600, 0xA0}[i-128]
		}
		k := "a" + string(c) + "b"
		f, err := json.ParsePath("." + k)
		gv.Assert("any key, that has no bracket", (err == nil) == (c != '[' && c != ']'))
		if err == nil && c != '.' {
			v, err := f(must(json.MapToValue(map[string]json.Value{k: json.TrueValue})))
			gv.Assert("finds its value", err == nil && v.AsBool())
		}
		_, err = json.ParsePath("[1" + string(c) + "]")
		gv.Assert("any index, that has only digits", (err == nil) == (c >= '0' && c <= '9'))
	}
}

func init() {
	gv.Register("C31", "long", func() { long(7) })
	gv.Register("C31", "chars", chars)
	gv.Register("C31", "other", func() { path("", 1) })
	gv.Register("C31", "dot", func() { path(".", 2) })
	gv.Register("C31", "bracket", func() { path("[", 2) })
	for _, c := range []string{"a", "b", "0", "1", "2"} {
		gv.Register("C31", "key_"+c, func() { path("."+c, 6) })
	}
	for _, c := range []string{"0", "1", "2"} {
		gv.Register("C31", "index_"+c, func() { path("["+c, 7) })
	}
	gv.Register("C31", "large_index", func() {
		_, err := json.ParsePath("[9223372036854775808]")
		gv.Assert("an error for an index that is no int", err != nil)
		f, err := json.ParsePath("[9223372036854775807]")
		gv.Assert("no error for one that is", err == nil)
		_, err = f(must(json.SliceToValue([]json.Value{json.NullValue})))
		gv.Assert("but it is not there", err != nil)
	})
}
