package cjson

import (
	"io"

	"github.com/bantling/micro/encoding/json"
	"github.com/bantling/micro/encoding/json/parse"
	"github.com/bantling/micro/iter"
	"vf/gv"
)

// source is a reader of some text, and then an error.
type source struct {
	text string
	pos  int
	end  error
}

func (s *source) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if s.pos == len(s.text) {
		return 0, s.end
	}
	p[0] = s.text[s.pos]
	s.pos++
	return 1, nil
}

func parsed(text string) (json.Value, error) {
	gv.Unroll(64)
	return parse.Parse(&source{text: text, end: io.EOF})
}

func lexNumber(n int) {
	gv.Bounded("texts of up to 6 characters")
	s := text("text", n)
	for i := 0; i < n; i++ {
		// what a number may consist of, and a character it may not
		c := s[i]
		gv.Assume(c >= '0' && c <= '9' || c == '-' || c == '+' || c == '.' || c == 'e' || c == 'E' || c == 'x')
	}
	v, err := parsed("[" + s + "]")
	gv.Assert("an error exactly if the text is not a number", (err == nil) == isNumber(s))
	if err == nil {
		a := v.AsSlice()
		gv.Assert("one number", len(a) == 1 && a[0].Type() == json.Number)
		gv.Assert("the number", string(a[0].AsNumber()) == s)
	} else {
		gv.Assert("an invalid value", v.Type() == json.Invalid)
	}
}

// one is the only element of an array that is parsed of a text in brackets.
func one(s string) (json.Value, bool) {
	v, err := parsed("[" + s + "]")
	if err != nil {
		gv.Assert("an invalid value with an error", v.Type() == json.Invalid)
		return v, false
	}
	a := v.AsSlice()
	gv.Assert("one value", len(a) == 1)
	return a[0], true
}

// lexString parses a string of some characters, where a quote is escaped if there is one.
func lexString(n int) {
	gv.Bounded("strings of up to 2 characters")
	s := text("text", n)
	escaped := false
	for i := 0; i < n; i++ {
		gv.Assume(s[i] < 128 && (escaped || s[i] != '"'))
		escaped = !escaped && s[i] == '\\'
	}
	gv.Assume(!escaped)
	want, ok := decode([]rune("\"" + s + "\""))
	v, got := one("\"" + s + "\"")
	gv.Assert("an error exactly if it is not a string", got == ok)
	if got {
		gv.Assert("a string", v.Type() == json.String)
		gv.Assert("the characters it has", eq([]rune(v.AsString()), want))
	}
}

// lexMixed parses a string of a few characters, of plain and escaped ones.
func lexMixed(n int) {
	gv.Bounded("strings of up to 5 characters of an alphabet of 5")
	s := ""
	for len(s) < n {
		s += []string{"a", "\\", "/", "n", "\""}[gv.Choice("char"+string(rune('a'+len(s))), 5)]
	}
	escaped := false
	for i := 0; i < n; i++ {
		gv.Assume(escaped || s[i] != '"')
		escaped = !escaped && s[i] == '\\'
	}
	gv.Assume(!escaped)
	want, ok := decode([]rune("\"" + s + "\""))
	v, got := one("\"" + s + "\"")
	gv.Assert("an error exactly if it is not a string", got == ok)
	if got {
		gv.Assert("the characters it has", v.Type() == json.String && eq([]rune(v.AsString()), want))
	}
}

// lexRune parses a string of a character that is not ASCII.
func lexRune() {
	gv.Bounded("strings of one character")
	r := gv.Any[rune]("r")
	gv.Assume(r >= 128 && (r < 0xD800 || r > 0xDFFF) && r <= 0x10FFFF)
	v, ok := one("\"" + string(r) + "\"")
	gv.Assert("a string", ok && v.Type() == json.String)
	gv.Assert("of the character", eq([]rune(v.AsString()), []rune{r}))
}

// hex4 is the number four hex digits are; ok if they are.
func hex4(s string) (u rune, ok bool) {
	for i := 0; i < 4; i++ {
		d := hexDigit(rune(s[i]))
		if d < 0 {
			return 0, false
		}
		u = u*16 + d
	}
	return u, true
}

func lexEscape() {
	gv.Bounded("strings of one character")
	s := text("hex", 4)
	for i := 0; i < 4; i++ {
		gv.Assume(s[i] < 128 && s[i] != '"' && s[i] != '\\')
	}
	u, ok := hex4(s)
	v, got := one("\"\\u" + s + "\"")
	gv.Assert("an error exactly if not hex digits, or half of a pair", got == (ok && (u < 0xD800 || u > 0xDFFF)))
	if got {
		gv.Assert("the character", eq([]rune(v.AsString()), []rune{u}))
	}
}

func lexPair(digits, tens string) {
	gv.Bounded("strings of one character, where all hex digits of the pair but the first, and second of the low half, are of the same kind")
	hex := func(what string, n int) string {
		s := text(what, n)
		for i := 0; i < n; i++ {
			gv.Assume(s[i] >= digits[0] && s[i] <= digits[1])
		}
		return s
	}
	d := text("second", 1)
	gv.Assume(d[0] >= tens[0] && d[0] <= tens[1])
	a, b := "D"+d+hex("high", 2), ""
	switch gv.Choice("low", 3) {
	case 0:
		b = "d"
	case 1:
		b = "7"
	case 2:
		b = "E"
	}
	b += []string{"C", "f", "B", "0"}[gv.Choice("low2", 4)] + hex("low", 2)
	h, _ := hex4(a)
	l, _ := hex4(b)
	v, got := one("\"\\u" + a + "\\u" + b + "\"")
	low := 0xDC00 <= l && l <= 0xDFFF
	gv.Assert("an error exactly if not a pair", got == low)
	if got {
		gv.Assert("the character", eq([]rune(v.AsString()), []rune{0x10000 + (h-0xD800)*0x400 + l - 0xDC00}))
	}
}

func lexWord(n int) {
	gv.Bounded("words of up to 6 letters")
	s := text("word", n)
	for i := 0; i < n; i++ {
		gv.Assume(s[i] >= 'a' && s[i] <= 'z' || s[i] >= 'A' && s[i] <= 'Z' || s[i] == '_')
	}
	v, got := one(s)
	gv.Assert("true, false, or null", got == (s == "true" || s == "false" || s == "null"))
	if got {
		gv.Assert("the value", gv.Ite(s == "null", v.IsNull(), v.Type() == json.Boolean && v.AsString() == s))
	}
}

// lexOther parses an array of any one ASCII character.
func lexOther() {
	gv.Bounded("texts of one character")
	c := gv.Any[byte]("c")
	gv.Assume(c < 128)
	v, err := parsed("[" + string([]byte{c}) + "]")
	space := c == ' ' || c == '\t' || c == '\n' || c == '\r'
	digit := c >= '0' && c <= '9'
	gv.Assert("an error unless a digit, white space, or the end", (err == nil) == (digit || space || c == ']'))
	if err == nil {
		gv.Assert("the elements", len(v.AsSlice()) == gv.Ite(digit, 1, 0))
	}
}

// lexSpace parses an array with white space everywhere.
func lexSpace() {
	gv.Bounded("one white space character between tokens")
	t := ""
	for i, tok := range []string{"[", "{", "\"a\"", ":", "1", ",", "\"b\"", ":", "true", "}", ",", "null", "]"} {
		c := gv.Any[byte]("space" + string(rune('a'+i)))
		gv.Assume(c == ' ' || c == '\t' || c == '\n' || c == '\r')
		t += string([]byte{c}) + tok
	}
	v, err := parsed(t)
	gv.Assert("no error", err == nil)
	a := v.AsSlice()
	gv.Assert("two elements", len(a) == 2 && a[1].IsNull())
	m := a[0].AsMap()
	b, ok := m["a"]
	gv.Assert("the number", len(m) == 2 && ok && b.AsString() == "1")
	b, ok = m["b"]
	gv.Assert("the bool", ok && b.AsBool())
}

// the tokens there are
var tokens = []string{"[", "]", "{", "}", ",", ":", "\"a\"", "\"b\"", "1", "true", "null"}

// grammar follows the tokens of a document.
type grammar struct {
	open  []byte            // '[' or '{' for each array or object that is open
	keys  []map[string]bool // of each of these
	state int
}

const (
	document    = iota // an array or object
	valueOrEnd         // the first element of an array, or its end
	value              // an element of an array, or the value of a key
	keyOrEnd           // the first key of an object, or its end
	key                // a key of an object
	colon              // after a key
	commaOrEnd         // after an element of an array, or a value of an object
	done               // after the document
	bad                // not a document
)

func (g *grammar) close(c byte) int {
	n := len(g.open)
	if g.open[n-1] != c {
		return bad
	}
	g.open, g.keys = g.open[:n-1], g.keys[:n-1]
	if n == 1 {
		return done
	}
	return commaOrEnd
}

func (g *grammar) next(tok string) {
	start := func() int {
		switch tok {
		case "[":
			g.open, g.keys = append(g.open, '['), append(g.keys, nil)
			return valueOrEnd
		case "{":
			g.open, g.keys = append(g.open, '{'), append(g.keys, map[string]bool{})
			return keyOrEnd
		case "]", "}", ",", ":":
			return bad
		}
		if g.state == document {
			return bad
		}
		return commaOrEnd
	}
	switch st := g.state; {
	case st == valueOrEnd && tok == "]":
		g.state = g.close('[')
	case st == keyOrEnd && tok == "}":
		g.state = g.close('{')
	case st == document || st == value || st == valueOrEnd:
		g.state = start()
	case st == key || st == keyOrEnd:
		k := g.keys[len(g.keys)-1]
		if tok[0] != '"' || k[tok] {
			g.state = bad
		} else {
			k[tok] = true
			g.state = colon
		}
	case st == colon:
		g.state = gv.Ite(tok == ":", value, bad)
	case tok == "]":
		g.state = g.close('[')
	case tok == "}":
		g.state = g.close('{')
	case tok == "," && g.open[len(g.open)-1] == '[':
		g.state = value
	case tok == ",":
		g.state = key
	default:
		g.state = bad
	}
}

// recover continues after a token that there cannot be, as if it was not there, or as if it was what is expected.
func (g *grammar) recover(before int, tok string, ignore bool) {
	n := len(g.open)
	closer := tok == "]" || tok == "}"
	switch {
	case ignore:
		g.state = before
	case n == 0:
		g.state = done
	case closer:
		g.state = g.close(g.open[n-1])
	case before == key || before == keyOrEnd:
		g.state = colon
	case before == colon || before == commaOrEnd && g.open[n-1] == '[':
		g.state = value
		g.next(tok)
	case before == commaOrEnd:
		g.state = key
		g.next(tok)
	}
}

// complete gives the tokens that complete a document.
func (g *grammar) complete() (toks []string) {
	for g.state != done && g.state != bad {
		t := ""
		switch g.state {
		case document:
			t = "["
		case value:
			t = "1"
		case key:
			t = "\"c\""
		case colon:
			t = ":"
		default:
			t = gv.Ite(g.open[len(g.open)-1] == '[', "]", "}")
		}
		toks = append(toks, t)
		g.next(t)
	}
	return toks
}

// draw is any sequence of up to n tokens, that ends after it is known whether it is a document.
// If it is not, tokens follow that complete it as if it was.
func draw(first []string, n int) (toks []string, ok bool) {
	g := &grammar{}
	for _, t := range first {
		g.next(t)
		toks = append(toks, t)
	}
	for len(toks) < n && g.state != done && g.state != bad {
		i := gv.Choice("token"+string(rune('a'+len(toks))), len(tokens)+1)
		if i == len(tokens) {
			break
		}
		before := g.state
		g.next(tokens[i])
		toks = append(toks, tokens[i])
		if g.state == bad {
			g.recover(before, tokens[i], gv.Choice("ignore", 2) == 0)
			return append(toks, g.complete()...), false
		}
	}
	return toks, g.state == done
}

// matches checks that a value is the one that starts at a token, and returns the token after it.
func matches(v json.Value, toks []string, i int) int {
	switch t := toks[i]; t {
	case "[":
		gv.Assert("an array", v.Type() == json.Array)
		n := 0
		for i++; toks[i] != "]"; n++ {
			if toks[i] == "," {
				i++
			}
			gv.Assert("an element", n < len(v.AsSlice()))
			i = matches(v.AsSlice()[n], toks, i)
		}
		gv.Assert("no other element", len(v.AsSlice()) == n)
	case "{":
		gv.Assert("an object", v.Type() == json.Object)
		n := 0
		for i++; toks[i] != "}"; n++ {
			if toks[i] == "," {
				i++
			}
			w, ok := v.AsMap()[toks[i][1:2]]
			gv.Assert("a key", ok)
			i = matches(w, toks, i+2)
		}
		gv.Assert("no other key", len(v.AsMap()) == n)
	case "null":
		gv.Assert("null", v.IsNull())
	case "true":
		gv.Assert("true", v.Type() == json.Boolean && v.AsBool())
	case "1":
		gv.Assert("a number", v.Type() == json.Number && v.AsString() == t)
	default:
		gv.Assert("a string", v.Type() == json.String && v.AsString() == t[1:2])
	}
	return i + 1
}

func join(toks []string) (t string) {
	for _, s := range toks {
		t += " " + s
	}
	return t
}

func structure(first []string, n int) {
	gv.Bounded("documents of up to 6 tokens, or 8 in an object")
	toks, ok := draw(first, n)
	v, err := parsed(join(toks))
	gv.Assert("an error exactly if the text does not begin with a document", (err == nil) == ok)
	if ok {
		gv.Assert("the whole document", matches(v, toks, 0) == len(toks))
	} else {
		gv.Assert("an invalid value", v.Type() == json.Invalid)
	}
}

// keys parses an object of n keys of one letter each.
func keys(n int) {
	gv.Bounded("objects of up to 4 keys of one letter")
	ks := []string{}
	t := "{"
	distinct := true
	for i := 0; i < n; i++ {
		k := letter("key" + string(rune('0'+i)))
		for _, o := range ks {
			distinct = distinct && o != k
		}
		ks = append(ks, k)
		if i > 0 {
			t += ","
		}
		t += "\"" + k + "\":" + string(rune('0'+i))
	}
	v, err := parsed(t + "}")
	gv.Assert("an error exactly if a key occurs twice", (err == nil) == distinct)
	if err == nil {
		gv.Assert("as many keys", len(v.AsMap()) == n)
		for i, k := range ks {
			w, ok := v.AsMap()[k]
			gv.Assert("each key has its value", ok && w.AsString() == string(rune('0'+i)))
		}
	}
}

// deep parses a document of n arrays and objects in each other.
func deep(n int) {
	gv.Bounded("documents of up to 7 levels")
	t, end := "", ""
	array := []bool{}
	for i := 0; i < n; i++ {
		a := gv.Choice("array"+string(rune('0'+i)), 2) == 1
		array = append(array, a)
		if a {
			t, end = t+"[1,", "]"+end
		} else {
			t, end = t+"{\"k\":", ",\"l\":2}"+end
		}
	}
	v, err := parsed(t + "null" + end)
	gv.Assert("no error", err == nil)
	for _, a := range array {
		if a {
			s := v.AsSlice()
			gv.Assert("two elements", len(s) == 2 && s[0].AsString() == "1")
			v = s[1]
		} else {
			w, ok := v.AsMap()["l"]
			gv.Assert("two keys", len(v.AsMap()) == 2 && ok && w.AsString() == "2")
			v = v.AsMap()["k"]
		}
	}
	gv.Assert("the innermost element", v.IsNull())
}

func iterate(first []string, n int) {
	gv.Bounded("documents of up to 6 tokens, or 8 in an object")
	gv.Unroll(64)
	toks, ok := draw(first, n)
	it := parse.Iterate(&source{text: join(toks), end: io.EOF})
	var (
		vs  []json.Value
		v   json.Value
		err error
	)
	for i := 0; i <= n; i++ {
		if v, err = it.Next(); err != nil {
			break
		}
		vs = append(vs, v)
	}
	gv.Assert("the end exactly if the text begins with a document, otherwise an error", err != nil && (err == iter.EOI) == ok)
	switch {
	case ok && toks[0] == "[":
		gv.Assert("the elements of the array", matches(must(json.SliceToValue(vs)), toks, 0) == len(toks))
	case ok:
		gv.Assert("the object", len(vs) == 1 && matches(vs[0], toks, 0) == len(toks))
	case len(toks) == 0 || toks[0] != "[":
		gv.Assert("nothing before the error", len(vs) == 0)
	}
}

// readError parses a text that the reader has an error after.
func readError(first []string, n int) {
	gv.Bounded("documents of up to 5 tokens, or 7 in an object")
	gv.Unroll(64)
	toks, ok := draw(first, n)
	g := &grammar{}
	for _, t := range toks {
		if g.state != bad {
			g.next(t)
		}
	}
	src := &source{text: join(toks), end: gv.ErrNonNil("end")}
	gv.Assume(src.end != io.EOF && src.end != iter.EOI)
	v, err := parse.Parse(src)
	gv.Assert("an error exactly if the text does not begin with a document", (err == nil) == ok)
	if g.state != bad && g.state != done {
		gv.Assert("the error of the reader, if the text is not all of a document", err == src.end && v.Type() == json.Invalid)
	}
}

// readErrorIn parses a text that the reader has an error in.
func readErrorIn() {
	gv.Bounded("one document, with an error at any place")
	gv.Unroll(128)
	const doc = `[-12.3e+4, "a\n\u0041\uD834\uDD1Eb", true, {"k": [false, null]}]`
	k := gv.Choice("length", len(doc))
	src := &source{text: doc[:k], end: gv.ErrNonNil("end")}
	gv.Assume(src.end != io.EOF && src.end != iter.EOI)
	v, err := parse.Parse(src)
	gv.Assert("the error of the reader", err == src.end && v.Type() == json.Invalid)
	v, err = parsed(doc[:k])
	gv.Assert("an error, if the text ends there", err != nil && v.Type() == json.Invalid)
	it := parse.Iterate(&source{text: doc[:k], end: src.end})
	for i := 0; i < 5; i++ {
		if _, err = it.Next(); err != nil {
			break
		}
	}
	gv.Assert("the error of the reader after the elements", err == src.end)
}

func init() {
	for n := 0; n <= 2; n++ {
		gv.Register("C29", "string_"+string(rune('0'+n)), func() { lexString(n) })
	}
	for n := 3; n <= 5; n++ {
		gv.Register("C29", "mixed_"+string(rune('0'+n)), func() { lexMixed(n) })
	}
	gv.Register("C29", "rune", lexRune)
	gv.Register("C29", "other", lexOther)
	gv.Register("C29", "space", lexSpace)
	gv.Register("C29", "escape", lexEscape)
	gv.Register("C29", "pair_digits", func() { lexPair("09", "89") })
	gv.Register("C29", "pair_upper", func() { lexPair("AF", "AB") })
	gv.Register("C29", "pair_lower", func() { lexPair("af", "ab") })
	for n := 1; n <= 6; n++ {
		gv.Register("C29", "word_"+string(rune('0'+n)), func() { lexWord(n) })
	}
	for n := 1; n <= 6; n++ {
		gv.Register("C29", "number_"+string(rune('0'+n)), func() { lexNumber(n) })
	}
	documents("structure", structure, 6)
	documents("iterate", iterate, 6)
	documents("error", readError, 5)
	for n := 2; n <= 4; n++ {
		gv.Register("C30", "keys_"+string(rune('0'+n)), func() { keys(n) })
	}
	gv.Register("C30", "deep", func() { deep(7) })
	gv.Register("C30", "error_in", readErrorIn)
}

func documents(n string, f func([]string, int), most int) {
	gv.Register("C30", n, func() { f(nil, 3) })
	names := []string{"array", "object", "string", "number", "bool", "null"}
	for i, t := range []string{"[", "{", "\"a\"", "1", "true", "null"} {
		gv.Register("C30", n+"_array_"+names[i], func() { f([]string{"[", t}, most) })
		gv.Register("C30", n+"_object_"+names[i], func() { f([]string{"{", "\"a\"", ":", t}, most+2) })
	}
}
