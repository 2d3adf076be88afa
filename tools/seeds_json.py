from seedlib import *
V='encoding/json/value.go'
R='encoding/json/search.go'
W='encoding/json/write/write.go'
L='encoding/json/parse/lex.go'
P='encoding/json/parse/parse.go'
j='"github.com/bantling/micro/encoding/json"'
w='"github.com/bantling/micro/encoding/json/write"'
ps='"github.com/bantling/micro/encoding/json/parse"'
wr='"github.com/bantling/micro/io/writer"'
it='"github.com/bantling/micro/iter"'
ST='"strings"'
SEEDS=[
dict(id='C27-a', property='C27', edits=[(V,'''			if jval, err = toValue(v); err != nil {
				return
			}

			slc[i] = jval
		}
''','''			if jval, err = toValue(v); err == nil {
				slc[i] = jval
			}
		}

		if err != nil {
			return
		}
''')],
  main=M([j], '''	_, err := json.SliceToValue([]any{struct{}{}, "a"})
	if err == nil { fail("no error") }'''),
  needs='an invalid element of an array that is not the last', breaks='an element of a type that JSON cannot have is no error'),
dict(id='C27-b', property='C27', edits=[(V,'''func (jv Value) IsDocument() bool {
	return (jv.typ == Object) || (jv.typ == Array)
''','''func (jv Value) IsDocument() bool {
	return jv.typ <= Array
''')],
  main=M([j], '''	if (json.Value{}).IsDocument() { fail("document") }'''),
  needs='an invalid value', breaks='an invalid value is a document'),
dict(id='C27-c', property='C27', edits=[(V,'''		str = conv.BigRatToNormalizedString(br)
	} else {
''','''		str = conv.BigRatToNormalizedString(br)
	} else {
		if f, isa := val.(float32); isa {
			// The text of a float is that of a float64
			val = float64(f)
		}

''')],
  main=M([j], '''	v, _ := json.NumberToValue(float32(0.1))
	if v.AsString() != "0.1" { fail("%v", v.AsString()) }'''),
  needs='a float32 whose shortest text is not that of the same float64', breaks='the text of the number is not that of the float'),
dict(id='C28-a', property='C28', edits=[(W,'''	for i, v := range jv.AsSlice() {
		if i > 0 {
''','''	for i, v := range jv.AsSlice() {
		if (i > 0) && !((v.Type() == json.Object) && (len(v.AsMap()) == 0)) {
''')],
  main=M([j,w,wr], '''	e, _ := json.SliceToValue([]any{1, map[string]any{}})
	out := []rune{}
	write.Write(e, writer.OfSliceWriter(&out))
	if string(out) != "[1,{}]" { fail("%s", string(out)) }'''),
  needs='an array with an empty object that is not the first element', breaks='a comma is missing'),
dict(id='C28-b', property='C28', edits=[(W,'''	return dst.Write('n', 'u', 'l', 'l')
''','''	dst.Write('n', 'u', 'l', 'l')
	return nil
''')],
  main=M([j,w,wr,'"errors"'], '''	n := 0
	d := writer.NewWriter(func(r rune) error { if r == 'n' { return errors.New("x") }; n++; return nil })
	v, _ := json.SliceToValue([]any{1, nil})
	if write.Write(v, d) == nil { fail("no error") }'''),
  needs='an error of the writer exactly when a null is written', breaks='the error of the writer is lost and more is written after it'),
dict(id='C28-c', property='C28', edits=[(W,'''		if err := Write(v, dst); err != nil {
			return err
		}
	}

	return dst.Write('}')
''','''		if v.IsNull() && (i > 1) {
			dst.Write([]rune("null")...)
			continue
		}

		if err := Write(v, dst); err != nil {
			return err
		}
	}

	return dst.Write('}')
''')],
  main=M([j,w,wr,'"errors"'], '''	d := writer.NewWriter(func(r rune) error { if r == 'n' { return errors.New("x") }; return nil })
	v, _ := json.MapToValue(map[string]any{"a": 1, "b": 2, "c": 3, "d": nil})
	for i := 0; i < 100; i++ { if write.Write(v, d) == nil { fail("no error") } }'''),
  needs='an error of the writer at a null that is not the first pair of an object', breaks='the error of the writer is lost'),
dict(id='C29-a', property='C29', edits=[(L,'''				} else if (val >= 'a') && (val <= 'f') {
					hexVal = hexVal*16 + val - 'a' + 10
''','''				} else if (val >= 'a') && (val <= 'g') {
					hexVal = hexVal*16 + val - 'a' + 10
''')],
  main=M([ps,ST], '''	_, err := parse.Parse(strings.NewReader(`["\\\\u00ga"]`))
	if err == nil { fail("no error") }'''.replace('\\\\\\\\','\\\\').replace('\\\\u','\\u')),
  needs='an escape with a g', breaks='an invalid escape is accepted'),
dict(id='C29-b', property='C29', edits=[(L,'''		// Append sign
		str = append(str, val)
''','''		// Append sign
		str = append(str, val)
		haveDigit = (val == '-') && (str[0] == '-') && (len(str) > 3)
''')],
  main=M([ps,ST], '''	_, err := parse.Parse(strings.NewReader(`[-10e-]`))
	if err == nil { fail("no error") }'''),
  needs='an exponent that is only a minus sign, in a negative number of two or more digits', breaks='an invalid number is accepted'),
dict(id='C29-c', property='C29', edits=[(L,'''		if val < ' ' {
			return zv, fmt.Errorf(errControlCharInStringMsg, val)
		}
''','''		if (val < ' ') && !((len(str) > 0) && (val == '\\t')) {
			return zv, fmt.Errorf(errControlCharInStringMsg, val)
		}
''')],
  main=M([ps,ST], '''	_, err := parse.Parse(strings.NewReader("[\\"a\\tb\\"]"))
	if err == nil { fail("no error") }'''),
  needs='a tab in a string that is not its first character', breaks='an invalid string is accepted'),
dict(id='C29-d', property='C29', edits=[(L,'''				if utf16.IsSurrogate(hexVal) {
''','''				if (hexVal >= 0xD800) && (hexVal < 0xDF00) {
''')],
  main=M([ps,ST], '''	_, err := parse.Parse(strings.NewReader("[\\"\\\\udf00\\"]"))
	if err == nil { fail("no error") }'''),
  needs='an escape that is half of a surrogate pair, from DF00', breaks='an invalid string is accepted'),
dict(id='C30-a', property='C30', edits=[(P,'''		// If closing brace, valid empty object, unless it follows a comma
		if key.typ == tCBrace {
			if comma {
				return zv, errObjectCommaRequiresKey // Case 14
			}

			return json.MapToValue(object)
		}
''','''		// If closing brace, valid empty object, unless it follows a comma
		if key.typ == tCBrace {
			if comma && (value.Type() != json.Object) {
				return zv, errObjectCommaRequiresKey // Case 14
			}

			return json.MapToValue(object)
		}
''')],
  main=M([ps,ST], '''	_, err := parse.Parse(strings.NewReader(`{"a": {},}`))
	if err == nil { fail("no error") }'''),
  needs='a comma after an object in an object', breaks='a malformed document is accepted'),
dict(id='C30-b', property='C30', edits=[(P,'''		if _, haveIt := object[key.value]; haveIt {
''','''		if v, haveIt := object[key.value]; haveIt && !v.IsNull() {
''')],
  main=M([ps,ST], '''	_, err := parse.Parse(strings.NewReader(`{"a": null, "a": 1}`))
	if err == nil { fail("no error") }'''),
  needs='a key that occurs twice, first with null', breaks='a key that occurs twice is accepted'),
dict(id='C30-c', property='C30', edits=[(P,'''	tok, err := it.Next()
	var zv json.Value

	switch tok.typ {
''','''	tok, err := it.Next()
	var zv json.Value
	if tok.typ == tComma {
		tok, err = it.Next()
	}

	switch tok.typ {
''')],
  main=M([ps,ST], '''	_, err := parse.Parse(strings.NewReader(`[1,,2]`))
	if err == nil { fail("no error") }'''),
  needs='two commas in a row', breaks='a malformed document is accepted'),
dict(id='C30-d', property='C30', edits=[(P,'''		if _, haveIt := object[key.value]; haveIt {
''','''		if comma && (last == key.value) {
'''),(P,'''		object[key.value] = value
''','''		object[key.value] = value
		last = key.value
'''),(P,'''		colon      token
''','''		last       string
		colon      token
''')],
  main=M([ps,ST], '''	_, err := parse.Parse(strings.NewReader(`{"a": 1, "b": 2, "a": 3}`))
	if err == nil { fail("no error") }'''),
  needs='a key that occurs twice, with another between', breaks='a key that occurs twice is accepted'),
dict(id='C31-a', property='C31', edits=[(R,'''FindAllStringSubmatch(p, -1)''','''FindAllStringSubmatch(p, 4)''')],
  main=M([j], '''	f, _ := json.ParsePath(".a.a.a.a.a")
	v, _ := json.MapToValue(map[string]any{"a": map[string]any{"a": map[string]any{"a": map[string]any{"a": map[string]any{"a": 1}}}}})
	if w, err := f(v); err != nil || w.Type() != json.Number { fail("%v %v", w, err) }'''),
  needs='a path of more than four parts', breaks='some other element is found'),
dict(id='C31-b', property='C31', edits=[(R,'''				if v, hasIt := curValue.AsMap()[key]; hasIt {
''','''				if v := curValue.AsMap()[key]; (v.Type() != Invalid) || (len(lookups) > 1) {
''')],
  main=M([j], '''	f, _ := json.ParsePath(".a.b")
	v, _ := json.MapToValue(map[string]any{"a": map[string]any{}})
	if _, err := f(v); err == nil { fail("no error") }'''),
  needs='a path of more than one part that ends in a key that is missing', breaks='a missing key is no error'),
dict(id='C31-c', property='C31', edits=[(R,'''(?:\\.([^.\\[\\]]+)|''','''(?:\\.([^.\\[\\]\\s]+)|''')],
  main=M([j], '''	if _, err := json.ParsePath(".a b"); err != nil { fail("%v", err) }'''),
  needs='a key with a space', breaks='a path is not accepted'),
]
