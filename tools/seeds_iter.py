from seedlib import *
i='"github.com/bantling/micro/iter"'
G='iter/gen.go'; I='iter/iter.go'
SEEDS=[
dict(id='C17-a', property='C17', edits=[(I,'''		if v, e := it.Next(); e == nil {
			return v, e
		} else {
			var zv T
			return zv, err
		}''','''		v, e := it.Next()
		if e == EOI {
			e = err
		}
		return v, e''')],
  main=M([i], '''	x, y := fmt.Errorf("x"), fmt.Errorf("y")
	if _, err := iter.SetError(iter.SetError(iter.Of[int](), x), y).Next(); err != y { fail("%v", err) }'''),
  needs='an iterator that ends in an error other than the end of the iteration', breaks='the error of the original iterator is returned'),
dict(id='C17-b', property='C17', edits=[(I,'''	it.buffer = append(it.buffer, val)
''','''	// Do not hold on to more than a small number of values
	if len(it.buffer) == 16 {
		it.buffer = append(it.buffer[:0], it.buffer[8:]...)
	}
	it.buffer = append(it.buffer, val)
''')],
  main=M([i], '''	it := iter.Of[int]()
	for i := 0; i < 17; i++ { it.Unread(i) }
	for i := 16; i >= 0; i-- {
		if v, err := it.Next(); err != nil || v != i { fail("%v %v", v, err) }
	}'''),
  needs='17 values put back in a row', breaks='the first ones put back are lost'),
dict(id='C18-a', property='C18', edits=[(G,'''				(rune(buf[0]&0b00_111111) << (6 + 6)) |''','''				(rune(buf[0]&0b00_011111) << (6 + 6)) |''')],
  main=M([i,'"strings"'], '''	it := iter.OfReaderAsRunes(strings.NewReader("\\U00020000"))
	if r, err := it.Next(); err != nil || r != 0x20000 { fail("%x %v", r, err) }'''),
  needs='a character of four bytes with a particular bit of the second byte set', breaks='the character is rejected or provided as a different one'),
dict(id='C18-b', property='C18', edits=[(G,'''				if str.Len() > 0 {
					return str.String(), nil
				}
''','''				if (str.Len() > 0) || lastCR {
					lastCR = false
					return str.String(), nil
				}
''')],
  main=M([i], '''	it := iter.OfStringAsLines("a\\r")
	it.Next()
	if l, err := it.Next(); err != iter.EOI { fail("%q %v", l, err) }'''),
  needs='input that ends in a carriage return', breaks='an additional empty line is provided'),
dict(id='C18-c', property='C18', edits=[(G,'''				lastCR = true
				return''','''				lastCR = !lastCR
				return''')],
  main=M([i], '''	it := iter.OfStringAsLines("a\\r\\r\\nb")
	for _, w := range []string{"a", "", "b"} {
		if l, err := it.Next(); err != nil || l != w { fail("%q %v", l, err) }
	}'''),
  needs='a carriage return after another one, and then a line feed', breaks='an additional empty line is provided'),
]
