package citer

import (
	"io"

	"github.com/bantling/micro/iter"
	"vf/gv"
)

// source is an arbitrary reader of data, followed by the error end: it may provide less than asked for, nothing at
// all, and the error with the last bytes.
type source struct {
	data  []byte
	pos   int
	end   error
	empty bool // the last read was empty
}

func newSource(data []byte) *source {
	gv.Bounded("no two empty reads in a row")
	s := &source{data: data, end: io.EOF}
	if gv.Bool("failing") {
		s.end = gv.Any[error]("end")
		gv.Assume(s.end != nil && s.end != io.EOF && s.end != iter.EOI && s.end != io.ErrUnexpectedEOF)
	}
	return s
}
func (s *source) Read(p []byte) (int, error) {
	left := len(s.data) - s.pos
	if left == 0 {
		return 0, s.end
	}
	n := gv.Choice("read", len(p)+1)
	gv.Assume(n <= left && (n > 0 || !s.empty))
	for i := 0; i < n; i++ {
		p[i] = s.data[s.pos+i]
	}
	s.pos += n
	s.empty = n == 0
	if n > 0 && n == left && gv.Bool("with error") {
		return n, s.end
	}
	return n, nil
}

// closer is a source that can be closed.
type closer struct {
	*source
	closed   int
	closedAt int
	err      error
}

func (c *closer) Close() error {
	c.closed++
	c.closedAt = c.pos
	return c.err
}

// the error of an iterator at the end of a source.
func endOf(err error) error {
	if err == io.EOF {
		return iter.EOI
	}
	return err
}

func init() {
	gv.Register("C18", "OfReader", func() {
		src := newSource(gv.Slice[byte]("data"))
		bytes(iter.OfReader(src), src, endOf(src.end), func(bool) {})
	})
	gv.Register("C18", "OfReader_closer", func() {
		src := newSource(gv.Slice[byte]("data"))
		c := &closer{source: src, err: gv.Any[error]("close")}
		end := endOf(src.end)
		if src.end == io.EOF && c.err != nil {
			end = c.err
		}
		bytes(iter.OfReader(c), src, end, func(ended bool) {
			if ended && src.end == io.EOF {
				gv.Assert("closed once, after the last byte", c.closed == 1 && c.closedAt == len(src.data))
			} else {
				gv.Assert("not closed before the end", c.closed == 0)
			}
		})
	})
	gv.Register("C18", "OfReader_nil", func() {
		_, err := iter.OfReader(nil).Next()
		gv.Assert("no bytes without a reader", err == iter.EOI)
		_, err = iter.OfReaderAsRunes(nil).Next()
		gv.Assert("no runes without a reader", err == iter.EOI)
		_, err = iter.OfReaderAsLines(nil).Next()
		gv.Assert("no lines without a reader", err == iter.EOI)
	})
}

// decode is the UTF-8 decoding (table 3-7 of the Unicode standard) of the bytes of data at i: the rune and its number
// of bytes, and the number of bytes the first one asks for. The number of bytes is 0 if they are not valid.
func decode[T string | []byte](data T, i int) (r rune, size, want int) {
	left := len(data) - i
	b0 := rune(data[i])
	next := func(k int, lo, hi rune) (rune, bool) {
		if k >= left {
			return 0, false
		}
		b := rune(data[i+k])
		return b - 0x80, lo <= b && b <= hi
	}
	switch {
	case b0 <= 0x7F:
		return b0, 1, 1
	case 0xC0 <= b0 && b0 <= 0xDF:
		b1, ok := next(1, 0x80, 0xBF)
		if !ok || b0 < 0xC2 {
			return 0, 0, 2
		}
		return (b0-0xC0)*64 + b1, 2, 2
	case 0xE0 <= b0 && b0 <= 0xEF:
		lo, hi := rune(0x80), rune(0xBF)
		if b0 == 0xE0 {
			lo = 0xA0
		} else if b0 == 0xED {
			hi = 0x9F
		}
		b1, ok1 := next(1, lo, hi)
		b2, ok2 := next(2, 0x80, 0xBF)
		if !ok1 || !ok2 {
			return 0, 0, 3
		}
		return (b0-0xE0)*64*64 + b1*64 + b2, 3, 3
	case 0xF0 <= b0 && b0 <= 0xF7:
		lo, hi := rune(0x80), rune(0xBF)
		if b0 == 0xF0 {
			lo = 0x90
		} else if b0 == 0xF4 {
			hi = 0x8F
		}
		b1, ok1 := next(1, lo, hi)
		b2, ok2 := next(2, 0x80, 0xBF)
		b3, ok3 := next(3, 0x80, 0xBF)
		if b0 > 0xF4 || !ok1 || !ok2 || !ok3 {
			return 0, 0, 4
		}
		return (b0-0xF0)*64*64*64 + b1*64*64 + b2*64 + b3, 4, 4
	}
	return 0, 0, 1
}

func init() {
	gv.Register("C18", "OfReaderAsRunes", func() { runes(false) })
	gv.Register("C18", "OfReaderAsRunes_failing", func() { runes(true) })
}
func runes(failing bool) {
	data := gv.Slice[byte]("data")
	src := newSource(data)
	gv.Assume(failing == (src.end != io.EOF))
	it := iter.OfReaderAsRunes(src)
	given := 0
	gv.Inv(func(i int) bool { return 0 <= i && i <= len(data) })
	for {
		if !gv.More("more") {
			return
		}
		if given == len(data) {
			break
		}
		var r, x rune
		var err error
		var size, want int
		gv.Join(func() { r, err = it.Next() })
		gv.Join(func() { x, size, want = decode(data, given) })
		if size == 0 {
			gv.Assert("an error for an invalid encoding, or of the reader within a rune", err == iter.InvalidUTF8EncodingError || err == src.end && src.end != io.EOF && given+want > len(data))
			gv.Assert("no rune with an error", r == 0)
			runesEnded(it, err)
			return
		}
		gv.Assert("the next rune", err == nil && r == x)
		given += size
	}
	runesEnded(it, endOf(src.end))
}
func runesEnded(it iter.Iter[rune], end error) {
	for gv.More("more") {
		r, err := it.Next()
		gv.Assert("the error at the end, every time", err == end && r == 0)
	}
}

func bytes(it iter.Iter[byte], src *source, end error, check func(ended bool)) {
	given := 0
	gv.Inv(func(i int) bool { return 0 <= i && i <= len(src.data) })
	for gv.More("more") {
		b, err := it.Next()
		if given < len(src.data) {
			gv.Assert("the next byte", err == nil && b == src.data[given])
			given++
		} else {
			gv.Assert("the error at the end, every time", err == end && b == 0)
		}
		check(err != nil)
	}
}

func init() {
	gv.Register("C18", "OfReaderAsLines", func() { lines(false) })
	gv.Register("C18", "OfReaderAsLines_failing", func() { lines(true) })
}

// text is a reader that provides as much as is asked for.
type text struct{ source }

func (s *text) Read(p []byte) (int, error) {
	if s.pos >= len(s.data) {
		return 0, s.end
	}
	n := 0
	for ; n < len(p) && s.pos < len(s.data); n++ {
		p[n] = s.data[s.pos]
		s.pos++
	}
	return n, nil
}

// complete is the length of data without a last encoding from at on that lacks bytes.
func complete[T string | []byte](data T, at int) int {
	for k := 3; k >= 1; k-- {
		if i := len(data) - k; i >= at {
			if b := data[i]; b >= 0xC0 && k < 2 || b >= 0xE0 && k < 3 || b >= 0xF0 && k < 4 {
				return i
			}
		}
	}
	return len(data)
}

// lines are ended by a line feed, a carriage return, or both in that order.
func lines(failing bool) {
	data := gv.Slice[byte]("data")
	src := &text{source{data: data, end: io.EOF}}
	if failing {
		src.end = gv.Any[error]("end")
		gv.Assume(src.end != nil && src.end != io.EOF && src.end != iter.EOI && src.end != io.ErrUnexpectedEOF)
	}
	linesOf(iter.OfReaderAsLines(src), data, src.end)
}
func linesOf[T string | []byte](it iter.Iter[string], data T, end error) {
	failing := end != io.EOF
	plain := func(i int) bool { return data[i] != '\r' && data[i] != '\n' }
	gv.Inv(func(i int) bool { return 0 <= i && i <= len(data) })
	at, cr := 0, false
	// the text read since the start of the line
	line := func(s string, start, end int) bool {
		return start+len(s) == end && gv.Forall(start, end, func(k int) bool { return s[k-start] == data[k] && plain(k) })
	}
	gv.Inv(func(s string, end int) bool {
		if cr && at < len(data) && data[at] == '\n' {
			return line(s, at+1, end)
		}
		return line(s, at, end)
	})
	for gv.More("more") {
		line, err := it.Next()
		if cr && at < len(data) && data[at] == '\n' {
			at++
		}
		if err != nil {
			if err == iter.InvalidUTF8EncodingError {
				return
			}
			gv.Assert("the error at the end", err == endOf(end) && line == "")
			gv.Assert("only after the last line", at == len(data) || failing && gv.Forall(at, complete(data, at), plain))
			_, err = it.Next()
			gv.Assert("the same error again", err == endOf(end))
			return
		}
		gv.Assert("the text of the line", at+len(line) <= len(data) && gv.Forall(0, len(line), func(k int) bool { return line[k] == data[at+k] && plain(at+k) }))
		at += len(line)
		cr = false
		if at < len(data) {
			gv.Assert("up to its end", !plain(at))
			cr = data[at] == '\r'
			at++
		} else {
			gv.Assert("the last line is not empty, if it has no end", len(line) > 0 && !failing)
		}
	}
}

func init() {
	gv.Register("C18", "StringAsRunesIterGen", func() {
		s := gv.Any[string]("s")
		it := iter.OfIter(iter.StringAsRunesIterGen(s))
		given := 0
		gv.Inv(func(i int) bool { return 0 <= i && i <= len(s) })
		for {
			if !gv.More("more") {
				return
			}
			if given == len(s) {
				break
			}
			var r, x rune
			var err error
			var size int
			gv.Join(func() { r, err = it.Next() })
			gv.Join(func() { x, size, _ = decode(s, given) })
			if size == 0 {
				runesEnded(it, err)
				gv.Assert("an error for an invalid encoding", err == iter.InvalidUTF8EncodingError && r == 0)
				return
			}
			gv.Assert("the next rune", err == nil && r == x)
			given += size
		}
		runesEnded(it, iter.EOI)
	})
	gv.Register("C18", "OfStringAsRunes", func() {
		gv.Bounded("texts of up to 4 bytes")
		bs := make([]byte, gv.Choice("len", 5))
		for i := range bs {
			bs[i] = gv.Any[byte]("b")
		}
		var it iter.Iter[rune]
		gv.Join(func() { it = iter.OfStringAsRunes(string(bs)) })
		for i := 0; i < len(bs); {
			var r, x rune
			var err error
			var size int
			gv.Join(func() { r, err = it.Next() })
			gv.Join(func() { x, size, _ = decode(bs, i) })
			if size == 0 {
				// any invalid byte is replaced
				x, size = 0xFFFD, 1
			}
			gv.Assert("the next rune", err == nil && r == x)
			i += size
		}
		runesEnded(it, iter.EOI)
	})
	gv.Register("C18", "OfStringAsLines", func() {
		s := gv.Any[string]("s")
		linesOf(iter.OfStringAsLines(s), s, io.EOF)
	})
}
