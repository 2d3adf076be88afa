// Package cio has the contracts of packages io and io/writer.
package cio

import (
	"unicode/utf8"

	"github.com/bantling/micro/io"
	"github.com/bantling/micro/io/writer"
	"github.com/bantling/micro/tuple"
	"vf/gv"
)

func errorReader() {
	input, end := gv.Slice[byte]("input"), gv.Any[error]("end")
	orig := gv.Clone(input)
	r := io.NewErrorReader(input, end)
	pos := 0
	gv.Inv(func(i int) bool { return 0 <= i && i <= len(input) })
	for gv.More("read") {
		p := gv.Slice[byte]("p")
		old := gv.Clone(p)
		n, err := r.Read(p)
		if pos == len(input) {
			gv.Assert("the error after all of the input, every time", n == 0 && err == end)
		} else {
			gv.Assert("no error before", err == nil)
			gv.Assert("as many bytes as asked for and left", n == min(len(p), len(input)-pos))
		}
		gv.Assert("the next bytes of the input", gv.Forall(0, n, func(i int) bool { return p[i] == orig[pos+i] }))
		gv.Assert("the rest of the buffer is unchanged", gv.Forall(n, len(p), func(i int) bool { return p[i] == old[i] }))
		pos += n
	}
	gv.Assert("the input is unchanged", len(input) == len(orig) && gv.Forall(0, len(input), func(i int) bool { return input[i] == orig[i] }))
}

func errorWriter() {
	count, end := gv.Any[int]("count"), gv.Any[error]("end")
	gv.Assume(count <= 1<<40)
	w := io.NewErrorWriter(count, end)
	given := []byte{}
	gv.Inv(func(a, b []byte) bool {
		return len(a) == len(b) && gv.Forall(0, len(a), func(i int) bool { return a[i] == b[i] })
	})
	gv.Inv(func(a []byte) bool { return len(a) <= max(count, 0) })
	gv.Inv(func(i int) bool { return 0 <= i && i <= max(count, 0) })
	for gv.More("write") {
		p := gv.Slice[byte]("p")
		old := gv.Clone(p)
		n, err := w.Write(p)
		switch left := count - len(given); {
		case count < 0:
			gv.Assert("nothing is written for a negative count, without an error", n == 0 && err == nil)
		case left == 0:
			gv.Assert("the error after as many bytes as allowed, every time", n == 0 && err == end)
		default:
			gv.Assert("no error before", err == nil)
			gv.Assert("as many bytes as given and allowed", n == min(len(p), left))
		}
		gv.Assert("the bytes to write are unchanged", gv.Forall(0, len(p), func(i int) bool { return p[i] == old[i] }))
		given = append(given, p[:n]...)
		out := w.Output()
		gv.Assert("the output is what was written", len(out) == len(given) && gv.Forall(0, len(out), func(i int) bool { return out[i] == given[i] }))
	}
}

// sink is a writer that fails in any way at any time.
type sink struct {
	out   []byte // everything written
	calls int
	n     int // of the last call
	err   error
	short bool
	max   int // bytes per call, at most
}

func (s *sink) Write(p []byte) (int, error) {
	s.calls++
	s.n, s.err = gv.Any[int]("written"), gv.Any[error]("write error")
	gv.Assume(0 <= s.n && s.n <= len(p))
	s.short = s.n < len(p)
	s.out = append(s.out, p[:s.n]...)
	return s.n, s.err
}

// written checks that the next bytes of the output are those of a value.
func written(s *sink, from int, enc []byte, err error) {
	gv.Assert("the bytes of the value are written", len(s.out) == from+s.n && s.n <= len(enc))
	gv.Assert("in order", gv.Forall(0, s.n, func(i int) bool { return s.out[from+i] == enc[i] }))
	gv.Assert("an error exactly if not all the bytes are written or the writer has an error", (err == nil) == (s.err == nil && s.n == len(enc)))
	gv.Assert("the error of the writer, if it has one", s.err == nil || err == s.err)
}

func one[T any](n string, mk func(s *sink) writer.Writer[T], enc func(T) []byte) {
	gv.Register("C22", n, func() {
		s := &sink{}
		w := mk(s)
		for gv.More("more") {
			v := gv.Any[T]("v")
			from, calls := len(s.out), s.calls
			e := enc(v)
			err := w.Write(v)
			gv.Assert("the value is written at once", s.calls == calls+1)
			written(s, from, e, err)
		}
	})
}

func several[T comparable](n string) {
	gv.Register("C22", "Write_several_"+n, func() {
		var got []T
		bad, err0 := gv.Any[int]("bad"), gv.ErrNonNil("error")
		w := writer.NewWriter(func(v T) error {
			if len(got) == bad {
				return err0
			}
			got = append(got, v)
			return nil
		})
		vals := gv.Slice[T]("vals")
		gv.Inv(func(g []T) bool {
			return len(g) <= len(vals) && gv.Forall(0, len(g), func(i int) bool { return g[i] == vals[i] })
		})
		gv.Inv(func(i int, g []T) bool { return i == len(g) })
		gv.Inv(func(g []T) bool { return gv.Implies(0 <= bad, len(g) <= bad) })
		err := w.Write(vals...)
		fails := 0 <= bad && bad < len(vals)
		gv.Assert("the first error, exactly if there is one", gv.Implies(fails, err == err0) && gv.Implies(!fails, err == nil))
		k := gv.Ite(fails, bad, len(vals))
		gv.Assert("the values before the error are written, in order, and no other", len(got) == k && gv.Forall(0, k, func(i int) bool { return got[i] == vals[i] }))
	})
	gv.Register("C22", "OfSliceWriter_"+n, func() {
		s, vals := gv.Slice[T]("s"), gv.Slice[T]("vals")
		old := gv.Clone(s)
		w := writer.OfSliceWriter(&s)
		gv.Inv(func(i int) bool {
			return len(s) == len(old)+i && gv.Forall(0, len(old), func(k int) bool { return s[k] == old[k] }) &&
				gv.Forall(0, i, func(k int) bool { return k < len(vals) && s[len(old)+k] == vals[k] })
		})
		gv.Assert("no error", w.Write(vals...) == nil)
		gv.Assert("all values are added", len(s) == len(old)+len(vals))
		gv.Assert("after those there were", gv.Forall(0, len(old), func(i int) bool { return s[i] == old[i] }))
		gv.Assert("in order", gv.Forall(0, len(vals), func(i int) bool { return s[len(old)+i] == vals[i] }))
	})
}

func mapWriter[K, V comparable](n string) {
	gv.Register("C22", "OfMapWriter_"+n, func() {
		m, k := gv.Map[K, V]("m"), gv.Any[K]("k")
		w := writer.OfMapWriter(m)
		// what k is to have
		v, ok := m[k]
		gv.Inv(func() bool { x, has := m[k]; return has == ok && x == v })
		for gv.More("more") {
			x, y := gv.Any[K]("key"), gv.Any[V]("value")
			gv.Assert("no error", w.Write(tuple.Of2(x, y)) == nil)
			if x == k {
				v, ok = y, true
			}
			got, has := m[k]
			gv.Assert("every key has the last value written for it", has == ok && got == v)
		}
	})
}

func init() {
	gv.Register("C22", "ErrorReader", errorReader)
	gv.Register("C22", "ErrorWriter", errorWriter)
	gv.Register("C22", "NewWriter_nil", func() {
		gv.Assert("panics without a function", gv.Panics(func() { writer.NewWriter[int](nil) }))
	})
	one("OfIOWriterAsBytes", func(s *sink) writer.Writer[byte] { return writer.OfIOWriterAsBytes(s) }, func(b byte) []byte { return []byte{b} })
	one("OfIOWriterAsRunes", func(s *sink) writer.Writer[rune] { return writer.OfIOWriterAsRunes(s) }, func(r rune) []byte { return utf8.AppendRune(nil, r) })
	one("OfIOWriterAsStrings", func(s *sink) writer.Writer[string] { return writer.OfIOWriterAsStrings(s) }, func(s string) []byte { return []byte(s) })
	one("OfIOWriterAsLines", func(s *sink) writer.Writer[string] { return writer.OfIOWriterAsLines(s) }, func(s string) []byte { return []byte(s + "\n") })
	several[int]("int")
	several[string]("string")
	mapWriter[int, string]("int_string")
	mapWriter[string, int]("string_int")
}
