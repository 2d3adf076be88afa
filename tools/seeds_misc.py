from seedlib import *
F='funcs/funcs.go'
e='"github.com/bantling/micro/event"'
u='"github.com/bantling/micro/union"'
U='union/union.go'
R='''
type r struct{ s string }
func (x *r) Process(s string) string { return s + x.s }
'''
SEEDS=[
dict(id='C20-a', property='C20', edits=[('event/event.go','''	funcs.OrderedTuple2SliceRemoveUncomparable(&r.receivers, id, rcvr, all...)
''','''	if i, ok := funcs.OrderedTuple2Search(r.receivers, id); ok && funcs.SliceIndex(all, 0, false) {
		// No need to keep the id if there is no other receiver
		p, rcvrs := fmt.Sprintf("%p", rcvr), r.receivers[i].U
		if l := len(rcvrs); l > 0 && fmt.Sprintf("%p", rcvrs[0]) == p && fmt.Sprintf("%p", rcvrs[l-1]) == p {
			r.RemoveId(id)
			return
		}
	}
	funcs.OrderedTuple2SliceRemoveUncomparable(&r.receivers, id, rcvr, all...)
'''),('event/event.go','''import (
''','''import (
	"fmt"

''')],
  main=M([e], '''	a, b := &r{"a"}, &r{"b"}
	var g event.Registry[int, string]
	g.Register(1, a)
	g.Register(1, b)
	g.Register(1, a)
	g.Remove(1, a, true)
	if s := g.Send(""); s != "b" { fail("%v", s) }''',R),
  needs='a receiver registered before and after another one, and then removed everywhere', breaks='the other receiver is removed as well'),
dict(id='C20-b', property='C20', edits=[('event/event.go','''	funcs.OrderedTuple2SliceRemoveUncomparable(&r.receivers, id, rcvr, all...)
''','''	funcs.OrderedTuple2SliceRemoveUncomparable(&r.receivers, id, rcvr, len(all) > 0)
''')],
  main=M([e], '''	a := &r{"a"}
	var g event.Registry[int, string]
	g.Register(1, a)
	g.Register(1, a)
	g.Remove(1, a, false)
	if s := g.Send(""); s != "a" { fail("%v", s) }''',R),
  needs='the optional flag passed as false', breaks='all registrations are removed'),
dict(id='C19-a', property='C19', edits=[(U,'''	// Set the value
	m.Set(newVal)

	return nil''','''	// Set the value
	m.v, m.present = newVal, true

	return nil''')],
  main=M([u], '''	var m union.Maybe[*int]
	if err := m.SetOrError(nil); err != nil || m.Present() { fail("%v %v", err, m.Present()) }'''),
  needs='a nil value set via the variant that returns an error', breaks='the maybe is present with a nil value'),
dict(id='C19-b', property='C19', edits=[(U,'''func (s *Four[TT, UU, VV, WW]) SetV(v VV) {
	s.v = v
	s.which = V
}''','''func (s *Four[TT, UU, VV, WW]) SetV(v VV) {
	if s.which != W {
		s.which = V
	}
	s.v = v
}''')],
  main=M([u], '''	x := union.Of4W[int, int, int, int](1)
	x.SetV(2)
	if x.Which() != union.V || x.V() != 2 { fail("%v", x.Which()) }'''),
  needs='the third member set after the fourth', breaks='the fourth member stays selected'),
dict(id='C19-c', property='C19', edits=[(U,'''	if len(slc) > 0 {
		m.Set(slc[0])
	}
''','''	for _, v := range slc {
		if m.Set(v); m.present {
			break
		}
	}
''')],
  main=M([u], '''	i := 1
	if m := union.First([]*int{nil, &i}); m.Present() { fail("present") }'''),
  needs='a slice of which the first element is nil', breaks='the first element that is not nil is used instead'),
]
r='"github.com/bantling/micro/rest"'
wr='"github.com/bantling/micro/io/writer"'
io='"github.com/bantling/micro/io"'
H='''
type hd struct{ n int }
func (h *hd) Serve(w http.ResponseWriter, r *http.Request, p []string) { h.n++ }
'''
X='rest/rest.go'
W='io/writer/'
HI=['"net/http"','"net/http/httptest"',r]
SEEDS+=[
dict(id='C21-a', property='C21', edits=[(X,'''			if method == mMethod {''','''			if method == mMethod || (method == "HEAD" && mMethod == "GET") {''')],
  main=M(HI, '''	var m rest.ServeMux
	a, b := &hd{}, &hd{}
	m.MustHandle("GET", "^/x$", a)
	m.MustHandle("HEAD", "^/x$", b)
	m.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("HEAD", "/x", nil))
	if a.n != 0 || b.n != 1 { fail("%d %d", a.n, b.n) }''',H),
  needs='a HEAD request for a path with a GET handler', breaks='the GET handler is called'),
dict(id='C21-b', property='C21', edits=[(X,'''	// Add method, pattern, and handler triple
''','''	// A pattern already added is not compiled and matched again
	for i, h := range sm.handlers {
		if h.T == method && h.U.String() == pattern {
			sm.handlers[i].V = handler
			return nil
		}
	}

	// Add method, pattern, and handler triple
''')],
  main=M(HI, '''	var m rest.ServeMux
	a, b := &hd{}, &hd{}
	m.MustHandle("GET", "^/x$", a)
	m.MustHandle("GET", "^/x$", b)
	m.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/x", nil))
	if a.n != 1 || b.n != 0 { fail("%d %d", a.n, b.n) }''',H),
  needs='the same method and pattern added twice', breaks='the handler added last is called rather than the first one'),
dict(id='C22-a', property='C22', edits=[(W+'gen.go','''		} else if n < len(p) {
			return fmt.Errorf(errIORuneWriterMsg, val)''','''		} else if n == 0 {
			return fmt.Errorf(errIORuneWriterMsg, val)''')],
  main=M([wr], '''	if err := writer.OfIOWriterAsRunes(short{}).Write('\\u20ac'); err == nil { fail("no error") }''','''
type short struct{}
func (short) Write(p []byte) (int, error) { return 1, nil }
'''),
  needs='a writer that writes only a part of a character without an error', breaks='no error is reported'),
dict(id='C22-b', property='C22', edits=[(W+'writer.go','''	for _, val := range vals {
		if err := w.writerFn(val); err != nil {
			return err
		}
	}

	return nil''','''	var err error
	for i := 0; i < len(vals) && err == nil; i++ {
		if err = w.writerFn(vals[i]); err == nil && i+8 < len(vals) {
			// Write most of the rest in blocks
			for _, val := range vals[i+1 : i+8] {
				err = w.writerFn(val)
			}
			i += 7
		}
	}

	return err''')],
  main=M([wr], '''	e := fmt.Errorf("e")
	w := writer.NewWriter(func(i int) error { if i == 3 { return e }; return nil })
	if err := w.Write(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); err != e { fail("%v", err) }'''),
  needs='nine values or more of which one in the middle cannot be written', breaks='the error is lost and later values are written'),
dict(id='C22-c', property='C22', edits=[(W+'gen.go','''			valEOL = val + osEOLSequence
''','''			valEOL = strings.TrimSuffix(val, osEOLSequence) + osEOLSequence
'''),(W+'gen.go','''	"runtime"
''','''	"runtime"
	"strings"
''')],
  main=M(['"bytes"',wr], '''	var b bytes.Buffer
	if err := writer.OfIOWriterAsLines(&b).Write("a", "\\n"); err != nil || b.String() != "a\\n\\n\\n" { fail("%v %q", err, b.String()) }'''),
  needs='a line that ends with a line feed itself', breaks='the line feed is not repeated, so a line is lost'),
]
