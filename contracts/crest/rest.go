// Package crest has the contracts of package rest.
package crest

import (
	"net/http"
	"net/url"
	"regexp"

	"github.com/bantling/micro/rest"
	"vf/gv"
)

// response records the status.
type response struct {
	status  int
	headers int
	written int
}

func (r *response) Header() http.Header { return http.Header{} }
func (r *response) WriteHeader(s int) {
	r.headers++
	r.status = s
}
func (r *response) Write(p []byte) (int, error) {
	r.written++
	return len(p), nil
}

type handler struct {
	calls int
	w     http.ResponseWriter
	r     *http.Request
	parts []string
}

func (h *handler) Serve(w http.ResponseWriter, r *http.Request, parts []string) {
	h.calls++
	h.w, h.r, h.parts = w, r, parts
}

func equal(a, b []string) bool {
	return len(a) == len(b) && gv.Forall(0, len(a), func(i int) bool { return a[i] == b[i] })
}

func serve(n int) {
	gv.Bounded("at most 3 handlers")
	var (
		sm       rest.ServeMux
		methods  []string
		patterns []*regexp.Regexp
		handlers []*handler
	)
	for i := 0; i < n; i++ {
		d := string(rune('0' + i))
		m, p, h := gv.Any[string]("method"+d), gv.Any[string]("pattern"+d), &handler{}
		re, bad := regexp.Compile(p)
		var err error
		if gv.Bool("nil handler" + d) {
			err = sm.Handle(m, p, nil)
			gv.Assert("an error without a handler", err != nil)
		} else {
			err = sm.Handle(m, p, h)
			gv.Assert("an error exactly for an empty method or pattern, or an invalid pattern", (err != nil) == (m == "" || p == "" || bad != nil))
		}
		if err == nil {
			methods, patterns, handlers = append(methods, m), append(patterns, re), append(handlers, h)
		}
	}
	w, method, path := &response{}, gv.Any[string]("method"), gv.Any[string]("path")
	r := &http.Request{Method: method, URL: &url.URL{Path: path}}
	sm.ServeHTTP(w, r)
	found, matched := -1, false
	for i := range handlers {
		parts := patterns[i].FindStringSubmatch(path)
		if parts != nil {
			matched = true
			if found < 0 && methods[i] == method {
				found = i
				gv.Assert("the handler gets the response, the request and the parts of the path", handlers[i].w == w && handlers[i].r == r && equal(handlers[i].parts, parts))
			}
		}
	}
	for i, h := range handlers {
		gv.Assert("only the first handler with the method and a pattern that matches the path is called, once", h.calls == gv.Ite(i == found, 1, 0))
	}
	if found >= 0 {
		gv.Assert("the response is left to the handler", w.headers == 0 && w.written == 0)
	} else {
		gv.Assert("one status", w.headers == 1)
		gv.Assert("method not allowed if a pattern matches the path, otherwise not found", w.status == gv.Ite(matched, 405, 404))
	}
}

func init() {
	for i, n := range []string{"0", "1", "2", "3"} {
		gv.Register("C21", "ServeMux_"+n, func() { serve(i) })
	}
	gv.Register("C21", "MustHandle", func() {
		m, p := gv.Any[string]("method"), gv.Any[string]("pattern")
		_, bad := regexp.Compile(p)
		var sm rest.ServeMux
		panics := gv.Panics(func() { sm.MustHandle(m, p, &handler{}) })
		gv.Assert("panics exactly for an error", panics == (m == "" || p == "" || bad != nil))
	})
	gv.Register("C21", "HandlerFunc", func() {
		h, w, r, parts := &handler{}, &response{}, &http.Request{}, gv.Slice[string]("parts")
		rest.HandlerFunc(h.Serve).Serve(w, r, parts)
		gv.Assert("calls the function with its arguments", h.calls == 1 && h.w == w && h.r == r && equal(h.parts, parts))
	})
}
