package main

// Goroutines. A goroutine is executed where it is started, and its accesses to memory are recorded. That
// stands for every schedule when it has no conflict (the same place, at least one write) with what runs
// at the same time: the goroutines started earlier and not yet waited for, and the goroutine that started
// it, up to the Wait. All of that is obligations: no conflicting access, no panic, one Done (with nothing
// shared accessed after it) per goroutine, no Add by a goroutine, and a count of zero at the Wait.

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// footprint has the accesses of a goroutine so far.
type footprint struct {
	reads, writes []Ptr
}

func (f *footprint) from(r, w int) *footprint { return &footprint{f.reads[r:], f.writes[w:]} }

type goroutine struct {
	where string
	fp    *footprint
	mark  int    // objects up to here existed when it started
	key   string // of the wait group it is done for
	dones int
	mainR int // the accesses of the starter before the start
	mainW int
}

// conc is immutable, like the values it has.
type conc struct {
	gs     []goroutine
	counts map[string]*Term // of wait groups
	inside bool             // running a goroutine: the last of gs
}

func (c *conc) running() bool { return c != nil && len(c.gs) > 0 }

func (c *conc) copy() *conc {
	n := &conc{counts: map[string]*Term{}}
	if c != nil {
		n.gs, n.inside = append([]goroutine(nil), c.gs...), c.inside
		for k, v := range c.counts {
			n.counts[k] = v
		}
	}
	return n
}

func (st *State) noteRead(p Ptr) {
	if f := st.logReads; f != nil {
		st.logReads = &footprint{append(f.reads[:len(f.reads):len(f.reads)], p), f.writes}
	}
}

func (st *State) noteWrite(p Ptr) {
	if f := st.logReads; f != nil {
		st.logReads = &footprint{f.reads, append(f.writes[:len(f.writes):len(f.writes)], p)}
	}
}

// noteSpan is for n elements of a backing array.
func (st *State) noteSpan(obj int, off, n *Term, write bool) {
	if st.logReads == nil || obj == 0 {
		return
	}
	note := st.noteRead
	if write {
		note = st.noteWrite
	}
	if off.N == nil || n.N == nil || n.N.Int64() > 64 {
		note(Ptr{Obj: obj})
		return
	}
	for i := int64(0); i < n.N.Int64(); i++ {
		note(Ptr{Obj: obj, Path: []PE{{Field: -1, Idx: Add(off, TI(i))}}})
	}
}

// apart says when two places are different.
func apart(a, b Ptr) *Term {
	if a.Obj != b.Obj {
		return TTrue
	}
	r := TFalse
	for i := 0; i < len(a.Path) && i < len(b.Path); i++ {
		x, y := a.Path[i], b.Path[i]
		if x.Idx != nil && y.Idx != nil {
			r = Or(r, Not(Eq(x.Idx, y.Idx)))
		} else if x.Idx == nil && y.Idx == nil && x.Field != y.Field {
			return TTrue
		}
	}
	return r
}

func (e *Engine) noConflict(st *State, where, what string, a, b *footprint) {
	byObj := map[int][]Ptr{}
	add := func(ps []Ptr) {
		for _, p := range ps {
			byObj[p.Obj] = append(byObj[p.Obj], p)
		}
	}
	all := TTrue
	check := func(ws []Ptr) {
		done := map[string]bool{}
		for _, w := range ws {
			for _, p := range byObj[w.Obj] {
				t := apart(w, p)
				if k := fmt.Sprintf("%p", t); !t.isTrue() && !done[k] {
					done[k] = true
					all = And(all, t)
				}
			}
		}
	}
	add(b.writes)
	check(a.reads)
	add(b.reads)
	check(a.writes)
	if !all.isTrue() {
		e.assert(st, "no data race of "+what, where, all)
	}
}

func (e *Engine) goStmt(st *State, fr *Frame, x *ssa.Go, k func(*State)) {
	var args []Value
	for _, a := range x.Call.Args {
		args = append(args, e.val(st, fr, a))
	}
	if x.Call.IsInvoke() {
		panic(unsup("go statement with a method of an interface"))
	}
	f := e.val(st, fr, x.Call.Value)
	e.spawn(st, e.pos(x), f, args, x, k)
}

// spawn starts a goroutine.
func (e *Engine) spawn(st *State, where string, f Value, args []Value, site ssa.Instruction, k func(*State)) {
	if st.conc != nil && st.conc.inside {
		panic(unsup("goroutine started by a goroutine"))
	}
	if st.logReads == nil {
		st.logReads = &footprint{}
	}
	main := st.logReads
	c := st.conc.copy()
	c.inside = true
	g := goroutine{where: where, mark: newObjID(), mainR: len(main.reads), mainW: len(main.writes)}
	c.gs = append(c.gs, g)
	st.conc = c
	st.logReads = &footprint{}
	e.callValue(st, f, args, site, func(s *State, _ Value) {
		c := s.conc.copy()
		g := &c.gs[len(c.gs)-1]
		if g.dones == 0 {
			g.fp = s.logReads
		} else {
			// after Done it has only its own memory
			for _, p := range append(append([]Ptr(nil), s.logReads.reads...), s.logReads.writes...) {
				if p.Obj <= g.mark {
					e.assert(s, "a goroutine shares no memory after Done", where, TFalse)
					break
				}
			}
		}
		if g.dones != 1 {
			e.assert(s, "a goroutine calls Done once", where, TFalse)
		}
		for i := range c.gs[:len(c.gs)-1] {
			e.noConflict(s, where, "two goroutines", c.gs[i].fp, g.fp)
		}
		c.inside = false
		s.conc = c
		s.logReads = main
		k(s)
	}, func(s *State, v Value) {
		e.assert(s, "a goroutine does not panic", where, TFalse)
	})
}

func init() {
	key := func(c *Call) string {
		p, ok := c.args[0].(Ptr)
		if !ok || p.Obj == 0 {
			panic(unsup("wait group %T", c.args[0]))
		}
		k := fmt.Sprint(p.Obj)
		for _, x := range p.Path {
			if x.Idx != nil {
				panic(unsup("wait group in an array"))
			}
			k += fmt.Sprintf(".%d", x.Field)
		}
		return k
	}
	count := func(c *conc, k string) *Term {
		if t := c.counts[k]; t != nil {
			return t
		}
		return TI(0)
	}
	where := func(e *Engine, c *Call) string {
		if c.site != nil {
			return e.pos(c.site)
		}
		return ""
	}
	add := func(e *Engine, c *Call, d *Term) {
		k, n := key(c), c.st.conc.copy()
		t := Add(count(n, k), d)
		e.assert(c.st, "the count of a wait group is not negative", where(e, c), Le(TI(0), t))
		n.counts[k] = t
		c.st.conc = n
	}
	done := func(e *Engine, c *Call) {
		add(e, c, TI(-1))
		if n := c.st.conc; n.inside {
			g := &n.gs[len(n.gs)-1] // add made a copy
			g.dones++
			g.key = key(c)
			if g.fp == nil {
				g.fp = c.st.logReads
			}
			c.st.logReads = &footprint{}
		}
	}
	handlers["(*sync.WaitGroup).Add"] = func(e *Engine, c *Call) {
		if c.st.conc != nil && c.st.conc.inside {
			e.assert(c.st, "a wait group is added to before the goroutine starts", where(e, c), TFalse)
		}
		add(e, c, c.t(1))
		c.ret(TupleV{})
	}
	handlers["(*sync.WaitGroup).Done"] = func(e *Engine, c *Call) {
		done(e, c)
		c.ret(TupleV{})
	}
	handlers["(*sync.WaitGroup).Go"] = func(e *Engine, c *Call) {
		add(e, c, TI(1))
		f := c.args[1]
		e.spawn(c.st, where(e, c), FuncV{Nat: func(e *Engine, st *State, args []Value, k Ret, p Pan) {
			e.callValue(st, f, nil, c.site, func(s *State, _ Value) {
				c2 := *c
				c2.st = s
				done(e, &c2)
				k(s, TupleV{})
			}, p)
		}}, nil, c.site, func(s *State) { c.k(s, TupleV{}) })
	}
	handlers["(*sync.WaitGroup).Wait"] = func(e *Engine, c *Call) {
		st := c.st
		n := st.conc.copy()
		if n.inside {
			panic(unsup("Wait in a goroutine"))
		}
		w := where(e, c)
		e.assert(st, "Wait returns: the count of the wait group is zero", w, Eq(count(n, key(c)), TI(0)))
		gs := n.gs
		n.gs = nil
		for _, g := range gs {
			if g.key != key(c) {
				n.gs = append(n.gs, g)
				continue
			}
			e.noConflict(st, w, "a goroutine and its starter", g.fp, st.logReads.from(g.mainR, g.mainW))
		}
		st.conc = n
		if len(n.gs) == 0 {
			st.logReads = nil
		}
		c.ret(TupleV{})
	}
}
