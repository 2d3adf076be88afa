package main

import (
	"fmt"
	"go/types"
	"regexp"
	"regexp/syntax"
	"unicode"
)

// reItem is a part of a pattern that is a sequence: characters of a class, repeated min to max times.
type reItem struct {
	in       []rune // pairs of lowest and highest
	min, max int    // max < 0: no limit
	group    int    // the group the item alone makes up, if any
}

// reItems splits a pattern that matches whole texts, and is a sequence of repeated ASCII classes and
// groups of one such item, into its parts.
func reItems(pat string) (items []reItem, groups int, ok bool) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil || re.Op != syntax.OpConcat || len(re.Sub) < 2 {
		return nil, 0, false
	}
	n := len(re.Sub)
	if re.Sub[0].Op != syntax.OpBeginText || re.Sub[n-1].Op != syntax.OpEndText {
		return nil, 0, false
	}
	for _, s := range re.Sub[1 : n-1] {
		it := reItem{min: 1, max: 1}
		if s.Op == syntax.OpCapture {
			it.group = s.Cap
			groups = max(groups, s.Cap)
			s = s.Sub[0]
		}
		switch s.Op {
		case syntax.OpStar, syntax.OpPlus, syntax.OpQuest:
			if s.Flags&syntax.NonGreedy != 0 || s.Sub[0].Op == syntax.OpCapture {
				return nil, 0, false
			}
			it.min, it.max = 0, -1
			if s.Op == syntax.OpPlus {
				it.min = 1
			}
			if s.Op == syntax.OpQuest {
				it.max = 1
			}
			s = s.Sub[0]
		}
		switch {
		case s.Op == syntax.OpLiteral && len(s.Rune) == 1 && s.Flags&syntax.FoldCase == 0:
			it.in = []rune{s.Rune[0], s.Rune[0]}
		case s.Op == syntax.OpLiteral && it.group == 0 && it.min == 1 && it.max == 1 && s.Flags&syntax.FoldCase == 0:
			for _, r := range s.Rune {
				items = append(items, reItem{in: []rune{r, r}, min: 1, max: 1})
			}
			continue
		case s.Op == syntax.OpCharClass:
			it.in = s.Rune
		default:
			return nil, 0, false
		}
		items = append(items, it)
	}
	for _, it := range items {
		for _, r := range it.in {
			if r >= 128 {
				return nil, 0, false
			}
		}
	}
	return items, groups, re.MaxCap() == groups
}

func (it reItem) has(c *Term) *Term {
	r := TFalse
	for i := 0; i < len(it.in); i += 2 {
		r = Or(r, And(Le(TI(int64(it.in[i])), c), Le(c, TI(int64(it.in[i+1])))))
	}
	return r
}

// reSplits calls f with every way the bytes may be split into the items, the preferred way first.
func reSplits(items []reItem, vec []*Term, f func(ends []int, c *Term)) {
	var rec func(i, pos int, ends []int, c *Term)
	rec = func(i, pos int, ends []int, c *Term) {
		if c.isFalse() {
			return
		}
		if i == len(items) {
			if pos == len(vec) {
				f(ends, c)
			}
			return
		}
		it := items[i]
		most := len(vec) - pos
		if it.max >= 0 {
			most = min(most, it.max)
		}
		cs := []*Term{c}
		for n := 1; n <= most; n++ {
			cs = append(cs, And(cs[n-1], it.has(vec[pos+n-1])))
		}
		for n := most; n >= it.min; n-- {
			rec(i+1, pos+n, append(ends[:i:i], pos+n), cs[n])
		}
	}
	rec(0, 0, nil, TTrue)
}

func (c *Call) regexPattern() (string, bool) {
	if p, ok := c.args[0].(Ptr); ok && p.Sym == nil && p.Obj != 0 {
		if r, ok := c.st.obj(p.Obj).Val.(RegexV); ok && r.t == nil {
			return r.pat, true
		}
	}
	return "", false
}

// regexSubmatch does FindStringSubmatch for patterns that are sequences of classes; ok is false for others.
func (e *Engine) regexSubmatch(c *Call) bool {
	pat, ok := c.regexPattern()
	if !ok {
		return false
	}
	items, groups, ok := reItems(pat)
	if !ok {
		return false
	}
	none := SliceV{0, TI(0), TI(0), TI(0), TTrue}
	result := func(st *State, parts []Value) Value {
		id := st.alloc(&Obj{Kind: 'a', Typ: types.Typ[types.String], Vec: parts, Origin: "regexp"})
		n := TI(int64(len(parts)))
		return SliceV{id, TI(0), n, n, TFalse}
	}
	s := c.str(1)
	if !s.IsVec {
		re, str := c.st.strTerm(concStr(pat)), c.st.strTerm(s)
		e.fork(c.st, TApp("re.match", SBool, re, str), func(st *State) {
			parts := []Value{s}
			for g := 1; g <= groups; g++ {
				parts = append(parts, st.opaqueStr(TApp(fmt.Sprintf("re.part%d", g), SStr, re, str)))
			}
			sum := TI(0)
			for i, it := range items {
				var n *Term
				if it.group > 0 {
					n = parts[it.group].(*StrV).Len
				} else {
					n = TApp(fmt.Sprintf("re.len%d", i), SInt, re, str)
				}
				st.assume(Le(TI(int64(it.min)), n))
				if it.max >= 0 {
					st.assume(Le(n, TI(int64(it.max))))
				}
				sum = Add(sum, n)
			}
			st.assume(Eq(sum, s.Len))
			c.k(st, result(st, parts))
		}, func(st *State) { c.k(st, none) })
		return true
	}
	type split struct {
		ends []int
		c    *Term
	}
	var splits []split
	reSplits(items, s.Vec, func(ends []int, c *Term) { splits = append(splits, split{ends, c}) })
	var next func(st *State, i int)
	next = func(st *State, i int) {
		if i == len(splits) {
			c.k(st, none)
			return
		}
		e.fork(st, splits[i].c, func(st *State) {
			parts := []Value{s}
			for g := 1; g <= groups; g++ {
				parts = append(parts, concStr(""))
			}
			pos := 0
			for j, it := range items {
				if it.group > 0 {
					parts[it.group] = vecStr(s.Vec[pos:splits[i].ends[j]])
				}
				pos = splits[i].ends[j]
			}
			c.k(st, result(st, parts))
		}, func(st *State) { next(st, i+1) })
	}
	next(c.st, 0)
	return true
}

// regexMatch does MatchString for such patterns.
func (e *Engine) regexMatch(c *Call) bool {
	pat, ok := c.regexPattern()
	s := c.str(1)
	if !ok || !s.IsVec {
		return false
	}
	items, _, ok := reItems(pat)
	if !ok {
		return false
	}
	m := TFalse
	reSplits(items, s.Vec, func(_ []int, c *Term) { m = Or(m, c) })
	c.ret(m)
	return true
}

// reProg is a compiled pattern, run as a nondeterministic automaton.
type reProg struct {
	p     *syntax.Prog
	ascii bool // no class has other than ASCII characters
}

func compileRe(pat string) *reProg {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil
	}
	p, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil
	}
	r := &reProg{p, true}
	for i := range p.Inst {
		switch in := &p.Inst[i]; in.Op {
		case syntax.InstRune, syntax.InstRune1:
			for _, c := range in.Rune {
				r.ascii = r.ascii && c < 128
			}
			if len(in.Rune) == 1 && syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
				for f := unicode.SimpleFold(in.Rune[0]); f != in.Rune[0]; f = unicode.SimpleFold(f) {
					r.ascii = r.ascii && f < 128
				}
			}
		case syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			r.ascii = false
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(in.Arg)&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
				return nil
			}
		}
	}
	return r
}

// step follows the instructions that read nothing; f gets those that read a character.
func (r *reProg) step(pc uint32, begin, end bool, seen map[uint32]bool, f func(pc uint32), match func()) {
	if seen[pc] {
		return
	}
	seen[pc] = true
	in := &r.p.Inst[pc]
	switch in.Op {
	case syntax.InstAlt, syntax.InstAltMatch:
		r.step(in.Out, begin, end, seen, f, match)
		r.step(in.Arg, begin, end, seen, f, match)
	case syntax.InstCapture, syntax.InstNop:
		r.step(in.Out, begin, end, seen, f, match)
	case syntax.InstEmptyWidth:
		op := syntax.EmptyOp(in.Arg)
		if (op&syntax.EmptyBeginText == 0 || begin) && (op&syntax.EmptyEndText == 0 || end) {
			r.step(in.Out, begin, end, seen, f, match)
		}
	case syntax.InstMatch:
		match()
	case syntax.InstFail:
	default:
		f(pc)
	}
}

func (r *reProg) has(pc uint32, c *Term) *Term {
	in := &r.p.Inst[pc]
	if len(in.Rune) == 1 {
		t := Eq(c, TI(int64(in.Rune[0])))
		if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
			for f := unicode.SimpleFold(in.Rune[0]); f != in.Rune[0]; f = unicode.SimpleFold(f) {
				t = Or(t, Eq(c, TI(int64(f))))
			}
		}
		return t
	}
	t := TFalse
	for i := 0; i+1 < len(in.Rune); i += 2 {
		t = Or(t, And(Le(TI(int64(in.Rune[i])), c), Le(c, TI(int64(in.Rune[i+1])))))
	}
	return t
}

// matches says when text of these characters has a match.
func (r *reProg) matches(vec []*Term) *Term {
	m := TFalse
	cur := map[uint32]*Term{}
	for i := 0; i <= len(vec); i++ {
		next := map[uint32]*Term{}
		enter := func(pc uint32, g *Term) {
			r.step(pc, i == 0, i == len(vec), map[uint32]bool{}, func(pc uint32) {
				if i == len(vec) {
					return
				}
				h := g
				if o := next[pc]; o != nil {
					h = Or(o, g)
				}
				next[pc] = h
			}, func() { m = Or(m, g) })
		}
		// sorted, for the same terms every time
		for pc := uint32(0); int(pc) < len(r.p.Inst); pc++ {
			if g := cur[pc]; g != nil {
				enter(pc, g)
			}
		}
		enter(uint32(r.p.Start), TTrue)
		cur = map[uint32]*Term{}
		if i == len(vec) {
			break
		}
		for pc := uint32(0); int(pc) < len(r.p.Inst); pc++ {
			g := next[pc]
			if g == nil {
				continue
			}
			g = And(g, r.has(pc, vec[i]))
			if g.isFalse() {
				continue
			}
			out := r.p.Inst[pc].Out
			if o := cur[out]; o != nil {
				g = Or(o, g)
			}
			cur[out] = g
		}
	}
	return m
}

// matchesAll says whether all texts of a language (a pattern for whole texts), or none of them, have a match.
func (r *reProg) matchesAll(lang string) (all, none bool) {
	l := compileRe(lang)
	if l == nil {
		return false, false
	}
	const alphabet = "0123456789+-.eEINanf"
	type pair struct {
		l, r  string
		begin bool
	}
	key := func(m map[uint32]bool, n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = '0'
			if m[uint32(i)] {
				b[i] = '1'
			}
		}
		return string(b)
	}
	all, none = true, true
	seen := map[pair]bool{}
	type work struct {
		l, r    map[uint32]bool
		matched bool
		begin   bool
	}
	closure := func(p *reProg, m map[uint32]bool, begin, end bool) (reads map[uint32]bool, match bool) {
		reads = map[uint32]bool{}
		s := map[uint32]bool{}
		for pc := range m {
			p.step(pc, begin, end, s, func(pc uint32) { reads[pc] = true }, func() { match = true })
		}
		return
	}
	queue := []work{{map[uint32]bool{uint32(l.p.Start): true}, map[uint32]bool{uint32(r.p.Start): true}, false, true}}
	for len(queue) > 0 {
		w := queue[0]
		queue = queue[1:]
		k := pair{key(w.l, len(l.p.Inst)), key(w.r, len(r.p.Inst)) + fmt.Sprint(w.matched), w.begin}
		if seen[k] {
			continue
		}
		seen[k] = true
		if _, lm := closure(l, w.l, w.begin, true); lm {
			if _, rm := closure(r, w.r, w.begin, true); rm || w.matched {
				none = false
			} else {
				all = false
			}
		}
		lr, _ := closure(l, w.l, w.begin, false)
		rr, rm := closure(r, w.r, w.begin, false)
		for _, c := range alphabet {
			n := work{map[uint32]bool{}, map[uint32]bool{uint32(r.p.Start): true}, w.matched || rm, false}
			for pc := range lr {
				if l.p.Inst[pc].MatchRune(c) {
					n.l[l.p.Inst[pc].Out] = true
				}
			}
			if len(n.l) == 0 {
				continue
			}
			for pc := range rr {
				if r.p.Inst[pc].MatchRune(c) {
					n.r[r.p.Inst[pc].Out] = true
				}
			}
			queue = append(queue, n)
		}
	}
	return
}

const (
	intLang   = `^-?(0|[1-9][0-9]*)$`
	floatLang = `^-?(0|[1-9][0-9]*)([.][0-9]+)?$`
)

// regexMatchText does MatchString for the texts that numbers are formatted as, and any text of known characters.
func (e *Engine) regexMatchText(c *Call) bool {
	pat, ok := c.regexPattern()
	if !ok {
		return false
	}
	r := compileRe(pat)
	if r == nil {
		return false
	}
	s := c.str(1)
	if s.IsVec {
		if !r.ascii {
			return false
		}
		c.ret(r.matches(s.Vec))
		return true
	}
	of := func(lang string) *Term {
		if all, none := r.matchesAll(lang); all {
			return TTrue
		} else if none {
			return TFalse
		}
		return TApp("re.match", SBool, regexTerm(c), c.st.strTerm(s))
	}
	if _, ok := intOfStr(s); ok {
		c.ret(of(intLang))
		return true
	}
	if t := s.T; t != nil && t.Op == "app" && len(t.Args) >= 4 && (t.Name == "ffmt" || t.Name == "bf.text") {
		if f := t.Args[2]; f.N != nil && f.N.Int64() == 'f' && (t.Name == "bf.text" || t.Args[3].N != nil) {
			c.ret(Ite(Eq(t.Args[0], TI(0)), of(floatLang), Ite(Eq(t.Args[0], TI(1)), of(`^[+]Inf$`), Ite(Eq(t.Args[0], TI(2)), of(`^-Inf$`), of(`^NaN$`)))))
			return true
		}
	}
	return false
}

// regexConcrete has the results of methods for known texts.
func init() {
	strs := func(st *State, ss []string) SliceV {
		parts := make([]Value, len(ss))
		for i, s := range ss {
			parts[i] = concStr(s)
		}
		id := st.alloc(&Obj{Kind: 'a', Typ: types.Typ[types.String], Vec: parts, Origin: "regexp"})
		n := TI(int64(len(parts)))
		return SliceV{id, TI(0), n, n, TFalse}
	}
	method := func(name string, f func(c *Call, re *regexp.Regexp, text string) bool) {
		handlers["(*regexp.Regexp)."+name] = func(e *Engine, c *Call) {
			pat, ok := c.regexPattern()
			text, ok2 := c.str(1).concrete()
			if !ok || !ok2 || !f(c, regexp.MustCompile(pat), text) {
				panic(unsup("regexp %s of an unknown text", name))
			}
		}
	}
	method("ReplaceAllLiteralString", func(c *Call, re *regexp.Regexp, text string) bool {
		by, ok := c.str(2).concrete()
		if ok {
			c.ret(concStr(re.ReplaceAllLiteralString(text, by)))
		}
		return ok
	})
	method("FindAllStringSubmatch", func(c *Call, re *regexp.Regexp, text string) bool {
		if c.t(2).N == nil {
			return false
		}
		all := re.FindAllStringSubmatch(text, int(c.t(2).N.Int64()))
		if all == nil {
			c.ret(SliceV{0, TI(0), TI(0), TI(0), TTrue})
			return true
		}
		parts := make([]Value, len(all))
		for i, m := range all {
			parts[i] = strs(c.st, m)
		}
		id := c.st.alloc(&Obj{Kind: 'a', Typ: types.NewSlice(types.Typ[types.String]), Vec: parts, Origin: "regexp"})
		n := TI(int64(len(parts)))
		c.ret(SliceV{id, TI(0), n, n, TFalse})
		return true
	})
}
