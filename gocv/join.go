package main

// Joining: the end states of a call are merged into one state per heap shape, so that the code
// after the call is executed once per shape instead of once per path through the call.

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// joinFns are functions whose end states are always joined.
var joinFns = map[string]bool{"io.ReadFull": true, "unicode/utf8.DecodeRuneInString": true, "unicode/utf8.DecodeRune": true}

type joinEnd struct {
	st *State
	r  Value
	cp *capture
}

// joined runs call and merges the states it ends with. Panics of the call are not merged.
func (e *Engine) joined(st *State, rt types.Type, call func(st *State, k Ret), k Ret) {
	entry := st.clone()
	var ends []*joinEnd
	call(st.clone(), func(s *State, r Value) {
		ends = append(ends, &joinEnd{st: s.clone(), r: r})
	})
	if len(ends) == 0 {
		return
	}
	if len(ends) == 1 {
		k(ends[0].st, ends[0].r)
		return
	}
	mod := map[int]bool{}
	for _, j := range ends {
		for id, o := range j.st.heap {
			if entry.hasObj(id) && entry.obj(id) != o {
				mod[id] = true
			}
		}
	}
	groups := map[string][]*joinEnd{}
	var order []string
	for i, j := range ends {
		key, ok := "", false
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, un := r.(unsupported); !un {
						panic(r)
					}
				}
			}()
			j.cp = e.captureJoin(j.st, entry, []Value{j.r}, []types.Type{rt}, mod)
			key, ok = fmt.Sprintf("%s|%v|%p|%p|%d", j.cp.key, j.st.nopanic, j.st.logReads, j.st.conc, len(j.st.tags)), true
		}()
		if !ok {
			key = fmt.Sprintf("single%d", i)
		}
		if groups[key] == nil {
			order = append(order, key)
		}
		groups[key] = append(groups[key], j)
	}
	for _, key := range order {
		g := groups[key]
		if len(g) == 1 {
			k(g[0].st, g[0].r)
			continue
		}
		s, r := e.joinGroup(entry, g, rt, mod)
		k(s, r)
	}
}

func (e *Engine) captureJoin(st, entry *State, phis []Value, ptypes []types.Type, mod map[int]bool) *capture {
	st = st.clone()
	w := &walker{e: e, st: st, entry: entry, mod: mod, canon: map[int]int{}, join: true}
	for i, p := range phis {
		w.val(p, ptypes[i])
		w.key.WriteByte('|')
	}
	var olds []int
	for id := range mod {
		olds = append(olds, id)
	}
	sort.Ints(olds)
	for _, id := range olds {
		fmt.Fprintf(&w.key, "#%d=", id)
		w.objContent(id, true)
	}
	for qi := 0; qi < len(w.queue); qi++ {
		fmt.Fprintf(&w.key, "@%d=", qi)
		w.objContent(w.queue[qi], false)
	}
	return &capture{key: w.key.String(), phis: phis, leaves: w.leaves, infos: w.infos, st: st, olds: olds, news: w.queue}
}

// joinNode is a node of the tree of path conditions of the ends of a call. Nodes with several children are decisions:
// the first child whose condition holds is the one taken.
type joinNode struct {
	pc   *PC
	cond *Term // the condition of this branch, exclusive with those of its siblings
	kids []*joinNode
	at   map[*PC]*joinNode
	end  *joinEnd
}

func (e *Engine) joinTree(entry *State, g []*joinEnd) *joinNode {
	root := &joinNode{at: map[*PC]*joinNode{}}
	for _, j := range g {
		var path []*PC
		for q := j.cp.st.pc; q != entry.pc; q = q.parent {
			path = append(path, q)
		}
		n := root
		for i := len(path) - 1; i >= 0; i-- {
			c := n.at[path[i]]
			if c == nil {
				c = &joinNode{pc: path[i], at: map[*PC]*joinNode{}}
				n.at[path[i]] = c
				n.kids = append(n.kids, c)
			}
			n = c
		}
		// an end that other paths go on from is a branch of its own
		c := &joinNode{end: j}
		n.kids = append(n.kids, c)
	}
	e.decide(root)
	return root
}

// chain is the conditions of n and the only nodes below it.
func (n *joinNode) chain() (cs []*Term) {
	for {
		if n.pc != nil && !n.pc.def && !n.pc.imp {
			cs = append(cs, n.pc.t)
		}
		if len(n.kids) != 1 {
			return
		}
		n = n.kids[0]
	}
}

// decide finds conditions that tell the children of each node apart.
func (e *Engine) decide(n *joinNode) {
	for _, c := range n.kids {
		e.decide(c)
	}
	if len(n.kids) < 2 {
		return
	}
	chains := make([][]*Term, len(n.kids))
	for i, c := range n.kids {
		chains[i] = c.chain()
	}
	if len(n.kids) == 2 {
		for i := 0; i < 2; i++ {
			if len(chains[i]) == 0 {
				continue
			}
			c := chains[i][0]
			for k := 1; k <= len(chains[1-i]); k++ {
				if And(chains[1-i][:k]...) == Not(c) {
					n.kids[i].cond, n.kids[1-i].cond = c, Not(c)
					return
				}
			}
		}
	}
	// values of a common term
	var t *Term
	seen := map[string]bool{}
	vals := true
	for _, ch := range chains {
		var this *Term
		v := ""
		if len(ch) > 0 && ch[0].Op == "=" {
			for i := 0; i < 2; i++ {
				if x := ch[0].Args[i]; x.N != nil {
					this, v = ch[0].Args[1-i], x.N.String()
				}
			}
		}
		if this == nil || t != nil && t != this || seen[v] {
			vals = false
			break
		}
		t, seen[v] = this, true
	}
	if vals {
		for i, c := range n.kids {
			c.cond = chains[i][0]
		}
		return
	}
	// otherwise, an arbitrary choice
	sel := TVar(e.freshName("join"), SInt)
	for i, c := range n.kids {
		c.cond = Eq(sel, TI(int64(i)))
	}
}

// cover is the condition that one of the paths is taken; the definitions on the paths are added to st.
func (n *joinNode) cover(st *State, guard *Term) *Term {
	own := TTrue
	if n.pc != nil {
		switch {
		case n.pc.imp:
		case n.pc.def:
			st.define(Implies(guard, n.pc.t))
		default:
			own = n.pc.t
		}
	}
	if n.end != nil {
		return own
	}
	var r *Term
	if len(n.kids) == 1 {
		r = n.kids[0].cover(st, And(guard, own))
	} else {
		g := And(guard, own)
		last := len(n.kids) - 1
		cond := func(i int, x *Term) *Term { return And(n.kids[i].cond, x) }
		if len(n.kids) == 2 && n.kids[0].cond == Not(n.kids[1].cond) {
			r = Ite(n.kids[0].cond, n.kids[0].cover(st, And(g, n.kids[0].cond)), n.kids[1].cover(st, And(g, n.kids[1].cond)))
		} else {
			var cs []*Term
			for i := 0; i <= last; i++ {
				cs = append(cs, cond(i, n.kids[i].cover(st, And(g, n.kids[i].cond))))
			}
			r = Or(cs...)
		}
	}
	return And(own, r)
}

// value is the value of f at the path that is taken.
func (n *joinNode) value(f func(j *joinEnd) *Term) *Term {
	for len(n.kids) == 1 {
		n = n.kids[0]
	}
	if n.end != nil {
		return f(n.end)
	}
	last := len(n.kids) - 1
	t := n.kids[last].value(f)
	for i := last - 1; i >= 0; i-- {
		t = Ite(n.kids[i].cond, n.kids[i].value(f), t)
	}
	return t
}

func (e *Engine) joinGroup(entry *State, g []*joinEnd, rt types.Type, mod map[int]bool) (*State, Value) {
	st := entry.clone()
	tree := e.joinTree(entry, g)
	st.assume(tree.cover(st, TTrue))
	for f := range g[0].st.facts {
		all := true
		for _, j := range g[1:] {
			if !j.st.facts[f] {
				all = false
				break
			}
		}
		if all {
			st.assume(f)
		}
	}
	last := len(g) - 1
	leaf := func(i int) *Term {
		return tree.value(func(j *joinEnd) *Term { return j.cp.leaves[i] })
	}
	cp := g[0].cp
	w := &walker{e: e, st: cp.st.clone(), entry: entry, mod: mod, canon: map[int]int{}, remap: map[int]int{}, join: true}
	w.leaf = func(i int, t *Term, k byte, typ types.Type) *Term {
		n := leaf(i)
		if n == t {
			return t
		}
		if k == 'i' && typ != nil && n.N == nil {
			lo, hi := intRange(typ)
			st.define(intern(&Term{Op: "<=", S: SBool, Args: []*Term{TBig(lo), n}}))
			st.define(intern(&Term{Op: "<=", S: SBool, Args: []*Term{n, TBig(hi)}}))
		}
		if k == 's' {
			st.opaqueStr(n)
		}
		return n
	}
	res := w.val(cp.phis[0], rt)
	objs := map[int]*Obj{}
	for _, id := range cp.olds {
		objs[id] = w.objContent(id, true)
	}
	for qi := 0; qi < len(w.queue); qi++ {
		id := w.queue[qi]
		objs[w.remap[id]] = w.objContent(id, false)
	}
	for id, o := range objs {
		st.heap[id] = o
	}
	// drawn values: one per name
	st.draws = entry.draws[:len(entry.draws):len(entry.draws)]
	at := map[string]int{}
	for j := last; j >= 0; j-- {
		for _, d := range g[j].st.draws[len(entry.draws):] {
			p, ok := at[d.Name]
			if !ok {
				at[d.Name] = len(st.draws)
				st.draws = append(st.draws, d)
				continue
			}
			me := g[j]
			is := tree.value(func(o *joinEnd) *Term {
				if o == me {
					return TTrue
				}
				return TFalse
			})
			if v, ok := st.merge(is, d.V, st.draws[p].V); ok && d.Snap == nil {
				n := *d
				n.V = v
				st.draws[p] = &n
			}
		}
	}
	st.growth, st.tags, st.nopanic, st.logReads, st.conc = g[0].st.growth, g[0].st.tags, g[0].st.nopanic, g[0].st.logReads, g[0].st.conc
	st.invs = g[0].st.invs
	return st, res
}

func resultType(fn *ssa.Function) types.Type {
	rs := fn.Signature.Results()
	if rs.Len() == 1 {
		return rs.At(0).Type()
	}
	return rs
}
