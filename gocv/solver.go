package main

// Incremental solver process (z3 -in) used while exploring, and a portfolio of fresh
// processes for the obligations it leaves open.

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"
)

// PC is a path condition: an immutable linked list.
type PC struct {
	parent *PC
	t      *Term
	depth  int
	def    bool
	fork   bool // an open branch
	imp    bool // follows from the parents
}

func (p *PC) push(t *Term) *PC {
	d := 0
	if p != nil {
		d = p.depth
	}
	return &PC{parent: p, t: t, depth: d + 1}
}
func (p *PC) list() []*Term {
	if p == nil {
		return nil
	}
	out := make([]*Term, p.depth)
	for q := p; q != nil; q = q.parent {
		out[q.depth-1] = q.t
	}
	return out
}
func (p *PC) has(t *Term) bool {
	for q := p; q != nil; q = q.parent {
		if q.t == t {
			return true
		}
	}
	return false
}

// PCHas reports membership, and caches the set per node chain lazily (small chains only).

type Solver struct {
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	declared map[string]bool
	defs     map[*Term]string
	decls    []string // base-level declarations, for replays in a fresh process
	stack    []*PC
	buf      bytes.Buffer
	dead     bool

	Queries int
	Time    time.Duration
	curTO   int
	bin     string
	logf    *os.File
	axioms  []string
	axSeen  map[string]bool
}

func NewSolver(bin string) *Solver {
	s := &Solver{bin: bin, axSeen: map[string]bool{}}
	s.start()
	return s
}

func (s *Solver) start() {
	s.declared = map[string]bool{}
	s.defs = map[*Term]string{}
	s.decls = nil
	s.stack = nil
	s.buf.Reset()
	s.dead = false
	s.curTO = -1
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	if p := os.Getenv("GOCV_LOG"); p != "" {
		s.logf, _ = os.Create(fmt.Sprintf("%s.%d", p, s.cmd.Process.Pid))
	}
	s.buf.WriteString("(set-option :smt.mbqi false)\n(set-option :global-declarations true)\n(set-option :print-success false)\n")
	s.buf.WriteString(prelude)
	for _, a := range s.axioms {
		s.buf.WriteString(a)
	}
}

const prelude = "(declare-sort Str 0)\n(declare-fun strlen (Str) Int)\n(declare-fun strdata (Str) (Array Int Int))\n"

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}
func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) declare(t *Term) {
	s.declRec(t, map[*Term]bool{})
}
func declOf(t *Term) (string, string) {
	switch t.Op {
	case "var":
		return t.Name, fmt.Sprintf("(declare-fun %s () %s)\n", sym(t.Name), t.S)
	case "app":
		if t.Name == "strlen" || t.Name == "strdata" {
			return "", ""
		}
		var as []string
		for _, a := range t.Args {
			as = append(as, string(a.S))
		}
		return t.Name, fmt.Sprintf("(declare-fun %s (%s) %s)\n", sym(t.Name), strings.Join(as, " "), t.S)
	}
	return "", ""
}
func (s *Solver) declRec(t *Term, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	if _, ok := s.defs[t]; ok {
		return
	}
	seen[t] = true
	for _, a := range t.Args {
		s.declRec(a, seen)
	}
	if n, d := declOf(t); n != "" && !s.declared[n] {
		s.declared[n] = true
		s.decls = append(s.decls, d)
		s.buf.WriteString(d)
	}
	if !t.bound && t.size > 12 && t.Op != "forall" && len(t.Args) > 0 {
		n := fmt.Sprintf("!d%d", t.id)
		var sb strings.Builder
		fmt.Fprintf(&sb, "(define-fun %s () %s ", n, t.S)
		printTerm(&sb, t, s.defs)
		sb.WriteString(")\n")
		s.buf.WriteString(sb.String())
		s.defs[t] = n
	}
}
func (s *Solver) assert(t *Term) {
	s.declare(t)
	s.buf.WriteString("(assert ")
	var sb strings.Builder
	printTerm(&sb, t, s.defs)
	s.buf.WriteString(sb.String())
	s.buf.WriteString(")\n")
}

func (s *Solver) sync(p *PC) {
	var nodes []*PC
	q := p
	for q != nil && !(q.depth <= len(s.stack) && s.stack[q.depth-1] == q) {
		nodes = append(nodes, q)
		q = q.parent
	}
	keep := 0
	if q != nil {
		keep = q.depth
	}
	if n := len(s.stack) - keep; n > 0 {
		fmt.Fprintf(&s.buf, "(pop %d)\n", n)
		s.stack = s.stack[:keep]
	}
	for i := len(nodes) - 1; i >= 0; i-- {
		s.buf.WriteString("(push 1)\n")
		s.assert(nodes[i].t)
		s.stack = append(s.stack, nodes[i])
	}
}

func (s *Solver) flush() error {
	if s.logf != nil {
		s.logf.Write(s.buf.Bytes())
	}
	_, err := s.in.Write(s.buf.Bytes())
	s.buf.Reset()
	return err
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check: is pc ∧ extra satisfiable?  "sat" / "unsat" / "unknown".
// On "sat" and want!=nil, the values of the wanted terms are returned.
func (s *Solver) Check(p *PC, extra *Term, timeoutMs int, want []*Term) (string, []string) {
	if extra != nil && extra.isFalse() {
		return "unsat", nil
	}
	t0 := time.Now()
	if slowLog {
		defer func() {
			if d := time.Since(t0); d > 300*time.Millisecond {
				x := "-"
				if extra != nil {
					x = extra.String()
				}
				if len(x) > 300 {
					x = x[:300]
				}
				if slowN++; os.Getenv("GOCV_SLOW") == fmt.Sprint(slowN+100) {
					for q := p; q != nil; q = q.parent {
						fmt.Fprintf(os.Stderr, "  PC %v %v\n", q.def, q.t)
					}
				}
				fmt.Fprintf(os.Stderr, "SLOW %.2fs pc=%d to=%d %s\n", d.Seconds(), p.depthOf(), timeoutMs, x)
			}
		}()
	}
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	if s.dead {
		s.restart()
	}
	s.sync(p)
	for _, w := range want {
		s.declare(w)
	}
	if timeoutMs != s.curTO {
		fmt.Fprintf(&s.buf, "(set-option :timeout %d)\n", timeoutMs)
		s.curTO = timeoutMs
	}
	if extra != nil {
		s.declare(extra)
		s.buf.WriteString("(push 1)\n")
		s.assert(extra)
	}
	s.buf.WriteString("(check-sat)\n")
	s.buf.WriteString("(echo \"@@\")\n")
	if s.flush() != nil {
		s.dead = true
		return "unknown", nil
	}
	res := "unknown"
	timer := time.AfterFunc(time.Duration(timeoutMs)*time.Millisecond*2+5*time.Second, func() { s.cmd.Process.Kill() })
	defer timer.Stop()
	for {
		l, err := s.readLine()
		if err != nil {
			s.dead = true
			return "unknown", nil
		}
		l = strings.Trim(l, "\"")
		if l == "@@" {
			break
		}
		switch {
		case l == "sat" || l == "unsat" || l == "unknown":
			res = l
		case l == "timeout":
		case strings.HasPrefix(l, "(error"):
			if strings.Contains(l, "canceled") {
				continue
			}
			fmt.Fprintln(os.Stderr, "solver error:", l)
			res = "unknown"
		}
	}
	var vals []string
	if res == "sat" && len(want) > 0 {
		vals = s.getValues(want)
	}
	if extra != nil {
		s.buf.WriteString("(pop 1)\n")
	}
	return res, vals
}

var slowN int
var slowLog = os.Getenv("GOCV_SLOW") != ""

func (p *PC) depthOf() (n int) {
	for ; p != nil; p = p.parent {
		n++
	}
	return
}

func (s *Solver) getValues(want []*Term) []string {
	var out []string
	for i := 0; i < len(want); i += 50 {
		j := i + 50
		if j > len(want) {
			j = len(want)
		}
		s.buf.WriteString("(get-value (")
		for _, w := range want[i:j] {
			var sb strings.Builder
			printTerm(&sb, w, s.defs)
			s.buf.WriteString(sb.String() + " ")
		}
		s.buf.WriteString("))\n(echo \"@@\")\n")
		if s.flush() != nil {
			s.dead = true
			return nil
		}
		var all strings.Builder
		for {
			l, err := s.readLine()
			if err != nil {
				s.dead = true
				return nil
			}
			if strings.Trim(l, "\"") == "@@" {
				break
			}
			all.WriteString(l + " ")
		}
		out = append(out, parseValues(all.String(), j-i)...)
	}
	return out
}

type sexp struct {
	atom string
	list []*sexp
}

func parseSexp(s string, i int) (*sexp, int) {
	for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t') {
		i++
	}
	if i >= len(s) {
		return nil, i
	}
	if s[i] == '(' {
		i++
		e := &sexp{}
		for {
			for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t') {
				i++
			}
			if i >= len(s) {
				return e, i
			}
			if s[i] == ')' {
				return e, i + 1
			}
			var c *sexp
			c, i = parseSexp(s, i)
			if c == nil {
				return e, i
			}
			e.list = append(e.list, c)
		}
	}
	j := i
	if s[i] == '|' {
		j = strings.IndexByte(s[i+1:], '|') + i + 2
	} else {
		for j < len(s) && s[j] != ' ' && s[j] != ')' && s[j] != '(' {
			j++
		}
	}
	return &sexp{atom: s[i:j]}, j
}
func (e *sexp) String() string {
	if e == nil {
		return "nil"
	}
	if e.list == nil {
		return e.atom
	}
	var p []string
	for _, c := range e.list {
		p = append(p, c.String())
	}
	return "(" + strings.Join(p, " ") + ")"
}

// parseValues parses ((t v) (t v) ...) returning the v strings; ints as decimal "-5".
func parseValues(s string, n int) []string {
	e, _ := parseSexp(s, 0)
	out := make([]string, n)
	if e == nil {
		return out
	}
	for i, p := range e.list {
		if i < n && len(p.list) >= 2 {
			out[i] = normVal(p.list[len(p.list)-1])
		}
	}
	return out
}
func normVal(e *sexp) string {
	if e.list == nil {
		return e.atom
	}
	if len(e.list) == 2 && e.list[0].atom == "-" {
		return "-" + normVal(e.list[1])
	}
	if len(e.list) == 3 && e.list[0].atom == "/" {
		return strings.TrimSuffix(normVal(e.list[1]), ".0") + "/" + strings.TrimSuffix(normVal(e.list[2]), ".0")
	}
	return e.String()
}

// script renders pc ∧ extra as a standalone SMT-LIB script.
func script(pc *PC, extra *Term, axioms []string) string {
	tmp := &Solver{declared: map[string]bool{}, defs: map[*Term]string{}}
	tmp.buf.WriteString("(set-logic ALL)\n")
	tmp.buf.WriteString(prelude)
	for _, a := range axioms {
		tmp.buf.WriteString(a)
	}
	for _, t := range pc.list() {
		tmp.assert(t)
	}
	if extra != nil {
		tmp.assert(extra)
	}
	tmp.buf.WriteString("(check-sat)\n")
	return tmp.buf.String()
}

type backend struct {
	name string
	args []string
}

// portfolio runs fresh solver processes in parallel on the script.
func portfolio(scr string, timeout time.Duration) (res, by string) {
	type ans struct{ r, b string }
	ctx, cancel := context.WithTimeout(context.Background(), timeout+2*time.Second)
	defer cancel()
	sec := int(timeout / time.Second)
	if sec < 1 {
		sec = 1
	}
	bs := []backend{
		{"z3-new", []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", sec)}},
		{"z3-4.8.12", []string{"z3", "-in", "-smt2", fmt.Sprintf("-T:%d", sec)}},
		{"cvc5", []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", sec*1000)}},
	}
	ch := make(chan ans, len(bs))
	for _, b := range bs {
		go func(b backend) {
			c := exec.CommandContext(ctx, b.args[0], b.args[1:]...)
			c.Stdin = strings.NewReader(scr)
			o, _ := c.Output()
			r := "unknown"
			for _, l := range strings.Split(string(o), "\n") {
				l = strings.TrimSpace(l)
				if l == "sat" || l == "unsat" {
					r = l
				}
			}
			ch <- ans{r, b.name}
		}(b)
	}
	res = "unknown"
	for range bs {
		a := <-ch
		if a.r == "unsat" || (a.r == "sat" && a.b != "z3-4.8.12") {
			return a.r, a.b
		}
	}
	return "unknown", ""
}
