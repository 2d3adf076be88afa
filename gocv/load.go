package main

// Loading of the real source: /repo's current tree plus the contracts module, through
// go/packages and go/ssa.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Shared struct {
	fset           *token.FileSet
	prog           *ssa.Program
	repo           string
	verif          string
	pkgs           map[string]*ssa.Package
	mu             sync.Mutex
	globals        map[*ssa.Global]int
	gobj           map[int]*ssa.Global
	base           map[int]*Obj
	frozen         bool
	specs          []SpecEntry
	runtimeErrType types.Type
	ready          map[string]bool // std packages whose init has been executed
	methodMu       sync.Mutex
	known          map[string]bool // "property id" of the recorded findings
}

type SpecEntry struct {
	Prop, Name string
	Fn         FuncV
	Pos        string
}

const repoMod = "github.com/bantling/micro"
const specMod = "vf"

// std packages whose package-level variables are initialised by executing their real init code.
var stdInit = []string{"unicode/utf8", "unicode", "io", "strconv"}

func Load(repo, verif string) (*Shared, error) {
	cfg := &packages.Config{
		Mode:  packages.LoadAllSyntax,
		Dir:   filepath.Join(verif, "contracts"),
		Env:   append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=mod", "CGO_ENABLED=0"),
		Tests: false,
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics|ssa.BuildSerially*0)
	sh := &Shared{fset: prog.Fset, prog: prog, repo: repo, verif: verif, pkgs: map[string]*ssa.Package{}, globals: map[*ssa.Global]int{}, gobj: map[int]*ssa.Global{}, base: map[int]*Obj{}, ready: map[string]bool{}}
	prog.Build()
	for _, p := range prog.AllPackages() {
		sh.pkgs[p.Pkg.Path()] = p
	}
	if rt := sh.pkgs["runtime"]; rt != nil {
		if o := rt.Pkg.Scope().Lookup("Error"); o != nil {
			// dynamic type of run-time panics: a private struct that stands for runtime.Error
			sh.runtimeErrType = types.NewNamed(types.NewTypeName(token.NoPos, rt.Pkg, "verifRuntimeError", nil), types.NewStruct([]*types.Var{types.NewField(token.NoPos, rt.Pkg, "msg", types.Typ[types.String], false)}, nil), nil)
		}
	}
	if sh.runtimeErrType == nil {
		return nil, fmt.Errorf("runtime package not loaded")
	}
	return sh, nil
}

func (sh *Shared) isRepo(path string) bool {
	return path == repoMod || strings.HasPrefix(path, repoMod+"/")
}
func (sh *Shared) isOurs(path string) bool {
	return sh.isRepo(path) || path == specMod || strings.HasPrefix(path, specMod+"/") || path == "synthetic"
}

func (sh *Shared) globalObj(g *ssa.Global) int {
	sh.mu.Lock()
	defer sh.mu.Unlock()
	if id, ok := sh.globals[g]; ok {
		return id
	}
	if g.Pkg != nil && !sh.isOurs(g.Pkg.Pkg.Path()) && sh.frozen && !sh.ready[g.Pkg.Pkg.Path()] {
		panic(unsup("package variable %s has no contract", g))
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	if g.Pkg != nil && !sh.isOurs(g.Pkg.Pkg.Path()) && !sh.ready[g.Pkg.Pkg.Path()] {
		panic(unsup("package variable %s has no contract", g))
	}
	id := newObjID()
	o := &Obj{Kind: 'c', Typ: t, Origin: g.String()}
	if at, ok := under(t).(*types.Array); ok && namedPath(t) == "" {
		z := zeroValue(t).(ArrayV)
		o = &Obj{Kind: 'a', Typ: at.Elem(), Vec: append([]Value{}, z...), Origin: g.String()}
	} else {
		o.Val = zeroValue(t)
	}
	sh.base[id] = o
	sh.globals[g] = id
	sh.gobj[id] = g
	return id
}

func (sh *Shared) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	sh.methodMu.Lock()
	defer sh.methodMu.Unlock()
	sel := sh.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return sh.prog.MethodValue(sel)
}

func (sh *Shared) stdFunc(pkg, name string) *ssa.Function {
	p := sh.pkgs[pkg]
	if p == nil {
		panic(unsup("package %s is not loaded", pkg))
	}
	f := p.Func(name)
	if f == nil {
		panic(unsup("no function %s.%s", pkg, name))
	}
	return f
}

// Init executes package initialisation concretely and collects the registered contracts.
func (sh *Shared) Init(mainPkg string) error {
	// all globals of our packages first, so that they live in the base heap
	for _, path := range stdInit {
		sh.ready[path] = true
	}
	for _, p := range sh.prog.AllPackages() {
		if !sh.isOurs(p.Pkg.Path()) && !sh.ready[p.Pkg.Path()] {
			continue
		}
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(unsupported); !ok {
								panic(r)
							}
						}
					}()
					sh.globalObj(g)
				}()
			}
		}
	}
	e := newEngine(sh, "init")
	defer e.solver.Close()
	st := &State{e: e, base: sh.base, heap: map[int]*Obj{}, divs: map[[2]*Term][2]*Term{}, facts: map[*Term]bool{}}
	var final *State
	var perr error
	run := func(fn *ssa.Function) {
		if perr != nil {
			return
		}
		final = nil
		func() {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(unsupported); ok {
						perr = fmt.Errorf("init %s: %s", fn.Pkg.Pkg.Path(), u.msg)
						return
					}
					panic(r)
				}
			}()
			e.unrollMax = 1 << 30
			e.runInit(st, fn, func(s *State) { final = s })
		}()
		if perr == nil && final == nil {
			perr = fmt.Errorf("init of %s did not finish", fn.Pkg.Pkg.Path())
		}
		st = final
	}
	for _, path := range stdInit {
		if p := sh.pkgs[path]; p != nil {
			run(p.Func("init"))
		}
	}
	mp := sh.pkgs[mainPkg]
	if mp == nil {
		return fmt.Errorf("no package %s", mainPkg)
	}
	run(mp.Func("init"))
	if perr != nil {
		return perr
	}
	// freeze
	for id, o := range st.heap {
		sh.base[id] = o
	}
	sh.frozen = true
	return nil
}

// runInit executes a synthetic package initialiser; imported initialisers run only for our packages.
func (e *Engine) runInit(st *State, fn *ssa.Function, k func(*State)) {
	e.callFn0(st, fn, func(s *State, _ Value) { k(s) }, func(s *State, pv Value) {
		panic(unsup("panic during init: %s", descVal(s, pv)))
	})
}

func descVal(st *State, v Value) string {
	switch x := v.(type) {
	case IfaceV:
		if x.Typ != nil {
			return typeKey(x.Typ) + "(" + descVal(st, x.Val) + ")"
		}
		if x.Sym != nil {
			return "iface " + x.Sym.String()
		}
		return "nil"
	case *StrV:
		if c, ok := x.concrete(); ok {
			return fmt.Sprintf("%q", c)
		}
		return "string"
	case StructV:
		s := "{"
		for _, f := range x {
			s += descVal(st, f) + " "
		}
		return s + "}"
	case *Term:
		return x.String()
	case Ptr:
		if x.Obj != 0 && st.hasObj(x.Obj) && len(x.Path) == 0 && st.obj(x.Obj).Kind == 'c' {
			return "&" + descVal(st, st.obj(x.Obj).Val)
		}
	}
	return fmt.Sprintf("%T", v)
}
