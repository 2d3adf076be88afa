package main

// gocv check --property ID --tier quick|thorough : decides a property of /repo's current tree.

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type SpecResult struct {
	Name     string
	Obl      []*Obligation
	Err      string // tool limit (unsupported construct, timeout): obligation undischarged
	ErrKind  string
	Funcs    map[string]int
	Externs  map[string]int
	Backends map[string]int
	Solver   time.Duration
	Queries  int
	Wall     time.Duration
	Paths    int
	Bounded  []string
	Known    []string
	InvCount int
	LoopCuts int
	Vacuous  bool
	Static   bool
}

func (r *SpecResult) failed() bool {
	if r.Err != "" || r.Vacuous {
		return true
	}
	for _, o := range r.Obl {
		if o.Status != "discharged" {
			return true
		}
	}
	return false
}

func runSpec(sh *Shared, sp SpecEntry, thorough bool, limit time.Duration) (res *SpecResult) {
	t0 := time.Now()
	e := newEngine(sh, sp.Prop+"/"+sp.Name)
	e.deadline = t0.Add(limit)
	e.tierThorough = thorough
	if thorough {
		e.proofTO = 30000
		e.feasTO = 3000
	}
	res = &SpecResult{Name: sp.Name}
	defer func() {
		e.solver.Close()
		res.Obl, res.Funcs, res.Externs, res.Backends = e.obl, e.funcs, e.externs, e.backends
		res.Solver, res.Queries, res.Wall = e.solver.Time, e.solver.Queries, time.Since(t0)
		res.Bounded, res.InvCount, res.LoopCuts = e.bounded, e.invCount, e.loopCuts
		res.Known = sortedKeys(e.knownUsed)
		if res.Err == "" && len(res.Obl) == 0 {
			res.Vacuous = true
		}
	}()
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				res.Err, res.ErrKind = x.msg, "unsupported"
			case pathAbort:
			default:
				res.Err = fmt.Sprintf("engine: %v", r)
				res.ErrKind = "internal"
				if os.Getenv("GOCV_STACK") != "" {
					fmt.Fprintf(os.Stderr, "%v\n%s\n", r, debug.Stack())
				}
			}
		}
	}()
	st := &State{e: e, base: sh.base, heap: map[int]*Obj{}, divs: map[[2]*Term][2]*Term{}, facts: map[*Term]bool{}}
	done := 0
	e.callValue(st, sp.Fn, nil, nil, func(s *State, _ Value) { done++ }, func(s *State, pv Value) {
		// an unexpected panic is a violated obligation: this path must be infeasible
		e.assert(s, "no panic: "+descVal(s, pv), "", TFalse)
	})
	res.Paths = done
	return res
}

type finding struct{ prop, id, text string }

func loadKnown(path string) (known []finding) {
	b, _ := os.ReadFile(path)
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		m := regexp.MustCompile(`^known: property=(\S+) id=(\S+) (.*)$`).FindStringSubmatch(l)
		if m != nil {
			known = append(known, finding{m[1], m[2], m[3]})
		}
	}
	return
}

type searchResult struct {
	Found bool     `json:"found"`
	Label string   `json:"label"`
	Kind  string   `json:"kind"`
	Draws []string `json:"draws"`
	Seed  int64    `json:"seed"`
	Runs  int      `json:"runs"`
	Fresh int      `json:"completed"`
}

func main() {
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	prop := flag.String("property", "", "")
	tier := flag.String("tier", "quick", "")
	only := flag.String("spec", "", "regexp of contract names")
	list := flag.Bool("list", false, "")
	nosearch := flag.Bool("nosearch", false, "")
	verbose := flag.Bool("v", false, "")
	par := flag.Int("j", 8, "")
	flag.Parse()
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	thorough := *tier == "thorough"
	sh, err := Load(*repo, *verif)
	if err == nil {
		err = sh.Init(specMod + "/all")
	}
	if err != nil {
		// the tree does not load: nothing can be decided
		fmt.Fprintln(os.Stderr, "gocv:", err)
		if u, ok := err.(error); ok && strings.HasPrefix(u.Error(), "init ") {
			// initialisation is outside reach: every contract is undischarged
			os.Exit(reportInitFailure(*verif, *prop, *tier, seed, err, t0))
		}
		os.Exit(2)
	}
	loadT := time.Since(t0)
	sh.known = map[string]bool{}
	for _, f := range loadKnown(filepath.Join(*verif, "known_findings.txt")) {
		sh.known[f.prop+" "+f.id] = true
	}
	var specs []SpecEntry
	var onlyRe *regexp.Regexp
	if *only != "" {
		onlyRe = regexp.MustCompile(*only)
	}
	for _, s := range sh.specs {
		if (*prop == "" || s.Prop == *prop) && (onlyRe == nil || onlyRe.MatchString(s.Name)) {
			specs = append(specs, s)
		}
	}
	if *list {
		for _, s := range specs {
			fmt.Println(s.Prop, s.Name)
		}
		return
	}
	if len(specs) == 0 {
		fmt.Fprintln(os.Stderr, "gocv: no contracts for", *prop)
		os.Exit(2)
	}
	if *prop != "" {
		os.MkdirAll(filepath.Join(*verif, "evidence"), 0755)
		ev := filepath.Join(*verif, "evidence", *prop+".json")
		os.Remove(ev)
		if old, err := filepath.Glob(filepath.Join(*verif, "evidence", "replay", *prop+"_*.json")); err == nil {
			for _, f := range old {
				os.Remove(f)
			}
		}
	}
	// every contract gets a slice of the budget; quick must finish well within 900 s
	budget := 420 * time.Second
	specLimit := 150 * time.Second
	if thorough {
		budget, specLimit = 3*time.Hour, 40*time.Minute
	}
	endAll := t0.Add(budget)
	results := make([]*SpecResult, len(specs))
	sem := make(chan bool, *par)
	var wg sync.WaitGroup
	for i := range specs {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			lim := specLimit
			if r := time.Until(endAll); r < lim {
				lim = r
			}
			if lim < time.Second {
				lim = time.Second
			}
			results[i] = runSpec(sh, specs[i], thorough, lim)
			if *verbose {
				r := results[i]
				st := "ok"
				if r.failed() {
					st = "FAIL"
				}
				fmt.Printf("%-4s %-40s obl %d paths %d queries %d solver %.1fs wall %.1fs invs %d %s\n", st, specs[i].Prop+"/"+r.Name, len(r.Obl), r.Paths, r.Queries, r.Solver.Seconds(), r.Wall.Seconds(), r.InvCount, r.Err)
				for _, o := range r.Obl {
					if o.Status != "discharged" {
						m, _ := json.Marshal(o.Model)
						fmt.Printf("     %s: %s at %s model %s\n       %.300s\n", o.Status, o.Label, o.Where, m, o.Detail)
					}
				}
			}
		}(i)
	}
	wg.Wait()
	if *prop == "" {
		bad := 0
		for _, r := range results {
			if r.failed() {
				bad++
			}
		}
		fmt.Printf("%d contracts, %d not discharged, load %.1fs total %.1fs\n", len(results), bad, loadT.Seconds(), time.Since(t0).Seconds())
		if bad > 0 {
			os.Exit(1)
		}
		return
	}
	// ---- known findings ----
	for _, f := range loadKnown(filepath.Join(*verif, "known_findings.txt")) {
		if f.prop == *prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", *prop, f.id, f.text)
		}
	}
	// ---- violations ----
	violations := 0
	var vioLines []string
	replayDir := filepath.Join(*verif, "evidence", "replay")
	searchEnd := t0.Add(budget + 300*time.Second)
	for i, r := range results {
		if !r.failed() {
			continue
		}
		violations++
		os.MkdirAll(replayDir, 0755)
		name := *prop + "_" + regexp.MustCompile(`[^A-Za-z0-9]+`).ReplaceAllString(r.Name, "_")
		path := filepath.Join(replayDir, name+".json")
		rep := map[string]interface{}{"property": *prop, "contract": r.Name, "contract_pos": specs[i].Pos}
		var bad []map[string]interface{}
		var models []map[string]interface{}
		for _, o := range r.Obl {
			if o.Status != "discharged" {
				bad = append(bad, map[string]interface{}{"obligation": o.Label, "where": o.Where, "status": o.Status, "solver": o.Backend, "formula": o.Detail, "model": o.Model})
				if o.Model != nil {
					models = append(models, o.Model)
				}
			}
		}
		if r.Err != "" {
			bad = append(bad, map[string]interface{}{"obligation": "the contract's obligations could not be generated or decided", "status": r.ErrKind, "detail": r.Err})
		}
		if r.Vacuous {
			bad = append(bad, map[string]interface{}{"obligation": "the contract generated no obligation", "status": "vacuous"})
		}
		rep["failed_obligations"] = bad
		suffix := " no-failing-input-found"
		if !*nosearch && violations <= 6 && time.Now().Before(searchEnd) {
			secs := 25
			if violations > 2 {
				secs = 8
			}
			if thorough {
				secs *= 6
			}
			sr, out := search(*repo, *verif, *prop, r.Name, models, secs, seed, sh, r)
			rep["search"] = sr
			if sr != nil && sr.Found {
				suffix = ""
				rep["failing_input"] = sr.Draws
				rep["failed_at"] = sr.Label
				rep["reproduce"] = fmt.Sprintf("cd %s/contracts && go run ./run -property %s -contract %q -replayseed %d -replay %s", *verif, *prop, r.Name, sr.Seed, path)
			} else if out != "" {
				rep["search_output"] = out
			}
		}
		rep["models"] = models
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(path, b, 0644)
		vioLines = append(vioLines, fmt.Sprintf("VIOLATION property=%s replay=%s%s", *prop, path, suffix))
		for _, o := range bad {
			fmt.Printf("undischarged: %s: %v (%v) %v\n", r.Name, o["obligation"], o["status"], o["detail"])
		}
	}
	// violations with a concrete failing input first
	sort.SliceStable(vioLines, func(i, j int) bool {
		return !strings.HasSuffix(vioLines[i], "found") && strings.HasSuffix(vioLines[j], "found")
	})
	conc := 0
	for _, l := range vioLines {
		if !strings.HasSuffix(l, "found") {
			conc++
		}
	}
	for _, l := range vioLines {
		if conc > 0 && strings.HasSuffix(l, "found") {
			continue // the concrete ones are the verdict; the others are in the replay folder
		}
		fmt.Println(l)
	}
	writeEvidence(*verif, *prop, *tier, seed, specs, results, violations, loadT, t0)
	if violations > 0 {
		os.Exit(1)
	}
	fmt.Printf("property %s: %d contracts, all obligations discharged, %.1fs\n", *prop, len(results), time.Since(t0).Seconds())
}

func reportInitFailure(verif, prop, tier string, seed int, err error, t0 time.Time) int {
	dir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, prop+"_init.json")
	b, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "failed_obligations": []string{err.Error()}}, "", " ")
	os.WriteFile(path, b, 0644)
	fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, path)
	return 1
}

// search looks for a concrete failing input on the real code.
func search(repo, verif, prop, contract string, models []map[string]interface{}, secs, seed int, sh *Shared, r *SpecResult) (*searchResult, string) {
	dir, err := os.MkdirTemp("", "gocv-search")
	if err != nil {
		return nil, err.Error()
	}
	defer os.RemoveAll(dir)
	ints, strs := dictionary(sh, r.Funcs)
	in := map[string]interface{}{"models": models, "ints": ints, "strs": strs}
	b, _ := json.Marshal(in)
	inf := filepath.Join(dir, "in.json")
	os.WriteFile(inf, b, 0644)
	bin := filepath.Join(dir, "run")
	ctx, cancel := context.WithTimeout(context.Background(), 170*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "build", "-o", bin, "./run")
	cmd.Dir = filepath.Join(verif, "contracts")
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
	if o, err := cmd.CombinedOutput(); err != nil {
		return nil, "build: " + string(o)
	}
	ctx2, cancel2 := context.WithTimeout(context.Background(), time.Duration(secs+20)*time.Second)
	defer cancel2()
	run := exec.CommandContext(ctx2, bin, "-property", prop, "-contract", contract, "-in", inf, "-seconds", fmt.Sprint(secs), "-seed", fmt.Sprint(seed))
	run.Dir = dir
	run.Env = append(os.Environ(), "GOMEMLIMIT=4GiB")
	var out bytes.Buffer
	run.Stdout = &out
	run.Stderr = &out
	run.Run()
	txt := out.String()
	for _, l := range strings.Split(txt, "\n") {
		if strings.HasPrefix(l, "RESULT ") {
			sr := &searchResult{}
			if json.Unmarshal([]byte(l[7:]), sr) == nil {
				return sr, ""
			}
		}
	}
	if len(txt) > 3000 {
		txt = txt[len(txt)-3000:]
	}
	// a crash of the process under test (fatal error, stack overflow) on a generated input
	if strings.Contains(txt, "fatal error:") || strings.Contains(txt, "goroutine ") {
		return &searchResult{Found: true, Kind: "crash", Label: "the process crashed", Draws: strings.Split(txt, "\n")}, txt
	}
	return nil, txt
}

func uniqStrings(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func writeEvidence(verif, prop, tier string, seed int, specs []SpecEntry, results []*SpecResult, violations int, loadT time.Duration, t0 time.Time) {
	obl, dis, inv, cuts, queries, paths := 0, 0, 0, 0, 0, 0
	bobl, bdis, proved := 0, 0, 0 // of bounded contracts; contracts without a bound
	backends := map[string]int{}
	funcs := map[string]bool{}
	externs := map[string]bool{}
	bounded := map[string]bool{}
	var solver time.Duration
	var samples []interface{}
	var names []string
	assumed := map[string]bool{}
	for _, r := range results {
		names = append(names, r.Name)
		for _, o := range r.Obl {
			if len(r.Bounded) > 0 {
				bobl++
				if o.Status == "discharged" {
					bdis++
				}
			} else {
				obl++
				if o.Status == "discharged" {
					dis++
				}
			}
			if len(samples) < 12 {
				samples = append(samples, map[string]interface{}{"contract": r.Name, "obligation": o.Label, "where": o.Where, "status": o.Status, "by": o.Backend})
			}
		}
		if r.Err != "" {
			obl++
		}
		if len(r.Bounded) == 0 {
			proved++
		}
		inv += r.InvCount
		cuts += r.LoopCuts
		queries += r.Queries
		paths += r.Paths
		solver += r.Solver
		for k, n := range r.Backends {
			backends[k] += n
		}
		for k := range r.Funcs {
			funcs[k] = true
		}
		for k := range r.Externs {
			externs[k] = true
			assumed[k] = true
		}
		for _, b := range r.Bounded {
			bounded[r.Name+": "+b] = true
		}
		for _, k := range r.Known {
			assumed["known finding excluded from the precondition: "+k] = true
		}
	}
	as := uniqStrings(assumed)
	as = append(as,
		"integer arithmetic is exact with machine wrap-around made explicit; lengths are at most 2^48",
		"floating-point arithmetic results are uninterpreted apart from range and representability facts; conversions are modelled exactly",
		"generic functions are verified at the instantiations named in the contracts (parametricity extends them to other element types)",
		"map iteration order, allocation failure and stack exhaustion are as stated in DESIGN.md",
		"the go/ssa translation (golang.org/x/tools v0.52.0), the gocv condition generator and the SMT solvers are trusted")
	// A property most of whose contracts are bounded is decided within the bounds only, so not proved.
	level, explanation := "proof", ""
	if 2*proved < len(results) {
		level = "other"
		explanation = "bounded deductive verification: every obligation of the contracts on the real code is discharged, for most of them only for all values within the bounds listed in bounded_stand_ins; nothing is claimed outside of these"
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": level, "wall_s": time.Since(t0).Seconds(), "violations": violations,
		"assumptions": as,
		"coverage": map[string]interface{}{
			"obligations": obl, "discharged": dis, // of the unbounded contracts
			"bounded_obligations": bobl, "bounded_discharged": bdis,
			"checker_cmd":              fmt.Sprintf("bash /verif/check.sh %s %s", prop, tier),
			"trusted_base":             []string{"gocv (this repository: symbolic execution of go/ssa, Houdini loop invariants)", "golang.org/x/tools/go/ssa v0.52.0", "z3 5.x (z3-new), z3 4.8.12, cvc5 1.1.2"},
			"contracts":                names,
			"functions_under_contract": uniqStrings(funcs),
			"assumed_contracts":        uniqStrings(externs),
			"by_backend":               backends,
			"loop_invariant_conjuncts": inv, "loop_cuts": cuts,
			"paths": paths, "solver_queries": queries, "solver_s": solver.Seconds(), "load_s": loadT.Seconds(),
			"bounded_stand_ins": uniqStrings(bounded),
			"samples":           samples,
		},
	}
	if explanation != "" {
		ev["coverage"].(map[string]interface{})["explanation"] = explanation
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0644)
}
