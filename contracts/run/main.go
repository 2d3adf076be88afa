// Command run executes contracts on the real code: first with the inputs of the verifier's
// refutations, then with random boundary-biased inputs, until an obligation fails.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sync/atomic"
	"time"

	_ "vf/all"
	"vf/gv"
)

type result struct {
	Found     bool     `json:"found"`
	Label     string   `json:"label"`
	Kind      string   `json:"kind"`
	Draws     []string `json:"draws"`
	Seed      int64    `json:"seed"`
	Runs      int      `json:"runs"`
	Completed int      `json:"completed"`
}

func once(fn func(), seed int64, model map[string]interface{}, ints []int64, strs []string) (ok bool, label, kind string) {
	gv.R = gv.NewRun(seed)
	gv.R.Model = model
	gv.R.Ints, gv.R.Strs = ints, strs
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case gv.AssumeFailed:
				ok = false
			case gv.AssertFailed:
				ok, label, kind = true, x.Label, "assertion"
			default:
				ok, label, kind = true, fmt.Sprintf("unexpected panic: %v\n%s", r, short(debug.Stack())), "panic"
			}
		}
	}()
	fn()
	return true, "", ""
}
func short(b []byte) string {
	if len(b) > 1500 {
		b = b[:1500]
	}
	return string(b)
}

func main() {
	prop := flag.String("property", "", "")
	contract := flag.String("contract", "", "")
	in := flag.String("in", "", "")
	replay := flag.String("replay", "", "")
	rseed := flag.Int64("replayseed", 0, "")
	seconds := flag.Float64("seconds", 20, "")
	seed := flag.Int64("seed", 1, "")
	flag.Parse()
	debug.SetMaxStack(256 << 20)
	var entry *gv.Entry
	for i, e := range gv.Registry {
		if e.Prop == *prop && e.Name == *contract {
			entry = &gv.Registry[i]
		}
	}
	if entry == nil {
		fmt.Println("no such contract")
		os.Exit(2)
	}
	var data struct {
		Models []map[string]interface{} `json:"models"`
		Ints   []int64                  `json:"ints"`
		Strs   []string                 `json:"strs"`
	}
	f := *in
	if f == "" {
		f = *replay
	}
	if f != "" {
		b, _ := os.ReadFile(f)
		json.Unmarshal(b, &data)
	}
	res := result{}
	var started atomic.Int64
	started.Store(time.Now().UnixNano())
	emit := func() {
		b, _ := json.Marshal(res)
		fmt.Println("RESULT " + string(b))
	}
	curSeed := int64(0)
	go func() { // a run that does not finish
		for {
			time.Sleep(500 * time.Millisecond)
			if time.Now().UnixNano()-started.Load() > int64(10*time.Second) {
				res.Found, res.Kind, res.Label, res.Seed = true, "hang", "the call does not return within 10 s", curSeed
				res.Draws = append([]string(nil), gv.R.Log...)
				emit()
				os.Exit(0)
			}
		}
	}()
	try := func(s int64, m map[string]interface{}) bool {
		curSeed = s
		started.Store(time.Now().UnixNano())
		ok, label, kind := once(entry.Fn, s, m, data.Ints, data.Strs)
		res.Runs++
		if ok {
			res.Completed++
		}
		if label != "" {
			res.Found, res.Label, res.Kind, res.Seed = true, label, kind, s
			res.Draws = gv.R.Log
			emit()
			return true
		}
		return false
	}
	if *replay != "" {
		for _, m := range append(data.Models, nil) {
			if try(*rseed, m) {
				os.Exit(1)
			}
		}
		emit()
		return
	}
	end := time.Now().Add(time.Duration(*seconds * float64(time.Second)))
	for _, m := range data.Models {
		for s := int64(0); s < 300; s++ {
			if try(*seed*1000003+s, m) {
				return
			}
		}
	}
	for s := int64(0); time.Now().Before(end); s++ {
		var m map[string]interface{}
		if n := len(data.Models); n > 0 && s%4 == 0 {
			// keep a random part of a refutation
			m = map[string]interface{}{}
			for k, v := range data.Models[int(s/4)%n] {
				if (s>>2)*2654435761>>uint(len(k)%16)&1 == 0 {
					m[k] = v
				}
			}
		}
		if try(*seed*7777777+s, m) {
			return
		}
	}
	emit()
}
