package main

import (
	"go/constant"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// dictionary collects the constants of the packages a contract depends on, to bias the search.
func dictionary(sh *Shared, funcs map[string]int) (ints []int64, strs []string) {
	pk := map[string]bool{}
	for f := range funcs {
		for p := range sh.pkgs {
			if sh.isRepo(p) && strings.Contains(f, p+".") {
				pk[p] = true
			}
		}
	}
	is, ss := map[int64]bool{}, map[string]bool{}
	for fn := range ssautil.AllFunctions(sh.prog) {
		if !pk[fnPkgPath(fn)] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if c, ok := (*o).(*ssa.Const); ok && c.Value != nil {
						switch c.Value.Kind() {
						case constant.Int:
							if n, ok := constant.Int64Val(c.Value); ok && !is[n] && len(is) < 400 {
								is[n] = true
								ints = append(ints, n)
							}
						case constant.String:
							s := constant.StringVal(c.Value)
							if len(s) < 30 && !ss[s] && len(ss) < 400 {
								ss[s] = true
								strs = append(strs, s)
							}
						}
					}
				}
			}
		}
	}
	return
}
