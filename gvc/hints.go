package main

import (
	"encoding/hex"
	"go/constant"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// collectHints gathers the literals of the functions under contract (and the repository functions they reach),
// and of the verifier's counterexamples: inputs the replay harness tries in addition to its own.
func collectHints(rep *report) {
	ints, strs := map[string]bool{}, map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function, d int)
	walk = func(f *ssa.Function, d int) {
		if f == nil || seen[f] || d > 4 || f.Blocks == nil || f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if c, ok := (*op).(*ssa.Const); ok && c.Value != nil {
						switch c.Value.Kind() {
						case constant.Int:
							ints[c.Value.ExactString()] = true
						case constant.String:
							strs[hex.EncodeToString([]byte(constant.StringVal(c.Value)))] = true
						}
					}
					if g, ok := (*op).(*ssa.Function); ok {
						walk(g, d+1)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a, d)
		}
	}
	for _, c := range contractList {
		if !c.Extern {
			walk(findFunc(c.Func), 0)
		}
	}
	num := regexp.MustCompile(`\(- (\d+)\)|\b(\d+)\b`)
	n := 0
	for _, f := range rep.Failed {
		if f.Status != "refuted" || f.Query == "" || n >= 6 {
			continue
		}
		n++
		r := runSolver("z3-new", f.Query, 8*time.Second, true)
		if r.status != "sat" {
			continue
		}
		for _, m := range num.FindAllStringSubmatch(r.model, 400) {
			if m[1] != "" {
				ints["-"+m[1]] = true
			} else {
				ints[m[2]] = true
			}
		}
	}
	for k := range ints {
		rep.HintInts = append(rep.HintInts, k)
	}
	for k := range strs {
		rep.HintStrs = append(rep.HintStrs, k)
	}
	sort.Strings(rep.HintInts)
	sort.Strings(rep.HintStrs)
}
