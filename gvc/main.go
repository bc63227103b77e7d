package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type report struct {
	Property    string            `json:"property"`
	Obligations int               `json:"obligations"`
	Discharged  int               `json:"discharged"`
	Queries     int               `json:"queries"`
	ByBackend   map[string]int    `json:"by_backend"`
	SolverSecs  float64           `json:"solver_secs"`
	Functions   []string          `json:"functions"`
	Inlined     []string          `json:"inlined"`
	Lemmas      []string          `json:"lemmas"`
	Axioms      []string          `json:"axioms"`
	Assumptions []string          `json:"assumptions"`
	Failed      []failed          `json:"failed"`
	Named       map[string]string `json:"named"`
	Missing     []string          `json:"missing"`
	Wall        float64           `json:"wall_s"`
	HintInts    []string          `json:"hint_ints"`
	HintStrs    []string          `json:"hint_strs"`
	CrossOK     int64             `json:"cross_confirmed,omitempty"` // z3 proofs cvc5 proves too
	CrossNone   int64             `json:"cross_undecided,omitempty"` // z3 proofs cvc5 does not decide in time
	Unreached   []string          `json:"unreached_returns"` // return statements no feasible path reaches under the contract
}
type failed struct {
	Name   string `json:"name"`
	Status string `json:"status"`
	Pos    string `json:"pos"`
	Goal   string `json:"goal"`
	Detail string `json:"detail"`
	Query  string `json:"query"`
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	cdir := flag.String("contracts", "", "contract directory")
	prop := flag.String("property", "", "property id")
	only := flag.String("func", "", "only this function (substring)")
	out := flag.String("out", "", "report file")
	to := flag.Int("t", 20, "solver timeout per obligation (s)")
	verbose := flag.Bool("v", false, "verbose")
	dump := flag.String("dump", "", "dump SSA of a function")
	flag.IntVar(&crossSecs, "cross", 0, "check what z3 proves with cvc5 for this many seconds")
	flag.IntVar(&workers, "j", 8, "workers")
	flag.Parse()
	repoDir = *repo
	d, err := os.MkdirTemp("", "gvc")
	if err != nil {
		panic(err)
	}
	tmpDir = d
	if pf := os.Getenv("GVC_PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	code := run(*cdir, *prop, *only, *out, *to, *verbose, *dump)
	if os.Getenv("GVC_SOLVER_ERR") == "" {
		os.RemoveAll(tmpDir)
	} else {
		fmt.Fprintln(os.Stderr, "tmp:", tmpDir)
	}
	pprof.StopCPUProfile()
	os.Exit(code)
}

func run(cdir, prop, only, out string, to int, verbose bool, dump string) int {
	t0 := time.Now()
	dir := filepath.Join(cdir, prop)
	meta, err := os.ReadFile(filepath.Join(dir, "PACKAGES"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var pats []string
	for _, l := range strings.Fields(string(meta)) {
		pats = append(pats, l)
	}
	if err := loadProgram(repoDir, pats); err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		return 3
	}
	if verbose {
		fmt.Fprintf(os.Stderr, "loaded in %.1fs\n", time.Since(t0).Seconds())
	}
	if dump != "" {
		f := findFunc(dump)
		if f == nil {
			fmt.Println("not found")
			return 3
		}
		f.WriteTo(os.Stdout)
		return 0
	}
	var files []string
	for _, sub := range []string{"base", prop} {
		if sub == prop {
			if rc := loadIncludes(cdir, dir); rc != 0 {
				return rc
			}
		}
		m, _ := filepath.Glob(filepath.Join(cdir, sub, "*.smt"))
		sort.Strings(m)
		for _, f := range m {
			if err := loadPrelude(f); err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 3
			}
		}
		m, _ = filepath.Glob(filepath.Join(cdir, sub, "*.gvc"))
		sort.Strings(m)
		files = append(files, m...)
	}
	for _, f := range files {
		if err := loadContracts(f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
	}
	rep := &report{Property: prop, ByBackend: map[string]int{}, Named: map[string]string{}}
	var obls []*Obl
	obls = append(obls, lemmaObls()...)
	for _, lm := range lemmas {
		if lm.Axiom {
			rep.Axioms = append(rep.Axioms, lm.Name+": "+lm.Note)
		} else {
			rep.Lemmas = append(rep.Lemmas, lm.Name)
		}
	}
	inl := inlinedAll
	for _, c := range contractList {
		if c.Extern {
			continue
		}
		if only != "" && !strings.Contains(c.Func, only) {
			continue
		}
		if only != "" {
			// keep lemma obligations out of focused runs
			obls = nil
		}
		fn := findFunc(c.Func)
		if fn == nil {
			if c.Optional {
				rep.Missing = append(rep.Missing, c.Func)
				delete(contracts, c.Func)
				continue
			}
			rep.Failed = append(rep.Failed, failed{Name: c.Func + "/exists", Status: "missing", Detail: "function under contract not found in the current source"})
			rep.Named[c.Func+"/exists"] = "missing"
			continue
		}
		rep.Functions = append(rep.Functions, c.Func)
	}
	var fobls []*Obl
	for _, c := range contractList {
		if c.Extern || (only != "" && !strings.Contains(c.Func, only)) {
			continue
		}
		fn := findFunc(c.Func)
		if fn == nil {
			continue
		}
		tf := time.Now()
		os1, err := verifyFunc(c, fn)
		if err != nil {
			rep.Failed = append(rep.Failed, failed{Name: c.Func + "/translate", Status: "unsupported", Detail: err.Error()})
			rep.Named[c.Func+"/translate"] = "unsupported"
			if verbose {
				fmt.Fprintf(os.Stderr, "%s: %v\n", c.Func, err)
			}
		}
		if err == nil && len(retPaths[c.Func]) == 0 && len(c.Ensures) > 0 && !c.NoRet {
			rep.Failed = append(rep.Failed, failed{Name: c.Func + "/reachable-exit", Status: "vacuous", Detail: "no path reaches a return"})
			rep.Named[c.Func+"/reachable-exit"] = "vacuous"
		}
		fobls = append(fobls, os1...)
		if verbose {
			fmt.Fprintf(os.Stderr, "%s: %d queries (%.1fs)\n", c.Func, len(os1), time.Since(tf).Seconds())
		}
	}
	for k := range inl {
		rep.Inlined = append(rep.Inlined, k)
	}
	sort.Strings(rep.Inlined)
	obls = append(obls, fobls...)
	if verbose {
		fmt.Fprintf(os.Stderr, "symbolic execution done at %.1fs; feasibility %d (%d misses, %d killed, %.1fs); %d queries\n", time.Since(t0).Seconds(), feasN, feasMiss, feasKill, feasTime.Seconds(), len(obls))
	}
	parallel(len(obls), func(i int) { proveObl(obls[i], time.Duration(to)*time.Second) })
	// vacuity: some return path of every function must have satisfiable hypotheses
	var vn []string
	for n := range retPaths {
		vn = append(vn, n)
	}
	sort.Strings(vn)
	vres := make([]bool, len(vn))
	parallel(len(vn), func(i int) {
		ps := retPaths[vn[i]]
		for k := 0; k < len(ps) && k < 6; k++ {
			ts := buildQuery(ps[(k*len(ps))/min(6, len(ps))], False, 1, nil)
			if portfolio(ts[0], 2*time.Second, []string{"z3-new"}).status != "unsat" {
				vres[i] = true
				return
			}
		}
	})
	for i, n := range vn {
		if !vres[i] && len(retPaths[n]) > 0 {
			rep.Failed = append(rep.Failed, failed{Name: n + "/reachable-exit", Status: "vacuous", Detail: "the hypotheses of every return path are contradictory"})
			rep.Named[n+"/reachable-exit"] = "vacuous"
		}
	}
	rep.Unreached = unreachedReturns(vn)
	for _, u := range rep.Unreached {
		if verbose {
			fmt.Fprintln(os.Stderr, "  unreached return:", u)
		}
	}
	for _, o := range obls {
		rep.Queries++
		rep.SolverSecs += o.Secs
		st := rep.Named[o.Name]
		if o.Status == "proved" {
			rep.ByBackend[o.By]++
			if st == "" {
				rep.Named[o.Name] = "proved"
			}
		} else {
			if st == "" || st == "proved" {
				rep.Named[o.Name] = o.Status
			}
			q := ""
			if o.File != "" {
				q = o.File
			}
			rep.Failed = append(rep.Failed, failed{Name: o.Name, Status: o.Status, Pos: o.Pos, Goal: trunc(o.Goal.smt(), 2000), Detail: o.Model, Query: q})
		}
		if verbose && (o.Secs > 2 || o.Status != "proved") {
			fmt.Fprintf(os.Stderr, "  %-8s %5.1fs %s @%s\n", o.Status, o.Secs, o.Name, o.Pos)
			if o.Status != "proved" {
				fmt.Fprintf(os.Stderr, "      goal %s\n", trunc(o.Goal.smt(), 600))
			}
		}
	}
	for _, s := range rep.Named {
		rep.Obligations++
		if s == "proved" {
			rep.Discharged++
		}
	}
	rep.Assumptions = eng.notes()
	collectHints(rep)
	rep.Wall = time.Since(t0).Seconds()
	rep.CrossOK, rep.CrossNone = crossOK.Load(), crossNone.Load()
	if out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		if err := os.WriteFile(out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
	}
	if crossSecs > 0 {
		fmt.Printf("%s: second solver confirms %d, undecided %d, refutes %d\n", prop, crossOK.Load(), crossNone.Load(), crossBad.Load())
	}
	fmt.Printf("%s: %d/%d obligations discharged (%d queries, solver %.1fs, wall %.1fs)\n", prop, rep.Discharged, rep.Obligations, rep.Queries, rep.SolverSecs, rep.Wall)
	if rep.Discharged != rep.Obligations {
		var ns []string
		for n, s := range rep.Named {
			if s != "proved" {
				ns = append(ns, n+" ["+s+"]")
			}
		}
		sort.Strings(ns)
		for _, n := range ns {
			fmt.Println("  FAILED", n)
		}
		return 1
	}
	return 0
}

// unreachedReturns lists the return statements that no path with satisfiable hypotheses reaches.
func unreachedReturns(names []string) []string {
	type site struct {
		fn string
		r  *ssa.Return
		ps [][]*Term
	}
	var sites []site
	for _, n := range names {
		by := map[*ssa.Return][][]*Term{}
		for k, r := range retSites[n] {
			by[r] = append(by[r], retPaths[n][k])
		}
		for _, b := range retFns[n].Blocks {
			if len(b.Instrs) == 0 || b == retFns[n].Recover {
				continue
			}
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				sites = append(sites, site{n, r, by[r]})
			}
		}
	}
	bad := make([]bool, len(sites))
	parallel(len(sites), func(i int) {
		bad[i] = true
		ps := sites[i].ps
		for k := 0; k < len(ps) && k < 4; k++ {
			ts := buildQuery(ps[(k*len(ps))/min(4, len(ps))], False, 1, nil)
			if portfolio(ts[0], 2*time.Second, []string{"z3-new"}).status != "unsat" {
				bad[i] = false
				return
			}
		}
	})
	var out []string
	for i, s := range sites {
		if bad[i] {
			p := eng.prog.Fset.Position(s.r.Pos())
			out = append(out, fmt.Sprintf("%s at %s:%d (%d paths)", s.fn, filepath.Base(p.Filename), p.Line, len(s.ps)))
		}
	}
	return out
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// lemmaObls: proof obligations of the lemmas, in order; each may use the earlier ones.
func lemmaObls() []*Obl {
	var out []*Obl
	for _, lm := range lemmas {
		if lm.Axiom {
			continue
		}
		m := map[*Term]*Term{}
		for _, v := range lm.Vars {
			m[v] = Const("L!"+v.op, v.sort)
		}
		goal := subst(lm.Body, m)
		var hyps []*Term
		var hints []*Term
		for _, h := range lm.Hints {
			hints = append(hints, subst(h, m))
		}
		for _, h := range lm.Hyps {
			mm := map[*Term]*Term{}
			for _, v := range lm.Vars {
				short := v.op[len(lm.Name)+1:]
				if t, ok := h[short]; ok {
					mm[v] = subst(t, m)
				} else {
					mm[v] = m[v]
				}
			}
			// well-founded: 0 <= measure(instance) < measure(current)
			if lm.Struct != nil {
				guard, ok := subvalue(mm[lm.Struct], m[lm.Struct])
				if !ok {
					panic("lemma " + lm.Name + ": the induction hypothesis is not about a part of the value")
				}
				hyps = append(hyps, Implies(guard, subst(lm.Body, mm)))
				continue
			}
			meas := lm.Down
			if meas == nil {
				panic("lemma " + lm.Name + ": induction hypothesis without measure")
			}
			m0, m1 := subst(meas, m), subst(meas, mm)
			hyps = append(hyps, Implies(And(Le(Int(0), m1), Lt(m1, m0)), subst(lm.Body, mm)))
		}
		cases := []*Term{True}
		for _, c := range lm.Cases {
			ct := subst(c, m)
			var nc []*Term
			for _, k := range cases {
				nc = append(nc, And(k, ct), And(k, Not(ct)))
			}
			cases = nc
		}
		for _, c := range cases {
			hs := append([]*Term{c}, hyps...)
			o := &Obl{Name: "lemma/" + lm.Name, Func: "lemma", Kind: "lemma", Label: lm.Name, Hyps: hs, Goal: goal, Fuel: lm.Fuel, Hints: hints}
			// query text must be built now, while only earlier lemmas are usable
			texts := buildQuery(hs, goal, lm.Fuel, hints)
			o.pre = texts
			out = append(out, o)
		}
		lm.assumeOK = true
	}
	return out
}

// subvalue: t is a strict part of the datatype value v, reached by selectors; guard: the selectors apply.
func subvalue(t, v *Term) (guard *Term, ok bool) {
	guard = True
	n := 0
	for t != v {
		if t.kind != kApp || len(t.args) != 1 {
			return nil, false
		}
		a := t.args[0]
		switch {
		case strings.HasPrefix(t.op, "val<P<"):
			guard = And(Not(ptrIsNil(a)), guard)
		case dts[a.sort] != nil && len(dts[a.sort].ctors) == 1 && isField(dts[a.sort].ctors[0], t.op):
		default:
			return nil, false
		}
		n++
		t = a
	}
	return guard, n > 0
}

func isField(c *ctorInfo, op string) bool {
	for _, f := range c.fields {
		if f.name == op {
			return true
		}
	}
	return false
}

// loadIncludes: contracts of other properties, assumed here and discharged by their own check.
func loadIncludes(cdir, dir string) int {
	inc, err := os.ReadFile(filepath.Join(dir, "INCLUDE"))
	if err == nil {
		var pre, gv []string
		for _, l := range strings.Fields(string(inc)) {
			p := filepath.Join(cdir, l)
			if strings.HasSuffix(p, ".smt") {
				pre = append(pre, p)
			} else {
				gv = append(gv, p)
			}
		}
		for _, f := range pre {
			if err := loadPrelude(f); err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 3
			}
		}
		for _, f := range gv {
			n := len(contractList)
			if err := loadContracts(f); err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 3
			}
			for _, c := range contractList[n:] {
				if !c.Extern {
					c.Extern = true
					c.By = filepath.Base(filepath.Dir(f))
				}
			}
		}
	}
	return 0
}
