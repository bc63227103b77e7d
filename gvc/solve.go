package main

import (
	"sync/atomic"
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

var repoDir = "/repo"
var tmpDir = ""
var termMu sync.Mutex

func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, workers)
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			f(i)
		}(i)
	}
	wg.Wait()
}

var workers = 8

// ---------- printing queries ----------

var builtinOps = map[string]bool{}

func init() {
	for _, o := range strings.Fields("and or not => ite = distinct + - * / div mod <= < >= > seq.len seq.nth seq.++ seq.unit seq.extract select store to_real to_int seq.contains") {
		builtinOps[o] = true
	}
}

type printer struct {
	sorts map[string]bool
	funs  map[string]*Term
	names map[*Term]string
	cnt   map[*Term]int
	seen  map[*Term]bool
	defs  []string
}

func (p *printer) useSort(s string) {
	if p.sorts[s] {
		return
	}
	p.sorts[s] = true
	if strings.HasPrefix(s, "(Seq (Seq ") {
		p.useSort(boxSort(seqElemSort(s)))
		return
	}
	if strings.HasPrefix(s, "(Seq ") {
		p.useSort(seqElemSort(s))
		return
	}
	if strings.HasPrefix(s, "(Array ") {
		k, v := arraySorts(s)
		p.useSort(k)
		p.useSort(v)
		return
	}
	if d, ok := dts[s]; ok {
		for _, c := range d.ctors {
			for _, f := range c.fields {
				p.useSort(f.sort)
			}
		}
	}
}

func (p *printer) visit(t *Term) {
	p.cnt[t]++
	if p.seen[t] {
		return
	}
	p.seen[t] = true
	p.useSort(t.sort)
	if t.kind == kQuant {
		for _, b := range t.bound {
			p.useSort(b.sort)
		}
	}
	if t.kind == kApp && !builtinOps[t.op] && !strings.HasPrefix(t.op, "(") {
		_, c := ctorOf[t.op]
		_, s := selOf[t.op]
		if !c && !s && !(t.sort == "Real" && len(t.args) == 0 && strings.HasSuffix(t.op, ".0")) {
			k := t.op
			if o, ok := p.funs[k]; ok {
				if len(o.args) != len(t.args) || o.sort != t.sort {
					panic(fmt.Sprintf("symbol %s used with different signatures: %s / %s", k, o, t))
				}
			} else {
				p.funs[k] = t
			}
		}
	}
	for _, a := range t.args {
		p.visit(a)
	}
	for _, q := range t.pat {
		for _, r := range q {
			p.visit(r)
		}
	}
}

// str prints with sharing through named definitions.
func (p *printer) str(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	var out string
	if len(t.args) == 0 || t.kind == kQuant {
		out = t.smt()
	} else {
		var sb strings.Builder
		pre, post, arg := opText(t)
		sb.WriteString(pre)
		for _, a := range t.args {
			sb.WriteByte(' ')
			if arg != nil {
				sb.WriteString(arg(p.str(a)))
				continue
			}
			sb.WriteString(p.str(a))
		}
		sb.WriteString(post)
		out = sb.String()
	}
	if p.cnt[t] > 1 && len(t.args) > 0 && !t.hasBV && t.kind != kQuant && len(out) > 24 {
		n := fmt.Sprintf("$d%d", len(p.defs))
		p.defs = append(p.defs, fmt.Sprintf("(define-fun %s () %s %s)", n, rawSort(t.sort), out))
		p.names[t] = n
		return n
	}
	return out
}

func declText(p *printer) string {
	var sb strings.Builder
	// sorts
	var ss []string
	for s := range p.sorts {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	for _, s := range ss {
		if strings.HasPrefix(s, "(") || s == "Int" || s == "Bool" || s == "Real" {
			continue
		}
		if _, ok := dts[s]; ok {
			continue
		}
		fmt.Fprintf(&sb, "(declare-sort %s 0)\n", rawSort(s))
	}
	sb.WriteString(dtDecls(ss))
	var fs []string
	for f := range p.funs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		t := p.funs[f]
		var as []string
		for _, a := range t.args {
			as = append(as, rawSort(a.sort))
		}
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", qsym(f), strings.Join(as, " "), rawSort(t.sort))
	}
	return sb.String()
}

// dtDecls emits datatype declarations grouped into strongly connected components.
func dtDecls(ss []string) string {
	var names []string
	for _, s := range ss {
		if _, ok := dts[s]; ok {
			names = append(names, s)
		}
	}
	idx := map[string]int{}
	low := map[string]int{}
	on := map[string]bool{}
	var st []string
	n := 0
	var comps [][]string
	var deps func(s string) []string
	deps = func(s string) []string {
		if strings.HasPrefix(s, "(Seq (Seq ") {
			return deps(boxSort(seqElemSort(s)))
		}
		if strings.HasPrefix(s, "(Seq ") {
			return deps(seqElemSort(s))
		}
		if strings.HasPrefix(s, "(Array ") {
			k, v := arraySorts(s)
			return append(deps(k), deps(v)...)
		}
		if _, ok := dts[s]; ok {
			return []string{s}
		}
		return nil
	}
	var dfs func(v string)
	dfs = func(v string) {
		n++
		idx[v], low[v] = n, n
		st = append(st, v)
		on[v] = true
		for _, c := range dts[v].ctors {
			for _, f := range c.fields {
				for _, w := range deps(f.sort) {
					if idx[w] == 0 {
						dfs(w)
						if low[w] < low[v] {
							low[v] = low[w]
						}
					} else if on[w] && idx[w] < low[v] {
						low[v] = idx[w]
					}
				}
			}
		}
		if low[v] == idx[v] {
			var c []string
			for {
				w := st[len(st)-1]
				st = st[:len(st)-1]
				on[w] = false
				c = append(c, w)
				if w == v {
					break
				}
			}
			comps = append(comps, c)
		}
	}
	for _, v := range names {
		if idx[v] == 0 {
			dfs(v)
		}
	}
	var sb strings.Builder
	for _, c := range comps {
		sort.Strings(c)
		sb.WriteString("(declare-datatypes (")
		for _, v := range c {
			sb.WriteString("(" + rawSort(v) + " 0)")
		}
		sb.WriteString(") (")
		for _, v := range c {
			sb.WriteString("(")
			for _, k := range dts[v].ctors {
				sb.WriteString("(" + qsym(k.name))
				for _, f := range k.fields {
					sb.WriteString(" (" + qsym(f.name) + " " + rawSort(f.sort) + ")")
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString("))\n")
	}
	return sb.String()
}

func queryText(asserts []*Term) string {
	p := &printer{sorts: map[string]bool{}, funs: map[string]*Term{}, names: map[*Term]string{}, cnt: map[*Term]int{}, seen: map[*Term]bool{}}
	for _, a := range asserts {
		p.visit(a)
	}
	var body strings.Builder
	for _, a := range asserts {
		n := len(p.defs)
		t := p.str(a)
		for _, d := range p.defs[n:] {
			body.WriteString(d + "\n")
		}
		body.WriteString("(assert " + t + ")\n")
	}
	return declText(p) + body.String()
}

// ---------- running solvers ----------

type solverRes struct {
	status string // unsat sat unknown
	by     string
	secs   float64
	model  string
}

func runSolver(name string, text string, to time.Duration, model bool) solverRes {
	ctx, cancel := context.WithTimeout(context.Background(), to+2*time.Second)
	defer cancel()
	return runSolverCtx(ctx, name, text, to, model)
}

func runSolverCtx(ctx context.Context, name string, text string, to time.Duration, model bool) solverRes {
	var cmd *exec.Cmd
	q := "(set-logic ALL)\n"
	if model {
		q += "(set-option :produce-models true)\n"
	}
	q += text + "(check-sat)\n"
	if model {
		q += "(get-model)\n"
	}
	ms := fmt.Sprint(int(to.Milliseconds()))
	switch name {
	case "z3-new":
		cmd = exec.CommandContext(ctx, "z3-new", "-in", "-t:"+ms, "-memory:3000")
		q = strings.Replace(q, "(set-logic ALL)\n", "", 1)
	case "z3":
		cmd = exec.CommandContext(ctx, "z3", "-in", "-t:"+ms, "-memory:3000")
		q = strings.Replace(q, "(set-logic ALL)\n", "", 1)
	case "cvc5":
		cmd = exec.CommandContext(ctx, "cvc5", "--strings-exp", "--dt-nested-rec", "--tlimit="+ms, "--lang=smt2")
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Stdin = strings.NewReader(q)
	var ob bytes.Buffer
	cmd.Stdout = &ob
	cmd.Stderr = &ob
	t0 := time.Now()
	cmd.Run()
	r := solverRes{status: "unknown", by: name, secs: time.Since(t0).Seconds()}
	out := ob.String()
	line := out
	if k := strings.IndexByte(out, '\n'); k >= 0 {
		line = out[:k]
	}
	switch strings.TrimSpace(line) {
	case "unsat":
		r.status = "unsat"
	case "sat":
		r.status = "sat"
		if model {
			r.model = out
		}
	case "unknown", "timeout", "":
	default:
		if strings.Contains(out, "error") && os.Getenv("GVC_SOLVER_ERR") != "" {
			fmt.Fprintf(os.Stderr, "%s: %s\n", name, firstLines(out, 3))
			os.WriteFile(filepath.Join(tmpDir, "err-"+name+".smt2"), []byte(q), 0o644)
		}
		r.model = firstLines(out, 3)
	}
	return r
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

var solveCache sync.Map

var crossSecs int
var crossOK, crossBad, crossNone atomic.Int64

func portfolio(text string, to time.Duration, solvers []string) solverRes {
	h := sha256.Sum256([]byte(text))
	if r, ok := solveCache.Load(h); ok {
		rr := r.(solverRes)
		if rr.status != "unknown" || rr.secs >= to.Seconds() {
			return rr
		}
	}
	t0 := time.Now()
	// stage 1: single fast attempt
	r := runSolver(solvers[0], text, minDur(to, 3*time.Second), false)
	if r.status == "unknown" && len(solvers) > 1 {
		ctx, cancel := context.WithTimeout(context.Background(), to+2*time.Second)
		ch := make(chan solverRes, len(solvers))
		for _, n := range solvers {
			go func(n string) { ch <- runSolverCtx(ctx, n, text, to, false) }(n)
		}
		for range solvers {
			q := <-ch
			if q.status != "unknown" {
				r = q
				break
			}
		}
		cancel()
	}
	r.secs = time.Since(t0).Seconds()
	if r.status == "unknown" {
		r.secs = to.Seconds()
	}
	solveCache.Store(h, r)
	return r
}

func minDur(a, b time.Duration) time.Duration {
	if a < b {
		return a
	}
	return b
}

// ---------- feasibility (persistent z3) ----------

type z3proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	n   int
}

var feasCache = map[string]bool{}
var feasP *z3proc
var feasN, feasMiss, feasKill int
var feasTime time.Duration

func startZ3() *z3proc {
	c := exec.Command("z3-new", "-in", "-memory:3000")
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	if err := c.Start(); err != nil {
		panic(err)
	}
	return &z3proc{cmd: c, in: in, out: bufio.NewReader(out)}
}

// feasible: may pc ∧ c hold? (true when unknown)
func feasible(pc []*Term, c *Term) bool {
	if c == False {
		return false
	}
	feasN++
	rel := relevant(pc, c)
	as := append(append([]*Term(nil), rel...), c)
	termMu.Lock()
	ax := ground(as, nil, 0)
	text := queryText(append(as, ax...))
	termMu.Unlock()
	if r, ok := feasCache[text]; ok {
		return r
	}
	feasMiss++
	t0 := time.Now()
	defer func() { feasTime += time.Since(t0) }()
	for try := 0; try < 1; try++ {
		if feasP == nil || feasP.n > 500 {
			if feasP != nil {
				feasP.in.Close()
				feasP.cmd.Process.Kill()
				feasP.cmd.Wait()
			}
			feasP = startZ3()
		}
		feasP.n++
		q := "(reset)\n(set-option :timeout 400)\n" + text + "(check-sat)\n(echo \"##\")\n"
		done := make(chan string, 1)
		p := feasP
		go func() {
			io.WriteString(p.in, q)
			var sb strings.Builder
			for {
				l, err := p.out.ReadString('\n')
				if err != nil || strings.HasPrefix(l, "##") {
					break
				}
				sb.WriteString(l)
			}
			done <- sb.String()
		}()
		select {
		case o := <-done:
			if strings.Contains(o, "error") && os.Getenv("GVC_SOLVER_ERR") != "" {
				fmt.Fprintln(os.Stderr, "feasible:", firstLines(o, 4))
				os.WriteFile(filepath.Join(tmpDir, "err-feas.smt2"), []byte(q), 0o644)
			}
			r := !strings.HasPrefix(strings.TrimSpace(o), "unsat")
			feasCache[text] = r
			return r
		case <-time.After(700 * time.Millisecond):
			feasKill++
			feasP.cmd.Process.Kill()
			feasP.cmd.Wait()
			feasP = nil
		}
	}
	feasCache[text] = true
	return true
}

// relevant keeps path-condition facts connected to c through shared symbols (2 hops).
func relevant(pc []*Term, c *Term) []*Term {
	if len(pc) < 60 {
		return pc
	}
	syms := map[*Term]bool{}
	leafs(c, syms)
	inc := make([]bool, len(pc))
	ls := make([]map[*Term]bool, len(pc))
	for i, p := range pc {
		ls[i] = map[*Term]bool{}
		leafs(p, ls[i])
	}
	for hop := 0; hop < 4; hop++ {
		ch := false
		add := map[*Term]bool{}
		for i := range pc {
			if inc[i] {
				continue
			}
			for s := range ls[i] {
				if syms[s] {
					inc[i] = true
					ch = true
					for q := range ls[i] {
						add[q] = true
					}
					break
				}
			}
		}
		for q := range add {
			syms[q] = true
		}
		if !ch {
			break
		}
	}
	var out []*Term
	for i, p := range pc {
		if inc[i] {
			out = append(out, p)
		}
	}
	return out
}

var leafCache = map[*Term][]*Term{}

func leafs(t *Term, out map[*Term]bool) {
	seen := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if len(t.args) == 0 && t.kind == kApp && !isEmptySeq(t) && !isCtor(t) && !strings.HasPrefix(t.op, "ext.") && t != ifcNil {
			out[t] = true
		}
		for _, a := range t.args {
			f(a)
		}
	}
	f(t)
}

// quickProve is used for loop invariants.
func quickProve(pc, extra []*Term, goal *Term, fuel int, to time.Duration) bool {
	return quickStatus(pc, extra, goal, fuel, to, []string{"z3-new", "z3", "cvc5"}) == "unsat"
}

// quickStatus: "unsat" (proved), "sat" (a model of the negation) or "unknown".
func quickStatus(pc, extra []*Term, goal *Term, fuel int, to time.Duration, solvers []string) string {
	if goal == True {
		return "unsat"
	}
	if goal == False && len(pc) == 0 {
		return "sat"
	}
	hyps := append(append([]*Term(nil), pc...), extra...)
	texts := buildQuery(hyps, goal, fuel, nil)
	res := "unsat"
	for _, t := range texts {
		r := portfolio(t, to, solvers)
		if r.status != "unsat" {
			if p := os.Getenv("GVC_CAND"); p != "" && strings.Contains(t, p) {
				fmt.Fprintf(os.Stderr, "cand %s: %s\n", r.status, trunc(goal.String(), 700))
				os.WriteFile(fmt.Sprintf("/tmp/cand%d.smt2", time.Now().UnixNano()), []byte(t), 0644)
			}
			if r.status == "sat" {
				return "sat"
			}
			res = "unknown"
		}
	}
	return res
}

// buildQuery prepares the SMT text(s) whose unsatisfiability proves the goal.
func buildQuery(hyps []*Term, goal *Term, fuel int, hints []*Term) []string {
	termMu.Lock()
	defer termMu.Unlock()
	var out []string
	for _, g := range splitGoal(goal) {
		hs := append([]*Term(nil), hyps...)
		hs, neg := negate(hs, g)
		as := append(hs, neg)
		as = elimEqs(as)
		as = concretise(as)
		ax := ground(as, hints, fuel)
		out = append(out, queryText(append(as, ax...)))
	}
	return out
}

func splitGoal(g *Term) []*Term {
	if g.op == "and" && g.kind == kApp {
		var out []*Term
		for _, a := range g.args {
			out = append(out, splitGoal(a)...)
		}
		return out
	}
	if g.op == "=>" && g.kind == kApp {
		var out []*Term
		for _, a := range splitGoal(g.args[1]) {
			out = append(out, Implies(g.args[0], a))
		}
		return out
	}
	return []*Term{g}
}

var skN int

func negate(hs []*Term, g *Term) ([]*Term, *Term) {
	for {
		if g.op == "=>" && g.kind == kApp {
			hs = append(hs, g.args[0])
			g = g.args[1]
			continue
		}
		if g.kind == kQuant && g.op == "forall" {
			m := map[*Term]*Term{}
			for _, b := range g.bound {
				skN++
				m[b] = Const(fmt.Sprintf("sk!%d", skN), b.sort)
			}
			g = subst(g.args[0], m)
			continue
		}
		return hs, Not(g)
	}
}

// elimEqs substitutes away constants defined by an equation const = term.
func elimEqs(as []*Term) []*Term {
	for round := 0; round < 40; round++ {
		m := map[*Term]*Term{}
		drop := -1
		for i, a := range as {
			if a.op != "=" || a.kind != kApp {
				continue
			}
			for _, p := range [][2]*Term{{a.args[0], a.args[1]}, {a.args[1], a.args[0]}} {
				c, t := p[0], p[1]
				if c.kind == kApp && len(c.args) == 0 && strings.Contains(c.op, "!") && !isCtor(c) && !containsAny(t, []*Term{c}) && t.size < 400 {
					m[c] = t
					drop = i
					break
				}
			}
			if drop >= 0 {
				break
			}
		}
		if drop < 0 {
			return as
		}
		var out []*Term
		for i, a := range as {
			if i == drop {
				continue
			}
			b := subst(a, m)
			if b == True {
				continue
			}
			if b.op == "and" && b.kind == kApp {
				out = append(out, b.args...)
			} else {
				out = append(out, b)
			}
		}
		as = out
	}
	return as
}

func proveObl(o *Obl, to time.Duration) {
	if o.Status == "proved" {
		return
	}
	t0 := time.Now()
	if o.TO > 0 {
		to = time.Duration(o.TO) * time.Second
	}
	defer func() {
		o.Secs = time.Since(t0).Seconds()
		if r := recover(); r != nil {
			o.Status = "unknown"
			o.Model = fmt.Sprint(r)
		}
	}()
	fuels := []int{o.Fuel}
	if o.Fuel == 0 {
		fuels = []int{2}
	}
	fuels = append(fuels, fuels[0]+1)
	if fuels[0] > 1 {
		fuels = append([]int{1, 0}, fuels...) // 0: no definitions, no lemmas
	}
	for fi, fuel := range fuels {
		var texts []string
		if o.pre != nil {
			if fi > 0 {
				return
			}
			texts = o.pre
		} else {
			texts = buildQuery(o.Hyps, o.Goal, fuel, o.Hints)
		}
		ok := true
		for _, t := range texts {
			tt := to
			if o.pre == nil && fi < 2 && len(fuels) > 2 {
				tt = minDur(to, 4*time.Second)
			}
			r := portfolio(t, tt, []string{"z3-new", "cvc5", "z3"})
			o.By = r.by
			if crossSecs > 0 && r.status == "unsat" && r.by != "cvc5" {
				// a second, independent solver: agreement is counted, a model refutes the proof
				switch runSolver("cvc5", t, time.Duration(crossSecs)*time.Second, false).status {
				case "unsat":
					crossOK.Add(1)
				case "sat":
					crossBad.Add(1)
					r.status = "sat"
				default:
					crossNone.Add(1)
				}
			}
			if r.status != "unsat" {
				ok = false
				if r.status == "sat" {
					o.Status = "refuted"
				} else {
					o.Status = "unknown"
				}
				o.File = t
				break
			}
		}
		if ok {
			o.Status = "proved"
			o.File = ""
			return
		}
	}
}

// concretise replaces sequences whose length is fixed by the hypotheses (at most 16) by explicit element lists.
func concretise(as []*Term) []*Term {
	for round := 0; round < 8; round++ {
		lo, hi := map[*Term]*big.Int{}, map[*Term]*big.Int{}
		var order []*Term
		note := func(t *Term, v *big.Int, isLo bool) {
			if t.op != "seq.len" {
				return
			}
			if lo[t] == nil && hi[t] == nil {
				order = append(order, t)
			}
			if isLo {
				if lo[t] == nil || lo[t].Cmp(v) < 0 {
					lo[t] = v
				}
			} else if hi[t] == nil || hi[t].Cmp(v) > 0 {
				hi[t] = v
			}
		}
		one := big.NewInt(1)
		var scan func(a *Term)
		scan = func(a *Term) {
			if a.kind != kApp {
				return
			}
			op, as2 := a.op, a.args
			if op == "and" {
				for _, x := range as2 {
					scan(x)
				}
				return
			}
			neg := false
			if op == "not" {
				neg = true
				a = a.args[0]
				op, as2 = a.op, a.args
			}
			if len(as2) != 2 {
				return
			}
			l, r := as2[0], as2[1]
			switch {
			case op == "=" && !neg:
				if l.isInt() {
					l, r = r, l
				}
				if r.isInt() {
					note(l, r.ival, true)
					note(l, r.ival, false)
				}
			case op == "<=" && !neg && r.isInt():
				note(l, r.ival, false)
			case op == "<=" && !neg && l.isInt():
				note(r, l.ival, true)
			case op == "<" && !neg && r.isInt():
				note(l, new(big.Int).Sub(r.ival, one), false)
			case op == "<" && !neg && l.isInt():
				note(r, new(big.Int).Add(l.ival, one), true)
			case op == "<=" && neg && r.isInt(): // l > r
				note(l, new(big.Int).Add(r.ival, one), true)
			case op == "<=" && neg && l.isInt(): // r < l
				note(r, new(big.Int).Sub(l.ival, one), false)
			case op == "<" && neg && r.isInt(): // l >= r
				note(l, r.ival, true)
			case op == "<" && neg && l.isInt(): // r <= l
				note(r, l.ival, false)
			}
		}
		for _, a := range as {
			scan(a)
		}
		m := map[*Term]*Term{}
		for _, t := range order {
			if hi[t] == nil || hi[t].Cmp(big.NewInt(16)) > 0 {
				continue
			}
			l := lo[t]
			if l == nil {
				l = big.NewInt(0)
			}
			s := t.args[0]
			if l.Cmp(hi[t]) != 0 || s.op == "seq.extract" || s.op == "seq.++" || s.op == "ite" || s.hasBV {
				continue
			}
			var us []*Term
			us = append(us, SeqEmpty(seqElemSort(s.sort)))
			for i := int64(0); i < l.Int64(); i++ {
				us = append(us, SeqUnit(Const(fmt.Sprintf("el!%d!%d", s.id, i), seqElemSort(s.sort))))
			}
			m[s] = SeqCat(us...)
			break
		}
		if len(m) == 0 {
			return as
		}
		var out []*Term
		for s, c := range m {
			_ = s
			_ = c
		}
		for _, a := range as {
			b := subst(a, m)
			if b == True {
				continue
			}
			out = append(out, b)
		}
		// keep the defining equation when the sequence is a compound term
		for s, c := range m {
			if len(s.args) > 0 {
				out = append(out, mk("=", "Bool", s, c))
			}
		}
		as = out
	}
	return as
}
