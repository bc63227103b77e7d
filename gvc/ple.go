package main

import (
	"math/big"
	"sort"
	"strings"
)

var maxInst = 600

// ground returns axioms instantiated for the ground terms of as: definitions of recursive spec functions
// (fuel rounds), lemma instances, and built-in facts.
func ground(as []*Term, hints []*Term, fuel int) []*Term {
	g := &grounder{seen: map[*Term]bool{}, byOp: map[string][]*Term{}, done: map[string]bool{}, added: map[*Term]bool{}}
	g.known = map[*Term]bool{}
	g.norm = map[*Term]*Term{}
	for _, a := range as {
		g.collect(a, 0)
		g.noteQuant(a)
		g.learn(a)
	}
	for _, h := range hints {
		g.collect(h, 0)
	}
	g.builtin()
	if fuel > 0 {
		g.decided()
	}
	rounds := fuel
	for r := 0; r < rounds; r++ {
		n0 := len(g.out)
		g.unfoldDefs(false)
		g.decided()
		g.lemmaRound()
		g.quantRound(as)
		g.builtin()
		if len(g.out) == n0 || len(g.out) > maxInst {
			break
		}
	}
	if fuel == 0 {
		g.quickFacts()
	} else {
		g.quickFacts()
	}
	if fuel > 0 {
		g.divChains()
	}
	return g.out
}

type grounder struct {
	known  map[*Term]bool
	norm   map[*Term]*Term // application -> its decided unfolding
	seen   map[*Term]bool
	terms  []*Term
	depth  map[*Term]int
	byOp   map[string][]*Term
	done   map[string]bool
	added  map[*Term]bool
	out    []*Term
	quants []*Term
}

func (g *grounder) collect(t *Term, d int) {
	if g.seen[t] {
		return
	}
	g.seen[t] = true
	if t.kind == kQuant {
		g.collectIn(t.args[0], d)
		return
	}
	for _, a := range t.args {
		g.collect(a, d)
	}
	if !t.hasBV {
		g.terms = append(g.terms, t)
		g.byOp[t.op] = append(g.byOp[t.op], t)
	}
}

// collectIn gathers ground subterms of quantified bodies.
func (g *grounder) collectIn(t *Term, d int) {
	if !t.hasBV {
		g.collect(t, d)
		return
	}
	for _, a := range t.args {
		g.collectIn(a, d)
	}
}

func (g *grounder) noteQuant(t *Term) {
	if t.kind == kQuant && t.op == "forall" {
		g.quants = append(g.quants, t)
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			g.noteQuant(a)
		}
	}
	if t.op == "=>" && t.args[1].kind == kQuant {
		g.quants = append(g.quants, t)
	}
}

func (g *grounder) add(t *Term) {
	if t == True || g.added[t] {
		return
	}
	g.added[t] = true
	g.out = append(g.out, t)
	g.collect(t, 0)
	g.noteQuant(t)
}

func (g *grounder) unfoldDefs(onlyDecided bool) {
	n := len(g.terms)
	for i := 0; i < n; i++ {
		t := g.terms[i]
		f, ok := specFns[t.op]
		if !ok || !f.Rec || t.kind != kApp {
			continue
		}
		k := "u" + itoa(t.id)
		if g.done[k] {
			continue
		}
		m := map[*Term]*Term{}
		for j, p := range f.Params {
			m[p] = t.args[j]
		}
		b := g.reduce(subst(f.Body, m))
		dec := (b.op != "ite" || b.kind != kApp) && (f.Body.op == "ite" || !callsRec(b))
		if onlyDecided && !dec {
			continue
		}
		g.done[k] = true
		g.add(Eq(t, b))
		if dec && t.sort != "Int" && t.sort != "Bool" {
			g.norm[t] = b
		}
		if len(g.out) > maxInst && !onlyDecided {
			return
		}
	}
}

// callsRec: does the term apply a recursive specification function?
func callsRec(t *Term) bool {
	if t.kind == kApp {
		if f, ok := specFns[t.op]; ok && f.Rec {
			return true
		}
	}
	for _, a := range t.args {
		if callsRec(a) {
			return true
		}
	}
	return false
}

func itoa(i int) string {
	if i == 0 {
		return "0"
	}
	var b [20]byte
	n := len(b)
	for i > 0 {
		n--
		b[n] = byte('0' + i%10)
		i /= 10
	}
	return string(b[n:])
}

func (g *grounder) lemmaRound() {
	for li, lm := range lemmas {
		if !lm.usable() {
			continue
		}
		for _, tr := range lm.Trig {
			// snapshot
			g.matchTrig(lm, li, tr)
			if len(g.out) > maxInst {
				return
			}
		}
	}
}

func (lm *Lemma) usable() bool { return lm.Axiom || lm.proved || lm.assumeOK }

func (g *grounder) matchTrig(lm *Lemma, li int, tr []*Term) {
	vars := map[*Term]bool{}
	for _, v := range lm.Vars {
		vars[v] = true
	}
	var insts []map[*Term]*Term
	var rec func(k int, m map[*Term]*Term)
	rec = func(k int, m map[*Term]*Term) {
		if len(insts) > 200 {
			return
		}
		if k == len(tr) {
			c := map[*Term]*Term{}
			for a, b := range m {
				c[a] = b
			}
			insts = append(insts, c)
			return
		}
		p := tr[k]
		cands := g.byOp[p.op]
		n := len(cands)
		for i := 0; i < n; i++ {
			m2 := map[*Term]*Term{}
			for a, b := range m {
				m2[a] = b
			}
			if match(p, cands[i], vars, m2) {
				rec(k+1, m2)
			}
		}
	}
	rec(0, map[*Term]*Term{})
	for _, m := range insts {
		if len(m) != len(lm.Vars) {
			continue
		}
		k := "l" + itoa(li)
		for _, v := range lm.Vars {
			k += "," + itoa(m[v].id)
		}
		if g.done[k] {
			continue
		}
		g.done[k] = true
		g.add(subst(lm.Body, m))
	}
}

func match(p, t *Term, vars map[*Term]bool, m map[*Term]*Term) bool {
	if vars[p] {
		if o, ok := m[p]; ok {
			return o == t
		}
		if p.sort != t.sort {
			return false
		}
		m[p] = t
		return true
	}
	if p == t {
		return true
	}
	if p.kind != t.kind || p.op != t.op {
		// x + c patterns: match (+ v c) against an integer term
		if p.op == "+" && len(p.args) == 2 && vars[p.args[0]] && p.args[1].isInt() && t.sort == "Int" {
			return match(p.args[0], Sub(t, p.args[1]), vars, m)
		}
		return false
	}
	if p.op == "seq.++" && len(p.args) == 2 && len(t.args) > 2 {
		if vars[p.args[0]] && !vars[p.args[1]] {
			n := len(t.args) - 1
			return match(p.args[0], SeqCat(t.args[:n]...), vars, m) && match(p.args[1], t.args[n], vars, m)
		}
		return match(p.args[0], t.args[0], vars, m) && match(p.args[1], SeqCat(t.args[1:]...), vars, m)
	}
	if len(p.args) != len(t.args) || len(p.args) == 0 {
		return false
	}
	for i := range p.args {
		if !match(p.args[i], t.args[i], vars, m) {
			return false
		}
	}
	return true
}

// quantRound instantiates integer-quantified hypotheses at the index terms present.
func (g *grounder) quantRound(as []*Term) {
	if len(g.quants) == 0 {
		return
	}
	idx := map[*Term]bool{}
	var list []*Term
	for _, t := range g.byOp["seq.nth"] {
		if !idx[t.args[1]] {
			idx[t.args[1]] = true
			list = append(list, t.args[1])
		}
	}
	for _, q := range g.quants {
		guard := True
		qq := q
		if q.op == "=>" {
			guard, qq = q.args[0], q.args[1]
		}
		if len(qq.bound) != 1 || qq.bound[0].sort != "Int" || len(list) > 40 {
			continue
		}
		for _, t := range list {
			k := "q" + itoa(q.id) + "," + itoa(t.id)
			if g.done[k] {
				continue
			}
			g.done[k] = true
			g.add(Implies(guard, subst(qq.args[0], map[*Term]*Term{qq.bound[0]: t})))
		}
	}
}

// builtin facts.
func (g *grounder) builtin() {
	n := len(g.terms)
	for i := 0; i < n; i++ {
		t := g.terms[i]
		k := "b" + itoa(t.id)
		if g.done[k] {
			continue
		}
		g.done[k] = true
		switch {
		case t.op == "isbytes" && t.kind == kApp:
			s := t.args[0]
			switch {
			case s.op == "seq.extract":
				g.add(Implies(isBytes(s.args[0]), t))
			case s.op == "ite":
				g.add(Implies(And(isBytes(s.args[1]), isBytes(s.args[2])), t))
			case strings.HasPrefix(s.op, "seq.repeat<"):
				g.add(Implies(And(Le(Int(0), s.args[0]), Le(s.args[0], Int(255))), t))
			}
		case t.op == "seq.nth" && t.sort == "Int" && t.kind == kApp:
			s := t.args[0]
			in := And(Le(Int(0), t.args[1]), Lt(t.args[1], SeqLen(s)))
			rng := And(Le(Int(0), t), Le(t, Int(255)))
			base := s
			g.add(Implies(And(isBytes(base), in), rng))
			for base.op == "seq.extract" {
				base = base.args[0]
				g.add(Implies(And(isBytes(base), in), rng))
			}
			if strings.HasPrefix(s.op, "seq.repeat<") {
				g.add(Implies(in, Eq(t, s.args[0])))
			}
		case t.op == "seq.extract" && t.kind == kApp && !t.hasBV && t.args[0].op == "seq.extract":
			in := t.args[0]
			s0, a, m := in.args[0], in.args[1], in.args[2]
			c, n := t.args[1], t.args[2]
			g.add(Implies(And(Le(Int(0), a), Le(Int(0), c), Le(Int(0), n), Le(Add(c, n), m), Le(Add(a, m), SeqLen(s0))),
				Eq(t, mk("seq.extract", t.sort, s0, Add(a, c), n))))
		case strings.HasPrefix(t.op, "seq.repeat<"):
			g.add(Implies(Le(Int(0), t.args[1]), mk("=", "Bool", mk("seq.len", "Int", t), t.args[1])))
			if t.sort == "(Seq Int)" && !t.hasBV {
				// its first elements; more are added where one is looked at
				for i := int64(0); i < 24; i++ {
					g.add(Implies(Lt(Int(i), t.args[1]), mk("=", "Bool", mk("seq.nth", "Int", t, Int(i)), t.args[0])))
				}
			}
		case strings.HasPrefix(t.op, "ifc<") && len(t.args) == 1:
			ty := ifcTypes[t.op]
			g.add(Not(Eq(t, ifcNil)))
			g.add(Eq(mk("ifc.tag", "Int", t), ifcTag(ty)))
			g.add(Eq(mk("pay"+t.op[3:], sortOf(ty), t), t.args[0]))
		case t.op == "ifc.tag" && t.kind == kApp:
			g.add(Eq(Eq(t, Int(0)), Eq(t.args[0], ifcNil)))
		}
	}
}

func (g *grounder) quickFacts() {}

// decided unfolds applications whose case is syntactically determined (no fuel needed).
func (g *grounder) decided() {
	for r := 0; r < 70; r++ {
		n := len(g.out)
		g.unfoldDefs(true)
		g.normArgs()
		if len(g.out) == n || len(g.out) > 4*maxInst {
			return
		}
	}
}

// divChains relates floor divisions of one term by constants dividing each other:
// floor(v/a) = q*floor(v/(a*q)) + mod(floor(v/a), q).
func (g *grounder) divChains() {
	by := map[*Term][]*Term{}
	var order []*Term
	for _, t := range g.byOp["div"] {
		if t.kind == kApp && t.args[1].isInt() && t.args[1].ival.Sign() > 0 {
			if by[t.args[0]] == nil {
				order = append(order, t.args[0])
			}
			by[t.args[0]] = append(by[t.args[0]], t)
		}
	}
	for _, v := range order {
		l := append([]*Term{v}, by[v]...)
		k := func(t *Term) *big.Int {
			if t == v {
				return bigOne
			}
			return t.args[1].ival
		}
		sort.Slice(l, func(i, j int) bool { return k(l[i]).Cmp(k(l[j])) < 0 })
		for i := 0; i+1 < len(l); i++ {
			q, r := new(big.Int).QuoRem(k(l[i+1]), k(l[i]), new(big.Int))
			if r.Sign() != 0 || q.Cmp(bigOne) == 0 {
				continue
			}
			m := Mod(l[i], BigI(q))
			g.out = append(g.out, Eq(l[i], Add(Mul(BigI(q), l[i+1]), m)), And(Le(Int(0), m), Lt(m, BigI(q))))
		}
	}
}

// learn records literals that hold.
func (g *grounder) learn(a *Term) {
	if a.kind != kApp {
		return
	}
	if a.op == "and" {
		for _, x := range a.args {
			g.learn(x)
		}
		return
	}
	if a.op == "not" {
		g.known[a.args[0]] = false
		return
	}
	if a.sort == "Bool" {
		g.known[a] = true
	}
}

// reduce resolves a top-level case distinction by the known literals.
func (g *grounder) reduce(b *Term) *Term {
	for b.op == "ite" && b.kind == kApp {
		v, ok := g.holds(b.args[0])
		if !ok {
			return b
		}
		if v {
			b = b.args[1]
		} else {
			b = b.args[2]
		}
	}
	return b
}

func (g *grounder) holds(c *Term) (bool, bool) {
	if c == True || c == False {
		return c == True, true
	}
	if v, ok := g.known[c]; ok {
		return v, true
	}
	if c.kind != kApp {
		return false, false
	}
	switch c.op {
	case "not":
		v, ok := g.holds(c.args[0])
		return !v, ok
	case "and":
		all := true
		for _, a := range c.args {
			v, ok := g.holds(a)
			if ok && !v {
				return false, true
			}
			all = all && ok
		}
		if all {
			return true, true
		}
	case "or":
		all := true
		for _, a := range c.args {
			v, ok := g.holds(a)
			if ok && v {
				return true, true
			}
			all = all && ok
		}
		if all {
			return false, true
		}
	case "=":
		// 0 = len s and friends
		a, b := c.args[0], c.args[1]
		if b.isInt() {
			a, b = b, a
		}
		if a.isInt() && a.ival.Sign() == 0 && nonNeg(b) {
			if v, ok := g.known[Le(b, Int(0))]; ok {
				return v, true
			}
			for _, k := range []int64{1, 2} {
				if v, ok := g.known[Le(Int(k), b)]; ok && v {
					return false, true
				}
			}
			if v, ok := g.known[Lt(Int(0), b)]; ok {
				return !v, true
			}
		}
	case "<=":
		if v, ok := g.known[Lt(c.args[1], c.args[0])]; ok {
			return !v, true
		}
		if v, ok := g.known[Lt(c.args[0], c.args[1])]; ok && v {
			return true, true
		}
		if v, ok := g.known[Eq(c.args[0], c.args[1])]; ok && v {
			return true, true
		}
	case "<":
		if v, ok := g.known[Le(c.args[1], c.args[0])]; ok {
			return !v, true
		}
	}
	return false, false
}

// normArgs adds, for applications of recursive functions to terms with a decided unfolding, the application to the
// unfolded argument (equal by congruence).
func (g *grounder) normArgs() {
	if len(g.norm) == 0 {
		return
	}
	n := len(g.terms)
	for i := 0; i < n; i++ {
		t := g.terms[i]
		f, ok := specFns[t.op]
		if !ok || !f.Rec || t.kind != kApp {
			continue
		}
		ch := false
		args := make([]*Term, len(t.args))
		for j, a := range t.args {
			args[j] = a
			for d := 0; d < 4; d++ {
				b, ok := g.norm[args[j]]
				if !ok {
					break
				}
				args[j] = b
				ch = true
			}
		}
		if ch {
			k := "n" + itoa(t.id)
			if g.done[k] {
				continue
			}
			g.done[k] = true
			u := rebuild(t, args)
			g.collect(u, 0)
			if u != t {
				g.add(mk("=", "Bool", t, u))
			}
		}
	}
}
