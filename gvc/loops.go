package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type invInfo struct {
	cands []*cand
	extra map[string]*Term // pre-loop snapshot terms
}

// cand is a candidate invariant, evaluated in a state positioned at the header with the given phi values.
type cand struct {
	name string
	eval func(s *State, phi map[*ssa.Phi]Val) *Term
	tmpl bool
}

// to: templates get more time than the candidates the engine guesses by itself
func (c *cand) to() time.Duration {
	if c.tmpl {
		return 12 * time.Second
	}
	return 1500 * time.Millisecond
}

func headerPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
	}
	return ps
}

func (x *Exec) phiVals(s *State, b, from *ssa.BasicBlock) map[*ssa.Phi]Val {
	pi := predIndex(b, from)
	m := map[*ssa.Phi]Val{}
	for _, p := range headerPhis(b) {
		m[p] = x.val(s, p.Edges[pi])
	}
	return m
}

func (x *Exec) runDry(d *dryRun, st *State) {
	x.dry = append(x.dry, d)
	saved := x.work
	x.work = []*State{st}
	defer func() {
		x.work = saved
		x.dry = x.dry[:len(x.dry)-1]
	}()
	x.loopWork()
}

func (x *Exec) enterLoop(s *State, f *Frame, b *ssa.BasicBlock, l *Loop) {
	from := f.block
	phis := headerPhis(b)
	init := x.phiVals(s, b, from)
	for _, d := range x.dry {
		d.nested = true
	}

	// discover what the body changes
	mod := map[int]map[int]bool{}
	gm := map[string]bool{}
	var lastDry *dryRun
	var hs *State
	for round := 0; ; round++ {
		if round > 8 {
			panic(unsupported("loop effects do not stabilise"))
		}
		hs = s.clone()
		serial := freshSerial
		x.havocLoop(hs, phis, mod, gm, init)
		hf := hs.top()
		hf.block = b
		hf.prev = from
		hf.pc = len(phis)
		hf.inv = map[*ssa.BasicBlock]*invInfo{}
		for k, v := range f.inv {
			hf.inv[k] = v
		}
		hf.inv[b] = &invInfo{}
		d := &dryRun{frame: f.id, header: b, base: map[int]bool{}, writes: map[int]map[int]bool{}, mats: map[*Term]types.Type{}, ghosts: map[string]bool{}}
		for id := range hs.store {
			d.base[id] = true
		}
		x.runDry(d, hs.clone())
		changed := false
		for id, m := range d.writes {
			if mod[id] == nil {
				mod[id] = map[int]bool{}
			}
			for k := range m {
				if !mod[id][k] {
					mod[id][k] = true
					changed = true
				}
			}
		}
		for g := range d.ghosts {
			if !gm[g] {
				gm[g] = true
				changed = true
			}
		}
		for t, ot := range d.mats {
			// materialise in the pre-state so that it can be havocked
			if newerThan(t, serial) {
				continue // reached through a value of this iteration
			}
			if _, ok := s.mat[t]; !ok {
				if strings.HasPrefix(t.sort, "P<") {
					p := ptrTypeOfSort(t.sort)
					if p == nil {
						panic(unsupported("loop writes to a pointer of unknown type"))
					}
					s.materialise(&SymPtr{T: p, t: t, S: t.sort})
					changed = true
				} else if x.materialiseIn(s, t, ot) {
					changed = true
				} else {
					panic(unsupported("loop writes to an object of unknown kind"))
				}
			}
		}
		if !changed {
			lastDry = d
			break
		}
		if os.Getenv("GVC_LOOP") != "" {
			fmt.Fprintf(os.Stderr, "loop b%d of %s: modifies %v\n", b.Index, f.fn.Name(), mod)
		}
	}
	// candidates
	hf := hs.top()
	cands := x.candidates(s, hs, hf, b, l, phis, init, mod)
	// init check
	var live []*cand
	cur := map[*ssa.Phi]Val{}
	for _, p := range phis {
		cur[p] = hf.env[p]
	}
	checkAll := func(cs []*cand, test func(c *cand) bool) []*cand {
		res := make([]bool, len(cs))
		parallel(len(cs), func(i int) { res[i] = test(cs[i]) })
		var out []*cand
		for i, c := range cs {
			if res[i] {
				out = append(out, c)
			}
		}
		return out
	}
	goals := map[*cand]*Term{}
	for _, c := range cands {
		if t, ok := safeEval(c, s, init); ok {
			goals[c] = t
		}
	}
	live = checkAll(cands, func(c *cand) bool {
		g, ok := goals[c]
		return ok && quickProve(s.pc, nil, g, x.c.Fuel, c.to())
	})
	// preservation fixpoint
	type bk struct {
		s   *State
		phi map[*ssa.Phi]Val
		g   map[*cand]*Term
	}
	hyp := map[*cand]*Term{}
	var l2 []*cand
	for _, c := range live {
		if t, ok := safeEval(c, hs, cur); ok {
			hyp[c] = t
			l2 = append(l2, c)
		}
	}
	live = l2
again:
	if lastDry.nested {
		// loops inside this one are analysed under the candidates of this one
		st := hs.clone()
		for _, c := range live {
			st.assume(hyp[c])
		}
		d := &dryRun{frame: f.id, header: b, base: lastDry.base, writes: map[int]map[int]bool{}, mats: map[*Term]types.Type{}, ghosts: map[string]bool{}, nested: true}
		x.runDry(d, st)
		lastDry = d
	}
	var bks []bk
	for _, bs := range lastDry.backs {
		bf := bs.top()
		ph := x.phiVals(bs, b, bf.block)
		k := bk{bs, ph, map[*cand]*Term{}}
		bks = append(bks, k)
	}
	nlive := len(live)
	l2 = nil
	for _, c := range live {
		good := true
		for _, k := range bks {
			g, ok := safeEval(c, k.s, k.phi)
			if !ok {
				good = false
				break
			}
			k.g[c] = g
		}
		if good {
			l2 = append(l2, c)
		}
	}
	live = l2
	// first drop what a model refutes: with wrong candidates among the hypotheses the
	// solvers answer slowly, and a slow answer must not cost a right candidate
	for {
		var hyps []*Term
		for _, c := range live {
			hyps = append(hyps, hyp[c])
		}
		next := checkAll(live, func(c *cand) bool {
			for _, k := range bks {
				if quickStatus(k.s.pc, hyps, k.g[c], x.c.Fuel, 1200*time.Millisecond, []string{"z3-new"}) == "sat" {
					return false
				}
			}
			return true
		})
		if len(next) == len(live) {
			break
		}
		live = next
	}
	for {
		var hyps []*Term
		for _, c := range live {
			hyps = append(hyps, hyp[c])
		}
		next := checkAll(live, func(c *cand) bool {
			for _, k := range bks {
				if !quickProve(k.s.pc, hyps, k.g[c], x.c.Fuel, c.to()) {
					return false
				}
			}
			return true
		})
		if len(next) == len(live) {
			break
		}
		live = next
	}
	if lastDry.nested && len(live) < nlive {
		goto again
	}
	if os.Getenv("GVC_LOOP") != "" {
		fmt.Fprintf(os.Stderr, "loop b%d of %s (mods %v): %d candidates, kept:\n", b.Index, f.fn.Name(), mod, len(cands))
		for _, c := range live {
			fmt.Fprintf(os.Stderr, "   %s\n", c.name)
		}
		if os.Getenv("GVC_LOOP") == "2" {
			for _, c := range cands {
				fmt.Fprintf(os.Stderr, "   cand %s\n", c.name)
			}
		}
	}
	// final: record init obligations, continue from the havocked state with the invariants
	if len(x.dry) == 0 {
		for _, c := range live {
			x.emit(s, "loop-init", loopLabel(f, b, c), goals[c])
		}
	}
	for _, c := range live {
		hs.assume(hyp[c])
	}
	hf.inv[b] = &invInfo{cands: live}
	x.work = append(x.work, hs)
	s.dead = true
}

func loopLabel(f *Frame, b *ssa.BasicBlock, c *cand) string {
	return f.fn.Name() + "/" + c.name
}

func safeEval(c *cand, s *State, phi map[*ssa.Phi]Val) (t *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("GVC_LOOP") == "2" {
				fmt.Fprintf(os.Stderr, "cand %s: %v\n", c.name, r)
			}
			t, ok = nil, false
		}
	}()
	return c.eval(s, phi), true
}

func (x *Exec) backEdge(s *State, f *Frame, b *ssa.BasicBlock, inv *invInfo) {
	for i := len(x.dry) - 1; i >= 0; i-- {
		d := x.dry[i]
		if d.frame == f.id && d.header == b {
			d.backs = append(d.backs, s.clone())
			return
		}
	}
	if len(x.dry) > 0 {
		return
	}
	phi := x.phiVals(s, b, f.block)
	for _, c := range inv.cands {
		g, ok := safeEval(c, s, phi)
		if !ok {
			panic(unsupported("invariant " + c.name + " cannot be evaluated"))
		}
		x.emit(s, "loop-inv", loopLabel(f, b, c), g)
	}
}

func (x *Exec) havocLoop(s *State, phis []*ssa.Phi, mod map[int]map[int]bool, gm map[string]bool, init map[*ssa.Phi]Val) {
	f := s.top()
	for id, m := range mod {
		o := s.obj(id)
		if m[-1] {
			switch v := o.V.(type) {
			case *Term:
				if strings.HasPrefix(v.sort, "(Seq ") && isSliceLike(o.T) {
					r := Fresh("loop", v.sort)
					s.assume(Eq(SeqLen(r), SeqLen(v)))
					s.assumeElemRange(elemType(o.T), r)
					s.setObj(id, r)
					continue
				}
				if isMapSort(v.sort) {
					r := Fresh("loopmap", v.sort)
					s.assume(Not(mapNil(r)))
					s.setObj(id, r)
					continue
				}
				if it := s.iters[id]; it != nil {
					r := Fresh("iter", "Int")
					s.assume(And(Le(Int(0), r)))
					s.setObj(id, r)
					continue
				}
				s.setObj(id, s.havoc(o.T, "loop"))
			case *ArrayV:
				n := &ArrayV{ET: v.ET}
				for range v.E {
					n.E = append(n.E, s.havoc(v.ET, "loop"))
				}
				s.setObj(id, n)
			default:
				s.setObj(id, s.havoc(o.T, "loop"))
			}
			continue
		}
		sv, ok := o.V.(*StructV)
		if !ok {
			s.setObj(id, s.havoc(o.T, "loop"))
			continue
		}
		n := &StructV{T: sv.T, F: append([]Val(nil), sv.F...)}
		u := sv.T.Underlying().(*types.Struct)
		for k := range m {
			n.F[k] = s.havoc(u.Field(k).Type(), "loop."+u.Field(k).Name())
		}
		s.setObj(id, n)
	}
	for g := range gm {
		s.ghost[g] = Fresh("ghost."+g, ghostSort(g))
	}
	for _, p := range phis {
		iv := init[p]
		// pointers that never change identity keep it
		if allSame(p) {
			f.env[p] = iv
			continue
		}
		f.env[p] = s.havoc(p.Type(), "phi")
	}
}

func allSame(p *ssa.Phi) bool {
	n := 0
	for _, e := range p.Edges {
		if e != ssa.Value(p) {
			n++
		}
	}
	return n == 1
}

func isSliceLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Array:
		return true
	}
	return false
}

var sortToPtr = map[string]*types.Pointer{}

func ptrTypeOfSort(so string) *types.Pointer {
	if p, ok := sortToPtr[so]; ok {
		return p
	}
	name := strings.TrimSuffix(strings.TrimPrefix(so, "P<"), ">")
	if t := parseType(name); t != nil {
		p := types.NewPointer(t)
		sortToPtr[so] = p
		return p
	}
	return nil
}

// ---------- candidates ----------

type binding struct {
	name string
	get  func(s *State, phi map[*ssa.Phi]Val) *Term
}

func (x *Exec) candidates(s, hs *State, f *Frame, b *ssa.BasicBlock, l *Loop, phis []*ssa.Phi, init map[*ssa.Phi]Val, mod map[int]map[int]bool) []*cand {
	var out []*cand
	seen := map[string]bool{}
	add := func(c *cand) {
		if !seen[c.name] {
			seen[c.name] = true
			out = append(out, c)
		}
	}
	phiTerm := func(p *ssa.Phi) func(s *State, m map[*ssa.Phi]Val) *Term {
		return func(s *State, m map[*ssa.Phi]Val) *Term {
			v := m[p]
			if t, ok := v.(*Term); ok {
				return t
			}
			return s.fold(p.Type(), v)
		}
	}
	phiName := func(p *ssa.Phi) string {
		if p.Comment != "" {
			return p.Comment
		}
		return p.Name()
	}
	// loop-invariant bound expressions compared with phis
	type bnd struct {
		name string
		t    *Term
	}
	var bounds []bnd
	env := f.env
	constOut := func(v ssa.Value) (*Term, bool) {
		switch c := v.(type) {
		case *ssa.Const:
			if t, ok := x.constVal(s, c).(*Term); ok && t.sort == "Int" {
				return t, true
			}
			return nil, false
		}
		if in, ok := v.(ssa.Instruction); ok && l.blocks[in.Block()] {
			// len(x) with x outside, computed in the loop
			if c, ok := v.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					a := c.Call.Args[0]
					if ai, ok := a.(ssa.Instruction); ok && l.blocks[ai.Block()] {
						return nil, false
					}
					if av, ok := env[a]; ok {
						if sv, ok := av.(*SliceV); ok {
							return s.sliceLen(sv), true
						}
					}
				}
			}
			return nil, false
		}
		if ev, ok := env[v]; ok {
			if t, ok := ev.(*Term); ok && t.sort == "Int" {
				return t, true
			}
		}
		return nil, false
	}
	for blk := range l.blocks {
		for _, in := range blk.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok {
				switch bo.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
					for _, v := range []ssa.Value{bo.X, bo.Y} {
						if t, ok := constOut(v); ok {
							bounds = append(bounds, bnd{t.smt(), t})
						}
					}
				}
			}
		}
	}
	bounds = append(bounds, bnd{"0", Int(0)})
	for _, p := range phis {
		so := sortOf(p.Type())
		pt := phiTerm(p)
		nm := phiName(p)
		switch so {
		case "Int":
			if it, ok := init[p].(*Term); ok {
				add(&cand{name: nm + ">=init", eval: func(s *State, m map[*ssa.Phi]Val) *Term { return Le(it, pt(s, m)) }})
				add(&cand{name: nm + "<=init", eval: func(s *State, m map[*ssa.Phi]Val) *Term { return Le(pt(s, m), it) }})
			}
			ty := p.Type()
			add(&cand{name: nm + " in range", eval: func(s *State, m map[*ssa.Phi]Val) *Term { return inRange(pt(s, m), ty) }})
			for _, bd := range bounds {
				bt := bd.t
				add(&cand{name: nm + "<=" + bd.name, eval: func(s *State, m map[*ssa.Phi]Val) *Term { return Le(pt(s, m), bt) }})
				add(&cand{name: nm + "<" + bd.name, eval: func(s *State, m map[*ssa.Phi]Val) *Term { return Lt(pt(s, m), bt) }})
				add(&cand{name: nm + ">=" + bd.name, eval: func(s *State, m map[*ssa.Phi]Val) *Term { return Le(bt, pt(s, m)) }})
				add(&cand{name: nm + ">" + bd.name, eval: func(s *State, m map[*ssa.Phi]Val) *Term { return Lt(bt, pt(s, m)) }})
				add(&cand{name: nm + "<=" + bd.name + "+1", eval: func(s *State, m map[*ssa.Phi]Val) *Term { return Le(pt(s, m), Add(bt, Int(1))) }})
			}
			// differences between int phis
			for _, q := range phis {
				if q != p && sortOf(q.Type()) == "Int" {
					qt := phiTerm(q)
					ip, ok1 := init[p].(*Term)
					iq, ok2 := init[q].(*Term)
					if ok1 && ok2 && p.Name() < q.Name() {
						add(&cand{name: nm + "-" + phiName(q) + " const", eval: func(s *State, m map[*ssa.Phi]Val) *Term {
							return Eq(Sub(pt(s, m), qt(s, m)), Sub(ip, iq))
						}})
						add(&cand{name: nm + "+" + phiName(q) + " const", eval: func(s *State, m map[*ssa.Phi]Val) *Term {
							return Eq(Add(pt(s, m), qt(s, m)), Add(ip, iq))
						}})
					}
					add(&cand{name: nm + "<=" + phiName(q), eval: func(s *State, m map[*ssa.Phi]Val) *Term { return Le(pt(s, m), qt(s, m)) }})
					add(&cand{name: nm + "<" + phiName(q), eval: func(s *State, m map[*ssa.Phi]Val) *Term { return Lt(pt(s, m), qt(s, m)) }})
				}
			}
		case "Bool":
			if it, ok := init[p].(*Term); ok {
				add(&cand{name: nm + "==init", eval: func(s *State, m map[*ssa.Phi]Val) *Term { return Eq(pt(s, m), it) }})
			}
		default:
			if isSliceSort(so) || strings.HasPrefix(so, "P<") || so == "Ifc" || so == "Ext" {
				add(&cand{name: nm + "!=nil", eval: func(s *State, m map[*ssa.Phi]Val) *Term { return Not(x.nilTerm(s, m[p])) }})
				add(&cand{name: nm + "==nil", eval: func(s *State, m map[*ssa.Phi]Val) *Term { return x.nilTerm(s, m[p]) }})
				iv := init[p]
				it := s.fold(p.Type(), iv)
				add(&cand{name: nm + "==init", eval: func(s *State, m map[*ssa.Phi]Val) *Term { return Eq(s.fold(p.Type(), m[p]), it) }})
			}
			if isSliceSort(so) {
				// length relations
				for _, bd := range bounds {
					bt := bd.t
					add(&cand{name: "len(" + nm + ")<=" + bd.name, eval: func(s *State, m map[*ssa.Phi]Val) *Term { return Le(SeqLen(asSeq(pt(s, m))), bt) }})
				}
				for _, q := range phis {
					if sortOf(q.Type()) == "Int" {
						qt := phiTerm(q)
						iq, ok := init[q].(*Term)
						if ok {
							il := SeqLen(asSeq(s.fold(p.Type(), init[p])))
							add(&cand{name: "len(" + nm + ")-" + phiName(q) + " const", eval: func(s *State, m map[*ssa.Phi]Val) *Term {
								return Eq(Sub(SeqLen(asSeq(pt(s, m))), qt(s, m)), Sub(il, iq))
							}})
							add(&cand{name: "len(" + nm + ")+" + phiName(q) + " const", eval: func(s *State, m map[*ssa.Phi]Val) *Term {
								return Eq(Add(SeqLen(asSeq(pt(s, m))), qt(s, m)), Add(il, iq))
							}})
						}
					}
				}
			}
			if so == "(Seq Int)" || isSliceSort(so) {
			}
		}
	}
	// templates
	conts := []*Contract{x.c}
	if fc := contracts[fnKey(f.fn)]; fc != nil && fc != x.c {
		conts = append(conts, fc)
	}
	pool := x.bindPool(s, f, b, l, phis, mod)
	for _, ct := range conts {
		for ti, tm := range ct.Loops {
			x.instTemplates(tm, ti, pool, ct, f, add)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return false })
	return out
}

type poolVar struct {
	typ  string
	name string
	get  func(s *State, phi map[*ssa.Phi]Val) *Term
}

func (x *Exec) bindPool(s *State, f *Frame, b *ssa.BasicBlock, l *Loop, phis []*ssa.Phi, mod map[int]map[int]bool) []poolVar {
	var pool []poolVar
	for _, p := range phis {
		p := p
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		g := func(s *State, m map[*ssa.Phi]Val) *Term { return s.fold(p.Type(), m[p]) }
		ty := shortType(p.Type())
		pool = append(pool, poolVar{ty, nm, g})
		if sortOf(p.Type()) == "Int" {
			pool = append(pool, poolVar{ty, nm + "+1", func(s *State, m map[*ssa.Phi]Val) *Term { return Add(g(s, m), Int(1)) }})
		}
	}
	// integer constants the loop works with ("const")
	consts := map[string]bool{}
	addConst := func(t *Term) {
		if t.isInt() && t.ival.BitLen() > 1 && !consts[t.smt()] {
			consts[t.smt()] = true
			pool = append(pool, poolVar{"const", t.smt(), func(s *State, m map[*ssa.Phi]Val) *Term { return t }})
		}
	}
	for _, blk := range f.fn.Blocks {
		if !l.blocks[blk] {
			continue
		}
		for _, in := range blk.Instrs {
			for _, op := range in.Operands(nil) {
				switch v := (*op).(type) {
				case *ssa.Const:
					if v.Value != nil && isInteger(v.Type()) {
						if t, ok := x.constVal(s, v).(*Term); ok {
							addConst(t)
						}
					}
				case *ssa.Global:
					if u, ok := in.(*ssa.UnOp); ok && isInteger(u.Type()) {
						if t, ok := x.loadGlobal(s, v).(*Term); ok {
							addConst(t)
						}
					}
				}
			}
		}
	}
	// integers computed before the loop ("outer")
	var ov []ssa.Value
	for v := range f.env {
		if in, ok := v.(ssa.Instruction); ok && (l.blocks[in.Block()] || !in.Block().Dominates(b)) {
			continue
		}
		if _, isC := v.(*ssa.Const); isC || !isInteger(v.Type()) {
			continue
		}
		if t, ok := f.env[v].(*Term); ok && !t.isInt() {
			ov = append(ov, v)
		}
	}
	sort.Slice(ov, func(i, j int) bool { return ov[i].Name() < ov[j].Name() })
	for _, v := range ov {
		t := f.env[v].(*Term)
		pool = append(pool, poolVar{"outer", v.Name(), func(s *State, m map[*ssa.Phi]Val) *Term { return t }})
	}
	// slices computed before the loop and left alone by it ("outer:T")
	var os []ssa.Value
	for v := range f.env {
		if in, ok := v.(ssa.Instruction); ok && (l.blocks[in.Block()] || !in.Block().Dominates(b)) {
			continue
		}
		if _, isC := v.(*ssa.Const); isC {
			continue
		}
		if w, ok := f.env[v].(*SliceV); ok && (w.Obj == 0 || mod[w.Obj] == nil) {
			os = append(os, v)
		}
	}
	sort.Slice(os, func(i, j int) bool { return os[i].Name() < os[j].Name() })
	for _, v := range os {
		v, val := v, f.env[v]
		pool = append(pool, poolVar{"outer:" + shortType(v.Type()), v.Name(), func(s *State, m map[*ssa.Phi]Val) *Term { return s.fold(v.Type(), val) }})
	}
	// objects changed by the loop and visible through dominating values
	used := map[string]bool{}
	var vs []ssa.Value
	for v := range f.env {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	for _, v := range vs {
		v := v
		val := f.env[v]
		if in, ok := v.(ssa.Instruction); ok {
			if l.blocks[in.Block()] || !in.Block().Dominates(b) {
				continue
			}
		}
		switch w := val.(type) {
		case *SliceV:
			if w.Obj != 0 && mod[w.Obj] != nil {
				pool = append(pool, poolVar{shortType(v.Type()), v.Name(), func(s *State, m map[*ssa.Phi]Val) *Term { return s.fold(v.Type(), val) }})
			} else if w.Obj == 0 {
				if id, ok := s.mat[w.Data]; ok && mod[id] != nil {
					pool = append(pool, poolVar{shortType(v.Type()), v.Name(), func(s *State, m map[*ssa.Phi]Val) *Term { return s.fold(v.Type(), val) }})
				}
			}
		case *PtrV:
			if w.Obj != 0 && mod[w.Obj] != nil {
				k := fmt.Sprint(w.Obj, w.Path)
				if used[k] {
					continue
				}
				used[k] = true
				pool = append(pool, poolVar{shortType(w.ET), "*" + v.Name(), func(s *State, m map[*ssa.Phi]Val) *Term {
					return s.fold(w.ET, s.loadElemPath(s.obj(w.Obj), s.obj(w.Obj).V, w.Path))
				}})
				pool = append(pool, poolVar{"*" + shortType(w.ET), v.Name(), func(s *State, m map[*ssa.Phi]Val) *Term {
					return s.fold(v.Type(), w)
				}})
			}
		case *SymPtr:
			if id := s.mat[w.t]; id != 0 && mod[id] != nil {
				pool = append(pool, poolVar{shortType(v.Type()), v.Name(), func(s *State, m map[*ssa.Phi]Val) *Term { return s.fold(v.Type(), w) }})
			}
		case *IterV:
			if mod[w.Obj] != nil {
				pool = append(pool, poolVar{"int", "position in the map", func(s *State, m map[*ssa.Phi]Val) *Term { return s.obj(w.Obj).V.(*Term) }})
				pool = append(pool, poolVar{"keys", "keys of the map", func(s *State, m map[*ssa.Phi]Val) *Term { return s.iters[w.Obj].keys }})
			}
		case *MapV:
			if mod[w.Obj] != nil {
				pool = append(pool, poolVar{shortType(v.Type()), v.Name(), func(s *State, m map[*ssa.Phi]Val) *Term { return s.fold(v.Type(), w) }})
			}
		}
	}
	return pool
}

func (x *Exec) instTemplates(tm *LoopTmpl, ti int, pool []poolVar, ct *Contract, f *Frame, add func(*cand)) {
	var rec func(k int, bs []poolVar)
	rec = func(k int, bs []poolVar) {
		if k == len(tm.Vars) {
			bs := append([]poolVar(nil), bs...)
			var nm []string
			for i, v := range tm.Vars {
				nm = append(nm, v.Name+"="+bs[i].name)
			}
			add(&cand{name: fmt.Sprintf("T%d[%s]", ti+1, strings.Join(nm, ",")), tmpl: true, eval: func(s *State, phi map[*ssa.Phi]Val) *Term {
				vars := map[string]*Term{}
				// parameters of the contract's function: current values
				root := s.frames[0]
				if ct == x.c {
					for i, p := range x.fn.Params {
						if v, ok := root.env[p]; ok && ct.Params[i] != "_" {
							vars[ct.Params[i]] = s.fold(p.Type(), v)
						}
					}
				} else {
					fr := s.top()
					for i, p := range fr.fn.Params {
						if v, ok := fr.env[p]; ok && i < len(ct.Params) {
							vars[ct.Params[i]] = s.fold(p.Type(), v)
						}
					}
				}
				for g, t := range s.ghost {
					vars["ghost_"+g] = t
				}
				for i, v := range tm.Vars {
					vars[v.Name] = bs[i].get(s, phi)
				}
				old := x.pre
				if ct != x.c {
					old = vars
				}
				return (&specEnv{vars, old}).eval(tm.E)
			}})
			return
		}
		for _, p := range pool {
			if p.typ != tm.Vars[k].Type {
				continue
			}
			dup := false
			for _, q := range bs {
				if q.name == p.name {
					dup = true
				}
			}
			if dup {
				continue
			}
			rec(k+1, append(bs, p))
		}
	}
	rec(0, nil)
}
