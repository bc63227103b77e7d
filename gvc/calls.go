package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) callTarget(s *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(s, a))
	}
	if c.IsInvoke() {
		return x.val(s, c.Value), args
	}
	return x.val(s, c.Value), args
}

func (x *Exec) call(s *State, f *Frame, i *ssa.Call, c *ssa.CallCommon) {
	fn, args := x.callTarget(s, c)
	x.doCall(s, f, i, c, fn, args, true)
}

// doCall performs a call. adv: advance the caller's pc when done (false for deferred calls).
func (x *Exec) doCall(s *State, f *Frame, dst ssa.Value, c *ssa.CallCommon, fv Val, args []Val, adv bool) {
	fin := func(v Val) {
		if s.dead {
			return
		}
		if dst != nil {
			f.env[dst] = v
		}
		if adv {
			f.pc++
		}
	}
	sig := c.Signature()
	if c.IsInvoke() {
		switch iv := fv.(type) {
		case *IfaceV:
			if iv.T == nil {
				x.require(s, "safe", "nil-deref", False)
				s.dead = true
				return
			}
			m := eng.prog.LookupMethod(iv.T, c.Method.Pkg(), c.Method.Name())
			if m != nil {
				x.callFn(s, f, dst, adv, m, append([]Val{iv.V}, args...), fin)
				return
			}
			key := "(" + shortType(iv.T) + ")." + c.Method.Name()
			if ct := contracts[key]; ct != nil {
				x.applyContract(s, ct, sig, append([]Val{iv.V}, args...), append([]types.Type{iv.T}, argTypes(c)...), fin)
				return
			}
			x.havocCall(s, key, sig, args, argTypes(c), fin)
			return
		case *SymIfc:
			key := "(" + shortType(c.Value.Type()) + ")." + c.Method.Name()
			ct := contracts[key]
			if ct == nil {
				// a method of an embedded interface may carry the contract
				if rv := c.Method.Type().(*types.Signature).Recv(); rv != nil {
					ct = contracts["("+shortType(rv.Type())+")."+c.Method.Name()]
				}
			}
			if !noNilCheck(key) {
				x.require(s, "safe", "nil-deref", Not(Eq(iv.t, ifcNil)))
			}
			if s.dead {
				return
			}
			if ct != nil {
				x.applyContract(s, ct, sig, append([]Val{iv}, args...), append([]types.Type{c.Value.Type()}, argTypes(c)...), fin)
				return
			}
			x.havocCall(s, key, sig, args, argTypes(c), fin)
			return
		}
		panic(fmt.Sprintf("invoke on %T", fv))
	}
	switch t := fv.(type) {
	case *ssa.Builtin:
		x.builtin(s, f, t, c, args, fin)
	case *FuncV:
		if len(t.Bind) > 0 || t.Fn.Parent() != nil {
			x.inline(s, f, dst, adv, t.Fn, args, t.Bind)
			return
		}
		x.callFn(s, f, dst, adv, t.Fn, args, fin)
	case *SymFn:
		x.require(s, "safe", "nil-deref", Not(Eq(t.t, Const("fn.nil", "Fn"))))
		key := fnValueKey(c.Value.Type().Underlying().(*types.Signature))
		if ct := contracts[key]; ct != nil {
			x.applyContract(s, ct, sig, append([]Val{t}, args...), append([]types.Type{c.Value.Type()}, argTypes(c)...), fin)
			return
		}
		x.havocCall(s, "func value", sig, args, argTypes(c), fin)
	default:
		panic(fmt.Sprintf("call of %T", fv))
	}
}

// fnValueKey: the contract key of calls through a function value of this type, e.g. fnvalue:[][]byte->[]byte
func fnValueKey(sig *types.Signature) string {
	var ps, rs []string
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, shortType(sig.Params().At(i).Type()))
	}
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, shortType(sig.Results().At(i).Type()))
	}
	return "fnvalue:" + strings.Join(ps, ",") + "->" + strings.Join(rs, ",")
}

func argTypes(c *ssa.CallCommon) []types.Type {
	var ts []types.Type
	for _, a := range c.Args {
		ts = append(ts, a.Type())
	}
	return ts
}

func noNilCheck(key string) bool {
	return strings.Contains(key, "common/log.Logger")
}

func (x *Exec) callFn(s *State, f *Frame, dst ssa.Value, adv bool, fn *ssa.Function, args []Val, fin func(Val)) {
	// method wrappers / thunks
	key := fnKey(fn)
	var ats []types.Type
	for _, p := range fn.Params {
		ats = append(ats, p.Type())
	}
	if len(ats) != len(args) { // external function without body: Params empty
		ats = nil
		if r := fn.Signature.Recv(); r != nil {
			ats = append(ats, r.Type())
		}
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			ats = append(ats, fn.Signature.Params().At(i).Type())
		}
	}
	if st, ok := stubs[key]; ok {
		v, handled := st(x, s, args, ats)
		if handled {
			fin(v)
			return
		}
	}
	if fn.Synthetic != "" && len(fn.Blocks) > 0 && contracts[key] == nil {
		x.inline(s, f, dst, adv, fn, args, nil)
		return
	}
	if ct := contracts[key]; ct != nil {
		x.applyContract(s, ct, fn.Signature, args, ats, fin)
		return
	}
	if isLogging(key) {
		fin(s.havoc(resultType(fn.Signature), "log"))
		return
	}
	if inModule(fn) && len(fn.Blocks) > 0 {
		rec := 0
		for _, fr := range s.frames {
			if fr.fn == fn {
				rec++
			}
		}
		if rec > 0 {
			panic(unsupported("recursive function without contract: " + key))
		}
		if len(s.frames) > 10 {
			panic(unsupported("inlining too deep at " + key))
		}
		x.inl[key] = true
		inlinedAll[key] = true
		x.inline(s, f, dst, adv, fn, args, nil)
		return
	}
	x.havocCall(s, key, fn.Signature, args, ats, fin)
}

func isLogging(key string) bool {
	return strings.HasPrefix(key, "common/log.") || strings.HasPrefix(key, "(common/log.") || strings.HasPrefix(key, "(*common/log.") || strings.HasPrefix(key, "log.") || strings.HasPrefix(key, "(*log.")
}

func (x *Exec) inline(s *State, f *Frame, dst ssa.Value, adv bool, fn *ssa.Function, args []Val, bind []Val) {
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body for " + fnKey(fn)))
	}
	nf := x.newFrame(fn)
	for i, p := range fn.Params {
		nf.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		nf.env[fv] = bind[i]
	}
	nf.block = fn.Blocks[0]
	nf.call = dst
	nf.adv = adv && dst == nil
	if !adv {
		nf.call = nil
	}
	s.frames = append(s.frames, nf)
}

func resultType(sig *types.Signature) types.Type {
	if sig.Results().Len() == 1 {
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func (x *Exec) havocCall(s *State, key string, sig *types.Signature, args []Val, ats []types.Type, fin func(Val)) {
	eng.note("call to " + key + ": result arbitrary, only directly passed objects may change")
	for k, a := range args {
		x.havocArg(s, a, ats[k])
	}
	fin(s.havoc(resultType(sig), "ret"))
}

func (x *Exec) havocArg(s *State, a Val, t types.Type) {
	switch v := a.(type) {
	case *PtrV:
		if v.Obj != 0 {
			x.store(s, v, s.havoc(v.ET, "mod"))
		}
	case *SymPtr:
		if id := s.mat[v.t]; id != 0 {
			x.store(s, &PtrV{Obj: id, ET: v.T.Elem()}, s.havoc(v.T.Elem(), "mod"))
		}
	case *IfaceV:
		if v.T != nil {
			x.havocArg(s, v.V, v.T)
		}
	case *SliceV:
		if v.Obj != 0 && v.View == nil {
			o := s.obj(v.Obj)
			if !o.Frozen && sortOf(v.ET) == "Int" {
				x.writeSlice(s, v, func(n *Term) *Term {
					r := Fresh("mod", SeqSort(sortOf(v.ET)))
					s.assume(Eq(SeqLen(r), n))
					s.assume(isBytes(r))
					return r
				})
			}
		}
	}
}

// writeSlice replaces the content of an object-form slice.
func (x *Exec) writeSlice(s *State, v *SliceV, mkc func(n *Term) *Term) {
	if v.Obj == 0 {
		v = x.objSlice(s, v)
	}
	nd := mkc(v.Len)
	if v.View != nil {
		ar := x.load(s, v.View).(*ArrayV)
		back := s.fold(types.NewArray(ar.ET, int64(len(ar.E))), ar)
		n := Int(int64(len(ar.E)))
		full := SeqCat(SeqSub(back, Int(0), v.Off), nd, SeqSub(back, Add(v.Off, v.Len), n))
		s.assumeLenEq(full, n)
		x.store(s, v.View, s.unfold(types.NewArray(ar.ET, int64(len(ar.E))), full))
		return
	}
	o := s.obj(v.Obj)
	if o.Frozen {
		panic(unsupported("write to a captured slice"))
	}
	if o.from != nil && !ownedTerm(o.from) {
		panic(unsupported("write through a container element"))
	}
	x.recordWrite(s, v.Obj, nil)
	back := s.backing(v.Obj)
	n := s.backLen(v.Obj)
	full := SeqCat(SeqSub(back, Int(0), v.Off), nd, SeqSub(back, Add(v.Off, v.Len), n))
	if _, ok := o.V.(*ArrayV); ok {
		ln := n.ival.Int64()
		if SeqLen(full) == n {
			s.setObj(v.Obj, s.unfold(types.NewArray(v.ET, ln), full))
			return
		}
		if _, isArr := o.T.Underlying().(*types.Array); isArr {
			s.setObj(v.Obj, s.unfold(types.NewArray(v.ET, ln), full))
			return
		}
	}
	s.setObj(v.Obj, full)
}

func (s *State) assumeLenEq(t, n *Term) { s.assume(Eq(SeqLen(t), n)) }

// ---------- contracts at call sites ----------

func (x *Exec) applyContract(s *State, ct *Contract, sig *types.Signature, args []Val, ats []types.Type, fin func(Val)) {
	if len(ct.Params) != len(args) {
		panic(unsupported(fmt.Sprintf("contract %s names %d parameters, call has %d", ct.Func, len(ct.Params), len(args))))
	}
	pre := map[string]*Term{}
	for i, a := range args {
		if ct.Params[i] == "_" {
			continue
		}
		pre[ct.Params[i]] = s.fold(ats[i], a)
	}
	for g, t := range s.ghost {
		pre["ghost_"+g] = t
	}
	env := &specEnv{pre, pre}
	for k, r := range ct.Requires {
		lb := r.Label
		if lb == "" {
			lb = fmt.Sprintf("r%d", k+1)
		}
		x.require(s, "call", ct.Func+"/"+lb, env.eval(r.E))
		if s.dead {
			return
		}
	}
	if ct.Extern {
		eng.note("assumed contract: " + ct.Func + noteOf(ct))
	}
	if ct.NoRet {
		s.dead = true
		return
	}
	post := map[string]*Term{}
	for k, v := range pre {
		post[k] = v
	}
	for i, a := range args {
		n := ct.Params[i]
		if !hasStr(ct.Modifies, n) {
			continue
		}
		post[n] = x.havocMod(s, a, ats[i], n)
	}
	for _, mod := range ct.Modifies {
		if g := strings.TrimPrefix(mod, "ghost_"); g != mod {
			nt := Fresh("ghost."+g, ghostSort(g))
			s.ghost[g] = nt
			for _, d := range x.dry {
				d.ghosts[g] = true
			}
			post["ghost_"+g] = nt
		}
	}
	res := sig.Results()
	if len(ct.Results) != res.Len() {
		panic(unsupported(fmt.Sprintf("contract %s names %d results, call has %d", ct.Func, len(ct.Results), res.Len())))
	}
	var rts []*Term
	for k := 0; k < res.Len(); k++ {
		rt := Fresh("r."+lastName(ct.Func), sortOf(res.At(k).Type()))
		rts = append(rts, rt)
		post[ct.Results[k]] = rt
	}
	penv := &specEnv{post, pre}
	for _, l := range ct.Lets {
		post[l.Label] = penv.eval(l.E)
	}
	var facts []*Term
	dom := True
	for _, d := range ct.Domain {
		dom = And(dom, env.eval(d.E))
	}
	if dom != True && x.provable(s, dom) {
		dom = True
	}
	for _, e := range ct.Ensures {
		g := Implies(dom, penv.eval(e.E))
		if g.op == "and" && g.kind == kApp {
			facts = append(facts, g.args...)
		} else {
			facts = append(facts, g)
		}
	}
	// direct definitions r == T are substituted
	sub := map[*Term]*Term{}
	for _, g := range facts {
		if g.op != "=" || len(g.args) != 2 {
			continue
		}
		for _, p := range [][2]*Term{{g.args[0], g.args[1]}, {g.args[1], g.args[0]}} {
			for _, rt := range rts {
				if p[0] == rt && !containsAny(p[1], rts) {
					if sub[rt] == nil {
						sub[rt] = p[1]
					}
				}
				if isSliceSort(rt.sort) && p[0] == slData(rt) && !containsAny(p[1], rts) {
					if sub[slData(rt)] == nil && sub[rt] == nil {
						sub[slData(rt)] = p[1]
					}
				}
			}
		}
	}
	var vals []Val
	for k := 0; k < res.Len(); k++ {
		rt := rts[k]
		if ct.Alias != nil {
			if pn, ok := ct.Alias[ct.Results[k]]; ok {
				for i, n := range ct.Params {
					if n == pn {
						vals = append(vals, args[i])
						sub[rt] = post[n]
					}
				}
				continue
			}
		}
		if d := sub[rt]; d != nil {
			rt = d
		} else if isSliceSort(rt.sort) && sub[slData(rt)] != nil {
			rt = slMk(slNil(rt), sub[slData(rt)])
		}
		vals = append(vals, s.unfold(res.At(k).Type(), rt))
	}
	for _, g := range facts {
		if len(sub) > 0 {
			g = subst(g, sub)
		}
		s.assume(g)
	}
	if s.dead {
		return
	}
	if len(vals) == 1 {
		fin(vals[0])
	} else {
		fin(TupleV(vals))
	}
}

func noteOf(c *Contract) string {
	if c.Note != "" {
		return " (" + c.Note + ")"
	}
	return ""
}

func lastName(k string) string {
	if i := strings.LastIndexByte(k, '.'); i >= 0 {
		return k[i+1:]
	}
	return k
}

func containsAny(t *Term, xs []*Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, x := range xs {
			if x == t {
				return true
			}
		}
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

func (x *Exec) havocMod(s *State, a Val, t types.Type, n string) *Term {
	switch v := a.(type) {
	case *PtrV, *SymPtr:
		if p, ok := v.(*PtrV); ok && p.Obj == 0 {
			return s.fold(t, a)
		}
		p := x.deref(s, v, "modify")
		ft := Fresh("post."+n, sortOf(p.ET))
		nv := s.unfold(p.ET, ft)
		if ov, ok := x.load(s, p).(*StructV); ok {
			// a call returns with the locks it found: each function is checked to release what it takes
			if sv, ok := nv.(*StructV); ok {
				u := sv.T.Underlying().(*types.Struct)
				for i := range sv.F {
					if k := typeKey(u.Field(i).Type()); k == "sync.Mutex" || k == "sync.RWMutex" {
						o1, k1 := ov.F[i].(*Term)
						n1, k2 := sv.F[i].(*Term)
						if k1 && k2 {
							s.assume(Eq(n1, o1))
						}
					}
				}
			}
		}
		x.store(s, p, nv)
		return s.fold(t, a)
	case *SliceV:
		x.writeSlice(s, v, func(n *Term) *Term {
			r := Fresh("mod", SeqSort(sortOf(v.ET)))
			s.assume(Eq(SeqLen(r), n))
			s.assumeElemRange(v.ET, r)
			return r
		})
		return s.fold(t, a)
	case *MapV, *SymMap:
		id := x.mapObj(s, v, t)
		x.recordWrite(s, id, nil)
		nm := Fresh("modmap", sortOf(t))
		s.assume(Not(mapNil(nm)))
		s.setObj(id, nm)
		return nm
	case *IfaceV:
		if v.T != nil {
			x.havocMod(s, v.V, v.T, n)
		}
		return s.fold(t, a)
	case *SymIfc:
		panic(unsupported("modifies on an abstract interface value"))
	}
	panic(unsupported(fmt.Sprintf("modifies %T", a)))
}

func (s *State) assumeElemRange(et types.Type, r *Term) {
	if b, ok := et.Underlying().(*types.Basic); ok && r.sort == "(Seq Int)" && intBits(b) == 8 {
		s.assume(isBytes(r))
	}
}

// ---------- builtins ----------

func (x *Exec) builtin(s *State, f *Frame, b *ssa.Builtin, c *ssa.CallCommon, args []Val, fin func(Val)) {
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case *Term:
			if v.sort == "Ext" {
				n := Fresh("chanlen", "Int")
				s.assume(Le(Int(0), n))
				fin(n)
				return
			}
			fin(SeqLen(v))
		case *SliceV:
			fin(s.sliceLen(v))
		case *ArrayV:
			fin(Int(int64(len(v.E))))
		case *MapV, *SymMap:
			m := x.mapTerm(s, v)
			n := mk("map.card<"+m.sort+">", "Int", m)
			s.assume(Le(Int(0), n))
			fin(n)
		case *PtrV:
			fin(Int(c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		default:
			panic(fmt.Sprintf("len %T", v))
		}
	case "cap":
		switch v := args[0].(type) {
		case *SliceV:
			if v.Obj != 0 {
				fin(v.Cap)
				return
			}
			n := capTerm(v.Data)
			s.assume(Le(SeqLen(v.Data), n))
			fin(n)
		default:
			n := Fresh("cap", "Int")
			s.assume(Le(Int(0), n))
			fin(n)
		}
	case "append":
		a := args[0].(*SliceV)
		var bd *Term
		var bnil *Term
		switch bv := args[1].(type) {
		case *SliceV:
			s.freezeElems(bv)
			bd = s.sliceData(bv)
			bnil = Eq(SeqLen(bd), Int(0))
		case *Term:
			bd = bv
			bnil = Eq(SeqLen(bd), Int(0))
		}
		s.freezeElems(a)
		ad := s.sliceData(a)
		nd := SeqCat(ad, bd)
		nilc := And(s.sliceNil(a), bnil)
		eng.note("append yields a fresh slice (in-place growth visible through other slices of the same array is not modelled)")
		if nilc == False || x.provable(s, Not(nilc)) {
			id := s.alloc(types.NewSlice(a.ET), nd, "append")
			cp := Const(fmt.Sprintf("cap!%d", id), "Int")
			s.assume(Le(SeqLen(nd), cp))
			fin(&SliceV{ET: a.ET, Obj: id, Off: Int(0), Len: SeqLen(nd), Cap: cp})
			return
		}
		fin(&SliceV{ET: a.ET, Data: nd, NilC: nilc})
	case "copy":
		d := args[0].(*SliceV)
		var sd *Term
		switch sv := args[1].(type) {
		case *SliceV:
			s.freezeElems(sv)
			sd = s.sliceData(sv)
		case *Term:
			sd = sv
		}
		dl, sl := s.sliceLen(d), SeqLen(sd)
		var n *Term
		switch {
		case x.provable(s, Le(sl, dl)):
			n = sl
		case x.provable(s, Le(dl, sl)):
			n = dl
		default:
			// fork on which is shorter
			s2 := s.clone()
			s2.assume(Lt(dl, sl))
			x.work = append(x.work, s2)
			s.assume(Le(sl, dl))
			n = sl
		}
		if n.isInt() && n.ival.Sign() == 0 {
			fin(n)
			return
		}
		if d.Obj == 0 {
			d = x.objSlice(s, d)
		}
		sub := *d
		sub.Len = n
		src := SeqSub(sd, Int(0), n)
		x.writeSlice(s, &sub, func(*Term) *Term { return src })
		fin(n)
	case "delete":
		m := x.mapTerm(s, args[0])
		mt := c.Args[0].Type().Underlying().(*types.Map)
		k := s.fold(mt.Key(), args[1])
		if isNilVal(args[0]) {
			fin(nil)
			return
		}
		id := x.mapObj(s, args[0], c.Args[0].Type())
		x.recordWrite(s, id, nil)
		s.setObj(id, mapMk(m.sort, False, Store(mapData(m), k, optNone(sortOf(mt.Elem())))))
		fin(nil)
	case "panic":
		x.require(s, "safe", "panic", False)
		s.dead = true
	case "print", "println", "close":
		fin(nil)
	case "recover":
		fin(&IfaceV{})
	case "ssa:wrapnilchk":
		fin(args[0])
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if b.Name() == "min" {
				r = Ite(Le(r, t), r, t)
			} else {
				r = Ite(Le(t, r), r, t)
			}
		}
		fin(r)
	default:
		panic(unsupported("builtin " + b.Name()))
	}
}

func (s *State) freezeElems(v *SliceV) {
	if v.Obj == 0 {
		return
	}
	if a, ok := s.obj(v.Obj).V.(*ArrayV); ok {
		for _, e := range a.E {
			s.freeze(a.ET, e, 0)
		}
	}
}

// ---------- globals ----------

func (x *Exec) global(s *State, g *ssa.Global) Val {
	id := x.globalObj(s, g)
	return &PtrV{Obj: id, ET: g.Type().Underlying().(*types.Pointer).Elem()}
}

func gName(g *ssa.Global) string { return pkgShort(g.Pkg.Pkg) + "." + g.Name() }

func (x *Exec) globalObj(s *State, g *ssa.Global) int {
	key := Const("glob:"+gName(g), "Glob")
	if id, ok := s.mat[key]; ok {
		return id
	}
	et := g.Type().Underlying().(*types.Pointer).Elem()
	v := x.globalInit(s, g, et)
	id := s.alloc(et, v, "global "+g.Name())
	s.store[id].pre = true
	s.store[id].from = key
	globs[key] = g
	s.mat[key] = id
	return id
}

// globs: the globals by their key
var globs = map[*Term]*ssa.Global{}

// materialiseIn gives a slice, map or global that a loop writes its object in the state before the loop
func (x *Exec) materialiseIn(s *State, t *Term, ot types.Type) bool {
	if g := globs[t]; g != nil {
		x.globalObj(s, g)
		return true
	}
	switch u := ot.Underlying().(type) {
	case *types.Slice:
		x.objSlice(s, &SliceV{ET: u.Elem(), Data: t, Off: Int(0), Len: SeqLen(t)})
		return true
	case *types.Map:
		id := s.alloc(ot, t, "map")
		s.store[id].from = t
		s.store[id].pre = true
		s.mat[t] = id
		return true
	}
	return false
}

func (x *Exec) loadGlobal(s *State, g *ssa.Global) Val {
	id := x.globalObj(s, g)
	return s.obj(id).V
}

// globalInit: value of a package variable that is only assigned in the package initialiser.
func (x *Exec) globalInit(s *State, g *ssa.Global, et types.Type) Val {
	if g.Name() == "init$guard" {
		return True
	}
	if gi, ok := globalConsts[gName(g)]; ok {
		return gi(x, s, et)
	}
	if _, ok := et.Underlying().(*types.Interface); ok {
		// errors.New style values: an opaque non-nil constant, distinct per variable
		t := Const("glob:"+gName(g), "Ifc")
		s.assume(Not(Eq(t, ifcNil)))
		s.assume(Eq(mk("ifc.glob", "Int", t), Int(globId(gName(g)))))
		eng.note("package variable " + gName(g) + " holds its initial, non-nil value")
		return s.unfold(et, t)
	}
	if inModulePkg(g.Pkg.Pkg) {
		if st, n := globalStores(g); n == 1 {
			if v, ok := x.evalInit(s, st.Val, 0); ok {
				eng.note("package variable " + gName(g) + " keeps the value given by its initialiser")
				return v
			}
		} else if n == 0 && !globalEscapes(g) {
			return zeroVal(et)
		}
	}
	eng.note("package variable " + gName(g) + " is treated as an arbitrary constant")
	t := Const("glob:"+gName(g), sortOf(et))
	if strings.HasPrefix(t.sort, "P<") || t.sort == "Ext" {
		s.assume(Not(ptrIsNil(t)))
	}
	return s.unfold(et, t)
}

func inModulePkg(p *types.Package) bool { return strings.HasPrefix(p.Path(), modPath) }

var globIds = map[string]int64{}

func globId(n string) int64 {
	if _, ok := globIds[n]; !ok {
		globIds[n] = int64(len(globIds) + 1)
	}
	return globIds[n]
}

func globalStores(g *ssa.Global) (*ssa.Store, int) {
	var st *ssa.Store
	n := 0
	for _, m := range pkgFuncs(g.Pkg) {
		for _, b := range m.Blocks {
			for _, in := range b.Instrs {
				if q, ok := in.(*ssa.Store); ok && q.Addr == ssa.Value(g) {
					st = q
					n++
				}
			}
		}
	}
	return st, n
}

// globalMapUpdated: does the package update the map held by g directly?
func globalMapUpdated(g *ssa.Global) bool {
	for _, m := range pkgFuncs(g.Pkg) {
		for _, b := range m.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.X == ssa.Value(g) {
					for _, r := range *u.Referrers() {
						switch r := r.(type) {
						case *ssa.MapUpdate:
							return true
						case *ssa.Call:
							if bi, ok := r.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

func globalEscapes(g *ssa.Global) bool {
	for _, m := range pkgFuncs(g.Pkg) {
		for _, b := range m.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(g) {
						if u, ok := in.(*ssa.UnOp); ok && u.X == ssa.Value(g) {
							continue
						}
						return true
					}
				}
			}
		}
	}
	return false
}

var pkgFnCache = map[*ssa.Package][]*ssa.Function{}

func pkgFuncs(p *ssa.Package) []*ssa.Function {
	if l, ok := pkgFnCache[p]; ok {
		return l
	}
	var out []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil {
			return
		}
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range p.Members {
		switch m := m.(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := eng.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					f := eng.prog.MethodValue(ms.At(i))
					if f != nil && f.Pkg == p {
						add(f)
					}
				}
			}
		}
	}
	pkgFnCache[p] = out
	return out
}

// evalInit evaluates simple initialiser expressions.
func (x *Exec) evalInit(s *State, v ssa.Value, d int) (Val, bool) {
	if d > 10 {
		return nil, false
	}
	switch i := v.(type) {
	case *ssa.Const:
		return x.constVal(s, i), true
	case *ssa.Function:
		return &FuncV{Fn: i}, true
	case *ssa.MakeInterface:
		if w, ok := x.evalInit(s, i.X, d+1); ok {
			return &IfaceV{T: i.X.Type(), V: w}, true
		}
	case *ssa.ChangeType:
		return x.evalInit(s, i.X, d+1)
	case *ssa.Convert:
		if fl, ok := evalFloat(i.X, 0); ok && isInteger(i.Type()) && fl == float64(int64(fl)) {
			return Int(int64(fl)), true
		}
		if c, ok := i.X.(*ssa.Const); ok {
			return x.convert(s, c, i.Type()), true
		}
	case *ssa.Call:
		fn := i.Common().StaticCallee()
		if fn == nil {
			return nil, false
		}
		if st, ok := stubs[fnKey(fn)]; ok {
			var as []Val
			var ts []types.Type
			for _, a := range i.Common().Args {
				w, ok := x.evalInit(s, a, d+1)
				if !ok {
					return nil, false
				}
				as = append(as, w)
				ts = append(ts, a.Type())
			}
			return st(x, s, as, ts)
		}
	case *ssa.MakeMap:
		// map literal: replay the updates of the initialiser
		mt := i.Type().Underlying().(*types.Map)
		ks, vs := mapKV(mt)
		data := ConstArray(ks, optNone(vs))
		for _, r := range *i.Referrers() {
			switch q := r.(type) {
			case *ssa.MapUpdate:
				k, ok := x.evalInit(s, q.Key, d+1)
				w, ok2 := x.evalInit(s, q.Value, d+1)
				if !ok || !ok2 || q.Map != ssa.Value(i) || q.Block() != i.Block() {
					return nil, false
				}
				data = Store(data, s.foldFreeze(mt.Key(), k), optSome(s.foldFreeze(mt.Elem(), w)))
			case *ssa.Store:
				g, ok := q.Addr.(*ssa.Global)
				if !ok || globalMapUpdated(g) {
					return nil, false
				}
			default:
				return nil, false
			}
		}
		id := s.alloc(i.Type(), mapMk(sortOf(i.Type()), False, data), "map")
		return &MapV{Obj: id, T: mt}, true
	case *ssa.Slice:
		if al, ok := i.X.(*ssa.Alloc); ok && i.Low == nil && i.High == nil {
			if w, ok := x.evalInit(s, al, d+1); ok {
				p := w.(*PtrV)
				at := p.ET.Underlying().(*types.Array)
				n := Int(at.Len())
				return &SliceV{ET: at.Elem(), Obj: p.Obj, Off: Int(0), Len: n, Cap: n}, true
			}
		}
	case *ssa.Alloc:
		// composite literal in init: replay the stores
		et := i.Type().Underlying().(*types.Pointer).Elem()
		id := s.alloc(et, zeroVal(et), "init")
		p := &PtrV{Obj: id, ET: et}
		for _, r := range *i.Referrers() {
			switch q := r.(type) {
			case *ssa.IndexAddr:
				c, ok := q.Index.(*ssa.Const)
				if !ok {
					return nil, false
				}
				for _, rr := range *q.Referrers() {
					st, ok := rr.(*ssa.Store)
					if !ok {
						return nil, false
					}
					w, ok := x.evalInit(s, st.Val, d+1)
					if !ok {
						return nil, false
					}
					o := s.obj(id)
					s.setObj(id, s.storePath(o.T, o.V, []sel{{idx: x.constVal(s, c).(*Term)}}, w))
				}
			case *ssa.FieldAddr:
				for _, rr := range *q.Referrers() {
					st, ok := rr.(*ssa.Store)
					if !ok {
						return nil, false
					}
					w, ok := x.evalInit(s, st.Val, d+1)
					if !ok {
						return nil, false
					}
					o := s.obj(id)
					s.setObj(id, s.storePath(o.T, o.V, []sel{{f: q.Field}}, w))
				}
			}
		}
		return p, true
	}
	return nil, false
}

var globalConsts = map[string]func(x *Exec, s *State, et types.Type) Val{}

var inlinedAll = map[string]bool{}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// evalFloat evaluates the floating point expressions found in package initialisers, as the program would.
func evalFloat(v ssa.Value, d int) (float64, bool) {
	b, ok := v.Type().Underlying().(*types.Basic)
	if !ok || b.Kind() != types.Float64 || d > 6 {
		return 0, false
	}
	switch i := v.(type) {
	case *ssa.Const:
		return i.Float64(), true
	case *ssa.Call:
		fn := i.Common().StaticCallee()
		if fn == nil || len(i.Common().Args) != 1 {
			return 0, false
		}
		a, ok := evalFloat(i.Common().Args[0], d+1)
		if !ok {
			return 0, false
		}
		switch fnKey(fn) {
		case "math.Ceil":
			return math.Ceil(a), true
		case "math.Floor":
			return math.Floor(a), true
		case "math.Round":
			return math.Round(a), true
		case "math.Trunc":
			return math.Trunc(a), true
		}
	case *ssa.BinOp:
		a, ok1 := evalFloat(i.X, d+1)
		c, ok2 := evalFloat(i.Y, d+1)
		if ok1 && ok2 {
			switch i.Op {
			case token.ADD:
				return a + c, true
			case token.SUB:
				return a - c, true
			case token.MUL:
				return a * c, true
			case token.QUO:
				return a / c, true
			}
		}
	}
	return 0, false
}
