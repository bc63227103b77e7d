package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Name  string
	Func  string
	Kind  string
	Label string
	Pos   string
	Hyps  []*Term
	Goal  *Term
	Props []string
	Fuel  int
	Hints []*Term
	TO    int
	Vac   bool // reachability guard: expect sat/unknown

	Status string // proved, refuted, unknown
	By     string
	Secs   float64
	Model  string
	File   string
	pre    []string
}

type loopKey struct {
	fn *ssa.Function
	b  int
}

type restart struct{ k loopKey }
type dropPath struct{}

type dryRun struct {
	nested bool
	frame  int // frame id of loop
	header *ssa.BasicBlock
	base   map[int]bool // objects existing at entry
	writes map[int]map[int]bool
	mats   map[*Term]types.Type // terms materialised then written
	ghosts map[string]bool
	backs  []*State
}

type Exec struct {
	c       *Contract
	fn      *ssa.Function
	key     string
	invMode map[loopKey]bool
	obls    []*Obl
	dry     []*dryRun
	work    []*State
	paths   int
	steps   int
	pre     map[string]*Term
	frameN  int
	inl     map[string]bool
	dones   int
	locks   map[string]bool
	retPC   [][]*Term
	retAt   []*ssa.Return
	fromSt  *State
}

// retPaths: path conditions of the returns reached, per function (for the vacuity check).
var retPaths = map[string][][]*Term{}
var retSites = map[string][]*ssa.Return{}
var retFns = map[string]*ssa.Function{}

func verifyFunc(c *Contract, fn *ssa.Function) (obls []*Obl, err error) {
	inv := map[loopKey]bool{}
	// every attempt numbers its names alike, so that what a restart repeats is answered from the solver cache
	n0, o0 := map[string]int{}, objSeq
	for k, v := range freshN {
		n0[k] = v
	}
	for try := 0; try < 12; try++ {
		freshN, objSeq = map[string]int{}, o0
		for k, v := range n0 {
			freshN[k] = v
		}
		x := &Exec{c: c, fn: fn, key: c.Func, invMode: inv, inl: map[string]bool{}}
		again, e := x.run()
		if e != nil {
			return x.obls, e
		}
		if !again {
			retPaths[c.Func] = x.retPC
			retSites[c.Func] = x.retAt
			retFns[c.Func] = fn
			return x.obls, nil
		}
	}
	return nil, fmt.Errorf("too many restarts")
}

func (x *Exec) run() (again bool, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case restart:
				x.invMode[r.k] = true
				again = true
				return
			case unsupportedErr:
				err = r
				if os.Getenv("GVC_TRACE") != "" {
					panic(r)
				}
				return
			}
			if os.Getenv("GVC_DEBUG") != "" {
				panic(r)
			}
			err = fmt.Errorf("engine: %v", r)
		}
	}()
	s := &State{store: map[int]*Object{}, mat: map[*Term]int{}, ghost: map[string]*Term{}, pcset: map[*Term]bool{}}
	f := x.newFrame(x.fn)
	if len(x.c.Params) != len(x.fn.Params) {
		return false, fmt.Errorf("contract for %s names %d parameters, function has %d", x.key, len(x.c.Params), len(x.fn.Params))
	}
	x.pre = map[string]*Term{}
	for i, p := range x.fn.Params {
		n := x.c.Params[i]
		t := Const(n, sortOf(p.Type()))
		x.pre[n] = t
		f.env[p] = s.unfold(p.Type(), t)
	}
	s.frames = []*Frame{f}
	for g := range ghostSorts {
		gt := Const("ghost."+g, ghostSort(g))
		s.ghost[g] = gt
		x.pre["ghost_"+g] = gt
	}
	env := &specEnv{x.pre, x.pre}
	for _, r := range x.c.Requires {
		s.assume(env.eval(r.E))
	}
	for _, r := range x.c.Domain {
		s.assume(env.eval(r.E))
		eng.note(x.key + " is verified for inputs satisfying: " + r.Src)
	}
	if len(x.fn.Blocks) == 0 {
		return false, fmt.Errorf("%s has no body", x.key)
	}
	f.block = x.fn.Blocks[0]
	x.work = []*State{s}
	x.loopWork()
	return false, nil
}

var ghostSorts = map[string]string{}

func ghostSort(g string) string {
	if s, ok := ghostSorts[g]; ok {
		return s
	}
	return "(Seq Int)"
}

func (x *Exec) newFrame(fn *ssa.Function) *Frame {
	x.frameN++
	return &Frame{id: x.frameN, fn: fn, env: map[ssa.Value]Val{}, visits: map[*ssa.BasicBlock]int{}, inv: map[*ssa.BasicBlock]*invInfo{}, symx: map[*ssa.BasicBlock]int{}}
}

func (x *Exec) maxPaths() int {
	if x.c.MaxPaths > 0 {
		return x.c.MaxPaths
	}
	return 3000
}

func (x *Exec) loopWork() {
	for len(x.work) > 0 {
		s := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.runState(s)
		x.paths++
		if x.paths > x.maxPaths() {
			panic(unsupported("too many paths"))
		}
	}
}

func (x *Exec) runState(s *State) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(dropPath); ok {
				return
			}
			panic(r)
		}
	}()
	if s.jump != nil {
		b := s.jump
		s.jump = nil
		x.goTo(s, s.top(), b)
	}
	for !s.dead && !s.done {
		x.steps++
		if x.steps > 400000 {
			panic(unsupported("step limit"))
		}
		f := s.top()
		in := f.block.Instrs[f.pc]
		x.fromSt = s
		if traceOn {
			fmt.Fprintf(os.Stderr, "[%d] %s b%d: %s\n", len(s.frames), f.fn.Name(), f.block.Index, in)
		}
		x.step(s, f, in)
	}
}

var traceOn = os.Getenv("GVC_STEP") != ""

func (x *Exec) posOf(s *State) string {
	f := s.top()
	if f.pc < len(f.block.Instrs) {
		p := eng.prog.Fset.Position(f.block.Instrs[f.pc].Pos())
		if p.IsValid() {
			return fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, repoDir+"/"), p.Line)
		}
	}
	return fnKey(f.fn)
}

// require emits an obligation and then assumes it.
func (x *Exec) require(s *State, kind, label string, goal *Term) {
	if goal == True || s.dead {
		return
	}
	if len(x.dry) == 0 && !s.pcset[goal] {
		if !(x.c.PanicsOK && kind == "safe") {
			x.emit(s, kind, label, goal)
		}
	}
	s.assume(goal)
	if goal == False {
		s.dead = true
	}
}

func (x *Exec) emit(s *State, kind, label string, goal *Term) {
	if goal.op == "and" && goal.kind == kApp {
		for _, a := range goal.args {
			x.emit(s, kind, label, a)
		}
		return
	}
	if s.pcset[goal] {
		if kind == "ensures" {
			x.emitTrivial(s, kind, label)
		}
		return
	}
	fname := x.key
	o := &Obl{Name: fname + "/" + kind + ":" + label, Func: x.key, Kind: kind, Label: label, Pos: x.posOf(s), Hyps: s.pc, Goal: goal, Props: x.c.Props, Fuel: x.c.Fuel, TO: x.c.Timeout}
	x.obls = append(x.obls, o)
}

// ---------- values ----------

func (x *Exec) val(s *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(s, v)
	case *ssa.Global:
		return x.global(s, v)
	case *ssa.Function:
		return &FuncV{Fn: v}
	case *ssa.Builtin:
		return v
	}
	f := s.top()
	if r, ok := f.env[v]; ok {
		return r
	}
	panic(fmt.Sprintf("no value for %s (%T) in %s", v.Name(), v, f.fn))
}

func (x *Exec) constVal(s *State, c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return seqOfBytes([]byte(constant.StringVal(c.Value)))
	case constant.Int:
		n, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		if sortOf(t) == "Real" {
			return realConst(c.Value)
		}
		return BigI(n)
	case constant.Float:
		if sortOf(t) == "Int" {
			n, _ := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			return BigI(n)
		}
		return realConst(c.Value)
	}
	return Const("ext.const", "Ext")
}

func realConst(v constant.Value) *Term {
	r := v.ExactString()
	if k := strings.IndexByte(r, '/'); k > 0 {
		return mk("/", "Real", Const(r[:k]+".0", "Real"), Const(r[k+1:]+".0", "Real"))
	}
	return Const(r+".0", "Real")
}

func (x *Exec) term(s *State, v ssa.Value) *Term {
	r := x.val(s, v)
	if t, ok := r.(*Term); ok {
		return t
	}
	return s.fold(v.Type(), r)
}

// deref yields a concrete pointer for v (emitting a nil-dereference obligation).
func (x *Exec) deref(s *State, v Val, what string) *PtrV {
	switch p := v.(type) {
	case *PtrV:
		if p.Obj == 0 {
			x.require(s, "safe", "nil-deref", False)
			panic(dropPath{})
		}
		if o := s.obj(p.Obj); o != nil && o.Stale {
			panic(unsupported("use of moved object"))
		}
		return p
	case *SymPtr:
		if id, ok := s.mat[p.t]; ok {
			if id == 0 {
				x.require(s, "safe", "nil-deref", False)
				panic(dropPath{})
			}
			return &PtrV{Obj: id, ET: p.T.Elem()}
		}
		x.require(s, "safe", "nil-deref", Not(ptrIsNil(p.t)))
		if s.dead {
			panic(dropPath{})
		}
		return s.materialise(p)
	case *Term:
		panic(unsupported("dereference of opaque pointer"))
	}
	panic(fmt.Sprintf("deref %T", v))
}

func (s *State) materialise(p *SymPtr) *PtrV {
	if id, ok := s.mat[p.t]; ok {
		return &PtrV{Obj: id, ET: p.T.Elem()}
	}
	id := s.alloc(p.T.Elem(), s.unfold(p.T.Elem(), ptrVal(p.t)), "mat")
	o := s.store[id]
	o.pre = true
	o.from = p.t
	s.mat[p.t] = id
	return &PtrV{Obj: id, ET: p.T.Elem()}
}

func ownedTerm(t *Term) bool {
	for len(t.args) > 0 {
		if len(t.args) != 1 {
			return false
		}
		if _, ok := selOf[t.op]; !ok {
			return false
		}
		t = t.args[0]
	}
	return true
}

func (x *Exec) load(s *State, p *PtrV) Val {
	o := s.obj(p.Obj)
	if o == nil {
		panic(fmt.Sprintf("no object %d", p.Obj))
	}
	if o.Stale {
		panic(unsupported("use of moved object"))
	}
	return s.loadElemPath(o, o.V, p.Path)
}

func (x *Exec) store(s *State, p *PtrV, v Val) {
	o := s.obj(p.Obj)
	if o.Frozen {
		panic(unsupported("write to an object already captured by value (" + o.name + ")"))
	}
	if o.from != nil && !ownedTerm(o.from) {
		panic(unsupported("write through a container element"))
	}
	x.recordWrite(s, p.Obj, p.Path)
	s.setObj(p.Obj, s.storePath(o.T, o.V, p.Path, v))
}

func (x *Exec) recordWrite(s *State, obj int, path []sel) {
	for _, d := range x.dry {
		if d.base[obj] {
			m := d.writes[obj]
			if m == nil {
				m = map[int]bool{}
				d.writes[obj] = m
			}
			k := -1
			if len(path) > 0 && path[0].idx == nil {
				k = path[0].f
			}
			m[k] = true
		} else if o := s.obj(obj); o != nil && o.from != nil {
			d.mats[o.from] = o.T
		}
	}
}

// slice in object form
func (x *Exec) objSlice(s *State, v *SliceV) *SliceV {
	if v.Obj != 0 {
		return v
	}
	if id, ok := s.mat[v.Data]; ok {
		return &SliceV{ET: v.ET, Obj: id, Off: Int(0), Len: SeqLen(s.obj(id).V.(*Term)), Cap: Const("cap!"+fmt.Sprint(id), "Int")}
	}
	id := s.alloc(types.NewSlice(v.ET), v.Data, "slice")
	o := s.store[id]
	o.from = v.Data
	o.pre = true
	s.mat[v.Data] = id
	ln := SeqLen(v.Data)
	cp := Const("cap!"+fmt.Sprint(id), "Int")
	s.assume(Le(ln, cp))
	return &SliceV{ET: v.ET, Obj: id, Off: Int(0), Len: ln, Cap: cp}
}

// ---------- step ----------

func (x *Exec) step(s *State, f *Frame, in ssa.Instruction) {
	set := func(v Val) {
		f.env[in.(ssa.Value)] = v
		f.pc++
	}
	switch i := in.(type) {
	case *ssa.DebugRef:
		f.pc++
	case *ssa.Alloc:
		et := i.Type().Underlying().(*types.Pointer).Elem()
		id := s.alloc(et, zeroVal(et), i.Comment)
		set(&PtrV{Obj: id, ET: et})
	case *ssa.Phi:
		panic("phi reached")
	case *ssa.BinOp:
		set(x.binop(s, i.Op, i.X, i.Y, i.Type()))
	case *ssa.UnOp:
		switch i.Op {
		case token.MUL:
			if ignoredField(i.X) {
				panic(unsupported("read of a field that is not modelled"))
			}
			if g, ok := i.X.(*ssa.Global); ok {
				set(x.loadGlobal(s, g))
				return
			}
			pv := x.val(s, i.X)
			if r, ok := pv.(*RoPtr); ok {
				set(r.V)
				return
			}
			if t, ok := pv.(*Term); ok {
				// opaque pointer: opaque value
				x.require(s, "safe", "nil-deref", Not(ptrIsNil(t)))
				set(s.unfold(i.Type(), mk("ext.load<"+shortType(i.Type())+">", sortOf(i.Type()), t)))
				return
			}
			p := x.deref(s, pv, "load")
			set(x.load(s, p))
		case token.NOT:
			set(Not(x.term(s, i.X)))
		case token.SUB:
			if sortOf(i.Type()) == "Real" {
				set(mk("-", "Real", x.term(s, i.X)))
				return
			}
			set(x.wrapArith(s, Neg(x.term(s, i.X)), i.Type()))
		case token.XOR:
			t := x.term(s, i.X)
			if isUnsigned(i.Type()) {
				_, hi, _ := intRange(i.Type())
				set(Sub(BigI(hi), t))
			} else {
				set(Sub(Int(-1), t))
			}
		case token.ARROW:
			if i.CommaOk {
				et := i.X.Type().Underlying().(*types.Chan).Elem()
				set(TupleV{s.havoc(et, "recv"), Fresh("recvok", "Bool")})
			} else {
				set(s.havoc(i.Type(), "recv"))
			}
			eng.note("channel receive yields an arbitrary value")
		default:
			panic(unsupported("unop " + i.Op.String()))
		}
	case *ssa.ChangeType:
		set(x.retype(s, x.val(s, i.X), i.Type()))
	case *ssa.ChangeInterface:
		set(x.val(s, i.X))
	case *ssa.Convert:
		set(x.convert(s, i.X, i.Type()))
	case *ssa.MakeInterface:
		set(&IfaceV{T: i.X.Type(), V: x.val(s, i.X)})
	case *ssa.Extract:
		tv, ok := x.val(s, i.Tuple).(TupleV)
		if !ok {
			panic("extract of non tuple")
		}
		set(tv[i.Index])
	case *ssa.Field:
		v := x.val(s, i.X)
		switch sv := v.(type) {
		case *StructV:
			set(sv.F[i.Field])
		case *Term:
			set(s.havoc(i.Type(), "extfield"))
		default:
			panic(fmt.Sprintf("field of %T", v))
		}
	case *ssa.FieldAddr:
		pv := x.val(s, i.X)
		if r, ok := pv.(*RoPtr); ok {
			set(&RoPtr{V: r.V.(*StructV).F[i.Field], ET: i.Type().Underlying().(*types.Pointer).Elem()})
			return
		}
		if t, ok := pv.(*Term); ok {
			// field of an opaque external struct
			x.require(s, "safe", "nil-deref", Not(ptrIsNil(t)))
			ft := i.Type().Underlying().(*types.Pointer).Elem()
			st := i.X.Type().Underlying().(*types.Pointer).Elem()
			nm := fmt.Sprintf("ext.field<%s.%d>", shortType(st), i.Field)
			set(&RoPtr{V: s.unfold(ft, mk(nm, sortOf(ft), t)), ET: ft})
			return
		}
		p := x.deref(s, pv, "field")
		if o := s.obj(p.Obj); o != nil {
			if _, ok := s.loadElemPath(o, o.V, p.Path).(*Term); ok {
				// special/opaque struct: field opaque
				ft := i.Type().Underlying().(*types.Pointer).Elem()
				set(&RoPtr{V: s.havoc(ft, "extfield"), ET: ft})
				return
			}
		}
		set(&PtrV{Obj: p.Obj, Path: appendPath(p.Path, sel{f: i.Field}), ET: i.Type().Underlying().(*types.Pointer).Elem()})
	case *ssa.Index:
		idx := x.term(s, i.Index)
		switch a := x.val(s, i.X).(type) {
		case *ArrayV:
			x.require(s, "safe", "index", And(Le(Int(0), idx), Lt(idx, Int(int64(len(a.E))))))
			set(s.arrayGet(a, idx))
		case *Term:
			x.require(s, "safe", "index", And(Le(Int(0), idx), Lt(idx, SeqLen(a))))
			set(s.unfold(i.Type(), SeqNth(a, idx)))
		default:
			panic(fmt.Sprintf("index of %T", a))
		}
	case *ssa.IndexAddr:
		idx := x.term(s, i.Index)
		et := i.Type().Underlying().(*types.Pointer).Elem()
		switch a := x.val(s, i.X).(type) {
		case *SliceV:
			ln := s.sliceLen(a)
			x.require(s, "safe", "index", And(Le(Int(0), idx), Lt(idx, ln)))
			if s.dead {
				return
			}
			o := x.objSlice(s, a)
			set(&PtrV{Obj: o.Obj, Path: []sel{{idx: Add(o.Off, idx)}}, ET: et})
		case *PtrV, *SymPtr:
			p := x.deref(s, a, "index")
			n := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			x.require(s, "safe", "index", And(Le(Int(0), idx), Lt(idx, Int(n))))
			if s.dead {
				return
			}
			set(&PtrV{Obj: p.Obj, Path: appendPath(p.Path, sel{idx: idx}), ET: et})
		case *RoPtr:
			av := a.V.(*ArrayV)
			x.require(s, "safe", "index", And(Le(Int(0), idx), Lt(idx, Int(int64(len(av.E))))))
			set(&RoPtr{V: s.arrayGet(av, idx), ET: et})
		default:
			panic(fmt.Sprintf("indexaddr of %T", a))
		}
	case *ssa.Lookup:
		x.lookup(s, i, set)
	case *ssa.MapUpdate:
		m := x.mapObj(s, x.val(s, i.Map), i.Map.Type())
		mt := i.Map.Type().Underlying().(*types.Map)
		k := s.foldFreeze(mt.Key(), x.val(s, i.Key))
		v := s.foldFreeze(mt.Elem(), x.val(s, i.Value))
		cur := s.obj(m).V.(*Term)
		x.recordWrite(s, m, nil)
		s.setObj(m, mapMk(cur.sort, False, Store(mapData(cur), k, optSome(v))))
		f.pc++
	case *ssa.MakeMap:
		mt := i.Type().Underlying().(*types.Map)
		ks, vs := mapKV(mt)
		id := s.alloc(i.Type(), mapMk(sortOf(i.Type()), False, ConstArray(ks, optNone(vs))), "map")
		set(&MapV{Obj: id, T: mt})
	case *ssa.MakeSlice:
		n := x.term(s, i.Len)
		et := i.Type().Underlying().(*types.Slice).Elem()
		x.require(s, "safe", "makeslice-len", And(Le(Int(0), n), Le(n, BigI(maxLen))))
		cp := x.term(s, i.Cap)
		if cp != n {
			x.require(s, "safe", "makeslice-cap", Le(n, cp))
		}
		if s.dead {
			return
		}
		var back Val
		if n.isInt() && n.ival.Int64() <= 256 {
			av := &ArrayV{ET: et}
			for k := int64(0); k < n.ival.Int64(); k++ {
				av.E = append(av.E, zeroVal(et))
			}
			back = av
		} else {
			z := s.fold(et, zeroVal(et))
			back = seqRepeat(z, n)
			s.assume(Eq(SeqLen(back.(*Term)), n))
		}
		id := s.alloc(types.NewSlice(et), back, "make")
		if _, ok := back.(*Term); ok {
			s.store[id].blen = n
		}
		set(&SliceV{ET: et, Obj: id, Off: Int(0), Len: n, Cap: cp})
	case *ssa.MakeClosure:
		fv := &FuncV{Fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			fv.Bind = append(fv.Bind, x.val(s, b))
		}
		set(fv)
	case *ssa.MakeChan:
		c := Fresh("chan", "Ext")
		s.assume(Not(ptrIsNil(c)))
		set(c)
	case *ssa.Slice:
		x.sliceOp(s, i, set)
	case *ssa.Store:
		if ignoredField(i.Addr) {
			f.pc++
			return
		}
		if _, ok := i.Addr.(*ssa.Global); ok {
			g := x.global(s, i.Addr.(*ssa.Global)).(*PtrV)
			x.store(s, g, x.val(s, i.Val))
			f.pc++
			return
		}
		pv := x.val(s, i.Addr)
		if _, ok := pv.(*RoPtr); ok {
			panic(unsupported("write through a read-only pointer"))
		}
		p := x.deref(s, pv, "store")
		x.store(s, p, x.val(s, i.Val))
		f.pc++
	case *ssa.TypeAssert:
		x.typeAssert(s, i, set)
	case *ssa.Range:
		x.rangeStart(s, i, set)
	case *ssa.Next:
		x.rangeNext(s, i, set)
	case *ssa.Call:
		x.call(s, f, i, i.Common())
	case *ssa.Go:
		eng.note("goroutine started in " + fnKey(f.fn) + " is not followed (sequential reasoning)")
		f.pc++
	case *ssa.Defer:
		d := deferred{call: i.Common()}
		d.fn, d.args = x.callTarget(s, i.Common())
		f.defers = append(f.defers, d)
		f.pc++
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			f.pc++
			return
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		x.doCall(s, f, nil, d.call, d.fn, d.args, false)
	case *ssa.Send:
		ct := i.Chan.Type().Underlying().(*types.Chan)
		if _, ok := ghostSorts["out"]; ok && types.IsInterface(ct.Elem()) {
			// ghost history of the values sent on channels of interfaces
			v := s.fold(ct.Elem(), x.val(s, i.X))
			s.ghost["out"] = SeqCat(s.ghost["out"], SeqUnit(v))
			for _, d := range x.dry {
				d.ghosts["out"] = true
			}
			eng.note("a channel send is recorded as history; that it blocks is not modelled")
		} else {
			eng.note("channel sends are not followed")
		}
		f.pc++
	case *ssa.Select:
		var tv TupleV
		n := int64(len(i.States))
		idx := Fresh("select", "Int")
		lo := int64(0)
		if !i.Blocking {
			lo = -1
		}
		s.assume(And(Le(Int(lo), idx), Lt(idx, Int(n))))
		tv = append(tv, idx, Fresh("recvok", "Bool"))
		tup := i.Type().(*types.Tuple)
		for k := 2; k < tup.Len(); k++ {
			tv = append(tv, s.havoc(tup.At(k).Type(), "recv"))
		}
		set(tv)
	case *ssa.Panic:
		x.require(s, "safe", "panic", False)
		s.dead = true
	case *ssa.Jump:
		x.goTo(s, f, f.block.Succs[0])
	case *ssa.If:
		x.branch(s, f, i)
	case *ssa.Return:
		x.ret(s, f, i)
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
}

var maxLen = new(big.Int).Lsh(bigOne, 47)

func appendPath(p []sel, q sel) []sel {
	n := make([]sel, len(p), len(p)+1)
	copy(n, p)
	return append(n, q)
}

func seqRepeat(z, n *Term) *Term {
	return SeqRepeat(z, n)
}

func (s *State) havoc(t types.Type, name string) Val {
	if tp, ok := t.(*types.Tuple); ok {
		var tv TupleV
		for i := 0; i < tp.Len(); i++ {
			tv = append(tv, s.havoc(tp.At(i).Type(), name))
		}
		return tv
	}
	return s.unfold(t, Fresh(name, sortOf(t)))
}

func (x *Exec) retype(s *State, v Val, t types.Type) Val {
	switch v := v.(type) {
	case *StructV:
		// re-tag: fields carry over
		u := t.Underlying().(*types.Struct)
		n := &StructV{T: t}
		for i, f := range v.F {
			n.F = append(n.F, x.retype(s, f, u.Field(i).Type()))
		}
		return n
	case *SliceV:
		n := *v
		n.ET = t.Underlying().(*types.Slice).Elem()
		return &n
	case *PtrV:
		n := *v
		n.ET = t.Underlying().(*types.Pointer).Elem()
		if v.Obj != 0 && typeKey(n.ET) != typeKey(v.ET) {
			// pointer to a type with a different identity: re-tag whole objects only
			if len(v.Path) == 0 {
				o := *s.store[v.Obj]
				if sv, ok := o.V.(*StructV); ok {
					o.V = x.retype(s, sv, n.ET)
					o.T = n.ET
					s.store[v.Obj] = &o
				}
			}
		}
		return &n
	case *SymPtr:
		p := t.Underlying().(*types.Pointer)
		so := sortOf(t)
		if so != v.S {
			panic(unsupported("conversion between pointer types"))
		}
		return &SymPtr{T: p, t: v.t, S: so}
	}
	return v
}

func (s *State) foldFreeze(t types.Type, v Val) *Term {
	s.freeze(t, v, 0)
	return s.fold(t, v)
}

func (s *State) freeze(t types.Type, v Val, d int) {
	if d > 30 {
		return
	}
	switch v := v.(type) {
	case *PtrV:
		if v.Obj != 0 {
			o := s.store[v.Obj]
			if !o.Frozen {
				n := *o
				n.Frozen = true
				s.store[v.Obj] = &n
				s.freeze(o.T, o.V, d+1)
			}
		}
	case *SymPtr:
		if id := s.mat[v.t]; id != 0 {
			s.freeze(nil, &PtrV{Obj: id}, d+1)
		}
	case *StructV:
		for _, f := range v.F {
			s.freeze(nil, f, d+1)
		}
	case *ArrayV:
		for _, f := range v.E {
			s.freeze(nil, f, d+1)
		}
	case *IfaceV:
		if v.T != nil {
			s.freeze(nil, v.V, d+1)
		}
	case *SliceV:
		if v.Obj != 0 {
			o := s.store[v.Obj]
			if !o.Frozen {
				n := *o
				n.Frozen = true
				s.store[v.Obj] = &n
				s.freeze(nil, o.V, d+1)
			}
		}
	}
}

// ---------- branching ----------

func (x *Exec) decide(s *State, c *Term) (mayT, mayF bool) {
	if c == True {
		return true, false
	}
	if c == False {
		return false, true
	}
	if s.pcset[c] {
		return true, false
	}
	if s.pcset[Not(c)] {
		return false, true
	}
	mayT = feasible(s.pc, c)
	if !mayT {
		return false, true
	}
	mayF = feasible(s.pc, Not(c))
	return
}

func (x *Exec) branch(s *State, f *Frame, i *ssa.If) {
	c := x.term(s, i.Cond)
	t, fl := f.block.Succs[0], f.block.Succs[1]
	mt, mf := x.decide(s, c)
	if mt && !mf {
		s.assume(c)
		x.goTo(s, f, t)
		return
	}
	if mf && !mt {
		s.assume(Not(c))
		x.goTo(s, f, fl)
		return
	}
	// symbolic: note loops whose exit is symbolic
	for h, l := range loopsOf(f.fn) {
		if l.blocks[f.block] && (!l.blocks[t] || !l.blocks[fl]) {
			f.symx[h]++
		}
	}
	s2 := s.clone()
	f2 := s2.top()
	s2.assume(Not(c))
	if !s2.dead {
		x.work = append(x.work, s2)
		// advance s2 lazily: mark jump
		s2.jump = fl
	}
	_ = f2
	s.assume(c)
	if !s.dead {
		x.goTo(s, f, t)
	}
}

func (x *Exec) unrollLimit() int {
	if x.c.Unroll > 0 {
		return x.c.Unroll
	}
	return 3
}

func (x *Exec) goTo(s *State, f *Frame, b *ssa.BasicBlock) {
	from := f.block
	ls := loopsOf(f.fn)
	// leaving loops
	for h := range f.inv {
		if !ls[h].blocks[b] {
			delete(f.inv, h)
			// dry runs end when leaving the loop
			for _, d := range x.dry {
				if d.frame == f.id && d.header == h {
					s.dead = true
					return
				}
			}
		}
	}
	if l := ls[b]; l != nil {
		if l.blocks[from] { // back edge
			if inv := f.inv[b]; inv != nil {
				x.backEdge(s, f, b, inv)
				s.dead = true
				return
			}
			f.visits[b]++
			lim := 70
			if f.symx[b] > 0 {
				lim = x.unrollLimit()
			}
			if f.visits[b] > lim {
				panic(restart{loopKey{f.fn, b.Index}})
			}
		} else {
			f.visits[b] = 0
			f.symx[b] = 0
			if x.invMode[loopKey{f.fn, b.Index}] {
				x.enterLoop(s, f, b, l)
				return
			}
		}
	}
	x.moveTo(s, f, from, b)
}

func (x *Exec) moveTo(s *State, f *Frame, from, b *ssa.BasicBlock) {
	pi := predIndex(b, from)
	var vs []Val
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vs = append(vs, x.val(s, p.Edges[pi]))
	}
	for k, p := range ps {
		f.env[p] = vs[k]
	}
	f.prev = from
	f.block = b
	f.pc = len(ps)
}

func predIndex(b, from *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == from {
			return i
		}
	}
	panic("pred")
}

// ---------- return ----------

func (x *Exec) ret(s *State, f *Frame, i *ssa.Return) {
	var rv Val
	var vals []Val
	for _, r := range i.Results {
		vals = append(vals, x.val(s, r))
	}
	if len(vals) == 1 {
		rv = vals[0]
	} else {
		rv = TupleV(vals)
	}
	if len(s.frames) == 1 {
		if len(x.dry) == 0 {
			x.retAt = append(x.retAt, i)
		}
		x.finish(s, vals)
		s.done = true
		return
	}
	s.frames = s.frames[:len(s.frames)-1]
	c := s.top()
	if f.call != nil {
		c.env[f.call] = rv
		c.pc++
	}
	// deferred calls (f.call == nil && !advance) simply resume RunDefers
	if f.call == nil && f.adv {
		c.pc++
	}
}

func (x *Exec) finish(s *State, vals []Val) {
	if len(x.dry) > 0 {
		return
	}
	x.dones++
	x.retPC = append(x.retPC, s.pc)
	env := &specEnv{map[string]*Term{}, x.pre}
	for k, p := range x.fn.Params {
		n := x.c.Params[k]
		env.vars[n] = s.fold(p.Type(), s.frames[0].env[p])
	}
	for g, t := range s.ghost {
		env.vars["ghost_"+g] = t
	}
	res := x.fn.Signature.Results()
	if len(x.c.Results) != res.Len() {
		panic(unsupported(fmt.Sprintf("contract for %s names %d results, function has %d", x.key, len(x.c.Results), res.Len())))
	}
	for k := 0; k < res.Len(); k++ {
		env.vars[x.c.Results[k]] = s.fold(res.At(k).Type(), vals[k])
	}
	for _, l := range x.c.Lets {
		env.vars[l.Label] = env.eval(l.E)
	}
	var hints []*Term
	for _, h := range x.c.Hints {
		hints = append(hints, env.eval(h.E))
	}
	n0 := len(x.obls)
	for _, e := range x.c.Ensures {
		g := env.eval(e.E)
		if g == True {
			x.emitTrivial(s, "ensures", e.Label)
			continue
		}
		x.emit(s, "ensures", e.Label, g)
	}
	// frame
	for k, p := range x.fn.Params {
		n := x.c.Params[k]
		if hasStr(x.c.Modifies, n) || n == "_" {
			continue
		}
		if !mutable(p.Type()) {
			continue
		}
		g := Eq(env.vars[n], x.pre[n])
		if g != True {
			x.emit(s, "frame", n, g)
		}
	}
	for g, t := range s.ghost {
		if hasStr(x.c.Modifies, "ghost_"+g) {
			continue
		}
		if gl := Eq(t, x.pre["ghost_"+g]); gl != True {
			x.emit(s, "frame", "ghost_"+g, gl)
		}
	}
	// locks released
	for id, o := range s.store {
		_ = id
		x.lockCheck(s, o)
	}
	for _, o := range x.obls[n0:] {
		o.Hints = hints
	}
}

func (x *Exec) emitTrivial(s *State, kind, label string) {
	o := &Obl{Name: x.key + "/" + kind + ":" + label, Func: x.key, Kind: kind, Label: label, Pos: x.posOf(s), Goal: True, Props: x.c.Props, Status: "proved", By: "simplifier"}
	x.obls = append(x.obls, o)
}

func (x *Exec) lockCheck(s *State, o *Object) {
	if o.Stale {
		return
	}
	var walk func(t types.Type, v Val, path []sel)
	walk = func(t types.Type, v Val, path []sel) {
		if t == nil {
			return
		}
		k := typeKey(t)
		if k == "sync.Mutex" || k == "sync.RWMutex" {
			if tv, ok := v.(*Term); ok && o.locked[fmt.Sprint(path)] && tv != False {
				x.emit(s, "safe", "lock-released", Not(tv))
			}
			return
		}
		if sv, ok := v.(*StructV); ok {
			u := sv.T.Underlying().(*types.Struct)
			for i := range sv.F {
				walk(u.Field(i).Type(), sv.F[i], append(append([]sel{}, path...), sel{f: i}))
			}
		}
	}
	walk(o.T, o.V, nil)
}

func hasStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func mutable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map:
		return true
	}
	return false
}
