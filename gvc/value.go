package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is one of:
//
//	*Term                     scalar (ints, bools, strings, floats, ext, chan)
//	*StructV, *ArrayV         aggregate values
//	*PtrV                     concrete pointer (Obj==0: nil)
//	*SymPtr                   symbolic pointer, not yet materialised
//	*RoPtr                    pointer to an immutable element
//	*SliceV
//	*MapV, *SymMap
//	*IfaceV, *SymIfc
//	*FuncV, *SymFn
//	TupleV
type Val interface{}

type StructV struct {
	T types.Type
	F []Val
}
type ArrayV struct {
	From *Term // the sequence it was read from (same length), or nil
	ET   types.Type
	E    []Val
}
type PtrV struct {
	Obj  int
	Path []sel
	ET   types.Type
}
type sel struct {
	f   int   // field index if idx==nil
	idx *Term // element index
}
type SymPtr struct {
	T *types.Pointer
	t *Term
	S string // sort
}
type RoPtr struct {
	V  Val
	ET types.Type
	id *Term // identity term
}
type SliceV struct {
	ET types.Type
	// object form
	Obj           int
	Off, Len, Cap *Term
	// value form (Obj==0)
	Data *Term
	NilC *Term
	View *PtrV // view of an array field (copy)
}
type MapV struct {
	Obj int
	T   *types.Map
}
type SymMap struct {
	T *types.Map
	t *Term
}
type IfaceV struct {
	T types.Type // dynamic type; nil => nil interface
	V Val
}
type SymIfc struct{ t *Term }
type FuncV struct {
	Fn   *ssa.Function
	Bind []Val
}
type SymFn struct {
	T types.Type
	t *Term
}
type TupleV []Val

type IterV struct { // map / string iterator
	Obj int
}

type Object struct {
	T      types.Type
	V      Val  // for slices backing: *ArrayV or *Term (Seq); for maps: *Term (Map sort)
	Frozen bool // content captured by value somewhere: must not change any more
	Stale  bool // moved
	RO     bool // not writable (not in modifies)
	name   string
	pre    bool // exists before the function
	from   *Term
	sealed bool
	blen   *Term // length of the backing array, if known
	locked map[string]bool // locks taken or released so far
}

type Frame struct {
	id        int
	fn        *ssa.Function
	env       map[ssa.Value]Val
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	pc        int
	defers    []deferred
	call      ssa.Value // value in caller receiving the result
	visits    map[*ssa.BasicBlock]int
	panicking bool
	adv       bool
	inv       map[*ssa.BasicBlock]*invInfo
	symx      map[*ssa.BasicBlock]int
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
}

type State struct {
	frames   []*Frame
	store    map[int]*Object
	mat      map[*Term]int // materialised symbolic pointers/maps: term -> obj (0 nil)
	ghost    map[string]*Term
	pc       []*Term
	pcset    map[*Term]bool
	dead     bool
	ret      Val
	done     bool
	panicked bool
	note     []string
	depth    int
	jump     *ssa.BasicBlock
	iters    map[int]*iterInfo
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) clone() *State {
	n := &State{dead: s.dead, ret: s.ret, done: s.done, panicked: s.panicked, depth: s.depth}
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]Val, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.visits = make(map[*ssa.BasicBlock]int, len(f.visits))
		for k, v := range f.visits {
			g.visits[k] = v
		}
		g.inv = make(map[*ssa.BasicBlock]*invInfo, len(f.inv))
		for k, v := range f.inv {
			g.inv[k] = v
		}
		g.symx = make(map[*ssa.BasicBlock]int, len(f.symx))
		for k, v := range f.symx {
			g.symx[k] = v
		}
		g.defers = append([]deferred(nil), f.defers...)
		n.frames[i] = &g
	}
	n.store = make(map[int]*Object, len(s.store))
	for k, v := range s.store {
		n.store[k] = v // objects are copy-on-write (see setObj)
	}
	n.mat = make(map[*Term]int, len(s.mat))
	for k, v := range s.mat {
		n.mat[k] = v
	}
	n.ghost = make(map[string]*Term, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.pcset = make(map[*Term]bool, len(s.pcset))
	for k := range s.pcset {
		n.pcset[k] = true
	}
	n.iters = s.iters
	n.note = s.note[:len(s.note):len(s.note)]
	return n
}

func (s *State) assume(t *Term) {
	if t == True || s.pcset[t] {
		return
	}
	if t.op == "and" && t.kind == kApp {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	if t == False || s.pcset[Not(t)] {
		s.dead = true
	}
	s.pcset[t] = true
	s.pc = append(s.pc, t)
}

var objSeq int

func (s *State) alloc(t types.Type, v Val, name string) int {
	objSeq++
	s.store[objSeq] = &Object{T: t, V: v, name: name}
	return objSeq
}

func (s *State) obj(id int) *Object { return s.store[id] }

func (s *State) setObj(id int, v Val) {
	o := *s.store[id]
	o.V = v
	s.store[id] = &o
}

func zeroVal(t types.Type) Val {
	t = types.Unalias(t)
	k := typeKey(t)
	switch specialSort[k] {
	case "Int":
		return Int(0)
	case "(Seq Int)":
		return SeqEmpty("Int")
	case "Bool":
		return False
	}
	if n := named(t); n != nil && isExtOpaque(n) {
		return Const("ext.zero<"+shortType(t)+">", "Ext")
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch sortOf(t) {
		case "Bool":
			return False
		case "Int":
			return Int(0)
		case "(Seq Int)":
			return SeqEmpty("Int")
		case "Real":
			return Const("0.0", "Real")
		}
		return Const("ext.nil", "Ext")
	case *types.Struct:
		v := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			v.F = append(v.F, zeroVal(u.Field(i).Type()))
		}
		return v
	case *types.Array:
		v := &ArrayV{ET: u.Elem()}
		for i := int64(0); i < u.Len(); i++ {
			v.E = append(v.E, zeroVal(u.Elem()))
		}
		return v
	case *types.Pointer:
		if sortOf(t) == "Ext" {
			return Const("ext.nil", "Ext")
		}
		return &PtrV{ET: u.Elem()}
	case *types.Slice:
		return &SliceV{ET: u.Elem(), Data: SeqEmpty(sortOf(u.Elem())), NilC: True}
	case *types.Map:
		return &MapV{T: u}
	case *types.Interface:
		return &IfaceV{}
	case *types.Signature:
		return &SymFn{T: t, t: Const("fn.nil", "Fn")}
	case *types.Chan:
		return Const("ext.nil", "Ext")
	}
	panic("zeroVal " + t.String())
}

// ---------- fold / unfold ----------

// unfold turns a deep term into a value (lazy for pointers, interfaces, maps).
func (s *State) unfold(t types.Type, x *Term) Val {
	t = types.Unalias(t)
	if _, ok := specialSort[typeKey(t)]; ok {
		return x
	}
	if n := named(t); n != nil && isExtOpaque(n) {
		return x
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if x.sort == "(Seq Int)" && !x.hasBV {
			s.assume(isBytes(x))
			s.assume(Le(SeqLen(x), BigI(maxLen)))
		}
		if x.sort == "Int" && x.kind != kInt {
			if !x.hasBV {
				s.assume(inRange(x, t))
			}
		}
		return x
	case *types.Struct:
		v := &StructV{T: t}
		so := sortOf(t)
		fs := dts[so].ctors[0].fields
		for i := 0; i < u.NumFields(); i++ {
			v.F = append(v.F, s.unfold(u.Field(i).Type(), Sel(fs[i].name, x)))
		}
		return v
	case *types.Array:
		v := &ArrayV{ET: u.Elem()}
		s.assume(Eq(SeqLen(x), Int(u.Len())))
		for i := int64(0); i < u.Len(); i++ {
			v.E = append(v.E, s.unfold(u.Elem(), SeqNth(x, Int(i))))
		}
		if u.Len() > 0 && u.Len() <= 64 && x.sort == "(Seq Int)" {
			v.From = x
		}
		return v
	case *types.Pointer:
		so := sortOf(t)
		if so == "Ext" {
			return x
		}
		if isCtor(x) && x.op == "nil<"+so+">" {
			return &PtrV{ET: u.Elem()}
		}
		return &SymPtr{T: u, t: x, S: so}
	case *types.Slice:
		d, n := slData(x), slNil(x)
		if n != False && !x0hasBV(n) {
			s.assume(Implies(n, Eq(SeqLen(d), Int(0))))
		}
		if sortOf(u.Elem()) == "Int" && !d.hasBV {
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && intBits(b) == 8 {
				s.assume(isBytes(d))
			}
		}
		if !d.hasBV {
			s.assume(Le(SeqLen(d), BigI(maxLen)))
		}
		return &SliceV{ET: u.Elem(), Data: d, NilC: n}
	case *types.Map:
		return &SymMap{T: u, t: x}
	case *types.Interface:
		return s.unfoldIfc(x)
	case *types.Signature:
		return &SymFn{T: t, t: x}
	case *types.Chan:
		return x
	}
	panic("unfold " + t.String())
}

func (s *State) unfoldIfc(x *Term) Val {
	if x == ifcNil {
		return &IfaceV{}
	}
	if strings.HasPrefix(x.op, "ifc<") && len(x.args) == 1 {
		if t, ok := ifcTypes[x.op]; ok {
			return &IfaceV{T: t, V: s.unfold(t, x.args[0])}
		}
	}
	return &SymIfc{x}
}

var ifcNil = Const("ifc.nil", "Ifc")
var ifcTypes = map[string]types.Type{}
var ifcTags = map[string]int64{}

func ifcTag(t types.Type) *Term {
	k := shortType(t)
	n, ok := ifcTags[k]
	if !ok {
		n = int64(len(ifcTags) + 1)
		ifcTags[k] = n
	}
	return Int(n)
}
func ifcCtor(t types.Type) string {
	op := "ifc<" + shortType(t) + ">"
	ifcTypes[op] = t
	ifcTag(t)
	return op
}
func ifcPayload(t types.Type, x *Term) *Term {
	op := ifcCtor(t)
	if x.op == op {
		return x.args[0]
	}
	return mk("pay"+op[3:], sortOf(t), x)
}
func ifcTagOf(x *Term) *Term {
	if x == ifcNil {
		return Int(0)
	}
	if t, ok := ifcTypes[x.op]; ok {
		return ifcTag(t)
	}
	return mk("ifc.tag", "Int", x)
}

// fold converts a value to its deep term in this state.
func (s *State) fold(t types.Type, v Val) *Term { return s.fold1(t, v, 0) }

func (s *State) fold1(t types.Type, v Val, depth int) *Term {
	if depth > 40 {
		panic(unsupported("cyclic or too deep structure while folding " + t.String()))
	}
	t = types.Unalias(t)
	switch v := v.(type) {
	case *Term:
		return v
	case *StructV:
		u := t.Underlying().(*types.Struct)
		so := sortOf(t)
		var as []*Term
		for i, f := range v.F {
			as = append(as, s.fold1(u.Field(i).Type(), f, depth+1))
		}
		return Ctor("mk<"+so+">", as...)
	case *ArrayV:
		if v.From != nil {
			same := true
			for i, e := range v.E {
				same = same && e == Val(SeqNth(v.From, Int(int64(i))))
			}
			if same {
				return v.From
			}
		}
		var as []*Term
		for _, e := range v.E {
			as = append(as, SeqUnit(s.fold1(v.ET, e, depth+1)))
		}
		if len(as) == 0 {
			return SeqEmpty(sortOf(v.ET))
		}
		return SeqCat(as...)
	case *PtrV:
		so := sortOf(t)
		if v.Obj == 0 {
			return ptrNil(so)
		}
		if so == "Ext" {
			return Const(fmt.Sprintf("ext.obj%d", v.Obj), "Ext")
		}
		o := s.obj(v.Obj)
		if o.Stale {
			panic(unsupported("use of moved object " + o.name))
		}
		return ptrRef(so, s.fold1(v.ET, s.loadElemPath(o, o.V, v.Path), depth+1))
	case *SymPtr:
		if id, ok := s.mat[v.t]; ok {
			if id == 0 {
				return ptrNil(v.S)
			}
			return ptrRef(v.S, s.fold1(v.T.Elem(), s.obj(id).V, depth+1))
		}
		return v.t
	case *RoPtr:
		so := sortOf(t)
		return ptrRef(so, s.fold1(v.ET, v.V, depth+1))
	case *SliceV:
		return slMk(s.sliceNil(v), s.sliceData(v))
	case *MapV:
		so := sortOf(t)
		if v.Obj == 0 {
			ks, vs := mapKV(v.T)
			return mapMk(so, True, ConstArray(ks, optNone(vs)))
		}
		return s.obj(v.Obj).V.(*Term)
	case *SymMap:
		if id, ok := s.mat[v.t]; ok && id != 0 {
			return s.obj(id).V.(*Term)
		}
		return v.t
	case *IfaceV:
		if v.T == nil {
			return ifcNil
		}
		return mk(ifcCtor(v.T), "Ifc", s.fold1(v.T, v.V, depth+1))
	case *SymIfc:
		return v.t
	case *FuncV:
		if len(v.Bind) == 0 {
			return Const("fn:"+v.Fn.String(), "Fn")
		}
		return Const(fmt.Sprintf("fn:%s@%p", v.Fn.String(), v), "Fn")
	case *SymFn:
		return v.t
	case TupleV:
		return Const("ext.nil", "Ext")
	}
	panic(fmt.Sprintf("fold %T for %s", v, t))
}

func mapKV(m *types.Map) (string, string) { return sortOf(m.Key()), sortOf(m.Elem()) }

func (s *State) sliceNil(v *SliceV) *Term {
	if v.Obj != 0 {
		return False
	}
	return v.NilC
}

func (s *State) sliceLen(v *SliceV) *Term {
	if v.Obj != 0 {
		return v.Len
	}
	return SeqLen(v.Data)
}

// backing content as a Seq term
func (s *State) backing(id int) *Term {
	o := s.obj(id)
	if o.Stale {
		panic(unsupported("use of moved array " + o.name))
	}
	switch b := o.V.(type) {
	case *Term:
		return b
	case *ArrayV:
		return s.fold(types.NewArray(b.ET, int64(len(b.E))), b)
	}
	panic("backing")
}

func (s *State) sliceData(v *SliceV) *Term {
	if v.Obj == 0 {
		if id, ok := s.mat[v.Data]; ok {
			return s.backing(id)
		}
		return v.Data
	}
	o := s.obj(v.Obj)
	if a, ok := o.V.(*ArrayV); ok && v.Off.isInt() && v.Len.isInt() {
		off, n := v.Off.ival.Int64(), v.Len.ival.Int64()
		if off >= 0 && n >= 0 && off+n <= int64(len(a.E)) {
			sub := &ArrayV{ET: a.ET, E: a.E[off : off+n]}
			return s.fold(types.NewArray(a.ET, n), sub)
		}
	}
	if o.blen != nil && v.Len == o.blen && v.Off.isInt() && v.Off.ival.Sign() == 0 {
		return s.backing(v.Obj)
	}
	return SeqSub(s.backing(v.Obj), v.Off, Add(v.Off, v.Len))
}

// ---------- paths ----------

func (s *State) loadPath(v Val, path []sel) Val {
	for _, p := range path {
		switch x := v.(type) {
		case *StructV:
			v = x.F[p.f]
		case *ArrayV:
			v = s.arrayGet(x, p.idx)
		case *Term:
			// symbolic sequence backing
			if strings.HasPrefix(x.sort, "(Seq ") && p.idx != nil {
				panic("loadPath on seq needs type")
			}
			panic(fmt.Sprintf("loadPath term %s", x))
		default:
			panic(fmt.Sprintf("loadPath %T", v))
		}
	}
	return v
}

func (s *State) arrayGet(x *ArrayV, idx *Term) Val {
	if idx.isInt() {
		i := idx.ival.Int64()
		if i < 0 || i >= int64(len(x.E)) {
			panic(unsupported("array index out of range reached"))
		}
		return x.E[i]
	}
	// ite chain on folded terms
	if len(x.E) == 0 {
		panic(unsupported("index into empty array"))
	}
	t := s.fold(x.ET, x.E[len(x.E)-1])
	for i := len(x.E) - 2; i >= 0; i-- {
		t = Ite(Eq(idx, Int(int64(i))), s.fold(x.ET, x.E[i]), t)
	}
	return s.unfold(x.ET, t)
}

func (s *State) loadElemPath(o *Object, v Val, path []sel) Val {
	if t, ok := v.(*Term); ok && len(path) > 0 && path[0].idx != nil && strings.HasPrefix(t.sort, "(Seq ") {
		et := elemType(o.T)
		e := s.unfold(et, SeqNth(t, path[0].idx))
		return s.loadPath(e, path[1:])
	}
	return s.loadPath(v, path)
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	}
	panic("elemType " + t.String())
}

func (s *State) storePath(ot types.Type, v Val, path []sel, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	switch x := v.(type) {
	case *StructV:
		n := &StructV{T: x.T, F: append([]Val(nil), x.F...)}
		ft := x.T.Underlying().(*types.Struct).Field(p.f).Type()
		n.F[p.f] = s.storePath(ft, x.F[p.f], path[1:], nv)
		return n
	case *ArrayV:
		n := &ArrayV{ET: x.ET, E: append([]Val(nil), x.E...)}
		if p.idx.isInt() {
			i := p.idx.ival.Int64()
			if i < 0 || i >= int64(len(x.E)) {
				panic(unsupported("array index out of range reached"))
			}
			n.E[i] = s.storePath(x.ET, x.E[i], path[1:], nv)
			return n
		}
		for i := range n.E {
			upd := s.fold(x.ET, s.storePath(x.ET, x.E[i], path[1:], nv))
			old := s.fold(x.ET, x.E[i])
			n.E[i] = s.unfold(x.ET, Ite(Eq(p.idx, Int(int64(i))), upd, old))
		}
		return n
	case *Term:
		et := elemType(ot)
		e := s.unfold(et, SeqNth(x, p.idx))
		e2 := s.storePath(et, e, path[1:], nv)
		return SeqUpdate(x, p.idx, s.fold(et, e2))
	}
	panic(fmt.Sprintf("storePath %T", v))
}

type unsupportedErr struct{ msg string }

func (u unsupportedErr) Error() string    { return "unsupported: " + u.msg }
func unsupported(m string) unsupportedErr { return unsupportedErr{m} }

func x0hasBV(t *Term) bool { return t.hasBV }

// isBytes(s): every element of s is in 0..255.
func isBytes(t *Term) *Term {
	if us, ok := unitList(t); ok {
		var cs []*Term
		for _, u := range us {
			cs = append(cs, And(Le(Int(0), u), Le(u, Int(255))))
		}
		return And(cs...)
	}
	if t.op == "seq.++" {
		var cs []*Term
		for _, a := range t.args {
			cs = append(cs, isBytes(a))
		}
		return And(cs...)
	}
	return mk("isbytes", "Bool", t)
}
